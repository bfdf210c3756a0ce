# Contracts of src/object_info.rs  (C06, C09, C10, C11, C12, C17)
@file src/object_info.rs
@enum Type PartialEq, Eq, Structural
@struct ObjectInfo
@raw
impl VxEq for Type { open spec fn vx_same(&self, o: &Type) -> bool { *self == *o } }
// ---------------------------------------------------------------- references of the records
pub open spec fn sym_refs_ok(s: Symbol, nf: nat, no: nat) -> bool {
    &&& file_ids_below(s.source.lines@, nf)
    &&& forall|k: InlineSite| #[trigger] s.source.inlines@.contains_key(k) ==> k.inline_origin_id < no && k.call_file_id < nf
    &&& inlines_wf(s.source.inlines@)
    &&& s.is_public ==> no_lines(s.source)
}
/// every file and origin id of the dump is in its tables
pub open spec fn refs_ok(o: ObjectInfo) -> bool {
    forall|k: u32| #[trigger] o.symbols@.contains_key(k) ==> sym_refs_ok(o.symbols@[k], o.files.id_to_ref@.len(), o.inline_origins@.len())
}
pub open spec fn obj_ok(o: ObjectInfo) -> bool { map_wf(o.files) && syms_wf(o.symbols@) && refs_ok(o) && o.inline_origins@.len() <= u32::MAX }
// ---------------------------------------------------------------- C09, C10
pub open spec fn with_multiple(s: Symbol) -> Symbol {
    Symbol { name: s.name, is_public: s.is_public, is_multiple: true, is_synthetic: s.is_synthetic, rva: s.rva, len: s.len, parameter_size: s.parameter_size, source: s.source }
}
/// f is the function b with its file and origin ids renamed
pub open spec fn moved(b: Symbol, f: Symbol, fm: Option<Seq<u32>>, om: Seq<u32>, multiple: bool) -> bool {
    &&& f.name == b.name && f.is_public == b.is_public && f.is_synthetic == b.is_synthetic && f.rva == b.rva && f.len == b.len && f.parameter_size == b.parameter_size
    &&& f.is_multiple == multiple
    &&& f.source.lines@ == (match fm { Some(m) => remapped_lines(b.source.lines@, m), None => b.source.lines@ })
    &&& inlines_remapped(b.source.inlines@, f.source.inlines@, fm, om)
}
pub open spec fn same_at(a: Map<u32, Symbol>, f: Map<u32, Symbol>, k: u32) -> bool {
    f.contains_key(k) == a.contains_key(k) && (a.contains_key(k) ==> f[k] == a[k])
}
pub open spec fn is_at(f: Map<u32, Symbol>, k: u32, s: Symbol) -> bool { f.contains_key(k) && f[k] == s }
/// C09: what the merged dump f has at address k; a is the dump with more symbols
pub open spec fn merged_at(a: Map<u32, Symbol>, b: Map<u32, Symbol>, f: Map<u32, Symbol>, fm: Option<Seq<u32>>, om: Seq<u32>, k: u32) -> bool {
    if !b.contains_key(k) { same_at(a, f, k) }
    else if b[k].is_public {
        if inside(f, k) { same_at(a, f, k) }
        else if !a.contains_key(k) { is_at(f, k, b[k]) }
        else if b[k].is_synthetic { same_at(a, f, k) }
        else if a[k].is_synthetic { is_at(f, k, b[k]) }
        else if a[k].name@ != b[k].name@ { is_at(f, k, with_multiple(a[k])) }
        else { same_at(a, f, k) }
    } else {
        if !a.contains_key(k) { f.contains_key(k) && moved(b[k], f[k], fm, om, b[k].is_multiple) }
        else if a[k].is_public { f.contains_key(k) && moved(b[k], f[k], fm, om, true) }
        else { is_at(f, k, with_multiple(a[k])) }
    }
}
/// C10: an id of the dump with more symbols keeps its path; id i of the other one becomes rm(fm, i) with the same path
pub open spec fn files_follow(a: ObjectInfo, b: ObjectInfo, f: ObjectInfo, fm: Option<Seq<u32>>) -> bool {
    &&& map_wf(f.files) && f.files.id_to_ref@.len() <= a.files.id_to_ref@.len() + b.files.id_to_ref@.len()
    &&& a.files.id_to_ref@.len() <= f.files.id_to_ref@.len()
    &&& forall|i: int| 0 <= i < a.files.id_to_ref@.len() ==> (#[trigger] f.files.id_to_ref@[i])@ == a.files.id_to_ref@[i]@
    &&& fm is Some ==> fm->0.len() == b.files.id_to_ref@.len() && injective(fm->0)
    &&& forall|i: u32| i < b.files.id_to_ref@.len() ==> #[trigger] rm(fm, i) < f.files.id_to_ref@.len() && f.files.id_to_ref@[rm(fm, i) as int]@ == b.files.id_to_ref@[i as int]@
    &&& forall|g: spec_fn(Seq<char>) -> Seq<char>| #[trigger] shows(a.files, g) && #[trigger] shows(b.files, g) ==> shows(f.files, g)
}
pub open spec fn origins_follow(a: ObjectInfo, b: ObjectInfo, f: ObjectInfo, om: Seq<u32>) -> bool {
    &&& om.len() == b.inline_origins@.len() && injective(om)
    &&& a.inline_origins@.len() <= f.inline_origins@.len() <= a.inline_origins@.len() + b.inline_origins@.len()
    &&& forall|i: int| 0 <= i < a.inline_origins@.len() ==> (#[trigger] f.inline_origins@[i])@ == a.inline_origins@[i]@
    &&& forall|i: int| 0 <= i < om.len() ==> (#[trigger] om[i]) < f.inline_origins@.len() && f.inline_origins@[om[i] as int]@ == b.inline_origins@[i]@
}
pub open spec fn merged_with(a: ObjectInfo, b: ObjectInfo, f: ObjectInfo, fm: Option<Seq<u32>>, om: Seq<u32>) -> bool {
    &&& files_follow(a, b, f, fm)
    &&& origins_follow(a, b, f, om)
    &&& forall|k: u32| #[trigger] merged_at(a.symbols@, b.symbols@, f.symbols@, fm, om, k)
}
// ---------------------------------------------------------------- C11
pub open spec fn stack_merged(a: Seq<char>, b: Seq<char>) -> Seq<char> {
    if a.len() == 0 { b } else if b.len() == 0 { a } else if a.last() == '\n' { a + b } else { a.push('\n') + b }
}
pub open spec fn ident_merged(a: ObjectInfo, b: ObjectInfo, f: ObjectInfo) -> bool {
    &&& f.stack@ == stack_merged(a.stack@, b.stack@)
    &&& f.debug_id@ == a.debug_id@ && f.platform == a.platform && f.cpu == a.cpu && f.pe_name == a.pe_name && f.bin_type == a.bin_type
    &&& f.code_id == (if a.code_id is Some { a.code_id } else { b.code_id })
    &&& f.file_name == (if b.bin_type is Stripped { b.file_name } else { a.file_name })
}
/// f is the dump a (the one with more symbols) merged with b
pub open spec fn merge_of(a: ObjectInfo, b: ObjectInfo, f: ObjectInfo) -> bool {
    ident_merged(a, b, f) && exists|fm: Option<Seq<u32>>, om: Seq<u32>| #[trigger] merged_with(a, b, f, fm, om)
}
pub open spec fn opt_seq(o: Option<Vec<u32>>) -> Option<Seq<u32>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn same_shows(a: SourceMap, b: SourceMap) -> bool { exists|g: spec_fn(Seq<char>) -> Seq<char>| #[trigger] shows(a, g) && shows(b, g) }
pub open spec fn agree_below(m: Map<u32, Symbol>, n: Map<u32, Symbol>, a: u32) -> bool { forall|k: u32| k < a ==> #[trigger] same_at(m, n, k) }
/// whether an address lies inside a symbol depends on the lower addresses only
pub proof fn lemma_inside_local(m: Map<u32, Symbol>, n: Map<u32, Symbol>, a: u32)
    requires agree_below(m, n, a)
    ensures inside(m, a) == inside(n, a)
{
    assert forall|k: u32| nearest_below(m, a, k) == nearest_below(n, a, k) by {
        if nearest_below(m, a, k) { assert(same_at(m, n, k)); assert forall|j: u32| #[trigger] n.contains_key(j) && j < a implies j <= k by { assert(same_at(m, n, j)); } }
        if nearest_below(n, a, k) { assert(same_at(m, n, k)); assert forall|j: u32| #[trigger] m.contains_key(j) && j < a implies j <= k by { assert(same_at(m, n, j)); } }
    }
    if inside(m, a) { let k = choose|k: u32| #[trigger] nearest_below(m, a, k) && k + m[k].len > a; assert(same_at(m, n, k)); assert(nearest_below(n, a, k)); }
    if inside(n, a) { let k = choose|k: u32| #[trigger] nearest_below(n, a, k) && k + n[k].len > a; assert(same_at(m, n, k)); assert(nearest_below(m, a, k)); }
}
/// the state of the merge when all addresses below `bound` are done
pub open spec fn merging(a: Map<u32, Symbol>, b: Map<u32, Symbol>, f: Map<u32, Symbol>, fm: Option<Seq<u32>>, om: Seq<u32>, bound: int) -> bool {
    &&& forall|k: u32| k < bound ==> #[trigger] merged_at(a, b, f, fm, om, k)
    &&& forall|k: u32| k >= bound ==> #[trigger] same_at(a, f, k)
}
pub open spec fn changed_only(f: Map<u32, Symbol>, n: Map<u32, Symbol>, k: u32) -> bool { forall|j: u32| j != k ==> #[trigger] same_at(f, n, j) }
/// one more address, after a stretch without an entry of b
pub proof fn lemma_merging(a: Map<u32, Symbol>, b: Map<u32, Symbol>, f: Map<u32, Symbol>, n: Map<u32, Symbol>, fm: Option<Seq<u32>>, om: Seq<u32>, bound: int, k: u32)
    requires merging(a, b, f, fm, om, bound), bound <= k, forall|j: u32| bound <= j < k ==> !#[trigger] b.contains_key(j),
        changed_only(f, n, k), merged_at(a, b, n, fm, om, k)
    ensures merging(a, b, n, fm, om, k + 1)
{
    assert forall|j: u32| j < k + 1 implies #[trigger] merged_at(a, b, n, fm, om, j) by {
        if j < k {
            assert(agree_below(f, n, j)) by { assert forall|i: u32| i < j implies #[trigger] same_at(f, n, i) by { } }
            lemma_inside_local(f, n, j);
            assert(same_at(f, n, j));
            if j < bound { assert(merged_at(a, b, f, fm, om, j)); } else { assert(same_at(a, f, j)); assert(!b.contains_key(j)); }
        }
    }
    assert forall|j: u32| j >= k + 1 implies #[trigger] same_at(a, n, j) by { assert(same_at(a, f, j)); assert(same_at(f, n, j)); }
}
/// the lines and sites of a moved function are in range of the new tables
pub proof fn lemma_moved_refs(a: ObjectInfo, b: ObjectInfo, f: ObjectInfo, fm: Option<Seq<u32>>, om: Seq<u32>, s: Symbol, t: Symbol, m: bool)
    requires files_follow(a, b, f, fm), origins_follow(a, b, f, om), moved(s, t, fm, om, m), !s.is_public, sym_refs_ok(s, b.files.id_to_ref@.len(), b.inline_origins@.len())
    ensures sym_refs_ok(t, f.files.id_to_ref@.len(), f.inline_origins@.len())
{
    assert forall|i: int| 0 <= i < t.source.lines@.len() implies (#[trigger] t.source.lines@[i]).file_id < f.files.id_to_ref@.len() by {
        assert(s.source.lines@[i].file_id < b.files.id_to_ref@.len());
        assert(rm(fm, s.source.lines@[i].file_id) < f.files.id_to_ref@.len());
    }
    assert forall|k: InlineSite| #[trigger] t.source.inlines@.contains_key(k) implies k.inline_origin_id < f.inline_origins@.len() && k.call_file_id < f.files.id_to_ref@.len() && t.source.inlines@[k]@.len() > 0 by {
        let j = choose|j: InlineSite| #[trigger] s.source.inlines@.contains_key(j) && remapped_site(j, fm, om) == k;
        assert(rm(fm, j.call_file_id) < f.files.id_to_ref@.len());
        assert(om[j.inline_origin_id as int] < f.inline_origins@.len());
    }
}
/// a merge result is a good dump again (C10: histories of merges)
pub proof fn lemma_merge_ok(a: ObjectInfo, b: ObjectInfo, f: ObjectInfo, fm: Option<Seq<u32>>, om: Seq<u32>)
    requires obj_ok(a), obj_ok(b), merged_with(a, b, f, fm, om), a.inline_origins@.len() + b.inline_origins@.len() <= u32::MAX
    ensures obj_ok(f)
{
    assert forall|k: u32| #[trigger] f.symbols@.contains_key(k) implies f.symbols@[k].rva == k && sym_refs_ok(f.symbols@[k], f.files.id_to_ref@.len(), f.inline_origins@.len()) by {
        assert(merged_at(a.symbols@, b.symbols@, f.symbols@, fm, om, k));
        let s = f.symbols@[k];
        if a.symbols@.contains_key(k) && (s == a.symbols@[k] || s == with_multiple(a.symbols@[k])) {
            let o = a.symbols@[k];
            assert(sym_refs_ok(o, a.files.id_to_ref@.len(), a.inline_origins@.len()));
            assert forall|i: int| 0 <= i < s.source.lines@.len() implies (#[trigger] s.source.lines@[i]).file_id < f.files.id_to_ref@.len() by { assert(o.source.lines@[i].file_id < a.files.id_to_ref@.len()); }
        } else {
            let o = b.symbols@[k];
            assert(b.symbols@.contains_key(k));
            assert(sym_refs_ok(o, b.files.id_to_ref@.len(), b.inline_origins@.len()));
            if o.is_public { assert(s == o); } else { lemma_moved_refs(a, b, f, fm, om, o, s, s.is_multiple); }
        }
    }
}

@fn ObjectInfo::merge
@attr verifier::rlimit(60)
@attr verifier::spinoff_prover
@props C09 C10 C11
@iterobj 0
@subst sym.clone() =>> (*sym).vx_clone()
@subst left.debug_id == right.debug_id =>> vx_streq(&left.debug_id, &right.debug_id)
@spec
    requires obj_ok(left), obj_ok(right), same_shows(left.files, right.files),
        left.files.id_to_ref@.len() + right.files.id_to_ref@.len() <= u32::MAX,
        left.inline_origins@.len() + right.inline_origins@.len() <= u32::MAX,
    ensures (r is Err) == (left.debug_id@ != right.debug_id@),
        r is Ok && left.symbols@.dom().len() > right.symbols@.dom().len() ==> merge_of(left, right, r->Ok_0),
        r is Ok && left.symbols@.dom().len() < right.symbols@.dom().len() ==> merge_of(right, left, r->Ok_0),
        r is Ok && left.symbols@.dom().len() == right.symbols@.dom().len() ==> merge_of(right, left, r->Ok_0) || merge_of(left, right, r->Ok_0),
        r is Ok ==> obj_ok(r->Ok_0),
@at after let (mut left, mut right)
    let ghost vx_a = left;
    let ghost vx_b = right;
    proof {
        let g = choose|g: spec_fn(Seq<char>) -> Seq<char>| #[trigger] shows(vx_a.files, g) && shows(vx_b.files, g);
        assert(shows(vx_a.files, g) && shows(vx_b.files, g));
    }
@at beforeloop 0
    let ghost vx_fm = opt_seq(file_remapping);
    let ghost vx_om = inline_origin_remapping@;
    let ghost mut vx_bound: int = 0;
    let ghost vx_l0 = left;
    proof {
        lemma_merged(vx_a.files, vx_b.files, vx_b.files.id_to_ref@.len());
        assert(files_follow(vx_a, vx_b, left, vx_fm)) by {
            assert forall|i: u32| i < vx_b.files.id_to_ref@.len() implies #[trigger] rm(vx_fm, i) < left.files.id_to_ref@.len() && left.files.id_to_ref@[rm(vx_fm, i) as int]@ == vx_b.files.id_to_ref@[i as int]@ by {
                if vx_fm is Some { assert(file_remapping->0@[i as int] < left.files.id_to_ref@.len()); }
            }
        }
        assert(origins_follow(vx_a, vx_b, left, vx_om)) by {
            assert forall|i: int| 0 <= i < vx_om.len() implies (#[trigger] vx_om[i]) < left.inline_origins@.len() && left.inline_origins@[vx_om[i] as int]@ == vx_b.inline_origins@[i]@ by { }
        }
        right.symbols.axiom_keys(); right.symbols.axiom_ordered();
        assert(merging(vx_a.symbols@, vx_b.symbols@, left.symbols@, vx_fm, vx_om, 0));
    }
@loop 0
    invariant vx_i0 <= vx_ks0@.len(), obj_ok(vx_a), obj_ok(vx_b),
        forall|i: int, j: int| 0 <= i < j < vx_ks0@.len() ==> (#[trigger] vx_ks0@[i]) < (#[trigger] vx_ks0@[j]),
        forall|i: int| 0 <= i < vx_ks0@.len() ==> right.symbols@.contains_key(#[trigger] vx_ks0@[i]) && vx_b.symbols@.contains_key(vx_ks0@[i]),
        forall|i: int| vx_i0 <= i < vx_ks0@.len() ==> right.symbols@[#[trigger] vx_ks0@[i]] == vx_b.symbols@[vx_ks0@[i]],
        forall|k: u32| #[trigger] vx_b.symbols@.contains_key(k) ==> vx_ks0@.contains(k),
        vx_bound == (if vx_i0 == 0 { 0 } else { vx_ks0@[vx_i0 - 1] + 1 }),
        merging(vx_a.symbols@, vx_b.symbols@, left.symbols@, vx_fm, vx_om, vx_bound),
        syms_wf(left.symbols@),
        files_follow(vx_a, vx_b, left, vx_fm), origins_follow(vx_a, vx_b, left, vx_om),
        vx_fm == opt_seq(file_remapping), vx_om == inline_origin_remapping@,
        left == (ObjectInfo { symbols: left.symbols, files: vx_l0.files, inline_origins: vx_l0.inline_origins, file_name: vx_l0.file_name, cpu: vx_l0.cpu, debug_id: vx_l0.debug_id, code_id: vx_l0.code_id, pe_name: vx_l0.pe_name, stack: vx_l0.stack, bin_type: vx_l0.bin_type, platform: vx_l0.platform }),
    decreases vx_ks0@.len() - vx_i0
@at loopstart 0
    let ghost vx_f = left.symbols@;
    proof {
        let k = vx_ks0@[vx_k as int];
        assert forall|j: u32| vx_bound <= j < k implies !#[trigger] vx_b.symbols@.contains_key(j) by {
            if vx_b.symbols@.contains_key(j) {
                assert(vx_ks0@.contains(j));
                let i = choose|i: int| 0 <= i < vx_ks0@.len() && vx_ks0@[i] == j;
                if i > vx_k { assert(vx_ks0@[vx_k as int] < vx_ks0@[i]); }
                if i < vx_k { if i < vx_k - 1 { assert(vx_ks0@[i] < vx_ks0@[vx_k - 1]); } }
            }
        }
        assert(vx_bound <= k) by { if vx_k > 0 { assert(vx_ks0@[vx_k - 1] < vx_ks0@[vx_k as int]); } }
        assert(same_at(vx_a.symbols@, vx_f, k));
        assert forall|n: Map<u32, Symbol>| changed_only(vx_f, n, k) implies #[trigger] inside(n, k) == inside(vx_f, k) by {
            assert(agree_below(vx_f, n, k)) by { assert forall|i: u32| i < k implies #[trigger] same_at(vx_f, n, i) by { } }
            lemma_inside_local(vx_f, n, k);
        }
        assert forall|n: Map<u32, Symbol>| changed_only(vx_f, n, k) && merged_at(vx_a.symbols@, vx_b.symbols@, n, vx_fm, vx_om, k) implies #[trigger] merging(vx_a.symbols@, vx_b.symbols@, n, vx_fm, vx_om, k + 1) by {
            lemma_merging(vx_a.symbols@, vx_b.symbols@, vx_f, n, vx_fm, vx_om, vx_bound, k);
        }
        vx_bound = k + 1;
        let s = vx_b.symbols@[k];
        assert(sym_refs_ok(s, vx_b.files.id_to_ref@.len(), vx_b.inline_origins@.len()));
        assert(sites_in_range(s.source.inlines@, vx_fm, vx_om));
    }
@at afterloop 0
    proof {
        assert forall|k: u32| #[trigger] merged_at(vx_a.symbols@, vx_b.symbols@, left.symbols@, vx_fm, vx_om, k) by {
            if k >= vx_bound {
                assert(same_at(vx_a.symbols@, left.symbols@, k));
                if vx_b.symbols@.contains_key(k) {
                    assert(vx_ks0@.contains(k));
                    let i = choose|i: int| 0 <= i < vx_ks0@.len() && vx_ks0@[i] == k;
                    if i < vx_ks0@.len() - 1 { assert(vx_ks0@[i] < vx_ks0@[vx_ks0@.len() - 1]); }
                }
            }
        }
    }
@at tail
    proof {
        assert(merged_with(vx_a, vx_b, left, vx_fm, vx_om));
        lemma_merge_ok(vx_a, vx_b, left, vx_fm, vx_om);
    }

@raw
// ---------------------------------------------------------------- C12
pub uninterp spec fn extra_info() -> Option<Seq<String>>;
/// EXTRA_INFO.get(): the extra INFO lines of the command line
#[verifier::external_body]
pub fn vx_extra_info() -> (r: Option<&'static Vec<String>>)
    ensures match r { Some(v) => extra_info() == Some(v@), None => extra_info() is None }
{ unimplemented!() }
pub open spec fn module_text(o: ObjectInfo) -> Seq<char> {
    ("MODULE "@ + o.platform.vx_text() + " "@ + o.cpu@ + " "@ + o.debug_id@ + " "@ + o.file_name@).push('\n')
}
/// the code id and the PE name, without blanks around them (lemma_code_line: what this is for names without blanks at their ends)
pub open spec fn code_text(o: ObjectInfo) -> Seq<char> {
    match o.code_id {
        None => Seq::empty(),
        Some(c) => trimmed("INFO CODE_ID "@ + c@ + " "@ + (match o.pe_name { None => Seq::empty(), Some(p) => p@ })).push('\n'),
    }
}
pub open spec fn info_text(s: Seq<String>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { Seq::empty() } else { info_text(s, (n - 1) as nat) + ("INFO "@ + s[n - 1]@).push('\n') } }
pub open spec fn all_info_text() -> Seq<char> { match extra_info() { None => Seq::empty(), Some(s) => info_text(s, s.len()) } }
pub open spec fn files_text(s: Seq<String>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { Seq::empty() } else { files_text(s, (n - 1) as nat) + ("FILE "@ + dec_digits((n - 1) as nat) + " "@ + s[n - 1]@).push('\n') } }
/// C06: an empty name is printed as <name omitted>
pub open spec fn origin_name(s: Seq<char>) -> Seq<char> { if blank(s) { "<name omitted>"@ } else { s } }
pub open spec fn origins_text(s: Seq<String>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { Seq::empty() } else { origins_text(s, (n - 1) as nat) + ("INLINE_ORIGIN "@ + dec_digits((n - 1) as nat) + " "@ + origin_name(s[n - 1]@)).push('\n') } }
/// the symbols in address order
pub open spec fn symbols_text(m: Map<u32, Symbol>, ks: Seq<u32>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { Seq::empty() } else { symbols_text(m, ks, (n - 1) as nat) + symbol_text(m[ks[n - 1]]) } }
pub open spec fn object_text(o: ObjectInfo) -> Seq<char> {
    module_text(o) + code_text(o) + all_info_text() + files_text(o.files.id_to_ref@, o.files.id_to_ref@.len()) + origins_text(o.inline_origins@, o.inline_origins@.len())
        + symbols_text(o.symbols@, o.symbols.key_seq(), o.symbols.key_seq().len()) + o.stack@
}
pub open spec fn object_disp_ok(o: ObjectInfo) -> bool { forall|k: u32| #[trigger] o.symbols@.contains_key(k) ==> symbol_ok(o.symbols@[k]) }
pub proof fn lemma_disp_ok(o: ObjectInfo)
    requires obj_ok(o)
    ensures object_disp_ok(o)
{
    assert forall|k: u32| #[trigger] o.symbols@.contains_key(k) implies symbol_ok(o.symbols@[k]) by { assert(sym_refs_ok(o.symbols@[k], o.files.id_to_ref@.len(), o.inline_origins@.len())); }
}
/// C12: the line is INFO CODE_ID, the code id, and the PE name if there is one
pub proof fn lemma_code_line(c: Seq<char>, p: Seq<char>)
    requires tight(c)
    ensures trimmed("INFO CODE_ID "@ + c + " "@ + Seq::empty()) == "INFO CODE_ID "@ + c,
        tight(p) ==> trimmed("INFO CODE_ID "@ + c + " "@ + p) == "INFO CODE_ID "@ + c + " "@ + p,
{
    reveal_strlit("INFO CODE_ID "); reveal_strlit(" ");
    axiom_ws();
    let a = "INFO CODE_ID "@ + c;
    let b = a + " "@;
    assert(b + Seq::<char>::empty() =~= b);
    assert(a[0] == 'I' && a.last() == c.last());
    assert(b.last() == ' ' && b[0] == 'I' && b.drop_last() =~= a);
    assert(ws_end(b) == ws_end(b.drop_last()));
    if tight(p) { let d = b + p; assert(d[0] == 'I' && d.last() == p.last()); lemma_tight(d); }
    lemma_tight(a);
}
impl VxDisp for ObjectInfo {
    open spec fn vx_text(&self) -> Seq<char> { object_text(*self) }
    open spec fn vx_disp_ok(&self) -> bool { object_disp_ok(*self) }
}

pub proof fn lemma_lits()
    ensures forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s,
        ""@ == Seq::<char>::empty(),
        forall|s: Seq<char>| #[trigger] (s + " <name omitted>"@) == s + " "@ + "<name omitted>"@,
{
    reveal_strlit(""); reveal_strlit(" "); reveal_strlit("<name omitted>"); reveal_strlit(" <name omitted>");
    assert(""@ =~= Seq::<char>::empty());
    assert(" <name omitted>"@ =~= " "@ + "<name omitted>"@);
    assert forall|s: Seq<char>| #[trigger] (s + " <name omitted>"@) == s + " "@ + "<name omitted>"@ by { assert(s + " <name omitted>"@ =~= s + " "@ + "<name omitted>"@); }
    assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); } }
pub proof fn lemma_cat(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures a + b + c == a + (b + c), a + Seq::<char>::empty() == a
{ assert(a + b + c =~= a + (b + c)); assert(a + Seq::<char>::empty() =~= a); }
pub proof fn lemma_object_text(o: ObjectInfo, t: Seq<char>)
    ensures t + module_text(o) + code_text(o) + all_info_text() + files_text(o.files.id_to_ref@, o.files.id_to_ref@.len()) + origins_text(o.inline_origins@, o.inline_origins@.len())
        + symbols_text(o.symbols@, o.symbols.key_seq(), o.symbols.key_seq().len()) + o.stack@ == t + object_text(o)
{
    let (a, b, c, d, e, f, g) = (module_text(o), code_text(o), all_info_text(), files_text(o.files.id_to_ref@, o.files.id_to_ref@.len()), origins_text(o.inline_origins@, o.inline_origins@.len()), symbols_text(o.symbols@, o.symbols.key_seq(), o.symbols.key_seq().len()), o.stack@);
    lemma_cat(t, a, b); lemma_cat(t, a + b, c); lemma_cat(t, a + b + c, d); lemma_cat(t, a + b + c + d, e); lemma_cat(t, a + b + c + d + e, f); lemma_cat(t, a + b + c + d + e + f, g);
}

@fn <Display for ObjectInfo>::fmt
@props C12 C06 C23
@subst EXTRA_INFO.get() =>> vx_extra_info()
@spec
    requires object_disp_ok(*self)
    ensures r is Ok ==> final(f)@ == old(f)@ + object_text(*self), r is Err ==> sink_failed()
@at start
    proof { self.symbols.axiom_keys(); lemma_lits(); }
    let ghost vx_t0 = f@;
@at after writeln!(f, "MODULE {} {} {} {}"
    proof { assert(f@ == vx_t0 + module_text(*self)); }
@at before if let Some(extra_info)
    let ghost vx_t1 = vx_t0 + module_text(*self) + code_text(*self);
    proof {
        lemma_cat(vx_t0 + module_text(*self), Seq::empty(), Seq::empty());
        lemma_cat(vx_t1, Seq::empty(), Seq::empty());
        assert(f@ == vx_t1);
    }
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == extra_info@.len(), forall|i: int| 0 <= i < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[i]) == extra_info@[i],
        f@ == vx_t1 + info_text(extra_info@, vx_it0.pos() as nat)
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopend 0
    proof { lemma_cat(vx_t1, info_text(extra_info@, (vx_it0.pos() - 1) as nat), ("INFO "@ + extra_info@[vx_it0.pos() - 1]@).push('\n')); }
@at beforeloop 1
    let ghost vx_t2 = vx_t1 + all_info_text();
    proof { lemma_cat(vx_t1, Seq::empty(), Seq::empty()); lemma_cat(vx_t2, Seq::empty(), Seq::empty()); assert(f@ == vx_t2); }
@loop 1
    invariant vx_it1.ok(), vx_it1.seq().len() == self.files.id_to_ref@.len(), forall|i: int| 0 <= i < vx_it1.seq().len() ==> (#[trigger] vx_it1.seq()[i]).0 == i && *vx_it1.seq()[i].1 == self.files.id_to_ref@[i],
        f@ == vx_t2 + files_text(self.files.id_to_ref@, vx_it1.pos() as nat)
    decreases vx_it1.seq().len() - vx_it1.pos()
@at loopend 1
    proof { lemma_cat(vx_t2, files_text(self.files.id_to_ref@, (vx_it1.pos() - 1) as nat), ("FILE "@ + dec_digits((vx_it1.pos() - 1) as nat) + " "@ + self.files.id_to_ref@[vx_it1.pos() - 1]@).push('\n')); }
@at beforeloop 2
    let ghost vx_t3 = vx_t2 + files_text(self.files.id_to_ref@, self.files.id_to_ref@.len());
    proof { lemma_cat(vx_t3, Seq::empty(), Seq::empty()); assert(f@ == vx_t3); }
@loop 2
    invariant vx_it2.ok(), vx_it2.seq().len() == self.inline_origins@.len(), forall|i: int| 0 <= i < vx_it2.seq().len() ==> (#[trigger] vx_it2.seq()[i]).0 == i && *vx_it2.seq()[i].1 == self.inline_origins@[i],
        f@ == vx_t3 + origins_text(self.inline_origins@, vx_it2.pos() as nat)
    decreases vx_it2.seq().len() - vx_it2.pos()
@at loopstart 2
    proof { lemma_lits(); lemma_blank(self.inline_origins@[vx_it2.pos() - 1]@); }
@at loopend 2
    proof { lemma_cat(vx_t3, origins_text(self.inline_origins@, (vx_it2.pos() - 1) as nat), ("INLINE_ORIGIN "@ + dec_digits((vx_it2.pos() - 1) as nat) + " "@ + origin_name(self.inline_origins@[vx_it2.pos() - 1]@)).push('\n')); }
@at beforeloop 3
    let ghost vx_t4 = vx_t3 + origins_text(self.inline_origins@, self.inline_origins@.len());
    proof { lemma_cat(vx_t4, Seq::empty(), Seq::empty()); assert(f@ == vx_t4); }
@loop 3
    invariant vx_it3.ok(), object_disp_ok(*self), vx_it3.seq().len() == self.symbols.key_seq().len(),
        forall|i: int| 0 <= i < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[i]).0 == self.symbols.key_seq()[i] && *vx_it3.seq()[i].1 == self.symbols@[self.symbols.key_seq()[i]],
        forall|i: int| 0 <= i < self.symbols.key_seq().len() ==> self.symbols@.contains_key(#[trigger] self.symbols.key_seq()[i]),
        f@ == vx_t4 + symbols_text(self.symbols@, self.symbols.key_seq(), vx_it3.pos() as nat)
    decreases vx_it3.seq().len() - vx_it3.pos()
@at loopstart 3
    proof { assert(self.symbols@.contains_key(self.symbols.key_seq()[vx_it3.pos() - 1])); }
@at loopend 3
    proof { lemma_cat(vx_t4, symbols_text(self.symbols@, self.symbols.key_seq(), (vx_it3.pos() - 1) as nat), symbol_text(self.symbols@[self.symbols.key_seq()[vx_it3.pos() - 1]])); }
@at tail
    proof { lemma_object_text(*self, vx_t0); }

@fn ObjectInfo::dump
@props C17 C12
@spec
    requires object_disp_ok(*self), writer.accepted().len() == 0
    ensures r is Ok ==> written(writer.dest(), object_text(*self)), r is Err ==> write_failed(writer.dest())
@at start
    let ghost vx_w = writer;
    proof { assert(vx_w.accepted() + object_text(*self) =~= object_text(*self)); assert(Seq::<char>::empty() + object_text(*self) =~= object_text(*self)); }

@fn ObjectInfo::get_debug_id
@props C16 C18
@spec
    ensures r@ == self.debug_id@

@fn ObjectInfo::get_name
@props C16 C18
@spec
    ensures r@ == self.file_name@

@fn ObjectInfo::has_stack
@props C17
@spec
    ensures r == (self.stack@.len() > 0)
