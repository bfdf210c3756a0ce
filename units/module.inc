# Contracts of the glue that makes the dump of one object: ObjectInfo::from_object and what it calls
@file src/symbol.rs
@path super::symbol::* => 
@const PDB_MAGIC
@raw
// ---------------------------------------------------------------- C07: synthetic symbols
pub open spec fn synth(name: Seq<char>) -> Head { Head { name, public: true, multiple: false, synthetic: true, len: 0, psize: 0 } }
/// an address gets a synthetic symbol only when it has no other
pub open spec fn fill(h: Map<u32, Head>, a: u32, name: Seq<char>) -> Map<u32, Head> { if h.contains_key(a) { h } else { h.insert(a, synth(name)) } }
pub open spec fn top(h: Map<u32, Head>, k: u32) -> bool { h.contains_key(k) && forall|j: u32| #[trigger] h.contains_key(j) ==> j <= k }
/// PE and PDB: one symbol behind the last one
pub open spec fn dummy_step(h: Map<u32, Head>, g: Map<u32, Head>, name: Seq<char>) -> bool {
    if forall|k: u32| !#[trigger] h.contains_key(k) { g == h }
    else { exists|l: u32| #[trigger] top(h, l) && g == ({ let e = l + (if h[l].len >= 1 { h[l].len } else { 1 }); if e > u32::MAX { h } else { fill(h, e as u32, unknown_in(name)) } }) }
}
pub open spec fn section_name(t: VxStrtab, s: VxShdr) -> Seq<char> { match t.at(s.sh_name) { Some(n) => n, None => "unknown"@ } }
pub open spec fn sec_step(h: Map<u32, Head>, name: Seq<char>, t: VxStrtab, s: VxShdr) -> Map<u32, Head> {
    if !s.exec() { h } else { fill(h, s.sh_addr as u32, "<"@ + section_name(t, s) + " ELF section in "@ + (if name.len() == 0 { "unknown"@ } else { name }) + ">"@) }
}
pub open spec fn secs_step(h: Map<u32, Head>, name: Seq<char>, t: VxStrtab, s: Seq<VxShdr>) -> Map<u32, Head>
    decreases s.len()
{ if s.len() == 0 { h } else { sec_step(secs_step(h, name, t, s.drop_last()), name, t, s.last()) } }
pub open spec fn synths(h: Map<u32, Head>, g: Map<u32, Head>, name: Seq<char>, o: VxObject) -> bool {
    match goblin_of(o.bytes()) {
        Some(VxGoblin::Elf(e)) => g == secs_step(h, name, e.shdr_strtab, e.section_headers@),
        Some(VxGoblin::PE(_)) => dummy_step(h, g, name),
        Some(VxGoblin::Unknown(m)) => if m == PDB_MAGIC { dummy_step(h, g, name) } else { g == h },
        _ => g == h,
    }
}
pub proof fn lemma_heads_insert(m: Map<u32, Symbol>)
    ensures forall|k: u32, s: Symbol| #[trigger] heads(m.insert(k, s)) == heads(m).insert(k, head(s)),
        forall|k: u32| m.contains_key(k) ==> #[trigger] m.insert(k, m[k]) == m
{
    assert forall|k: u32, s: Symbol| #[trigger] heads(m.insert(k, s)) == heads(m).insert(k, head(s)) by { assert(heads(m.insert(k, s)) =~= heads(m).insert(k, head(s))); }
    assert forall|k: u32| m.contains_key(k) implies #[trigger] m.insert(k, m[k]) == m by { assert(m.insert(k, m[k]) =~= m); }
}
/// what append_dummy_symbol_pe_pdb does to the heads
pub proof fn lemma_dummy(m: Map<u32, Symbol>, r: Map<u32, Symbol>, name: Seq<char>)
    requires syms_wf(m), syms_wf(r),
        forall|k: u32| #[trigger] m.contains_key(k) ==> r.contains_key(k) && r[k] == m[k],
        forall|k: u32| #[trigger] r.contains_key(k) ==> m.contains_key(k)
            || exists|l: u32| #[trigger] max_key(m, l) && k == after_last(m[l]) && synthetic_public(r[k], k, unknown_in(name)),
        forall|l: u32| #[trigger] max_key(m, l) && after_last(m[l]) <= u32::MAX ==> r.contains_key(after_last(m[l]) as u32),
    ensures dummy_step(heads(m), heads(r), name), kept_sources(m, r)
{
    let h = heads(m);
    let g = heads(r);
    assert forall|k: u32| #[trigger] h.contains_key(k) == m.contains_key(k) by { }
    assert forall|k: u32| #[trigger] g.contains_key(k) == r.contains_key(k) by { }
    if forall|k: u32| !#[trigger] h.contains_key(k) {
        assert forall|k: u32| !#[trigger] r.contains_key(k) by {
            if r.contains_key(k) { assert(!m.contains_key(k)) by { assert(!h.contains_key(k)); } let l = choose|l: u32| #[trigger] max_key(m, l) && k == after_last(m[l]) && synthetic_public(r[k], k, unknown_in(name)); assert(h.contains_key(l)); }
        }
        assert(g =~= h);
    } else {
        let k0 = choose|k: u32| #[trigger] h.contains_key(k);
        let l = lemma_top(m, k0);
        assert(top(h, l)) by { assert forall|j: u32| #[trigger] h.contains_key(j) implies j <= l by { assert(m.contains_key(j)); } }
        let e = after_last(m[l]);
        assert(m[l].rva == l);
        assert(e == l + (if h[l].len >= 1 { h[l].len } else { 1 }));
        assert forall|x: u32| max_key(m, x) implies x == l by { }
        if e > u32::MAX {
            assert forall|k: u32| #[trigger] r.contains_key(k) implies m.contains_key(k) by { }
            assert(g =~= h);
        } else {
            let a = e as u32;
            assert(r.contains_key(a));
            if !h.contains_key(a) { assert(head(r[a]) == synth(unknown_in(name))); }
            assert(g =~= fill(h, a, unknown_in(name)));
        }
    }
}
/// a symbol table with a symbol has a last one
pub proof fn lemma_top(m: Map<u32, Symbol>, k: u32) -> (l: u32)
    requires m.contains_key(k)
    ensures max_key(m, l)
    decreases u32::MAX - k
{
    if max_key(m, k) { k } else {
        let j = choose|j: u32| #[trigger] m.contains_key(j) && !(j <= k);
        lemma_top(m, j)
    }
}

@fn add_executable_section_symbols
@props C07
@spec
    requires syms_wf(syms@)
    ensures syms_wf(r@), synths(heads(syms@), heads(r@), name@, *object), kept_sources(syms@, r@),
        forall|k: u32| #[trigger] syms@.contains_key(k) ==> r@.contains_key(k),
@at start
    let ghost vx_s0 = syms@;
    let ghost vx_n0 = name@;
    let ghost vx_o = *object;
@loop 0
    invariant vx_it0.seq() == elf.section_headers@, 0 <= vx_it0.pos() <= elf.section_headers@.len(), name@ == vx_n0,
        syms_wf(syms@), heads(syms@) == secs_step(heads(vx_s0), vx_n0, elf.shdr_strtab, elf.section_headers@.subrange(0, vx_it0.pos())),
        kept_sources(vx_s0, syms@), forall|k: u32| #[trigger] vx_s0.contains_key(k) ==> syms@.contains_key(k),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at beforeloop 0
    proof { assert(elf.section_headers@.subrange(0, 0) =~= Seq::empty()); }
@at loopstart 0
    let ghost vx_n = vx_it0.pos() - 1;
    proof { assert(elf.section_headers@.subrange(0, vx_n + 1).drop_last() =~= elf.section_headers@.subrange(0, vx_n)); lemma_heads_insert(syms@); }
@at before syms = append_dummy_symbol_pe_pdb
    proof {
        assert forall|r: Map<u32, Symbol>| syms_wf(r) &&
        (forall|k: u32| #[trigger] vx_s0.contains_key(k) ==> r.contains_key(k) && r[k] == vx_s0[k]) &&
        (forall|k: u32| #[trigger] r.contains_key(k) ==> vx_s0.contains_key(k)
            || exists|l: u32| #[trigger] max_key(vx_s0, l) && k == after_last(vx_s0[l]) && synthetic_public(r[k], k, unknown_in(vx_n0))) &&
        (forall|l: u32| #[trigger] max_key(vx_s0, l) && after_last(vx_s0[l]) <= u32::MAX ==> r.contains_key(after_last(vx_s0[l]) as u32))
        implies dummy_step(heads(vx_s0), #[trigger] heads(r), vx_n0) && kept_sources(vx_s0, r) by { lemma_dummy(vx_s0, r, vx_n0); }
    }
@at afterloop 0
    proof { assert(elf.section_headers@.subrange(0, elf.section_headers@.len() as int) =~= elf.section_headers@); }

@raw
// ---------------------------------------------------------------- the compressed symbol table of stripped ELF files
pub open spec fn is_mini(t: VxStrtab, s: VxShdr) -> bool { t.at(s.sh_name) == Some(".gnu_debugdata"@) }
pub open spec fn mini_at(e: VxGElf, i: int) -> bool { 0 <= i < e.section_headers@.len() && is_mini(e.shdr_strtab, e.section_headers@[i]) && forall|j: int| 0 <= j < i ==> !is_mini(e.shdr_strtab, #[trigger] e.section_headers@[j]) }
/// the content of the first .gnu_debugdata section, decompressed
pub open spec fn mini_of(b: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    match goblin_of(b) {
        Some(VxGoblin::Elf(e)) => if exists|i: int| mini_at(e, i) {
            exists|i: int| #[trigger] mini_at(e, i) && ({
                let s = e.section_headers@[i];
                r == (if s.sh_offset + s.sh_size <= b.len() { unxz(b.subrange(s.sh_offset as int, s.sh_offset + s.sh_size)) } else { None })
            })
        } else { r is None },
        _ => r is None,
    }
}
pub open spec fn vseq(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }

@fn get_compressed_minidebuginfo
@fntype &[u8] => &[u8]
@attr verifier::loop_isolation(false)
@props C07
@spec
    ensures mini_of(object.bytes(), vseq(r))
@at start
    let ghost vx_b = object.bytes();
@loop 0
    invariant vx_it0.seq() == elf.section_headers@, 0 <= vx_it0.pos() <= elf.section_headers@.len(), data@ == vx_b, goblin_of(vx_b) == Some(VxGoblin::Elf(elf)),
        forall|j: int| 0 <= j < vx_it0.pos() ==> !is_mini(elf.shdr_strtab, #[trigger] elf.section_headers@[j])
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    let ghost vx_n = vx_it0.pos() - 1;
    proof { if is_mini(elf.shdr_strtab, header) { assert(mini_at(elf, vx_n)); } }
@at before let (start, length) =
    proof {
        assert(is_mini(elf.shdr_strtab, header));
        assert(mini_at(elf, vx_n));
        assert(elf.section_headers@[vx_n] == header);
        assert(forall|x: Option<Seq<u8>>| x == (if header.sh_offset + header.sh_size <= vx_b.len() { unxz(vx_b.subrange(header.sh_offset as int, header.sh_offset + header.sh_size)) } else { None }) ==> #[trigger] mini_of(vx_b, x));
        if unxz(vx_b.subrange(header.sh_offset as int, header.sh_offset + header.sh_size)) is Some { let u = unxz(vx_b.subrange(header.sh_offset as int, header.sh_offset + header.sh_size))->0; assert(Seq::<u8>::empty() + u =~= u); }
    }

@file src/object_info.rs
@raw
// ---------------------------------------------------------------- unwind records
/// C20: the PE's unwind information if it has some, else the object's own
pub open spec fn stack_of(pdb: Option<&VxObject>, pe: Option<&VxObject>) -> Seq<char> {
    if pe is Some && pe->0.unwind() { pe->0.cfi() } else if pdb is Some && pdb->0.unwind() { pdb->0.cfi() } else { Seq::empty() }
}

@fn get_stack_info
@unguard
@props C11 C12 C17 C20 C23
@spec
    ensures r@ == stack_of(pdb, pe)
@at start
    proof { axiom_no_bytes(); assert forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); }
        if pe is Some { assert(Seq::<char>::empty() + pe->0.cfi() == pe->0.cfi()); }
        if pdb is Some { assert(Seq::<char>::empty() + pdb->0.cfi() == pdb->0.cfi()); } }

@raw
// ---------------------------------------------------------------- names and paths
pub open spec fn canon_wanted(p: Platform, o: VxObject) -> bool { !(o is Pe && o.debug()) && p == Platform::Linux }

@fn ObjectInfo::canonicalize
@props C05 C13 C22
@spec
    ensures r == (!(object is Pe && object.debug()) && *platform == Platform::Linux)

@raw
/// the part after the last '/', however it is cut out
pub proof fn lemma_last_piece(s: Seq<char>)
    ensures
        nowhere('/', s) ==> last_piece(s, '/', s),
        !found('/', s) ==> last_piece(s, '/', s),
        forall|t: Seq<char>| #[trigger] last_cell(s, '/', t) ==> last_piece(s, '/', t),
        forall|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('/', s, k, a, b) ==> last_piece(s, '/', b),
        forall|b: int, k: int| #[trigger] at_byte(s, b, k) && last_at('/', s, k) ==> at_byte(s, b + 1, k + 1) && last_piece(s, '/', s.subrange(k + 1, s.len() as int)),
        forall|b: int, j: int, k: int| #[trigger] at_byte(s, b, j) && #[trigger] at_byte(s, b, k) ==> j == k,
{
    assert(s =~= s.subrange(0, s.len() as int));
    assert forall|t: Seq<char>| #[trigger] nowhere('/', t) implies !has_char(t, '/') by {
        assert forall|i: int| 0 <= i < t.len() implies t[i] != '/' by { assert(!pat_at('/', t, i)); }
    }
    if !found('/', s) { assert(nowhere('/', s)) by { assert forall|k: int| !#[trigger] pat_at('/', s, k) by { if pat_at('/', s, k) { assert('/'.vx_m(s, k)); } } } }
    assert forall|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('/', s, k, a, b) implies last_piece(s, '/', b) by {
        assert forall|i: int| 0 <= i < b.len() implies b[i] != '/' by { assert(!'/'.vx_m(s, k + 1 + i)); }
    }
    assert forall|b: int, k: int| #[trigger] at_byte(s, b, k) && last_at('/', s, k) implies at_byte(s, b + 1, k + 1) && last_piece(s, '/', s.subrange(k + 1, s.len() as int)) by {
        assert(pat_at('/', s, k));
        lemma_at_next(s, b, k);
        let t = s.subrange(k + 1, s.len() as int);
        assert forall|i: int| 0 <= i < t.len() implies t[i] != '/' by { assert(!pat_at('/', s, k + 1 + i)); }
    }
    assert forall|b: int, j: int, k: int| #[trigger] at_byte(s, b, j) && #[trigger] at_byte(s, b, k) implies j == k by { lemma_at_byte_unique(s, b, j, k); }
}
@fn ObjectInfo::file_name_only
@props C12 C16 C23
@spec
    ensures last_piece(file_name@, '/', r@)
@at start
    proof { lemma_last_piece(file_name@); }

@path Symbols::default => vx_default
@path InlineOrigins::default => vx_default
@raw
/// derived Default of InlineOrigins
impl VxDefault for InlineOrigins<'_> { open spec fn vx_is_default(&self) -> bool { self.demangled_names@.len() == 0 && self.index_for_mangled_name@ == Map::<(Seq<char>, NameMangling, Language), u32>::empty() } }
// ---------------------------------------------------------------- the symbols of a module
pub proof fn lemma_mini_unique(b: Seq<u8>, m: Option<Seq<u8>>, n: Option<Seq<u8>>)
    requires mini_of(b, m), mini_of(b, n)
    ensures m == n
{
    match goblin_of(b) {
        Some(VxGoblin::Elf(e)) => {
            assert forall|i: int, j: int| #[trigger] mini_at(e, i) && #[trigger] mini_at(e, j) implies i == j by { }
        }
        _ => { }
    }
}
pub open spec fn the_mini(b: Seq<u8>) -> Option<Seq<u8>> { choose|m: Option<Seq<u8>>| mini_of(b, m) }
/// the symbols of the compressed symbol table
pub open spec fn mini_syms(b: Seq<u8>) -> Seq<VxSym> {
    match the_mini(b) { Some(x) => (match object_of(x) { Some(o) => o.syms(), None => Seq::empty() }), None => Seq::empty() }
}
pub open spec fn phs_of(h: Map<u32, Head>, o: VxObject, name: Seq<char>) -> Map<u32, Head> {
    match o { VxObject::Pe(p) => (match p.exceptions() { Some(e) => phs_step(h, unknown_in(name), filt(e.entries(), ok_of())), None => h }), _ => h }
}
/// C07: functions, then the exception data's placeholders, then the public symbols, then those of the compressed symbol table
pub open spec fn module_heads(o: VxObject, fs: Seq<VxFunction>, win: bool, ph_name: Seq<char>) -> Map<u32, Head> {
    pubs_step(pubs_step(phs_of(funs_step(no_heads(), fs), o, ph_name), win, o.syms()), win, mini_syms(o.bytes()))
}
/// FUNC records stay FUNC records
pub open spec fn keeps(h: Map<u32, Head>, g: Map<u32, Head>) -> bool { forall|k: u32| #[trigger] h.contains_key(k) ==> g.contains_key(k) && (!h[k].public ==> !g[k].public && g[k].len == h[k].len) }
pub proof fn lemma_keep_pubs(h: Map<u32, Head>, win: bool, s: Seq<VxSym>) ensures keeps(h, pubs_step(h, win, s))
{ assert forall|k: u32| #[trigger] h.contains_key(k) implies pubs_step(h, win, s).contains_key(k) && (!h[k].public ==> !pubs_step(h, win, s)[k].public && pubs_step(h, win, s)[k].len == h[k].len) by { lemma_pubs_keep(h, win, s, k); } }
pub proof fn lemma_keep_phs(h: Map<u32, Head>, name: Seq<char>, s: Seq<VxRuntimeFunction>)
    ensures keeps(h, phs_step(h, name, s))
    decreases s.len()
{ if s.len() > 0 { lemma_keep_phs(h, name, s.drop_last()); } }
pub proof fn lemma_keep_phs_of(h: Map<u32, Head>, o: VxObject, name: Seq<char>)
    ensures keeps(h, phs_of(h, o, name))
{ match o { VxObject::Pe(p) => { if p.exceptions() is Some { lemma_keep_phs(h, unknown_in(name), filt(p.exceptions()->0.entries(), ok_of())); } } _ => { } } }
pub proof fn lemma_keep_secs(h: Map<u32, Head>, name: Seq<char>, t: VxStrtab, s: Seq<VxShdr>)
    ensures keeps(h, secs_step(h, name, t, s))
    decreases s.len()
{ if s.len() > 0 { lemma_keep_secs(h, name, t, s.drop_last()); } }
pub proof fn lemma_keep_synths(h: Map<u32, Head>, g: Map<u32, Head>, name: Seq<char>, o: VxObject)
    requires synths(h, g, name, o)
    ensures keeps(h, g)
{
    match goblin_of(o.bytes()) { Some(VxGoblin::Elf(e)) => { lemma_keep_secs(h, name, e.shdr_strtab, e.section_headers@); } _ => { } }
}
// ---------------------------------------------------------------- the ids of what was emitted
pub open spec fn line_ids(r: Seq<Line>, nf: nat) -> bool { forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).file_id < nf }
pub open spec fn site_ids(x: Seq<(InlineSite, InlineAddressRange)>, nf: nat, no: nat) -> bool { forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).0.inline_origin_id < no && x[i].0.call_file_id < nf }
pub proof fn lemma_ranges_ids(o: InlineOrigins, v: Vec<VxFunction>, n: nat, depth: int, src: SourceFiles, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>)
    requires origins_wf(o), n <= v@.len(), calls(v, n, depth, src, o, r, x)
    ensures forall|i: int| 0 <= i < all_ranges(o, v, n).len() ==> (#[trigger] all_ranges(o, v, n)[i]).1 < o.demangled_names@.len()
    decreases n
{
    if n > 0 {
        let a = all_ranges(o, v, (n - 1) as nat);
        let b = call_ranges(o, v@[n - 1]);
        if v@[n - 1].lines@.len() == 0 {
            lemma_ranges_ids(o, v, (n - 1) as nat, depth, src, r, x);
        } else {
            let (r1, x1, r2, x2) = choose|r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>|
                calls(v, (n - 1) as nat, depth, src, o, r1, x1) && #[trigger] vx_parts4(r1, x1, r2, x2)
                && o.index_for_mangled_name@.contains_key(v@[n - 1].name.kv())
                && emitted(v@[n - 1], depth, src, o, r2, x2) && r == r1 + r2 && x == x1 + x2;
            lemma_ranges_ids(o, v, (n - 1) as nat, depth, src, r1, x1);
        }
        assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).1 < o.demangled_names@.len() by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
}
pub proof fn lemma_level_ids(f: VxFunction, depth: int, src: SourceFiles, org: InlineOrigins, s: Seq<VxRng>, a: Seq<VxRng>, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>)
    requires tables_ok(src, org), level(src, f, depth, s, r, x), in_order(a, s), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1 < org.demangled_names@.len()
    ensures line_ids(r, src.id_to_ref@.len()), site_ids(x, src.id_to_ref@.len(), org.demangled_names@.len())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let c = cfg(src, f);
    let l = f.lines@;
    let ids = src.ref_to_id@;
    let wf = level_wf(l, s);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).file_id < src.id_to_ref@.len() by {
        assert(some_line(c, ids, l, r[i]));
        let k = choose|k: int| 0 <= k < l.len() && has_key(c, ids, #[trigger] l[k], r[i].num, r[i].file_id) && r[i].rva < e_end(l[k]);
        lemma_resolves(src, l_path(c, l[k]));
    }
    assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).0.inline_origin_id < org.demangled_names@.len() && x[i].0.call_file_id < src.id_to_ref@.len() by {
        assert(some_call(c, ids, depth, l, s[i], x[i], wf));
        let k = choose|k: int| 0 <= k < l.len() && is_call(c, ids, depth, #[trigger] l[k], s[i], x[i]) && (wf ==> within(l[k], s[i]));
        let (n, g) = choose|n: u32, g: u32| #[trigger] has_key(c, ids, l[k], n, g) && x[i] == (site_of(s[i], depth, n, g), rng_of(s[i]));
        lemma_resolves(src, l_path(c, l[k]));
        assert(s.contains(s[i]));
        assert(s.to_multiset().contains(s[i]));
        assert(a.contains(s[i]));
        let q = choose|q: int| 0 <= q < a.len() && a[q] == s[i];
        assert(a[q].1 < org.demangled_names@.len());
    }
}
pub proof fn lemma_emitted_ids(f: VxFunction, depth: int, src: SourceFiles, org: InlineOrigins, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>)
    requires emitted(f, depth, src, org, r, x), tables_ok(src, org)
    ensures line_ids(r, src.id_to_ref@.len()), site_ids(x, src.id_to_ref@.len(), org.demangled_names@.len())
    decreases f, 0nat
{
    let n = f.inlinees@.len();
    let (r1, x1, s, r2, x2) = choose|r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, s: Seq<VxRng>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>|
        calls(f.inlinees, n, depth + 1, src, org, r1, x1) && #[trigger] vx_parts(r1, x1, s, r2, x2)
        && in_order(all_ranges(org, f.inlinees, n), s) && level(src, f, depth, s, r2, x2) && r == r1 + r2 && x == x1 + x2;
    lemma_calls_ids(f.inlinees, n, depth + 1, src, org, r1, x1);
    lemma_ranges_ids(org, f.inlinees, n, depth + 1, src, r1, x1);
    lemma_level_ids(f, depth, src, org, s, all_ranges(org, f.inlinees, n), r2, x2);
}
pub proof fn lemma_calls_ids(v: Vec<VxFunction>, n: nat, depth: int, src: SourceFiles, org: InlineOrigins, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>)
    requires calls(v, n, depth, src, org, r, x), tables_ok(src, org), n <= v@.len()
    ensures line_ids(r, src.id_to_ref@.len()), site_ids(x, src.id_to_ref@.len(), org.demangled_names@.len())
    decreases v, n
{
    if n > 0 {
        if v@[n - 1].lines@.len() == 0 { lemma_calls_ids(v, (n - 1) as nat, depth, src, org, r, x); }
        else {
            let (r1, x1, r2, x2) = choose|r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>|
                calls(v, (n - 1) as nat, depth, src, org, r1, x1) && #[trigger] vx_parts4(r1, x1, r2, x2)
                && org.index_for_mangled_name@.contains_key(v@[n - 1].name.kv())
                && emitted(v@[n - 1], depth, src, org, r2, x2) && r == r1 + r2 && x == x1 + x2;
            lemma_calls_ids(v, (n - 1) as nat, depth, src, org, r1, x1);
            lemma_emitted_ids(v@[n - 1], depth, src, org, r2, x2);
        }
    }
}
pub proof fn lemma_kept_ids(c: SourceFiles, f: VxFunction, s: Seq<LineInfo>)
    requires files_wf(c), consumed(c), known(c, f, s)
    ensures line_ids(kept_lines(c, f, s), c.id_to_ref@.len())
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).line != 0 implies c.ref_to_id@.contains_key(e_path(c, f, s.drop_last()[i])) by { assert(s[i] == s.drop_last()[i]); }
        lemma_kept_ids(c, f, s.drop_last());
        if s.last().line != 0 { assert(s[s.len() - 1].line != 0); lemma_resolves(c, e_path(c, f, s.last())); }
    }
}
pub proof fn lemma_picked_ids(x: Seq<(InlineSite, InlineAddressRange)>, k: InlineSite, nf: nat, no: nat)
    requires site_ids(x, nf, no), picked(x, k).len() > 0
    ensures k.inline_origin_id < no, k.call_file_id < nf
    decreases x.len()
{
    if x.len() > 0 {
        if x.last().0 == k { assert(x[x.len() - 1].0.inline_origin_id < no); }
        else { assert(site_ids(x.drop_last(), nf, no)) by { assert forall|i: int| 0 <= i < x.drop_last().len() implies (#[trigger] x.drop_last()[i]).0.inline_origin_id < no && x.drop_last()[i].0.call_file_id < nf by { assert(x[i] == x.drop_last()[i]); } } lemma_picked_ids(x.drop_last(), k, nf, no); }
    }
}
/// C05, C06: every id of a function's records is in the tables
pub proof fn lemma_made_refs(s: Symbol, f: VxFunction, inlines: bool, src: SourceFiles, org: InlineOrigins)
    requires made(s, f, inlines, src, org), tables_ok(src, org), !s.is_public
    ensures sym_refs_ok(s, src.id_to_ref@.len(), org.demangled_names@.len())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let nf = src.id_to_ref@.len();
    let no = org.demangled_names@.len();
    let l = choose|l: Lines| #[trigger] collected_as(l, f, inlines, src, org) && lines_ok(l) && s.source.lines@ == final_lines(l.lines@, f.address as u32, f.size as u32)
        && inlines_finalized(l.inlines@, s.source.inlines@) && inlines_wf(s.source.inlines@);
    if inlines {
        let x = choose|x: Seq<(InlineSite, InlineAddressRange)>| #[trigger] emitted(f, 0, src, org, l.lines@, x) && inl_added(Map::empty(), l.inlines@, x);
        lemma_emitted_ids(f, 0, src, org, l.lines@, x);
        assert forall|k: InlineSite| #[trigger] s.source.inlines@.contains_key(k) implies k.inline_origin_id < no && k.call_file_id < nf by {
            assert(l.inlines@.dom().contains(k));
            assert(l.inlines@.contains_key(k));
            assert(l.inlines@[k]@.len() > 0);
            let e = Map::<InlineSite, Vec<InlineAddressRange>>::empty();
            assert(ranges_at(l.inlines@, k) == ranges_at(e, k) + picked(x, k));
            assert(picked(x, k).len() > 0);
            lemma_picked_ids(x, k, nf, no);
        }
    } else {
        lemma_kept_ids(src, f, f.lines@);
        assert forall|k: InlineSite| #[trigger] s.source.inlines@.contains_key(k) implies false by { assert(l.inlines@.dom().contains(k)); }
    }
    assert(line_ids(l.lines@, nf));
    let t = ssort(l.lines@, line_key());
    lemma_ssort(l.lines@, line_key());
    lemma_final_lines(l.lines@, f.address as u32, f.size as u32);
    assert forall|i: int| 0 <= i < s.source.lines@.len() implies (#[trigger] s.source.lines@[i]).file_id < nf by {
        assert(s.source.lines@[i].file_id == t[i].file_id);
        assert(t.contains(t[i]));
        assert(t.to_multiset().contains(t[i]));
        assert(l.lines@.contains(t[i]));
        let k = choose|k: int| 0 <= k < l.lines@.len() && l.lines@[k] == t[i];
        assert(l.lines@[k].file_id < nf);
    }
}
// ---------------------------------------------------------------- the dump of a module
pub struct ModuleCfg { pub platform: Platform, pub mapping: Option<VxMappings>, pub inlines: bool }
/// the line records of every symbol: those of the first function at its address, or none
pub open spec fn sources_of(m: Map<u32, Symbol>, fs: Seq<VxFunction>, inlines: bool, src: SourceFiles, org: InlineOrigins) -> bool {
    forall|k: u32| #[trigger] m.contains_key(k) ==> source_of(m[k], fs, k, inlines, src, org)
}
pub open spec fn source_of(s: Symbol, fs: Seq<VxFunction>, k: u32, inlines: bool, src: SourceFiles, org: InlineOrigins) -> bool {
    if exists|i: int| at_addr(fs, k, i) { exists|i: int| #[trigger] first_at(fs, k, i) && made(s, fs[i], inlines, src, org) } else { no_lines(s.source) }
}
pub open spec fn tables_of(o: ObjectInfo, main: VxObject, c: ModuleCfg, src: SourceFiles, org: InlineOrigins) -> bool {
    &&& tables_ok(src, org)
    &&& src.platform == c.platform && src.mapping == c.mapping && src.canonicalize == canon_wanted(c.platform, main)
    &&& o.files.id_to_ref == src.id_to_ref && o.files.ref_to_id == src.ref_to_id && o.inline_origins@ == org.demangled_names@
    &&& !c.inlines ==> o.inline_origins@.len() == 0
    &&& sources_of(o.symbols@, oks(main.funs()->0), c.inlines, src, org)
}
pub open spec fn has_tables(o: ObjectInfo, main: VxObject, c: ModuleCfg) -> bool { exists|src: SourceFiles, org: InlineOrigins| #[trigger] tables_of(o, main, c, src, org) }
pub open spec fn own_name(main: VxObject, name: Seq<char>) -> Seq<char> {
    match main {
        VxObject::Elf(e) => (match e.own_name() { Some(n) => n, None => name }),
        VxObject::MachO(e) => (match e.own_name() { Some(n) => n, None => name }),
        _ => name,
    }
}
pub open spec fn code_of(main: VxObject, pe: Option<VxObject>) -> Option<Seq<char>> {
    let c = if pe is Some && pe->0.code() is Some { pe->0.code() } else { main.code() };
    match c { Some(t) => Some(upper(t)), None => None }
}
pub open spec fn strv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn deref_obj(o: Option<&VxObject>) -> Option<VxObject> { match o { Some(x) => Some(*x), None => None } }
/// C11, C12, C20: the identification of the module
pub open spec fn ident_of(o: ObjectInfo, main: VxObject, name: Seq<char>, pe: Option<VxObject>, pe_name: Option<Seq<char>>, platform: Platform) -> bool {
    &&& o.debug_id@ == id_text(main.id()) && strv(o.code_id) == code_of(main, pe) && o.cpu@ == main.cpu().text() && o.platform == platform
    &&& o.bin_type == (if main.debug() { Type::DebugInfo } else { Type::Stripped })
    &&& last_piece(own_name(main, name), '/', o.file_name@) && strv(o.pe_name) == pe_name
    &&& o.stack@ == (if pe is Some && pe->0.unwind() { pe->0.cfi() } else if main.unwind() { main.cfi() } else { Seq::empty() })
}
pub open spec fn dump_of(o: ObjectInfo, main: VxObject, name: Seq<char>, pe: Option<VxObject>, pe_name: Option<Seq<char>>, c: ModuleCfg) -> bool {
    &&& ident_of(o, main, name, pe, pe_name, c.platform)
    &&& synths(module_heads(main, oks(main.funs()->0), c.platform is Win, match pe_name { Some(n) => n, None => name }), heads(o.symbols@), name, main)
    &&& has_tables(o, main, c)
    &&& shows(o.files, shown_by(c.mapping))
    &&& obj_ok(o)
}
/// what the 32-bit ids of the dump can hold; the debug information's names do not move
pub open spec fn dumpable(main: VxObject, inlines: bool) -> bool { main.funs() is Some ==> total_size(oks(main.funs()->0)) < u32::MAX && funs_ok(oks(main.funs()->0), inlines) }
pub proof fn lemma_dump_refs(a: Map<u32, Symbol>, b: Map<u32, Symbol>, fs: Seq<VxFunction>, inlines: bool, src: SourceFiles, org: InlineOrigins)
    requires syms_wf(b), tables_ok(src, org), heads(a) == funs_step(no_heads(), fs), sourced(a, fs, inlines, src, org), kept_sources(a, b), keeps(heads(a), heads(b))
    ensures sources_of(b, fs, inlines, src, org),
        forall|k: u32| #[trigger] b.contains_key(k) ==> sym_refs_ok(b[k], src.id_to_ref@.len(), org.demangled_names@.len())
{
    assert forall|k: u32| #[trigger] b.contains_key(k) implies source_of(b[k], fs, k, inlines, src, org) && sym_refs_ok(b[k], src.id_to_ref@.len(), org.demangled_names@.len()) by {
        lemma_funs(fs, k);
        assert(heads(a).contains_key(k) == a.contains_key(k));
        if a.contains_key(k) {
            let i = choose|i: int| #[trigger] first_at(fs, k, i) && made(a[k], fs[i], inlines, src, org);
            assert(at_addr(fs, k, i));
            lemma_made_src(a[k], b[k], fs[i], inlines, src, org);
            assert(!heads(a)[k].public);
            assert(heads(b)[k] == head(b[k]));
            lemma_made_refs(b[k], fs[i], inlines, src, org);
        } else {
            assert(no_lines(b[k].source));
        }
    }
}

@fn ObjectInfo::from_object
@attr verifier::rlimit(40)
@props C01 C02 C03 C04 C05 C06 C07 C10 C11 C12 C20 C21 C23
@subst &main_object =>> main_object
@subst &pe_file_name =>> pe_file_name
@subst pe_file_name.map(ToOwned::to_owned) =>> vx_opt_owned(pe_file_name)
@unfold
@spec
    requires dumpable(*main_object, collect_inlines)
    ensures (r is Ok) == (main_object.funs() is Some),
        r is Ok ==> dump_of(r->Ok_0, *main_object, main_file_name@, deref_obj(pe_object), otext(pe_file_name), ModuleCfg { platform, mapping, inlines: collect_inlines }),
@at before collector.collect_functions
    let ghost vx_fs = oks(ds.funs());
    proof { assert(origins_wf(inline_origins)); }
@at after collector.collect_functions
    let ghost vx_m1 = collector.syms@;
@at before collector.collect_publics(main_object)
    let ghost vx_m2 = collector.syms@;
    let ghost vx_pn = (match otext(pe_file_name) { Some(n) => n, None => main_file_name@ });
    proof {
        lemma_keep_phs_of(heads(vx_m1), *main_object, vx_pn);
        assert(heads(vx_m2) == phs_of(heads(vx_m1), *main_object, vx_pn));
        lemma_keep_pubs(heads(vx_m2), platform is Win, main_object.syms());
    }
@at after collector.collect_publics(main_object)
    let ghost vx_m3 = collector.syms@;
    proof {
        lemma_keep_pubs(heads(vx_m3), platform is Win, mini_syms(main_object.bytes()));
        assert(pubs_step(heads(vx_m3), platform is Win, Seq::empty()) == heads(vx_m3));
        assert forall|m: Option<Seq<u8>>| #[trigger] mini_of(main_object.bytes(), m) implies m == the_mini(main_object.bytes()) by { lemma_mini_unique(main_object.bytes(), m, the_mini(main_object.bytes())); }
        assert(kept_sources(vx_m1, vx_m3));
    }
@at before let stack =
    let ghost vx_m4 = collector.syms@;
    proof {
        assert(heads(vx_m4) == pubs_step(heads(vx_m3), platform is Win, mini_syms(main_object.bytes())));
        assert(kept_sources(vx_m3, vx_m4));
        assert(kept_sources(vx_m1, vx_m4));
        assert(keeps(heads(vx_m1), heads(vx_m4)));
        assert forall|g: Map<u32, Head>| #[trigger] synths(heads(vx_m4), g, main_file_name@, *main_object) implies keeps(heads(vx_m4), g) by { lemma_keep_synths(heads(vx_m4), g, main_file_name@, *main_object); }
    }
@at after let symbols =
    proof {
        assert(keeps(heads(vx_m4), heads(symbols@)));
        assert(kept_sources(vx_m1, symbols@));
        lemma_dump_refs(vx_m1, symbols@, vx_fs, collect_inlines, source, inline_origins);
    }
@at tail
    let ghost vx_src = source;
    let ghost vx_org = inline_origins;
    proof {
        assert forall|o: ObjectInfo| o.files.id_to_ref == vx_src.id_to_ref && o.files.ref_to_id == vx_src.ref_to_id && o.inline_origins@ == vx_org.demangled_names@ && o.symbols == symbols
            implies #[trigger] has_tables(o, *main_object, ModuleCfg { platform, mapping, inlines: collect_inlines }) by { assert(tables_of(o, *main_object, ModuleCfg { platform, mapping, inlines: collect_inlines }, vx_src, vx_org)); }
    }
