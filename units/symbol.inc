# Contracts of src/symbol.rs  (C07, C08, C09, C10, C12)
@file src/symbol.rs
@struct Symbol
@type Symbols
@struct ParsedWinFuncName
@raw
// ---------------------------------------------------------------- C07 / C09
/// every symbol is stored under its own address
pub open spec fn syms_wf(m: Map<u32, Symbol>) -> bool { forall|k: u32| #[trigger] m.contains_key(k) ==> m[k].rva == k }
/// k is the nearest lower address that has a symbol
pub open spec fn nearest_below(m: Map<u32, Symbol>, a: u32, k: u32) -> bool {
    m.contains_key(k) && k < a && forall|j: u32| #[trigger] m.contains_key(j) && j < a ==> j <= k
}
/// the symbol with the nearest lower address extends over a
pub open spec fn inside(m: Map<u32, Symbol>, a: u32) -> bool {
    exists|k: u32| #[trigger] nearest_below(m, a, k) && k + m[k].len > a
}

@fn <ContainsSymbol for Symbols>::is_inside_symbol
@self VxMap<u32, Symbol>
@props C07 C09
@spec
    requires syms_wf(self@)
    ensures r == inside(self@, rva)
@unfold
@at after let last =
    proof {
        if last is Some {
            let k = *(last->0).0;
            assert(nearest_below(self@, rva, k));
            assert forall|j: u32| nearest_below(self@, rva, j) implies j == k by { }
        } else {
            assert forall|j: u32| nearest_below(self@, rva, j) implies false by { assert(self@.contains_key(j)); }
        }
    }

@raw
// ---------------------------------------------------------------- C12
pub open spec fn m_text(b: bool) -> Seq<char> { if b { "m "@ } else { ""@ } }
/// PUBLIC [m] <address> <parameter size> <name>
/// FUNC [m] <address> <size> <parameter size> <name>, then the INLINE and line records
pub open spec fn symbol_text(s: Symbol) -> Seq<char> {
    if s.is_public {
        ("PUBLIC "@ + m_text(s.is_multiple) + hex_digits(s.rva as nat) + " "@ + hex_digits(s.parameter_size as nat) + " "@ + s.name@).push('\n')
    } else {
        ("FUNC "@ + m_text(s.is_multiple) + hex_digits(s.rva as nat) + " "@ + hex_digits(s.len as nat) + " "@ + hex_digits(s.parameter_size as nat) + " "@ + s.name@).push('\n')
            + lines_text(s.source)
    }
}
pub open spec fn symbol_ok(s: Symbol) -> bool { !s.is_public ==> inlines_wf(s.source.inlines@) }
impl VxDisp for Symbol {
    open spec fn vx_text(&self) -> Seq<char> { symbol_text(*self) }
    open spec fn vx_disp_ok(&self) -> bool { symbol_ok(*self) }
}

@fn <Display for Symbol>::fmt
@props C12
@spec
    requires symbol_ok(*self)
    ensures r.is_ok() ==> final(f)@ =~= old(f)@ + symbol_text(*self)

@raw
// ---------------------------------------------------------------- C10
pub open spec fn file_ids_below(s: Seq<Line>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).file_id < n }
pub open spec fn with_file(l: Line, id: u32) -> Line { Line { rva: l.rva, len: l.len, num: l.num, file_id: id } }
pub open spec fn remapped_lines(s: Seq<Line>, m: Seq<u32>) -> Seq<Line> { Seq::new(s.len(), |i: int| with_file(s[i], m[s[i].file_id as int])) }
/// the file id after an optional remapping
pub open spec fn rm(m: Option<Seq<u32>>, id: u32) -> u32 { match m { Some(s) => s[id as int], None => id } }
pub open spec fn remapped_site(s: InlineSite, fm: Option<Seq<u32>>, om: Seq<u32>) -> InlineSite {
    InlineSite { inline_origin_id: om[s.inline_origin_id as int], call_depth: s.call_depth, call_line_number: s.call_line_number, call_file_id: rm(fm, s.call_file_id) }
}
pub open spec fn site_in_range(s: InlineSite, fm: Option<Seq<u32>>, om: Seq<u32>) -> bool {
    s.inline_origin_id < om.len() && (fm is Some ==> s.call_file_id < fm->0.len())
}
pub open spec fn sites_in_range(m: Map<InlineSite, Vec<InlineAddressRange>>, fm: Option<Seq<u32>>, om: Seq<u32>) -> bool {
    forall|k: InlineSite| #[trigger] m.contains_key(k) ==> site_in_range(k, fm, om)
}
pub open spec fn injective(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn opt_view(m: Option<&[u32]>) -> Option<Seq<u32>> { match m { Some(s) => Some(s@), None => None } }
/// b is a with every site remapped, and nothing else
pub open spec fn inlines_remapped(a: Map<InlineSite, Vec<InlineAddressRange>>, b: Map<InlineSite, Vec<InlineAddressRange>>, fm: Option<Seq<u32>>, om: Seq<u32>) -> bool {
    &&& forall|k: InlineSite| #[trigger] a.contains_key(k) ==> b.contains_key(remapped_site(k, fm, om)) && b[remapped_site(k, fm, om)] == a[k]
    &&& forall|k: InlineSite| #[trigger] b.contains_key(k) ==> exists|j: InlineSite| #[trigger] a.contains_key(j) && remapped_site(j, fm, om) == k
}
pub open spec fn same_but_source(a: Symbol, b: Symbol) -> bool {
    a.name == b.name && a.is_public == b.is_public && a.is_multiple == b.is_multiple && a.is_synthetic == b.is_synthetic
        && a.rva == b.rva && a.len == b.len && a.parameter_size == b.parameter_size
}

@fn Symbol::remap_lines
@props C10
@spec
    requires file_remapping is Some ==> file_ids_below(old(self).source.lines@, (file_remapping->0)@.len())
    ensures same_but_source(*old(self), *final(self)), final(self).source.inlines == old(self).source.inlines,
        final(self).source.lines@ == (match opt_view(file_remapping) { Some(m) => remapped_lines(old(self).source.lines@, m), None => old(self).source.lines@ })
@loop 0
    invariant same_but_source(*old(self), *self), self.source.inlines == old(self).source.inlines,
        file_ids_below(old(self).source.lines@, file_remapping@.len()),
        vx_i0 <= self.source.lines@.len(), self.source.lines@.len() == old(self).source.lines@.len(),
        forall|i: int| 0 <= i < vx_i0 ==> #[trigger] self.source.lines@[i] == remapped_lines(old(self).source.lines@, file_remapping@)[i],
        forall|i: int| vx_i0 <= i < self.source.lines@.len() ==> #[trigger] self.source.lines@[i] == old(self).source.lines@[i],
    decreases self.source.lines@.len() - vx_i0
@at loopstart 0
    proof { assert(old(self).source.lines@[vx_k as int].file_id < file_remapping@.len()); }
@at afterloop 0
    proof { assert(self.source.lines@ =~= remapped_lines(old(self).source.lines@, file_remapping@)); }

@fn Symbol::remap_inlines
@props C10
@spec
    requires sites_in_range(old(self).source.inlines@, opt_view(file_remapping), inline_origin_remapping@),
        injective(inline_origin_remapping@), file_remapping is Some ==> injective((file_remapping->0)@),
    ensures same_but_source(*old(self), *final(self)), final(self).source.lines == old(self).source.lines,
        inlines_remapped(old(self).source.inlines@, final(self).source.inlines@, opt_view(file_remapping), inline_origin_remapping@)
@clo 0 vx: (InlineSite, Vec<InlineAddressRange>) ->> (o: (InlineSite, Vec<InlineAddressRange>))
    requires site_in_range(vx_p0_0.0, opt_view(file_remapping), inline_origin_remapping@)
    ensures o.0 == remapped_site(vx_p0_0.0, opt_view(file_remapping), inline_origin_remapping@), o.1 == vx_p0_0.1
@at after let inlines =
    proof {
        inlines.axiom_keys();
        assert(inlines@ == old(self).source.inlines@);
        assert forall|i: int| 0 <= i < inlines.entries().len() implies site_in_range((#[trigger] inlines.entries()[i]).0, opt_view(file_remapping), inline_origin_remapping@) by {
            assert(inlines@.contains_key(inlines.key_seq()[i].kv()));
        }
    }
    let ghost vx_in = inlines;
@at end
    proof {
        let fm = opt_view(file_remapping);
        let om = inline_origin_remapping@;
        let a = vx_in@;
        let e = vx_in.entries();
        let t = Seq::new(e.len(), |i: int| (remapped_site(e[i].0, fm, om), e[i].1));
        assert(self.source.inlines@ == map_of(t)) by {
            assert(exists|s: Seq<(InlineSite, Vec<InlineAddressRange>)>| self.source.inlines@ == map_of(s) && s =~= t);
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0.kv() != (#[trigger] t[j]).0.kv() by {
            let x = vx_in.key_seq()[i];
            let y = vx_in.key_seq()[j];
            assert(x.kv() != y.kv());
            assert(a.contains_key(x) && a.contains_key(y));
            assert(x.inline_origin_id != y.inline_origin_id ==> om[x.inline_origin_id as int] != om[y.inline_origin_id as int]);
            assert(x.call_file_id != y.call_file_id ==> rm(fm, x.call_file_id) != rm(fm, y.call_file_id));
        }
        lemma_map_of(t);
        assert forall|k: InlineSite| #[trigger] a.contains_key(k) implies self.source.inlines@.contains_key(remapped_site(k, fm, om)) && self.source.inlines@[remapped_site(k, fm, om)] == a[k] by {
            let i = choose|i: int| 0 <= i < vx_in.key_seq().len() && #[trigger] vx_in.key_seq()[i].kv() == k;
            assert(t[i].0.kv() == remapped_site(k, fm, om));
        }
        assert forall|k: InlineSite| #[trigger] self.source.inlines@.contains_key(k) implies exists|j: InlineSite| #[trigger] a.contains_key(j) && remapped_site(j, fm, om) == k by {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i].0.kv() == k;
            assert(a.contains_key(vx_in.key_seq()[i].kv()));
        }
    }

@raw
// ---------------------------------------------------------------- C07: the symbol after the last one
pub open spec fn max_key(m: Map<u32, Symbol>, k: u32) -> bool { m.contains_key(k) && forall|j: u32| #[trigger] m.contains_key(j) ==> j <= k }
pub open spec fn after_last(s: Symbol) -> int { s.rva + (if s.len >= 1 { s.len } else { 1 }) }
pub open spec fn no_lines(l: Lines) -> bool { l.lines@.len() == 0 && l.inlines@ == Map::<InlineSite, Vec<InlineAddressRange>>::empty() }
pub open spec fn synthetic_public(s: Symbol, a: u32, name: Seq<char>) -> bool {
    s.name@ == name && s.is_public && !s.is_multiple && s.is_synthetic && s.rva == a && s.len == 0 && s.parameter_size == 0 && no_lines(s.source)
}
pub open spec fn unknown_in(name: Seq<char>) -> Seq<char> { if name.len() == 0 { "<unknown>"@ } else { "<unknown in "@ + name + ">"@ } }

@fn append_dummy_symbol_pe_pdb
@props C07
@spec
    requires syms_wf(syms@)
    ensures syms_wf(r@),
        forall|k: u32| #[trigger] syms@.contains_key(k) ==> r@.contains_key(k) && r@[k] == syms@[k],
        forall|k: u32| #[trigger] r@.contains_key(k) ==> syms@.contains_key(k)
            || exists|l: u32| #[trigger] max_key(syms@, l) && k == after_last(syms@[l]) && synthetic_public(r@[k], k, unknown_in(name@)),
        forall|l: u32| #[trigger] max_key(syms@, l) && after_last(syms@[l]) <= u32::MAX ==> r@.contains_key(after_last(syms@[l]) as u32),
@at start
    let ghost vx_s0 = syms;
    let ghost vx_name0 = name;
    proof { syms.axiom_keys(); syms.axiom_ordered();
        assert forall|l: u32, k: u32| max_key(syms@, l) && max_key(syms@, k) implies l == k by { } }
@at before if let Some((_, last_sym))
    proof { let n = syms.key_seq().len();
        if n > 0 { let k = syms.key_seq()[n - 1]; 
            assert(syms@.contains_key(k.kv()));
            assert forall|j: u32| #[trigger] syms@.contains_key(j) implies j <= k by {
                let i = choose|i: int| 0 <= i < n && (#[trigger] syms.key_seq()[i]).kv() == j;
                if i < n - 1 { assert(syms.key_seq()[i] < syms.key_seq()[n - 1]); }
            }
            assert(max_key(syms@, k)); }
        else { assert forall|l: u32| max_key(syms@, l) implies false by { assert(syms@.contains_key(l)); } } }
@at tail
    proof {
        let m = vx_s0@;
        assert forall|k: u32| #[trigger] syms@.contains_key(k) && !m.contains_key(k) implies
            exists|l: u32| #[trigger] max_key(m, l) && k == after_last(m[l]) && synthetic_public(syms@[k], k, unknown_in(vx_name0@)) by {
            let l = vx_s0.key_seq()[vx_s0.key_seq().len() - 1];
            assert(max_key(m, l));
            assert(k == rva);
            assert(m[l].rva == l);
            assert(syms@[k].name@ =~= unknown_in(vx_name0@));
        }
    }

@raw
// ---------------------------------------------------------------- C08
pub open spec fn last_occ(p: Seq<char>, s: Seq<char>, k: int) -> bool { occurs(p, s, k) && forall|j: int| j > k ==> !#[trigger] occurs(p, s, j) }
pub open spec fn win_name(n: ParsedWinFuncName, name: Seq<char>, size: Option<u32>) -> bool { n.name@ == name && n.param_size == size }
/// X@@N
pub open spec fn is_vectorcall(s: Seq<char>, k: int) -> bool {
    last_occ("@@"@, s, k) && parsed_u32(s.subrange(k + 2, s.len() as int)) is Some
}
/// _X@N or @X@N
pub open spec fn is_stdcall(s: Seq<char>, k: int) -> bool {
    s.len() > 0 && (s[0] == '_' || s[0] == '@') && k >= 1 && last_occ("@"@, s, k) && parsed_u32(s.subrange(k + 1, s.len() as int)) is Some
}
/// C08: the decoded name and parameter size
pub open spec fn decoded(s: Seq<char>, name: Seq<char>, size: Option<u32>) -> bool {
    if exists|k: int| #[trigger] is_vectorcall(s, k) {
        exists|k: int| #[trigger] is_vectorcall(s, k) && name == s.subrange(0, k) && size == parsed_u32(s.subrange(k + 2, s.len() as int))
    } else if exists|k: int| #[trigger] is_stdcall(s, k) {
        exists|k: int| #[trigger] is_stdcall(s, k) && name == s.subrange(1, k) && size == parsed_u32(s.subrange(k + 1, s.len() as int))
    } else if s.len() > 0 && s[0] == '_' {
        name == s.subrange(1, s.len() as int) && size is None
    } else {
        name == s && size is None
    }
}
pub proof fn lemma_decode(s: Seq<char>)
    ensures
        "@@"@ == seq!['@', '@'], "@"@ == seq!['@'], "_"@ == seq!['_'],
        forall|j: int, k: int| last_occ("@@"@, s, j) && last_occ("@@"@, s, k) ==> j == k,
        forall|j: int, k: int| last_occ("@"@, s, j) && last_occ("@"@, s, k) ==> j == k,
        s.len() > 0 && char_width(s[0]) == 1 ==> at_byte(s, 1, 1),
        at_byte(s, 0, 0),
        forall|k: int| #[trigger] at_byte(s, 1, k) ==> k == 1 && s.len() > 0,
        forall|k: int| #[trigger] at_byte(s, 0, k) ==> k == 0,
{
    reveal_strlit("@@"); reveal_strlit("@"); reveal_strlit("_");
    assert("@@"@ =~= seq!['@', '@']); assert("@"@ =~= seq!['@']); assert("_"@ =~= seq!['_']);
    assert(s.subrange(0, 0) =~= Seq::<char>::empty());
    if s.len() > 0 && char_width(s[0]) == 1 {
        assert(s.subrange(0, 1).drop_last() =~= s.subrange(0, 0));
        assert(s.subrange(0, 1).last() == s[0]);
        assert(byte_len(s.subrange(0, 1)) == byte_len(s.subrange(0, 0)) + 1);
    }
    assert forall|k: int| #[trigger] at_byte(s, 1, k) implies k == 1 && s.len() > 0 by {
        if k > 1 { lemma_byte_len_mono(s, 0, k); }
    }
    assert forall|k: int| #[trigger] at_byte(s, 0, k) implies k == 0 by { if k > 0 { lemma_byte_len_mono(s, 0, k); } }
}
/// an occurrence of '@' in s without its first char
pub proof fn lemma_rest(s: Seq<char>)
    requires s.len() > 0
    ensures ({
        let t = s.subrange(1, s.len() as int);
        &&& forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] == s[k + 1]
        &&& forall|k: int| #[trigger] is_stdcall(s, k) ==> ({
            &&& 0 <= k - 1 < t.len() && t[k - 1] == '@' && t.subrange(0, k - 1) == s.subrange(1, k) && t.subrange(k, t.len() as int) == s.subrange(k + 1, s.len() as int)
            &&& forall|j: int| k - 1 < j < t.len() ==> #[trigger] t[j] != '@' })
        &&& forall|k: int| 0 <= k < t.len() && #[trigger] t[k] == '@' && (forall|j: int| k < j < t.len() ==> #[trigger] t[j] != '@')
            ==> last_occ("@"@, s, k + 1) && t.subrange(0, k) == s.subrange(1, k + 1) && t.subrange(k + 1, t.len() as int) == s.subrange(k + 2, s.len() as int)
    })
{
    let t = s.subrange(1, s.len() as int);
    reveal_strlit("@"); 
    assert("@"@ =~= seq!['@']);
    assert forall|k: int| #[trigger] occurs("@"@, s, k) == (0 <= k < s.len() && s[k] == '@') by { if 0 <= k < s.len() { assert(s[k + 0] == "@"@[0] <==> s[k] == '@'); } }
    assert forall|k: int| #[trigger] is_stdcall(s, k) implies ({
            &&& 0 <= k - 1 < t.len() && t[k - 1] == '@' && t.subrange(0, k - 1) == s.subrange(1, k) && t.subrange(k, t.len() as int) == s.subrange(k + 1, s.len() as int)
            &&& forall|j: int| k - 1 < j < t.len() ==> #[trigger] t[j] != '@' }) by {
        assert(occurs("@"@, s, k));
        assert(t.subrange(0, k - 1) =~= s.subrange(1, k));
        assert(t.subrange(k, t.len() as int) =~= s.subrange(k + 1, s.len() as int));
        assert forall|j: int| k - 1 < j < t.len() implies #[trigger] t[j] != '@' by { assert(!occurs("@"@, s, j + 1)); }
    }
    assert forall|k: int| 0 <= k < t.len() && #[trigger] t[k] == '@' && (forall|j: int| k < j < t.len() ==> #[trigger] t[j] != '@')
            implies last_occ("@"@, s, k + 1) && t.subrange(0, k) == s.subrange(1, k + 1) && t.subrange(k + 1, t.len() as int) == s.subrange(k + 2, s.len() as int) by {
        assert(t.subrange(0, k) =~= s.subrange(1, k + 1));
        assert(t.subrange(k + 1, t.len() as int) =~= s.subrange(k + 2, s.len() as int));
        assert(occurs("@"@, s, k + 1));
        assert forall|j: int| j > k + 1 implies !#[trigger] occurs("@"@, s, j) by { if j < s.len() { assert(t[j - 1] != '@'); } }
    }
}
pub open spec fn has_char(s: Seq<char>, c: char) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == c }
pub open spec fn decoded_any(s: Seq<char>, name: Seq<char>, size: Option<u32>) -> bool {
    if has_char(s, ':') || has_char(s, '(') { name == s && size is None } else { decoded(s, name, size) }
}
/// decoding is a function
pub proof fn lemma_decoded_unique(s: Seq<char>, n1: Seq<char>, z1: Option<u32>, n2: Seq<char>, z2: Option<u32>)
    requires decoded_any(s, n1, z1), decoded_any(s, n2, z2)
    ensures n1 == n2, z1 == z2
{
    if !(has_char(s, ':') || has_char(s, '(')) {
        lemma_decode(s);
        if exists|k: int| #[trigger] is_vectorcall(s, k) {
            let j = choose|k: int| #[trigger] is_vectorcall(s, k) && n1 == s.subrange(0, k) && z1 == parsed_u32(s.subrange(k + 2, s.len() as int));
            let k = choose|k: int| #[trigger] is_vectorcall(s, k) && n2 == s.subrange(0, k) && z2 == parsed_u32(s.subrange(k + 2, s.len() as int));
            assert(last_occ("@@"@, s, j) && last_occ("@@"@, s, k));
        } else if exists|k: int| #[trigger] is_stdcall(s, k) {
            let j = choose|k: int| #[trigger] is_stdcall(s, k) && n1 == s.subrange(1, k) && z1 == parsed_u32(s.subrange(k + 1, s.len() as int));
            let k = choose|k: int| #[trigger] is_stdcall(s, k) && n2 == s.subrange(1, k) && z2 == parsed_u32(s.subrange(k + 1, s.len() as int));
            assert(last_occ("@"@, s, j) && last_occ("@"@, s, k));
        }
    }
}
pub proof fn lemma_prefix2(s: Seq<char>, a: Seq<char>, b: Seq<char>, ab: Seq<char>)
    requires ab =~= a + b, a.len() <= s.len()
    ensures occurs(ab, s, 0) == (occurs(a, s, 0) && occurs(b, s.subrange(a.len() as int, s.len() as int), 0))
{
    let t = s.subrange(a.len() as int, s.len() as int);
    if occurs(ab, s, 0) {
        assert forall|i: int| 0 <= i < a.len() implies s[0 + i] == #[trigger] a[i] by { assert(ab[i] == a[i]); assert(s[0 + i] == ab[i]); }
        assert forall|i: int| 0 <= i < b.len() implies t[0 + i] == #[trigger] b[i] by { assert(ab[i + a.len()] == b[i]); assert(s[0 + (i + a.len())] == ab[i + a.len()]); }
    }
    if occurs(a, s, 0) && occurs(b, t, 0) {
        assert forall|i: int| 0 <= i < ab.len() implies s[0 + i] == #[trigger] ab[i] by {
            if i < a.len() { assert(a[i] == ab[i]); assert(s[0 + i] == a[i]); } else { assert(b[i - a.len()] == ab[i]); assert(t[0 + (i - a.len())] == b[i - a.len()]); }
        }
    }
}
pub open spec fn skipped(s: Seq<char>) -> bool {
    occurs("??_C"@, s, 0) || occurs("__real@"@, s, 0) || occurs("__xmm@"@, s, 0) || occurs("__ymm@"@, s, 0)
}

@fn ParsedWinFuncName::name_only
@props C08
@spec
    ensures win_name(r, name@, None)

@fn ParsedWinFuncName::parse_unknown
@props C08
@spec
    ensures decoded_any(name@, r.name@, r.param_size)
@at start
    proof {
        let s = name@;
        let a = [':', '('];
        assert(a@[0] == ':' && a@[1] == '(' && a@.len() == 2);
        assert forall|k: int| #[trigger] a.vx_m(s, k) == (0 <= k < s.len() && (s[k] == ':' || s[k] == '(')) by { }
        if has_char(s, ':') { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == ':'; assert(a.vx_m(s, k)); }
        if has_char(s, '(') { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == '('; assert(a.vx_m(s, k)); }
        if found(a, s) { let k = choose|k: int| #[trigger] a.vx_m(s, k); assert(s[k] == ':' || s[k] == '('); }
        assert(found(a, s) == (has_char(s, ':') || has_char(s, '(')));
    }

@fn ParsedWinFuncName::parse_c_decorated
@props C08
@spec
    ensures decoded(c_decorated_name@, r.name@, r.param_size)
@at start
    proof {
        let s = c_decorated_name@;
        lemma_decode(s);
        if s.len() > 0 { lemma_rest(s); }
        assert forall|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut("@@", s, k, a, b) implies
            (parsed_u32(b) is Some ==> is_vectorcall(s, k) && a == s.subrange(0, k)) && (parsed_u32(b) is None ==> forall|j: int| !#[trigger] is_vectorcall(s, j)) by {
            assert forall|j: int| j > k implies !#[trigger] occurs("@@"@, s, j) by { assert(!"@@".vx_m(s, j)); }
            assert(last_occ("@@"@, s, k));
        }
        if !found("@@", s) { assert forall|j: int| !#[trigger] is_vectorcall(s, j) by { assert(!"@@".vx_m(s, j)); } }
        if s.len() > 0 {
            let t = s.subrange(1, s.len() as int);
            assert(s.subrange(0, 1).len() == 1 && s.subrange(0, 1)[0] == s[0]);
            assert((s.subrange(0, 1) == "@"@) == (s[0] == '@')) by { if s[0] == '@' { assert(s.subrange(0, 1) =~= "@"@); } }
            assert((s.subrange(0, 1) == "_"@) == (s[0] == '_')) by { if s[0] == '_' { assert(s.subrange(0, 1) =~= "_"@); } }
            assert forall|k: int, a: Seq<char>, b: Seq<char>| #[trigger] last_cut('@', t, k, a, b) && (s[0] == '_' || s[0] == '@') implies
                (parsed_u32(b) is Some ==> is_stdcall(s, k + 1) && a == s.subrange(1, k + 1)) && (parsed_u32(b) is None ==> forall|j: int| !#[trigger] is_stdcall(s, j)) by {
                assert forall|j: int| k < j < t.len() implies #[trigger] t[j] != '@' by { assert(!'@'.vx_m(t, j)); }
                assert(t[k] == '@');
                assert(last_occ("@"@, s, k + 1));
            }
            if !found('@', t) { assert forall|j: int| !#[trigger] is_stdcall(s, j) by { assert(!'@'.vx_m(t, j - 1)); } }
        }
    }

@fn is_constant_string
@props C08
@spec
    ensures r == occurs("??_C"@, name@, 0)

@fn is_constant_number
@props C08
@spec
    ensures r == (occurs("__real@"@, name@, 0) || occurs("__xmm@"@, name@, 0) || occurs("__ymm@"@, name@, 0))
@at start
    proof {
        reveal_strlit("__real@"); reveal_strlit("__xmm@"); reveal_strlit("__ymm@"); reveal_strlit("__"); reveal_strlit("real@"); reveal_strlit("xmm@"); reveal_strlit("ymm@");
        let s = name@;
        if s.len() >= 2 {
            let t = s.subrange(2, s.len() as int);
            assert(forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] == s[k + 2]);
            lemma_prefix2(s, "__"@, "real@"@, "__real@"@); lemma_prefix2(s, "__"@, "xmm@"@, "__xmm@"@); lemma_prefix2(s, "__"@, "ymm@"@, "__ymm@"@);
        }
    }

@fn should_skip_symbol
@props C07 C08
@spec
    ensures r == skipped(name@)
