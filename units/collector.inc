# Contracts of src/collector.rs: the symbols of one object  (C07, C08, C21; C03-C06 carried through)
@file src/collector.rs
@path Lines::default => vx_lines_default
@strarg demangle_str
@raw
// ---------------------------------------------------------------- C21
@fn Collector::demangle
@props C21
@spec
    ensures r@ == display_name(name.text(), name.mang(), name.lang())

@fn Collector::demangle_str
@props C21
@spec
    ensures r@ == public_name(name@)

@raw
/// derived Default of Lines
#[verifier::external_body]
pub fn vx_lines_default() -> (r: Lines) ensures no_lines(r), lines_inv(r) { unimplemented!() }
// ---------------------------------------------------------------- the symbols without their line records
pub struct Head { pub name: Seq<char>, pub public: bool, pub multiple: bool, pub synthetic: bool, pub len: u32, pub psize: u32 }
pub open spec fn head(s: Symbol) -> Head { Head { name: s.name@, public: s.is_public, multiple: s.is_multiple, synthetic: s.is_synthetic, len: s.len, psize: s.parameter_size } }
pub open spec fn heads(m: Map<u32, Symbol>) -> Map<u32, Head> { m.map_values(|s: Symbol| head(s)) }
pub open spec fn is_m(h: Head) -> Head { Head { multiple: true, ..h } }
/// C07: one more function
pub open spec fn fun_head(f: VxFunction) -> Head { Head { name: kname(f.name.kv()), public: false, multiple: false, synthetic: false, len: f.size as u32, psize: 0 } }
pub open spec fn fun_step(h: Map<u32, Head>, f: VxFunction) -> Map<u32, Head> {
    let a = f.address as u32;
    if f.address == 0 { h } else if h.contains_key(a) && !h[a].public { h.insert(a, is_m(h[a])) } else { h.insert(a, fun_head(f)) }
}
pub open spec fn funs_step(h: Map<u32, Head>, s: Seq<VxFunction>) -> Map<u32, Head>
    decreases s.len()
{ if s.len() == 0 { h } else { fun_step(funs_step(h, s.drop_last()), s.last()) } }
/// the functions that could be read
pub open spec fn oks(s: Seq<VxResult<VxFunction>>) -> Seq<VxFunction>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Ok(f) => oks(s.drop_last()).push(f), Err(_) => oks(s.drop_last()) } } }
pub open spec fn total_size(s: Seq<VxFunction>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { total_size(s.drop_last()) + tsize(s.last()) } }
pub open spec fn fun_ok(f: VxFunction, inlines: bool) -> bool { f.compilation_dir.stable() && (inlines ==> tree_ok(f)) }
pub open spec fn funs_ok(s: Seq<VxFunction>, inlines: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> fun_ok(#[trigger] s[i], inlines) }
// ---------------------------------------------------------------- the line records of a function
pub open spec fn collected_as(l: Lines, f: VxFunction, inlines: bool, src: SourceFiles, org: InlineOrigins) -> bool {
    if inlines { exists|x: Seq<(InlineSite, InlineAddressRange)>| #[trigger] emitted(f, 0, src, org, l.lines@, x) && inl_added(Map::empty(), l.inlines@, x) }
    else { l.lines@ == kept_lines(src, f, f.lines@) && known(src, f, f.lines@) && l.inlines@ == Map::<InlineSite, Vec<InlineAddressRange>>::empty() }
}
/// C01-C06: the symbol has exactly the records of f, sorted, merged and with their lengths
pub open spec fn made(s: Symbol, f: VxFunction, inlines: bool, src: SourceFiles, org: InlineOrigins) -> bool {
    exists|l: Lines| #[trigger] collected_as(l, f, inlines, src, org) && lines_ok(l) && s.source.lines@ == final_lines(l.lines@, f.address as u32, f.size as u32)
        && inlines_finalized(l.inlines@, s.source.inlines@) && inlines_wf(s.source.inlines@)
}
pub proof fn lemma_made_ext(s: Symbol, f: VxFunction, inlines: bool, src: SourceFiles, org: InlineOrigins, d: SourceFiles, p: InlineOrigins)
    requires made(s, f, inlines, src, org), extends(src, d), origins_extend(org, p)
    ensures made(s, f, inlines, d, p)
{
    let l = choose|l: Lines| #[trigger] collected_as(l, f, inlines, src, org) && lines_ok(l) && s.source.lines@ == final_lines(l.lines@, f.address as u32, f.size as u32)
        && inlines_finalized(l.inlines@, s.source.inlines@) && inlines_wf(s.source.inlines@);
    if inlines {
        let x = choose|x: Seq<(InlineSite, InlineAddressRange)>| #[trigger] emitted(f, 0, src, org, l.lines@, x) && inl_added(Map::empty(), l.inlines@, x);
        lemma_emitted_ext(f, 0, src, org, d, p, l.lines@, x);
    } else { lemma_kept_ext(src, d, f, f.lines@); }
    assert(collected_as(l, f, inlines, d, p));
}
/// i is the first function at address a
pub open spec fn first_at(s: Seq<VxFunction>, a: u32, i: int) -> bool {
    0 <= i < s.len() && s[i].address != 0 && s[i].address as u32 == a && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).address == 0 || s[j].address as u32 != a
}
/// the line records of every symbol are those of the first function at its address
pub open spec fn sourced(b: Map<u32, Symbol>, s: Seq<VxFunction>, inlines: bool, src: SourceFiles, org: InlineOrigins) -> bool {
    forall|k: u32| #[trigger] b.contains_key(k) ==> exists|i: int| #[trigger] first_at(s, k, i) && made(b[k], s[i], inlines, src, org)
}
pub open spec fn no_heads() -> Map<u32, Head> { Map::empty() }
/// C07: the functions of an object: every function address but 0 has a FUNC, with the first function's name and size; it is marked when there is a second one
pub open spec fn second_at(s: Seq<VxFunction>, a: u32) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && #[trigger] at_addr(s, a, i) && #[trigger] at_addr(s, a, j) }
pub open spec fn at_addr(s: Seq<VxFunction>, a: u32, i: int) -> bool { 0 <= i < s.len() && s[i].address != 0 && s[i].address as u32 == a }
pub proof fn lemma_funs(s: Seq<VxFunction>, a: u32)
    ensures ({
        let h = funs_step(no_heads(), s);
        &&& h.contains_key(a) <==> exists|i: int| #[trigger] at_addr(s, a, i)
        &&& h.contains_key(a) ==> exists|i: int| #[trigger] first_at(s, a, i) && h[a] == (Head { multiple: second_at(s, a), ..fun_head(s[i]) })
    })
    decreases s.len()
{
    let h = funs_step(no_heads(), s);
    if s.len() > 0 {
        let d = s.drop_last();
        let n = s.len() - 1;
        lemma_funs(d, a);
        assert forall|i: int| 0 <= i < n implies #[trigger] at_addr(s, a, i) == at_addr(d, a, i) by { assert(s[i] == d[i]); }
        assert forall|i: int| #[trigger] first_at(d, a, i) implies first_at(s, a, i) by { assert forall|j: int| 0 <= j < i implies (#[trigger] s[j]).address == 0 || s[j].address as u32 != a by { assert(s[j] == d[j]); } }
        assert forall|i: int| #[trigger] at_addr(d, a, i) implies at_addr(s, a, i) by { assert(s[i] == d[i]); }
        if funs_step(no_heads(), d).contains_key(a) {
            let i = choose|i: int| #[trigger] first_at(d, a, i) && funs_step(no_heads(), d)[a] == (Head { multiple: second_at(d, a), ..fun_head(d[i]) });
            assert(first_at(s, a, i) && s[i] == d[i] && at_addr(s, a, i));
            if at_addr(s, a, n) { assert(second_at(s, a)); }
            else {
                if second_at(s, a) { let (x, y) = choose|x: int, y: int| 0 <= x < y < s.len() && #[trigger] at_addr(s, a, x) && #[trigger] at_addr(s, a, y); assert(at_addr(d, a, x) && at_addr(d, a, y)); }
                if second_at(d, a) { let (x, y) = choose|x: int, y: int| 0 <= x < y < d.len() && #[trigger] at_addr(d, a, x) && #[trigger] at_addr(d, a, y); assert(at_addr(s, a, x) && at_addr(s, a, y)); }
            }
        } else {
            assert forall|j: int| 0 <= j < n implies !#[trigger] at_addr(s, a, j) by { assert(!at_addr(d, a, j)); }
            if at_addr(s, a, n) { 
                assert forall|j: int| 0 <= j < n implies (#[trigger] s[j]).address == 0 || s[j].address as u32 != a by { assert(!at_addr(s, a, j)); }
                assert(first_at(s, a, n)); assert(!second_at(s, a)); }
        }
    }
}
pub proof fn lemma_sourced_step(b: Map<u32, Symbol>, c: Map<u32, Symbol>, s: Seq<VxFunction>, f: VxFunction, inlines: bool, src: SourceFiles, org: InlineOrigins, d: SourceFiles, p: InlineOrigins)
    requires sourced(b, s, inlines, src, org), extends(src, d), origins_extend(org, p), heads(b) == funs_step(no_heads(), s), one_fun(b, c, f, inlines, d, p)
    ensures sourced(c, s.push(f), inlines, d, p)
{
    let t = s.push(f);
    assert forall|k: u32| #[trigger] c.contains_key(k) implies exists|i: int| #[trigger] first_at(t, k, i) && made(c[k], t[i], inlines, d, p) by {
        lemma_funs(s, k);
        assert(heads(b).contains_key(k) == b.contains_key(k));
        if b.contains_key(k) {
            assert(!heads(b)[k].public);
            let i = choose|i: int| #[trigger] first_at(s, k, i) && made(b[k], s[i], inlines, src, org);
            assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).address == 0 || t[j].address as u32 != k by { assert(s[j] == t[j]); }
            assert(first_at(t, k, i) && t[i] == s[i]);
            lemma_made_ext(b[k], s[i], inlines, src, org, d, p);
            assert(c[k].source == b[k].source);
            lemma_made_src(b[k], c[k], s[i], inlines, d, p);
        } else {
            assert forall|j: int| 0 <= j < s.len() implies (#[trigger] t[j]).address == 0 || t[j].address as u32 != k by { assert(t[j] == s[j]); assert(!at_addr(s, k, j)); }
            assert(first_at(t, k, s.len() as int));
        }
    }
}
/// the source of a symbol is what counts
pub proof fn lemma_made_src(a: Symbol, b: Symbol, f: VxFunction, inlines: bool, src: SourceFiles, org: InlineOrigins)
    requires made(a, f, inlines, src, org), a.source == b.source
    ensures made(b, f, inlines, src, org)
{ }
/// what one function changes
pub open spec fn one_fun(b: Map<u32, Symbol>, c: Map<u32, Symbol>, f: VxFunction, inlines: bool, src: SourceFiles, org: InlineOrigins) -> bool {
    &&& forall|k: u32| #[trigger] c.contains_key(k) ==> b.contains_key(k) || (f.address != 0 && k == f.address as u32)
    &&& forall|k: u32| #[trigger] b.contains_key(k) ==> c.contains_key(k) && ((f.address != 0 && k == f.address as u32 && b[k].is_public) || c[k].source == b[k].source)
    &&& f.address != 0 && (!b.contains_key(f.address as u32) || b[f.address as u32].is_public) ==> made(c[f.address as u32], f, inlines, src, org)
}

pub proof fn lemma_oks(s: Seq<VxResult<VxFunction>>, n: int)
    requires 0 <= n <= s.len()
    ensures oks(s.subrange(0, n)).len() <= oks(s).len(), oks(s.subrange(0, n)) == oks(s).subrange(0, oks(s.subrange(0, n)).len() as int)
    decreases s.len()
{
    if n == s.len() { assert(s.subrange(0, n) =~= s); assert(oks(s).subrange(0, oks(s).len() as int) =~= oks(s)); }
    else {
        lemma_oks(s.drop_last(), n);
        assert(s.drop_last().subrange(0, n) =~= s.subrange(0, n));
        let k = oks(s.subrange(0, n)).len() as int;
        assert(oks(s).subrange(0, k) =~= oks(s.drop_last()).subrange(0, k));
    }
}
pub proof fn lemma_total(s: Seq<VxFunction>, n: int)
    requires 0 <= n <= s.len()
    ensures total_size(s.subrange(0, n)) <= total_size(s)
    decreases s.len()
{
    if n == s.len() { assert(s.subrange(0, n) =~= s); }
    else { lemma_total(s.drop_last(), n); assert(s.drop_last().subrange(0, n) =~= s.subrange(0, n)); }
}

@fn Collector::collect_function
@props C01 C02 C03 C04 C05 C06 C07 C12 C21
@spec
    requires syms_wf(old(self).syms@), tables_ok(*old(source), *old(inline_origins)), room(*old(source), *old(inline_origins), tsize(*fun) as int), fun_ok(*fun, old(self).collect_inlines)
    ensures syms_wf(final(self).syms@), final(self).platform == old(self).platform, final(self).collect_inlines == old(self).collect_inlines,
        tables_ok(*final(source), *final(inline_origins)), grown(*old(source), *old(inline_origins), *final(source), *final(inline_origins), tsize(*fun) as int),
        heads(final(self).syms@) == fun_step(heads(old(self).syms@), *fun),
        one_fun(old(self).syms@, final(self).syms@, *fun, old(self).collect_inlines, *final(source), *final(inline_origins)),
        !old(self).collect_inlines ==> *final(inline_origins) == *old(inline_origins) && only_used(*old(source), *final(source), *fun, fun.lines@),

@at start
    let ghost vx_m = self.syms@;
    let ghost vx_h = heads(self.syms@);
    let ghost vx_a = fun.address as u32;
    proof {
        assert forall|k: u32, s: Symbol| #[trigger] heads(vx_m.insert(k, s)) == vx_h.insert(k, head(s)) by { assert(heads(vx_m.insert(k, s)) =~= vx_h.insert(k, head(s))); }
        if vx_m.contains_key(vx_a) { assert(vx_m.insert(vx_a, vx_m[vx_a]) =~= vx_m); }
    }
@at before lines.finalize
    let ghost vx_l = lines;
    proof {
        if self.collect_inlines {
            let (r, x) = choose|r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>| #[trigger] emitted(*fun, 0, *source, *inline_origins, r, x) && lines.lines@ == vx_e.lines@ + r && inl_added(vx_e.inlines@, lines.inlines@, x);
            assert(vx_e.lines@ + r =~= r);
            assert(emitted(*fun, 0, *source, *inline_origins, lines.lines@, x));
        } else {
            assert(vx_e.lines@ + kept_lines(*source, *fun, fun.lines@) =~= kept_lines(*source, *fun, fun.lines@));
        }
        assert(collected_as(vx_l, *fun, self.collect_inlines, *source, *inline_origins));
    }
@at after let mut lines =
    let ghost vx_e = lines;

@fn Collector::collect_functions
@props C01 C02 C03 C04 C05 C06 C07 C12 C21
@spec
    requires old(self).syms@ == Map::<u32, Symbol>::empty(), tables_ok(*old(source), *old(inline_origins)), room(*old(source), *old(inline_origins), total_size(oks(ds.funs())) as int), funs_ok(oks(ds.funs()), old(self).collect_inlines)
    ensures r is Ok, syms_wf(final(self).syms@), final(self).platform == old(self).platform, final(self).collect_inlines == old(self).collect_inlines,
        tables_ok(*final(source), *final(inline_origins)), extends(*old(source), *final(source)), origins_extend(*old(inline_origins), *final(inline_origins)),
        heads(final(self).syms@) == funs_step(no_heads(), oks(ds.funs())),
        sourced(final(self).syms@, oks(ds.funs()), old(self).collect_inlines, *final(source), *final(inline_origins)),
        final(source).fake_id_to_ref@.len() <= old(source).fake_id_to_ref@.len() + total_size(oks(ds.funs())),
        final(inline_origins).demangled_names@.len() <= old(inline_origins).demangled_names@.len() + total_size(oks(ds.funs())),
        !old(self).collect_inlines ==> *final(inline_origins) == *old(inline_origins),
@loop 0
    invariant vx_it0.seq() == ds.funs(), 0 <= vx_it0.pos() <= ds.funs().len(), funs_ok(oks(ds.funs()), old(self).collect_inlines),
        room(*old(source), *old(inline_origins), total_size(oks(ds.funs())) as int),
        syms_wf(self.syms@), self.platform == old(self).platform, self.collect_inlines == old(self).collect_inlines,
        tables_ok(*source, *inline_origins), extends(*old(source), *source), origins_extend(*old(inline_origins), *inline_origins),
        source.fake_id_to_ref@.len() <= old(source).fake_id_to_ref@.len() + total_size(oks(ds.funs().subrange(0, vx_it0.pos()))),
        inline_origins.demangled_names@.len() <= old(inline_origins).demangled_names@.len() + total_size(oks(ds.funs().subrange(0, vx_it0.pos()))),
        heads(self.syms@) == funs_step(no_heads(), oks(ds.funs().subrange(0, vx_it0.pos()))),
        sourced(self.syms@, oks(ds.funs().subrange(0, vx_it0.pos())), old(self).collect_inlines, *source, *inline_origins),
        !old(self).collect_inlines ==> *inline_origins == *old(inline_origins),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at beforeloop 0
    proof { assert(ds.funs().subrange(0, 0) =~= Seq::empty()); assert(heads(self.syms@) =~= no_heads()); }
@at loopstart 0
    let ghost vx_n = vx_it0.pos() - 1;
    let ghost vx_o = oks(ds.funs().subrange(0, vx_n));
    let ghost vx_s0 = *source;
    let ghost vx_i0 = *inline_origins;
    let ghost vx_m0 = self.syms@;
    proof {
        assert(ds.funs().subrange(0, vx_n + 1).drop_last() =~= ds.funs().subrange(0, vx_n));
        lemma_oks(ds.funs(), vx_n + 1);
        if ds.funs()[vx_n] is Ok {
            let f = ds.funs()[vx_n]->Ok_0;
            assert(oks(ds.funs().subrange(0, vx_n + 1)) == vx_o.push(f));
            assert(vx_o.push(f).drop_last() =~= vx_o);
            lemma_total(oks(ds.funs()), vx_o.len() as int + 1);
            assert(oks(ds.funs())[vx_o.len() as int] == f);
            assert(fun_ok(oks(ds.funs())[vx_o.len() as int], old(self).collect_inlines));
        }
    }
@at loopend 0
    proof {
        if ds.funs()[vx_n] is Ok {
            lemma_sourced_step(vx_m0, self.syms@, vx_o, ds.funs()[vx_n]->Ok_0, old(self).collect_inlines, vx_s0, vx_i0, *source, *inline_origins);
        }
    }
@at afterloop 0
    proof { assert(ds.funs().subrange(0, ds.funs().len() as int) =~= ds.funs()); }

@raw
// ---------------------------------------------------------------- C07, C08: public symbols
pub open spec fn h_below(h: Map<u32, Head>, a: u32, k: u32) -> bool { h.contains_key(k) && k < a && forall|j: u32| #[trigger] h.contains_key(j) && j < a ==> j <= k }
/// the record with the nearest lower address extends over a
pub open spec fn h_inside(h: Map<u32, Head>, a: u32) -> bool { exists|k: u32| #[trigger] h_below(h, a, k) && k + h[k].len > a }
pub proof fn lemma_inside(m: Map<u32, Symbol>, a: u32)
    ensures inside(m, a) == h_inside(heads(m), a)
{
    let h = heads(m);
    assert forall|k: u32| #[trigger] h.contains_key(k) == m.contains_key(k) by { }
    assert forall|k: u32| h_below(h, a, k) == nearest_below(m, a, k) by {
        if h_below(h, a, k) { assert forall|j: u32| #[trigger] m.contains_key(j) && j < a implies j <= k by { assert(h.contains_key(j)); } }
        if nearest_below(m, a, k) { assert forall|j: u32| #[trigger] h.contains_key(j) && j < a implies j <= k by { assert(m.contains_key(j)); } }
    }
    if inside(m, a) { let k = choose|k: u32| #[trigger] nearest_below(m, a, k) && k + m[k].len > a; assert(h_below(h, a, k)); }
    if h_inside(h, a) { let k = choose|k: u32| #[trigger] h_below(h, a, k) && k + h[k].len > a; assert(nearest_below(m, a, k)); }
}
pub struct Win { pub name: Seq<char>, pub size: Option<u32> }
/// the decoded name on Windows
pub open spec fn win_of(s: Seq<char>) -> Win { choose|w: Win| decoded_any(s, w.name, w.size) }
pub open spec fn parsed_of(win: bool, name: Option<Seq<char>>) -> Option<Win> { if win && name is Some { Some(win_of(name->0)) } else { None } }
/// the name and parameter size a new PUBLIC gets
pub open spec fn pub_head(win: bool, s: VxSym) -> Head {
    let w = parsed_of(win, s.sname());
    Head {
        name: no_ctl(match w { Some(w) => public_name(w.name), None => match s.sname() { Some(n) => public_name(n), None => "<name omitted>"@ } }),
        public: true, multiple: false, synthetic: false, len: s.size as u32,
        psize: match w { Some(w) => match w.size { Some(n) => n, None => 0 }, None => 0 },
    }
}
/// a public symbol at the address of a FUNC
pub open spec fn func_with(h: Head, w: Option<Win>) -> Head {
    match w {
        None => h,
        Some(w) => Head { name: if has_char(h.name, '(') { h.name } else { no_ctl(public_name(w.name)) }, psize: match w.size { Some(n) => n, None => h.psize }, ..h },
    }
}
pub open spec fn pub_step(h: Map<u32, Head>, win: bool, s: VxSym) -> Map<u32, Head> {
    let a = s.address as u32;
    if h_inside(h, a) || (s.sname() is Some && skipped(s.sname()->0)) { h }
    else if !h.contains_key(a) { h.insert(a, pub_head(win, s)) }
    else if h[a].public { h.insert(a, is_m(h[a])) }
    else { h.insert(a, func_with(h[a], parsed_of(win, s.sname()))) }
}
pub open spec fn pubs_step(h: Map<u32, Head>, win: bool, s: Seq<VxSym>) -> Map<u32, Head>
    decreases s.len()
{ if s.len() == 0 { h } else { pub_step(pubs_step(h, win, s.drop_last()), win, s.last()) } }
/// line records stay; a new symbol has none
pub open spec fn kept_sources(a: Map<u32, Symbol>, b: Map<u32, Symbol>) -> bool {
    forall|k: u32| #[trigger] b.contains_key(k) ==> (if a.contains_key(k) { b[k].source == a[k].source } else { no_lines(b[k].source) })
}
/// C07: FUNC records stay where they are, with their size
pub proof fn lemma_pubs_keep(h: Map<u32, Head>, win: bool, s: Seq<VxSym>, a: u32)
    requires h.contains_key(a)
    ensures pubs_step(h, win, s).contains_key(a), pubs_step(h, win, s)[a].public == h[a].public, pubs_step(h, win, s)[a].len == h[a].len,
        !h[a].public ==> pubs_step(h, win, s)[a].multiple == h[a].multiple, !win && !h[a].public ==> pubs_step(h, win, s)[a] == h[a]
    decreases s.len()
{ if s.len() > 0 { lemma_pubs_keep(h, win, s.drop_last(), a); } }

@fn Collector::collect_publics
@props C07 C08 C21 C12
@spec
    requires syms_wf(old(self).syms@)
    ensures syms_wf(final(self).syms@), final(self).platform == old(self).platform, final(self).collect_inlines == old(self).collect_inlines,
        heads(final(self).syms@) == pubs_step(heads(old(self).syms@), old(self).platform is Win, o.syms()),
        kept_sources(old(self).syms@, final(self).syms@),
        forall|k: u32| #[trigger] old(self).syms@.contains_key(k) ==> final(self).syms@.contains_key(k),
@unfold
@loop 0
    invariant vx_it0.seq() == o.syms(), 0 <= vx_it0.pos() <= o.syms().len(),
        syms_wf(self.syms@), self.platform == old(self).platform, self.collect_inlines == old(self).collect_inlines,
        heads(self.syms@) == pubs_step(heads(old(self).syms@), old(self).platform is Win, o.syms().subrange(0, vx_it0.pos())),
        kept_sources(old(self).syms@, self.syms@),
        forall|k: u32| #[trigger] old(self).syms@.contains_key(k) ==> self.syms@.contains_key(k),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at beforeloop 0
    proof { assert(o.syms().subrange(0, 0) =~= Seq::empty()); }
@at loopstart 0
    let ghost vx_n = vx_it0.pos() - 1;
    let ghost vx_m = self.syms@;
    let ghost vx_h = heads(self.syms@);
    let ghost vx_a = sym.address as u32;
    let ghost vx_sym = sym;
    proof {
        assert(o.syms().subrange(0, vx_n + 1).drop_last() =~= o.syms().subrange(0, vx_n));
        lemma_inside(vx_m, vx_a);
        assert forall|k: u32, s: Symbol| #[trigger] heads(vx_m.insert(k, s)) == vx_h.insert(k, head(s)) by { assert(heads(vx_m.insert(k, s)) =~= vx_h.insert(k, head(s))); }
        assert forall|s: Seq<char>| #[trigger] has_char(s, '(') == found('(', s) by {
            if has_char(s, '(') { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == '('; assert('('.vx_m(s, k)); }
            if found('(', s) { let k = choose|k: int| #[trigger] '('.vx_m(s, k); assert(s[k] == '('); }
        }
        if vx_m.contains_key(vx_a) { assert(vx_m.insert(vx_a, vx_m[vx_a]) =~= vx_m); assert(vx_h.insert(vx_a, vx_h[vx_a]) =~= vx_h); }
    }
@at after let parsed_win_name =
    let ghost vx_w = parsed_win_name;
    proof {
        if parsed_win_name is Some {
            let t = vx_sym.sname()->0;
            let w = Win { name: parsed_win_name->0.name@, size: parsed_win_name->0.param_size };
            assert(decoded_any(t, w.name, w.size));
            let v = win_of(t);
            lemma_decoded_unique(t, w.name, w.size, v.name, v.size);
        }
    }
@at afterloop 0
    proof { assert(o.syms().subrange(0, o.syms().len() as int) =~= o.syms()); }

@raw
// ---------------------------------------------------------------- C07: placeholders from the exception data
pub open spec fn ph_step(h: Map<u32, Head>, name: Seq<char>, f: VxRuntimeFunction) -> Map<u32, Head> {
    let a = f.begin_address;
    if f.end_address < a || h_inside(h, a) || h.contains_key(a) { h }
    else { h.insert(a, Head { name, public: false, multiple: false, synthetic: true, len: (f.end_address - a) as u32, psize: 0 }) }
}
pub open spec fn phs_step(h: Map<u32, Head>, name: Seq<char>, s: Seq<VxRuntimeFunction>) -> Map<u32, Head>
    decreases s.len()
{ if s.len() == 0 { h } else { ph_step(phs_step(h, name, s.drop_last()), name, s.last()) } }
pub open spec fn ok_of<T>() -> spec_fn(VxResult<T>) -> Option<T> { |x: VxResult<T>| match x { Ok(v) => Some(v), Err(_) => None } }

@fn Collector::collect_placeholder_functions
@props C07
@spec
    requires syms_wf(old(self).syms@)
    ensures syms_wf(final(self).syms@), final(self).platform == old(self).platform, final(self).collect_inlines == old(self).collect_inlines,
        heads(final(self).syms@) == phs_step(heads(old(self).syms@), unknown_in(module_name@), filt(exception_data.entries(), ok_of())),
        kept_sources(old(self).syms@, final(self).syms@),
        forall|k: u32| #[trigger] old(self).syms@.contains_key(k) ==> final(self).syms@.contains_key(k),
@clo 0 result: VxResult<VxRuntimeFunction> ->> (x: Option<VxRuntimeFunction>)
    ensures x == ok_of::<VxRuntimeFunction>()(result)
@loop 0
    invariant vx_it0.seq() == vx_f, 0 <= vx_it0.pos() <= vx_f.len(), name@ == unknown_in(module_name@),
        syms_wf(self.syms@), self.platform == old(self).platform, self.collect_inlines == old(self).collect_inlines,
        heads(self.syms@) == phs_step(heads(old(self).syms@), unknown_in(module_name@), vx_f.subrange(0, vx_it0.pos())),
        kept_sources(old(self).syms@, self.syms@),
        forall|k: u32| #[trigger] old(self).syms@.contains_key(k) ==> self.syms@.contains_key(k),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at beforeloop 0
    let ghost vx_f = filt(exception_data.entries(), ok_of());
    proof { assert(exception_data.entries().subrange(0, exception_data.entries().len() as int) =~= exception_data.entries()); assert(vx_f.subrange(0, 0) =~= Seq::empty()); assert(name@ =~= unknown_in(module_name@)); }
@at loopstart 0
    let ghost vx_n = vx_it0.pos() - 1;
    let ghost vx_m = self.syms@;
    let ghost vx_h = heads(self.syms@);
    let ghost vx_a = function.begin_address;
    proof {
        assert(vx_f.subrange(0, vx_n + 1).drop_last() =~= vx_f.subrange(0, vx_n));
        lemma_inside(vx_m, vx_a);
        assert forall|k: u32, s: Symbol| #[trigger] heads(vx_m.insert(k, s)) == vx_h.insert(k, head(s)) by { assert(heads(vx_m.insert(k, s)) =~= vx_h.insert(k, head(s))); }
    }
@at afterloop 0
    proof { assert(vx_f.subrange(0, vx_f.len() as int) =~= vx_f); }
