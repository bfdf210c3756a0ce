# Contracts of src/collector.rs: the line and inline records of one function  (C03, C04, C05, C06)
@file src/collector.rs
@struct Collector
@raw
// ---------------------------------------------------------------- entries of the debug information
pub open spec fn e_end(l: LineInfo) -> int { l.address + (match l.size { Some(n) => n as int, None => 1 }) }
pub open spec fn e_path(s: SourceFiles, f: VxFunction, l: LineInfo) -> Seq<char> {
    file_path(s.platform, s.canonicalize, f.compilation_dir.bytes(), l.file.dir(), l.file.name())
}
/// the number of functions and line entries of a function tree: bounds the file and origin ids it can add
pub open spec fn tsize(f: VxFunction) -> nat
    decreases f, 0nat
{ 1 + f.lines@.len() + tsizes(f.inlinees, f.inlinees@.len()) }
pub open spec fn tsizes(v: Vec<VxFunction>, n: nat) -> nat
    decreases v, n
{ if n == 0 || n > v@.len() { 0 } else { tsizes(v, (n - 1) as nat) + tsize(v@[n - 1]) } }
pub open spec fn lines_fit(s: Seq<LineInfo>) -> bool { forall|i: int| 0 <= i < s.len() ==> e_end(#[trigger] s[i]) <= u32::MAX }
/// the tree's names live in the debug data; its line entries lie in 32 bits
pub open spec fn tree_ok(f: VxFunction) -> bool
    decreases f
{
    f.compilation_dir.stable() && lines_fit(f.lines@) && forall|i: int| 0 <= i < f.inlinees@.len() ==> tree_ok(#[trigger] f.inlinees@[i])
}
pub proof fn lemma_tsizes(v: Vec<VxFunction>, n: nat, i: int)
    requires 0 <= i < n <= v@.len()
    ensures tsizes(v, i as nat) + tsize(v@[i]) <= tsizes(v, n)
    decreases n
{ if i < n - 1 { lemma_tsizes(v, (n - 1) as nat, i); } }

// ---------------------------------------------------------------- C04
/// line and path of the last entry that counts
pub open spec fn last_kept(c: SourceFiles, f: VxFunction, s: Seq<LineInfo>) -> Option<(u64, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { None } else if s.last().line == 0 { last_kept(c, f, s.drop_last()) } else { Some((s.last().line, e_path(c, f, s.last()))) }
}
/// the line records of a function without inlines
pub open spec fn kept_lines(c: SourceFiles, f: VxFunction, s: Seq<LineInfo>) -> Seq<Line>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let l = s.last();
        let k = kept_lines(c, f, s.drop_last());
        if l.line == 0 || last_kept(c, f, s.drop_last()) == Some((l.line, e_path(c, f, l))) { k }
        else { k.push(Line { rva: l.address as u32, len: 0, num: l.line as u32, file_id: c.ref_to_id@[e_path(c, f, l)] }) }
    }
}
/// every entry that counts has a file id
pub open spec fn known(c: SourceFiles, f: VxFunction, s: Seq<LineInfo>) -> bool {
    forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).line != 0 ==> c.ref_to_id@.contains_key(e_path(c, f, s[i]))
}
pub proof fn lemma_kept_ext(c: SourceFiles, d: SourceFiles, f: VxFunction, s: Seq<LineInfo>)
    requires extends(c, d), known(c, f, s)
    ensures known(d, f, s), kept_lines(c, f, s) == kept_lines(d, f, s), last_kept(c, f, s) == last_kept(d, f, s)
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).line != 0 implies c.ref_to_id@.contains_key(e_path(c, f, s.drop_last()[i])) by { assert(s[i] == s.drop_last()[i]); }
        lemma_kept_ext(c, d, f, s.drop_last());
        if s.last().line != 0 { assert(s[s.len() - 1].line != 0); }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).line != 0 implies d.ref_to_id@.contains_key(e_path(d, f, s[i])) by { assert(c.ref_to_id@.contains_key(e_path(c, f, s[i]))); }
    }
}
/// only the paths of entries that count got an id
pub open spec fn only_used(a: SourceFiles, b: SourceFiles, f: VxFunction, s: Seq<LineInfo>) -> bool {
    forall|p: Seq<char>| #[trigger] b.ref_to_id@.contains_key(p) ==> a.ref_to_id@.contains_key(p) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).line != 0 && p == e_path(a, f, s[i])
}

@fn Collector::collect_function_without_inlines
@props C04 C05
@spec
    requires files_wf(*old(source)), consumed(*old(source)), lines_inv(*old(lines)), lens_unset(old(lines).lines@), fun.compilation_dir.stable(),
        old(source).fake_id_to_ref@.len() + fun.lines@.len() < u32::MAX
    ensures files_wf(*final(source)), consumed(*final(source)), extends(*old(source), *final(source)),
        final(source).fake_id_to_ref@.len() <= old(source).fake_id_to_ref@.len() + fun.lines@.len(),
        lines_inv(*final(lines)), lens_unset(final(lines).lines@), final(lines).inlines == old(lines).inlines,
        known(*final(source), *fun, fun.lines@), only_used(*old(source), *final(source), *fun, fun.lines@),
        final(lines).lines@ == old(lines).lines@ + kept_lines(*final(source), *fun, fun.lines@)
@loop 0
    invariant vx_it0.seq().len() == fun.lines@.len(), forall|i: int| 0 <= i < fun.lines@.len() ==> *(#[trigger] vx_it0.seq()[i]) == fun.lines@[i],
        0 <= vx_it0.pos() <= fun.lines@.len(), fun.compilation_dir.stable(),
        old(source).fake_id_to_ref@.len() + fun.lines@.len() < u32::MAX,
        files_wf(*source), consumed(*source), extends(*old(source), *source), 
        source.fake_id_to_ref@.len() <= old(source).fake_id_to_ref@.len() + vx_it0.pos(),
        lines_inv(*lines), lens_unset(lines.lines@), lines.inlines == old(lines).inlines,
        known(*source, *fun, fun.lines@.subrange(0, vx_it0.pos())), only_used(*old(source), *source, *fun, fun.lines@.subrange(0, vx_it0.pos())),
        lines.lines@ == old(lines).lines@ + kept_lines(*source, *fun, fun.lines@.subrange(0, vx_it0.pos())),
        match last_kept(*source, *fun, fun.lines@.subrange(0, vx_it0.pos())) {
            Some((n, p)) => source.ref_to_id@.contains_key(p) && prev == Some((n, source.ref_to_id@[p])),
            None => prev == None::<(u64, u32)> },
    decreases vx_it0.seq().len() - vx_it0.pos()
@at beforeloop 0
    proof { assert(fun.lines@.subrange(0, 0) =~= Seq::empty()); assert(old(lines).lines@ + Seq::<Line>::empty() =~= old(lines).lines@); }
@at loopstart 0
    let ghost vx_n = vx_it0.pos() - 1;
    let ghost vx_src = *source;
    let ghost vx_ln = *lines;
    let ghost vx_pre = fun.lines@.subrange(0, vx_n);
    let ghost vx_post = fun.lines@.subrange(0, vx_n + 1);
    proof {
        assert(vx_post.drop_last() =~= vx_pre);
        assert forall|x: Line| #[trigger] vx_ln.lines@.push(x) == old(lines).lines@ + kept_lines(vx_src, *fun, vx_pre).push(x) by {
            assert(vx_ln.lines@.push(x) =~= old(lines).lines@ + kept_lines(vx_src, *fun, vx_pre).push(x)); }
        assert(vx_post.last() == fun.lines@[vx_n]);
        assert forall|d: SourceFiles| #[trigger] extends(vx_src, d) implies kept_lines(vx_src, *fun, vx_pre) == kept_lines(d, *fun, vx_pre) && last_kept(vx_src, *fun, vx_pre) == last_kept(d, *fun, vx_pre) && known(d, *fun, vx_pre) by { lemma_kept_ext(vx_src, d, *fun, vx_pre); }
        assert forall|b: SourceFiles| (forall|p: Seq<char>| #[trigger] b.ref_to_id@.contains_key(p) ==> vx_src.ref_to_id@.contains_key(p) || (fun.lines@[vx_n].line != 0 && p == e_path(*old(source), *fun, fun.lines@[vx_n])))
            implies #[trigger] only_used(*old(source), b, *fun, vx_post) by {
            assert forall|p: Seq<char>| #[trigger] b.ref_to_id@.contains_key(p) implies old(source).ref_to_id@.contains_key(p) || exists|i: int| 0 <= i < vx_post.len() && (#[trigger] vx_post[i]).line != 0 && p == e_path(*old(source), *fun, vx_post[i]) by {
                if vx_src.ref_to_id@.contains_key(p) {
                    if !old(source).ref_to_id@.contains_key(p) { let i = choose|i: int| 0 <= i < vx_pre.len() && (#[trigger] vx_pre[i]).line != 0 && p == e_path(*old(source), *fun, vx_pre[i]); assert(vx_post[i] == vx_pre[i]); }
                } else { assert(vx_post[vx_n].line != 0); }
            }
        }
    }
@at afterloop 0
    proof { assert(fun.lines@.subrange(0, fun.lines@.len() as int) =~= fun.lines@); }
@at loopend 0
    proof {
        assert(extends(vx_src, *source));
        assert(kept_lines(vx_src, *fun, vx_pre) == kept_lines(*source, *fun, vx_pre));
        let q = e_path(*source, *fun, fun.lines@[vx_n]);
        assert(source.ref_to_id@.contains_key(q) && source.ref_to_id@[q] == file_id);
        if last_kept(*source, *fun, vx_pre) == Some((line.line, q)) { assert(lines.lines@ == vx_ln.lines@); }
        else { assert(lines.lines@ == vx_ln.lines@.push(Line { rva: line.address as u32, len: 0, num: line.line as u32, file_id })); }
    }

@raw
// ---------------------------------------------------------------- C03: one level
pub type VxRng = (core::ops::Range<u64>, u32);
pub type VxCfg = (Platform, bool, Seq<u8>);
pub open spec fn cfg(s: SourceFiles, f: VxFunction) -> VxCfg { (s.platform, s.canonicalize, f.compilation_dir.bytes()) }
pub open spec fn l_path(c: VxCfg, l: LineInfo) -> Seq<char> { file_path(c.0, c.1, c.2, l.file.dir(), l.file.name()) }
/// line and file of an entry
pub open spec fn l_key(c: VxCfg, l: LineInfo) -> (u32, Seq<char>) { (l.line as u32, l_path(c, l)) }
/// address a belongs to an inlined call
pub open spec fn inl(s: Seq<VxRng>, a: int) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.start <= a < s[j].0.end }
/// address a belongs to the i-th line entry
pub open spec fn entry_at(l: Seq<LineInfo>, a: int, i: int) -> bool { 0 <= i < l.len() && l[i].address <= a < e_end(l[i]) }
pub open spec fn lin(l: Seq<LineInfo>, a: int) -> bool { exists|i: int| entry_at(l, a, i) }
/// no line entry has an address between b and a
pub open spec fn gap(l: Seq<LineInfo>, b: int, a: int) -> bool { forall|x: int| b < x < a ==> !#[trigger] lin(l, x) }
/// code of the function itself begins at a (entry i), or changes its line or file there
pub open spec fn rec_at(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, a: int, i: int) -> bool {
    &&& entry_at(l, a, i) && !inl(s, a)
    &&& forall|b: int, k: int| #[trigger] entry_at(l, b, k) && b < a && gap(l, b, a) ==> inl(s, b) || l_key(c, l[k]) != l_key(c, l[i])
}
/// r has the line and file of entry l
pub open spec fn has_key(c: VxCfg, ids: Map<Seq<char>, u32>, l: LineInfo, num: u32, file: u32) -> bool {
    num == l.line as u32 && ids.contains_key(l_path(c, l)) && file == ids[l_path(c, l)]
}
pub open spec fn is_rec(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, ids: Map<Seq<char>, u32>, r: Line, i: int) -> bool {
    rec_at(c, l, s, r.rva as int, i) && r.len == 0 && has_key(c, ids, l[i], r.num, r.file_id)
}
/// r: the own line records with addresses below cur
pub open spec fn own_upto(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, ids: Map<Seq<char>, u32>, r: Seq<Line>, cur: int) -> bool {
    &&& forall|j: int, k: int| 0 <= j < k < r.len() ==> (#[trigger] r[j]).rva < (#[trigger] r[k]).rva
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).rva < cur && exists|i: int| is_rec(c, l, s, ids, r[k], i)
    &&& forall|a: int, i: int| a < cur && #[trigger] rec_at(c, l, s, a, i) ==> exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).rva == a
}
/// prev is what the code before cur belongs to: nothing or an inlined call, or a line and file of the function
pub open spec fn before(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, ids: Map<Seq<char>, u32>, prev: Option<(u32, u32)>, cur: int) -> bool {
    match prev {
        None => forall|b: int, k: int| #[trigger] entry_at(l, b, k) && b < cur && gap(l, b, cur) ==> inl(s, b),
        Some((n, f)) => exists|b: int, k: int| #[trigger] entry_at(l, b, k) && b < cur && gap(l, b, cur) && !inl(s, b) && has_key(c, ids, l[k], n, f),
    }
}
pub open spec fn walk(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, ids: Map<Seq<char>, u32>, r: Seq<Line>, prev: Option<(u32, u32)>, cur: int) -> bool {
    own_upto(c, l, s, ids, r, cur) && before(c, l, s, ids, prev, cur)
}
pub open spec fn within(l: LineInfo, x: VxRng) -> bool { l.address <= x.0.start && x.0.end <= e_end(l) }
pub open spec fn in_some(l: Seq<LineInfo>, x: VxRng) -> bool { exists|i: int| 0 <= i < l.len() && within(#[trigger] l[i], x) }
pub open spec fn lines_sorted(l: Seq<LineInfo>) -> bool { forall|i: int, k: int| 0 <= i < k < l.len() ==> e_end(#[trigger] l[i]) <= (#[trigger] l[k]).address }
/// line entries sorted and disjoint; ranges of inlined calls not empty, disjoint, each within one line entry
pub open spec fn level_wf(l: Seq<LineInfo>, s: Seq<VxRng>) -> bool {
    &&& lines_sorted(l)
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0.start < s[j].0.end && in_some(l, s[j])
    &&& forall|j: int, k: int| 0 <= j < k < s.len() ==> (#[trigger] s[j]).0.end <= (#[trigger] s[k]).0.start
}
pub open spec fn ids_inj(m: Map<Seq<char>, u32>) -> bool { forall|p: Seq<char>, q: Seq<char>| #[trigger] m.contains_key(p) && #[trigger] m.contains_key(q) && m[p] == m[q] ==> p == q }
pub open spec fn ids_ext(a: Map<Seq<char>, u32>, b: Map<Seq<char>, u32>) -> bool { forall|p: Seq<char>| #[trigger] a.contains_key(p) ==> b.contains_key(p) && b[p] == a[p] }

pub proof fn lemma_walk_ext(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, m: Map<Seq<char>, u32>, n: Map<Seq<char>, u32>, r: Seq<Line>, prev: Option<(u32, u32)>, cur: int)
    requires walk(c, l, s, m, r, prev, cur), ids_ext(m, n)
    ensures walk(c, l, s, n, r, prev, cur)
{
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).rva < cur && exists|i: int| is_rec(c, l, s, n, r[k], i) by {
        let i = choose|i: int| is_rec(c, l, s, m, r[k], i);
        assert(is_rec(c, l, s, n, r[k], i));
    }
    if prev is Some {
        let (b, k) = choose|b: int, k: int| #[trigger] entry_at(l, b, k) && b < cur && gap(l, b, cur) && !inl(s, b) && has_key(c, m, l[k], (prev->0).0, (prev->0).1);
        assert(entry_at(l, b, k) && has_key(c, n, l[k], (prev->0).0, (prev->0).1));
    }
}
/// code between cur and to has no line entry
pub proof fn lemma_walk_gap(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, ids: Map<Seq<char>, u32>, r: Seq<Line>, prev: Option<(u32, u32)>, cur: int, to: int)
    requires walk(c, l, s, ids, r, prev, cur), cur <= to, gap(l, cur - 1, to)
    ensures walk(c, l, s, ids, r, prev, to)
{
    assert forall|a: int, i: int| a < to && #[trigger] rec_at(c, l, s, a, i) implies exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).rva == a by {
        if a >= cur { assert(lin(l, a)); }
    }
    assert forall|b: int, k: int| #[trigger] entry_at(l, b, k) && b < to && gap(l, b, to) implies b < cur && gap(l, b, cur) by { assert(lin(l, b)); }
    if prev is Some {
        let (b, k) = choose|b: int, k: int| #[trigger] entry_at(l, b, k) && b < cur && gap(l, b, cur) && !inl(s, b) && has_key(c, ids, l[k], (prev->0).0, (prev->0).1);
        assert forall|x: int| b < x < to implies !#[trigger] lin(l, x) by { }
        assert(entry_at(l, b, k) && gap(l, b, to));
    }
}
/// an inlined call from cur to `to`, within entry i
pub proof fn lemma_walk_inline(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, ids: Map<Seq<char>, u32>, r: Seq<Line>, prev: Option<(u32, u32)>, cur: int, j: int, i: int)
    requires walk(c, l, s, ids, r, prev, cur), 0 <= j < s.len(), s[j].0.start == cur, cur < s[j].0.end, 0 <= i < l.len(), within(l[i], s[j])
    ensures walk(c, l, s, ids, r, None, s[j].0.end as int)
{
    let to = s[j].0.end as int;
    assert forall|a: int| cur <= a < to implies #[trigger] inl(s, a) by { assert(s[j].0.start <= a < s[j].0.end); }
    assert forall|a: int, k: int| a < to && #[trigger] rec_at(c, l, s, a, k) implies exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).rva == a by {
        if a >= cur { assert(inl(s, a)); }
    }
    assert forall|b: int, k: int| #[trigger] entry_at(l, b, k) && b < to && gap(l, b, to) implies inl(s, b) by {
        assert(entry_at(l, to - 1, i));
        assert(lin(l, to - 1));
        if b < to - 1 { assert(!lin(l, to - 1)); }
        assert(inl(s, to - 1));
    }
}
/// own code from cur to `to`, within entry i
pub proof fn lemma_walk_own(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, ids: Map<Seq<char>, u32>, r: Seq<Line>, prev: Option<(u32, u32)>, cur: int, to: int, i: int, n: u32, f: u32, r2: Seq<Line>)
    requires walk(c, l, s, ids, r, prev, cur), ids_inj(ids), lines_sorted(l), 0 <= i < l.len(), l[i].address <= cur < to <= e_end(l[i]), to <= u32::MAX,
        forall|a: int| cur <= a < to ==> !#[trigger] inl(s, a), has_key(c, ids, l[i], n, f),
        r2 == (if prev == Some((n, f)) { r } else { r.push(Line { rva: cur as u32, len: 0, num: n, file_id: f }) }),
    ensures walk(c, l, s, ids, r2, Some((n, f)), to)
{
    // the entry of an address is unique
    assert forall|a: int, k: int| l[i].address <= a < e_end(l[i]) && #[trigger] entry_at(l, a, k) implies k == i by { if k < i { assert(e_end(l[k]) <= l[i].address); } if i < k { assert(e_end(l[i]) <= l[k].address); } }
    assert(entry_at(l, cur, i));
    let same = prev == Some((n, f));
    assert(!inl(s, cur));
    // the address cur
    if same {
        let (b, k) = choose|b: int, k: int| #[trigger] entry_at(l, b, k) && b < cur && gap(l, b, cur) && !inl(s, b) && has_key(c, ids, l[k], n, f);
        assert(ids.contains_key(l_path(c, l[k])) && ids.contains_key(l_path(c, l[i])));
        assert(l_key(c, l[k]) == l_key(c, l[i]));
        assert forall|x: int| !rec_at(c, l, s, cur, x) by { if rec_at(c, l, s, cur, x) { assert(entry_at(l, cur, x)); assert(x == i); assert(entry_at(l, b, k)); } }
    } else {
        assert forall|b: int, k: int| #[trigger] entry_at(l, b, k) && b < cur && gap(l, b, cur) implies inl(s, b) || l_key(c, l[k]) != l_key(c, l[i]) by {
            if prev is Some && !inl(s, b) {
                let (b2, k2) = choose|b2: int, k2: int| #[trigger] entry_at(l, b2, k2) && b2 < cur && gap(l, b2, cur) && !inl(s, b2) && has_key(c, ids, l[k2], (prev->0).0, (prev->0).1);
                assert(lin(l, b) && lin(l, b2));
                if b < b2 { assert(!lin(l, b2)); }
                if b2 < b { assert(!lin(l, b)); }
                if k < k2 { assert(e_end(l[k]) <= l[k2].address); }
                if k2 < k { assert(e_end(l[k2]) <= l[k].address); }
                assert(k == k2);
                if l_key(c, l[k]) == l_key(c, l[i]) { assert(prev == Some((n, f))); }
            }
        }
        assert(rec_at(c, l, s, cur, i));
        assert(is_rec(c, l, s, ids, r2[r.len() as int], i));
    }
    // no other address up to `to` begins something
    assert forall|a: int, x: int| cur < a < to implies !#[trigger] rec_at(c, l, s, a, x) by {
        if rec_at(c, l, s, a, x) {
            assert(entry_at(l, a, x));
            assert(entry_at(l, a - 1, i));
            assert(gap(l, a - 1, a));
            assert(!inl(s, a - 1));
        }
    }
    assert forall|k: int| 0 <= k < r2.len() implies (#[trigger] r2[k]).rva < to && exists|x: int| is_rec(c, l, s, ids, r2[k], x) by {
        if k < r.len() { assert(r2[k] == r[k]); let x = choose|x: int| is_rec(c, l, s, ids, r[k], x); assert(is_rec(c, l, s, ids, r2[k], x)); }
    }
    assert forall|a: int, x: int| a < to && #[trigger] rec_at(c, l, s, a, x) implies exists|k: int| 0 <= k < r2.len() && (#[trigger] r2[k]).rva == a by {
        if a < cur { let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).rva == a; assert(r2[k] == r[k]); }
        else if a == cur { assert(!same); assert(r2[r.len() as int].rva == a); }
    }
    assert forall|j: int, k: int| 0 <= j < k < r2.len() implies (#[trigger] r2[j]).rva < (#[trigger] r2[k]).rva by { assert(r2[j] == r[j]); if k < r.len() { assert(r2[k] == r[k]); } }
    assert(entry_at(l, to - 1, i));
    assert(gap(l, to - 1, to));
    assert(!inl(s, to - 1));
}

@raw
// ---------------------------------------------------------------- C03: the function tree
pub open spec fn picked(s: Seq<(InlineSite, InlineAddressRange)>, k: InlineSite) -> Seq<InlineAddressRange>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.last().0 == k { picked(s.drop_last(), k).push(s.last().1) } else { picked(s.drop_last(), k) }
}
pub open spec fn ranges_at(m: Map<InlineSite, Vec<InlineAddressRange>>, k: InlineSite) -> Seq<InlineAddressRange> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
/// b is a with the inline records s added, in order
pub open spec fn inl_added(a: Map<InlineSite, Vec<InlineAddressRange>>, b: Map<InlineSite, Vec<InlineAddressRange>>, s: Seq<(InlineSite, InlineAddressRange)>) -> bool {
    forall|k: InlineSite| #[trigger] ranges_at(b, k) == ranges_at(a, k) + picked(s, k)
}
pub proof fn lemma_picked_concat(s: Seq<(InlineSite, InlineAddressRange)>, t: Seq<(InlineSite, InlineAddressRange)>, k: InlineSite)
    ensures picked(s + t, k) == picked(s, k) + picked(t, k)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); assert(picked(s, k) + Seq::<InlineAddressRange>::empty() =~= picked(s, k)); }
    else {
        lemma_picked_concat(s, t.drop_last(), k);
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        assert(picked(s + t, k) =~= picked(s, k) + picked(t, k));
    }
}
pub proof fn lemma_added_concat(a: Map<InlineSite, Vec<InlineAddressRange>>, b: Map<InlineSite, Vec<InlineAddressRange>>, c: Map<InlineSite, Vec<InlineAddressRange>>, s: Seq<(InlineSite, InlineAddressRange)>, t: Seq<(InlineSite, InlineAddressRange)>)
    requires inl_added(a, b, s), inl_added(b, c, t)
    ensures inl_added(a, c, s + t)
{
    assert forall|k: InlineSite| #[trigger] ranges_at(c, k) == ranges_at(a, k) + picked(s + t, k) by {
        lemma_picked_concat(s, t, k);
        assert(ranges_at(b, k) == ranges_at(a, k) + picked(s, k));
        assert(ranges_at(a, k) + (picked(s, k) + picked(t, k)) =~= (ranges_at(a, k) + picked(s, k)) + picked(t, k));
    }
}
pub open spec fn site_of(x: VxRng, depth: int, num: u32, file: u32) -> InlineSite { InlineSite { inline_origin_id: x.1, call_depth: depth as u32, call_line_number: num, call_file_id: file } }
pub open spec fn rng_of(x: VxRng) -> InlineAddressRange { InlineAddressRange { rva: x.0.start as u32, len: (x.0.end - x.0.start) as u32 } }
/// y is the inline record of the range x called from entry l
pub open spec fn is_call(c: VxCfg, ids: Map<Seq<char>, u32>, depth: int, l: LineInfo, x: VxRng, y: (InlineSite, InlineAddressRange)) -> bool {
    exists|n: u32, f: u32| #[trigger] has_key(c, ids, l, n, f) && y == (site_of(x, depth, n, f), rng_of(x))
}
pub open spec fn some_call(c: VxCfg, ids: Map<Seq<char>, u32>, depth: int, l: Seq<LineInfo>, x: VxRng, y: (InlineSite, InlineAddressRange), wf: bool) -> bool {
    exists|i: int| 0 <= i < l.len() && is_call(c, ids, depth, #[trigger] l[i], x, y) && (wf ==> within(l[i], x))
}
/// an own record belongs to an entry that exists
pub open spec fn some_line(c: VxCfg, ids: Map<Seq<char>, u32>, l: Seq<LineInfo>, r: Line) -> bool {
    exists|i: int| 0 <= i < l.len() && has_key(c, ids, #[trigger] l[i], r.num, r.file_id) && r.rva < e_end(l[i])
}
/// C03, one nesting level: s are the ranges of the inlined calls in address order
pub open spec fn level(src: SourceFiles, f: VxFunction, depth: int, s: Seq<VxRng>, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>) -> bool {
    let c = cfg(src, f);
    let ids = src.ref_to_id@;
    let l = f.lines@;
    let wf = level_wf(l, s);
    &&& forall|k: int| 0 <= k < r.len() ==> some_line(c, ids, l, #[trigger] r[k])
    &&& x.len() <= s.len() && forall|j: int| 0 <= j < x.len() ==> some_call(c, ids, depth, l, s[j], #[trigger] x[j], wf)
    &&& wf ==> x.len() == s.len() && own_upto(c, l, s, ids, r, u64::MAX + 1)
}
/// the ranges of the inlined calls, in the order of the debug information
pub open spec fn entry_rng(o: InlineOrigins, f: VxFunction, l: LineInfo) -> VxRng { (core::ops::Range { start: l.address, end: e_end(l) as u64 }, o.index_for_mangled_name@[f.name.kv()]) }
pub open spec fn call_ranges(o: InlineOrigins, f: VxFunction) -> Seq<VxRng> { Seq::new(f.lines@.len(), |i: int| entry_rng(o, f, f.lines@[i])) }
pub open spec fn all_ranges(o: InlineOrigins, v: Vec<VxFunction>, n: nat) -> Seq<VxRng>
    decreases n
{ if n == 0 { Seq::empty() } else { all_ranges(o, v, (n - 1) as nat) + call_ranges(o, v@[n - 1]) } }
pub open spec fn rng_key() -> spec_fn(VxRng) -> (int, int) { |x: VxRng| (x.0.start as int, 0int) }
pub open spec fn in_order(a: Seq<VxRng>, s: Seq<VxRng>) -> bool { s.to_multiset() == a.to_multiset() && key_sorted(s, rng_key()) }
/// C03: what a function at a nesting depth adds: the records of its inlined calls, then its own
pub open spec fn emitted(f: VxFunction, depth: int, src: SourceFiles, org: InlineOrigins, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>) -> bool
    decreases f, 0nat
{
    exists|r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, s: Seq<VxRng>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>|
        calls(f.inlinees, f.inlinees@.len(), depth + 1, src, org, r1, x1) && #[trigger] vx_parts(r1, x1, s, r2, x2)
        && in_order(all_ranges(org, f.inlinees, f.inlinees@.len()), s) && level(src, f, depth, s, r2, x2) && r == r1 + r2 && x == x1 + x2
}
pub open spec fn vx_parts(r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, s: Seq<VxRng>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>) -> bool { true }
pub open spec fn vx_parts4(r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>) -> bool { true }
/// what the first n inlined calls add (a call without line entries adds nothing)
pub open spec fn calls(v: Vec<VxFunction>, n: nat, depth: int, src: SourceFiles, org: InlineOrigins, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>) -> bool
    decreases v, n
{
    if n == 0 || n > v@.len() { r.len() == 0 && x.len() == 0 }
    else if v@[n - 1].lines@.len() == 0 { calls(v, (n - 1) as nat, depth, src, org, r, x) }
    else {
        exists|r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>|
            calls(v, (n - 1) as nat, depth, src, org, r1, x1) && #[trigger] vx_parts4(r1, x1, r2, x2)
            && org.index_for_mangled_name@.contains_key(v@[n - 1].name.kv())
            && emitted(v@[n - 1], depth, src, org, r2, x2) && r == r1 + r2 && x == x1 + x2
    }
}
pub proof fn lemma_level_ext(src: SourceFiles, d: SourceFiles, f: VxFunction, depth: int, s: Seq<VxRng>, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>)
    requires level(src, f, depth, s, r, x), extends(src, d)
    ensures level(d, f, depth, s, r, x)
{
    let c = cfg(src, f);
    let l = f.lines@;
    let wf = level_wf(l, s);
    assert(ids_ext(src.ref_to_id@, d.ref_to_id@));
    assert forall|k: int| 0 <= k < r.len() implies some_line(c, d.ref_to_id@, l, #[trigger] r[k]) by {
        let i = choose|i: int| 0 <= i < l.len() && has_key(c, src.ref_to_id@, #[trigger] l[i], r[k].num, r[k].file_id) && r[k].rva < e_end(l[i]);
        assert(has_key(c, d.ref_to_id@, l[i], r[k].num, r[k].file_id));
    }
    assert forall|j: int| 0 <= j < x.len() implies some_call(c, d.ref_to_id@, depth, l, s[j], #[trigger] x[j], wf) by {
        let i = choose|i: int| 0 <= i < l.len() && is_call(c, src.ref_to_id@, depth, #[trigger] l[i], s[j], x[j]) && (wf ==> within(l[i], s[j]));
        let (n, g) = choose|n: u32, g: u32| #[trigger] has_key(c, src.ref_to_id@, l[i], n, g) && x[j] == (site_of(s[j], depth, n, g), rng_of(s[j]));
        assert(has_key(c, d.ref_to_id@, l[i], n, g));
        assert(is_call(c, d.ref_to_id@, depth, l[i], s[j], x[j]));
    }
    if wf {
        assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).rva < u64::MAX + 1 && exists|i: int| is_rec(c, l, s, d.ref_to_id@, r[k], i) by {
            let i = choose|i: int| is_rec(c, l, s, src.ref_to_id@, r[k], i);
            assert(is_rec(c, l, s, d.ref_to_id@, r[k], i));
        }
    }
}
pub proof fn lemma_ranges_ext(o: InlineOrigins, p: InlineOrigins, v: Vec<VxFunction>, n: nat, depth: int, src: SourceFiles, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>)
    requires origins_extend(o, p), n <= v@.len(), calls(v, n, depth, src, o, r, x)
    ensures all_ranges(o, v, n) == all_ranges(p, v, n)
    decreases n
{
    if n > 0 {
        if v@[n - 1].lines@.len() == 0 {
            lemma_ranges_ext(o, p, v, (n - 1) as nat, depth, src, r, x);
        } else {
            let (r1, x1, r2, x2) = choose|r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>|
                calls(v, (n - 1) as nat, depth, src, o, r1, x1) && #[trigger] vx_parts4(r1, x1, r2, x2)
                && o.index_for_mangled_name@.contains_key(v@[n - 1].name.kv())
                && emitted(v@[n - 1], depth, src, o, r2, x2) && r == r1 + r2 && x == x1 + x2;
            lemma_ranges_ext(o, p, v, (n - 1) as nat, depth, src, r1, x1);
        }
        assert(call_ranges(o, v@[n - 1]) =~= call_ranges(p, v@[n - 1]));
    }
}
/// later states of the tables keep what was emitted
pub proof fn lemma_emitted_ext(f: VxFunction, depth: int, src: SourceFiles, org: InlineOrigins, d: SourceFiles, p: InlineOrigins, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>)
    requires emitted(f, depth, src, org, r, x), extends(src, d), origins_extend(org, p)
    ensures emitted(f, depth, d, p, r, x)
    decreases f, 0nat
{
    let n = f.inlinees@.len();
    let (r1, x1, s, r2, x2) = choose|r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, s: Seq<VxRng>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>|
        calls(f.inlinees, n, depth + 1, src, org, r1, x1) && #[trigger] vx_parts(r1, x1, s, r2, x2)
        && in_order(all_ranges(org, f.inlinees, n), s) && level(src, f, depth, s, r2, x2) && r == r1 + r2 && x == x1 + x2;
    lemma_calls_ext(f.inlinees, n, depth + 1, src, org, d, p, r1, x1);
    lemma_ranges_ext(org, p, f.inlinees, n, depth + 1, src, r1, x1);
    lemma_level_ext(src, d, f, depth, s, r2, x2);
    assert(vx_parts(r1, x1, s, r2, x2));
}
pub proof fn lemma_calls_ext(v: Vec<VxFunction>, n: nat, depth: int, src: SourceFiles, org: InlineOrigins, d: SourceFiles, p: InlineOrigins, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>)
    requires calls(v, n, depth, src, org, r, x), extends(src, d), origins_extend(org, p), n <= v@.len()
    ensures calls(v, n, depth, d, p, r, x)
    decreases v, n
{
    if n > 0 {
        if v@[n - 1].lines@.len() == 0 { lemma_calls_ext(v, (n - 1) as nat, depth, src, org, d, p, r, x); }
        else {
            let (r1, x1, r2, x2) = choose|r1: Seq<Line>, x1: Seq<(InlineSite, InlineAddressRange)>, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>|
                calls(v, (n - 1) as nat, depth, src, org, r1, x1) && #[trigger] vx_parts4(r1, x1, r2, x2)
                && org.index_for_mangled_name@.contains_key(v@[n - 1].name.kv())
                && emitted(v@[n - 1], depth, src, org, r2, x2) && r == r1 + r2 && x == x1 + x2;
            lemma_calls_ext(v, (n - 1) as nat, depth, src, org, d, p, r1, x1);
            lemma_emitted_ext(v@[n - 1], depth, src, org, d, p, r2, x2);
            assert(vx_parts4(r1, x1, r2, x2));
        }
    }
}
pub open spec fn collected(fun: VxFunction, depth: int, a: Lines, b: Lines, src: SourceFiles, org: InlineOrigins) -> bool {
    exists|r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>| #[trigger] emitted(fun, depth, src, org, r, x) && b.lines@ == a.lines@ + r && inl_added(a.inlines@, b.inlines@, x)
}
pub open spec fn lines_ok(l: Lines) -> bool { lines_inv(l) && lens_unset(l.lines@) && inlines_wf(l.inlines@) && inlines_fit(l.inlines@) }
pub open spec fn tables_ok(s: SourceFiles, o: InlineOrigins) -> bool { files_wf(s) && consumed(s) && origins_wf(o) }
pub open spec fn room(s: SourceFiles, o: InlineOrigins, n: int) -> bool { s.fake_id_to_ref@.len() + n < u32::MAX && o.demangled_names@.len() + n < u32::MAX }
pub open spec fn grown(s: SourceFiles, o: InlineOrigins, s2: SourceFiles, o2: InlineOrigins, n: int) -> bool {
    extends(s, s2) && origins_extend(o, o2) && s2.fake_id_to_ref@.len() < s.fake_id_to_ref@.len() + n && o2.demangled_names@.len() < o.demangled_names@.len() + n
}

/// state of the walk over the line entries: records emitted so far, the entry before cur, and the position
pub open spec fn walking(src: SourceFiles, f: VxFunction, depth: int, s: Seq<VxRng>, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>, prev: Option<(u32, u32)>, cur: int) -> bool {
    let c = cfg(src, f);
    let ids = src.ref_to_id@;
    let l = f.lines@;
    let wf = level_wf(l, s);
    &&& forall|k: int| 0 <= k < r.len() ==> some_line(c, ids, l, #[trigger] r[k])
    &&& x.len() <= s.len() && forall|j: int| 0 <= j < x.len() ==> some_call(c, ids, depth, l, s[j], #[trigger] x[j], wf)
    &&& wf ==> walk(c, l, s, ids, r, prev, cur) && before_after(s, x.len() as int, cur)
}
pub open spec fn before_after(s: Seq<VxRng>, j: int, cur: int) -> bool {
    &&& forall|k: int| 0 <= k < j ==> (#[trigger] s[k]).0.end <= cur
    &&& forall|k: int| j <= k < s.len() ==> (#[trigger] s[k]).0.start >= cur
}
pub proof fn lemma_walking_ext(src: SourceFiles, d: SourceFiles, f: VxFunction, depth: int, s: Seq<VxRng>, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>, prev: Option<(u32, u32)>, cur: int)
    requires walking(src, f, depth, s, r, x, prev, cur), extends(src, d)
    ensures walking(d, f, depth, s, r, x, prev, cur)
{
    let c = cfg(src, f);
    let l = f.lines@;
    let wf = level_wf(l, s);
    assert(ids_ext(src.ref_to_id@, d.ref_to_id@));
    assert forall|k: int| 0 <= k < r.len() implies some_line(c, d.ref_to_id@, l, #[trigger] r[k]) by {
        let i = choose|i: int| 0 <= i < l.len() && has_key(c, src.ref_to_id@, #[trigger] l[i], r[k].num, r[k].file_id) && r[k].rva < e_end(l[i]);
        assert(has_key(c, d.ref_to_id@, l[i], r[k].num, r[k].file_id));
    }
    assert forall|j: int| 0 <= j < x.len() implies some_call(c, d.ref_to_id@, depth, l, s[j], #[trigger] x[j], wf) by {
        let i = choose|i: int| 0 <= i < l.len() && is_call(c, src.ref_to_id@, depth, #[trigger] l[i], s[j], x[j]) && (wf ==> within(l[i], s[j]));
        let (n, g) = choose|n: u32, g: u32| #[trigger] has_key(c, src.ref_to_id@, l[i], n, g) && x[j] == (site_of(s[j], depth, n, g), rng_of(s[j]));
        assert(has_key(c, d.ref_to_id@, l[i], n, g));
        assert(is_call(c, d.ref_to_id@, depth, l[i], s[j], x[j]));
    }
    if wf { lemma_walk_ext(c, l, s, src.ref_to_id@, d.ref_to_id@, r, prev, cur); }
}
/// a step of the walk on well-formed input
pub proof fn lemma_step_wf(c: VxCfg, l: Seq<LineInfo>, s: Seq<VxRng>, ids: Map<Seq<char>, u32>, r: Seq<Line>, j: int, prev: Option<(u32, u32)>, cur: int,
        i: int, n: u32, g: u32, r2: Seq<Line>, j2: int, prev2: Option<(u32, u32)>, cur2: int)
    requires level_wf(l, s), walk(c, l, s, ids, r, prev, cur), before_after(s, j, cur), 0 <= j <= s.len(), ids_inj(ids), 0 <= i < l.len(), has_key(c, ids, l[i], n, g),
        0 <= cur < e_end(l[i]) <= u32::MAX, l[i].address <= cur, j < s.len() && s[j].0.start < e_end(l[i]) ==> within(l[i], s[j]),
        ({ let own = j >= s.len() || s[j].0.start > cur;
           &&& r2 == (if own && prev != Some((n, g)) { r.push(Line { rva: cur as u32, len: 0, num: n, file_id: g }) } else { r })
           &&& if j < s.len() && s[j].0.start < e_end(l[i]) { j2 == j + 1 && cur2 == s[j].0.end && prev2 == None::<(u32, u32)> }
               else { j2 == j && cur2 == e_end(l[i]) && prev2 == (if own { Some((n, g)) } else { prev }) } })
    ensures walk(c, l, s, ids, r2, prev2, cur2), before_after(s, j2, cur2), cur < cur2 <= e_end(l[i])
{
    hide(own_upto); hide(before);
    let own = j >= s.len() || s[j].0.start > cur;
    let call = j < s.len() && s[j].0.start < e_end(l[i]);
    if j < s.len() { assert(s[j].0.start < s[j].0.end); assert(s[j].0.start >= cur); }
    {
        let to = if call { s[j].0.start as int } else { e_end(l[i]) };
        if own {
            assert forall|a: int| cur <= a < to implies !#[trigger] inl(s, a) by {
                if inl(s, a) {
                    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.start <= a < s[k].0.end;
                    if k < j { assert(s[k].0.end <= cur); }
                    else if j < k { assert(s[j].0.end <= s[k].0.start); assert(s[j].0.start < s[j].0.end); }
                }
            }
            lemma_walk_own(c, l, s, ids, r, prev, cur, to, i, n, g, r2);
            if call { lemma_walk_inline(c, l, s, ids, r2, Some((n, g)), to, j, i); }
        } else {
            assert(s[j].0.start >= cur);
            lemma_walk_inline(c, l, s, ids, r, prev, cur, j, i);
        }
        assert(before_after(s, j2, cur2)) by {
            assert forall|k: int| 0 <= k < j2 implies (#[trigger] s[k]).0.end <= cur2 by { }
            assert forall|k: int| j2 <= k < s.len() implies (#[trigger] s[k]).0.start >= cur2 by {
                if call { assert(s[j].0.end <= s[k].0.start); }
                else if k > j { assert(s[j].0.end <= s[k].0.start); assert(s[j].0.start < s[j].0.end); }
            }
        }
    }
}
/// one step of the walk, within entry i
pub proof fn lemma_step(src: SourceFiles, f: VxFunction, depth: int, s: Seq<VxRng>, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>, prev: Option<(u32, u32)>, cur: int,
        i: int, n: u32, g: u32, r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>, prev2: Option<(u32, u32)>, cur2: int)
    requires walking(src, f, depth, s, r, x, prev, cur), ids_inj(src.ref_to_id@), 0 <= i < f.lines@.len(), has_key(cfg(src, f), src.ref_to_id@, f.lines@[i], n, g),
        0 <= cur < e_end(f.lines@[i]) <= u32::MAX, level_wf(f.lines@, s) ==> f.lines@[i].address <= cur,
        ({ let j = x.len() as int;
           let own = j >= s.len() || s[j].0.start > cur;
           &&& r2 == (if own && prev != Some((n, g)) { r.push(Line { rva: cur as u32, len: 0, num: n, file_id: g }) } else { r })
           &&& if j < s.len() && s[j].0.start < e_end(f.lines@[i]) { x2 == x.push((site_of(s[j], depth, n, g), rng_of(s[j]))) && cur2 == s[j].0.end && prev2 == None::<(u32, u32)> }
               else { x2 == x && cur2 == e_end(f.lines@[i]) && prev2 == (if own { Some((n, g)) } else { prev }) } })
    ensures walking(src, f, depth, s, r2, x2, prev2, cur2), level_wf(f.lines@, s) ==> cur < cur2 <= e_end(f.lines@[i])
{
    let c = cfg(src, f);
    let ids = src.ref_to_id@;
    let l = f.lines@;
    let wf = level_wf(l, s);
    let j = x.len() as int;
    let own = j >= s.len() || s[j].0.start > cur;
    let call = j < s.len() && s[j].0.start < e_end(l[i]);
    assert forall|k: int| 0 <= k < r2.len() implies some_line(c, ids, l, #[trigger] r2[k]) by {
        if k < r.len() { assert(some_line(c, ids, l, r[k])); } else { assert(has_key(c, ids, l[i], r2[k].num, r2[k].file_id)); }
    }
    if wf && call {
        let i2 = choose|i2: int| 0 <= i2 < l.len() && within(#[trigger] l[i2], s[j]);
        assert(s[j].0.start >= cur);
        if i2 < i { assert(e_end(l[i2]) <= l[i].address); }
        if i < i2 { assert(e_end(l[i]) <= l[i2].address); }
        assert(i2 == i);
        assert(s[j].0.start < s[j].0.end);
    }
    if call {
        assert(has_key(c, ids, l[i], n, g));
        assert(is_call(c, ids, depth, l[i], s[j], x2[j]));
    }
    assert forall|k: int| 0 <= k < x2.len() implies some_call(c, ids, depth, l, s[k], #[trigger] x2[k], wf) by {
        if k < x.len() { assert(x2[k] == x[k]); assert(some_call(c, ids, depth, l, s[k], x[k], wf)); } else { assert(is_call(c, ids, depth, l[i], s[k], x2[k])); }
    }
    if wf { lemma_step_wf(c, l, s, ids, r, x.len() as int, prev, cur, i, n, g, r2, x2.len() as int, prev2, cur2); }
}
/// the walk reached the next entry
pub proof fn lemma_next_entry(src: SourceFiles, f: VxFunction, depth: int, s: Seq<VxRng>, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>, prev: Option<(u32, u32)>, cur: int, i: int, to: int)
    requires walking(src, f, depth, s, r, x, prev, cur), level_wf(f.lines@, s), 0 <= i <= f.lines@.len(), cur <= to,
        i < f.lines@.len() ==> to == f.lines@[i].address, forall|k: int| 0 <= k < i ==> e_end(#[trigger] f.lines@[k]) <= cur
    ensures walking(src, f, depth, s, r, x, prev, to)
{
    let l = f.lines@;
    let c = cfg(src, f);
    assert forall|a: int| cur - 1 < a < to implies !#[trigger] lin(l, a) by {
        if lin(l, a) {
            let k = choose|k: int| entry_at(l, a, k);
            if k < i { assert(e_end(l[k]) <= cur); } else if k > i { assert(e_end(l[i]) <= l[k].address); }
        }
    }
    lemma_walk_gap(c, l, s, src.ref_to_id@, r, prev, cur, to);
    assert forall|k: int| x.len() <= k < s.len() implies (#[trigger] s[k]).0.start >= to by {
        assert(in_some(l, s[k]));
        let k2 = choose|k2: int| 0 <= k2 < l.len() && within(#[trigger] l[k2], s[k]);
        assert(s[k].0.start >= cur && s[k].0.start < s[k].0.end);
        if k2 < i { assert(e_end(l[k2]) <= cur); } else if k2 > i { assert(e_end(l[i]) <= l[k2].address); }
    }
}
/// the walk is at its end
pub proof fn lemma_walk_done(src: SourceFiles, f: VxFunction, depth: int, s: Seq<VxRng>, r: Seq<Line>, x: Seq<(InlineSite, InlineAddressRange)>, prev: Option<(u32, u32)>, cur: int)
    requires walking(src, f, depth, s, r, x, prev, cur), level_wf(f.lines@, s) ==> cur <= u32::MAX && forall|k: int| 0 <= k < f.lines@.len() ==> e_end(#[trigger] f.lines@[k]) <= cur
    ensures level(src, f, depth, s, r, x)
{
    let l = f.lines@;
    if level_wf(l, s) {
        if x.len() < s.len() {
            let k = x.len() as int;
            assert(in_some(l, s[k]));
            let k2 = choose|k2: int| 0 <= k2 < l.len() && within(#[trigger] l[k2], s[k]);
            assert(e_end(l[k2]) <= cur && s[k].0.start >= cur && s[k].0.start < s[k].0.end);
        }
        assert forall|a: int| cur - 1 < a < u64::MAX + 1 implies !#[trigger] lin(l, a) by {
            if lin(l, a) { let k = choose|k: int| entry_at(l, a, k); assert(e_end(l[k]) <= cur); }
        }
        lemma_walk_gap(cfg(src, f), l, s, src.ref_to_id@, r, prev, cur, u64::MAX + 1);
    }
}
pub open spec fn rngs_fit(s: Seq<VxRng>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.start <= s[i].0.end <= u32::MAX }
pub proof fn lemma_all_fit(o: InlineOrigins, v: Vec<VxFunction>, n: nat)
    requires n <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> tree_ok(#[trigger] v@[i])
    ensures rngs_fit(all_ranges(o, v, n))
    decreases n
{
    if n > 0 {
        lemma_all_fit(o, v, (n - 1) as nat);
        let a = all_ranges(o, v, (n - 1) as nat);
        let b = call_ranges(o, v@[n - 1]);
        assert(tree_ok(v@[n - 1]));
        assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).0.start <= (a + b)[i].0.end <= u32::MAX by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { let l = v@[n - 1].lines@[i - a.len()]; assert((a + b)[i] == b[i - a.len()]); assert(e_end(l) <= u32::MAX); }
        }
    }
}
pub proof fn lemma_perm_fit(a: Seq<VxRng>, s: Seq<VxRng>)
    requires s.to_multiset() == a.to_multiset(), rngs_fit(a)
    ensures rngs_fit(s)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0.start <= s[i].0.end <= u32::MAX by {
        assert(s.contains(s[i]));
        assert(s.to_multiset().contains(s[i]));
        assert(a.contains(s[i]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == s[i];
        assert(a[k].0.start <= a[k].0.end <= u32::MAX);
    }
}
pub proof fn lemma_added_push(a: Map<InlineSite, Vec<InlineAddressRange>>, b: Map<InlineSite, Vec<InlineAddressRange>>, c: Map<InlineSite, Vec<InlineAddressRange>>, s: Seq<(InlineSite, InlineAddressRange)>, k: InlineSite, g: InlineAddressRange)
    requires inl_added(a, b, s), c.dom() == b.dom().insert(k), c[k]@ == ranges_at(b, k).push(g), forall|j: InlineSite| #[trigger] b.contains_key(j) && j != k ==> c[j] == b[j]
    ensures inl_added(a, c, s.push((k, g)))
{
    assert(s.push((k, g)).drop_last() =~= s);
    assert forall|j: InlineSite| #[trigger] ranges_at(c, j) == ranges_at(a, j) + picked(s.push((k, g)), j) by {
        assert(ranges_at(b, j) == ranges_at(a, j) + picked(s, j));
        if j == k { assert(c.contains_key(k)); assert((ranges_at(a, j) + picked(s, j)).push(g) =~= ranges_at(a, j) + picked(s, j).push(g)); }
        else { assert(c.dom().contains(j) == b.dom().contains(j)); }
    }
}
pub proof fn lemma_ids_inj(s: SourceFiles)
    requires files_wf(s)
    ensures ids_inj(s.ref_to_id@)
{ }

@fn Collector::collect_function_with_inlines_recursive
@props C03 C05 C06
@spec
    requires tables_ok(*old(source), *old(inline_origins)), lines_ok(*old(lines)), tree_ok(*fun),
        room(*old(source), *old(inline_origins), tsize(*fun) as int), call_depth + tsize(*fun) <= u32::MAX
    ensures tables_ok(*final(source), *final(inline_origins)), lines_ok(*final(lines)), grown(*old(source), *old(inline_origins), *final(source), *final(inline_origins), tsize(*fun) as int),
        collected(*fun, call_depth as int, *old(lines), *final(lines), *final(source), *final(inline_origins))
    decreases fun
@clo 0 vx: &(core::ops::Range<u64>, u32) ->> (k: u64)
    ensures k == vx_p0_0.0.start
@loop 0
    invariant vx_it0.seq().len() == fun.inlinees@.len(), forall|i: int| 0 <= i < fun.inlinees@.len() ==> *(#[trigger] vx_it0.seq()[i]) == fun.inlinees@[i],
        0 <= vx_it0.pos() <= fun.inlinees@.len(), tree_ok(*fun), call_depth + tsize(*fun) <= u32::MAX,
        room(*old(source), *old(inline_origins), tsize(*fun) as int),
        tables_ok(*source, *inline_origins), lines_ok(*lines), extends(*old(source), *source), origins_extend(*old(inline_origins), *inline_origins),
        source.fake_id_to_ref@.len() <= old(source).fake_id_to_ref@.len() + tsizes(fun.inlinees, vx_it0.pos() as nat),
        inline_origins.demangled_names@.len() <= old(inline_origins).demangled_names@.len() + tsizes(fun.inlinees, vx_it0.pos() as nat),
        inline_ranges@ == all_ranges(*inline_origins, fun.inlinees, vx_it0.pos() as nat),
        calls(fun.inlinees, vx_it0.pos() as nat, call_depth + 1, *source, *inline_origins, vx_r1, vx_x1),
        lines.lines@ == old(lines).lines@ + vx_r1, inl_added(old(lines).inlines@, lines.inlines@, vx_x1),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at beforeloop 0
    let ghost mut vx_r1 = Seq::<Line>::empty();
    let ghost mut vx_x1 = Seq::<(InlineSite, InlineAddressRange)>::empty();
    proof {
        assert(old(lines).lines@ + vx_r1 =~= old(lines).lines@);
        assert forall|k: InlineSite| #[trigger] ranges_at(lines.inlines@, k) == ranges_at(old(lines).inlines@, k) + picked(vx_x1, k) by { assert(ranges_at(old(lines).inlines@, k) + picked(vx_x1, k) =~= ranges_at(old(lines).inlines@, k)); }
    }
@at loopstart 0
    let ghost vx_n = (vx_it0.pos() - 1) as nat;
    let ghost vx_s0 = *source;
    let ghost vx_o0 = *inline_origins;
    let ghost vx_l0 = *lines;
    proof {
        lemma_tsizes(fun.inlinees, fun.inlinees@.len(), vx_n as int);
        assert(tree_ok(fun.inlinees@[vx_n as int]));
        assert(all_ranges(vx_o0, fun.inlinees, vx_n) + Seq::<VxRng>::empty() =~= all_ranges(vx_o0, fun.inlinees, vx_n));
        if inlinee.lines@.len() == 0 { assert(call_ranges(vx_o0, *inlinee) =~= Seq::empty()); }
    }
@loop 1
    invariant vx_it1.seq().len() == inlinee.lines@.len(), forall|i: int| 0 <= i < inlinee.lines@.len() ==> *(#[trigger] vx_it1.seq()[i]) == inlinee.lines@[i],
        0 <= vx_it1.pos() <= inlinee.lines@.len(), lines_fit(inlinee.lines@), *inlinee == fun.inlinees@[vx_n as int],
        inline_origins.index_for_mangled_name@.contains_key(inlinee.name.kv()), inline_origins.index_for_mangled_name@[inlinee.name.kv()] == inline_origin_id,
        inline_ranges@ == all_ranges(*inline_origins, fun.inlinees, vx_n) + call_ranges(*inline_origins, *inlinee).subrange(0, vx_it1.pos()),
    decreases vx_it1.seq().len() - vx_it1.pos()
@at beforeloop 1
    let ghost vx_o1 = *inline_origins;
    proof {
        assert(call_ranges(*inline_origins, *inlinee).subrange(0, 0) =~= Seq::empty());
        lemma_ranges_ext(vx_o0, vx_o1, fun.inlinees, vx_n, call_depth + 1, vx_s0, vx_r1, vx_x1);
        assert(all_ranges(vx_o1, fun.inlinees, vx_n) + Seq::<VxRng>::empty() =~= all_ranges(vx_o1, fun.inlinees, vx_n));
        lemma_calls_ext(fun.inlinees, vx_n, call_depth + 1, vx_s0, vx_o0, vx_s0, vx_o1, vx_r1, vx_x1);
    }
@at loopstart 1
    proof {
        let k = vx_it1.pos() - 1;
        let cr = call_ranges(*inline_origins, *inlinee);
        assert(e_end(inlinee.lines@[k]) <= u32::MAX);
        assert(cr.subrange(0, k + 1) =~= cr.subrange(0, k).push(cr[k]));
        assert(inline_ranges@.push(cr[k]) =~= all_ranges(*inline_origins, fun.inlinees, vx_n) + cr.subrange(0, k + 1));
    }
@at afterloop 1
    proof { assert(call_ranges(*inline_origins, *inlinee).subrange(0, inlinee.lines@.len() as int) =~= call_ranges(*inline_origins, *inlinee)); }
@at loopend 0
    proof {
        let (r2, x2) = choose|r2: Seq<Line>, x2: Seq<(InlineSite, InlineAddressRange)>| #[trigger] emitted(*inlinee, call_depth + 1, *source, *inline_origins, r2, x2) && lines.lines@ == vx_l0.lines@ + r2 && inl_added(vx_l0.inlines@, lines.inlines@, x2);
        lemma_calls_ext(fun.inlinees, vx_n, call_depth + 1, vx_s0, vx_o1, *source, *inline_origins, vx_r1, vx_x1);
        lemma_ranges_ext(vx_o1, *inline_origins, fun.inlinees, vx_n, call_depth + 1, vx_s0, vx_r1, vx_x1);
        assert(call_ranges(vx_o1, *inlinee) =~= call_ranges(*inline_origins, *inlinee));
        lemma_added_concat(old(lines).inlines@, vx_l0.inlines@, lines.inlines@, vx_x1, x2);
        assert((old(lines).lines@ + vx_r1) + r2 =~= old(lines).lines@ + (vx_r1 + r2));
        assert(vx_parts4(vx_r1, vx_x1, r2, x2));
        vx_r1 = vx_r1 + r2;
        vx_x1 = vx_x1 + x2;
    }
@at after inline_ranges.sort_unstable_by_key
    let ghost vx_s = inline_ranges@;
    let ghost vx_l2 = *lines;
    let ghost vx_o2 = *inline_origins;
    let ghost mut vx_r2 = Seq::<Line>::empty();
    let ghost mut vx_x2 = Seq::<(InlineSite, InlineAddressRange)>::empty();
    let ghost mut vx_cur = 0int;
    let ghost mut vx_s1 = *source;
    proof {
        assert(key_sorted(vx_s, rng_key()));
        lemma_all_fit(*inline_origins, fun.inlinees, fun.inlinees@.len());
        lemma_perm_fit(all_ranges(*inline_origins, fun.inlinees, fun.inlinees@.len()), vx_s);
        assert(vx_l2.lines@ + vx_r2 =~= vx_l2.lines@);
        assert forall|k: InlineSite| #[trigger] ranges_at(lines.inlines@, k) == ranges_at(vx_l2.inlines@, k) + picked(vx_x2, k) by { assert(ranges_at(vx_l2.inlines@, k) + picked(vx_x2, k) =~= ranges_at(vx_l2.inlines@, k)); }
        if level_wf(fun.lines@, vx_s) {
            assert forall|b: int, k: int| #[trigger] entry_at(fun.lines@, b, k) implies b >= 0 by { }
            assert(own_upto(cfg(*source, *fun), fun.lines@, vx_s, source.ref_to_id@, vx_r2, 0));
        }
        assert(walking(*source, *fun, call_depth as int, vx_s, vx_r2, vx_x2, None, 0));
    }
@loop 2
    invariant line_iter.seq().len() == fun.lines@.len(), forall|i: int| 0 <= i < fun.lines@.len() ==> *(#[trigger] line_iter.seq()[i]) == fun.lines@[i],
        0 <= line_iter.pos() <= fun.lines@.len(), tree_ok(*fun), room(*old(source), *old(inline_origins), tsize(*fun) as int),
        inline_iter.seq() == vx_s, rngs_fit(vx_s), inline_iter.ok(), call_depth + tsize(*fun) <= u32::MAX,
        match next_line { Some(l) => line_iter.pos() >= 1 && *l == fun.lines@[line_iter.pos() - 1], None => line_iter.pos() == fun.lines@.len() },
        match next_inline { Some(l) => inline_iter.pos() >= 1 && l == vx_s[inline_iter.pos() - 1] && vx_x2.len() == inline_iter.pos() - 1, None => inline_iter.pos() == vx_s.len() && vx_x2.len() == vx_s.len() },
        tables_ok(*source, *inline_origins), *inline_origins == vx_o2, lines_ok(*lines), extends(vx_s1, *source),
        source.fake_id_to_ref@.len() + (if next_line is Some { 1int } else { 0int }) <= vx_s1.fake_id_to_ref@.len() + line_iter.pos(),
        vx_s1.fake_id_to_ref@.len() <= old(source).fake_id_to_ref@.len() + tsizes(fun.inlinees, fun.inlinees@.len()),
        lines.lines@ == vx_l2.lines@ + vx_r2, inl_added(vx_l2.inlines@, lines.inlines@, vx_x2),
        walking(*source, *fun, call_depth as int, vx_s, vx_r2, vx_x2, prev_line_info, vx_cur), 0 <= vx_cur <= u32::MAX,
        level_wf(fun.lines@, vx_s) ==> forall|k: int| 0 <= k < (if next_line is Some { line_iter.pos() - 1 } else { line_iter.pos() }) ==> e_end(#[trigger] fun.lines@[k]) <= vx_cur,
        level_wf(fun.lines@, vx_s) && next_line is Some ==> vx_cur <= next_line->0.address,
    ensures next_line is None
    decreases fun.lines@.len() - line_iter.pos() + (if next_line is Some { 1int } else { 0int })
@at loopstart 2
    let ghost vx_i = line_iter.pos() - 1;
    let ghost vx_sb = *source;
    proof { assert(e_end(fun.lines@[vx_i]) <= u32::MAX); assert(fun.compilation_dir.stable()); }
@at beforeloop 3
    proof {
        lemma_walking_ext(vx_sb, *source, *fun, call_depth as int, vx_s, vx_r2, vx_x2, prev_line_info, vx_cur);
        if level_wf(fun.lines@, vx_s) { lemma_next_entry(*source, *fun, call_depth as int, vx_s, vx_r2, vx_x2, prev_line_info, vx_cur, vx_i, current_address as int); vx_cur = current_address as int; }
        lemma_ids_inj(*source);
    }
@loop 3
    invariant inline_iter.seq() == vx_s, rngs_fit(vx_s), inline_iter.ok(), 0 <= vx_i < fun.lines@.len(), *line == fun.lines@[vx_i], line_range_end == e_end(*line), line_range_end <= u32::MAX,
        match next_inline { Some(l) => inline_iter.pos() >= 1 && l == vx_s[inline_iter.pos() - 1] && vx_x2.len() == inline_iter.pos() - 1, None => inline_iter.pos() == vx_s.len() && vx_x2.len() == vx_s.len() },
        lines_ok(*lines), ids_inj(source.ref_to_id@), has_key(cfg(*source, *fun), source.ref_to_id@, *line, line_no, file_id),
        lines.lines@ == vx_l2.lines@ + vx_r2, inl_added(vx_l2.inlines@, lines.inlines@, vx_x2),
        level_wf(fun.lines@, vx_s) ==> vx_cur == current_address,
        walking(*source, *fun, call_depth as int, vx_s, vx_r2, vx_x2, prev_line_info, vx_cur), current_address <= u32::MAX, 0 <= vx_cur <= u32::MAX,
        level_wf(fun.lines@, vx_s) ==> line.address <= current_address <= line_range_end,
    decreases vx_s.len() - vx_x2.len(), line_range_end - current_address
@at loopstart 3
    let ghost vx_l3 = *lines;
    let ghost vx_c3 = current_address;
    let ghost vx_p3 = prev_line_info;
    let ghost vx_x3 = vx_x2;
    let ghost vx_r3 = vx_r2;
    proof {
        assert forall|y: Line| #[trigger] vx_l3.lines@.push(y) == vx_l2.lines@ + vx_r3.push(y) by { assert(vx_l3.lines@.push(y) =~= vx_l2.lines@ + vx_r3.push(y)); }
        vx_cur = current_address as int;
    }
@at loopend 3
    proof {
        let j = vx_x3.len() as int;
        let own = j >= vx_s.len() || vx_s[j].0.start > vx_c3;
        let call = j < vx_s.len() && vx_s[j].0.start < line_range_end;
        if own && vx_p3 != Some((line_no, file_id)) { vx_r2 = vx_r3.push(Line { rva: vx_c3 as u32, len: 0, num: line_no, file_id }); }
        if call {
            let y = (site_of(vx_s[j], call_depth as int, line_no, file_id), rng_of(vx_s[j]));
            lemma_added_push(vx_l2.inlines@, vx_l3.inlines@, lines.inlines@, vx_x3, y.0, y.1);
            vx_x2 = vx_x3.push(y);
        }
        lemma_step(*source, *fun, call_depth as int, vx_s, vx_r3, vx_x3, vx_p3, vx_c3 as int, vx_i, line_no, file_id, vx_r2, vx_x2, prev_line_info, current_address as int);
        vx_cur = current_address as int;
    }
@loop 4
    invariant line_iter.seq().len() == fun.lines@.len(), forall|i: int| 0 <= i < fun.lines@.len() ==> *(#[trigger] line_iter.seq()[i]) == fun.lines@[i],
        0 <= line_iter.pos() <= fun.lines@.len(), line_iter.pos() >= vx_i + 1,
        match next_line { Some(l) => line_iter.pos() >= vx_i + 2 && *l == fun.lines@[line_iter.pos() - 1], None => line_iter.pos() == fun.lines@.len() },
        level_wf(fun.lines@, vx_s) ==> (if next_line is Some { line_iter.pos() == vx_i + 2 && next_line->0.address >= current_address } else { line_iter.pos() == vx_i + 1 }),
    decreases fun.lines@.len() - line_iter.pos() + (if next_line is Some { 1int } else { 0int })
@at end
    proof {
        lemma_walk_done(*source, *fun, call_depth as int, vx_s, vx_r2, vx_x2, prev_line_info, vx_cur);
        lemma_calls_ext(fun.inlinees, fun.inlinees@.len(), call_depth + 1, vx_s1, vx_o2, *source, vx_o2, vx_r1, vx_x1);
        lemma_added_concat(old(lines).inlines@, vx_l2.inlines@, lines.inlines@, vx_x1, vx_x2);
        assert((old(lines).lines@ + vx_r1) + vx_r2 =~= old(lines).lines@ + (vx_r1 + vx_r2));
        assert(vx_parts(vx_r1, vx_x1, vx_s, vx_r2, vx_x2));
        assert(emitted(*fun, call_depth as int, *source, *inline_origins, vx_r1 + vx_r2, vx_x1 + vx_x2));
    }
