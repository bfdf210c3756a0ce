# C18: the workers together, under every schedule (lemmas over the contracts of the channel, the lock and the counter in dumper.inc)
@raw
// ---------------------------------------------------------------- C18: all workers together, under every schedule
pub open spec fn total<A>(s: Seq<A>, f: spec_fn(A) -> int) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last(), f) + f(s.last()) } }
pub proof fn lemma_total_update<A>(s: Seq<A>, i: int, x: A, f: spec_fn(A) -> int)
    requires 0 <= i < s.len()
    ensures total(s.update(i, x), f) == total(s, f) - f(s[i]) + f(x)
    decreases s.len()
{
    let u = s.update(i, x);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); }
    else { lemma_total_update(s.drop_last(), i, x, f); assert(u.drop_last() =~= s.drop_last().update(i, x)); }
}
pub proof fn lemma_total_push<A>(s: Seq<A>, x: A, f: spec_fn(A) -> int)
    ensures total(s.push(x), f) == total(s, f) + f(x)
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_total_first<A>(s: Seq<A>, f: spec_fn(A) -> int)
    requires s.len() > 0
    ensures total(s, f) == f(s[0]) + total(s.drop_first(), f)
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_first() =~= Seq::<A>::empty()); assert(s.drop_last() =~= Seq::<A>::empty()); assert(total(s.drop_last(), f) == 0); }
    else { lemma_total_first(s.drop_last(), f); assert(s.drop_first().drop_last() =~= s.drop_last().drop_first()); }
}
pub proof fn lemma_total_bounds<A>(s: Seq<A>, f: spec_fn(A) -> int)
    requires forall|a: A| #[trigger] f(a) >= 0
    ensures total(s, f) >= 0, forall|i: int| 0 <= i < s.len() ==> total(s, f) >= f(#[trigger] s[i]), total(s, f) > 0 ==> exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) > 0
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_total_bounds(d, f);
        assert forall|i: int| 0 <= i < s.len() implies total(s, f) >= f(#[trigger] s[i]) by { if i < d.len() { assert(d[i] == s[i]); } }
        if total(s, f) > 0 && f(s.last()) <= 0 { let i = choose|i: int| 0 <= i < d.len() && f(#[trigger] d[i]) > 0; assert(f(s[i]) > 0); }
        if f(s.last()) > 0 { assert(f(s[s.len() - 1]) > 0); }
    }
}
/// at most one each, and not for all
pub proof fn lemma_total_below<A>(s: Seq<A>, f: spec_fn(A) -> int, j: int)
    requires forall|a: A| #[trigger] f(a) <= 1, 0 <= j < s.len(), f(s[j]) <= 0
    ensures total(s, f) < s.len()
    decreases s.len()
{
    let d = s.drop_last();
    if j < d.len() { assert(d[j] == s[j]); lemma_total_below(d, f, j); } else { lemma_total_le(d, f); }
}
pub proof fn lemma_total_le<A>(s: Seq<A>, f: spec_fn(A) -> int)
    requires forall|a: A| #[trigger] f(a) <= 1
    ensures total(s, f) <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_total_le(s.drop_last(), f); } }
/// the thread that starts the workers, the queue, the workers and the counter
pub struct Sys {
    pub files: Seq<Seq<char>>,
    pub inlines: bool,
    pub sent: int,
    pub q: Seq<Msg>,
    pub ws: Seq<WSt>,
    /// how many end marks the loop that sends them will send (the loops are proved to end)
    pub goal: Seq<int>,
    pub counter: int,
    /// end marks sent so far
    pub ends: int,
    /// files whose dump is in the results
    pub rec: Seq<Seq<char>>,
    /// the modules that were taken out of the results, and how many were handed to the queue
    pub drained: Option<Seq<ObjectInfo>>,
    pub handed: int,
}
pub open spec fn c_get(m: Msg) -> int { if m is Get { 1 } else { 0 } }
pub open spec fn c_dump(m: Msg) -> int { if m is Dump { 1 } else { 0 } }
pub open spec fn c_end(m: Msg) -> int { if m is End { 1 } else { 0 } }
/// it has a file that is not counted yet
pub open spec fn c_hold(s: WSt) -> int { if s is Got || s is Held || s is Removed || s is Recorded { 1 } else { 0 } }
pub open spec fn c_done(s: WSt) -> int { if s is Done { 1 } else { 0 } }
pub open spec fn c_failed(s: WSt) -> int { if s is Failed { 1 } else { 0 } }
pub open spec fn c_last(s: WSt) -> int { if s is Last || s is LastHeld { 1 } else { 0 } }
pub open spec fn c_drain(s: WSt) -> int { if s is Draining { 1 } else { 0 } }
/// it still has end marks to send
pub open spec fn c_poison(n: int) -> spec_fn(WSt) -> int { |s: WSt| if s is Poison && s->Poison_0 < n { 1int } else { 0 } }
/// it has the lock (a guard lives until the end of its block)
pub open spec fn has_lock(n: int, s: WSt) -> bool { s is Held || s is Removed || s is LastHeld || s is Draining || (s is Poison && s->Poison_0 < n) }
pub open spec fn may_lock(a: Sys, n: int, i: int) -> bool { forall|j: int| 0 <= j < a.ws.len() && j != i ==> !has_lock(n, #[trigger] a.ws[j]) }
pub enum Step { Main, Recv(int), Lock(int), Remove(int, Seq<char>, Option<ObjectInfo>), Insert(int), Count(int), Drain(int, Seq<ObjectInfo>), Hand(int), Mark(int, int) }
pub open spec fn step(w: VxWorld, a: Sys, t: Step, b: Sys) -> bool {
    match t {
        Step::Main => 0 <= a.sent < a.files.len() && b == (Sys { sent: a.sent + 1, q: a.q.push(Msg::Get(a.files[a.sent], a.inlines)), ..a }),
        Step::Recv(i) => 0 <= i < a.ws.len() && recv_ready(w, a.ws[i]) && a.q.len() > 0 && b == (Sys { q: a.q.drop_first(), ws: a.ws.update(i, received(a.q[0])), ..a }),
        Step::Lock(i) => 0 <= i < a.ws.len() && (a.ws[i] is Got || a.ws[i] is Last) && may_lock(a, w.n(), i) && b == (Sys { ws: a.ws.update(i, locked(a.ws[i])), ..a }),
        Step::Remove(i, key, prev) => 0 <= i < a.ws.len() && a.ws[i] is Held && b == (Sys { ws: a.ws.update(i, WSt::Removed(a.ws[i]->Held_0, a.ws[i]->Held_1, key, prev)), ..a }),
        Step::Insert(i) => 0 <= i < a.ws.len() && a.ws[i] is Removed && b == (Sys { ws: a.ws.update(i, WSt::Recorded), rec: a.rec.push(a.ws[i]->Removed_0), ..a }),
        Step::Count(i) => 0 <= i < a.ws.len() && a.ws[i] is Recorded && b == (Sys { ws: a.ws.update(i, counted(a.counter)), counter: a.counter - 1, ..a }),
        Step::Drain(i, items) => 0 <= i < a.ws.len() && a.ws[i] is LastHeld && b == (Sys { ws: a.ws.update(i, WSt::Draining(items, 0)), drained: Some(items), handed: 0, ..a }),
        Step::Hand(i) => 0 <= i < a.ws.len() && (a.ws[i] matches WSt::Draining(items, k) && 0 <= k < items.len() && b == (Sys { ws: a.ws.update(i, WSt::Draining(items, k + 1)), q: a.q.push(Msg::Dump(items[k])), handed: k + 1, ..a })),
        // (the first one: the loop's number of end marks is fixed now)
        Step::Mark(i, g) => 0 <= i < a.ws.len() && !(a.ws[i] is Done) && !(a.ws[i] is Main) && g >= w.n() && (a.ws[i] is Poison || a.ws[i] is Failed ==> g == a.goal[i] && end_marks(a.ws[i]) < g)
            && b == (Sys { ws: a.ws.update(i, marked(w, a.ws[i])), q: a.q.push(Msg::End), goal: a.goal.update(i, g), ends: a.ends + 1, ..a }),
    }
}
pub open spec fn starts(w: VxWorld, a: Sys) -> bool {
    a.sent == 0 && a.q.len() == 0 && a.ws.len() == w.n() && w.n() > 0 && a.goal.len() == w.n() && (forall|i: int| 0 <= i < a.ws.len() ==> (#[trigger] a.ws[i]) is Idle)
        && a.counter == a.files.len() && a.files.len() > 0 && a.ends == 0 && a.rec.len() == 0 && a.drained is None && a.handed == 0
}
pub open spec fn inv(w: VxWorld, a: Sys) -> bool {
    let n = w.n();
    let failed = total(a.ws, |s: WSt| c_failed(s));
    let held = a.files.len() - a.sent + total(a.q, |m: Msg| c_get(m)) + total(a.ws, |s: WSt| c_hold(s));
    &&& n > 0 && a.ws.len() == n && a.goal.len() == n && 0 <= a.sent <= a.files.len() && a.counter >= 0
    &&& forall|i: int| 0 <= i < n ==> !((#[trigger] a.ws[i]) is Main) && end_marks(a.ws[i]) <= a.ends && (a.ws[i] is Poison || a.ws[i] is Failed ==> 0 < end_marks(a.ws[i]) <= a.goal[i] && a.goal[i] >= n)
        && (a.ws[i] matches WSt::Draining(items, k) ==> 0 <= k <= items.len())
    &&& held <= a.counter && (failed == 0 ==> held == a.counter)
    &&& a.ends == total(a.q, |m: Msg| c_end(m)) + total(a.ws, |s: WSt| c_done(s))
    &&& a.counter == 0 ==> total(a.ws, |s: WSt| c_last(s)) + total(a.ws, |s: WSt| c_drain(s)) + total(a.ws, c_poison(n)) > 0 || a.ends >= n || failed > 0
}
pub proof fn lemma_inv_starts(w: VxWorld, a: Sys)
    requires starts(w, a)
    ensures inv(w, a)
{
    assert(total(a.q, |m: Msg| c_get(m)) == 0 && total(a.q, |m: Msg| c_end(m)) == 0);
    lemma_total_none(a.ws, |s: WSt| c_hold(s));
    lemma_total_none(a.ws, |s: WSt| c_done(s));
    lemma_total_none(a.ws, |s: WSt| c_failed(s));
}
pub proof fn lemma_total_none<A>(s: Seq<A>, f: spec_fn(A) -> int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == 0
    ensures total(s, f) == 0
    decreases s.len()
{ if s.len() > 0 { assert(forall|i: int| 0 <= i < s.drop_last().len() ==> #[trigger] s.drop_last()[i] == s[i]); lemma_total_none(s.drop_last(), f); } }
pub open spec fn who(t: Step) -> int { match t { Step::Main => -1, Step::Recv(i) => i, Step::Lock(i) => i, Step::Remove(i, _, _) => i, Step::Insert(i) => i, Step::Count(i) => i, Step::Drain(i, _) => i, Step::Hand(i) => i, Step::Mark(i, _) => i } }
/// how a step changes the sums
pub proof fn lemma_sums(w: VxWorld, a: Sys, t: Step, b: Sys, f: spec_fn(WSt) -> int, g: spec_fn(Msg) -> int)
    requires step(w, a, t, b)
    ensures t is Main ==> total(b.ws, f) == total(a.ws, f), 
        !(t is Main) ==> 0 <= who(t) < a.ws.len() && total(b.ws, f) == total(a.ws, f) - f(a.ws[who(t)]) + f(b.ws[who(t)]) && b.ws == a.ws.update(who(t), b.ws[who(t)]),
        match t { Step::Recv(_) => total(b.q, g) == total(a.q, g) - g(a.q[0]), Step::Main | Step::Hand(_) | Step::Mark(_, _) => total(b.q, g) == total(a.q, g) + g(b.q.last()), _ => b.q == a.q },
{
    let i = who(t);
    if !(t is Main) { lemma_total_update(a.ws, i, b.ws[i], f); assert(b.ws =~= a.ws.update(i, b.ws[i])); }
    match t {
        Step::Recv(_) => { lemma_total_first(a.q, g); }
        Step::Main | Step::Hand(_) | Step::Mark(_, _) => { lemma_total_push(a.q, b.q.last(), g); assert(b.q =~= a.q.push(b.q.last())); }
        _ => { }
    }
}
pub proof fn lemma_inv_step(w: VxWorld, a: Sys, t: Step, b: Sys)
    requires inv(w, a), step(w, a, t, b)
    ensures inv(w, b)
{
    let n = w.n();
    let fg = |m: Msg| c_get(m); let fe = |m: Msg| c_end(m);
    let fh = |s: WSt| c_hold(s); let fd = |s: WSt| c_done(s); let ff = |s: WSt| c_failed(s); let fl = |s: WSt| c_last(s); let fr = |s: WSt| c_drain(s); let fp = c_poison(n);
    lemma_sums(w, a, t, b, fh, fg);
    lemma_sums(w, a, t, b, fd, fe);
    lemma_sums(w, a, t, b, ff, fe);
    lemma_sums(w, a, t, b, fl, fe);
    lemma_sums(w, a, t, b, fr, fe);
    lemma_sums(w, a, t, b, fp, fe);
    lemma_total_bounds(a.ws, ff);
    lemma_total_bounds(b.ws, ff);
    lemma_total_bounds(a.ws, fh);
    lemma_total_bounds(b.ws, fh);
    lemma_total_bounds(b.q, fg);
    lemma_total_bounds(b.ws, fl);
    lemma_total_bounds(b.ws, fr);
    lemma_total_bounds(b.ws, fp);
    if !(t is Main) {
        let i = who(t);
        assert(forall|j: int| 0 <= j < n && j != i ==> b.ws[j] == a.ws[j]);
        assert(b.ws[i] == b.ws[i]);
        assert(fh(b.ws[i]) == c_hold(b.ws[i]));
        assert forall|j: int| 0 <= j < n implies !((#[trigger] b.ws[j]) is Main) && end_marks(b.ws[j]) <= b.ends && (b.ws[j] is Poison || b.ws[j] is Failed ==> 0 < end_marks(b.ws[j]) <= b.goal[j] && b.goal[j] >= n)
           && (b.ws[j] matches WSt::Draining(items, k) ==> 0 <= k <= items.len()) by {
            assert(end_marks(a.ws[j]) <= a.ends);
        }
    }
}
// ---- no run is without end
pub open spec fn rank(s: WSt) -> int {
    match s { WSt::Idle => 1, WSt::Got(_, _) => 8, WSt::Held(_, _) => 7, WSt::Removed(_, _, _, _) => 6, WSt::Recorded => 5, WSt::Last => 4, WSt::LastHeld => 3, WSt::Draining(items, k) => 2 + 3 * (items.len() - k), WSt::Poison(_) => 1, WSt::Must(_) => 2, _ => 0 }
}
pub open spec fn m_left(a: Sys) -> int { a.counter + total(a.ws, |s: WSt| c_last(s)) }
pub open spec fn m_work(a: Sys) -> int { 9 * (a.files.len() - a.sent) + 8 * total(a.q, |m: Msg| c_get(m)) + 2 * total(a.q, |m: Msg| c_dump(m)) + total(a.ws, |s: WSt| rank(s)) }
pub open spec fn marks_left(ws: Seq<WSt>, goal: Seq<int>) -> int decreases ws.len() {
    if ws.len() == 0 || goal.len() != ws.len() { 0 } else { marks_left(ws.drop_last(), goal.drop_last()) + (if ws.last() is Poison || ws.last() is Failed { goal.last() - end_marks(ws.last()) } else { 0 }) }
}
pub open spec fn one_left(s: WSt, g: int) -> int { if s is Poison || s is Failed { g - end_marks(s) } else { 0 } }
pub proof fn lemma_marks_update(ws: Seq<WSt>, goal: Seq<int>, i: int, s: WSt, g: int)
    requires 0 <= i < ws.len(), goal.len() == ws.len()
    ensures marks_left(ws.update(i, s), goal.update(i, g)) == marks_left(ws, goal) - one_left(ws[i], goal[i]) + one_left(s, g)
    decreases ws.len()
{
    let (u, v) = (ws.update(i, s), goal.update(i, g));
    if i == ws.len() - 1 { assert(u.drop_last() =~= ws.drop_last() && v.drop_last() =~= goal.drop_last()); }
    else { lemma_marks_update(ws.drop_last(), goal.drop_last(), i, s, g); assert(u.drop_last() =~= ws.drop_last().update(i, s) && v.drop_last() =~= goal.drop_last().update(i, g)); }
}
pub proof fn lemma_marks_nonneg(ws: Seq<WSt>, goal: Seq<int>)
    requires goal.len() == ws.len(), forall|i: int| 0 <= i < ws.len() ==> one_left(#[trigger] ws[i], goal[i]) >= 0
    ensures marks_left(ws, goal) >= 0
    decreases ws.len()
{
    if ws.len() > 0 {
        let (u, v) = (ws.drop_last(), goal.drop_last());
        assert forall|i: int| 0 <= i < u.len() implies one_left(#[trigger] u[i], v[i]) >= 0 by { assert(one_left(ws[i], goal[i]) >= 0); }
        lemma_marks_nonneg(u, v);
        assert(one_left(ws[ws.len() - 1], goal[ws.len() - 1]) >= 0);
    }
}
pub open spec fn less(a: Sys, b: Sys) -> bool {
    m_left(b) < m_left(a) || m_left(b) == m_left(a) && (m_work(b) < m_work(a) || m_work(b) == m_work(a) && marks_left(b.ws, b.goal) < marks_left(a.ws, a.goal))
}
pub proof fn lemma_total_nonneg_on<A>(s: Seq<A>, f: spec_fn(A) -> int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) >= 0
    ensures total(s, f) >= 0
    decreases s.len()
{ if s.len() > 0 { assert(forall|i: int| 0 <= i < s.drop_last().len() ==> #[trigger] s.drop_last()[i] == s[i]); lemma_total_nonneg_on(s.drop_last(), f); assert(f(s[s.len() - 1]) >= 0); } }
pub proof fn lemma_measure_nonneg(w: VxWorld, a: Sys)
    requires inv(w, a)
    ensures m_left(a) >= 0, m_work(a) >= 0, marks_left(a.ws, a.goal) >= 0
{
    lemma_total_bounds(a.ws, |s: WSt| c_last(s));
    lemma_total_bounds(a.q, |m: Msg| c_get(m));
    lemma_total_bounds(a.q, |m: Msg| c_dump(m));
    lemma_total_nonneg_on(a.ws, |s: WSt| rank(s));
    assert forall|i: int| 0 <= i < a.ws.len() implies one_left(#[trigger] a.ws[i], a.goal[i]) >= 0 by { assert(end_marks(a.ws[i]) <= a.ends); }
    lemma_marks_nonneg(a.ws, a.goal);
}
/// every step of every thread takes the run nearer to its end
pub proof fn lemma_step_decreases(w: VxWorld, a: Sys, t: Step, b: Sys)
    requires inv(w, a), step(w, a, t, b)
    ensures less(a, b)
{
    let fl = |s: WSt| c_last(s); let fk = |s: WSt| rank(s); let fg = |m: Msg| c_get(m); let fu = |m: Msg| c_dump(m);
    lemma_sums(w, a, t, b, fl, fg);
    lemma_sums(w, a, t, b, fk, fu);
    if !(t is Main) {
        let i = who(t);
        assert(end_marks(a.ws[i]) <= a.ends);
        lemma_marks_update(a.ws, a.goal, i, b.ws[i], b.goal[i]);
        assert(b.goal =~= a.goal.update(i, b.goal[i]));
    }
}
pub open spec fn is_run(w: VxWorld, run: spec_fn(nat) -> Sys, how: spec_fn(nat) -> Step) -> bool { forall|k: nat| #[trigger] step(w, run(k), how(k), run((k + 1) as nat)) }
/// C18: there is no schedule under which the run goes on for ever
pub proof fn lemma_every_run_ends(w: VxWorld, run: spec_fn(nat) -> Sys, how: spec_fn(nat) -> Step, from: nat)
    requires inv(w, run(from)), is_run(w, run, how)
    ensures false
    decreases m_left(run(from)), m_work(run(from)), marks_left(run(from).ws, run(from).goal)
{
    let (a, b) = (run(from), run((from + 1) as nat));
    assert(step(w, run(from), how(from), b));
    lemma_inv_step(w, a, how(from), b);
    lemma_step_decreases(w, a, how(from), b);
    lemma_measure_nonneg(w, a);
    lemma_measure_nonneg(w, b);
    lemma_every_run_ends(w, run, how, (from + 1) as nat);
}
// ---- no thread waits for ever
pub open spec fn over(w: VxWorld, s: WSt, g: int) -> bool { s is Done || (s is Failed && end_marks(s) >= g) }
/// C18: as long as a worker is not over, some thread can go on
pub proof fn lemma_never_stuck(w: VxWorld, a: Sys, i: int)
    requires inv(w, a), 0 <= i < w.n(), !over(w, a.ws[i], a.goal[i])
    ensures exists|t: Step, b: Sys| step(w, a, t, b)
{
    let n = w.n();
    let fg = |m: Msg| c_get(m); let fe = |m: Msg| c_end(m);
    let fh = |s: WSt| c_hold(s); let fd = |s: WSt| c_done(s); let ff = |s: WSt| c_failed(s); let fl = |s: WSt| c_last(s); let fr = |s: WSt| c_drain(s); let fp = c_poison(n);
    lemma_total_bounds(a.ws, ff); lemma_total_bounds(a.ws, fh); lemma_total_bounds(a.ws, fl); lemma_total_bounds(a.ws, fr); lemma_total_bounds(a.ws, fp); lemma_total_bounds(a.q, fg);
    if a.sent < a.files.len() { lemma_can(w, a, Step::Main, Sys { sent: a.sent + 1, q: a.q.push(Msg::Get(a.files[a.sent], a.inlines)), ..a }); return; }
    // a worker with the lock goes on
    if exists|j: int| 0 <= j < n && has_lock(n, #[trigger] a.ws[j]) {
        let j = choose|j: int| 0 <= j < n && has_lock(n, #[trigger] a.ws[j]);
        assert(end_marks(a.ws[j]) <= a.ends);
        match a.ws[j] {
            WSt::Held(f, l) => { lemma_can(w, a, Step::Remove(j, f, None), Sys { ws: a.ws.update(j, WSt::Removed(f, l, f, None)), ..a }); }
            WSt::Removed(f, _, _, _) => { lemma_can(w, a, Step::Insert(j), Sys { ws: a.ws.update(j, WSt::Recorded), rec: a.rec.push(f), ..a }); }
            WSt::LastHeld => { let e = Seq::<ObjectInfo>::empty(); lemma_can(w, a, Step::Drain(j, e), Sys { ws: a.ws.update(j, WSt::Draining(e, 0)), drained: Some(e), handed: 0, ..a }); }
            _ => { let g = if a.ws[j] is Poison { a.goal[j] } else { n }; lemma_can(w, a, Step::Mark(j, g), Sys { ws: a.ws.update(j, marked(w, a.ws[j])), q: a.q.push(Msg::End), goal: a.goal.update(j, g), ends: a.ends + 1, ..a }); }
        }
        return;
    }
    // nobody has it: who waits for it gets it
    if exists|j: int| 0 <= j < n && ((#[trigger] a.ws[j]) is Got || a.ws[j] is Last) {
        let j = choose|j: int| 0 <= j < n && ((#[trigger] a.ws[j]) is Got || a.ws[j] is Last);
        lemma_can(w, a, Step::Lock(j), Sys { ws: a.ws.update(j, locked(a.ws[j])), ..a });
        return;
    }
    if exists|j: int| 0 <= j < n && (#[trigger] a.ws[j]) is Recorded {
        let j = choose|j: int| 0 <= j < n && (#[trigger] a.ws[j]) is Recorded;
        lemma_can(w, a, Step::Count(j), Sys { ws: a.ws.update(j, counted(a.counter)), counter: a.counter - 1, ..a });
        return;
    }
    // a module that cannot be written is a failure, and a failure goes on until its end marks are sent
    if exists|j: int| 0 <= j < n && ((#[trigger] a.ws[j]) is Must || a.ws[j] is Failed) && !recv_ready(w, a.ws[j]) && !over(w, a.ws[j], a.goal[j]) {
        let j = choose|j: int| 0 <= j < n && ((#[trigger] a.ws[j]) is Must || a.ws[j] is Failed) && !recv_ready(w, a.ws[j]) && !over(w, a.ws[j], a.goal[j]);
        assert(end_marks(a.ws[j]) <= a.ends);
        let g = if a.ws[j] is Failed { a.goal[j] } else { n };
        lemma_can(w, a, Step::Mark(j, g), Sys { ws: a.ws.update(j, marked(w, a.ws[j])), q: a.q.push(Msg::End), goal: a.goal.update(j, g), ends: a.ends + 1, ..a });
        return;
    }
    // all the others wait for a message, and there is one
    assert(!(a.ws[i] is Main));
    assert(recv_ready(w, a.ws[i]));
    if a.q.len() == 0 {
        assert(total(a.q, fg) == 0 && total(a.q, fe) == 0);
        assert(total(a.ws, fh) == 0) by { if total(a.ws, fh) > 0 { let j = choose|j: int| 0 <= j < a.ws.len() && fh(#[trigger] a.ws[j]) > 0; assert(c_hold(a.ws[j]) > 0); } }
        if total(a.ws, ff) > 0 {
            let j = choose|j: int| 0 <= j < a.ws.len() && ff(#[trigger] a.ws[j]) > 0;
            assert(a.ws[j] is Failed && end_marks(a.ws[j]) <= a.ends);
            assert(!recv_ready(w, a.ws[j]));
            assert(end_marks(a.ws[j]) >= a.goal[j]);
        } else {
            assert(a.counter == 0);
            if a.ends < n {
                if total(a.ws, fl) > 0 { let j = choose|j: int| 0 <= j < a.ws.len() && fl(#[trigger] a.ws[j]) > 0; assert(c_last(a.ws[j]) > 0); assert(has_lock(n, a.ws[j]) || a.ws[j] is Last); }
                else if total(a.ws, fr) > 0 { let j = choose|j: int| 0 <= j < a.ws.len() && fr(#[trigger] a.ws[j]) > 0; assert(c_drain(a.ws[j]) > 0); assert(has_lock(n, a.ws[j])); }
                else { let j = choose|j: int| 0 <= j < a.ws.len() && fp(#[trigger] a.ws[j]) > 0; assert(has_lock(n, a.ws[j])); }
                assert(false);
            }
        }
        assert(a.ends >= n);
        lemma_total_below(a.ws, fd, i);
        assert(false);
    }
    lemma_can(w, a, Step::Recv(i), Sys { q: a.q.drop_first(), ws: a.ws.update(i, received(a.q[0])), ..a });
}
pub proof fn lemma_can(w: VxWorld, a: Sys, t: Step, b: Sys)
    requires step(w, a, t, b)
    ensures exists|t: Step, b: Sys| step(w, a, t, b)
{ }
// ---- a run without failure is complete
pub open spec fn no_failure(a: Sys) -> bool { forall|i: int| 0 <= i < a.ws.len() ==> !((#[trigger] a.ws[i]) is Failed) }
/// the module is on its way, or written
pub open spec fn underway(w: VxWorld, a: Sys, d: ObjectInfo) -> bool { a.q.contains(Msg::Dump(d)) || a.ws.contains(WSt::Must(d)) || finished(w, d) }
pub open spec fn occ(f: Seq<char>) -> spec_fn(Seq<char>) -> int { |x: Seq<char>| if x == f { 1int } else { 0 } }
pub open spec fn get_of(f: Seq<char>) -> spec_fn(Msg) -> int { |m: Msg| if m is Get && m->Get_0 == f { 1int } else { 0 } }
pub open spec fn hold_of(f: Seq<char>) -> spec_fn(WSt) -> int { |s: WSt| if (s is Got && s->Got_0 == f) || (s is Held && s->Held_0 == f) || (s is Removed && s->Removed_0 == f) { 1int } else { 0 } }
/// every file is in one place
pub open spec fn file_inv(a: Sys, f: Seq<char>) -> bool {
    total(a.files.subrange(0, a.sent), occ(f)) == total(a.q, get_of(f)) + total(a.ws, hold_of(f)) + total(a.rec, occ(f))
}
pub open spec fn good_inv(w: VxWorld, a: Sys) -> bool {
    &&& forall|i: int| 0 <= i < a.ws.len() ==> ((#[trigger] a.ws[i]) is Last || a.ws[i] is LastHeld || a.ws[i] is Draining || a.ws[i] is Poison ==> a.counter == 0)
        && (a.ws[i] is Last || a.ws[i] is LastHeld ==> a.drained is None)
        && (a.ws[i] is Must || a.ws[i] is Poison ==> a.drained is Some)
        && (a.ws[i] is Done ==> a.ends > 0)
        && (a.ws[i] is Poison ==> a.ends > 0)
        && (a.ws[i] matches WSt::Draining(items, k) ==> a.drained == Some(items) && a.handed == k && a.ends == 0)
    &&& forall|i: int, j: int| 0 <= i < j < a.ws.len() ==> !(c_last(#[trigger] a.ws[i]) + c_drain(a.ws[i]) > 0 && c_last(#[trigger] a.ws[j]) + c_drain(a.ws[j]) > 0)
    &&& a.ends > 0 || a.drained is Some ==> a.counter == 0
    &&& a.ends > 0 ==> a.drained is Some
    &&& a.ends == 0 ==> forall|x: int| 0 <= x < a.q.len() ==> !((#[trigger] a.q[x]) is End)
    &&& a.counter > 0 || a.drained is None ==> forall|x: int| 0 <= x < a.q.len() ==> !((#[trigger] a.q[x]) is Dump)
    &&& forall|x: int, y: int| 0 <= x < y < a.q.len() && (#[trigger] a.q[x]) is End ==> (#[trigger] a.q[y]) is End
    &&& (exists|i: int| 0 <= i < a.ws.len() && (#[trigger] a.ws[i]) is Done) ==> forall|x: int| 0 <= x < a.q.len() ==> (#[trigger] a.q[x]) is End
    &&& a.drained matches Some(items) ==> 0 <= a.handed <= items.len() && (forall|j: int| 0 <= j < a.handed ==> underway(w, a, #[trigger] items[j]))
        && (handed_over(w, items, a.handed) || (a.ends == 0 && exists|i: int| 0 <= i < a.ws.len() && (#[trigger] a.ws[i]) is Draining))
}
pub proof fn lemma_no_failure_before(w: VxWorld, a: Sys, t: Step, b: Sys)
    requires step(w, a, t, b), no_failure(b)
    ensures no_failure(a)
{
    assert forall|i: int| 0 <= i < a.ws.len() implies !((#[trigger] a.ws[i]) is Failed) by { assert(!(b.ws[i] is Failed)); }
}
pub proof fn lemma_good_starts(w: VxWorld, a: Sys, f: Seq<char>)
    requires starts(w, a)
    ensures good_inv(w, a), no_failure(a), file_inv(a, f)
{
    lemma_total_none(a.ws, hold_of(f));
    assert(total(a.q, get_of(f)) == 0 && total(a.rec, occ(f)) == 0);
    assert(a.files.subrange(0, 0).len() == 0);
}
pub proof fn lemma_file_step(w: VxWorld, a: Sys, t: Step, b: Sys, f: Seq<char>)
    requires inv(w, a), step(w, a, t, b), no_failure(b), file_inv(a, f), good_inv(w, a)
    ensures file_inv(b, f)
{
    lemma_sums(w, a, t, b, hold_of(f), get_of(f));
    match t {
        Step::Main => { let s = a.files.subrange(0, a.sent); lemma_total_push(s, a.files[a.sent], occ(f)); assert(a.files.subrange(0, a.sent + 1) =~= s.push(a.files[a.sent])); }
        Step::Insert(i) => { lemma_total_push(a.rec, a.ws[i]->Removed_0, occ(f)); }
        Step::Mark(i, g) => { assert(!(b.ws[i] is Failed)); }
        _ => { }
    }
}
pub proof fn lemma_good_step(w: VxWorld, a: Sys, t: Step, b: Sys)
    requires inv(w, a), step(w, a, t, b), good_inv(w, a), no_failure(b)
    ensures good_inv(w, b)
{
    let n = w.n();
    lemma_no_failure_before(w, a, t, b);
    let ff = |s: WSt| c_failed(s); let fh = |s: WSt| c_hold(s); let fg = |m: Msg| c_get(m); let fe = |m: Msg| c_end(m); let fd = |s: WSt| c_done(s);
    lemma_total_none(a.ws, ff);
    lemma_total_bounds(a.ws, fh); lemma_total_bounds(a.q, fg); lemma_total_bounds(a.q, fe); lemma_total_bounds(a.ws, fd);
    if !(t is Main) {
        let i = who(t);
        lemma_sums(w, a, t, b, fh, fg);
        assert(forall|j: int| 0 <= j < n && j != i ==> b.ws[j] == a.ws[j]);
        assert(!(b.ws[i] is Failed));
        assert(fh(a.ws[i]) == c_hold(a.ws[i]));
    }
    match t {
        Step::Main => {
            assert(a.counter > 0);
            assert(b.q.last() is Get);
            assert forall|d: ObjectInfo| underway(w, a, d) implies #[trigger] underway(w, b, d) by { lemma_underway(w, a, t, b, d); }
        }
        Step::Recv(i) => {
            assert(a.q[0] == a.q[0]);
            assert(fe(a.q[0]) == c_end(a.q[0]) && fg(a.q[0]) == c_get(a.q[0]));
            assert(forall|x: int| 0 <= x < b.q.len() ==> #[trigger] b.q[x] == a.q[x + 1]);
            assert forall|d: ObjectInfo| underway(w, a, d) implies #[trigger] underway(w, b, d) by { lemma_underway(w, a, t, b, d); }
        }
        Step::Count(i) => {
            assert(a.counter > 0);
            assert forall|d: ObjectInfo| underway(w, a, d) implies #[trigger] underway(w, b, d) by { lemma_underway(w, a, t, b, d); }
        }
        Step::Drain(i, items) => { }
        Step::Hand(i) => {
            let k = a.ws[i]->Draining_1; let items = a.ws[i]->Draining_0;
            assert(b.ws[i] is Draining);
            assert(b.q.last() == Msg::Dump(items[k]));
            assert(b.q[b.q.len() - 1] == Msg::Dump(items[k]));
            assert forall|d: ObjectInfo| underway(w, a, d) implies #[trigger] underway(w, b, d) by { lemma_underway(w, a, t, b, d); }
        }
        Step::Mark(i, g) => {
            assert forall|d: ObjectInfo| underway(w, a, d) implies #[trigger] underway(w, b, d) by { lemma_underway(w, a, t, b, d); }
        }
        _ => {
            assert forall|d: ObjectInfo| underway(w, a, d) implies #[trigger] underway(w, b, d) by { lemma_underway(w, a, t, b, d); }
        }
    }
}
pub proof fn lemma_underway(w: VxWorld, a: Sys, t: Step, b: Sys, d: ObjectInfo)
    requires step(w, a, t, b), underway(w, a, d), no_failure(b)
    ensures underway(w, b, d)
{
    if finished(w, d) { return; }
    if a.ws.contains(WSt::Must(d)) {
        let j = choose|j: int| 0 <= j < a.ws.len() && a.ws[j] == WSt::Must(d);
        if !(t is Main) && who(t) == j { assert(!(b.ws[j] is Failed)); }
        assert(b.ws[j] == WSt::Must(d));
    } else {
        let x = choose|x: int| 0 <= x < a.q.len() && a.q[x] == Msg::Dump(d);
        match t {
            Step::Recv(i) => { if x == 0 { assert(b.ws[i] == WSt::Must(d)); } else { assert(b.q[x - 1] == Msg::Dump(d)); } }
            _ => { assert(b.q[x] == Msg::Dump(d)); }
        }
    }
}
/// C18: when all workers are done, every file was recorded once and every module is written
pub proof fn lemma_complete(w: VxWorld, a: Sys)
    requires inv(w, a), good_inv(w, a), forall|f: Seq<char>| file_inv(a, f), forall|i: int| 0 <= i < a.ws.len() ==> (#[trigger] a.ws[i]) is Done
    ensures a.sent == a.files.len(), a.drained matches Some(items) && (forall|j: int| 0 <= j < items.len() ==> finished(w, #[trigger] items[j])),
        forall|f: Seq<char>| total(a.rec, #[trigger] occ(f)) == total(a.files, occ(f)),
{
    let ff = |s: WSt| c_failed(s); let fh = |s: WSt| c_hold(s); let fg = |m: Msg| c_get(m);
    lemma_total_none(a.ws, ff); lemma_total_none(a.ws, fh); lemma_total_bounds(a.q, fg);
    assert(a.ws[0] is Done);
    lemma_total_none(a.q, fg);
    let items = a.drained->0;
    assert forall|j: int| 0 <= j < items.len() implies finished(w, #[trigger] items[j]) by {
        if j < a.handed {
            assert(underway(w, a, items[j]));
            if a.q.contains(Msg::Dump(items[j])) { let x = choose|x: int| 0 <= x < a.q.len() && a.q[x] == Msg::Dump(items[j]); assert(a.q[x] is End); }
            if a.ws.contains(WSt::Must(items[j])) { let x = choose|x: int| 0 <= x < a.ws.len() && a.ws[x] == WSt::Must(items[j]); assert(a.ws[x] is Done); }
        } else { assert(handed_over(w, items, a.handed)); }
    }
    assert forall|f: Seq<char>| total(a.rec, #[trigger] occ(f)) == total(a.files, occ(f)) by {
        assert(file_inv(a, f));
        lemma_total_none(a.ws, hold_of(f)); lemma_total_none(a.q, get_of(f));
        assert(a.files.subrange(0, a.sent) =~= a.files);
    }
}
/// C18: ... and already when the modules are taken out of the results
pub proof fn lemma_drained_complete(w: VxWorld, a: Sys, f: Seq<char>)
    requires inv(w, a), good_inv(w, a), no_failure(a), file_inv(a, f), a.drained is Some
    ensures total(a.rec, occ(f)) == total(a.files, occ(f))
{
    let ff = |s: WSt| c_failed(s); let fh = |s: WSt| c_hold(s); let fg = |m: Msg| c_get(m);
    lemma_total_none(a.ws, ff);
    lemma_total_bounds(a.ws, fh); lemma_total_bounds(a.q, fg);
    assert(forall|i: int| 0 <= i < a.ws.len() ==> fh(#[trigger] a.ws[i]) == c_hold(a.ws[i]));
    lemma_total_none(a.ws, hold_of(f));
    lemma_total_none(a.q, get_of(f));
    assert(a.files.subrange(0, a.sent) =~= a.files);
}
