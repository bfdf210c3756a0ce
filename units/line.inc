# Contracts of src/line.rs  (C01, C02, C12)
@file src/line.rs
@struct Line
@struct InlineSite
@struct InlineAddressRange
@struct Lines
@raw
impl VxKey for InlineSite { type KV = InlineSite; open spec fn kv(&self) -> InlineSite { *self } }

// ---------------------------------------------------------------- C01
pub open spec fn line_key() -> spec_fn(Line) -> (int, int) { |l: Line| (l.rva as int, 0int) }
/// the length of the last line record of a function at rva with length len
pub open spec fn last_len(line_rva: u32, rva: u32, len: u32) -> u32 {
    if rva + len <= u32::MAX && line_rva < rva + len { (rva + len - line_rva) as u32 } else { 0 }
}
pub open spec fn with_len(l: Line, n: u32) -> Line { Line { rva: l.rva, len: n, num: l.num, file_id: l.file_id } }
/// s (sorted) with the lengths filled in
pub open spec fn tiled(s: Seq<Line>, rva: u32, len: u32) -> Seq<Line> {
    Seq::new(s.len(), |i: int| with_len(s[i],
        if i + 1 < s.len() { (s[i + 1].rva - s[i].rva) as u32 } else { last_len(s[i].rva, rva, len) }))
}
pub open spec fn lens_unset(s: Seq<Line>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len == 0 }
/// representation invariant of the line list under construction
pub open spec fn lines_inv(l: Lines) -> bool {
    &&& l.are_lines_sorted ==> key_sorted(l.lines@, line_key())
    &&& l.are_lines_sorted && l.lines@.len() > 0 ==> l.lines@.last().rva <= l.last_line_rva
}
// ---------------------------------------------------------------- C02
pub open spec fn range_key() -> spec_fn(InlineAddressRange) -> (int, int) { |r: InlineAddressRange| (r.rva as int, 0int) }
pub open spec fn mk_range(rva: u32, len: u32) -> InlineAddressRange { InlineAddressRange { rva, len } }
pub open spec fn range_end(r: InlineAddressRange) -> int { r.rva + r.len }
pub open spec fn ranges_fit(s: Seq<InlineAddressRange>) -> bool { forall|i: int| 0 <= i < s.len() ==> range_end(#[trigger] s[i]) <= u32::MAX }
/// one more range, merged into the last one when that ends where it starts
pub open spec fn merge_one(m: Seq<InlineAddressRange>, x: InlineAddressRange) -> Seq<InlineAddressRange> {
    if m.len() > 0 && range_end(m.last()) == x.rva {
        m.drop_last().push(mk_range(m.last().rva, (m.last().len + x.len) as u32))
    } else { m.push(x) }
}
pub open spec fn merge_ranges(s: Seq<InlineAddressRange>) -> Seq<InlineAddressRange>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { merge_one(merge_ranges(s.drop_last()), s.last()) }
}
pub open spec fn final_ranges(s: Seq<InlineAddressRange>) -> Seq<InlineAddressRange> { merge_ranges(ssort(s, range_key())) }
pub open spec fn covers(s: Seq<InlineAddressRange>, a: int) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).rva <= a < range_end(s[i])
}
pub proof fn lemma_covers_push(s: Seq<InlineAddressRange>, x: InlineAddressRange, a: int)
    ensures covers(s.push(x), a) == (covers(s, a) || x.rva <= a < range_end(x))
{
    if covers(s, a) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).rva <= a < range_end(s[i]); assert(s.push(x)[i] == s[i]); }
    if x.rva <= a < range_end(x) { assert(s.push(x)[s.len() as int] == x); }
    if covers(s.push(x), a) {
        let i = choose|i: int| 0 <= i < s.push(x).len() && (#[trigger] s.push(x)[i]).rva <= a < range_end(s.push(x)[i]);
        if i < s.len() { assert(s[i] == s.push(x)[i]); }
    }
}
pub proof fn lemma_merge_basic(s: Seq<InlineAddressRange>)
    requires ranges_fit(s), key_sorted(s, range_key())
    ensures
        ranges_fit(merge_ranges(s)), s.len() > 0 ==> merge_ranges(s).len() > 0,
        s.len() > 0 ==> merge_ranges(s).last().rva <= s.last().rva,
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let x = s.last();
        assert forall|i: int, j: int| 0 <= i <= j < d.len() implies kle(range_key()(#[trigger] d[i]), range_key()(#[trigger] d[j])) by { assert(d[i] == s[i] && d[j] == s[j]); }
        assert forall|i: int| 0 <= i < d.len() implies range_end(#[trigger] d[i]) <= u32::MAX by { assert(d[i] == s[i]); }
        lemma_merge_basic(d);
        let m = merge_ranges(d);
        let r = merge_ranges(s);
        assert(range_end(s[s.len() - 1]) <= u32::MAX);
        if d.len() > 0 { assert(kle(range_key()(s[d.len() - 1]), range_key()(s[d.len() as int]))); }
        assert forall|i: int| 0 <= i < r.len() implies range_end(#[trigger] r[i]) <= u32::MAX by {
            if i < r.len() - 1 { assert(r[i] == m[i]); }
        }
    }
}
pub proof fn lemma_merge_covers(s: Seq<InlineAddressRange>, a: int)
    requires ranges_fit(s), key_sorted(s, range_key())
    ensures covers(merge_ranges(s), a) == covers(s, a)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let x = s.last();
        assert forall|i: int, j: int| 0 <= i <= j < d.len() implies kle(range_key()(#[trigger] d[i]), range_key()(#[trigger] d[j])) by { assert(d[i] == s[i] && d[j] == s[j]); }
        assert forall|i: int| 0 <= i < d.len() implies range_end(#[trigger] d[i]) <= u32::MAX by { assert(d[i] == s[i]); }
        lemma_merge_covers(d, a);
        lemma_merge_basic(d);
        let m = merge_ranges(d);
        assert(s =~= d.push(x));
        lemma_covers_push(d, x, a);
        if m.len() > 0 && range_end(m.last()) == x.rva {
            let y = mk_range(m.last().rva, (m.last().len + x.len) as u32);
            assert(range_end(s[s.len() - 1]) <= u32::MAX);
            assert(m =~= m.drop_last().push(m.last()));
            lemma_covers_push(m.drop_last(), y, a);
            lemma_covers_push(m.drop_last(), m.last(), a);
        } else {
            lemma_covers_push(m, x, a);
        }
    }
}
pub open spec fn no_touching(r: Seq<InlineAddressRange>) -> bool {
    forall|i: int| 0 <= i < r.len() - 1 ==> range_end(#[trigger] r[i]) != r[i + 1].rva
}
pub proof fn lemma_merge_order(s: Seq<InlineAddressRange>)
    requires ranges_fit(s), key_sorted(s, range_key())
    ensures key_sorted(merge_ranges(s), range_key()), no_touching(merge_ranges(s)), s.len() > 0 ==> merge_ranges(s)[0].rva == s[0].rva,
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let x = s.last();
        assert forall|i: int, j: int| 0 <= i <= j < d.len() implies kle(range_key()(#[trigger] d[i]), range_key()(#[trigger] d[j])) by { assert(d[i] == s[i] && d[j] == s[j]); }
        assert forall|i: int| 0 <= i < d.len() implies range_end(#[trigger] d[i]) <= u32::MAX by { assert(d[i] == s[i]); }
        lemma_merge_order(d);
        lemma_merge_basic(d);
        let m = merge_ranges(d);
        let r = merge_ranges(s);
        if d.len() > 0 { assert(kle(range_key()(s[d.len() - 1]), range_key()(s[d.len() as int]))); }
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies kle(range_key()(#[trigger] r[i]), range_key()(#[trigger] r[j])) by {
            if j < m.len() { assert(r[i].rva == m[i].rva && r[j].rva == m[j].rva); assert(kle(range_key()(m[i]), range_key()(m[j]))); }
            else if i < m.len() { assert(kle(range_key()(m[i]), range_key()(m[m.len() - 1]))); }
        }
        assert forall|i: int| 0 <= i < r.len() - 1 implies range_end(#[trigger] r[i]) != r[i + 1].rva by {
            assert(r[i] == m[i]);
            if i < m.len() - 1 { assert(r[i + 1].rva == m[i + 1].rva); }
        }
    }
}
/// C02: merging keeps exactly the covered addresses, the order, and leaves no touching neighbours.
pub proof fn lemma_merge_ranges(s: Seq<InlineAddressRange>)
    requires ranges_fit(s), key_sorted(s, range_key())
    ensures
        ranges_fit(merge_ranges(s)), (s.len() > 0 ==> merge_ranges(s).len() > 0),
        s.len() > 0 ==> merge_ranges(s)[0].rva == s[0].rva,
        s.len() > 0 ==> merge_ranges(s).last().rva <= s.last().rva,
        forall|a: int| #[trigger] covers(merge_ranges(s), a) == covers(s, a),
        key_sorted(merge_ranges(s), range_key()), no_touching(merge_ranges(s)),
{
    lemma_merge_basic(s);
    lemma_merge_order(s);
    assert forall|a: int| #[trigger] covers(merge_ranges(s), a) == covers(s, a) by { lemma_merge_covers(s, a); }
}
pub proof fn lemma_same_elements_fit(s: Seq<InlineAddressRange>, t: Seq<InlineAddressRange>)
    requires s.to_multiset() == t.to_multiset()
    ensures ranges_fit(s) ==> ranges_fit(t), forall|a: int| covers(s, a) ==> #[trigger] covers(t, a), t.len() == s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len());
    if ranges_fit(s) {
        assert forall|i: int| 0 <= i < t.len() implies range_end(#[trigger] t[i]) <= u32::MAX by {
            assert(t.to_multiset().contains(t[i]));
            assert(s.contains(t[i]));
            let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i];
            assert(range_end(s[k]) <= u32::MAX);
        }
    }
    assert forall|a: int| covers(s, a) implies #[trigger] covers(t, a) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).rva <= a < range_end(s[i]);
        assert(s.to_multiset().contains(s[i]));
        assert(t.contains(s[i]));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == s[i];
        assert(t[k].rva <= a < range_end(t[k]));
    }
}
/// C02 as a whole: what `finalize` leaves in the record of one call site.
pub proof fn lemma_final_ranges(s: Seq<InlineAddressRange>)
    requires ranges_fit(s)
    ensures
        s.len() > 0 ==> final_ranges(s).len() > 0,
        forall|a: int| #[trigger] covers(final_ranges(s), a) == covers(s, a),
        key_sorted(final_ranges(s), range_key()),
        no_touching(final_ranges(s)),
{
    let t = ssort(s, range_key());
    lemma_ssort(s, range_key());
    lemma_same_elements_fit(s, t);
    lemma_same_elements_fit(t, s);
    lemma_merge_ranges(t);
    assert forall|a: int| #[trigger] covers(final_ranges(s), a) == covers(s, a) by { assert(covers(merge_ranges(t), a) == covers(t, a)); }
}
pub proof fn lemma_ssort_lens(s: Seq<Line>)
    requires lens_unset(s)
    ensures lens_unset(ssort(s, line_key()))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let t = ssort(s, line_key());
    lemma_ssort(s, line_key());
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len == 0 by {
        assert(t.to_multiset().contains(t[i]));
        assert(s.contains(t[i]));
        let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i];
        assert(s[k].len == 0);
    }
}
/// C01 as a whole: what `finalize` leaves in the line list.
pub open spec fn final_lines(s: Seq<Line>, rva: u32, len: u32) -> Seq<Line> { tiled(ssort(s, line_key()), rva, len) }
pub proof fn lemma_final_lines(s: Seq<Line>, rva: u32, len: u32)
    ensures
        final_lines(s, rva, len).len() == s.len(),
        key_sorted(final_lines(s, rva, len), line_key()),
        forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] final_lines(s, rva, len)[i]).rva + final_lines(s, rva, len)[i].len == final_lines(s, rva, len)[i + 1].rva,
        s.len() > 0 ==> final_lines(s, rva, len).last().len == last_len(final_lines(s, rva, len).last().rva, rva, len),
        lens_unset(s) ==> Seq::new(s.len(), |i: int| with_len(final_lines(s, rva, len)[i], 0)).to_multiset() == s.to_multiset(),
        // stable: entries with one address keep their order
        forall|a: (int, int)| #[trigger] with_key(ssort(s, line_key()), line_key(), a) == with_key(s, line_key(), a),
{
    let t = ssort(s, line_key());
    lemma_ssort(s, line_key());
    let f = final_lines(s, rva, len);
    assert forall|i: int, j: int| 0 <= i <= j < f.len() implies kle(line_key()(#[trigger] f[i]), line_key()(#[trigger] f[j])) by {
        assert(kle(line_key()(t[i]), line_key()(t[j])));
    }
    assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] f[i]).rva + f[i].len == f[i + 1].rva by {
        assert(kle(line_key()(t[i]), line_key()(t[i + 1])));
    }
    assert forall|a: (int, int)| #[trigger] with_key(t, line_key(), a) == with_key(s, line_key(), a) by { lemma_ssort_stable(s, line_key(), a); }
    if lens_unset(s) {
        lemma_ssort_lens(s);
        assert(Seq::new(s.len(), |i: int| with_len(f[i], 0)) =~= t);
    }
}

pub open spec fn inlines_wf(m: Map<InlineSite, Vec<InlineAddressRange>>) -> bool {
    forall|k: InlineSite| #[trigger] m.contains_key(k) ==> m[k]@.len() > 0
}
pub open spec fn inlines_fit(m: Map<InlineSite, Vec<InlineAddressRange>>) -> bool {
    forall|k: InlineSite| #[trigger] m.contains_key(k) ==> ranges_fit(m[k]@)
}
pub open spec fn inlines_finalized(a: Map<InlineSite, Vec<InlineAddressRange>>, b: Map<InlineSite, Vec<InlineAddressRange>>) -> bool {
    &&& a.dom() == b.dom()
    &&& forall|k: InlineSite| #[trigger] b.contains_key(k) ==> b[k]@ == final_ranges(a[k]@)
}

// ---------------------------------------------------------------- text (C12)
pub open spec fn range_text(r: InlineAddressRange) -> Seq<char> {
    " "@ + hex_digits(r.rva as nat) + " "@ + hex_digits(r.len as nat)
}
pub open spec fn ranges_text(s: Seq<InlineAddressRange>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { ranges_text(s.drop_last()) + range_text(s.last()) }
}
/// INLINE <depth> <call line> <call file> <origin> (<address> <size>)+
pub open spec fn inline_text(s: InlineSite, r: Seq<InlineAddressRange>) -> Seq<char> {
    ("INLINE "@ + dec_digits(s.call_depth as nat) + " "@ + dec_digits(s.call_line_number as nat) + " "@
        + dec_digits(s.call_file_id as nat) + " "@ + dec_digits(s.inline_origin_id as nat) + ranges_text(r)).push('\n')
}
/// <address> <size> <line> <file>
pub open spec fn line_text(l: Line) -> Seq<char> {
    (hex_digits(l.rva as nat) + " "@ + hex_digits(l.len as nat) + " "@ + dec_digits(l.num as nat) + " "@ + dec_digits(l.file_id as nat)).push('\n')
}
pub open spec fn line_texts(s: Seq<Line>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { line_texts(s.drop_last()) + line_text(s.last()) }
}
pub open spec fn inline_key() -> spec_fn((&'static InlineSite, &'static Vec<InlineAddressRange>)) -> (int, int) {
    |p: (&'static InlineSite, &'static Vec<InlineAddressRange>)| (p.1@[0].rva as int, p.0.call_depth as int)
}
pub open spec fn inline_entries(m: VxMap<InlineSite, Vec<InlineAddressRange>>) -> Seq<(&'static InlineSite, &'static Vec<InlineAddressRange>)> {
    Seq::new(m.key_seq().len(), |i: int| (&m.key_seq()[i], &m@[m.key_seq()[i]]))
}
pub open spec fn inline_texts(s: Seq<(&'static InlineSite, &'static Vec<InlineAddressRange>)>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { inline_texts(s.drop_last()) + inline_text(*s.last().0, s.last().1@) }
}
pub open spec fn lines_text(l: Lines) -> Seq<char> {
    inline_texts(ssort(inline_entries(l.inlines), inline_key())) + line_texts(l.lines@)
}
impl VxDisp for Lines {
    open spec fn vx_text(&self) -> Seq<char> { lines_text(*self) }
    open spec fn vx_disp_ok(&self) -> bool { inlines_wf(self.inlines@) }
}

@fn write_inline_record
@props C02 C12
@spec
    ensures r.is_ok() ==> final(f)@ == old(f)@ + inline_text(*site, ranges@)
@loop 0
    invariant vx_it0.seq().len() == ranges@.len(), forall|i: int| 0 <= i < ranges@.len() ==> *(#[trigger] vx_it0.seq()[i]) == ranges@[i],
        0 <= vx_it0.pos() <= ranges@.len(),
        f@ == old(f)@ + ("INLINE "@ + dec_digits(site.call_depth as nat) + " "@ + dec_digits(site.call_line_number as nat) + " "@
        + dec_digits(site.call_file_id as nat) + " "@ + dec_digits(site.inline_origin_id as nat)) + ranges_text(ranges@.subrange(0, vx_it0.pos()))
    decreases vx_it0.seq().len() - vx_it0.pos()
@at beforeloop 0
    proof { assert(ranges@.subrange(0, 0) =~= Seq::empty()); assert(f@ =~= old(f)@ + ("INLINE "@ + dec_digits(site.call_depth as nat) + " "@ + dec_digits(site.call_line_number as nat) + " "@
        + dec_digits(site.call_file_id as nat) + " "@ + dec_digits(site.inline_origin_id as nat)) + ranges_text(ranges@.subrange(0, 0))); }
    let ghost mut vx_f0: Seq<char> = f@;
@at loopstart 0
    proof { vx_f0 = f@; }
@at loopend 0
    proof {
        let p = vx_it0.pos();
        assert(ranges@.subrange(0, p).drop_last() =~= ranges@.subrange(0, p - 1));
        assert(ranges@.subrange(0, p).last() == ranges@[p - 1]);
        assert(f@ =~= vx_f0 + range_text(ranges@[p - 1]));
        assert(f@ =~= old(f)@ + ("INLINE "@ + dec_digits(site.call_depth as nat) + " "@ + dec_digits(site.call_line_number as nat) + " "@
        + dec_digits(site.call_file_id as nat) + " "@ + dec_digits(site.inline_origin_id as nat)) + ranges_text(ranges@.subrange(0, p)));
    }
@at afterloop 0
    proof { assert(ranges@.subrange(0, vx_it0.pos()) =~= ranges@);
        assert(forall|x: Seq<char>| #[trigger] (f@ + x.push('\n')) =~= (f@ + x).push('\n'));
        vx_f0 = f@;
        assert((vx_f0 + seq!['\n']) =~= old(f)@ + inline_text(*site, ranges@));
        assert(vx_f0 + Seq::<char>::empty().push('\n') =~= vx_f0 + seq!['\n']);
    }

@fn write_line_record
@props C01 C12
@spec
    ensures r.is_ok() ==> final(f)@ == old(f)@ + line_text(*line)
@at start
    proof { assert(forall|b: Seq<char>| #[trigger] b.push('\n') == b + seq!['\n']); }

@fn <Display for Lines>::fmt
@props C01 C02 C12
@spec
    requires self.vx_disp_ok()
    ensures r.is_ok() ==> final(f)@ == old(f)@ + self.vx_text()
@clo 0 vx: &(&InlineSite, &Vec<InlineAddressRange>) ->> (k: (u32, u32))
    requires vx_p0_0.1@.len() > 0
    ensures k.0 == vx_p0_0.1@[0].rva, k.1 == vx_p0_0.0.call_depth
@loop 0
    invariant vx_it0.seq() == vx_sorted, 0 <= vx_it0.pos() <= vx_sorted.len(),
        f@ == old(f)@ + inline_texts(vx_sorted.subrange(0, vx_it0.pos())),
    decreases vx_it0.seq().len() - vx_it0.pos()
@loop 1
    invariant vx_it1.seq().len() == self.lines@.len(), forall|i: int| 0 <= i < self.lines@.len() ==> *(#[trigger] vx_it1.seq()[i]) == self.lines@[i],
        0 <= vx_it1.pos() <= self.lines@.len(), vx_sorted == ssort(inline_entries(self.inlines), inline_key()),
        f@ == old(f)@ + inline_texts(vx_sorted) + line_texts(self.lines@.subrange(0, vx_it1.pos())),
    decreases vx_it1.seq().len() - vx_it1.pos()
@at before inlines.sort_by_key
    proof { self.inlines.axiom_keys();
       assert(inlines@ =~= inline_entries(self.inlines));
       assert forall|i: int| 0 <= i < inlines@.len() implies (#[trigger] inlines@[i]).1@.len() > 0 by { assert(self.inlines@.contains_key(self.inlines.key_seq()[i].kv())); }
    }
@at beforeloop 0
    let ghost vx_sorted = inlines@;
    proof {
       assert(vx_sorted == ssort(inline_entries(self.inlines), inline_key()));
       assert(vx_sorted.subrange(0, 0) =~= Seq::empty()); assert(f@ =~= old(f)@ + inline_texts(vx_sorted.subrange(0, 0))); }
@at loopend 0
    proof {
        let p = vx_it0.pos();
        assert(vx_sorted.subrange(0, p).drop_last() =~= vx_sorted.subrange(0, p - 1));
        assert(f@ =~= old(f)@ + inline_texts(vx_sorted.subrange(0, p)));
    }
@at beforeloop 1
    proof { assert(vx_sorted.subrange(0, vx_sorted.len() as int) =~= vx_sorted); assert(self.lines@.subrange(0, 0) =~= Seq::empty());
       assert(f@ =~= old(f)@ + inline_texts(vx_sorted) + line_texts(self.lines@.subrange(0, 0))); }
@at loopend 1
    proof {
        let p = vx_it1.pos();
        assert(self.lines@.subrange(0, p).drop_last() =~= self.lines@.subrange(0, p - 1));
        assert(f@ =~= old(f)@ + inline_texts(vx_sorted) + line_texts(self.lines@.subrange(0, p)));
    }
@at tail
    proof { assert(self.lines@.subrange(0, self.lines@.len() as int) =~= self.lines@); assert(f@ =~= old(f)@ + self.vx_text()); }

@fn Lines::new
@props C01 C02
@spec
    ensures lines_inv(r), r.lines@.len() == 0, r.inlines@ == Map::<InlineSite, Vec<InlineAddressRange>>::empty(), r.are_lines_sorted

@fn Lines::add_line
@props C01
@spec
    requires lines_inv(*old(self))
    ensures lines_inv(*final(self)), final(self).inlines == old(self).inlines,
        final(self).lines@ == old(self).lines@.push(Line { rva, len: 0, num, file_id }),
@at end
    proof {
        if self.are_lines_sorted {
            let s = self.lines@;
            assert forall|i: int, j: int| 0 <= i <= j < s.len() implies kle(line_key()(#[trigger] s[i]), line_key()(#[trigger] s[j])) by {
                let o = old(self).lines@;
                if j < o.len() { assert(kle(line_key()(o[i]), line_key()(o[j]))); }
                else if i < o.len() { assert(kle(line_key()(o[i]), line_key()(o[o.len() - 1]))); }
            }
        }
    }

@fn Lines::add_inline
@props C02
@spec
    requires inlines_wf(old(self).inlines@)
    ensures inlines_wf(final(self).inlines@), final(self).lines == old(self).lines,
        final(self).are_lines_sorted == old(self).are_lines_sorted, final(self).last_line_rva == old(self).last_line_rva,
        final(self).inlines@.dom() == old(self).inlines@.dom().insert(site),
        final(self).inlines@[site]@ == (if old(self).inlines@.contains_key(site) { old(self).inlines@[site]@ } else { Seq::empty() }).push(address_range),
        forall|k: InlineSite| #[trigger] old(self).inlines@.contains_key(k) && k != site ==> final(self).inlines@[k] == old(self).inlines@[k],
@clo 0 ->> (v: Vec<InlineAddressRange>)
    ensures v@.len() == 0
@at end
    proof { assert(final(self).inlines@.dom() =~= old(self).inlines@.dom().insert(site)); }

@fn Lines::finalize
@props C01 C02
@spec
    requires lines_inv(*old(self)), lens_unset(old(self).lines@), inlines_wf(old(self).inlines@), inlines_fit(old(self).inlines@)
    ensures final(self).lines@ == final_lines(old(self).lines@, sym_rva, sym_len),
        inlines_finalized(old(self).inlines@, final(self).inlines@), inlines_wf(final(self).inlines@),
@at start
    proof { lemma_final_lines(old(self).lines@, sym_rva, sym_len); lemma_ssort(old(self).lines@, line_key()); lemma_ssort_lens(old(self).lines@); }

@fn Lines::compute_len
@props C01
@spec
    requires old(self).lines@.len() > 0 ==> old(self).are_lines_sorted, key_sorted(old(self).lines@, line_key()), lens_unset(old(self).lines@)
    ensures final(self).lines@ == tiled(old(self).lines@, sym_rva, sym_len), final(self).inlines == old(self).inlines,
@clo 0 w: &[Line] ->> (d: u32)
    requires w@.len() == 2, w@[0].rva <= w@[1].rva
    ensures d == w@[1].rva - w@[0].rva
@loop 0
    invariant lens@.len() == lines@.len(), lines@.len() == old(self).lines@.len() - 1, vx_i0 <= lines@.len(),
       forall|i: int| 0 <= i < lens@.len() ==> (#[trigger] lens@[i]) == old(self).lines@[i + 1].rva - old(self).lines@[i].rva,
       forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] lines@[i]) == with_len(old(self).lines@[i], lens@[i]),
       forall|i: int| vx_i0 <= i < lines@.len() ==> (#[trigger] lines@[i]) == old(self).lines@[i],
    decreases lines@.len() - vx_i0
@at start
    proof { assert(old(self).lines@.len() == 0 ==> tiled(old(self).lines@, sym_rva, sym_len) =~= old(self).lines@);
      assert(forall|i: int| 0 <= i < old(self).lines@.len() - 1 ==> kle(line_key()(#[trigger] old(self).lines@[i]), line_key()(old(self).lines@[i + 1]))); 
      assert forall|i: int, w: &[Line]| 0 <= i < old(self).lines@.len() - 1 && #[trigger] w@ == #[trigger] old(self).lines@.subrange(i, i + 2) implies w@.len() == 2 && w@[0] == old(self).lines@[i] && w@[1] == old(self).lines@[i + 1] by { } }
@at end
    proof { assert(self.lines@ =~= tiled(old(self).lines@, sym_rva, sym_len)); }

@fn Lines::ensure_order
@props C01 C02
@spec
    requires lines_inv(*old(self)), inlines_wf(old(self).inlines@), inlines_fit(old(self).inlines@)
    ensures final(self).are_lines_sorted, final(self).lines@ == ssort(old(self).lines@, line_key()),
        inlines_finalized(old(self).inlines@, final(self).inlines@), inlines_wf(final(self).inlines@),
@clo 0 x: &Line ->> (k: u32)
    ensures k == x.rva
@clo 1 range: &InlineAddressRange ->> (k: u32)
    ensures k == range.rva
@loop 0
    invariant vx_i0 <= vx_ks0@.len(), vx_ks0@ == self.inlines.key_seq(), vx_ks0@ == old(self).inlines.key_seq(),
        inlines_wf(old(self).inlines@), inlines_fit(old(self).inlines@),
        self.are_lines_sorted, self.lines@ == ssort(old(self).lines@, line_key()),
        self.inlines@.dom() == old(self).inlines@.dom(),
        forall|i: int| 0 <= i < vx_ks0@.len() ==> self.inlines@.contains_key(#[trigger] vx_ks0@[i]),
        forall|i: int, j: int| 0 <= i < j < vx_ks0@.len() ==> (#[trigger] vx_ks0@[i]) != (#[trigger] vx_ks0@[j]),
        forall|i: int| 0 <= i < vx_i0 ==> self.inlines@[#[trigger] vx_ks0@[i]]@ == final_ranges(old(self).inlines@[vx_ks0@[i]]@),
        forall|i: int| vx_i0 <= i < vx_ks0@.len() ==> self.inlines@[#[trigger] vx_ks0@[i]] == old(self).inlines@[vx_ks0@[i]],
    decreases vx_ks0@.len() - vx_i0
@loop 1
    invariant vx_i <= vx_src@.len(), ranges@ == merge_ranges(vx_src@.subrange(0, vx_i as int)), ranges_fit(vx_src@), key_sorted(vx_src@, range_key()),
    decreases vx_src@.len() - vx_i
@at start
    proof { lemma_ssort(self.lines@, line_key()); if self.are_lines_sorted { lemma_ssort_id(self.lines@, line_key()); } self.inlines.axiom_keys(); }
@at loopstart 0
    let ghost vx_key = vx_ks0@[vx_k as int];
    proof { assert(old(self).inlines@.contains_key(vx_key));
        lemma_final_ranges(old(self).inlines@[vx_key]@);
        lemma_ssort(old(self).inlines@[vx_key]@, range_key());
        lemma_same_elements_fit(old(self).inlines@[vx_key]@, ssort(old(self).inlines@[vx_key]@, range_key())); }
@at before ranges.sort_by_key
    let ghost vx_rr = ranges@;
    proof { assert(vx_rr == old(self).inlines@[vx_key]@); }
@at after ranges.sort_by_key
    proof { assert(ranges@ == ssort(vx_rr, range_key())); }
@at loopstart 1
    proof { assert(vx_src@.subrange(0, vx_i + 1).drop_last() =~= vx_src@.subrange(0, vx_i as int));
       let vx_sub = vx_src@.subrange(0, vx_i as int);
       assert forall|i: int, j: int| 0 <= i <= j < vx_sub.len() implies kle(range_key()(#[trigger] vx_sub[i]), range_key()(#[trigger] vx_sub[j])) by { assert(kle(range_key()(vx_src@[i]), range_key()(vx_src@[j]))); }
       assert(forall|i: int| 0 <= i < vx_sub.len() ==> #[trigger] vx_sub[i] == vx_src@[i]);
       lemma_merge_basic(vx_sub);
       if vx_i > 0 { assert(kle(range_key()(vx_src@[vx_i - 1]), range_key()(vx_src@[vx_i as int]))); }
       assert(range_end(vx_src@[vx_i as int]) <= u32::MAX); }
    let ghost vx_r0 = ranges@;
@at loopend 1
    proof { assert(ranges@ =~= merge_one(vx_r0, vx_src@[vx_i - 1])); }
@at afterloop 1
    proof { assert(vx_src@.subrange(0, vx_src@.len() as int) =~= vx_src@); }
@at loopend 0
    proof { assert(self.inlines@.dom() =~= old(self).inlines@.dom());
        assert(self.inlines@[vx_key]@ == final_ranges(old(self).inlines@[vx_key]@)); }
@at end
    proof { old(self).inlines.axiom_keys();
       assert forall|k: InlineSite| #[trigger] self.inlines@.contains_key(k) implies self.inlines@[k]@ == final_ranges(old(self).inlines@[k]@) && self.inlines@[k]@.len() > 0 by {
           let i = choose|i: int| 0 <= i < old(self).inlines.key_seq().len() && #[trigger] old(self).inlines.key_seq()[i].kv() == k;
           lemma_final_ranges(old(self).inlines@[k]@);
       } }
