# Shim: stable sorting by key (assumed contract of slice::sort_by_key), with the lemmas about it (proved).
@method sort_by_key sort_unstable_by_key
@raw
pub trait VxOrdKey { spec fn kk(&self) -> (int, int); }
impl VxOrdKey for u32 { open spec fn kk(&self) -> (int, int) { (*self as int, 0) } }
impl VxOrdKey for u64 { open spec fn kk(&self) -> (int, int) { (*self as int, 0) } }
impl VxOrdKey for (u32, u32) { open spec fn kk(&self) -> (int, int) { (self.0 as int, self.1 as int) } }
pub open spec fn kle(a: (int, int), b: (int, int)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }

/// insert x after all elements whose key is <= its key, from the right
pub open spec fn ins<T>(s: Seq<T>, x: T, key: spec_fn(T) -> (int, int)) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 || kle(key(s.last()), key(x)) { s.push(x) } else { ins(s.drop_last(), x, key).push(s.last()) }
}
/// the stable sort of s by key
pub open spec fn ssort<T>(s: Seq<T>, key: spec_fn(T) -> (int, int)) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else { ins(ssort(s.drop_last(), key), s.last(), key) }
}
pub open spec fn key_sorted<T>(s: Seq<T>, key: spec_fn(T) -> (int, int)) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> kle(key(#[trigger] s[i]), key(#[trigger] s[j]))
}
pub proof fn lemma_ins<T>(s: Seq<T>, x: T, key: spec_fn(T) -> (int, int))
    requires key_sorted(s, key)
    ensures key_sorted(ins(s, x, key), key), ins(s, x, key).to_multiset() == s.to_multiset().insert(x),
        ins(s, x, key).len() == s.len() + 1
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 || kle(key(s.last()), key(x)) {
        assert forall|i: int, j: int| 0 <= i <= j < s.push(x).len() implies kle(key(#[trigger] s.push(x)[i]), key(#[trigger] s.push(x)[j])) by {
            if j == s.len() && i < s.len() { assert(kle(key(s[i]), key(s.last()))); }
        }
    } else {
        let d = s.drop_last();
        lemma_ins(d, x, key);
        let r = ins(d, x, key);
        assert(s =~= d.push(s.last()));
        assert forall|i: int| 0 <= i < r.len() implies kle(key(#[trigger] r[i]), key(s.last())) by {
            assert(r.to_multiset().contains(r[i]));
            if r[i] != x {
                assert(d.to_multiset().contains(r[i]));
                assert(d.contains(r[i]));
                let k = choose|k: int| 0 <= k < d.len() && d[k] == r[i];
                assert(kle(key(s[k]), key(s.last())));
            }
        }
        let f = r.push(s.last());
        assert forall|i: int, j: int| 0 <= i <= j < f.len() implies kle(key(#[trigger] f[i]), key(#[trigger] f[j])) by {
            if j == r.len() { } else { assert(kle(key(r[i]), key(r[j]))); }
        }
        assert(f.to_multiset() =~= r.to_multiset().insert(s.last()));
        assert(s.to_multiset() =~= d.to_multiset().insert(s.last()));
        assert(f.to_multiset() =~= s.to_multiset().insert(x));
    }
}
/// the sorted sequence is sorted and has the same elements
pub proof fn lemma_ssort<T>(s: Seq<T>, key: spec_fn(T) -> (int, int))
    ensures key_sorted(ssort(s, key), key), ssort(s, key).to_multiset() == s.to_multiset(), ssort(s, key).len() == s.len()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        lemma_ssort(s.drop_last(), key);
        lemma_ins(ssort(s.drop_last(), key), s.last(), key);
        assert(s =~= s.drop_last().push(s.last()));
    }
}
/// sorting a sorted sequence changes nothing
pub proof fn lemma_ssort_id<T>(s: Seq<T>, key: spec_fn(T) -> (int, int))
    requires key_sorted(s, key)
    ensures ssort(s, key) == s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_ssort_id(s.drop_last(), key);
        assert(s =~= s.drop_last().push(s.last()));
        if s.len() > 1 { assert(kle(key(s[s.len() - 2]), key(s.last()))); assert(s.drop_last().last() == s[s.len() - 2]); }
    }
}
/// stability: the elements of one key keep their order
pub open spec fn with_key<T>(s: Seq<T>, key: spec_fn(T) -> (int, int), k: (int, int)) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else if key(s.last()) == k { with_key(s.drop_last(), key, k).push(s.last()) } else { with_key(s.drop_last(), key, k) }
}
pub proof fn lemma_ins_stable<T>(s: Seq<T>, x: T, key: spec_fn(T) -> (int, int), k: (int, int))
    requires key_sorted(s, key)
    ensures with_key(ins(s, x, key), key, k) == (if key(x) == k { with_key(s, key, k).push(x) } else { with_key(s, key, k) })
    decreases s.len()
{
    if s.len() == 0 || kle(key(s.last()), key(x)) {
        assert(s.push(x).drop_last() =~= s);
    } else {
        let d = s.drop_last();
        lemma_ins_stable(d, x, key, k);
        let r = ins(d, x, key);
        assert(r.push(s.last()).drop_last() =~= r);
    }
}
pub proof fn lemma_ssort_stable<T>(s: Seq<T>, key: spec_fn(T) -> (int, int), k: (int, int))
    ensures with_key(ssort(s, key), key, k) == with_key(s, key, k)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_ssort_stable(d, key, k);
        lemma_ssort(d, key);
        lemma_ins_stable(ssort(d, key), s.last(), key, k);
    }
}
pub open spec fn key_fn_of<T, K: VxOrdKey, F: Fn(&T) -> K>(f: F, key: spec_fn(T) -> (int, int)) -> bool {
    forall|x: T, k: K| f.ensures((&x,), k) ==> #[trigger] k.kk() == #[trigger] key(x)
}
pub trait VxSort<T> {
    spec fn svw(&self) -> Seq<T>;
    fn vx_sort_by_key<K: VxOrdKey, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|i: int| #![trigger old(self).svw()[i]] 0 <= i < old(self).svw().len() ==> f.requires((&old(self).svw()[i],))
        ensures final(self).svw().len() == old(self).svw().len(), forall|key: spec_fn(T) -> (int, int)| key_fn_of(f, key) ==> final(self).svw() == #[trigger] ssort(old(self).svw(), key);
    /// sorted by the key, same elements; equal keys in any order
    fn vx_sort_unstable_by_key<K: VxOrdKey, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|i: int| #![trigger old(self).svw()[i]] 0 <= i < old(self).svw().len() ==> f.requires((&old(self).svw()[i],))
        ensures final(self).svw().len() == old(self).svw().len(), final(self).svw().to_multiset() == old(self).svw().to_multiset(),
            forall|key: spec_fn(T) -> (int, int)| key_fn_of(f, key) ==> #[trigger] key_sorted(final(self).svw(), key);
}
impl<T> VxSort<T> for Vec<T> {
    open spec fn svw(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_by_key<K: VxOrdKey, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sort_unstable_by_key<K: VxOrdKey, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() }
}
