# Shim: ordered and hashed maps (assumed contracts of BTreeMap / HashMap / hashbrown::HashMap).
@path BTreeMap => VxMap
@path HashMap => VxMap
@path Included => VxBound::Included
@path Excluded => VxBound::Excluded
@path Unbounded => VxBound::Unbounded
@method range
@method get get_mut insert contains_key remove keys values entry=>entry
@raw
pub trait VxKey { type KV; spec fn kv(&self) -> Self::KV; }
impl VxKey for u32 { type KV = u32; open spec fn kv(&self) -> u32 { *self } }
impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VxKey for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VxMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
impl<K: VxKey, V> View for VxMap<K, V> {
    type V = Map<K::KV, V>;
    uninterp spec fn view(&self) -> Map<K::KV, V>;
}
impl<K: VxKey, V> VxMap<K, V> {
    /// the keys in iteration order
    pub uninterp spec fn key_seq(&self) -> Seq<K>;
    #[verifier::external_body]
    pub proof fn axiom_keys(&self)
        ensures self.key_seq().len() == self@.dom().len(),
            forall|i: int| 0 <= i < self.key_seq().len() ==> self@.contains_key((#[trigger] self.key_seq()[i]).kv()),
            forall|i: int, j: int| 0 <= i < j < self.key_seq().len() ==> (#[trigger] self.key_seq()[i]).kv() != (#[trigger] self.key_seq()[j]).kv(),
            forall|k: K::KV| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < self.key_seq().len() && (#[trigger] self.key_seq()[i]).kv() == k
    { }
    /// the entries in iteration order
    pub open spec fn entries(&self) -> Seq<(K, V)> {
        Seq::new(self.key_seq().len(), |i: int| (self.key_seq()[i], self@[self.key_seq()[i].kv()]))
    }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::KV, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains_key<Q: VxKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get<Q: VxKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.kv()) && *v == self@[k.kv()], None => !self@.contains_key(k.kv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_mut<Q: VxKey<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)),
            None => !old(self)@.contains_key(k.kv()) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at<Q: VxKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: &V)
        requires self@.contains_key(k.kv())
        ensures *r == self@[k.kv()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at_mut<Q: VxKey<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: &mut V)
        requires old(self)@.contains_key(k.kv())
        ensures *r == old(self)@[k.kv()], final(self)@ == old(self)@.insert(k.kv(), *final(r)),
            final(self).key_seq() == old(self).key_seq()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v),
            match r { Some(x) => old(self)@.contains_key(k.kv()) && x == old(self)@[k.kv()], None => !old(self)@.contains_key(k.kv()) }
    { unimplemented!() }
    /// entry.insert(v)
    #[verifier::external_body]
    pub fn vx_set(&mut self, k: K, v: V)
        ensures final(self)@ == old(self)@.insert(k.kv(), v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove<Q: VxKey<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv()),
            match r { Some(x) => old(self)@.contains_key(k.kv()) && x == old(self)@[k.kv()], None => !old(self)@.contains_key(k.kv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k.kv()) { old(self)@[k.kv()] } else { v }),
            final(self)@ == old(self)@.insert(k.kv(), *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or_insert_with<F: FnOnce() -> V>(&mut self, k: K, f: F) -> (r: &mut V)
        requires !old(self)@.contains_key(k.kv()) ==> f.requires(())
        ensures old(self)@.contains_key(k.kv()) ==> *r == old(self)@[k.kv()],
            !old(self)@.contains_key(k.kv()) ==> f.ensures((), *r),
            final(self)@ == old(self)@.insert(k.kv(), *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: Vec<K>)
        ensures r@ == self.key_seq()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIter<(&K, &V)>)
        ensures r.pos() == 0, r.seq().len() == self.key_seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> *(#[trigger] r.seq()[i]).0 == self.key_seq()[i] && *r.seq()[i].1 == self@[self.key_seq()[i].kv()]
    { unimplemented!() }
}

pub enum VxBound { Included(u32), Excluded(u32), Unbounded }
pub open spec fn above(b: VxBound, k: u32) -> bool { match b { VxBound::Included(x) => x <= k, VxBound::Excluded(x) => x < k, VxBound::Unbounded => true } }
pub open spec fn below(b: VxBound, k: u32) -> bool { match b { VxBound::Included(x) => k <= x, VxBound::Excluded(x) => k < x, VxBound::Unbounded => true } }
/// u32 keys: iteration goes up (BTreeMap)
impl<V> VxMap<u32, V> {
    #[verifier::external_body]
    pub proof fn axiom_ordered(&self)
        ensures forall|i: int, j: int| 0 <= i < j < self.key_seq().len() ==> (#[trigger] self.key_seq()[i]) < (#[trigger] self.key_seq()[j])
    { }
    #[verifier::external_body]
    pub fn vx_range(&self, b: (VxBound, VxBound)) -> (r: VxIter<(&u32, &V)>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains_key(*(#[trigger] r.seq()[i]).0) && above(b.0, *r.seq()[i].0) && below(b.1, *r.seq()[i].0)
                && *r.seq()[i].1 == self@[*r.seq()[i].0],
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> *(#[trigger] r.seq()[i]).0 < *(#[trigger] r.seq()[j]).0,
            forall|k: u32| #[trigger] self@.contains_key(k) && above(b.0, k) && below(b.1, k) ==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]).0 == k
    { unimplemented!() }
}
impl<K: VxKey, V> VxIntoIter<(K, V)> for VxMap<K, V> {
    open spec fn vx_items(&self) -> Seq<(K, V)> { self.entries() }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<(K, V)>) { unimplemented!() }
}
impl<K: VxKey, V> VxDefault for VxMap<K, V> { open spec fn vx_is_default(&self) -> bool { self@ == Map::<K::KV, V>::empty() } }
/// what collecting pairs into a map gives: a later pair replaces an earlier one
pub open spec fn map_of<K: VxKey, V>(s: Seq<(K, V)>) -> Map<K::KV, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0.kv(), s.last().1) }
}
impl<K: VxKey, V> VxCollect<(K, V)> for VxMap<K, V> { open spec fn vx_collected(&self, s: Seq<(K, V)>) -> bool { self@ == map_of(s) } }
pub proof fn lemma_map_of<K: VxKey, V>(s: Seq<(K, V)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
    ensures forall|i: int| 0 <= i < s.len() ==> map_of(s).contains_key((#[trigger] s[i]).0.kv()) && map_of(s)[s[i].0.kv()] == s[i].1,
        forall|k: K::KV| #[trigger] map_of(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_map_of(d);
        assert forall|i: int| 0 <= i < s.len() implies map_of(s).contains_key((#[trigger] s[i]).0.kv()) && map_of(s)[s[i].0.kv()] == s[i].1 by {
            if i < d.len() { assert(d[i] == s[i]); assert(s[i].0.kv() != s[d.len() as int].0.kv()); }
        }
        assert forall|k: K::KV| #[trigger] map_of(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k by {
            if k == s.last().0.kv() { assert(s[s.len() - 1].0.kv() == k); }
            else { assert(map_of(d).contains_key(k)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0.kv() == k; assert(s[i] == d[i]); assert(s[i].0.kv() == k); }
        }
    }
}
