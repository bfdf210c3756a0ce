# Shim: iterator adaptors over values that are compared through their view (assumed contracts).
@method split filter_map=>vx_keep chars as_str map_or_else
@raw
pub trait VxView { type V; spec fn vv(&self) -> Self::V; }
impl<'a> VxView for &'a str { type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { self@ } }
impl VxView for String { type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { self@ } }
impl<'a> VxView for &'a String { type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { self@ } }
pub open spec fn views<T: VxView>(s: Seq<T>) -> Seq<T::V> { Seq::new(s.len(), |i: int| s[i].vv()) }
pub open spec fn oview<T: VxView>(o: Option<T>) -> Option<T::V> { match o { Some(x) => Some(x.vv()), None => None } }
/// what is left of s where g gives a value
pub open spec fn kept_of<A, B>(s: Seq<A>, g: spec_fn(A) -> Option<B>) -> Seq<B>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match g(s.last()) { Some(x) => kept_of(s.drop_last(), g).push(x), None => kept_of(s.drop_last(), g) } }
}
pub open spec fn computes<T: VxView, U: VxView, F: Fn(T) -> Option<U>>(f: F, g: spec_fn(T::V) -> Option<U::V>) -> bool {
    forall|x: T, y: Option<U>| #[trigger] f.ensures((x,), y) ==> g(x.vv()) == oview(y)
}
impl<T: VxView> VxIter<T> {
    #[verifier::external_body]
    pub fn vx_keep<U: VxView, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| self.pos() <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],))
        ensures self.ok(), r.pos() == 0, views(self.rest()).len() == self.rest().len(), forall|g: spec_fn(T::V) -> Option<U::V>| computes(f, g) ==> views(r.seq()) == #[trigger] kept_of(views(self.rest()), g)
    { unimplemented!() }
}
/// the pieces of s between its separators
pub open spec fn pieces(s: Seq<char>, sep: spec_fn(char) -> bool) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let d = pieces(s.drop_last(), sep);
        if sep(s.last()) { d.push(Seq::empty()) } else { d.drop_last().push(d.last().push(s.last())) }
    }
}
pub open spec fn seps<P: VxPat>(p: P) -> spec_fn(char) -> bool { |c: char| p.vx_m(seq![c], 0) }
pub proof fn lemma_pieces_same(s: Seq<char>, f: spec_fn(char) -> bool, g: spec_fn(char) -> bool)
    requires forall|c: char| #[trigger] f(c) == g(c)
    ensures pieces(s, f) == pieces(s, g)
    decreases s.len()
{ if s.len() > 0 { lemma_pieces_same(s.drop_last(), f, g); } }
pub proof fn lemma_pieces_len(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures pieces(s, f).len() > 0
    decreases s.len()
{ if s.len() > 0 { lemma_pieces_len(s.drop_last(), f); } }
pub trait VxSplit { spec fn spv(&self) -> Seq<char>;
    fn vx_split<P: VxPat>(&self, p: P) -> (r: VxIter<&str>)
        ensures r.pos() == 0, p.vx_n() == 1 ==> views(r.rest()) == pieces(self.spv(), seps(p));
    fn vx_chars(&self) -> (r: VxIter<char>)
        ensures r.pos() == 0, r.seq() == self.spv();
}
impl VxSplit for str {
    open spec fn spv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split<P: VxPat>(&self, p: P) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
}
impl VxIter<char> {
    #[verifier::external_body]
    pub fn vx_as_str(&self) -> (r: &str) ensures self.ok(), r@ == self.rest() { unimplemented!() }
}
pub trait VxMapOrElse<T> { spec fn mev(&self) -> Option<T>;
    fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U)
        requires self.mev() is Some ==> f.requires((self.mev()->0,)), self.mev() is None ==> d.requires(())
        ensures match self.mev() { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
}
impl<T> VxMapOrElse<T> for Option<T> {
    open spec fn mev(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) { unimplemented!() }
}
