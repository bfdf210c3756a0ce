# Shim: divergence, assertions, opaque errors, clone, slices and vectors.
# Everything marked external_body here is an ASSUMED contract on std or on a dependency.
@method or clone split_last_mut first last_mut windows into_iter reserve to_vec
@path fmt::Result => VxFmtResult
@path std::fmt::Result => VxFmtResult
@path common::Result => VxResult
@path crate::common::* => 
@path common::* => 
@path std::mem::take => vx_mem_take
@path std::mem::swap => vx_mem_swap
@path Default::default => vx_default
@path std::cmp::min => vx_cmp_min
@path std::cmp::max => vx_cmp_max
@path cmp::min => vx_cmp_min
@path cmp::max => vx_cmp_max
@raw
/// never called: the arm of an unguarded match that its condition excludes
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
#[derive(Debug)]
pub struct VxErr { pub code: u64 }
pub type VxResult<T> = Result<T, VxErr>;
#[derive(Debug)]
pub struct VxFmtErr { pub code: u64 }
pub type VxFmtResult = Result<(), VxFmtErr>;

#[verifier::external_body]
pub fn vx_mk_err() -> (r: VxErr) { unimplemented!() }
pub trait VxConvErr<E2> { spec fn vx_dummy(&self) -> bool; }
impl VxConvErr<VxErr> for VxErr { open spec fn vx_dummy(&self) -> bool { true } }
impl VxConvErr<VxFmtErr> for VxFmtErr { open spec fn vx_dummy(&self) -> bool { true } }
#[verifier::external_body]
pub fn vx_conv_err<E1: VxConvErr<E2>, E2>(e: E1) -> (r: E2) { unimplemented!() }

#[verifier::external_body]
pub fn vx_diverge() -> !
    ensures false
{ unimplemented!() }
pub fn vx_panic() -> !
    requires false
{ vx_diverge() }
pub fn vx_assert(c: bool)
    requires c
{ }

pub trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self)
        ensures r == *self;
}
impl<T> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_mem_swap<T>(a: &mut T, b: &mut T)
    ensures *final(a) == *old(b), *final(b) == *old(a)
{ unimplemented!() }
pub trait VxDefault: Sized {
    spec fn vx_is_default(&self) -> bool;
}
#[verifier::external_body]
pub fn vx_default<T: VxDefault>() -> (r: T)
    ensures r.vx_is_default()
{ unimplemented!() }
impl<T> VxDefault for Vec<T> { open spec fn vx_is_default(&self) -> bool { self@ == Seq::<T>::empty() } }
impl VxDefault for String { open spec fn vx_is_default(&self) -> bool { self@ == Seq::<char>::empty() } }
#[verifier::external_body]
pub fn vx_mem_take<T: VxDefault>(a: &mut T) -> (r: T)
    ensures r == *old(a), final(a).vx_is_default()
{ unimplemented!() }

pub trait VxSliceLike<T> {
    spec fn vw(&self) -> Seq<T>;
    fn vx_index_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).vw().len()
        ensures *r == old(self).vw()[i as int], final(self).vw() == old(self).vw().update(i as int, *final(r));
    fn vx_split_last_mut(&mut self) -> (r: Option<(&mut T, &mut [T])>)
        ensures match r {
            None => old(self).vw().len() == 0 && final(self).vw() == old(self).vw(),
            Some((last, rest)) => old(self).vw().len() > 0 && *last == old(self).vw().last()
                && rest@ == old(self).vw().drop_last()
                && final(self).vw() == final(rest)@.push(*final(last))
                && final(rest)@.len() == rest@.len() };
    fn vx_first(&self) -> (r: Option<&T>)
        ensures match r { None => self.vw().len() == 0, Some(x) => self.vw().len() > 0 && *x == self.vw()[0] };
    fn vx_last(&self) -> (r: Option<&T>)
        ensures match r { None => self.vw().len() == 0, Some(x) => self.vw().len() > 0 && *x == self.vw().last() };
    fn vx_windows(&self, n: usize) -> (r: VxIter<&[T]>)
        requires n > 0
        ensures r.pos() == 0, r.seq().len() == (if self.vw().len() >= n { self.vw().len() - n + 1 } else { 0 }),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ == self.vw().subrange(i, i + n);
    fn vx_slice(&self, a: usize, b: usize) -> (r: &[T])
        requires a <= b <= self.vw().len()
        ensures r@ == self.vw().subrange(a as int, b as int);
    fn vx_to_vec(&self) -> (r: Vec<T>)
        ensures r@ == self.vw();
}
impl<T> VxSliceLike<T> for [T] {
    open spec fn vw(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_index_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
    #[verifier::external_body] fn vx_split_last_mut(&mut self) -> (r: Option<(&mut T, &mut [T])>) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_windows(&self, n: usize) -> (r: VxIter<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T> VxSliceLike<T> for Vec<T> {
    open spec fn vw(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_index_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
    #[verifier::external_body] fn vx_split_last_mut(&mut self) -> (r: Option<(&mut T, &mut [T])>) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_windows(&self, n: usize) -> (r: VxIter<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_copy_at<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len()
    ensures r == v@[i as int]
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@.len() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_repeat<T>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ unimplemented!() }
pub trait VxReserve: Sized { fn vx_reserve(&mut self, n: usize) ensures *final(self) == *old(self); }
impl<T> VxReserve for Vec<T> { #[verifier::external_body] fn vx_reserve(&mut self, n: usize) { unimplemented!() } }

// ---------------------------------------------------------------- iterators
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { _p: core::marker::PhantomData<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn ok(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    pub open spec fn rest(&self) -> Seq<T> { self.seq().subrange(self.pos(), self.seq().len() as int) }
    /// the items the iterator started with, as a ghost
    pub fn vx_all(&self) -> (r: Ghost<Seq<T>>) ensures r@ == self.seq() { Ghost(self.seq()) }
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures r == (self.pos() < self.seq().len()), self.ok()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_item(&mut self) -> (r: T)
        requires old(self).pos() < old(self).seq().len()
        ensures 0 <= old(self).pos(), r == old(self).seq()[old(self).pos()], final(self).seq() == old(self).seq(),
            final(self).pos() == old(self).pos() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<T>)
        ensures old(self).ok(), final(self).ok(), final(self).seq() == old(self).seq(), match r {
            Some(x) => old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()]
                && final(self).pos() == old(self).pos() + 1,
            None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| self.pos() <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],))
        ensures self.ok(), r.pos() == 0, r.seq().len() == self.rest().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> f.ensures((self.rest()[i],), #[trigger] r.seq()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>)
        ensures self.ok(), r.pos() == 0, r.seq().len() == self.rest().len(), r.seq().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 as int == i && r.seq()[i].1 == self.rest()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip<U, I: VxIntoIter<U>>(self, o: I) -> (r: VxIter<(T, U)>)
        ensures self.ok(), r.pos() == 0,
            r.seq().len() == (if self.rest().len() <= o.vx_items().len() { self.rest().len() } else { o.vx_items().len() }),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 == self.rest()[i] && r.seq()[i].1 == o.vx_items()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect<C: VxCollect<T>>(self) -> (r: C)
        ensures self.ok(), r.vx_collected(self.rest())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next_back(&mut self) -> (r: Option<T>)
        ensures old(self).ok(), final(self).ok(), final(self).pos() == old(self).pos(), match r {
            Some(x) => old(self).pos() < old(self).seq().len() && x == old(self).seq().last()
                && final(self).seq() == old(self).seq().drop_last(),
            None => old(self).pos() == old(self).seq().len() && final(self).seq() == old(self).seq() }
    { unimplemented!() }
}
#[verifier::external_body]
pub proof fn axiom_iter_ok<T>(i: VxIter<T>)
    ensures i.ok()
{ }
pub trait VxCollect<T> { spec fn vx_collected(&self, s: Seq<T>) -> bool; }
impl<T> VxCollect<T> for Vec<T> { open spec fn vx_collected(&self, s: Seq<T>) -> bool { self@ == s } }
pub trait VxOpt<T> {
    spec fn ov(&self) -> Option<T>;
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.ov() is Some ==> f.requires((self.ov()->0,))
        ensures match self.ov() { Some(x) => f.ensures((x,), r), None => !r };
    fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.ov() is Some ==> f.requires((self.ov()->0,))
        ensures match self.ov() { Some(x) => f.ensures((x,), r), None => r };
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.ov() is Some ==> f.requires((self.ov()->0,))
        ensures match self.ov() { Some(x) => r is Some && f.ensures((x,), r->0), None => r is None };
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.ov() is Some ==> f.requires((self.ov()->0,))
        ensures match self.ov() { Some(x) => f.ensures((x,), r), None => r is None };
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T)
        requires self.ov() is None ==> f.requires(())
        ensures match self.ov() { Some(x) => r == x, None => f.ensures((), r) };
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) { unimplemented!() }
}
pub trait VxUnwrapDef<T: VxDefault> { fn vx_unwrap_or_default(self) -> (r: T) ensures self.udv() is Some ==> r == self.udv()->0, self.udv() is None ==> r.vx_is_default(); spec fn udv(&self) -> Option<T>; }
impl<T: VxDefault> VxUnwrapDef<T> for Option<T> {
    open spec fn udv(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: T) { unimplemented!() }
}
impl<'a, T> VxDefault for &'a [T] { open spec fn vx_is_default(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<'a> VxDefault for &'a str { open spec fn vx_is_default(&self) -> bool { self@ == Seq::<char>::empty() } }
pub trait VxOr<T> { spec fn orv(&self) -> Option<T>; fn vx_or(self, o: Option<T>) -> (r: Option<T>) ensures r == (match self.orv() { Some(x) => Some(x), None => o }); }
impl<T> VxOr<T> for Option<T> {
    open spec fn orv(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_or(self, o: Option<T>) -> (r: Option<T>) { unimplemented!() }
}
pub trait VxAsDeref<'a> {
    type Out;
    spec fn vx_adr(&self, r: Option<Self::Out>) -> bool;
    fn vx_as_deref(&'a self) -> (r: Option<Self::Out>) ensures self.vx_adr(r);
}
impl<'a> VxAsDeref<'a> for Option<String> {
    type Out = &'a str;
    open spec fn vx_adr(&self, r: Option<&'a str>) -> bool { match *self { Some(x) => r is Some && (r->0)@ == x@, None => r is None } }
    #[verifier::external_body] fn vx_as_deref(&'a self) -> (r: Option<&'a str>) { unimplemented!() }
}
impl<'a, T: 'a> VxAsDeref<'a> for Option<Vec<T>> {
    type Out = &'a [T];
    open spec fn vx_adr(&self, r: Option<&'a [T]>) -> bool { match *self { Some(x) => r is Some && (r->0)@ == x@, None => r is None } }
    #[verifier::external_body] fn vx_as_deref(&'a self) -> (r: Option<&'a [T]>) { unimplemented!() }
}
pub trait VxRes<T, E> {
    spec fn rv(&self) -> Result<T, E>;
    fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T)
        requires self.rv() is Err ==> f.requires((self.rv()->Err_0,))
        ensures match self.rv() { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
}
impl<T, E> VxRes<T, E> for Result<T, E> {
    open spec fn rv(&self) -> Result<T, E> { *self }
    #[verifier::external_body] fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) { unimplemented!() }
}
pub trait VxOrDie<T>: Sized {
    spec fn dv(&self) -> Option<T>;
    /// the caller's contract allows a panic
    fn vx_or_diverge(self) -> (r: T) ensures self.dv() == Some(r);
    fn vx_or_panic(self) -> (r: T) requires self.dv() is Some ensures self.dv() == Some(r);
}
impl<T> VxOrDie<T> for Option<T> {
    open spec fn dv(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_or_diverge(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_or_panic(self) -> (r: T) { unimplemented!() }
}
impl<T, E> VxOrDie<T> for Result<T, E> {
    open spec fn dv(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } }
    #[verifier::external_body] fn vx_or_diverge(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_or_panic(self) -> (r: T) { unimplemented!() }
}
pub trait VxIntoIter<T>: Sized {
    spec fn vx_items(&self) -> Seq<T>;
    fn vx_into_iter(self) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == self.vx_items();
}
pub fn vx_iter<T, I: VxIntoIter<T>>(x: I) -> (r: VxIter<T>)
    ensures r.pos() == 0, r.seq() == x.vx_items()
{ x.vx_into_iter() }
pub open spec fn refs<T>(s: Seq<T>) -> Seq<&'static T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<T> VxIntoIter<T> for VxIter<T> {
    open spec fn vx_items(&self) -> Seq<T> { self.rest() }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<T> VxIntoIter<T> for Vec<T> {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter<&'a T> for &'a Vec<T> {
    open spec fn vx_items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter<&'a T> for &'a [T] {
    open spec fn vx_items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<T, const N: usize> VxIntoIter<T> for [T; N] {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<'a, T, const N: usize> VxIntoIter<&'a T> for &'a [T; N] {
    open spec fn vx_items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
/// std::cmp::min and max
pub trait VxCmp: Sized { spec fn vx_le(self, o: Self) -> bool; }
impl VxCmp for usize { open spec fn vx_le(self, o: usize) -> bool { self <= o } }
impl VxCmp for u32 { open spec fn vx_le(self, o: u32) -> bool { self <= o } }
impl VxCmp for u64 { open spec fn vx_le(self, o: u64) -> bool { self <= o } }
#[verifier::external_body]
pub fn vx_cmp_min<T: VxCmp>(a: T, b: T) -> (r: T) ensures r == (if a.vx_le(b) { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cmp_max<T: VxCmp>(a: T, b: T) -> (r: T) ensures r == (if a.vx_le(b) { b } else { a }) { unimplemented!() }
impl VxIntoIter<usize> for core::ops::Range<usize> {
    open spec fn vx_items(&self) -> Seq<usize> { Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<usize>) { unimplemented!() }
}
impl VxIntoIter<u32> for core::ops::Range<u32> {
    open spec fn vx_items(&self) -> Seq<u32> { Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as u32) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<u32>) { unimplemented!() }
}
pub trait VxRange { fn vx_collect<C: VxCollect<u32>>(self) -> (r: C) where Self: Sized + VxIntoIter<u32> ensures r.vx_collected(self.vx_items()); }
impl VxRange for core::ops::Range<u32> {
    #[verifier::external_body] fn vx_collect<C: VxCollect<u32>>(self) -> (r: C) { unimplemented!() }
}
pub trait VxExtend<T> { spec fn exv(&self) -> Seq<T>; fn vx_extend<I: VxIntoIter<T>>(&mut self, i: I) ensures final(self).exv() == old(self).exv() + i.vx_items(); }
impl<T> VxExtend<T> for Vec<T> {
    open spec fn exv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend<I: VxIntoIter<T>>(&mut self, i: I) { unimplemented!() }
}
pub trait VxIterable<T> {
    spec fn vx_ivw(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: VxIter<&T>)
        ensures r.pos() == 0, r.seq().len() == self.vx_ivw().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> *(#[trigger] r.seq()[i]) == self.vx_ivw()[i];
}
impl<T> VxIterable<T> for [T] {
    open spec fn vx_ivw(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
}
impl<T, const N: usize> VxIterable<T> for [T; N] {
    open spec fn vx_ivw(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
}
impl<T> VxIterable<T> for Vec<T> {
    open spec fn vx_ivw(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
}
@method as_deref unwrap_or_default extend iter map collect enumerate zip next next_back is_some_and is_none_or and_then unwrap_or_else
/// derived equality of plain data
pub trait VxEq { spec fn vx_same(&self, o: &Self) -> bool; }
impl VxEq for u32 { open spec fn vx_same(&self, o: &u32) -> bool { *self == *o } }
impl VxEq for u64 { open spec fn vx_same(&self, o: &u64) -> bool { *self == *o } }
impl VxEq for usize { open spec fn vx_same(&self, o: &usize) -> bool { *self == *o } }
impl VxEq for str { open spec fn vx_same(&self, o: &str) -> bool { self@ == o@ } }
impl<A: VxEq, B: VxEq> VxEq for (A, B) { open spec fn vx_same(&self, o: &(A, B)) -> bool { self.0.vx_same(&o.0) && self.1.vx_same(&o.1) } }
impl<A: VxEq> VxEq for Option<A> { open spec fn vx_same(&self, o: &Option<A>) -> bool { match (*self, *o) { (Some(x), Some(y)) => x.vx_same(&y), (None, None) => true, _ => false } } }
impl<'a, A: VxEq + ?Sized> VxEq for &'a A { open spec fn vx_same(&self, o: &&'a A) -> bool { (**self).vx_same(*o) } }
#[verifier::external_body]
pub fn vx_eq<A: VxEq>(a: A, b: A) -> (r: bool) ensures r == a.vx_same(&b) { unimplemented!() }
/// what filter_map leaves of s
pub open spec fn filt<T, U>(s: Seq<T>, g: spec_fn(T) -> Option<U>) -> Seq<U>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match g(s.last()) { Some(x) => filt(s.drop_last(), g).push(x), None => filt(s.drop_last(), g) } }
}
pub open spec fn fn_of<T, U, F: Fn(T) -> U>(f: F, g: spec_fn(T) -> U) -> bool { forall|x: T, y: U| #[trigger] f.ensures((x,), y) ==> g(x) == y }
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn vx_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| self.pos() <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],))
        ensures self.ok(), r.pos() == 0, r.seq().len() <= self.rest().len(), forall|g: spec_fn(T) -> Option<U>| fn_of(f, g) ==> r.seq() == #[trigger] filt(self.rest(), g)
    { unimplemented!() }
}
