# Shim: the HEAD requests of src/cache.rs, which run at once as futures of one stream, and the list
# behind a lock in which they leave what they found (assumed contracts of reqwest, tokio, futures, std).
# A lock has an invariant that the function that makes it chooses (vx_lock_invariant), a task may put
# into the list only what the invariant allows, and what was put there is there in the end.
@typemap Arc<Mutex<Vec<Job>>> => VxFound
@path Client => VxHeadClient
@path Client::new => vx_head_client
@path Runtime::new => vx_runtime
@path stream::iter => vx_stream
@path Arc::new => vx_arc
@path Arc::clone => vx_arc_clone
@path Arc::try_unwrap => vx_try_unwrap
@path Mutex::new => vx_mutex
@path StatusCode::OK => 200u16
@path reqwest::StatusCode::OK => 200u16
@method head status lock into_inner block_on buffer_unordered
@raw
pub trait VxFut { type Out; spec fn done(&self, o: Self::Out) -> bool; fn vx_await(self) -> (r: Self::Out) where Self: Sized ensures self.done(r); }
impl VxFut for () { type Out = (); open spec fn done(&self, o: ()) -> bool { true } #[verifier::external_body] fn vx_await(self) -> (r: ()) { unimplemented!() } }
#[verifier::external_body]
pub struct VxHeadClient { _p: u8 }
#[verifier::external_body]
pub struct VxHeadReq { _p: u8 }
#[verifier::external_body]
pub struct VxHeadSent { _p: u8 }
#[verifier::external_body]
pub struct VxHeadResp { _p: u8 }
#[verifier::external_body]
pub fn vx_head_client() -> (r: VxHeadClient) { unimplemented!() }
impl VxHeadClient { #[verifier::external_body] pub fn vx_head(&self, u: &String) -> (r: VxHeadReq) ensures r.url() == u@ { unimplemented!() } }
impl VxHeadReq {
    pub uninterp spec fn url(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_header(self, h: VxHeader, v: &str) -> (r: VxHeadReq) ensures r.url() == self.url() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_send(self) -> (r: VxHeadSent) ensures r.url() == self.url() { unimplemented!() }
}
impl VxHeadSent { pub uninterp spec fn url(&self) -> Seq<char>; }
impl VxFut for VxHeadSent {
    type Out = VxResult<VxHeadResp>;
    open spec fn done(&self, o: VxResult<VxHeadResp>) -> bool { match o { Ok(v) => head_status(self.url()) == Some(v.code()), Err(_) => head_status(self.url()) is None } }
    #[verifier::external_body] fn vx_await(self) -> (r: VxResult<VxHeadResp>) { unimplemented!() }
}
impl VxHeadResp {
    pub uninterp spec fn code(&self) -> u16;
    #[verifier::external_body]
    pub fn vx_status(&self) -> (r: u16) ensures r == self.code() { unimplemented!() }
}
/// the list behind the lock
#[verifier::external_body]
pub struct VxFound { _p: u8 }
impl VxFound {
    /// what may be in the list
    pub uninterp spec fn allows(&self, j: JobV) -> bool;
    /// the job was put into the list
    pub uninterp spec fn told(&self, j: JobV) -> bool;
    #[verifier::external_body]
    pub fn vx_lock(&self) -> (r: VxResult<VxFoundGuard>) ensures r is Ok, (r->Ok_0).of() == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_inner(self) -> (r: VxResult<Vec<Job>>)
        ensures r is Ok, forall|k: int| 0 <= k < (r->Ok_0)@.len() ==> self.allows((#[trigger] (r->Ok_0)@[k]).vv()),
            forall|j: JobV| #[trigger] self.told(j) ==> exists|k: int| 0 <= k < (r->Ok_0)@.len() && (#[trigger] (r->Ok_0)@[k]).vv() == j
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxFoundGuard { _p: u8 }
impl VxFoundGuard {
    pub uninterp spec fn of(&self) -> VxFound;
    #[verifier::external_body]
    pub fn push(&mut self, j: Job) requires old(self).of().allows(j.vv()) ensures final(self).of() == old(self).of(), old(self).of().told(j.vv()) { unimplemented!() }
}
/// the invariant of the locks that the function makes
pub uninterp spec fn lock_invariant() -> spec_fn(JobV) -> bool;
#[verifier::external_body]
pub proof fn vx_lock_invariant(p: spec_fn(JobV) -> bool) ensures lock_invariant() == p { unimplemented!() }
#[verifier::external_body]
pub fn vx_mutex(v: Vec<Job>) -> (r: VxFound)
    requires forall|k: int| 0 <= k < v@.len() ==> lock_invariant()((#[trigger] v@[k]).vv())
    ensures forall|j: JobV| #[trigger] r.allows(j) == lock_invariant()(j)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_arc(t: VxFound) -> (r: VxFound) ensures r == t { unimplemented!() }
#[verifier::external_body]
pub fn vx_arc_clone(t: &VxFound) -> (r: VxFound) ensures r == *t { unimplemented!() }
/// (every task has dropped its clone when the stream is collected)
#[verifier::external_body]
pub fn vx_try_unwrap(t: VxFound) -> (r: VxResult<VxFound>) ensures r is Ok, (r->Ok_0) == t { unimplemented!() }
#[verifier::external_body]
pub struct VxRuntime { _p: u8 }
#[verifier::external_body]
pub fn vx_runtime() -> (r: VxResult<VxRuntime>) { unimplemented!() }
impl VxRuntime { #[verifier::external_body] pub fn vx_block_on<T>(self, t: T) -> (r: T) ensures r == t { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxStream<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
pub fn vx_stream<T>(v: Vec<T>) -> (r: VxStream<T>) ensures r.items() == v@ { unimplemented!() }
impl<T> VxStream<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxTasks<T, U, F>) ensures r.items() == self.items(), r.f() == f { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(U)]
#[verifier::reject_recursive_types(F)]
pub struct VxTasks<T, U, F> { _p: core::marker::PhantomData<(T, U, F)> }
impl<T, U, F: Fn(T) -> U> VxTasks<T, U, F> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    pub uninterp spec fn f(&self) -> F;
    /// (a stream that runs none of its futures at a time never ends)
    #[verifier::external_body]
    pub fn vx_buffer_unordered(self, n: usize) -> (r: VxTasks<T, U, F>) requires n > 0 ensures r.items() == self.items(), r.f() == self.f() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect<C>(self) -> (r: VxJoined<T, U, F, C>) ensures r.items() == self.items(), r.f() == self.f() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(U)]
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(C)]
pub struct VxJoined<T, U, F, C> { _p: core::marker::PhantomData<(T, U, F, C)> }
impl<T, U, F: Fn(T) -> U, C> VxJoined<T, U, F, C> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    pub uninterp spec fn f(&self) -> F;
    /// every task has run, in any order
    #[verifier::external_body]
    pub fn vx_await(self) -> (r: C)
        requires forall|k: int| 0 <= k < self.items().len() ==> call_requires(self.f(), (#[trigger] self.items()[k],))
        ensures forall|k: int| 0 <= k < self.items().len() ==> exists|u: U| call_ensures(self.f(), (#[trigger] self.items()[k],), u)
    { unimplemented!() }
}
