# Shim: symbolic's PE and PDB readers and the content of files (assumed contracts).
@include replace.spec
@include pe0.spec
@path std::env::current_dir => vx_current_dir
@path env::current_dir => vx_current_dir
@method drain_all into_owned
@raw
pub trait VxOwned { spec fn owv(&self) -> Seq<char>; fn vx_into_owned(self) -> (r: String) ensures r@ == self.owv(); }
impl VxOwned for String { open spec fn owv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into_owned(self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn cwd() -> Seq<char>;
/// (and its path is UTF-8)
#[verifier::external_body]
pub fn vx_current_dir() -> (r: VxResult<VxPath>) ensures r is Ok, (r->Ok_0).text() == cwd(), (r->Ok_0).utf8() { unimplemented!() }
pub trait VxDrain<T>: Sized { spec fn drv(&self) -> Seq<T>; fn vx_drain_all(self) -> (r: VxIter<T>) ensures r.pos() == 0, r.seq() == self.drv(); }
impl<T> VxDrain<T> for Vec<T> {
    open spec fn drv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_drain_all(self) -> (r: VxIter<T>) { unimplemented!() }
}
/// replacing an extension twice keeps only the second one; a file name stays one
pub open spec fn plain_ext(e: Seq<char>) -> bool { e.len() > 0 && forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] != '.' && e[i] != '/' && e[i] != '\\' }
#[verifier::external_body]
pub proof fn axiom_with_ext()
    ensures forall|p: Seq<char>, a: Seq<char>, b: Seq<char>| plain_ext(a) ==> #[trigger] with_ext(with_ext(p, a), b) == with_ext(p, b),
        forall|p: Seq<char>, a: Seq<char>| plain_ext(a) && name_of(p) is Some ==> name_of(#[trigger] with_ext(p, a)) is Some
{ }
