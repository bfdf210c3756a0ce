@include ../shim/core.spec
@include ../shim/fmt.spec
@include ../shim/str.spec
@include ../shim/path.spec
@include ../shim/views.spec
@include ../shim/net.spec
@include ../shim/cab.spec
@raw
/// AsRef<Path>
pub trait VxAsPath { spec fn apv(&self) -> (Seq<char>, bool); fn as_ref(&self) -> (r: &VxPath) ensures r.text() == self.apv().0, r.utf8() == self.apv().1; }
impl<T: VxPathArg> VxAsPath for T {
    open spec fn apv(&self) -> (Seq<char>, bool) { (self.ptext(), self.putf8()) }
    #[verifier::external_body] fn as_ref(&self) -> (r: &VxPath) { unimplemented!() }
}
@include reading.inc
@include rawread.inc
