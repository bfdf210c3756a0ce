# Shim: conversions (assumed contracts).
@method into
@raw
pub trait VxInto<T> { spec fn into_is(&self, t: T) -> bool; fn vx_into(self) -> (r: T) where Self: Sized ensures self.into_is(r); }
impl<'a> VxInto<String> for &'a str {
    open spec fn into_is(&self, t: String) -> bool { t@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() }
}
