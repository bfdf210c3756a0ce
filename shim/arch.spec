# Shim: symbolic's cpu architectures (assumed contracts).
@path Arch => VxArch
@raw
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct VxArch { pub a: u32 }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct VxCpuFamily { pub f: u32 }
impl VxArch {
    pub uninterp spec fn family(&self) -> u32;
    #[verifier::external_body] pub fn cpu_family(&self) -> (r: VxCpuFamily) ensures r.f == self.family() { unimplemented!() }
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &'static str) ensures r@ == self.text() { unimplemented!() }
}
