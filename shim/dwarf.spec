# Shim: the debug information as symbolic and goblin hand it over (assumed contracts).
@typemap &Function<'a> => &VxFunction<'a>
@typemap &Function<'_> => &VxFunction<'_>
@typemap &'a ObjectDebugSession => &'a VxSession
@typemap &ExceptionData => &VxExceptionData
@path btree_map::Entry => Entry
@method functions symbols filter_map unwrap_or_default
@raw
pub struct LineInfo { pub address: u64, pub size: Option<u64>, pub file: VxFileInfo, pub line: u64 }
pub struct VxFunction<'a> {
    pub address: u64, pub size: u64, pub name: VxName<'a>, pub compilation_dir: VxBytes,
    pub lines: Vec<LineInfo>, pub inlinees: Vec<VxFunction<'a>>, pub inline: bool,
}
#[verifier::external_body]
pub struct VxSession { _p: u8 }
impl VxSession {
    pub uninterp spec fn funs(&self) -> Seq<VxResult<VxFunction<'static>>>;
    #[verifier::external_body]
    pub fn vx_functions<'a>(&'a self) -> (r: VxIter<VxResult<VxFunction<'a>>>) ensures r.pos() == 0, r.seq() == self.funs() { unimplemented!() }
}
pub struct VxSym { pub name: Option<VxCow<'static>>, pub address: u64, pub size: u64 }
impl VxSym {
    pub open spec fn sname(&self) -> Option<Seq<char>> { match self.name { Some(c) => Some(c.text()), None => None } }
    #[verifier::external_body]
    pub fn name(&self) -> (r: Option<&str>)
        ensures match r { Some(s) => self.sname() == Some(s@), None => self.sname() is None }
    { unimplemented!() }
}
pub struct VxRuntimeFunction { pub begin_address: u32, pub end_address: u32 }
#[verifier::external_body]
pub struct VxExceptionData { _p: u8 }
impl VxExceptionData { pub uninterp spec fn entries(&self) -> Seq<VxResult<VxRuntimeFunction>>; }
impl<'a> VxIntoIter<VxResult<VxRuntimeFunction>> for &'a VxExceptionData {
    open spec fn vx_items(&self) -> Seq<VxResult<VxRuntimeFunction>> { self.entries() }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<VxResult<VxRuntimeFunction>>) { unimplemented!() }
}
impl VxDefault for u32 { open spec fn vx_is_default(&self) -> bool { *self == 0 } }
