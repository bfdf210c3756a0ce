# Shim: symbolic's PE reader and debug ids (assumed contracts).
@path PeObject => VxPe
@path PeObject::parse => vx_pe_parse
@typemap PeObject<'a> => VxPe
@typemap DebugId => VxId
@method debug_id debug_file_name breakpad
@raw
#[verifier::external_body]
pub struct VxPe { _p: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VxId { pub id: u64 }
#[verifier::external_body]
pub struct VxBreakpad { _p: u8 }
/// the text of a debug id
pub uninterp spec fn id_text(id: VxId) -> Seq<char>;
impl VxId { #[verifier::external_body] pub fn vx_breakpad(&self) -> (r: VxBreakpad) ensures r.text() == id_text(*self) { unimplemented!() } }
impl VxBreakpad { pub uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() } }
/// a PE: its debug id and the name of its PDB
pub struct PeV { pub id: VxId, pub pdb: Option<Seq<char>> }
/// what PeObject::parse makes of bytes
pub uninterp spec fn pe_parsed(b: Seq<u8>) -> Option<VxPe>;
pub open spec fn pe_of(b: Seq<u8>) -> Option<PeV> { match pe_parsed(b) { Some(p) => Some(p.v()), None => None } }
impl VxPe {
    pub uninterp spec fn v(&self) -> PeV;
    #[verifier::external_body]
    pub fn vx_debug_id(&self) -> (r: VxId) ensures r == self.v().id { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_debug_file_name(&self) -> (r: Option<String>) ensures match r { Some(s) => self.v().pdb == Some(s@), None => self.v().pdb is None } { unimplemented!() }
}
pub trait VxBuffer { spec fn bv(&self) -> Seq<u8>; }
impl VxBuffer for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBuffer for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn vx_pe_parse<B: VxBuffer + ?Sized>(b: &B) -> (r: VxResult<VxPe>)
    ensures match r { Ok(p) => pe_parsed(b.bv()) == Some(p), Err(_) => pe_parsed(b.bv()) is None }
{ unimplemented!() }
