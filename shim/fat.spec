# Shim: symbolic's PDB reader, archives of objects and the recognition of formats (assumed contracts).
@include into.spec
@path PdbObject => VxPdb
@path PdbObject::parse => vx_pdb_parse
@typemap PdbObject => VxPdb
@typemap PeObject => VxPe
@path peek => vx_peek
@path Archive::parse => vx_archive_parse
@method object_count object_by_index objects
@raw
pub uninterp spec fn pdb_of(b: Seq<u8>) -> Option<VxPdb>;
impl VxPdb { #[verifier::external_body] pub fn vx_debug_id(&self) -> (r: VxId) ensures r == pdb_id(*self) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_pdb_parse<B: VxBuffer + ?Sized>(b: &B) -> (r: VxResult<VxPdb>)
    ensures match r { Ok(p) => pdb_of(b.bv()) == Some(p), Err(_) => pdb_of(b.bv()) is None }
{ unimplemented!() }
/// the format of the bytes (with archives)
pub uninterp spec fn format_of(b: Seq<u8>) -> FileFormat;
#[verifier::external_body]
pub fn vx_peek<B: VxBuffer + ?Sized>(b: &B, archive: bool) -> (r: FileFormat) ensures archive ==> r == format_of(b.bv()) { unimplemented!() }
/// the objects of an archive
#[verifier::external_body]
pub struct VxArchive { _p: u8 }
pub uninterp spec fn archive_of(b: Seq<u8>) -> Option<VxArchive>;
#[verifier::external_body]
pub fn vx_archive_parse<B: VxBuffer + ?Sized>(b: &B) -> (r: VxResult<VxArchive>)
    ensures match r { Ok(a) => archive_of(b.bv()) == Some(a), Err(_) => archive_of(b.bv()) is None }
{ unimplemented!() }
impl VxArchive {
    pub uninterp spec fn members(&self) -> Seq<VxResult<VxObject>>;
    #[verifier::external_body] pub fn vx_object_count(&self) -> (r: usize) ensures r == self.members().len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_objects(&self) -> (r: VxIter<VxResult<VxObject>>) ensures r.pos() == 0, r.seq() == self.members() { unimplemented!() }
    #[verifier::external_body] pub fn vx_object_by_index(&self, i: usize) -> (r: VxResult<Option<VxObject>>)
        ensures i >= self.members().len() ==> r == Ok::<Option<VxObject>, VxErr>(None),
            i < self.members().len() ==> match r { Ok(o) => o is Some && self.members()[i as int] == Ok::<VxObject, VxErr>(o->0), Err(_) => self.members()[i as int] is Err }
    { unimplemented!() }
}
impl VxView for VxObject { type V = VxObject; open spec fn vv(&self) -> VxObject { *self } }
impl VxView for VxResult<VxObject> { type V = Option<VxObject>; open spec fn vv(&self) -> Option<VxObject> { match *self { Ok(o) => Some(o), Err(_) => None } } }
/// the member if it can be read
pub open spec fn readable() -> spec_fn(Option<VxObject>) -> Option<VxObject> { |x: Option<VxObject>| x }
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn vx_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| self.pos() <= i < self.seq().len() ==> f.requires((&#[trigger] self.seq()[i],))
        ensures self.ok(), match r {
            Some(x) => exists|i: int| self.pos() <= i < self.seq().len() && #[trigger] self.seq()[i] == x && f.ensures((&x,), true) && forall|j: int| self.pos() <= j < i ==> f.ensures((&#[trigger] self.seq()[j],), false),
            None => forall|j: int| self.pos() <= j < self.seq().len() ==> f.ensures((&#[trigger] self.seq()[j],), false) }
    { unimplemented!() }
}
