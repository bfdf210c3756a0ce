# Shim: directories, file sizes and cabinets as src/utils.rs reads them (assumed contracts).
@include usize.spec
@path fs::metadata => vx_metadata
@path std::fs::metadata => vx_metadata
@path fs::read_dir => vx_read_dir
@path std::fs::read_dir => vx_read_dir
@path Metadata => VxMeta
@path Cabinet<Cursor<&Vec<u8>>> => VxCab
@path Cabinet => VxCab
@path Cabinet::new => vx_cab_new
@path Cursor::new => vx_cursor
@method read_file folder_entries file_entries
@raw
/// the size and kind of a file
#[verifier::external_body]
pub struct VxMeta { _p: u8 }
impl VxMeta {
    pub uninterp spec fn dir(&self) -> bool;
    #[verifier::external_body] pub fn vx_is_dir(&self) -> (r: bool) ensures r == self.dir() { unimplemented!() }
    /// (no file is larger than an off_t)
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r <= i64::MAX { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_metadata<A: VxPathArg>(a: A) -> (r: VxResult<VxMeta>)
    ensures r is Ok == fs_exists(a.ptext()), r is Ok ==> (r->Ok_0).dir() == fs_is_dir(a.ptext())
{ unimplemented!() }
/// the entries of a directory (None: one that cannot be read)
pub uninterp spec fn dir_entries(p: Seq<char>) -> Seq<Option<Seq<char>>>;
#[verifier::external_body]
pub struct VxDirEntry { _p: u8 }
impl VxDirEntry {
    pub uninterp spec fn at(&self) -> Seq<char>;
    #[verifier::external_body] pub fn metadata(&self) -> (r: VxResult<VxMeta>) { unimplemented!() }
    /// (file names are UTF-8)
    #[verifier::external_body] pub fn path(&self) -> (r: VxPath) ensures r.text() == self.at(), r.utf8() { unimplemented!() }
}
pub open spec fn dirent_at(e: VxResult<VxDirEntry>) -> Option<Seq<char>> { match e { Ok(x) => Some(x.at()), Err(_) => None } }
#[verifier::external_body]
pub fn vx_read_dir<A: VxPathArg>(a: A) -> (r: VxResult<VxIter<VxResult<VxDirEntry>>>)
    ensures r matches Ok(i) ==> i.pos() == 0 && i.seq().len() == dir_entries(a.ptext()).len() && forall|k: int| 0 <= k < i.seq().len() ==> dirent_at(#[trigger] i.seq()[k]) == dir_entries(a.ptext())[k]
{ unimplemented!() }
// ---------------------------------------------------------------- cabinets
#[verifier::external_body]
pub struct VxCab { _p: u8 }
#[verifier::external_body]
pub struct VxFolder { _p: u8 }
#[verifier::external_body]
pub struct VxCabFile { _p: u8 }
#[verifier::external_body]
pub struct VxCabReader { _p: u8 }
pub struct VxCabV { pub folders: Seq<Seq<Seq<char>>>, pub id: int }
/// the cabinet that bytes are, if they are one
pub uninterp spec fn cab_of(b: Seq<u8>) -> Option<VxCabV>;
/// the content of the (first) member of that name
pub uninterp spec fn cab_read(c: VxCabV, name: Seq<char>) -> Option<Seq<u8>>;
impl VxCabFile {
    pub uninterp spec fn named(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.named() { unimplemented!() }
    #[verifier::external_body] pub fn uncompressed_size(&self) -> (r: u32) { unimplemented!() }
}
pub open spec fn names_in(s: Seq<VxCabFile>) -> Seq<Seq<char>> { s.map_values(|f: VxCabFile| f.named()) }
impl VxFolder {
    pub uninterp spec fn names(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn vx_file_entries(&self) -> (r: VxIter<&VxCabFile>)
        ensures r.pos() == 0, r.seq().len() == self.names().len(), forall|k: int| 0 <= k < r.seq().len() ==> (#[trigger] r.seq()[k]).named() == self.names()[k] { unimplemented!() }
}
impl VxCab {
    pub uninterp spec fn v(&self) -> VxCabV;
    #[verifier::external_body] pub fn vx_folder_entries(&self) -> (r: VxIter<&VxFolder>)
        ensures r.pos() == 0, r.seq().len() == self.v().folders.len(), forall|k: int| 0 <= k < r.seq().len() ==> (#[trigger] r.seq()[k]).names() == self.v().folders[k] { unimplemented!() }
    #[verifier::external_body] pub fn vx_read_file(&mut self, name: &str) -> (r: VxResult<VxCabReader>)
        ensures final(self).v() == old(self).v(), match r { Ok(x) => x.data() == cab_read(old(self).v(), name@), Err(_) => cab_read(old(self).v(), name@) is None } { unimplemented!() }
}
impl VxCabReader {
    pub uninterp spec fn data(&self) -> Option<Seq<u8>>;
    #[verifier::external_body] pub fn vx_read_to_end(&mut self, b: &mut Vec<u8>) -> (r: VxResult<usize>)
        ensures match old(self).data() { Some(d) => r is Ok && final(b)@ == old(b)@ + d, None => r is Err } { unimplemented!() }
}
pub struct VxCursor { pub ghost b: Seq<u8> }
#[verifier::external_body]
pub fn vx_cursor(b: &Vec<u8>) -> (r: VxCursor) ensures r.b == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cab_new(c: VxCursor) -> (r: VxResult<VxCab>)
    ensures match r { Ok(x) => cab_of(c.b) == Some(x.v()), Err(_) => cab_of(c.b) is None }
{ unimplemented!() }
impl VxEq for VxOs { open spec fn vx_same(&self, o: &VxOs) -> bool { self.text() == o.text() } }
