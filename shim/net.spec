# Shim: home directory, files, urls and the http client of src/cache.rs (assumed contracts).
@path home_dir => vx_home_dir
@path Url::parse => vx_url_parse
@path File => VxFile
@path File::open => vx_file_open
@path File::create => vx_file_create
@path fs::File::create => vx_file_create
@path std::fs::File::create => vx_file_create
@path fs::create_dir_all => vx_create_dir_all
@path BufWriter::new => vx_bufwriter
@path io::BufWriter::new => vx_bufwriter
@path std::io::BufWriter::new => vx_bufwriter
@path blocking::Client::new => vx_client
@method read_to_end write_all get header send copy_to
@raw
pub uninterp spec fn home() -> Option<Seq<char>>;
/// (a home directory that is not UTF-8 makes dump_syms panic)
#[verifier::external_body]
pub fn vx_home_dir() -> (r: Option<VxPath>)
    ensures match r { Some(p) => home() == Some(p.text()) && p.utf8(), None => home() is None }
{ unimplemented!() }
pub uninterp spec fn url_valid(s: Seq<char>) -> bool;
#[verifier::external_body]
pub struct VxUrl { _p: u8 }
#[verifier::external_body]
pub fn vx_url_parse(s: &String) -> (r: VxResult<VxUrl>) ensures r is Ok == url_valid(s@) { unimplemented!() }
/// the bytes of a file
pub uninterp spec fn raw_bytes(p: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub struct VxFile { _p: u8 }
impl VxFile {
    pub uninterp spec fn path(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_read_to_end(&mut self, b: &mut Vec<u8>) -> (r: VxResult<usize>)
        ensures r is Ok ==> final(b)@ == old(b)@ + raw_bytes(old(self).path())
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_file_open<A: VxPathArg>(a: A) -> (r: VxResult<VxFile>)
    ensures r is Ok ==> (r->Ok_0).path() == a.ptext()
{ unimplemented!() }
/// the caller lets a function create (and truncate) the file only where this holds
pub uninterp spec fn may_create(p: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_file_create<A: VxPathArg>(a: A) -> (r: VxResult<VxFile>)
    requires may_create(a.ptext())
    ensures r is Ok ==> (r->Ok_0).path() == a.ptext()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_create_dir_all<A: VxPathArg>(a: A) -> (r: VxResult<()>) { unimplemented!() }
/// the file has received exactly these bytes
pub uninterp spec fn stored(p: Seq<char>, b: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct VxBufW { _p: u8 }
#[verifier::external_body]
pub fn vx_bufwriter(f: VxFile) -> (r: VxBufW) ensures r.path() == f.path(), r.accepted() == Seq::<u8>::empty() { unimplemented!() }
impl VxBufW {
    pub uninterp spec fn path(&self) -> Seq<char>;
    pub uninterp spec fn accepted(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn vx_write_all(&mut self, b: &[u8]) -> (r: VxResult<()>)
        ensures final(self).path() == old(self).path(), r is Ok ==> final(self).accepted() == old(self).accepted() + b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: VxResult<()>)
        ensures final(self).path() == old(self).path(), final(self).accepted() == old(self).accepted(), r is Ok ==> stored(old(self).path(), old(self).accepted())
    { unimplemented!() }
}
pub trait VxBytesStart { spec fn bsv(&self) -> Seq<u8>; fn vx_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == (p@.len() <= self.bsv().len() && self.bsv().subrange(0, p@.len() as int) == p@); }
impl VxBytesStart for [u8] { open spec fn bsv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_starts_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() } }
impl VxBytesStart for Vec<u8> { open spec fn bsv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_starts_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() } }
pub trait VxBytesEmpty { spec fn bev(&self) -> Seq<u8>; fn vx_is_empty(&self) -> (r: bool) ensures r == (self.bev().len() == 0); }
impl VxBytesEmpty for [u8] { open spec fn bev(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
/// what the server at the url answers to a GET
pub uninterp spec fn body(url: Seq<char>) -> Seq<u8>;
/// the status with which the server at the url answers a HEAD, if it answers
pub uninterp spec fn head_status(url: Seq<char>) -> Option<u16>;
pub open spec fn url_ok(url: Seq<char>) -> bool { head_status(url) == Some(200u16) }
/// the connection for a GET fails or breaks off
pub uninterp spec fn get_fails(url: Seq<char>) -> bool;
#[verifier::external_body]
pub struct VxClient { _p: u8 }
#[verifier::external_body]
pub struct VxReq { _p: u8 }
#[verifier::external_body]
pub struct VxResp { _p: u8 }
pub struct VxHeader { pub h: u8 }
pub const USER_AGENT: VxHeader = VxHeader { h: 0 };
#[verifier::external_body]
pub fn vx_client() -> (r: VxClient) { unimplemented!() }
impl VxClient { #[verifier::external_body] pub fn vx_get(&self, u: &String) -> (r: VxReq) ensures r.url() == u@ { unimplemented!() } }
impl VxReq {
    pub uninterp spec fn url(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_header(self, h: VxHeader, v: &str) -> (r: VxReq) ensures r.url() == self.url() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_send(self) -> (r: VxResult<VxResp>) ensures r is Ok ==> (r->Ok_0).url() == self.url(), r is Err ==> get_fails(self.url()) { unimplemented!() }
}
impl VxResp {
    pub uninterp spec fn url(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_copy_to(&mut self, b: &mut Vec<u8>) -> (r: VxResult<u64>) ensures r is Ok ==> final(b)@ == old(b)@ + body(old(self).url()), r is Err ==> get_fails(old(self).url()) { unimplemented!() }
}
