# Shim: byte slices of the debug data, pointers to them, Cow<str> and symbolic's FileInfo.
# A VxBytes is a `&[u8]`; it is `stable` when the bytes live as long as the debug data does.
@include text.spec
@typemap &[u8] => VxBytes
@typemap *const u8 => VxPtr
@typemap &FileInfo => &VxFileInfo
@path Cow => VxCow
@method as_ptr as_bytes
@raw
#[verifier::external_body]
pub struct VxBytes { _p: u8 }
#[verifier::external_body]
pub struct VxPtr { _p: u8 }
impl Clone for VxBytes { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for VxBytes {}
/// the bytes at an address of the debug data (which is never moved or changed)
pub uninterp spec fn in_data(p: VxPtr, n: usize) -> bool;
pub uninterp spec fn mem(p: VxPtr, n: usize) -> Seq<u8>;
impl VxBytes {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn stable(&self) -> bool;
    #[verifier::external_body]
    pub fn vx_as_ptr(&self) -> (r: VxPtr)
        ensures forall|n: usize| n == self.bytes().len() ==> (self.stable() ==> #[trigger] in_data(r, n)) && (#[trigger] in_data(r, n) ==> mem(r, n) == self.bytes())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.bytes().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&u8>)
        ensures match r { Some(x) => self.bytes().len() > 0 && *x == self.bytes().last(), None => self.bytes().len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self.bytes()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIter<&u8>)
        ensures r.pos() == 0, r.seq().len() == self.bytes().len(), forall|i: int| 0 <= i < r.seq().len() ==> *(#[trigger] r.seq()[i]) == self.bytes()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.bytes().len() == 0)
    { unimplemented!() }
}
/// the text of bytes read as UTF-8, or byte by byte (Latin-1) when they are not valid UTF-8
pub open spec fn text_of(b: Seq<u8>) -> Seq<char> {
    match from_utf8(b) { Some(s) => s, None => Seq::new(b.len(), |i: int| b[i] as char) }
}
impl VxCollect<char> for String { open spec fn vx_collected(&self, s: Seq<char>) -> bool { self@ == s } }
/// the UTF-8 bytes of a text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_utf8(s: Seq<char>, t: Seq<char>)
    ensures utf8(s) == utf8(t) ==> s == t
{ }
/// the bytes of a string: the last one is '\n' exactly when the last char is
pub trait VxAsBytes { spec fn abv(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: VxBytes)
    ensures r.bytes() == utf8(self.abv()), (r.bytes().len() == 0) == (self.abv().len() == 0), self.abv().len() > 0 ==> (r.bytes().last() == 10u8) == (self.abv().last() == '\n'); }
impl VxAsBytes for String {
    open spec fn abv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: VxBytes) { unimplemented!() }
}
pub enum VxCow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> VxCow<'a> {
    pub open spec fn text(&self) -> Seq<char> { match self { VxCow::Borrowed(s) => s@, VxCow::Owned(s) => s@ } }
    /// borrowed text points into the debug data; owned text is temporary
    #[verifier::external_body]
    pub fn vx_as_bytes(&self) -> (r: VxBytes)
        ensures r.bytes() == utf8(self.text()), self is Borrowed ==> r.stable()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> (r: String)
        ensures r@ == self.text()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_str(&self) -> (r: &str)
        ensures r@ == self.text()
    { unimplemented!() }
}
/// symbolic::debuginfo::FileInfo: a directory and a name
#[verifier::external_body]
pub struct VxFileInfo { _p: u8 }
impl VxFileInfo {
    pub uninterp spec fn dir(&self) -> Seq<char>;
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn dir_str(&self) -> (r: VxCow<'_>) ensures r.text() == self.dir() { unimplemented!() }
    #[verifier::external_body]
    pub fn name_str(&self) -> (r: VxCow<'_>) ensures r.text() == self.name() { unimplemented!() }
}
impl<'a> VxSeqStr for VxCow<'a> { open spec fn sq(&self) -> Seq<char> { self.text() } }
