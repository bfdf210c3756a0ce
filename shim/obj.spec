# Shim: symbolic's and goblin's view of an object file (assumed contracts): a parsed object is a function of its bytes.
@include usize.spec
@include arch.spec
@include pe0.spec
@include dwarf.spec
@path Object => VxObject
@path Object::parse => vx_object_parse
@path goblin::Object::* => VxGoblin
@path goblin::Object::parse => vx_goblin_parse
@path lzma_rs::xz_decompress => vx_xz_decompress
@path AsciiCfiWriter => VxCfiWriter
@method debug_session code_id arch has_debug_info has_unwind_info file_format exception_data data is_executable get_at process rsplit to_uppercase or_else
@raw
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
/// the part after the last c
pub open spec fn last_piece(s: Seq<char>, c: char, t: Seq<char>) -> bool {
    t.len() <= s.len() && t == s.subrange(s.len() - t.len(), s.len() as int) && !has_char(t, c) && (t.len() < s.len() ==> s[s.len() - t.len() - 1] == c)
}
/// the same for any pattern of one char
pub open spec fn last_cell<P: VxPat>(s: Seq<char>, p: P, t: Seq<char>) -> bool {
    t.len() <= s.len() && t == s.subrange(s.len() - t.len(), s.len() as int) && nowhere(p, t) && (t.len() < s.len() ==> pat_at(p, s, s.len() - t.len() - 1))
}
pub trait VxStr2 {
    spec fn sv2(&self) -> Seq<char>;
    fn vx_rsplit<P: VxPat>(&self, p: P) -> (r: VxIter<&str>) ensures r.pos() == 0, r.seq().len() > 0, p.vx_n() == 1 ==> last_cell(self.sv2(), p, r.seq()[0]@);
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == upper(self.sv2());
}
impl VxStr2 for str {
    open spec fn sv2(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_rsplit<P: VxPat>(&self, p: P) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
}
pub trait VxOpt2<T> { spec fn ov2(&self) -> Option<T>;
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.ov2() is None ==> f.requires(())
        ensures match self.ov2() { Some(x) => r == Some(x), None => f.ensures((), r) };
}
impl<T> VxOpt2<T> for Option<T> {
    open spec fn ov2(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { unimplemented!() }
}
pub trait VxSliceGet<T> { spec fn sgv(&self) -> Seq<T>;
    fn vx_get(&self, i: core::ops::Range<usize>) -> (r: Option<&[T]>)
        ensures match r { Some(s) => i.start <= i.end <= self.sgv().len() && s@ == self.sgv().subrange(i.start as int, i.end as int), None => !(i.start <= i.end <= self.sgv().len()) };
}
impl<T> VxSliceGet<T> for [T] {
    open spec fn sgv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_get(&self, i: core::ops::Range<usize>) -> (r: Option<&[T]>) { unimplemented!() }
}
/// Option<&str>.map(ToOwned::to_owned)
#[verifier::external_body]
pub fn vx_opt_owned(o: Option<&str>) -> (r: Option<String>) ensures match o { Some(x) => r is Some && (r->0)@ == x@, None => r is None } { unimplemented!() }
impl VxDisp for VxBreakpad { open spec fn vx_text(&self) -> Seq<char> { self.text() } open spec fn vx_disp_ok(&self) -> bool { true } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum FileFormat { Unknown, Breakpad, Elf, MachO, Pdb, Pe, SourceBundle, Wasm, PortablePdb }
#[verifier::external_body]
pub struct VxCodeId { _p: u8 }
impl VxCodeId {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
pub open spec fn codev(o: Option<VxCodeId>) -> Option<Seq<char>> { match o { Some(c) => Some(c.text()), None => None } }
#[verifier::external_body] pub struct VxOther { _p: u8 }
#[verifier::external_body] pub struct VxPdb { _p: u8 }
#[verifier::external_body] pub struct VxElf { _p: u8 }
#[verifier::external_body] pub struct VxMachO { _p: u8 }
pub open spec fn otext(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
impl VxElf { pub uninterp spec fn own_name(&self) -> Option<Seq<char>>; #[verifier::external_body] pub fn name(&self) -> (r: Option<&str>) ensures otext(r) == self.own_name() { unimplemented!() } }
impl VxMachO { pub uninterp spec fn own_name(&self) -> Option<Seq<char>>; #[verifier::external_body] pub fn name(&self) -> (r: Option<&str>) ensures otext(r) == self.own_name() { unimplemented!() } }
pub uninterp spec fn pdb_id(p: VxPdb) -> VxId;
impl VxPe {
    pub uninterp spec fn exceptions(&self) -> Option<VxExceptionData>;
    #[verifier::external_body] pub fn vx_exception_data(&self) -> (r: Option<&VxExceptionData>) ensures match r { Some(e) => self.exceptions() == Some(*e), None => self.exceptions() is None } { unimplemented!() }
}
pub enum VxObject { Breakpad(VxOther), Elf(VxElf), MachO(VxMachO), Pdb(VxPdb), Pe(VxPe), SourceBundle(VxOther), Wasm(VxOther), PortablePdb(VxOther) }
impl VxObject {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn syms(&self) -> Seq<VxSym>;
    /// the functions of the debug information, if it can be read
    pub uninterp spec fn funs(&self) -> Option<Seq<VxResult<VxFunction<'static>>>>;
    pub uninterp spec fn other_id(&self) -> VxId;
    pub open spec fn id(&self) -> VxId { match *self { VxObject::Pe(p) => p.v().id, VxObject::Pdb(p) => pdb_id(p), _ => self.other_id() } }
    pub uninterp spec fn code(&self) -> Option<Seq<char>>;
    pub uninterp spec fn cpu(&self) -> VxArch;
    pub uninterp spec fn debug(&self) -> bool;
    pub uninterp spec fn unwind(&self) -> bool;
    /// the records the CFI writer makes of it (all that can be converted)
    pub uninterp spec fn cfi(&self) -> Seq<char>;
    pub open spec fn format(&self) -> FileFormat {
        match *self { VxObject::Breakpad(_) => FileFormat::Breakpad, VxObject::Elf(_) => FileFormat::Elf, VxObject::MachO(_) => FileFormat::MachO, VxObject::Pdb(_) => FileFormat::Pdb,
            VxObject::Pe(_) => FileFormat::Pe, VxObject::SourceBundle(_) => FileFormat::SourceBundle, VxObject::Wasm(_) => FileFormat::Wasm, VxObject::PortablePdb(_) => FileFormat::PortablePdb }
    }
    #[verifier::external_body] pub fn vx_symbols(&self) -> (r: VxIter<VxSym>) ensures r.pos() == 0, r.seq() == self.syms() { unimplemented!() }
    #[verifier::external_body] pub fn vx_data(&self) -> (r: &[u8]) ensures r@ == self.bytes(), r@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn vx_debug_session(&self) -> (r: VxResult<VxSession>) ensures match r { Ok(s) => self.funs() == Some(s.funs()), Err(_) => self.funs() is None } { unimplemented!() }
    #[verifier::external_body] pub fn vx_debug_id(&self) -> (r: VxId) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn vx_code_id(&self) -> (r: Option<VxCodeId>) ensures codev(r) == self.code() { unimplemented!() }
    #[verifier::external_body] pub fn vx_arch(&self) -> (r: VxArch) ensures r == self.cpu() { unimplemented!() }
    #[verifier::external_body] pub fn vx_has_debug_info(&self) -> (r: bool) ensures r == self.debug() { unimplemented!() }
    #[verifier::external_body] pub fn vx_has_unwind_info(&self) -> (r: bool) ensures r == self.unwind() { unimplemented!() }
    #[verifier::external_body] pub fn vx_file_format(&self) -> (r: FileFormat) ensures r == self.format() { unimplemented!() }
}
/// what Object::parse makes of bytes
pub uninterp spec fn object_of(b: Seq<u8>) -> Option<VxObject>;
#[verifier::external_body]
pub fn vx_object_parse<B: VxBuffer + ?Sized>(b: &B) -> (r: VxResult<VxObject>)
    ensures match r { Ok(o) => object_of(b.bv()) == Some(o) && o.bytes() == b.bv(), Err(_) => object_of(b.bv()) is None }
{ unimplemented!() }
// ---------------------------------------------------------------- goblin
pub struct VxShdr { pub sh_name: usize, pub sh_addr: u64, pub sh_offset: u64, pub sh_size: u64, pub sh_flags: u64 }
impl VxShdr {
    #[verifier::external_body] pub fn vx_is_executable(&self) -> (r: bool) ensures r == self.exec() { unimplemented!() }
    pub open spec fn exec(&self) -> bool { self.sh_flags & 4 == 4 }
}
#[verifier::external_body]
pub struct VxStrtab { _p: u8 }
impl VxStrtab {
    pub uninterp spec fn at(&self, i: usize) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn vx_get_at(&self, i: usize) -> (r: Option<&str>) ensures otext(r) == self.at(i) { unimplemented!() }
}
pub struct VxGElf { pub section_headers: Vec<VxShdr>, pub shdr_strtab: VxStrtab }
pub enum VxGoblin { Elf(VxGElf), PE(VxOther), COFF(VxOther), TE(VxOther), Mach(VxOther), Archive(VxOther), Unknown(u64) }
pub uninterp spec fn goblin_of(b: Seq<u8>) -> Option<VxGoblin>;
#[verifier::external_body]
pub fn vx_goblin_parse(b: &[u8]) -> (r: VxResult<VxGoblin>)
    ensures match r { Ok(o) => goblin_of(b@) == Some(o), Err(_) => goblin_of(b@) is None }
{ unimplemented!() }
pub uninterp spec fn unxz(b: Seq<u8>) -> Option<Seq<u8>>;
/// decompresses the whole input; what is in `out` after a failure is unknown
#[verifier::external_body]
pub fn vx_xz_decompress(b: &mut &[u8], out: &mut Vec<u8>) -> (r: VxResult<()>)
    ensures match r { Ok(_) => unxz(old(b)@) is Some && final(out)@ == old(out)@ + unxz(old(b)@)->0, Err(_) => unxz(old(b)@) is None }
{ unimplemented!() }
// ---------------------------------------------------------------- unwind information
pub struct VxCfiWriter<'a> { pub b: &'a mut Vec<u8> }
impl<'a> VxCfiWriter<'a> {
    pub fn new(b: &'a mut Vec<u8>) -> (r: VxCfiWriter<'a>) ensures *r.b == *old(b), *final(r.b) == *final(b) { VxCfiWriter { b } }
    #[verifier::external_body]
    pub fn vx_process(&mut self, o: &VxObject) -> (r: VxResult<()>)
        ensures forall|t: Seq<char>| from_utf8(old(self).b@) == Some(t) ==> from_utf8(final(self).b@) == Some(#[trigger] (t + o.cfi())), *final(final(self).b) == *final(old(self).b)
    { unimplemented!() }
}
#[verifier::external_body]
pub proof fn axiom_no_bytes() ensures from_utf8(Seq::empty()) == Some(Seq::<char>::empty()) { }
