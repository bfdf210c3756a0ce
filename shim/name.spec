# Shim: symbolic's Name and its demangler, regular-expression replacement (assumed contracts).
@include replace.spec
@path Name => VxName
@path Name::new => vx_name_new
@path DemangleOptions => VxDemOpts
@path DemangleOptions::complete => vx_dem_complete
@path DemangleOptions::name_only => vx_dem_name_only
@path Regex::new => vx_regex
@method language mangling as_str demangle detect_language retain is_ascii_control is_control return_type parameters
@raw
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Language { Unknown, C, Cpp, D, Go, ObjC, ObjCpp, Rust, Swift, CSharp, VisualBasic, FSharp }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum NameMangling { Mangled, Unmangled, Unknown }
#[derive(Clone, Copy)]
pub struct VxDemOpts { pub return_type: bool, pub parameters: bool }
pub fn vx_dem_complete() -> (r: VxDemOpts) ensures r.return_type, r.parameters { VxDemOpts { return_type: true, parameters: true } }
pub fn vx_dem_name_only() -> (r: VxDemOpts) ensures !r.return_type, !r.parameters { VxDemOpts { return_type: false, parameters: false } }
impl VxDemOpts {
    pub fn vx_return_type(self, b: bool) -> (r: VxDemOpts) ensures r.return_type == b, r.parameters == self.parameters { VxDemOpts { return_type: b, parameters: self.parameters } }
    pub fn vx_parameters(self, b: bool) -> (r: VxDemOpts) ensures r.parameters == b, r.return_type == self.return_type { VxDemOpts { return_type: self.return_type, parameters: b } }
}
#[verifier::external_body]
pub struct VxName<'a> { _p: core::marker::PhantomData<&'a u8> }
/// what symbolic's demangler makes of a name
pub uninterp spec fn demangled(text: Seq<char>, m: NameMangling, l: Language, o: VxDemOpts) -> Option<Seq<char>>;
/// the language symbolic guesses from the spelling of a name of unknown language
pub uninterp spec fn guessed(text: Seq<char>, m: NameMangling, l: Language) -> Language;
impl<'a> VxName<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn lang(&self) -> Language;
    pub uninterp spec fn mang(&self) -> NameMangling;
    #[verifier::external_body]
    pub fn vx_language(&self) -> (r: Language) ensures r == self.lang() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mangling(&self) -> (r: NameMangling) ensures r == self.mang() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_demangle(&self, o: VxDemOpts) -> (r: Option<String>)
        ensures match r { Some(s) => demangled(self.text(), self.mang(), self.lang(), o) == Some(s@), None => demangled(self.text(), self.mang(), self.lang(), o) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_detect_language(&self) -> (r: Language) ensures r == guessed(self.text(), self.mang(), self.lang()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_name_new<'a, A: VxSeqStr>(a: A, m: NameMangling, l: Language) -> (r: VxName<'a>)
    ensures r.text() == a.sq(), r.mang() == m, r.lang() == l
{ unimplemented!() }
/// names are equal when text, mangling and language are
impl<'a> VxKey for VxName<'a> { type KV = (Seq<char>, NameMangling, Language); open spec fn kv(&self) -> (Seq<char>, NameMangling, Language) { (self.text(), self.mang(), self.lang()) } }

#[verifier::external_body]
pub struct VxRegex { _p: u8 }
/// s with the first match of the regular expression re replaced by q
pub uninterp spec fn re_replaced(re: Seq<char>, s: Seq<char>, q: Seq<char>) -> Seq<char>;
pub uninterp spec fn re_valid(re: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_regex(re: &str) -> (r: VxResult<VxRegex>)
    ensures match r { Ok(x) => x.re() == re@, Err(_) => !re_valid(re@) }
{ unimplemented!() }
impl VxRegex {
    pub uninterp spec fn re(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_replace(&self, s: &str, q: &str) -> (r: String) ensures r@ == re_replaced(self.re(), s@, q@) { unimplemented!() }
}
// ---------------------------------------------------------------- filtering
pub open spec fn is_ctl(c: char) -> bool { (c as u32) < 0x20 || c as u32 == 0x7f }
pub trait VxChar { spec fn cv(&self) -> char; fn vx_is_ascii_control(&self) -> (r: bool) ensures r == is_ctl(self.cv()); }
impl VxChar for char {
    open spec fn cv(&self) -> char { *self }
    #[verifier::external_body] fn vx_is_ascii_control(&self) -> (r: bool) { unimplemented!() }
}
/// the chars of s that g accepts
pub open spec fn kept(s: Seq<char>, g: spec_fn(char) -> bool) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else if g(s.last()) { kept(s.drop_last(), g).push(s.last()) } else { kept(s.drop_last(), g) }
}
pub proof fn lemma_kept(s: Seq<char>, g: spec_fn(char) -> bool)
    ensures forall|i: int| 0 <= i < kept(s, g).len() ==> g(#[trigger] kept(s, g)[i]), kept(s, g).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_kept(s.drop_last(), g);
        assert forall|i: int| 0 <= i < kept(s, g).len() implies g(#[trigger] kept(s, g)[i]) by { if i < kept(s.drop_last(), g).len() { assert(g(kept(s.drop_last(), g)[i])); } }
    }
}
pub open spec fn pred_fn_of<F: Fn(char) -> bool>(f: F, g: spec_fn(char) -> bool) -> bool { forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> g(c) == b }
pub trait VxRetain {
    spec fn rtv(&self) -> Seq<char>;
    fn vx_retain<F: Fn(char) -> bool>(&mut self, f: F)
        requires forall|c: char| f.requires((c,))
        ensures final(self).rtv().len() <= old(self).rtv().len(), forall|g: spec_fn(char) -> bool| pred_fn_of(f, g) ==> final(self).rtv() == #[trigger] kept(old(self).rtv(), g);
}
impl VxRetain for String {
    open spec fn rtv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_retain<F: Fn(char) -> bool>(&mut self, f: F) { unimplemented!() }
}
