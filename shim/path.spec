# Shim: std::path and file-system queries (assumed contracts). A path is its text; the files that
# exist do not change while a function under contract looks at them.
@path Path => VxPath
@path PathBuf => VxPath
@path PathBuf::from => vx_path_from
@path Path::new => vx_path_new
@path PathBuf::new => vx_path_empty
@path OsStr => VxOs
@path fs::canonicalize => vx_canonicalize
@path utils::* => 
@path crate::utils::* => 
@method extension set_extension with_extension file_name with_file_name parent join components peekable peek cloned to_str to_string_lossy is_file exists is_dir to_path_buf as_os_str display
@raw
#[verifier::external_body]
pub struct VxPath { _p: u8 }
#[verifier::external_body]
pub struct VxOs { _p: u8 }
impl VxPath { pub uninterp spec fn text(&self) -> Seq<char>; pub uninterp spec fn utf8(&self) -> bool; }
impl VxOs { pub uninterp spec fn text(&self) -> Seq<char>; pub uninterp spec fn utf8(&self) -> bool; }
pub uninterp spec fn ext_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn with_ext(p: Seq<char>, e: Seq<char>) -> Seq<char>;
pub uninterp spec fn name_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn with_name(p: Seq<char>, n: Seq<char>) -> Seq<char>;
pub uninterp spec fn parent_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn fs_is_file(p: Seq<char>) -> bool;
pub uninterp spec fn fs_exists(p: Seq<char>) -> bool;
pub uninterp spec fn fs_is_dir(p: Seq<char>) -> bool;
pub uninterp spec fn fs_real_path(p: Seq<char>) -> Option<Seq<char>>;
pub trait VxPathArg { spec fn ptext(&self) -> Seq<char>; spec fn putf8(&self) -> bool; }
impl VxPathArg for str { open spec fn ptext(&self) -> Seq<char> { self@ } open spec fn putf8(&self) -> bool { true } }
impl VxPathArg for String { open spec fn ptext(&self) -> Seq<char> { self@ } open spec fn putf8(&self) -> bool { true } }
impl VxPathArg for VxPath { open spec fn ptext(&self) -> Seq<char> { self.text() } open spec fn putf8(&self) -> bool { self.utf8() } }
impl VxPathArg for VxOs { open spec fn ptext(&self) -> Seq<char> { self.text() } open spec fn putf8(&self) -> bool { self.utf8() } }
impl<T: VxPathArg + ?Sized> VxPathArg for &T { open spec fn ptext(&self) -> Seq<char> { (**self).ptext() } open spec fn putf8(&self) -> bool { (**self).putf8() } }
#[verifier::external_body]
pub fn vx_path_from<A: VxPathArg>(a: A) -> (r: VxPath)
    ensures r.text() == a.ptext(), r.utf8() == a.putf8()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_path_new<A: VxPathArg + ?Sized>(a: &A) -> (r: &VxPath)
    ensures r.text() == a.ptext(), r.utf8() == a.putf8()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_path_empty() -> (r: VxPath)
    ensures r.text() == Seq::<char>::empty(), r.utf8()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_canonicalize<A: VxPathArg>(a: A) -> (r: VxResult<VxPath>)
    ensures match r { Ok(p) => fs_real_path(a.ptext()) == Some(p.text()), Err(_) => fs_real_path(a.ptext()) is None }
{ unimplemented!() }
impl VxPath {
    #[verifier::external_body]
    pub fn vx_extension(&self) -> (r: Option<&VxOs>)
        ensures match r { Some(e) => ext_of(self.text()) == Some(e.text()) && (self.utf8() ==> e.utf8()), None => ext_of(self.text()) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set_extension<A: VxPathArg>(&mut self, e: A) -> (r: bool)
        ensures final(self).text() == with_ext(old(self).text(), e.ptext()), old(self).utf8() && e.putf8() ==> final(self).utf8()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_with_extension<A: VxPathArg>(&self, e: A) -> (r: VxPath)
        ensures r.text() == with_ext(self.text(), e.ptext()), self.utf8() && e.putf8() ==> r.utf8()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_file_name(&self) -> (r: Option<&VxOs>)
        ensures match r { Some(e) => name_of(self.text()) == Some(e.text()) && (self.utf8() ==> e.utf8()), None => name_of(self.text()) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_with_file_name<A: VxPathArg>(&self, e: A) -> (r: VxPath)
        ensures r.text() == with_name(self.text(), e.ptext()), self.utf8() && e.putf8() ==> r.utf8()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_parent(&self) -> (r: Option<&VxPath>)
        ensures match r { Some(e) => parent_of(self.text()) == Some(e.text()) && (self.utf8() ==> e.utf8()), None => parent_of(self.text()) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push<A: VxPathArg>(&mut self, e: A)
        ensures final(self).text() == path_join(old(self).text(), e.ptext()), old(self).utf8() && e.putf8() ==> final(self).utf8()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_join<A: VxPathArg>(&self, e: A) -> (r: VxPath)
        ensures r.text() == path_join(self.text(), e.ptext()), self.utf8() && e.putf8() ==> r.utf8()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_file(&self) -> (r: bool) ensures r == fs_is_file(self.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_exists(&self) -> (r: bool) ensures r == fs_exists(self.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_dir(&self) -> (r: bool) ensures r == fs_is_dir(self.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_path_buf(&self) -> (r: VxPath) ensures r.text() == self.text(), r.utf8() == self.utf8() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_str(&self) -> (r: Option<&str>)
        ensures match r { Some(s) => self.utf8() && s@ == self.text(), None => !self.utf8() }
    { unimplemented!() }
    /// (the replacement character stands for what is not UTF-8)
    #[verifier::external_body]
    pub fn vx_to_string_lossy(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &VxPath) ensures r.text() == self.text(), r.utf8() == self.utf8() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_components(&self) -> (r: VxIter<Component>)
        ensures r.pos() == 0, r.seq().len() == comps_of(self.text()).len(), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).cv() == comps_of(self.text())[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool)
        ensures comps_of(final(self).text()) == popped(comps_of(old(self).text())), canon(old(self).text()) ==> canon(final(self).text())
    { unimplemented!() }
}
impl VxOs {
    #[verifier::external_body]
    pub fn vx_to_str(&self) -> (r: Option<&str>)
        ensures match r { Some(s) => self.utf8() && s@ == self.text(), None => !self.utf8() }
    { unimplemented!() }
}
// ---------------------------------------------------------------- components
pub enum Component { Prefix(VxOs), RootDir, CurDir, ParentDir, Normal(VxOs) }
pub enum Comp { Prefix(Seq<char>), Root, Cur, Parent, Normal(Seq<char>) }
impl Component {
    pub open spec fn cv(&self) -> Comp {
        match self { Component::Prefix(p) => Comp::Prefix(p.text()), Component::RootDir => Comp::Root, Component::CurDir => Comp::Cur, Component::ParentDir => Comp::Parent, Component::Normal(n) => Comp::Normal(n.text()) }
    }
    #[verifier::external_body]
    pub fn vx_as_os_str(&self) -> (r: &VxOs) ensures r.text() == comp_text(self.cv()) { unimplemented!() }
}
/// the components of a path (std::path::Path::components)
pub uninterp spec fn comps_of(p: Seq<char>) -> Seq<Comp>;
/// the text of a path that was put together from components
pub uninterp spec fn render(c: Seq<Comp>) -> Seq<char>;
pub open spec fn canon(p: Seq<char>) -> bool { p == render(comps_of(p)) }
pub uninterp spec fn root_text() -> Seq<char>;
pub open spec fn comp_text(c: Comp) -> Seq<char> {
    match c { Comp::Prefix(p) => p, Comp::Root => root_text(), Comp::Cur => "."@, Comp::Parent => ".."@, Comp::Normal(n) => n }
}
/// std's documented shape: a prefix only first, the root only first or right after a prefix
pub open spec fn comps_shape(s: Seq<Comp>) -> bool {
    &&& forall|i: int| 0 < i < s.len() ==> !((#[trigger] s[i]) is Prefix)
    &&& forall|i: int| 0 < i < s.len() && (#[trigger] s[i]) is Root ==> i == 1 && s[0] is Prefix
}
/// (std) the shape of the components; what joining one more component does
#[verifier::external_body]
pub proof fn axiom_comps()
    ensures forall|p: Seq<char>| comps_shape(#[trigger] comps_of(p)), comps_of(Seq::<char>::empty()) == Seq::<Comp>::empty(),
        forall|q: Seq<char>, i: int, p: Seq<char>| 0 <= i < comps_of(q).len() && (#[trigger] comps_of(q)[i]) is Normal ==> comps_of(#[trigger] path_join(p, comp_text(comps_of(q)[i]))) == comps_of(p).push(comps_of(q)[i]),
        forall|p: Seq<char>| comps_of(#[trigger] path_join(p, root_text())) == (if comps_of(p).len() > 0 && comps_of(p)[0] is Prefix { seq![comps_of(p)[0], Comp::Root] } else { seq![Comp::Root] }),
        forall|q: Seq<char>| comps_of(q).len() > 0 && (#[trigger] comps_of(q)[0]) is Prefix ==> comps_of(comp_text(comps_of(q)[0])) == seq![comps_of(q)[0]] && canon(comp_text(comps_of(q)[0])),
        // a path put together from components is spelled in one way
        canon(Seq::<char>::empty()),
        forall|q: Seq<char>, i: int, p: Seq<char>| 0 <= i < comps_of(q).len() && (#[trigger] comps_of(q)[i]) is Normal && canon(p) ==> canon(#[trigger] path_join(p, comp_text(comps_of(q)[i]))),
        forall|p: Seq<char>| canon(p) ==> canon(#[trigger] path_join(p, root_text())),
{ }
/// pop removes the last component unless it is the root or a prefix
pub open spec fn popped(s: Seq<Comp>) -> Seq<Comp> {
    if s.len() > 0 && !(s.last() is Root) && !(s.last() is Prefix) { s.drop_last() } else { s }
}
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn vx_peekable(self) -> (r: VxIter<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peek(&mut self) -> (r: Option<&T>)
        ensures *final(self) == *old(self), old(self).ok(), match r { Some(x) => old(self).pos() < old(self).seq().len() && *x == old(self).seq()[old(self).pos()], None => old(self).pos() == old(self).seq().len() }
    { unimplemented!() }
}
pub trait VxCloned<T> { spec fn clv(&self) -> Option<T>; fn vx_cloned(self) -> (r: Option<T>) where Self: Sized ensures r == self.clv(); }
impl<'a, T> VxCloned<T> for Option<&'a T> {
    open spec fn clv(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
}
