# Shim: str and String (assumed contracts). A string is its sequence of chars; byte offsets are
# related to char positions by at_byte.
@method contains starts_with ends_with find rfind split_once rsplit_once trim_end_matches trim_start_matches strip_prefix strip_suffix parse split_at is_char_boundary to_lowercase trim as_str to_owned eq_ignore_ascii_case
@path String::from => vx_string_from
@raw
pub trait VxPat {
    /// the pattern occurs in s at char position k
    spec fn vx_m(&self, s: Seq<char>, k: int) -> bool;
    /// its length there
    spec fn vx_n(&self) -> nat;
    /// its text if it is one
    open spec fn vx_lit(&self) -> Option<Seq<char>> { None }
}
pub open spec fn occurs(p: Seq<char>, s: Seq<char>, k: int) -> bool {
    0 <= k && k + p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> s[k + i] == #[trigger] p[i]
}
impl VxPat for char {
    open spec fn vx_m(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && s[k] == *self }
    open spec fn vx_n(&self) -> nat { 1 }
}
impl<'a> VxPat for &'a str {
    open spec fn vx_m(&self, s: Seq<char>, k: int) -> bool { occurs(self@, s, k) }
    open spec fn vx_n(&self) -> nat { self@.len() }
    open spec fn vx_lit(&self) -> Option<Seq<char>> { Some(self@) }
}
impl<'a> VxPat for &'a String {
    open spec fn vx_m(&self, s: Seq<char>, k: int) -> bool { occurs(self@, s, k) }
    open spec fn vx_n(&self) -> nat { self@.len() }
    open spec fn vx_lit(&self) -> Option<Seq<char>> { Some(self@) }
}
impl<const N: usize> VxPat for [char; N] {
    open spec fn vx_m(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && self@.contains(s[k]) }
    open spec fn vx_n(&self) -> nat { 1 }
}
/// the pattern occurs in s
pub open spec fn found<P: VxPat>(p: P, s: Seq<char>) -> bool { exists|k: int| #[trigger] p.vx_m(s, k) }
pub open spec fn pat_at<P: VxPat>(p: P, s: Seq<char>, k: int) -> bool { p.vx_m(s, k) }
pub open spec fn nowhere<P: VxPat>(p: P, s: Seq<char>) -> bool { forall|k: int| !#[trigger] pat_at(p, s, k) }
pub open spec fn last_at<P: VxPat>(p: P, s: Seq<char>, k: int) -> bool { pat_at(p, s, k) && forall|j: int| j > k ==> !#[trigger] pat_at(p, s, j) }
/// the UTF-8 length of a char
pub open spec fn char_width(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn byte_len(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { byte_len(s.drop_last()) + char_width(s.last()) }
}
/// byte offset b of s is the char position k
pub open spec fn at_byte(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && byte_len(s.subrange(0, k)) == b }
/// a byte offset identifies one char position
pub proof fn lemma_byte_len_mono(s: Seq<char>, j: int, k: int)
    requires 0 <= j < k <= s.len()
    ensures byte_len(s.subrange(0, j)) + (k - j) <= byte_len(s.subrange(0, k))
    decreases k - j
{
    assert(s.subrange(0, k).drop_last() =~= s.subrange(0, k - 1));
    if j < k - 1 { lemma_byte_len_mono(s, j, k - 1); }
}
pub proof fn lemma_at_next(s: Seq<char>, b: int, k: int)
    requires at_byte(s, b, k), k < s.len()
    ensures at_byte(s, b + char_width(s[k]), k + 1)
{ assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); }
pub proof fn lemma_at_byte_unique(s: Seq<char>, b: int, j: int, k: int)
    requires at_byte(s, b, j), at_byte(s, b, k)
    ensures j == k
{
    if j < k { lemma_byte_len_mono(s, j, k); }
    if k < j { lemma_byte_len_mono(s, k, j); }
}
/// s without its longest suffix of pattern chars
pub open spec fn trim_end<P: VxPat>(p: P, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && p.vx_m(s, s.len() - 1) { trim_end(p, s.drop_last()) } else { s }
}
pub open spec fn trim_start<P: VxPat>(p: P, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && p.vx_m(s, 0) { trim_start(p, s.subrange(1, s.len() as int)) } else { s }
}
pub open spec fn cut_at<P: VxPat>(p: P, s: Seq<char>, k: int, a: Seq<char>, b: Seq<char>) -> bool {
    p.vx_m(s, k) && a == s.subrange(0, k) && b == s.subrange(k + p.vx_n(), s.len() as int)
}
/// s is cut at the first / the last occurrence of the pattern
pub open spec fn first_cut<P: VxPat>(p: P, s: Seq<char>, k: int, a: Seq<char>, b: Seq<char>) -> bool {
    cut_at(p, s, k, a, b) && forall|j: int| j < k ==> !#[trigger] p.vx_m(s, j)
}
pub open spec fn last_cut<P: VxPat>(p: P, s: Seq<char>, k: int, a: Seq<char>, b: Seq<char>) -> bool {
    cut_at(p, s, k, a, b) && forall|j: int| j > k ==> !#[trigger] p.vx_m(s, j)
}
pub trait VxParse: Sized { spec fn vx_parsed(s: Seq<char>) -> Option<Self>; }
/// the value str::parse::<u32> gives (optional sign +, decimal digits, at most u32::MAX)
pub uninterp spec fn parsed_u32(s: Seq<char>) -> Option<u32>;
pub uninterp spec fn parsed_usize(s: Seq<char>) -> Option<usize>;
impl VxParse for u32 { open spec fn vx_parsed(s: Seq<char>) -> Option<u32> { parsed_u32(s) } }
impl VxParse for usize { open spec fn vx_parsed(s: Seq<char>) -> Option<usize> { parsed_usize(s) } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
/// char::is_whitespace
pub uninterp spec fn is_ws(c: char) -> bool;
#[verifier::external_body]
pub proof fn axiom_ws() ensures is_ws(' '), is_ws('\n'), forall|c: char| 'A' <= c <= 'Z' ==> !#[trigger] is_ws(c) { }
pub open spec fn ws_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { ws_start(s.subrange(1, s.len() as int)) } else { s } }
pub open spec fn ws_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { ws_end(s.drop_last()) } else { s } }
/// s without leading and trailing white space
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { ws_end(ws_start(s)) }
/// non-empty, without leading or trailing white space
pub open spec fn tight(s: Seq<char>) -> bool { s.len() > 0 && !is_ws(s[0]) && !is_ws(s.last()) }
pub proof fn lemma_tight(s: Seq<char>)
    requires tight(s)
    ensures trimmed(s) == s
{ }
pub open spec fn blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
pub proof fn lemma_ws_end(s: Seq<char>)
    ensures (ws_end(s).len() == 0) == blank(s)
    decreases s.len()
{
    if s.len() > 0 && is_ws(s.last()) {
        lemma_ws_end(s.drop_last());
        if blank(s.drop_last()) {
            assert forall|i: int| 0 <= i < s.len() implies is_ws(#[trigger] s[i]) by { if i < s.len() - 1 { assert(is_ws(s.drop_last()[i])); } }
        } else {
            let i = choose|i: int| 0 <= i < s.len() - 1 && !is_ws(#[trigger] s.drop_last()[i]);
            assert(!is_ws(s[i]));
        }
    } else if s.len() > 0 { assert(!is_ws(s[s.len() - 1])); }
}
pub proof fn lemma_blank(s: Seq<char>)
    ensures (trimmed(s).len() == 0) == blank(s)
    decreases s.len()
{
    if s.len() > 0 && is_ws(s[0]) {
        let t = s.subrange(1, s.len() as int);
        lemma_blank(t);
        assert(blank(t) == blank(s)) by {
            if blank(t) { assert forall|i: int| 0 <= i < s.len() implies is_ws(#[trigger] s[i]) by { if i > 0 { assert(is_ws(t[i - 1])); } } }
            if blank(s) { assert forall|i: int| 0 <= i < t.len() implies is_ws(#[trigger] t[i]) by { assert(is_ws(s[i + 1])); } }
        }
    } else { lemma_ws_end(s); }
}

pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == p.vx_m(self.sv(), 0);
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == p.vx_m(self.sv(), self.sv().len() - p.vx_n());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == found(p, self.sv());
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(b) => b <= isize::MAX && exists|k: int| #[trigger] at_byte(self.sv(), b as int, k) && p.vx_m(self.sv(), k) && forall|j: int| j < k ==> !p.vx_m(self.sv(), j),
            None => forall|k: int| !p.vx_m(self.sv(), k) };
    fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(b) => b <= isize::MAX && exists|k: int| #[trigger] at_byte(self.sv(), b as int, k) && last_at(p, self.sv(), k),
            None => nowhere(p, self.sv()) };
    fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match r {
            Some((a, b)) => exists|k: int| #[trigger] first_cut(p, self.sv(), k, a@, b@),
            None => !found(p, self.sv()) };
    fn vx_rsplit_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match r {
            Some((a, b)) => exists|k: int| #[trigger] last_cut(p, self.sv(), k, a@, b@),
            None => !found(p, self.sv()) };
    fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str)
        ensures p.vx_n() == 1 ==> r@ == trim_end(p, self.sv());
    fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str)
        ensures p.vx_n() == 1 ==> r@ == trim_start(p, self.sv());
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r {
            Some(x) => p.vx_m(self.sv(), 0) && x@ == self.sv().subrange(p.vx_n() as int, self.sv().len() as int),
            None => !p.vx_m(self.sv(), 0) };
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r {
            Some(x) => p.vx_m(self.sv(), self.sv().len() - p.vx_n()) && x@ == self.sv().subrange(0, self.sv().len() - p.vx_n()),
            None => !p.vx_m(self.sv(), self.sv().len() - p.vx_n()) };
    fn vx_parse<F: VxParse>(&self) -> (r: Result<F, VxErr>)
        ensures match r { Ok(v) => F::vx_parsed(self.sv()) == Some(v), Err(_) => F::vx_parsed(self.sv()) is None };
    fn vx_split_at(&self, b: usize) -> (r: (&str, &str))
        requires exists|k: int| at_byte(self.sv(), b as int, k)
        ensures forall|k: int| #[trigger] at_byte(self.sv(), b as int, k) ==> r.0@ == self.sv().subrange(0, k) && r.1@ == self.sv().subrange(k, self.sv().len() as int);
    fn vx_is_char_boundary(&self, b: usize) -> (r: bool)
        ensures r == exists|k: int| at_byte(self.sv(), b as int, k);
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, exists|k: int| at_byte(self.sv(), a as int, k), exists|k: int| at_byte(self.sv(), b as int, k)
        ensures forall|j: int, k: int| #[trigger] at_byte(self.sv(), a as int, j) && #[trigger] at_byte(self.sv(), b as int, k) ==> r@ == self.sv().subrange(j, k);
    fn vx_slice_to(&self, b: usize) -> (r: &str)
        requires exists|k: int| at_byte(self.sv(), b as int, k)
        ensures forall|k: int| #[trigger] at_byte(self.sv(), b as int, k) ==> r@ == self.sv().subrange(0, k);
    fn vx_slice_from(&self, b: usize) -> (r: &str)
        requires exists|k: int| at_byte(self.sv(), b as int, k)
        ensures forall|k: int| #[trigger] at_byte(self.sv(), b as int, k) ==> r@ == self.sv().subrange(k, self.sv().len() as int);
    fn vx_to_lowercase(&self) -> (r: String)
        ensures r@ == lower(self.sv());
    fn vx_trim(&self) -> (r: &str)
        ensures r@ == trimmed(self.sv());
    fn vx_as_str(&self) -> (r: &str)
        ensures r@ == self.sv();
    fn vx_to_owned(&self) -> (r: String)
        ensures r@ == self.sv();
    fn vx_to_string(&self) -> (r: String)
        ensures r@ == self.sv();
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_rsplit_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse<F: VxParse>(&self) -> (r: Result<F, VxErr>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, b: usize) -> (r: (&str, &str)) { unimplemented!() }
    #[verifier::external_body] fn vx_is_char_boundary(&self, b: usize) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_from(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VxSeqStr { spec fn sq(&self) -> Seq<char>; }
impl VxSeqStr for str { open spec fn sq(&self) -> Seq<char> { self@ } }
impl VxSeqStr for String { open spec fn sq(&self) -> Seq<char> { self@ } }
impl<T: VxSeqStr + ?Sized> VxSeqStr for &T { open spec fn sq(&self) -> Seq<char> { (**self).sq() } }
#[verifier::external_body]
pub fn vx_streq<A: VxSeqStr, B: VxSeqStr>(a: A, b: B) -> (r: bool)
    ensures r == (a.sq() == b.sq())
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_string_from<A: VxSeqStr>(a: A) -> (r: String)
    ensures r@ == a.sq()
{ unimplemented!() }
pub trait VxIsEmpty { spec fn iev(&self) -> Seq<char>; fn vx_is_empty(&self) -> (r: bool) ensures r == (self.iev().len() == 0); }
impl VxIsEmpty for str {
    open spec fn iev(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
/// deref coercion of a String or Cow to str
#[verifier::external_body]
pub fn vx_sref<'a, A: VxSeqStr + ?Sized>(a: &'a A) -> (r: &'a str) ensures r@ == a.sq() { unimplemented!() }
