# Shim: UTF-8 encoding (the bytes of one char are assumed; the rest is defined and proved).
@path std::str::from_utf8 => vx_str_from_utf8
@path str::from_utf8 => vx_str_from_utf8
@path String::from_utf8_unchecked => vx_from_utf8_unchecked
@method as_bytes
@raw
/// the UTF-8 bytes of a char
pub uninterp spec fn char_bytes(c: char) -> Seq<u8>;
/// an ASCII char is its own byte, the bytes of any other char are not ASCII
#[verifier::external_body]
pub proof fn axiom_char_bytes(c: char)
    ensures char_bytes(c).len() >= 1,
        (c as u32) < 0x80 ==> char_bytes(c) == seq![c as u8],
        (c as u32) >= 0x80 ==> forall|i: int| 0 <= i < char_bytes(c).len() ==> #[trigger] char_bytes(c)[i] >= 0x80
{ }
pub open spec fn utf8(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + char_bytes(s.last()) }
}
/// UTF-8 can be decoded
#[verifier::external_body]
pub proof fn axiom_utf8(s: Seq<char>, t: Seq<char>)
    ensures utf8(s) == utf8(t) ==> s == t
{ }
pub open spec fn is_utf8(b: Seq<u8>) -> bool { exists|t: Seq<char>| #[trigger] utf8(t) == b }
/// the text of valid UTF-8
pub open spec fn text_of(b: Seq<u8>) -> Seq<char> { choose|t: Seq<char>| #[trigger] utf8(t) == b }
pub proof fn lemma_text_of(t: Seq<char>)
    ensures text_of(utf8(t)) == t, is_utf8(utf8(t))
{
    assert(is_utf8(utf8(t)));
    axiom_utf8(text_of(utf8(t)), t);
}
pub proof fn lemma_utf8_cat(a: Seq<char>, b: Seq<char>)
    ensures utf8(a + b) == utf8(a) + utf8(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(utf8(a) + utf8(b) =~= utf8(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_utf8_cat(a, b.drop_last());
        assert(utf8(a) + (utf8(b.drop_last()) + char_bytes(b.last())) =~= utf8(a) + utf8(b.drop_last()) + char_bytes(b.last()));
    }
}
pub proof fn lemma_is_utf8_cat(a: Seq<u8>, b: Seq<u8>)
    requires is_utf8(a), is_utf8(b)
    ensures is_utf8(a + b)
{
    let s = choose|t: Seq<char>| #[trigger] utf8(t) == a;
    let t = choose|t: Seq<char>| #[trigger] utf8(t) == b;
    lemma_utf8_cat(s, t);
    assert(utf8(s + t) == a + b);
}
pub proof fn lemma_is_utf8_empty()
    ensures is_utf8(Seq::<u8>::empty())
{ assert(utf8(Seq::<char>::empty()) == Seq::<u8>::empty()); }
/// UTF-8 can be cut around an ASCII byte
pub proof fn lemma_utf8_cut(s: Seq<char>, p: int)
    requires 0 <= p < utf8(s).len(), utf8(s)[p] < 0x80
    ensures is_utf8(utf8(s).subrange(0, p)), is_utf8(utf8(s).subrange(p, utf8(s).len() as int)), is_utf8(utf8(s).subrange(p + 1, utf8(s).len() as int))
    decreases s.len()
{
    let b = utf8(s);
    let d = utf8(s.drop_last());
    let l = char_bytes(s.last());
    axiom_char_bytes(s.last());
    assert(b == d + l);
    if p >= d.len() {
        assert(b[p] == l[p - d.len()]);
        assert(l.len() == 1 && p == d.len());
        assert(b.subrange(0, p) =~= d);
        lemma_is_utf8_empty();
        assert(b.subrange(p + 1, b.len() as int) =~= Seq::<u8>::empty());
        let one = seq![s.last()];
        assert(one.drop_last() =~= Seq::<char>::empty());
        assert(utf8(one.drop_last()) == Seq::<u8>::empty());
        assert(utf8(one) =~= l);
        assert(b.subrange(p, b.len() as int) =~= l);
    } else {
        lemma_utf8_cut(s.drop_last(), p);
        assert(d[p] == b[p]);
        let one = seq![s.last()];
        assert(one.drop_last() =~= Seq::<char>::empty());
        assert(utf8(one.drop_last()) == Seq::<u8>::empty());
        assert(utf8(one) =~= l);
        assert(is_utf8(l));
        assert(b.subrange(0, p) =~= d.subrange(0, p));
        lemma_is_utf8_cat(d.subrange(p, d.len() as int), l);
        assert(b.subrange(p, b.len() as int) =~= d.subrange(p, d.len() as int) + l);
        lemma_is_utf8_cat(d.subrange(p + 1, d.len() as int), l);
        assert(b.subrange(p + 1, b.len() as int) =~= d.subrange(p + 1, d.len() as int) + l);
    }
}
pub trait VxAsBytes { spec fn abv(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: &[u8])
    // (no string fills a third of the address space)
    ensures r@ == utf8(self.abv()), r@.len() * 3 <= usize::MAX; }
impl VxAsBytes for str {
    open spec fn abv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str_from_utf8(b: &[u8]) -> (r: VxResult<&str>)
    ensures match r { Ok(s) => utf8(s@) == b@, Err(_) => !is_utf8(b@) }
{ unimplemented!() }
/// undefined behaviour unless the bytes are UTF-8
#[verifier::external_body]
pub fn vx_from_utf8_unchecked(b: Vec<u8>) -> (r: String)
    requires is_utf8(b@)
    ensures utf8(r@) == b@
{ unimplemented!() }
