# Shim: str::replace (assumed contract).
@method replace
@raw
/// s with every occurrence of p, left to right, replaced by q
pub open spec fn replaced(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() == 0 || s.len() < p.len() { s }
    else if occurs(p, s, 0) { q + replaced(s.subrange(p.len() as int, s.len() as int), p, q) }
    else { seq![s[0]] + replaced(s.subrange(1, s.len() as int), p, q) }
}
pub open spec fn is_replaced(t: Seq<char>, s: Seq<char>, hit: spec_fn(int) -> bool, c: char) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == (if hit(i) { c } else { s[i] }) }
pub trait VxReplace {
    spec fn rpv(&self) -> Seq<char>;
    fn vx_replace<P: VxPat>(&self, p: P, q: &str) -> (r: String)
        ensures p.vx_n() == 1 && q@.len() == 1 ==> is_replaced(r@, self.rpv(), |i: int| p.vx_m(self.rpv(), i), q@[0]),
            p.vx_lit() matches Some(t) ==> t.len() > 0 ==> r@ == replaced(self.rpv(), t, q@);
}
impl VxReplace for str {
    open spec fn rpv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, q: &str) -> (r: String) { unimplemented!() }
}
