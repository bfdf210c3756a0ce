# Shim: texts on the standard output (println!).
@raw
/// a text was printed on the standard output
pub uninterp spec fn printed(s: Seq<char>) -> bool;
/// the standard output is free for texts (--list-arch); otherwise it is for the symbols
pub uninterp spec fn may_print() -> bool;
#[verifier::external_body]
pub fn vx_print(s: String) requires may_print() ensures printed(s@) { unimplemented!() }
