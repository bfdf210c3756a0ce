# Shim: bytes as text (assumed contract).
@path String::from_utf8 => vx_from_utf8
@raw
/// the text of valid UTF-8 bytes
pub uninterp spec fn from_utf8(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: VxResult<String>)
    ensures match r { Ok(s) => from_utf8(v@) == Some(s@), Err(_) => from_utf8(v@) is None }
{ unimplemented!() }
