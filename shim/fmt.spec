# Shim: text formatting. A Formatter is a text sink: a successful write appended the text.
@typemap Formatter => VxFmt
@typemap Formatter<'_> => VxFmt
@typemap fmt::Formatter<'_> => VxFmt
@method to_string
@raw
pub trait VxDisp { spec fn vx_text(&self) -> Seq<char>; spec fn vx_disp_ok(&self) -> bool; }
pub trait VxHex { spec fn vx_hex(&self) -> Seq<char>; spec fn vx_hex_up(&self) -> Seq<char>; }
impl VxHex for u32 { open spec fn vx_hex(&self) -> Seq<char> { hex_digits(*self as nat) } open spec fn vx_hex_up(&self) -> Seq<char> { hex_digits_up(*self as nat) } }
impl VxHex for u64 { open spec fn vx_hex(&self) -> Seq<char> { hex_digits(*self as nat) } open spec fn vx_hex_up(&self) -> Seq<char> { hex_digits_up(*self as nat) } }
pub uninterp spec fn hex_digits_up(n: nat) -> Seq<char>;
pub uninterp spec fn hex_digits(n: nat) -> Seq<char>;
pub uninterp spec fn dec_digits(n: nat) -> Seq<char>;
impl VxDisp for u32 { open spec fn vx_text(&self) -> Seq<char> { dec_digits(*self as nat) } open spec fn vx_disp_ok(&self) -> bool { true } }
impl VxDisp for usize { open spec fn vx_text(&self) -> Seq<char> { dec_digits(*self as nat) } open spec fn vx_disp_ok(&self) -> bool { true } }
impl VxDisp for str { open spec fn vx_text(&self) -> Seq<char> { self@ } open spec fn vx_disp_ok(&self) -> bool { true } }
impl VxDisp for String { open spec fn vx_text(&self) -> Seq<char> { self@ } open spec fn vx_disp_ok(&self) -> bool { true } }
impl VxDisp for u64 { open spec fn vx_text(&self) -> Seq<char> { dec_digits(*self as nat) } open spec fn vx_disp_ok(&self) -> bool { true } }
impl VxDisp for char { open spec fn vx_text(&self) -> Seq<char> { seq![*self] } open spec fn vx_disp_ok(&self) -> bool { true } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn vx_text(&self) -> Seq<char> { (**self).vx_text() } open spec fn vx_disp_ok(&self) -> bool { (**self).vx_disp_ok() } }
#[verifier::external_body]
pub struct VxFmt { _p: u8 }
impl View for VxFmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// a text sink refused a text
pub uninterp spec fn sink_failed() -> bool;
pub struct VxBuf { pub t: Ghost<Seq<char>> }
impl View for VxBuf { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.t@ } }
pub fn vx_buf() -> (r: VxBuf) ensures r@ == Seq::<char>::empty() { VxBuf { t: Ghost(Seq::empty()) } }
impl VxBuf {
    #[verifier::external_body]
    pub fn lit(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn nl(&mut self) ensures final(self)@ == old(self)@.push('\n') { unimplemented!() }
    #[verifier::external_body]
    pub fn disp<T: VxDisp + ?Sized>(&mut self, x: &T) requires x.vx_disp_ok() ensures final(self)@ == old(self)@ + x.vx_text() { unimplemented!() }
    #[verifier::external_body]
    pub fn hex<T: VxHex>(&mut self, x: &T) ensures final(self)@ == old(self)@ + x.vx_hex() { unimplemented!() }
    #[verifier::external_body]
    pub fn hex_upper<T: VxHex>(&mut self, x: &T) ensures final(self)@ == old(self)@ + x.vx_hex_up() { unimplemented!() }
    #[verifier::external_body]
    pub fn dbg<T>(&mut self, x: &T) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl VxFmt {
    #[verifier::external_body]
    pub fn vx_emit(&mut self, b: VxBuf) -> (r: VxFmtResult)
        ensures r.is_ok() ==> final(self)@ == old(self)@ + b@, r is Err ==> sink_failed()
    { unimplemented!() }
}
