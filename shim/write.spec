# Shim: std::io::Write. A destination (file, pipe, memory) has received a text when it is `written`.
@path Write => VxWrite
@path std::io::Write => VxWrite
@raw
/// where a writer puts its bytes
#[verifier::external_body]
pub struct VxDest { _p: u8 }
/// the destination has the complete text
pub uninterp spec fn written(d: VxDest, t: Seq<char>) -> bool;
/// writing to the destination failed
pub uninterp spec fn write_failed(d: VxDest) -> bool;
pub trait VxWrite: Sized {
    /// what has been accepted so far (it may still be buffered)
    spec fn accepted(&self) -> Seq<char>;
    spec fn dest(&self) -> VxDest;
    fn vx_emit(&mut self, b: VxBuf) -> (r: VxResult<()>)
        ensures final(self).dest() == old(self).dest(), r is Ok ==> final(self).accepted() == old(self).accepted() + b@, r is Err ==> write_failed(old(self).dest());
    /// only a successful flush shows that everything accepted reached the destination
    fn flush(&mut self) -> (r: VxResult<()>)
        ensures final(self).dest() == old(self).dest(), final(self).accepted() == old(self).accepted(), r is Ok ==> written(old(self).dest(), old(self).accepted()), r is Err ==> write_failed(old(self).dest());
}
