# Contract of utils::read: the bytes of a file as they are
@file src/utils.rs
@raw
/// the content of a file (None: it cannot be read)
pub open spec fn file_bytes(path: Seq<char>) -> Option<Seq<u8>> { if fs_exists(path) { Some(raw_bytes(path)) } else { None } }

@fn read
@props C14
@sig pub fn read<P: VxPathArg>(path: P) -> (r: VxResult<Vec<u8>>)
@maypanic
@spec
    ensures match r { Ok(v) => file_bytes(path.ptext()) == Some(v@), Err(_) => file_bytes(path.ptext()) is None }
@at start
    proof { assert forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a by { assert(Seq::<u8>::empty() + a =~= a); } }
