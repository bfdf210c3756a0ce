# Contracts of the reading of input files in src/utils.rs (C24)
@file src/utils.rs
@raw
/// a compressed extension stands for the uncompressed one
pub open spec fn corrected(p: Seq<char>) -> Seq<char> {
    match ext_of(p) {
        Some(e) => if occurs("pd"@, e, 0) { with_ext(p, "pdb"@) } else if occurs("dl"@, e, 0) { with_ext(p, "dll"@) } else if occurs("ex"@, e, 0) { with_ext(p, "exe"@) } else if occurs("db"@, e, 0) { with_ext(p, "dbg"@) } else { p },
        None => p,
    }
}
/// the first of the names whose last component is w
pub open spec fn first_named(s: Seq<Seq<char>>, w: Option<Seq<char>>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { None } else {
        match first_named(s.drop_last(), w) { Some(x) => Some(x), None => if w is Some && name_of(s.last()) == w { Some(s.last()) } else { None } }
    }
}
/// all the names of the first n folders
pub open spec fn flat(f: Seq<Seq<Seq<char>>>, n: int) -> Seq<Seq<char>>
    decreases n
{ if n <= 0 { Seq::empty() } else { flat(f, n - 1) + f[n - 1] } }
pub open spec fn member_of(c: VxCabV, p: Seq<char>) -> Option<Seq<char>> { first_named(flat(c.folders, c.folders.len() as int), name_of(corrected(p))) }
/// C24: what is read for the bytes of a file: the member of a cabinet, other bytes as they are
pub open spec fn uncab(b: Seq<u8>, p: Seq<char>) -> Option<Seq<u8>> {
    match cab_of(b) { None => Some(b), Some(c) => match member_of(c, p) { Some(n) => cab_read(c, n), None => None } }
}
pub open spec fn dwarf_dir(p: Seq<char>) -> Seq<char> { path_join(p, "Contents/Resources/DWARF"@) }
/// C24: the file that is read: the only one of a bundle
pub open spec fn read_path(p: Seq<char>) -> Seq<char> { if fs_is_dir(p) { dir_entries(dwarf_dir(p))[0]->0 } else { p } }
pub open spec fn readable_path(p: Seq<char>) -> bool { fs_is_dir(p) ==> fs_is_dir(dwarf_dir(p)) && dir_entries(dwarf_dir(p)).len() == 1 && dir_entries(dwarf_dir(p))[0] is Some }
pub open spec fn content_of(p: Seq<char>) -> Seq<u8> { uncab(raw_bytes(read_path(p)), read_path(p))->0 }
pub proof fn lemma_first_more(s: Seq<Seq<char>>, t: Seq<Seq<char>>, w: Option<Seq<char>>)
    ensures first_named(s, w) is Some ==> first_named(s + t, w) == first_named(s, w)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); } else {
        lemma_first_more(s, t.drop_last(), w);
        assert((s + t).drop_last() =~= s + t.drop_last());
    }
}
pub proof fn lemma_flat_more(f: Seq<Seq<Seq<char>>>, i: int, j: int, n: int, w: Option<Seq<char>>)
    requires 0 <= i < n <= f.len(), 0 <= j <= f[i].len(), first_named(flat(f, i) + f[i].subrange(0, j), w) is Some
    ensures first_named(flat(f, n), w) == first_named(flat(f, i) + f[i].subrange(0, j), w)
    decreases n
{
    let a = flat(f, i) + f[i].subrange(0, j);
    lemma_first_more(a, f[i].subrange(j, f[i].len() as int), w);
    assert(a + f[i].subrange(j, f[i].len() as int) =~= flat(f, i + 1));
    if i + 1 < n { lemma_flat_more(f, i, j, n - 1, w); lemma_first_more(flat(f, n - 1), f[n - 1], w); }
}

@fn get_corrected_path
@props C24
@spec
    requires path.utf8()
    ensures r.text() == corrected(path.text()), r.utf8()
@at start
    proof { assert("".len() == 0) by { reveal_strlit(""); } reveal_strlit("pd"); reveal_strlit("dl"); reveal_strlit("ex"); reveal_strlit("db"); }

@fn get_cabinet_files
@props C24
@unwraps
@maypanic
@attr verifier::loop_isolation(false)
@spec
    requires path.utf8()
    ensures match r { Some(x) => member_of(cab.v(), path.text()) == Some(x.0@) && x.1 <= u32::MAX, None => member_of(cab.v(), path.text()) is None }
@at start
    let ghost vx_w = name_of(corrected(path.text()));
    let ghost vx_f = cab.v().folders;
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == vx_f.len(), forall|k: int| 0 <= k < vx_f.len() ==> (#[trigger] vx_it0.seq()[k]).names() == vx_f[k], first_named(flat(vx_f, vx_it0.pos()), vx_w) is None,
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    let ghost vx_i = vx_it0.pos() - 1;
    proof { assert(flat(vx_f, vx_i) + vx_f[vx_i].subrange(0, 0) =~= flat(vx_f, vx_i)); }
@loop 1
    invariant vx_it1.ok(), vx_it1.seq().len() == vx_f[vx_i].len(), forall|k: int| 0 <= k < vx_f[vx_i].len() ==> (#[trigger] vx_it1.seq()[k]).named() == vx_f[vx_i][k], first_named(flat(vx_f, vx_i) + vx_f[vx_i].subrange(0, vx_it1.pos()), vx_w) is None,
    decreases vx_it1.seq().len() - vx_it1.pos()
@at loopstart 1
    let ghost vx_j = vx_it1.pos() - 1;
    proof {
        let s = flat(vx_f, vx_i) + vx_f[vx_i].subrange(0, vx_j + 1);
        assert(s.drop_last() =~= flat(vx_f, vx_i) + vx_f[vx_i].subrange(0, vx_j));
        assert(s.last() == file.named());
        if first_named(s, vx_w) is Some { lemma_flat_more(vx_f, vx_i, vx_j + 1, vx_f.len() as int, vx_w); }
    }
@at afterloop 1
    proof { assert(vx_f[vx_i].subrange(0, vx_f[vx_i].len() as int) =~= vx_f[vx_i]); assert(flat(vx_f, vx_i + 1) == flat(vx_f, vx_i) + vx_f[vx_i]); }

@fn read_cabinet
@props C24 C19
@maypanic
@spec
    requires path.utf8()
    ensures match r { Some(v) => uncab(buf@, path.text()) == Some(v@), None => uncab(buf@, path.text()) is None }
@at start
    proof { assert forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a by { assert(Seq::<u8>::empty() + a =~= a); } }

@fn get_mac_bundle
@props C24
@sig pub fn get_mac_bundle<P: VxPathArg>(metadata: &VxMeta, path: P) -> (r: Option<(VxMeta, VxPath)>)
@unwraps
@maypanic
@spec
    requires metadata.dir() == fs_is_dir(path.ptext())
    ensures match r { Some(x) => fs_is_dir(path.ptext()) && readable_path(path.ptext()) && x.1.text() == read_path(path.ptext()) && x.1.utf8(), None => !fs_is_dir(path.ptext()) }

@fn read_file
@props C24 C17 C20
@sig pub fn read_file<P: VxPathArg>(path: P) -> (r: Vec<u8>)
@maypanic
@spec
    requires path.putf8()
    ensures r@ == content_of(path.ptext()), uncab(raw_bytes(read_path(path.ptext())), read_path(path.ptext())) is Some, readable_path(path.ptext())
@at start
    proof { assert forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a by { assert(Seq::<u8>::empty() + a =~= a); } }
