# Contracts of src/windows/utils.rs and src/windows/pdb.rs  (C20)
@file src/windows/utils.rs
@path cache::* =>
@strarg search_file get_sym_servers try_to_find_pdb os_specific_try_to_find_pdb
@raw
/// C20: the extensions tried, in order, and the uncompressed ones
pub open spec fn pe_ext(i: int) -> Seq<char> { if i == 0 { "dll"@ } else if i == 1 { "dl_"@ } else if i == 2 { "exe"@ } else { "ex_"@ } }
pub open spec fn pe_ext_fixed(i: int) -> Seq<char> { if i <= 1 { "dll"@ } else { "exe"@ } }
/// the i-th candidate is a PE with that debug id
pub open spec fn pe_match(p: Seq<char>, i: int, id: VxId) -> bool {
    fs_is_file(with_ext(p, pe_ext(i))) && (pe_of(content_of(with_ext(p, pe_ext(i)))) matches Some(v) && v.id == id)
}
pub open spec fn fixed(e: Seq<char>) -> Seq<char> { if e == "dl_"@ { "dll"@ } else if e == "ex_"@ { "exe"@ } else { e } }
pub open spec fn in_cwd(name: Seq<char>) -> Seq<char> { path_join(cwd(), name) }
/// C20: where the PDB of a PE is taken from
pub open spec fn pdb_near(path: Seq<char>, name: Seq<char>) -> Option<Seq<u8>> {
    if fs_is_file(with_name(path, name)) { Some(content_of(with_name(path, name))) }
    else if fs_is_file(with_ext(with_name(path, name), "pd_"@)) { Some(content_of(with_ext(with_name(path, name), "pd_"@))) }
    else if fs_is_file(path_join(cwd(), name)) { Some(content_of(path_join(cwd(), name))) }
    else { None }
}
pub open spec fn slashed(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| if s[i] == '\\' { '/' } else { s[i] }) }
pub open spec fn pdb_local(path: Seq<char>, recorded: Seq<char>) -> Option<Seq<u8>> {
    match name_of(recorded) { Some(n) => if fs_is_file(recorded) { Some(content_of(recorded)) } else { pdb_near(path, n) }, None => None }
}
pub open spec fn exts_ok() -> bool {
    plain_ext("dll"@) && plain_ext("dl_"@) && plain_ext("exe"@) && plain_ext("ex_"@) && '_'.vx_m("dl_"@, 2) && '_'.vx_m("ex_"@, 2) && !'_'.vx_m("dll"@, 2) && !'_'.vx_m("exe"@, 2)
        && "dll"@.len() == 3 && "dl_"@.len() == 3 && "exe"@.len() == 3 && "ex_"@.len() == 3 && "dl_"@ != "ex_"@ && "dll"@ != "dl_"@ && "exe"@ != "dl_"@ && "exe"@ != "ex_"@ && "dll"@ != "ex_"@
}
pub proof fn lemma_exts()
    ensures exts_ok()
{
    reveal_strlit("dll"); reveal_strlit("dl_"); reveal_strlit("exe"); reveal_strlit("ex_");
    assert("dl_"@[0] != "ex_"@[0] && "dll"@[2] != "dl_"@[2] && "exe"@[2] != "dl_"@[2] && "exe"@[2] != "ex_"@[2] && "dll"@[2] != "ex_"@[2]);
}

@fn fix_extension
@props C20
@spec
    ensures r@ == fixed(ext@)

@fn find_pe_for_pdb
@props C20
@spec
    requires path.utf8(), name_of(path.text()) is Some
    ensures match r {
        Some((name, buf)) => exists|i: int| 0 <= i < 4 && #[trigger] pe_match(path.text(), i, *pdb_debug_id) && (forall|j: int| 0 <= j < i ==> !#[trigger] pe_match(path.text(), j, *pdb_debug_id))
            && buf@ == content_of(with_ext(path.text(), pe_ext(i))) && name_of(with_ext(path.text(), pe_ext_fixed(i))) == Some(name@),
        None => forall|i: int| 0 <= i < 4 ==> !#[trigger] pe_match(path.text(), i, *pdb_debug_id) }
@attr verifier::loop_isolation(false)
@at start
    let ghost vx_p = path.text();
    proof { lemma_exts(); axiom_with_ext(); }
@loop 0
    invariant vx_it0.ok(), vx_it0.seq().len() == 4, forall|i: int| 0 <= i < 4 ==> (#[trigger] vx_it0.seq()[i])@ == pe_ext(i),
        path.utf8(), forall|e: Seq<char>| #[trigger] with_ext(path.text(), e) == with_ext(vx_p, e),
        forall|i: int| 0 <= i < vx_it0.pos() ==> !#[trigger] pe_match(vx_p, i, *pdb_debug_id),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at loopstart 0
    proof {
        let i = vx_it0.pos() - 1;
        assert(ext@ == pe_ext(i));
        assert(pe_match(vx_p, i, *pdb_debug_id) == (fs_is_file(with_ext(vx_p, ext@)) && (pe_of(content_of(with_ext(vx_p, ext@))) matches Some(v) && v.id == *pdb_debug_id)));
    }

@fn try_to_find_pdb
@props C20
@attr verifier::loop_isolation(false)
@spec
    requires path.utf8()
    ensures bytes_of(r) == pdb_near(path.text(), pdb_filename@)
@loop 0
    invariant vx_it0.ok(), vx_it0.seq() == vx_all0@, vx_all0@.len() > 0 ==> vx_all0@[0].utf8(), vx_all0@.len() > 1 ==> vx_all0@[1].utf8(), vx_all0@.len() > 2 ==> vx_all0@[2].utf8(), vx_all0@.len() <= 3,
        forall|i: int| 0 <= i < vx_it0.pos() ==> !fs_is_file((#[trigger] vx_it0.seq()[i]).text()),
    decreases vx_it0.seq().len() - vx_it0.pos()
@at afterloop 0
    proof { assert(forall|i: int| 0 <= i < vx_all0@.len() ==> !fs_is_file((#[trigger] vx_all0@[i]).text())); if vx_all0@.len() > 0 { let t = vx_all0@[0]; } if vx_all0@.len() > 1 { let t = vx_all0@[1]; } if vx_all0@.len() > 2 { let t = vx_all0@[2]; } }

@fn os_specific_try_to_find_pdb
@props C20
@spec
    requires path.utf8()
    ensures bytes_of(r.0) == pdb_local(path.text(), slashed(pdb_filename@)),
        r.1@ =~= (match name_of(slashed(pdb_filename@)) { Some(n) => n, None => ""@ })
@at start
    proof { reveal_strlit("/"); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
        assert forall|t: Seq<char>, f: spec_fn(int) -> bool| #[trigger] is_replaced(t, pdb_filename@, f, '/') && (forall|i: int| #[trigger] f(i) == '\\'.vx_m(pdb_filename@, i)) implies t == slashed(pdb_filename@) by { assert(t =~= slashed(pdb_filename@)); } }

@raw
/// C20: the PDB for a PE and the name it is known by
pub open spec fn pdb_for(path: Seq<char>, pe: PeV, servers: Option<Seq<ServerV>>, r: Option<(PeV, Seq<u8>, Seq<char>)>) -> bool {
    match pe.pdb {
        None => r is None,
        Some(rec) => match name_of(slashed(rec)) {
            None => r is None,
            Some(n) => match pdb_local(path, slashed(rec)) {
                _ if n.len() == 0 => r is None,
                Some(b) => r == Some((pe, b, n)),
                None => match servers {
                    None => r is None,
                    Some(s) => match r { Some((p, b, m)) => p == pe && m == n && looked_up(s, id_text(pe.id), n, Some(b)), None => looked_up(s, id_text(pe.id), n, None) },
                },
            },
        },
    }
}
pub open spec fn pairv(r: Option<(VxPe, Vec<u8>, String)>) -> Option<(PeV, Seq<u8>, Seq<char>)> { match r { Some((p, b, n)) => Some((p.v(), b@, n@)), None => None } }

@fn get_pe_pdb_buf
@fntype &[u8] => &[u8]
@props C20
@maypanic
@spec
    requires path.utf8(), symbol_server is Some ==> forall|c: Seq<char>, id: Seq<char>, n: Seq<char>| may_create(#[trigger] cache_at(c, base_text(n), id, n))
    ensures match pe_of(buf@) { Some(pe) => pdb_for(path.text(), pe, match symbol_server { Some(s) => Some(views(s@)), None => None }, pairv(r)), None => false },
        r matches Some(t) ==> pe_parsed(buf@) == Some(t.0)
@unfold
@at start
    proof { reveal_strlit(""); }
