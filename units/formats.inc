# Contracts of the readers of the file formats: src/linux.rs, src/mac.rs, src/windows/pdb.rs and the dispatch of src/dumper.rs
@file src/linux.rs
@file src/mac.rs
@file src/windows/pdb.rs
@file src/dumper.rs
@path windows::utils::* =>
@path crate::cache::* =>
@raw
pub open spec fn cfg_of(platform: Platform, mapping: Option<VxMappings>, inlines: bool) -> ModuleCfg { ModuleCfg { platform, mapping, inlines } }
/// (memory) the tables of every object fit into 32-bit ids
pub open spec fn all_dumpable() -> bool { forall|o: VxObject, inlines: bool| #[trigger] dumpable(o, inlines) }

@fn ObjectInfo::from_elf
@fntype &[u8] => &[u8]
@props C23 C05
@spec
    requires all_dumpable()
    ensures match object_of(buf@) {
        None => r is Err,
        Some(x) => (r is Ok) == (x.funs() is Some) && (r is Ok ==> dump_of(r->Ok_0, x, file_name@, None, None, cfg_of(platform, mapping, collect_inlines))) }

@raw
/// the object of an archive that is dumped: the only one, or the first of the architecture
pub open spec fn picks(m: Seq<VxResult<VxObject>>, arch: VxArch, o: Option<VxObject>) -> bool {
    if m.len() == 1 { match o { Some(x) => m[0] == Ok::<VxObject, VxErr>(x), None => m[0] is Err } }
    else { match o {
        Some(x) => exists|i: int| 0 <= i < m.len() && #[trigger] m[i] == Ok::<VxObject, VxErr>(x) && x.cpu() == arch && forall|j: int| 0 <= j < i ==> !(#[trigger] m[j] is Ok && m[j]->Ok_0.cpu() == arch),
        None => forall|j: int| 0 <= j < m.len() ==> !(#[trigger] m[j] is Ok && m[j]->Ok_0.cpu() == arch),
    } }
}
/// x is among the first n of k
pub open spec fn among(k: Seq<VxObject>, n: int, x: VxObject) -> bool { exists|g: int| 0 <= g < n && g < k.len() && #[trigger] k[g] == x }
/// the i-th readable member is the j-th member, and the readable ones before that come before it
pub open spec fn member_at(m: Seq<VxResult<VxObject>>, k: Seq<VxObject>, i: int, j: int) -> bool {
    0 <= i < k.len() && 0 <= j < m.len() && m[j] == Ok::<VxObject, VxErr>(k[i]) && forall|h: int| 0 <= h < j && #[trigger] m[h] is Ok ==> among(k, i, m[h]->Ok_0)
}
pub open spec fn is_member(m: Seq<VxResult<VxObject>>, k: Seq<VxObject>, i: int) -> bool { exists|j: int| #[trigger] member_at(m, k, i, j) }
pub open spec fn members_kept(m: Seq<VxResult<VxObject>>, k: Seq<VxObject>) -> bool {
    (forall|i: int| 0 <= i < k.len() ==> #[trigger] is_member(m, k, i)) && (forall|j: int| 0 <= j < m.len() && #[trigger] m[j] is Ok ==> among(k, k.len() as int, m[j]->Ok_0))
}
pub proof fn lemma_members(m: Seq<VxResult<VxObject>>, k: Seq<VxObject>)
    requires views(k) == kept_of(views(m), readable())
    ensures members_kept(m, k)
    decreases m.len()
{
    assert(views(k) =~= k);
    if m.len() > 0 {
        let n = m.drop_last();
        assert(views(m).drop_last() =~= views(n));
        assert(views(m).last() == m.last().vv());
        let l = if m.last() is Ok { k.drop_last() } else { k };
        if m.last() is Ok { assert(k == kept_of(views(n), readable()).push(m.last()->Ok_0)); }
        assert(l =~= kept_of(views(n), readable()));
        assert(views(l) =~= l);
        lemma_members(n, l);
        assert forall|x: VxObject, i: int| i <= l.len() && #[trigger] among(l, i, x) implies among(k, i, x) by { let g = choose|g: int| 0 <= g < i && g < l.len() && #[trigger] l[g] == x; assert(k[g] == x); }
        assert forall|i: int| 0 <= i < k.len() implies #[trigger] is_member(m, k, i) by {
            let j = if i < l.len() { assert(is_member(n, l, i)); choose|j: int| #[trigger] member_at(n, l, i, j) } else { m.len() - 1 };
            assert forall|h: int| 0 <= h < j && #[trigger] m[h] is Ok implies among(k, i, m[h]->Ok_0) by { assert(n[h] is Ok); if i < l.len() { assert(among(l, i, n[h]->Ok_0)); } else { assert(among(l, l.len() as int, n[h]->Ok_0)); } }
            assert(member_at(m, k, i, j));
        }
        assert forall|j: int| 0 <= j < m.len() && #[trigger] m[j] is Ok implies among(k, k.len() as int, m[j]->Ok_0) by {
            if j < n.len() {
                assert(n[j] is Ok);
                let g = choose|g: int| 0 <= g < l.len() && #[trigger] l[g] == n[j]->Ok_0;
                assert(k[g] == m[j]->Ok_0);
            } else { assert(k[k.len() - 1] == m[j]->Ok_0); }
        }
    }
}
/// the first readable member of the architecture
pub open spec fn found_in(k: Seq<VxObject>, arch: VxArch, o: Option<VxObject>) -> bool {
    match o {
        Some(x) => exists|i: int| 0 <= i < k.len() && #[trigger] k[i] == x && x.cpu() == arch && forall|g: int| 0 <= g < i ==> (#[trigger] k[g]).cpu() != arch,
        None => forall|g: int| 0 <= g < k.len() ==> (#[trigger] k[g]).cpu() != arch,
    }
}
pub proof fn lemma_picks(m: Seq<VxResult<VxObject>>, k: Seq<VxObject>, arch: VxArch, o: Option<VxObject>)
    requires views(k) == kept_of(views(m), readable()), found_in(k, arch, o), m.len() != 1
    ensures picks(m, arch, o)
{
    lemma_members(m, k);
    if o is Some {
        let x = o->0;
        let i = choose|i: int| 0 <= i < k.len() && #[trigger] k[i] == x && x.cpu() == arch && forall|g: int| 0 <= g < i ==> (#[trigger] k[g]).cpu() != arch;
        assert(is_member(m, k, i));
        let j = choose|j: int| #[trigger] member_at(m, k, i, j);
        assert(m[j] == Ok::<VxObject, VxErr>(x));
        assert forall|h: int| 0 <= h < j implies !(#[trigger] m[h] is Ok && m[h]->Ok_0.cpu() == arch) by { if m[h] is Ok { assert(among(k, i, m[h]->Ok_0)); } }
    } else {
        assert forall|h: int| 0 <= h < m.len() implies !(#[trigger] m[h] is Ok && m[h]->Ok_0.cpu() == arch) by { if m[h] is Ok { assert(among(k, k.len() as int, m[h]->Ok_0)); } }
    }
}

@fn ObjectInfo::from_macho
@fntype &[u8] => &[u8]
@props C23 C05
@clo 0 o: VxResult<VxObject> ->> (z: Option<VxObject>)
    ensures z == o.vv()
@clo 1 o: &VxObject ->> (z: bool)
    ensures z == (o.cpu() == arch)
@spec
    requires all_dumpable()
    ensures match archive_of(buf@) {
        None => r is Err,
        Some(a) => exists|o: Option<VxObject>| #[trigger] picks(a.members(), arch, o) && match o {
            None => r is Err,
            Some(x) => (r is Ok) == (x.funs() is Some) && (r is Ok ==> dump_of(r->Ok_0, x, file_name@, None, None, cfg_of(Platform::Mac, mapping, collect_inlines))) } }
@at after let archive =
    let ghost vx_m = archive.members();
    proof {
        if vx_m.len() == 1 { assert(vx_m[0] is Err ==> picks(archive_of(buf@)->0.members(), arch, None::<VxObject>)); }
        let kk = kept_of(views(vx_m), readable());
        assert forall|k: Seq<VxObject>| #[trigger] views(k) == kept_of(views(vx_m), readable()) && vx_m.len() != 1 implies forall|o: Option<VxObject>| found_in(k, arch, o) ==> #[trigger] picks(vx_m, arch, o) by {
            assert forall|o: Option<VxObject>| found_in(k, arch, o) implies #[trigger] picks(vx_m, arch, o) by { lemma_picks(vx_m, k, arch, o); }
        }
        assert(vx_m.subrange(0, vx_m.len() as int) =~= vx_m);
        assert(kept_of(views(vx_m.subrange(0, vx_m.len() as int)), readable()) == kk);
    }
@at after let object =
    proof { assert(picks(vx_m, arch, object)); assert(picks(archive_of(buf@)->0.members(), arch, object)); }

@raw
pub open spec fn pe_object(p: Option<VxPe>) -> Option<VxObject> { match p { Some(x) => Some(VxObject::Pe(x)), None => None } }
#[verifier::external_body]
pub fn vx_pe_object(p: Option<VxPe>) -> (r: Option<VxObject>) ensures r == pe_object(p) { unimplemented!() }

@fn ObjectInfo::from_pdb
@props C23 C20 C05
@subst pe.map(Object::Pe) =>> vx_pe_object(pe)
@spec
    requires all_dumpable()
    ensures (r is Ok) == (VxObject::Pdb(pdb).funs() is Some),
        r is Ok ==> dump_of(r->Ok_0, VxObject::Pdb(pdb), pdb_name@, pe_object(pe), otext(pe_name), cfg_of(Platform::Win, mapping, collect_inlines))

@fn win_path_file_name
@props C23 C16
@spec
    ensures last_piece(pdb_name@, '\\', r@)
@at start
    proof {
        let s = pdb_name@;
        assert(at_byte(s, 0, 0));
        assert(s.subrange(0, s.len() as int) =~= s);
        if nowhere('\\', s) {
            assert forall|i: int| 0 <= i < s.len() implies s[i] != '\\' by { assert(!pat_at('\\', s, i)); }
            assert(last_piece(s, '\\', s));
        }
        assert forall|b: int, k: int| #[trigger] at_byte(s, b, k) && #[trigger] last_at('\\', s, k) implies at_byte(s, b + 1, k + 1) && last_piece(s, '\\', s.subrange(k + 1, s.len() as int)) by {
            let t = s.subrange(k + 1, s.len() as int);
            assert forall|i: int| 0 <= i < t.len() implies t[i] != '\\' by { assert(!pat_at('\\', s, k + 1 + i)); }
            lemma_at_next(s, b, k);
        }
    }

@raw
/// the name of a module that is dumped from its PE alone
pub open spec fn pe_module_name(pe: VxPe, name: Seq<char>, r: Seq<char>) -> bool { last_piece(match pe.v().pdb { Some(n) => n, None => name }, '\\', r) }
pub open spec fn pe_dump(o: ObjectInfo, pe: VxPe, name: Seq<char>, c: ModuleCfg) -> bool {
    exists|n: Seq<char>| #[trigger] pe_module_name(pe, name, n) && dump_of(o, VxObject::Pe(pe), n, None, Some(name), c)
}

@fn ObjectInfo::from_pe_with_options
@props C23 C05
@spec
    requires all_dumpable()
    ensures (r is Ok) == (VxObject::Pe(pe).funs() is Some),
        r is Ok ==> pe_dump(r->Ok_0, pe, pe_name@, cfg_of(Platform::Win, mapping, collect_inlines))
@at start
    let ghost vx_pe = pe;
@at tail
    proof { assert(pe_module_name(vx_pe, pe_name@, pdb_name@)); }

@fn ObjectInfo::from_pe
@props C23
@spec
    requires all_dumpable()
    ensures (r is Ok) == (VxObject::Pe(pe).funs() is Some),
        r is Ok ==> pe_dump(r->Ok_0, pe, pe_name@, cfg_of(Platform::Win, None, false))

@raw
/// C20: the binary of a PDB
pub open spec fn pe_beside(path: Seq<char>, id: VxId, pe: Option<VxPe>, name: Option<Seq<char>>) -> bool {
    match pe {
        Some(p) => name is Some && exists|i: int| 0 <= i < 4 && #[trigger] pe_match(path, i, id) && (forall|j: int| 0 <= j < i ==> !#[trigger] pe_match(path, j, id))
            && pe_parsed(content_of(with_ext(path, pe_ext(i)))) == Some(p) && name_of(with_ext(path, pe_ext_fixed(i))) == name,
        None => name is None && forall|i: int| 0 <= i < 4 ==> !#[trigger] pe_match(path, i, id),
    }
}
pub open spec fn pdb_dump(o: ObjectInfo, pdb: VxPdb, path: Seq<char>, name: Seq<char>, c: ModuleCfg) -> bool {
    exists|pe: Option<VxPe>, pe_name: Option<Seq<char>>| #[trigger] pe_beside(path, pdb_id(pdb), pe, pe_name) && dump_of(o, VxObject::Pdb(pdb), name, pe_object(pe), pe_name, c)
}

@fn get_pdb_object_info
@fntype &[u8] => &[u8]
@props C23 C20 C05
@unfold
@spec
    requires all_dumpable(), path.utf8(), name_of(path.text()) is Some
    ensures match pdb_of(buf@) {
        None => r is Err,
        Some(p) => (r is Ok) == (VxObject::Pdb(p).funs() is Some) && (r is Ok ==> pdb_dump(r->Ok_0, p, path.text(), filename@, cfg_of(Platform::Win, mapping, collect_inlines))) }
@at tail
    proof { assert(pe_beside(path.text(), pdb_id(pdb), pe, strv(pe_name))); }

@raw
pub open spec fn server_text(s: Option<&str>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn servers_of(server: Option<Seq<char>>) -> Option<Seq<ServerV>> { match server { Some(s) => some_servers(sympath(s)), None => configured() } }
/// what the caller lets the caches of the symbol servers create
pub open spec fn may_fill_caches() -> bool { forall|c: Seq<char>, id: Seq<char>, n: Seq<char>| may_create(#[trigger] cache_at(c, base_text(n), id, n)) }
/// C20: a PDB for the PE that can be read
pub open spec fn pe_pdb_dump(o: ObjectInfo, pe: VxPe, path: Seq<char>, name: Seq<char>, server: Option<Seq<char>>, c: ModuleCfg) -> bool {
    exists|b: Seq<u8>, n: Seq<char>, p: VxPdb| #[trigger] pdb_for(path, pe.v(), servers_of(server), Some((pe.v(), b, n))) && pdb_of(b) == Some(p) && #[trigger] dump_of(o, VxObject::Pdb(p), n, Some(VxObject::Pe(pe)), Some(name), c)
}
/// C20: there is no PDB for the PE, or it cannot be read
pub open spec fn no_pdb(pe: VxPe, path: Seq<char>, server: Option<Seq<char>>) -> bool {
    pdb_for(path, pe.v(), servers_of(server), None) || exists|b: Seq<u8>, n: Seq<char>| #[trigger] pdb_for(path, pe.v(), servers_of(server), Some((pe.v(), b, n))) && match pdb_of(b) { None => true, Some(p) => VxObject::Pdb(p).funs() is None }
}

@fn get_pe_pdb_object_info
@fntype &[u8] => &[u8]
@props C23 C20 C05
@spec
    requires path.utf8(), all_dumpable(), may_fill_caches()
    ensures match pe_parsed(buf@) {
        None => false,
        Some(pe) => if r is Ok { pe_pdb_dump(r->Ok_0, pe, path.text(), filename@, server_text(symbol_server), cfg_of(Platform::Win, mapping, emit_inlines)) } else { no_pdb(pe, path.text(), server_text(symbol_server)) } }

@fn get_pe_object_info
@fntype &[u8] => &[u8]
@props C23 C20 C05
@spec
    requires all_dumpable(), pe_parsed(buf@) is Some
    ensures match pe_parsed(buf@) {
        None => false,
        Some(pe) => (r is Ok) == (VxObject::Pe(pe).funs() is Some) && (r is Ok ==> pe_dump(r->Ok_0, pe, filename@, cfg_of(Platform::Win, mapping, collect_inlines))) }

@raw
/// o is the dump of the file
pub open spec fn dumped(content: Seq<u8>, path: Seq<char>, name: Seq<char>, m: Option<VxMappings>, arch: VxArch, server: Option<Seq<char>>, inlines: bool, o: ObjectInfo) -> bool {
    match format_of(content) {
        FileFormat::Elf => object_of(content) matches Some(x) && dump_of(o, x, name, None, None, cfg_of(Platform::Linux, m, inlines)),
        FileFormat::Pdb => pdb_of(content) matches Some(p) && pdb_dump(o, p, path, name, cfg_of(Platform::Win, m, inlines)),
        FileFormat::Pe => pe_parsed(content) matches Some(pe) && (pe_pdb_dump(o, pe, path, name, server, cfg_of(Platform::Win, m, inlines))
            || (no_pdb(pe, path, server) && pe_dump(o, pe, name, cfg_of(Platform::Win, m, inlines)))),
        FileFormat::MachO => archive_of(content) matches Some(a) && exists|x: VxObject| #[trigger] picks(a.members(), arch, Some(x)) && dump_of(o, x, name, None, None, cfg_of(Platform::Mac, m, inlines)),
        _ => false,
    }
}
/// the file cannot be dumped: another format, damaged, no object of the architecture, debug information that cannot be read
pub open spec fn undumpable(content: Seq<u8>, path: Seq<char>, arch: VxArch, server: Option<Seq<char>>) -> bool {
    match format_of(content) {
        FileFormat::Elf => match object_of(content) { None => true, Some(x) => x.funs() is None },
        FileFormat::Pdb => match pdb_of(content) { None => true, Some(p) => VxObject::Pdb(p).funs() is None },
        FileFormat::Pe => pe_parsed(content) matches Some(pe) && no_pdb(pe, path, server) && VxObject::Pe(pe).funs() is None,
        FileFormat::MachO => match archive_of(content) { None => true, Some(a) => exists|o: Option<VxObject>| #[trigger] picks(a.members(), arch, o) && match o { None => true, Some(x) => x.funs() is None } },
        _ => true,
    }
}
/// what holds of every module of the run
pub open spec fn good(o: ObjectInfo, m: Option<VxMappings>) -> bool { obj_ok(o) && shows(o.files, shown_by(m)) }

@fn get_object_info
@props C23 C20 C05
@spec
    requires all_dumpable(), may_fill_caches(), path.utf8(), name_of(path.text()) is Some
    ensures r matches Ok(o) ==> good(o, file_mapping) && dumped(buf@, path.text(), filename@, file_mapping, arch, server_text(symbol_server), emit_inlines, o),
        r is Err ==> undumpable(buf@, path.text(), arch, server_text(symbol_server))

@raw
// ---------------------------------------------------------------- --list-arch (C25)
pub open spec fn arch_names(a: VxArchive) -> Seq<Seq<char>> { Seq::new(a.members().len(), |i: int| a.members()[i]->Ok_0.cpu().text()) }
/// C25: the architectures of an archive are printed, in its order
pub open spec fn arch_printed(content: Seq<u8>, name: Seq<char>) -> bool {
    &&& archive_of(content) is Some
    &&& printed((name + " contains the following architecture"@ + (if archive_of(content)->0.members().len() == 1 { ""@ } else { "s"@ }) + ":"@).push('\n'))
    &&& printed(with_separator(arch_names(archive_of(content)->0), ", "@).push('\n'))
}
/// the texts with a separator between them
pub uninterp spec fn with_separator(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>;
pub open spec fn names_of(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn vx_join_texts(v: &Vec<&str>, sep: &str) -> (r: String) ensures r@ == with_separator(names_of(v@), sep@) { unimplemented!() }

@fn print_macho_architectures
@fntype &[u8] => &[u8]
@prints
@props C25
@maypanic
@unwraps
@subst archs.join(", ") =>> vx_join_texts(&archs, ", ")
@clo 0 o: VxResult<VxObject> ->> (n: &'static str)
    ensures o is Ok, n@ == o->Ok_0.cpu().text()
@spec
    requires may_print()
    ensures r is Ok ==> arch_printed(buf@, file_name@), r is Err ==> archive_of(buf@) is None
@at start
    proof { assert forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a by { assert(Seq::<char>::empty() + a =~= a); } }
@at tail
    proof { let vx_a = archive_of(buf@)->0; assert(names_of(archs@) =~= arch_names(vx_a)); }
