//! C07..C12 and C21: symbols of one module, merging, output text, names.
use crate::funcs::{gen_name, mname, o_clean, o_name, o_noctl, MName};
use crate::model::*;
use crate::pe::{pe_bytes, MPe};
use crate::{describe, eq, Case, Rng};
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;
use std::collections::{BTreeMap, BTreeSet};
use symbolic::common::{Language, Name, NameMangling};
use symbolic::debuginfo::Object;
use symbolic::demangle::{Demangle, DemangleOptions};

/// a module to dump: Breakpad text or a small ELF or PE file
#[derive(Clone, Debug)]
pub enum Input {
    Text(String),
    Elf(MElf),
    Pe(MPe),
}
#[derive(Clone, Debug)]
pub struct MElf {
    pub id: [u8; 20],
    /// executable sections (name, address, size)
    pub secs: Vec<(String, u64, u64)>,
    /// function symbols (name, address, size)
    pub syms: Vec<(String, u64, u64)>,
}
pub fn elf_bytes(m: &MElf) -> Vec<u8> {
    elf_bytes_id(m, &m.id)
}
pub fn elf_bytes_id(m: &MElf, id: &[u8]) -> Vec<u8> {
    let mut shstr = vec![0u8];
    let add = |s: &str, t: &mut Vec<u8>| -> u32 {
        let o = t.len() as u32;
        t.extend_from_slice(s.as_bytes());
        t.push(0);
        o
    };
    let mut data: Vec<u8> = vec![0; 64];
    // (name, type, flags, addr, off, size, link, info, align, entsize)
    type Sh = (u32, u32, u64, u64, u64, u64, u32, u32, u64, u64);
    let mut sh: Vec<Sh> = vec![(0, 0, 0, 0, 0, 0, 0, 0, 0, 0)];
    for (n, a, z) in &m.secs {
        let nm = add(n, &mut shstr);
        sh.push((nm, 8 /* NOBITS */, 6, *a, data.len() as u64, *z, 0, 0, 1, 0));
    }
    // build id note
    let off = data.len() as u64;
    data.extend_from_slice(&4u32.to_le_bytes());
    data.extend_from_slice(&(id.len() as u32).to_le_bytes());
    data.extend_from_slice(&3u32.to_le_bytes());
    data.extend_from_slice(b"GNU\0");
    data.extend_from_slice(id);
    let nm = add(".note.gnu.build-id", &mut shstr);
    sh.push((nm, 7, 2, 0, off, data.len() as u64 - off, 0, 0, 4, 0));
    // symbols
    let mut strtab = vec![0u8];
    let mut symtab = vec![0u8; 24];
    for (n, a, z) in &m.syms {
        let nm = add(n, &mut strtab);
        symtab.extend_from_slice(&nm.to_le_bytes());
        symtab.push(0x12); // global, function
        symtab.push(0);
        symtab.extend_from_slice(&1u16.to_le_bytes());
        symtab.extend_from_slice(&a.to_le_bytes());
        symtab.extend_from_slice(&z.to_le_bytes());
    }
    let strndx = sh.len() as u32;
    let nm = add(".strtab", &mut shstr);
    sh.push((nm, 3, 0, 0, data.len() as u64, strtab.len() as u64, 0, 0, 1, 0));
    data.extend_from_slice(&strtab);
    while data.len() % 8 != 0 {
        data.push(0);
    }
    let nm = add(".symtab", &mut shstr);
    sh.push((nm, 2, 0, 0, data.len() as u64, symtab.len() as u64, strndx, 1, 8, 24));
    data.extend_from_slice(&symtab);
    let nm = add(".shstrtab", &mut shstr);
    sh.push((nm, 3, 0, 0, data.len() as u64, shstr.len() as u64, 0, 0, 1, 0));
    data.extend_from_slice(&shstr);
    while data.len() % 8 != 0 {
        data.push(0);
    }
    let shoff = data.len() as u64;
    for s in &sh {
        data.extend_from_slice(&s.0.to_le_bytes());
        data.extend_from_slice(&s.1.to_le_bytes());
        for v in [s.2, s.3, s.4, s.5] {
            data.extend_from_slice(&v.to_le_bytes());
        }
        data.extend_from_slice(&s.6.to_le_bytes());
        data.extend_from_slice(&s.7.to_le_bytes());
        data.extend_from_slice(&s.8.to_le_bytes());
        data.extend_from_slice(&s.9.to_le_bytes());
    }
    data[..16].copy_from_slice(&[0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    data[16..18].copy_from_slice(&3u16.to_le_bytes());
    data[18..20].copy_from_slice(&62u16.to_le_bytes());
    data[20..24].copy_from_slice(&1u32.to_le_bytes());
    data[40..48].copy_from_slice(&shoff.to_le_bytes());
    data[52..54].copy_from_slice(&64u16.to_le_bytes());
    data[54..56].copy_from_slice(&56u16.to_le_bytes());
    data[58..60].copy_from_slice(&64u16.to_le_bytes());
    data[60..62].copy_from_slice(&(sh.len() as u16).to_le_bytes());
    data[62..64].copy_from_slice(&((sh.len() - 1) as u16).to_le_bytes());
    data
}
pub fn bytes_of(i: &Input) -> Vec<u8> {
    match i {
        Input::Text(t) => t.as_bytes().to_vec(),
        Input::Elf(m) => elf_bytes(m),
        Input::Pe(m) => pe_bytes(m),
    }
}
/// with path mappings (where they cannot be given: without)
#[cfg(feature = "hooks")]
pub fn load_mapped(i: &Input, name: &str, p: Platform, inl: bool, maps: &[(&str, &str)]) -> Result<ObjectInfo, String> {
    if maps.is_empty() {
        return load(i, name, p, inl);
    }
    let m = dump_syms::verif::Map::new(&None, &Some(maps.iter().map(|m| m.0).collect()), &Some(maps.iter().map(|m| m.1).collect()), &None)?;
    let bytes = bytes_of(i);
    let o = Object::parse(&bytes).map_err(|e| format!("harness: {e}"))?;
    dump_syms::verif::from_object(&o, name, None, p, m, inl)
}
pub fn load(i: &Input, name: &str, p: Platform, inl: bool) -> Result<ObjectInfo, String> {
    let bytes = bytes_of(i);
    let o = Object::parse(&bytes).map_err(|e| format!("harness: {e}"))?;
    ObjectInfo::from_object(&o, name, None, None, p, None, inl).map_err(|e| format!("from_object failed: {e}"))
}
pub fn dump(o: &ObjectInfo) -> Result<String, String> {
    let mut v = vec![];
    o.dump(&mut v).map_err(|e| format!("dump failed: {e}"))?;
    String::from_utf8(v).map_err(|e| e.to_string())
}
pub fn id_of(b: &[u8; 20]) -> String {
    let mut s = String::new();
    for i in [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15] {
        s += &format!("{:02X}", b[i]);
    }
    s + "0"
}
/// display name of a public symbol name (platform other than Windows)
pub fn o_public(n: &str) -> String {
    let lang = Name::new(n, NameMangling::Mangled, Language::Unknown).detect_language();
    if lang == Language::Unknown {
        return o_noctl(n);
    }
    let c = o_clean(n);
    let d = Name::new(c.clone(), NameMangling::Mangled, lang).demangle(DemangleOptions::complete().return_type(false)).unwrap_or(c);
    o_noctl(&d)
}
fn o_skip(n: &str) -> bool {
    ["??_C", "__real@", "__xmm@", "__ymm@"].iter().any(|p| n.len() >= p.len() && &n.as_bytes()[..p.len()] == p.as_bytes())
}
fn num(s: &str) -> Option<u32> {
    // as Rust parses a decimal u32: an optional '+' and digits
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: u64 = 0;
    for c in d.bytes() {
        v = v * 10 + (c - b'0') as u64;
        if v > u32::MAX as u64 {
            return None;
        }
    }
    Some(v as u32)
}
pub fn o_win(n: &str) -> (String, Option<u32>) {
    let c: Vec<char> = n.chars().collect();
    let s = |a: &[char]| a.iter().collect::<String>();
    if c.contains(&':') || c.contains(&'(') {
        return (n.into(), None);
    }
    // X@@N, N after the last @@
    if c.len() >= 2 {
        for i in (0..=c.len() - 2).rev() {
            if c[i] == '@' && c[i + 1] == '@' {
                if let Some(v) = num(&s(&c[i + 2..])) {
                    return (s(&c[..i]), Some(v));
                }
                break;
            }
        }
    }
    if c.first() == Some(&'_') || c.first() == Some(&'@') {
        if let Some(i) = (1..c.len()).rev().find(|i| c[*i] == '@') {
            if let Some(v) = num(&s(&c[i + 1..])) {
                return (s(&c[1..i]), Some(v));
            }
        }
        if c[0] == '_' {
            return (s(&c[1..]), None);
        }
    }
    (n.into(), None)
}

// ------------------------------------------------------------------ C07
#[derive(Clone, Debug)]
struct F {
    a: u64,
    z: u64,
    n: String,
}
fn ident(r: &mut Rng) -> String {
    let base = ["f", "g", "alpha", "_ZN3foo3barEv", "_start", "??_Cx", "__real@3", "__xmm@1", "__real", "??_D", "__ymm@", "x.cold", "_ZL3abcv", "b@4", "_h@8", "@k@12", "v@@16", "?m@@YAXXZ", "q(int)", "n::m", "__imp_f", "__imp__g@4", "$LN3", ".L12", "__xmm", "_GLOBAL__sub_I_a", "__cxx_global_var_init", "L_a", "ltmp0", "anon.1", "__real_f", "??_R0", "__ymm_x", "__zmm@1", "__mask@@1", "str.1", "$x", "$d", "_", "__"];
    if r.one_in(3) {
        format!("s{}", r.below(30))
    } else {
        r.pick(&base).to_string()
    }
}
#[derive(Clone, Debug)]
struct S {
    public: bool,
    m: bool,
    synth: bool,
    z: u64,
    param: u64,
    name: String,
}
/// stands for a symbol without a name
const NONAME: &str = "\0";
/// the symbols of an ELF or PE file
fn o_file(i: &Input, p: Platform, file: &str) -> Option<BTreeMap<u64, S>> {
    match i {
        Input::Text(_) => None,
        Input::Elf(e) => {
            let pubs: Vec<F> = e.syms.iter().map(|q| F { a: q.1, z: q.2, n: q.0.clone() }).collect();
            let mut w = o_symbols(p, &[], &[], file, &pubs);
            for (n, a, _) in &e.secs {
                w.entry(*a as u32 as u64).or_insert(S { public: true, m: false, synth: true, z: 0, param: 0, name: format!("<{n} ELF section in {file}>") });
            }
            Some(w)
        }
        Input::Pe(m) => {
            let pubs: Vec<F> = m.exports.iter().map(|q| F { a: q.1 as u64, z: 0, n: q.0.clone().unwrap_or(NONAME.into()) }).collect();
            let mut w = o_symbols(p, &[], &m.pdata, file, &pubs);
            if let Some((a, s)) = w.iter().next_back() {
                let k = a + s.z.max(1);
                if k <= u32::MAX as u64 {
                    w.insert(k, S { public: true, m: false, synth: true, z: 0, param: 0, name: format!("<unknown in {file}>") });
                }
            }
            Some(w)
        }
    }
}
fn gen_pe(r: &mut Rng, addr: fn(&mut Rng) -> u64) -> MPe {
    let mut guid = [0; 16];
    guid.copy_from_slice(&ID[..16]);
    let pick = |r: &mut Rng| loop {
        let a = addr(r) as u32;
        if a >> 16 != 0x7000 {
            return a;
        }
    };
    let exports = (0..r.below(6)).map(|_| ((!r.one_in(12)).then(|| ident(r)), pick(r))).collect();
    let pdata = (0..r.below(6))
        .map(|_| {
            let a = pick(r);
            (a, if r.one_in(12) { a.saturating_sub(1) } else { a.saturating_add(size(r) as u32) })
        })
        .collect();
    MPe { guid, age: 0, pdb: r.pick(&["C:\\x\\m.pdb", "m.pdb", "/a/b.pdb"]).to_string(), exports, pdata, stamp: r.next() as u32, image: r.below(1 << 24) as u32 }
}
fn inside(map: &BTreeMap<u64, S>, a: u64) -> bool {
    map.range(..a).next_back().is_some_and(|(k, s)| a < k + s.z)
}
/// the symbols of a module, before those for whole sections are added
fn o_symbols(p: Platform, funs: &[F], holders: &[(u32, u32)], modname: &str, pubs: &[F]) -> BTreeMap<u64, S> {
    let mut map: BTreeMap<u64, S> = BTreeMap::new();
    for f in funs {
        if f.a == 0 {
            continue;
        }
        let k = f.a as u32 as u64;
        match map.get_mut(&k) {
            Some(s) => s.m = true,
            None => {
                let name = o_name(&MName(f.n.clone(), false, Language::Unknown));
                map.insert(k, S { public: false, m: false, synth: false, z: f.z as u32 as u64, param: 0, name });
            }
        }
    }
    for (a, b) in holders {
        let k = *a as u64;
        if b < a || inside(&map, k) || map.contains_key(&k) {
            continue;
        }
        let name = if modname.is_empty() { "<unknown>".to_string() } else { format!("<unknown in {modname}>") };
        map.insert(k, S { public: false, m: false, synth: true, z: (b - a) as u64, param: 0, name });
    }
    for q in pubs {
        let k = q.a as u32 as u64;
        if inside(&map, k) || (q.n != NONAME && o_skip(&q.n)) {
            continue;
        }
        let (nm, ps) = if p == Platform::Win && q.n != NONAME { o_win(&q.n) } else { (q.n.clone(), None) };
        match map.get_mut(&k) {
            Some(s) if s.public => s.m = true,
            Some(s) => {
                if p == Platform::Win && q.n != NONAME {
                    if !s.name.contains('(') {
                        s.name = o_public(&nm);
                    }
                    if let Some(v) = ps {
                        s.param = v as u64;
                    }
                }
            }
            None => {
                map.insert(k, S { public: true, m: false, synth: false, z: q.z as u32 as u64, param: ps.unwrap_or(0) as u64, name: if q.n == NONAME { "<name omitted>".into() } else { o_public(&nm) } });
            }
        }
    }
    map
}
fn flat(map: &BTreeMap<u64, S>) -> Vec<(u64, bool, bool, u64, u64, String)> {
    map.iter().map(|(a, s)| (*a, s.public, s.m, if s.public { 0 } else { s.z }, s.param, s.name.clone())).collect()
}
fn got(s: &Sym) -> Vec<(u64, bool, bool, u64, u64, String)> {
    s.recs.iter().map(|r| (r.addr, r.public, r.multiple, r.size, r.param, r.name.clone())).collect()
}
fn addr(r: &mut Rng) -> u64 {
    match r.below(14) {
        0 => 0,
        1 => 0xffff_ff00 + r.below(0x100),
        2 => 0x1_0000_0000 + r.below(40),
        _ => r.range(1, 40),
    }
}
fn size(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => 0xffff_ffff,
        2 => 0x1_0000_0000 + r.below(9),
        _ => r.below(9),
    }
}
pub fn c07(r: &mut Rng, k: u64) -> Case {
    let p = *r.pick(&[Platform::Linux, Platform::Mac, Platform::Win]);
    let nf = r.below(6);
    let np = r.below(8);
    if k % 3 == 0 {
        // ELF: publics with sizes; PE: placeholders
        let (input, p) = if r.one_in(2) {
            let secs: Vec<(String, u64, u64)> = (0..r.range(1, 2)).map(|i| (format!(".t{i}"), addr(r), 100)).collect();
            let syms = (0..np + 1).map(|_| (ident(r), addr(r), size(r))).collect();
            (Input::Elf(MElf { id: [7; 20], secs, syms }), if p == Platform::Win { Platform::Mac } else { p })
        } else {
            (Input::Pe(gen_pe(r, addr)), p)
        };
        let file = *r.pick(&["mod.so", "a b", "x(1).dll"]);
        describe(format!("platform {p:?}, file name {file}, {input:x?}"));
        let s = parse(&dump(&load(&input, file, p, k % 2 == 0)?)?)?;
        eq("symbols (address, public, m, size, parameter size, name)", got(&s), flat(&o_file(&input, p, file).unwrap()))?;
        return Ok(s.recs.len() > 2);
    }
    let funs: Vec<F> = (0..nf).map(|_| F { a: addr(r), z: size(r), n: ident(r) }).collect();
    let pubs: Vec<F> = (0..np).map(|_| F { a: addr(r), z: 0, n: ident(r) }).collect();
    let mut t = String::from("MODULE Linux x86_64 000102030405060708090A0B0C0D0E0F0 mod.so\n");
    for f in &funs {
        t += &format!("FUNC {:x} {:x} 0 {}\n", f.a, f.z, f.n);
    }
    for f in &pubs {
        t += &format!("PUBLIC {:x} 0 {}\n", f.a, f.n);
    }
    describe(format!("platform {p:?}, module:\n{t}"));
    let s = parse(&dump(&load(&Input::Text(t), "mod.so", p, k % 2 == 0)?)?)?;
    eq("symbols (address, public, m, size, parameter size, name)", got(&s), flat(&o_symbols(p, &funs, &[], "", &pubs)))?;
    Ok(nf > 0 && np > 0)
}
// ------------------------------------------------------------------ C08
fn deco(r: &mut Rng) -> String {
    let parts = ["_", "@", "@@", "foo", "12", "0", "4294967295", "4294967296", "+3", "-1", "é", "日本", "a", "?", "\u{1F600}", "007", " ", "__", "x@", "8", "__ymm", "__xmm", "__real", "@__ymm", "1", "", "real@", "__real@", "??_C", "__xmm@", "__ymm@", "real", "??_", "__", "\t", "\u{a0}", "b c", ".", "<", ">", "[", ",", "$", "__imp_", "\"", "0x1", "1e3", "A", ":", "("];
    let n = r.range(0, 6);
    let lim = if r.one_in(5) { parts.len() as u64 } else { parts.len() as u64 - 2 };
    (0..n).map(|_| parts[r.below(lim) as usize]).collect()
}
#[cfg(feature = "hooks")]
fn c08_direct(r: &mut Rng) -> Case {
    let n = deco(r);
    describe(format!("Windows public name {n:?}"));
    eq("(name, parameter size)", dump_syms::verif::win_name(&n), o_win(&n))?;
    eq("is skipped", dump_syms::verif::skip(&n), o_skip(&n))?;
    Ok(n.contains('@') || n.contains('_'))
}
#[cfg(not(feature = "hooks"))]
fn c08_direct(_r: &mut Rng) -> Case {
    Ok(false)
}
pub fn c08(r: &mut Rng, k: u64) -> Case {
    if k % 2 == 0 && cfg!(feature = "hooks") {
        return c08_direct(r);
    }
    // names of a module: at free addresses and at a function's address
    let fname = r.pick(&["fun", "fun(int)", "f"]).to_string();
    let mut t = format!("MODULE windows x86_64 000102030405060708090A0B0C0D0E0F0 mod.pdb\nFUNC 1000 10 0 {fname}\n");
    let mut pubs = vec![];
    let mut nontrivial = false;
    for _ in 0..r.range(1, 4) {
        let n = deco(r).trim().to_string();
        let a = if r.one_in(3) { 0x2000 } else { 0x1000 };
        if !n.is_empty() {
            t += &format!("PUBLIC {a:x} 0 {n}\n");
            nontrivial |= n.contains('@') || n.contains('_');
            pubs.push(F { a, z: 0, n });
        }
    }
    describe(format!("module:\n{t}"));
    let s = parse(&dump(&load(&Input::Text(t), "mod.pdb", Platform::Win, true)?)?)?;
    let funs = [F { a: 0x1000, z: 0x10, n: fname }];
    eq("symbols (address, public, m, size, parameter size, name)", got(&s), flat(&o_symbols(Platform::Win, &funs, &[], "", &pubs)))?;
    Ok(nontrivial)
}
// ------------------------------------------------------------------ merging
#[derive(Clone, Debug)]
struct Mod {
    input: Input,
    name: String,
}
const ID: [u8; 20] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20];
fn gen_mod(r: &mut Rng, id: &str, kind: u64, dir: &str, inl: bool) -> Mod {
    let name = format!("m{}.so", r.below(3));
    if kind == 0 {
        let secs = (0..r.range(1, 2)).map(|i| (format!(".t{i}"), r.below(8) * 4, 100)).collect();
        let n = r.below(5);
        let syms = (0..n).map(|_| (format!("s{}", r.below(9)), r.below(8) * 4 + r.below(2), if r.one_in(3) { r.below(8) } else { 0 })).collect();
        return Mod { input: Input::Elf(MElf { id: ID, secs, syms }), name };
    }
    if kind == 7 {
        fn a(r: &mut Rng) -> u64 {
            r.below(8) * 4 + r.below(2)
        }
        return Mod { input: Input::Pe(gen_pe(r, a)), name };
    }
    let nofun = kind == 1;
    let mut t = format!("MODULE Linux x86_64 {id} {name}\n");
    if r.one_in(2) {
        t += &format!("INFO CODE_ID {:08X}\n", r.below(1 << 30));
    }
    let files: Vec<String> = (0..r.range(1, 4)).map(|_| format!("/{dir}{}/f{}.c", if r.one_in(2) { "" } else { "x" }, r.below(5))).collect();
    if !nofun {
        for (i, f) in files.iter().enumerate() {
            t += &format!("FILE {} {f}\n", i * 2);
        }
        if inl {
            for i in 0..3 {
                t += &format!("INLINE_ORIGIN {i} {dir}o{}\n", r.below(4));
            }
        }
        for _ in 0..r.below(5) {
            let (a, z) = (r.range(1, 8) * 4, r.range(1, 8));
            t += &format!("FUNC {a:x} {z:x} 0 fn{}\n", r.below(9));
            let mut at = a;
            let mut rec = vec![];
            while at < a + z {
                let n = r.range(1, 4).min(a + z - at);
                rec.push((at, n));
                at += n;
            }
            if inl {
                // inlined ranges lie within one line record
                for (x, n) in &rec {
                    if r.one_in(3) {
                        let deep = if r.one_in(6) { r.range(1, 40) } else { 1 };
                        for k in 0..deep {
                            t += &format!("INLINE {k} {} {} {} {:x} {:x}\n", r.range(1, 9), r.below(files.len() as u64) * 2, r.below(3), x, n);
                        }
                    }
                }
            }
            for (x, n) in rec {
                t += &format!("{x:x} {n:x} {} {}\n", r.range(1, 20), r.below(files.len() as u64) * 2);
            }
        }
    }
    for _ in 0..r.below(5) {
        t += &format!("PUBLIC {:x} 0 p{}\n", r.below(36), r.below(9));
    }
    for i in 0..r.below(3) {
        t += &format!("STACK CFI INIT {:x} 4 .cfa: $esp {} +\n", i * 16 + r.below(8), r.below(8));
    }
    Mod { input: Input::Text(t), name }
}
struct Side {
    sym: Sym,
    text: String,
}
fn side(m: &Mod, p: Platform, inl: bool) -> Result<(ObjectInfo, Side), String> {
    side_mapped(m, p, inl, &[])
}
#[cfg(not(feature = "hooks"))]
fn load_mapped(i: &Input, name: &str, p: Platform, inl: bool, _maps: &[(&str, &str)]) -> Result<ObjectInfo, String> {
    load(i, name, p, inl)
}
fn side_mapped(m: &Mod, p: Platform, inl: bool, maps: &[(&str, &str)]) -> Result<(ObjectInfo, Side), String> {
    let o = load_mapped(&m.input, &m.name, p, inl, maps)?;
    let text = dump(&o)?;
    let sym = parse(&text)?;
    Ok((o, Side { sym, text }))
}
fn show(ms: &[&Mod], p: Platform, inl: bool) -> String {
    format!("platform {p:?}, inlines {inl}, modules merged in this order: {}", ms.iter().map(|m| format!("[file {}: {}]", m.name, match &m.input { Input::Text(t) => t.clone(), e => format!("{e:x?}") })).collect::<Vec<_>>().join("\n"))
}
fn pair(r: &mut Rng, inl: bool) -> (Mod, Mod) {
    let id = id_of(&ID);
    let kinds = [0, 1, 2, 3, 4, 7, 7];
    let (ka, kb) = (*r.pick(&kinds), *r.pick(&kinds));
    let d = if r.one_in(2) { "l" } else { "r" };
    (gen_mod(r, &id, ka, "l", inl), gen_mod(r, &id, kb, d, inl))
}
/// the symbols of a dump, with what the text does not say; None: the dump is not as expected
fn model(m: &Mod, s: &Sym, p: Platform) -> Option<BTreeMap<u64, S>> {
    match o_file(&m.input, p, &m.name) {
        Some(w) => (flat(&w) == got(s)).then_some(w),
        None => Some(s.recs.iter().map(|r| (r.addr, S { public: r.public, m: r.multiple, synth: false, z: r.size, param: r.param, name: r.name.clone() })).collect()),
    }
}
fn merge_model(big: BTreeMap<u64, S>, small: BTreeMap<u64, S>) -> BTreeMap<u64, S> {
    let mut m = big;
    for (a, s) in small {
        let covered = inside(&m, a);
        match (s.public, m.get_mut(&a)) {
            (false, None) => {
                m.insert(a, s);
            }
            (false, Some(x)) => {
                if x.public {
                    *x = s;
                }
                x.m = true;
            }
            (true, _) if covered => {}
            (true, None) => {
                m.insert(a, s);
            }
            (true, Some(x)) => {
                if s.synth {
                } else if x.synth {
                    *x = s;
                } else if x.name != s.name {
                    x.m = true;
                }
            }
        }
    }
    m
}
pub fn c09(r: &mut Rng, k: u64) -> Case {
    let p = *r.pick(&[Platform::Linux, Platform::Win]);
    let inl = r.one_in(2);
    let (ma, mut mb) = pair(r, inl);
    if k % 16 == 0 {
        match &mut mb.input {
            Input::Text(t) => {
                let other = if r.one_in(2) { "FF0102030405060708090A0B0C0D0E0F0".to_string() } else { id_of(&ID)[..32].to_string() + "1" };
                *t = t.replacen(&id_of(&ID), &other, 1)
            }
            Input::Pe(m) => m.age = 1,
            Input::Elf(m) => m.id[r.below(16) as usize] ^= 1,
        }
    }
    describe(show(&[&ma, &mb], p, inl));
    let (a, sa) = side(&ma, p, inl)?;
    let (b, sb) = side(&mb, p, inl)?;
    let id = |s: &Side| s.sym.module.split(' ').nth(2).unwrap_or("").to_string();
    let same = id(&sa) == id(&sb);
    let res = ObjectInfo::merge(a, b);
    eq("merge succeeds", res.is_ok(), same)?;
    let Ok(o) = res else { return Ok(true) };
    let m = parse(&dump(&o)?)?;
    let (Some(wa), Some(wb)) = (model(&ma, &sa.sym, p), model(&mb, &sb.sym, p)) else { return Ok(false) };
    let want = if wa.len() > wb.len() { merge_model(wa, wb) } else { merge_model(wb, wa) };
    eq("merged symbols (address, public, m, size, parameter size, name)", got(&m), flat(&want))?;
    Ok(!sa.sym.recs.is_empty() && !sb.sym.recs.is_empty())
}
type View = (u64, Vec<(u64, u64, u64, String)>, Vec<(u64, u64, String, String, Vec<(u64, u64)>)>);
fn view(s: &Sym) -> Result<Vec<View>, String> {
    let file = |i: u64| s.files.get(i as usize).cloned().ok_or_else(|| format!("file id {i} has no FILE record"));
    let orig = |i: u64| s.origins.get(i as usize).cloned().ok_or_else(|| format!("origin id {i} has no INLINE_ORIGIN record"));
    let mut out = vec![];
    for r in s.recs.iter().filter(|r| !r.public) {
        let mut l = vec![];
        for x in &r.lines {
            l.push((x.addr, x.len, x.line, file(x.file)?));
        }
        let mut i = vec![];
        for x in &r.inlines {
            i.push((x.depth, x.line, file(x.file)?, orig(x.origin)?, x.ranges.clone()));
        }
        i.sort();
        out.push((r.addr, l, i));
    }
    Ok(out)
}
pub fn c10(r: &mut Rng, _k: u64) -> Case {
    let p = Platform::Linux;
    let inl = !r.one_in(4);
    let id = id_of(&ID);
    let n = if r.one_in(3) { 3 } else { 2 };
    let ms: Vec<Mod> = (0..n)
        .map(|_| {
            let k = r.range(1, 7);
            let d = if r.one_in(2) { "l" } else { "r" };
            gen_mod(r, &id, k, d, inl)
        })
        .collect();
    // distinct paths stay distinct
    let maps: &[(&str, &str)] = if r.one_in(8) { &[*r.pick(&[("^/l/(.*)$", "hg:{1}:"), ("^/(.*)$", "{1} "), ("^/(r.*)$", "/l{1}")])] } else { &[] };
    describe(format!("{}, path mappings {maps:?}", show(&ms.iter().collect::<Vec<_>>(), p, inl)));
    let run = || -> Result<(String, Vec<Sym>), String> {
        let mut sides = vec![];
        let mut acc: Option<ObjectInfo> = None;
        for m in &ms {
            let (o, s) = side_mapped(m, p, inl, maps)?;
            sides.push(s.sym);
            acc = Some(match acc {
                None => o,
                Some(q) => ObjectInfo::merge(q, o).map_err(|e| e.to_string())?,
            });
        }
        Ok((dump(&acc.unwrap())?, sides))
    };
    let (text, sides) = run()?;
    let m = parse(&text)?;
    let views: Vec<View> = {
        let mut v = vec![];
        for s in &sides {
            v.extend(view(s)?);
        }
        v
    };
    for f in view(&m)? {
        if !views.contains(&f) {
            return Err(format!("merged function {f:?} (address, lines with path, inlines with names) is in none of the merged dumps"));
        }
    }
    let mut fl: Vec<_> = m.files.clone();
    fl.sort();
    let k = fl.len();
    fl.dedup();
    eq("number of distinct FILE paths", fl.len(), k)?;
    let all: BTreeSet<String> = sides.iter().flat_map(|s| s.files.clone()).collect();
    eq("set of FILE paths", fl.into_iter().collect::<BTreeSet<_>>(), all)?;
    let mut oo: Vec<String> = m.origins.clone();
    oo.sort();
    oo.dedup();
    let mut wo: Vec<String> = sides.iter().flat_map(|s| s.origins.clone()).collect();
    wo.sort();
    wo.dedup();
    eq("INLINE_ORIGIN names", oo, wo)?;
    let again = run()?.0;
    eq("text of a second run", again, text)?;
    Ok(sides.iter().filter(|s| !s.files.is_empty()).count() > 1)
}
pub fn c11(r: &mut Rng, _k: u64) -> Case {
    let p = Platform::Linux;
    let (ma, mb) = pair(r, true);
    describe(show(&[&ma, &mb], p, true));
    let (a, sa) = side(&ma, p, true)?;
    let (b, sb) = side(&mb, p, true)?;
    let o = ObjectInfo::merge(a, b).map_err(|e| e.to_string())?;
    let m = parse(&dump(&o)?)?;
    let nontrivial = !sa.sym.stack.is_empty() || !sb.sym.stack.is_empty();
    let (big, small, msmall) = if sa.sym.recs.len() > sb.sym.recs.len() { (sa, sb, &mb) } else { (sb, sa, &ma) };
    let mut w: Vec<String> = big.sym.stack.iter().chain(&small.sym.stack).cloned().collect();
    let mut g = m.stack.clone();
    w.sort();
    g.sort();
    eq("STACK records", g, w)?;
    let code = |s: &Sym| s.infos.iter().find_map(|i| i.strip_prefix("CODE_ID ")).map(|s| s.to_string());
    eq("code id", code(&m), code(&big.sym).or(code(&small.sym)))?;
    let stripped = match &msmall.input {
        Input::Text(t) => !t.contains("\nFUNC "),
        _ => true,
    };
    let w: Vec<&str> = m.module.split(' ').collect();
    let from = if stripped { &small.sym } else { &big.sym };
    let f: Vec<&str> = from.module.split(' ').collect();
    eq("debug id", w[2], f[2])?;
    eq("module file name", w[3], f[3])?;
    let _ = (&big.text, &small.text);
    Ok(nontrivial)
}
// ------------------------------------------------------------------ C12
#[cfg(feature = "hooks")]
fn mapped_names(o: &Object, pe: Option<&str>, p: Platform, inl: bool) -> Result<ObjectInfo, String> {
    let m = dump_syms::verif::Map::new(&None, &Some(vec!["^/d/(.*)[.]c$"]), &Some(vec!["{1}: "]), &None)?;
    dump_syms::verif::from_object(o, "dir/out.name", pe, p, m, inl)
}
#[cfg(not(feature = "hooks"))]
fn mapped_names(_o: &Object, _pe: Option<&str>, _p: Platform, _inl: bool) -> Result<ObjectInfo, String> {
    unreachable!()
}
pub fn c12(r: &mut Rng, k: u64) -> Case {
    let extra = vec!["GENERATOR x y".to_string(), "VENDOR moz".to_string()];
    let _ = dump_syms::common::EXTRA_INFO.set(extra.clone());
    if k % 2 == 1 {
        // anything: it must be readable by the strict parser
        let (ma, mb) = pair(r, true);
        describe(show(&[&ma, &mb], Platform::Linux, true));
        let (a, sa) = side(&ma, Platform::Linux, true)?;
        let (b, _) = side(&mb, Platform::Linux, true)?;
        let m = ObjectInfo::merge(a, b).map_err(|e| e.to_string())?;
        parse(&dump(&m)?)?;
        return Ok(!sa.sym.recs.is_empty());
    }
    let p = *r.pick(&[Platform::Mac, Platform::Win, Platform::Linux]);
    let pn = match p {
        Platform::Mac => "Mac",
        Platform::Win => "windows",
        Platform::Linux => "Linux",
    };
    let (arch, _) = *r.pick(&[("x86_64", 0), ("x86", 0), ("arm64", 0)]);
    let id = "0123456789ABCDEF0123456789ABCDEF1";
    let mut t = format!("MODULE Linux {arch} {id} orig\n");
    let mut w = format!("MODULE {pn} {arch} {id} out.name\n");
    let code = r.one_in(2).then(|| format!("{:X}", r.range(16, 1 << 40)));
    let pe = if r.one_in(3) { Some(*r.pick(&["prog.exe", "p q.dll", "é", "日本", "x.exe\u{3000}", "y ", "a  b.dll", "t\tu.exe"])) } else { None };
    if let Some(c) = &code {
        t += &format!("INFO CODE_ID {c} whatever\n");
        w += &format!("INFO CODE_ID {c}{}\n", pe.map(|p| format!(" {}", p.trim())).unwrap_or_default());
    }
    for e in &extra {
        w += &format!("INFO {e}\n");
    }
    // inlined calls: with one file, so that its number does not depend on the order of the records
    let calls = r.one_in(3);
    let nfiles = if calls { 1 } else { r.below(4) };
    for i in 0..nfiles {
        t += &format!("FILE {i} /d/f{i}.c\n");
    }
    let inl = calls || r.one_in(2);
    let mut origins: Vec<&str> = vec![];
    if calls {
        for (i, n) in ["in lined", "\x01 \x01", "zo\x7fe", "\x02", "\x01<x> "].iter().enumerate() {
            t += &format!("INLINE_ORIGIN {i} {n}\n");
            let shown = ["in lined", "<name omitted>", "zoe", "<name omitted>", "<x>"][i];
            origins.push(shown);
        }
    }
    let mut called: Vec<usize> = vec![];
    let mut body = String::new();
    let mut used: Vec<u64> = vec![];
    let mut at = r.range(1, 0x1000);
    let mut pubs = String::new();
    for _ in 0..r.below(6) {
        let name = r.pick(&["foo", "b ar", "x::y(int)", "a\u{e9}", "t\x01ab\x7f", "m n"]).to_string();
        // now and then a very long one (also a multiple of a power of two)
        let name = if r.one_in(30) { format!("{name}{}{}", "é<T>::".repeat(r.pick(&[90u64, 1200, 10000]).to_owned() as usize), r.pick(&["", "z\x01", "\x7fy"])) } else { name };
        let clean = o_noctl(&name);
        if r.one_in(2) && nfiles > 0 {
            let many = calls && r.one_in(20);
            let z = if r.one_in(8) { 0 } else if many { r.range(800, 3000) } else { r.range(1, 40) };
            let dup = r.one_in(5);
            t += &format!("FUNC {at:x} {z:x} 0 {name}\n");
            let mut shown = (clean.clone(), 0);
            if p == Platform::Win && r.one_in(3) {
                // the size of the parameters comes from the public symbol there
                let n = r.range(0, 300);
                pubs += &format!("PUBLIC {at:x} 0 _dec@{n}\n");
                shown = (if clean.contains('(') { clean } else { "dec".into() }, n);
            }
            body += &format!("FUNC {}{at:x} {z:x} {:x} {}\n", if dup { "m " } else { "" }, shown.1, shown.0);
            let mut x = at;
            let mut last = None;
            let (mut tl, mut bl, mut cells) = (String::new(), String::new(), vec![]);
            while x < at + z {
                let n = r.range(1, 20).min(at + z - x);
                let f = r.below(nfiles);
                let mut ln = r.range(1, 5_000_000);
                while last == Some((ln, f)) {
                    ln += 1;
                }
                last = Some((ln, f));
                tl += &format!("{x:x} {n:x} {ln} {f}\n");
                cells.push((x, n));
                let i = used.iter().position(|u| *u == f).unwrap_or_else(|| {
                    used.push(f);
                    used.len() - 1
                });
                bl += &format!("{x:x} {n:x} {ln} {i}\n");
                x += n;
            }
            if calls && !cells.is_empty() && r.one_in(2) {
                // one call, of one or two ranges of lines
                let i = if many { 0 } else { r.below(cells.len() as u64) as usize };
                let mut rg = format!(" {:x} {:x}", cells[i].0, cells[i].1);
                let mut j = i + 2;
                while j < cells.len() && (many || r.one_in(2)) {
                    rg += &format!(" {:x} {:x}", cells[j].0, cells[j].1);
                    j += if many { 2 } else { cells.len() };
                }
                let o = r.below(origins.len() as u64) as usize;
                let ln = r.range(1, 5_000_000);
                t += &format!("INLINE 0 {ln} 0 {o}{rg}\n");
                let k = called.iter().position(|u| *u == o).unwrap_or_else(|| {
                    called.push(o);
                    called.len() - 1
                });
                body += &format!("INLINE 0 {ln} 0 {k}{rg}\n");
            }
            t += &tl;
            body += &bl;
            if dup {
                t += &format!("FUNC {at:x} {z:x} 0 other\n");
            }
            at += z.max(1) + r.range(0, 60);
        } else {
            let n = if p == Platform::Win && r.one_in(3) { r.range(1, 300) } else { 0 };
            let (name, clean) = if n > 0 { (format!("_dec@{n}"), "dec".to_string()) } else { (name, clean) };
            pubs += &format!("PUBLIC {at:x} 0 {name}\n");
            let dup = r.one_in(4);
            if dup {
                pubs += &format!("PUBLIC {at:x} 0 other\n");
            }
            body += &format!("PUBLIC {}{at:x} {n:x} {clean}\n", if dup { "m " } else { "" });
            at += r.range(1, 60);
        }
    }
    t += &pubs;
    let maps = cfg!(feature = "hooks") && r.one_in(8);
    for (i, f) in used.iter().enumerate() {
        let path = if maps { format!("f{f}: ") } else { format!("/d/f{f}.c") };
        w += &format!("FILE {i} {path}\n");
    }
    for (k, o) in called.iter().enumerate() {
        w += &format!("INLINE_ORIGIN {k} {}\n", origins[*o]);
    }
    w += &body;
    for i in 0..r.below(3) {
        let s = format!("STACK CFI INIT {:x} 4 .cfa: $esp {} +\n", i * 16 + r.below(8), r.below(8));
        t += &s;
        w += &s;
    }
    describe(format!("platform {p:?}, inlines {inl}, PE name {pe:?}, module:\n{t}"));
    let o = Object::parse(t.as_bytes()).map_err(|e| format!("harness: {e}"))?;
    let o = if maps { mapped_names(&o, pe, p, inl)? } else { ObjectInfo::from_object(&o, "dir/out.name", None, pe, p, None, inl).map_err(|e| e.to_string())? };
    let g = dump(&o)?;
    parse(&g)?;
    eq("text", g.lines().collect::<Vec<_>>(), w.lines().collect::<Vec<_>>())?;
    eq("length of the text", g.len(), w.len())?;
    Ok(!body.is_empty())
}
// ------------------------------------------------------------------ C21
pub fn c21(r: &mut Rng, k: u64) -> Case {
    let suf = [".cold", ".constprop", ".llvm", ".localalias", ".lto_priv", ".isra", ".part", ".str", ".12", ".0", " [clone .x]", "[clone]", " [clone a b] ", ".colder", ".foo", "]", " ", ".", ".cold.", "x", "[clone", "`anonymous namespace'", "::f", "\n", "\r", "\x7f", "\t"];
    let mut m = gen_name(r);
    if r.one_in(3) {
        m.0 = r.pick(&["_ZN12_GLOBAL__N_13fooEv", "?f@?A0x12345678@@YAXXZ", "_ZN3foo3barILi3EEEvT_", "_Z3addii", "_ZNK4core3fmt9Arguments6as_str17h0123456789abcdefE", "plain", "`anonymous namespace'::x", "a`anonymous namespace'b`anonymous namespace'"]).to_string();
    }
    // now and then many, or a long one
    let n = if r.one_in(25) { r.range(5, 300) } else { r.below(4) };
    for _ in 0..n {
        m.0 += r.pick(&if n > 4 { &suf[..12] } else { &suf[..] });
    }
    if r.one_in(25) {
        m.0 += &match r.below(3) {
            0 => format!(" [clone {}]", "é.y ".repeat(r.range(20, 900) as usize)),
            1 => format!(".llvm.{}", "9".repeat(r.range(15, 900) as usize)),
            _ => format!(".{}", "a".repeat(r.range(15, 900) as usize)),
        };
    }
    if k % 2 == 0 {
        // PUBLIC, through an ELF symbol table
        let n = m.0.replace('\0', "");
        describe(format!("public symbol name {n:?}"));
        let e = MElf { id: ID, secs: vec![(".t".into(), 0x1000, 100)], syms: vec![(n.clone(), 0x1010, 4)] };
        let o = load(&Input::Elf(e), "m", Platform::Linux, true)?;
        let s = parse(&dump(&o)?)?;
        if o_skip(&n) {
            return Ok(false);
        }
        let g: Vec<&str> = s.recs.iter().filter(|r| r.addr == 0x1010).map(|r| r.name.as_str()).collect();
        let want = o_public(&n);
        eq("PUBLIC name", g, vec![want.as_str()])?;
        return Ok(want != n);
    }
    c21_fun(r, &m)
}
#[cfg(feature = "hooks")]
fn c21_fun(_r: &mut Rng, m: &MName) -> Case {
    use symbolic::debuginfo::{FileInfo, Function, LineInfo};
    describe(format!("function and inline name {m:?}"));
    let line = || LineInfo { address: 0x10, size: Some(4), file: FileInfo::from_path(b"/a.c"), line: 3 };
    let inner = Function { address: 0x10, size: 4, name: mname(m), compilation_dir: b"", lines: vec![line()], inlinees: vec![], inline: true };
    let f = Function { address: 0x10, size: 8, name: mname(m), compilation_dir: b"", lines: vec![line()], inlinees: vec![inner], inline: false };
    let (syms, _, or) = dump_syms::verif::collect(std::slice::from_ref(&f), Platform::Linux, true, None);
    let want = o_name(m);
    let head = format!("FUNC 10 8 0 {want}\n");
    if !syms[0].starts_with(&head) {
        return Err(format!("FUNC record {:?}, expected {head:?}", syms[0].lines().next()));
    }
    eq("INLINE_ORIGIN name", or, vec![want.clone()])?;
    Ok(want != m.0)
}
#[cfg(not(feature = "hooks"))]
fn c21_fun(_r: &mut Rng, m: &MName) -> Case {
    // through a Breakpad text: unmangled names only
    let n = m.0.trim().replace(['\n', '\r'], "");
    if n.is_empty() {
        return Ok(false);
    }
    let t = format!("MODULE Linux x86_64 000102030405060708090A0B0C0D0E0F0 mod.so\nFUNC 10 8 0 {n}\n");
    describe(format!("module:\n{t}"));
    let s = parse(&dump(&load(&Input::Text(t), "mod.so", Platform::Linux, true)?)?)?;
    eq("FUNC name", s.recs[0].name.clone(), o_name(&MName(n.clone(), false, Language::Unknown)))?;
    let _ = mname(m);
    Ok(true)
}
