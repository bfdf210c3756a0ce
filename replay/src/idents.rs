//! C23: which object of a file is dumped, and how its module is identified.
use crate::pe::{pe_bytes, MPe};
use crate::syms::{elf_bytes_id, MElf};
use crate::{describe, eq, Case, Dir, Rng};
use dump_syms::dumper::{several_files, single_file, Config, FileOutput, Output};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}
/// the debug id of an ELF or PE identifier: a little-endian GUID
fn guid(b: &[u8]) -> String {
    let mut v = b[..16].to_vec();
    v[0..4].reverse();
    v[4..6].reverse();
    v[6..8].reverse();
    hex(&v)
}
fn bytes<const N: usize>(r: &mut Rng) -> [u8; N] {
    let mut b = [0u8; N];
    for x in b.iter_mut() {
        *x = r.below(256) as u8;
    }
    b[0] |= 0x10; // never all zero
    b
}
/// an ELF file with a machine and a SONAME
fn elf(m: &MElf, id: &[u8], machine: u16, soname: Option<&str>) -> Vec<u8> {
    let mut d = elf_bytes_id(m, id);
    d[18..20].copy_from_slice(&machine.to_le_bytes());
    if let Some(n) = soname {
        let str_off = d.len() as u64;
        d.push(0);
        d.extend_from_slice(n.as_bytes());
        d.push(0);
        let str_len = d.len() as u64 - str_off;
        while d.len() % 8 != 0 {
            d.push(0);
        }
        let dyn_off = d.len() as u64;
        for v in [14u64, 1, 5, str_off, 10, str_len, 0, 0] {
            d.extend_from_slice(&v.to_le_bytes());
        }
        let dyn_len = d.len() as u64 - dyn_off;
        let ph = d.len() as u64;
        let all = ph + 112;
        for (t, off, len) in [(1u32, 0u64, all), (2, dyn_off, dyn_len)] {
            d.extend_from_slice(&t.to_le_bytes());
            d.extend_from_slice(&6u32.to_le_bytes());
            for v in [off, off, off, len, len, 8] {
                d.extend_from_slice(&v.to_le_bytes());
            }
        }
        d[32..40].copy_from_slice(&ph.to_le_bytes());
        d[56..58].copy_from_slice(&2u16.to_le_bytes());
    }
    d
}
pub const CPUS: [(u32, u32, &str); 6] =
    [(0x0100_0007, 3, "x86_64"), (0x0100_000c, 0, "arm64"), (7, 3, "x86"), (12, 9, "armv7"), (0x0100_0007, 8, "x86_64h"), (0x0100_000c, 2, "arm64e")];
pub fn macho(cpu: (u32, u32), uuid: Option<&[u8; 16]>, name: Option<&str>) -> Vec<u8> {
    let wide = cpu.0 & 0x0100_0000 != 0;
    let mut cmds: Vec<u8> = vec![];
    let mut n = 0u32;
    let w = |d: &mut Vec<u8>, v: u32| d.extend_from_slice(&v.to_le_bytes());
    if let Some(nm) = name {
        let len = (24 + nm.len() + 1).div_ceil(8) * 8;
        let at = cmds.len();
        for v in [0xd, len as u32, 24, 0, 0, 0] {
            w(&mut cmds, v);
        }
        cmds.extend_from_slice(nm.as_bytes());
        cmds.resize(at + len, 0);
        n += 1;
    }
    if let Some(u) = uuid {
        w(&mut cmds, 0x1b);
        w(&mut cmds, 24);
        cmds.extend_from_slice(u);
        n += 1;
    }
    // LC_SOURCE_VERSION
    for v in [0x2a, 16, 0, 0] {
        w(&mut cmds, v);
    }
    n += 1;
    let mut d = vec![];
    for v in [if wide { 0xfeed_facf } else { 0xfeed_face }, cpu.0, cpu.1, 6, n, cmds.len() as u32, 0] {
        w(&mut d, v);
    }
    if wide {
        w(&mut d, 0);
    }
    d.extend_from_slice(&cmds);
    d
}
pub fn fat(members: &[((u32, u32), Vec<u8>)]) -> Vec<u8> {
    let mut d: Vec<u8> = vec![];
    let w = |d: &mut Vec<u8>, v: u32| d.extend_from_slice(&v.to_be_bytes());
    w(&mut d, 0xcafe_babe);
    w(&mut d, members.len() as u32);
    let mut at = (8 + 20 * members.len()).div_ceil(64) * 64;
    for (c, m) in members {
        for v in [c.0, c.1, at as u32, m.len() as u32, 6] {
            w(&mut d, v);
        }
        at += m.len().div_ceil(64) * 64;
    }
    for (_, m) in members {
        d.resize(d.len().div_ceil(64) * 64, 0);
        d.extend_from_slice(m);
    }
    d
}
fn last<'a>(s: &'a str, seps: &[char]) -> &'a str {
    s.rsplit(|c| seps.contains(&c)).next().unwrap()
}
/// what the first lines of the dump must be
struct Want {
    module: String,
    code: Option<String>,
}
pub fn c23(r: &mut Rng, k: u64) -> Case {
    let d = Dir::new();
    let file = *r.pick(&["lib.so", "x", "prog.exe", "a.b.dll", "libfoo.dylib", "sp ace.bin"]);
    let mut arch = "x86_64";
    let (bytes_, want): (Vec<u8>, Option<Want>) = match k % 4 {
        0 => {
            let m = MElf { id: bytes(r), secs: vec![(".text".into(), 0x1000, 0x1000)], syms: vec![("f".into(), 0x1000, 4)] };
            let (em, cpu) = *r.pick(&[(62u16, "x86_64"), (183, "arm64"), (3, "x86"), (21, "ppc64"), (62, "x86_64")]);
            arch = r.pick(&CPUS).2;
            let so = *r.pick(&[None, Some("libreal.so.1"), Some("/usr/lib/libdeep.so"), Some("a\\b.so"), Some("lib.so")]);
            // build ids of other lengths (md5, sha256, sha512)
            let id = bytes::<64>(r)[..*r.pick(&[20, 20, 16, 32, 64])].to_vec();
            describe(format!("ELF {file}, machine {em}, SONAME {so:?}, build id {}, requested architecture {arch}", hex(&id)));
            let mut b = elf(&m, &id, em, so);
            let damaged = r.one_in(8);
            if damaged {
                let n = r.range(5, 60) as usize;
                b.truncate(n);
                describe(format!("ELF file cut to {n} bytes"));
            }
            let w = Want { module: format!("Linux {cpu} {}0 {}", guid(&id), last(so.unwrap_or(file), &['/'])), code: Some(hex(&id)) };
            (b, (!damaged).then_some(w))
        }
        1 | 2 => {
            let n = *r.pick(&[1u64, 1, 2, 2, 3, 4]);
            arch = r.pick(&CPUS).2;
            let mut ms = vec![];
            for _ in 0..n {
                // also a processor that has no name
                let c = if r.one_in(10) { (6, 0, "unknown") } else { *r.pick(&CPUS) };
                // all zero: no UUID
                let id: [u8; 16] = if r.one_in(6) { [0; 16] } else { bytes(r) };
                let name = *r.pick(&[None, None, Some("/usr/lib/libz.dylib"), Some("@rpath/My Frame"), Some("plain")]);
                // a member that cannot be read
                let bad = r.one_in(6);
                ms.push((c, id, name, bad));
            }
            let thin = n == 1 && r.one_in(2);
            describe(format!(
                "Mach-O {file} ({}), requested architecture {arch}, objects (architecture, UUID, name, damaged): {:?}",
                if thin { "thin" } else { "fat" },
                ms.iter().map(|m| (m.0 .2, hex(&m.1), m.2, m.3)).collect::<Vec<_>>()
            ));
            let raw: Vec<_> = ms
                .iter()
                .map(|(c, id, name, bad)| {
                    let mut b = macho((c.0, c.1), Some(id).filter(|i| **i != [0; 16]), *name);
                    if *bad {
                        let l = b.len();
                        b.truncate(l - 8); // the commands end past the end of the object
                    }
                    ((c.0, c.1), b)
                })
                .collect();
            let chosen = if n == 1 { Some(&ms[0]).filter(|m| !m.3) } else { ms.iter().find(|m| m.0 .2 == arch && !m.3) };
            let w = chosen.map(|(c, id, name, _)| Want { module: format!("Mac {} {}0 {}", c.2, hex(id), last(name.unwrap_or(file), &['/'])), code: (*id != [0; 16]).then(|| hex(id)) });
            (if thin { raw[0].1.clone() } else { fat(&raw) }, w)
        }
        _ => {
            if r.one_in(6) {
                let b = r.pick(&[&b""[..], b"MODULE Linux x86_64 0 a\n", b"\x7fEL", b"#!/bin/sh\n", b"PK\x03\x04 a zip archive"]).to_vec();
                describe(format!("{file} holds {:?}", String::from_utf8_lossy(&b)));
                (b, None)
            } else if r.one_in(8) {
                // a PDB under any name
                let b = std::fs::read("/repo/test_data/windows/dump_syms_regtest64.pdb").map_err(|e| format!("harness: {e}"))?;
                describe(format!("dump_syms_regtest64.pdb as {file}"));
                (b, Some(Want { module: format!("windows x86_64 72E103A85CB249078B76B2E7C06257B13 {file}"), code: None }))
            } else {
                let pdb = *r.pick(&["x.pdb", "C:\\build\\obj\\my.pdb", "D:\\a/b\\c.pdb", "/home/u/out/m.pdb", "rel\\dir\\n m.pdb", "x\\y/z.pdb"]);
                let m = MPe {
                    guid: bytes(r),
                    age: r.range(1, 40) as u32,
                    pdb: pdb.into(),
                    exports: vec![(Some("f".into()), 0x10)],
                    pdata: vec![(0x1000, 0x1010)],
                    stamp: *r.pick(&[0x1234_abcd, 0xabc, 1, 0xffff_ffff]),
                    image: *r.pick(&[0x1000, 0xabcd000, 0x7f00_0000]),
                };
                let damaged = r.one_in(3);
                if damaged {
                    std::fs::write(d.0.join(last(pdb, &['\\', '/'])), "not a PDB").unwrap();
                }
                describe(format!("PE {file}, {}: {m:?}", if damaged { "a file that is not a PDB next to it" } else { "no PDB to be found" }));
                let w = Want {
                    module: format!("windows x86_64 {}{:x} {}", guid(&m.guid), m.age, last(pdb, &['\\', '/'])),
                    code: Some(format!("{:08X}{:X} {file}", m.stamp, m.image)),
                };
                (pe_bytes(&m), Some(w))
            }
        }
    };
    let p = d.0.join(file);
    std::fs::write(&p, &bytes_).unwrap();
    let out = d.0.join("out.sym");
    let server = format!("srv*{}*http://127.0.0.1:9/x", d.0.join("cache").display());
    let many = r.one_in(3);
    let mut c = Config::with_output(Output::File(FileOutput::Path(out.clone())));
    c.check_cfi = false;
    c.emit_inlines = r.one_in(2);
    c.arch = arch;
    c.num_jobs = 1;
    c.symbol_server = Some(&server);
    let name = p.to_str().unwrap();
    let res = catch_unwind(AssertUnwindSafe(|| if many { several_files(&c, &[name]) } else { single_file(&c, name) }));
    let res = match res {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err(_) => return Err(format!("the dump panicked: {}", crate::last_panic())),
    };
    let Some(want) = want else {
        if res.is_ok() {
            return Err(format!("no object to dump, but the run succeeded; output {:?}", std::fs::read_to_string(&out).ok()));
        }
        eq("an output file is there", out.exists(), false)?;
        return Ok(true);
    };
    if let Err(e) = res {
        return Err(format!("the dump failed: {e}"));
    }
    let t = std::fs::read_to_string(&out).map_err(|e| e.to_string())?;
    let l: Vec<&str> = t.lines().collect();
    eq("first line", l.first().copied(), Some(format!("MODULE {}", want.module).as_str()))?;
    let code: Vec<&str> = l.iter().filter_map(|x| x.strip_prefix("INFO CODE_ID ")).collect();
    eq("code id", code, want.code.iter().map(|s| s.as_str()).collect())?;
    Ok(true)
}
