//! C24: what is read for a file: the file itself, the member of a cabinet, the file of a dSYM bundle.
use crate::{describe, eq, Case, Dir, Rng};
use dump_syms::utils::{read_cabinet, read_file};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

fn cabinet(folders: &[Vec<(String, Vec<u8>)>], zip: bool) -> Result<Vec<u8>, String> {
    let mut b = cab::CabinetBuilder::new();
    for f in folders {
        let x = b.add_folder(if zip { cab::CompressionType::MsZip } else { cab::CompressionType::None });
        for (n, _) in f {
            x.add_file(n.clone());
        }
    }
    let mut w = b.build(std::io::Cursor::new(vec![])).map_err(|e| format!("harness: {e}"))?;
    let mut all = folders.iter().flatten();
    while let Some(mut fw) = w.next_file().map_err(|e| format!("harness: {e}"))? {
        fw.write_all(&all.next().unwrap().1).map_err(|e| format!("harness: {e}"))?;
    }
    Ok(w.finish().map_err(|e| format!("harness: {e}"))?.into_inner())
}
/// the member looked for: a compressed extension stands for the uncompressed one
fn wanted(name: &str) -> String {
    if let Some((stem, ext)) = name.rsplit_once('.') {
        if !stem.is_empty() {
            for (p, e) in [("pd", "pdb"), ("dl", "dll"), ("ex", "exe"), ("db", "dbg")] {
                if ext.starts_with(p) {
                    return format!("{stem}.{e}");
                }
            }
        }
    }
    name.to_string()
}
fn data(r: &mut Rng) -> Vec<u8> {
    let n = if r.one_in(40) { 2_300_000 } else { *r.pick(&[0, 1, 5, 40, 300, 40_000]) };
    let mut x = r.next();
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 60) as u8
        })
        .collect()
}
pub fn c24(r: &mut Rng, k: u64) -> Case {
    let d = Dir::new();
    let name = *r.pick(&["xul.pd_", "xul.pdb", "x.dl_", "prog.ex_", "prog.exe", "noext", "z.db_", "lib.so", "a.b.pd_", "x.PD_", ".pd_", "u.sym", "y.pdbz", "w.exe_", "v.dll_", "u.pd", "t.ex", "s.dlx.d", "r.xpd_"]);
    let path = d.0.join(name);
    let (content, want): (Vec<u8>, Option<Vec<u8>>) = match k % 4 {
        0 => {
            let mut b = data(r);
            if r.one_in(3) {
                b.splice(0..0, *b"MSCF");
            }
            describe(format!("{name}: {} bytes that are no cabinet", b.len()));
            (b.clone(), Some(b))
        }
        _ => {
            let mut fs: Vec<Vec<(String, Vec<u8>)>> = vec![];
            let base: Vec<String> = vec![wanted(name), name.to_string(), "other.pdb".into(), format!("{name}.pdb"), wanted(name).to_uppercase(), "xul.pdb".into()];
            for _ in 0..r.range(1, 3) {
                let mut f = vec![];
                for _ in 0..r.range(1, 4) {
                    let mut n = r.pick(&base).clone();
                    if r.one_in(4) {
                        n = format!("{}/{n}", r.pick(&["dir", "a/b", "xul.pdb"]));
                    } else if r.one_in(12) {
                        n = "dir/..".into();
                    }
                    // the names in a cabinet are different from each other
                    if fs.iter().flatten().chain(&f).all(|x: &(String, Vec<u8>)| x.0 != n) {
                        f.push((n, data(r)));
                    }
                }
                if !f.is_empty() {
                    fs.push(f);
                }
            }
            let zip = r.one_in(2);
            let names: Vec<Vec<(&String, usize)>> = fs.iter().map(|f| f.iter().map(|x| (&x.0, x.1.len())).collect()).collect();
            describe(format!("{name}: cabinet (compressed: {zip}) of {names:?}"));
            let w = wanted(name);
            let want = fs.iter().flatten().find(|x| x.0.rsplit('/').next() == Some(w.as_str())).map(|x| x.1.clone());
            let mut bytes = cabinet(&fs, zip)?;
            // a damaged member cannot be unpacked
            let from = u32::from_le_bytes(bytes[36..40].try_into().unwrap()) as usize;
            if r.one_in(5) && from < bytes.len() {
                let at = r.range(from as u64, bytes.len() as u64 - 1) as usize;
                bytes[at] ^= 1 << r.below(8);
                describe(format!("{}, bit of byte {at} of {} flipped", crate::described(), bytes.len()));
                let member = fs.iter().flatten().find(|x| x.0.rsplit('/').next() == Some(w.as_str())).map(|x| x.0.clone());
                let want = catch_unwind(AssertUnwindSafe(|| {
                    let mut c = cab::Cabinet::new(std::io::Cursor::new(&bytes)).ok()?;
                    let mut out = vec![];
                    std::io::Read::read_to_end(&mut c.read_file(&member?).ok()?, &mut out).ok()?;
                    Some(out)
                }));
                match want {
                    Ok(w) => (bytes, w),
                    Err(_) => return Ok(false),
                }
            } else {
                (bytes, want)
            }
        }
    };
    if r.one_in(5) {
        let got = catch_unwind(AssertUnwindSafe(|| read_cabinet(content, PathBuf::from(name)))).map_err(|_| "panic in read_cabinet".to_string())?;
        eq("bytes read", got, want)?;
        return Ok(true);
    }
    // in a bundle, the only file of the DWARF directory
    let mut arg = path.clone();
    let mut want = want;
    if r.one_in(4) {
        arg = d.0.join("x.dSYM");
        let dir = arg.join(*r.pick(&["Contents/Resources/DWARF", "Contents/Resources/DWARF", "Contents/Resources/DWARF", "Contents/Resources", "Contents"]));
        std::fs::create_dir_all(&dir).unwrap();
        let n = *r.pick(&[1, 1, 1, 0, 2]);
        for i in 0..n {
            std::fs::write(if i == 0 { dir.join(name) } else { dir.join(*r.pick(&["second", ".DS_Store"])) }, &content).unwrap();
        }
        if n != 1 || !dir.ends_with("DWARF") {
            want = None;
        }
        describe(format!("a directory with {n} files in {}, the file(s): {}", dir.strip_prefix(&d.0).unwrap().display(), crate::described()));
    } else {
        std::fs::write(&path, &content).unwrap();
    }
    let got = catch_unwind(AssertUnwindSafe(|| read_file(&arg))).ok();
    eq("bytes read (None: refused)", got, want)?;
    Ok(true)
}
