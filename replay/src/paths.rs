//! C13, C16, C22: paths.
use crate::funcs::{o_abs, o_join};
use crate::{describe, eq, Case, Rng};
use dump_syms::platform::Platform;

fn piece(r: &mut Rng) -> String {
    let parts = ["/", "\\", "a", "b.c", "dir", "..", ".", "C:", "c:", ":", " ", "é", "//", "\\\\", "x", "srv"];
    let n = r.range(0, 6);
    (0..n).map(|_| *r.pick(&parts)).collect()
}
pub fn c13(r: &mut Rng, k: u64) -> Case {
    let p = *r.pick(&[Platform::Linux, Platform::Mac, Platform::Win]);
    let (a, b) = (piece(r), piece(r));
    if k % 3 == 0 && cfg!(feature = "hooks") {
        return c13_src(r, p, k);
    }
    describe(format!("platform {p:?}, left {a:?}, right {b:?}"));
    eq("is_absolute_path(left)", p.is_absolute_path(&a), o_abs(p, &a))?;
    eq("join_paths(left, right)", p.join_paths(&a, &b), o_join(p, &a, &b))?;
    Ok(!a.is_empty() && !b.is_empty())
}
#[cfg(feature = "hooks")]
fn c13_src(r: &mut Rng, p: Platform, k: u64) -> Case {
    use crate::funcs::{o_path, to_file, MFile};
    let raw = |r: &mut Rng| {
        let mut v = piece(r).into_bytes();
        if r.one_in(8) {
            v.push(0xe9);
        }
        v
    };
    let comp = if r.one_in(4) { vec![] } else { raw(r) };
    let f = MFile { dir: raw(r), name: raw(r), owned: r.below(4) as u8, within: None };
    // canonicalisation works on the files of this machine: only for paths that do not exist
    let canon = k % 6 == 0 && p != Platform::Win;
    let mut want = o_path(p, &comp, &f);
    if canon {
        if std::path::Path::new(&want).exists() || want.contains('\0') {
            return Ok(false);
        }
        want = o_norm(&want);
    }
    describe(format!("platform {p:?}, compilation directory {:?}, file {f:?}, canonicalize {canon}", String::from_utf8_lossy(&comp)));
    let mut s = dump_syms::verif::Src::new(p, canon, None);
    let i = s.id(&comp, &to_file(std::slice::from_ref(&f), 0));
    eq("file id", i, 0)?;
    eq("path", s.list(), vec![want])?;
    Ok(!comp.is_empty())
}
#[cfg(not(feature = "hooks"))]
fn c13_src(_r: &mut Rng, _p: Platform, _k: u64) -> Case {
    Ok(false)
}
pub fn c16(r: &mut Rng, _k: u64) -> Case {
    let exts = ["pdb", "PDB", "Pdb", "pd_", "PD_", "pD_", "ex_", "EX_", "dl_", "Dl_", "exe", "dll", "so", "6", "sym", "pdb_", "p", "", "dbg", "pd"];
    let stems = ["xul", "a.b", "lib c", ".hidden", "x.pdb", "x.pd_", "é", "a.", "ntdll", "foo.exe"];
    let mut n = r.pick(&stems).to_string();
    for _ in 0..r.below(3) {
        n += ".";
        n += *r.pick(&exts);
    }
    if r.one_in(10) {
        n = format!(".{}", r.pick(&exts));
    }
    if r.one_in(12) {
        n += *r.pick(&[".", "..", " ", "-", "_", ". ", "é", "%20", "~1"]);
    }
    if n == "." || n == ".." {
        n.push('x');
    }
    let id = format!("{:X}", r.next());
    describe(format!("module {n:?}, debug id {id}"));
    let got = dump_syms::utils::get_path_for_sym(&n, &id);
    // a leading dot does not start an extension
    let (stem, ext) = match n.char_indices().filter(|(i, c)| *c == '.' && *i > 0).last() {
        Some((i, _)) => (&n[..i], Some(&n[i + 1..])),
        None => (n.as_str(), None),
    };
    let low = |s: &str| s.chars().map(|c| c.to_ascii_lowercase()).collect::<String>();
    let base = match ext.map(low).as_deref() {
        Some("pd_") => format!("{stem}.pdb"),
        Some("ex_") => format!("{stem}.exe"),
        Some("dl_") => format!("{stem}.dll"),
        _ => n.clone(),
    };
    let file = if n.len() >= 4 && n.is_char_boundary(n.len() - 4) && low(&n[n.len() - 4..]) == ".pdb" { format!("{}.sym", &n[..n.len() - 4]) } else { format!("{n}.sym") };
    eq("path in the store", got.to_str().unwrap().to_string(), format!("{base}/{id}/{file}"))?;
    Ok(ext.is_some())
}
pub fn o_norm(s: &str) -> String {
    let mut st: Vec<&str> = vec![];
    for c in s.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                st.pop();
            }
            _ => st.push(c),
        }
    }
    format!("{}{}", if s.starts_with('/') { "/" } else { "" }, st.join("/"))
}
pub fn c22(r: &mut Rng, _k: u64) -> Case {
    let parts = ["/", "/", "//", "a", "bb", "..", ".", "...", "..a", "a..", "c d", "é", ".x", "../", "./", "\\", "~", "-", "~a", " ", "C:", "*", "$x", "a", "con"];
    let n = if r.one_in(40) { r.range(60, 700) } else { r.range(0, 9) };
    let down = r.one_in(2);
    let s: String = (0..n).map(|_| if n > 9 && down && r.one_in(2) { "a/b" } else { *r.pick(&parts) }).collect();
    describe(format!("path {s:?}"));
    let got = dump_syms::utils::normalize_path(&s);
    let g = got.to_str().unwrap().to_string();
    eq("normalised path", g.clone(), o_norm(&s))?;
    eq("normalised again", dump_syms::utils::normalize_path(&got).to_str().unwrap().to_string(), g)?;
    Ok(s.contains(".."))
}
