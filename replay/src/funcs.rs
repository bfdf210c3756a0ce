//! C01..C06: functions, lines, inlines, files, origins.
use crate::model::*;
use crate::{describe, eq, Case, Rng};
use dump_syms::platform::Platform;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use symbolic::common::{Language, Name, NameMangling};
use symbolic::debuginfo::{FileInfo, Function, LineInfo};
use symbolic::demangle::{Demangle, DemangleOptions};

#[derive(Clone, Debug)]
pub struct MFile {
    pub dir: Vec<u8>,
    pub name: Vec<u8>,
    /// 0: both borrowed, 1: both owned, 2: directory borrowed, name owned, 3: the reverse
    pub owned: u8,
    /// the name is the beginning of the name of this file, in the same buffer
    pub within: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct MLine {
    pub addr: u64,
    pub size: Option<u64>,
    pub file: usize,
    pub line: u64,
}
#[derive(Clone, Debug)]
pub struct MName(pub String, pub bool, pub Language);
#[derive(Clone, Debug)]
pub struct MFun {
    pub addr: u64,
    pub size: u64,
    pub name: MName,
    pub comp: Vec<u8>,
    pub lines: Vec<MLine>,
    pub inl: Vec<MFun>,
}
impl MLine {
    fn len(&self) -> u64 {
        self.size.unwrap_or(1)
    }
    fn end(&self) -> u64 {
        self.addr + self.len()
    }
}
pub fn mname(m: &MName) -> Name<'_> {
    Name::new(m.0.as_str(), if m.1 { NameMangling::Mangled } else { NameMangling::Unmangled }, m.2)
}
pub fn to_fun<'a>(m: &'a MFun, files: &'a [MFile], inline: bool) -> Function<'a> {
    Function {
        address: m.addr,
        size: m.size,
        name: mname(&m.name),
        compilation_dir: &m.comp,
        lines: m
            .lines
            .iter()
            .map(|l| LineInfo { address: l.addr, size: l.size, file: to_file(files, l.file), line: l.line })
            .collect(),
        inlinees: m.inl.iter().map(|i| to_fun(i, files, true)).collect(),
        inline,
    }
}
pub fn to_file(files: &[MFile], i: usize) -> FileInfo<'_> {
    let f = &files[i];
    let dir = if f.owned % 2 == 1 { Cow::Owned(f.dir.clone()) } else { Cow::Borrowed(&f.dir[..]) };
    let name = match f.within {
        Some(j) => Cow::Borrowed(&files[j].name[..f.name.len()]),
        None if f.owned == 1 || f.owned == 2 => Cow::Owned(f.name.clone()),
        None => Cow::Borrowed(&f.name[..]),
    };
    FileInfo::new(dir, name)
}
// ------------------------------------------------------------------ oracles
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
pub fn o_abs(p: Platform, s: &str) -> bool {
    if s.starts_with('/') {
        return true;
    }
    if p != Platform::Win {
        return false;
    }
    if s.is_empty() || s.starts_with('\\') {
        return true;
    }
    let first: String = s.chars().take_while(|c| *c != '/' && *c != '\\').collect();
    first.ends_with(':')
}
pub fn o_join(p: Platform, l: &str, r: &str) -> String {
    let sep = |c: char| c == '/' || (p == Platform::Win && c == '\\');
    let mut l: Vec<char> = l.chars().collect();
    while l.last().is_some_and(|c| sep(*c)) {
        l.pop();
    }
    let r: String = r.chars().skip_while(|c| sep(*c)).collect();
    let s = if p == Platform::Win && l.first() != Some(&'/') { '\\' } else { '/' };
    let mut o: String = l.into_iter().collect();
    o.push(s);
    o.push_str(&r);
    o
}
pub fn o_path(p: Platform, comp: &[u8], f: &MFile) -> String {
    let mut dir = lossy(&f.dir);
    if !o_abs(p, &dir) && !comp.is_empty() {
        let c = match std::str::from_utf8(comp) {
            Ok(s) => s.to_string(),
            Err(_) => comp.iter().map(|b| char::from(*b)).collect(),
        };
        dir = o_join(p, &c, &dir);
    }
    o_join(p, &dir, &lossy(&f.name))
}
/// the name without trailing compiler suffixes
pub fn o_strip(s: &str) -> String {
    let b = s.as_bytes();
    let n = b.len();
    let words = ["cold", "constprop", "llvm", "localalias", "lto_priv", "isra", "part", "str"];
    let mut ok = vec![false; n + 1];
    ok[n] = true;
    for i in (0..n).rev() {
        let mut ends = vec![];
        if b[i] == b'.' {
            for w in words {
                if s[i + 1..].starts_with(w) {
                    let e = i + 1 + w.len();
                    ends.push(e);
                    if e < n && b[e] == b'.' {
                        let mut k = e + 1;
                        while k < n && b[k].is_ascii_digit() {
                            k += 1;
                            ends.push(k);
                        }
                    }
                }
            }
        }
        if s.is_char_boundary(i) {
            for st in [i, i + 1] {
                if (st == i || b[i] == b' ') && st < n && s.is_char_boundary(st) && s[st..].starts_with("[clone") {
                    if let Some(c) = s[st + 6..].find(']') {
                        let e = st + 6 + c + 1;
                        ends.push(e);
                        if e < n && b[e] == b' ' {
                            ends.push(e + 1);
                        }
                    }
                }
            }
        }
        ok[i] = ends.iter().any(|e| ok[*e]);
    }
    let cut = (0..=n).find(|i| ok[*i]).unwrap();
    s[..cut].to_string()
}
pub fn o_clean(s: &str) -> String {
    o_strip(s).replace("`anonymous namespace'", "(anonymous namespace)")
}
pub fn o_noctl(s: &str) -> String {
    s.chars().filter(|c| !((*c as u32) < 0x20 || *c as u32 == 0x7f)).collect()
}
/// the display name of a debug-information name
pub fn o_name(m: &MName) -> String {
    let c = o_clean(&m.0);
    let d = if m.2 == Language::C {
        c
    } else {
        let n = Name::new(c.clone(), if m.1 { NameMangling::Mangled } else { NameMangling::Unmangled }, m.2);
        n.demangle(DemangleOptions::complete().return_type(false)).unwrap_or(c)
    };
    o_noctl(&d)
}
/// lengths of sorted line records
fn o_lens(mut v: Vec<(u64, u64, String)>, addr: u64, size: u64) -> Vec<(u64, u64, u64, String)> {
    // stable insertion by address
    let mut s: Vec<(u64, u64, String)> = vec![];
    for x in v.drain(..) {
        let at = s.iter().position(|y| y.0 > x.0).unwrap_or(s.len());
        s.insert(at, x);
    }
    let n = s.len();
    (0..n)
        .map(|i| {
            let len = if i + 1 < n {
                s[i + 1].0 - s[i].0
            } else {
                let end = (addr as u32 as u64) + (size as u32 as u64);
                if end > u32::MAX as u64 || s[i].0 >= end {
                    0
                } else {
                    end - s[i].0
                }
            };
            (s[i].0, len, s[i].1, s[i].2.clone())
        })
        .collect()
}
/// address ranges sorted by start, touching neighbours merged
fn o_merge(mut r: Vec<(u64, u64)>) -> Vec<(u64, u64)> {
    let mut out: Vec<(u64, u64)> = vec![];
    while !r.is_empty() {
        let i = (0..r.len()).min_by_key(|i| r[*i].0).unwrap();
        let x = r.remove(i);
        match out.last_mut() {
            Some(l) if l.0 + l.1 == x.0 => l.1 += x.1,
            _ => out.push(x),
        }
    }
    out
}
type Site = (String, u64, u64, String);
#[derive(Default)]
struct Want {
    lines: Vec<(u64, u64, String)>,
    sites: BTreeMap<Site, Vec<(u64, u64)>>,
    files: BTreeSet<String>,
    names: BTreeSet<String>,
}
/// with inlines, well-formed input
fn o_inlines(p: Platform, f: &MFun, files: &[MFile], depth: u64, w: &mut Want) {
    let mut kids: Vec<(u64, u64, String)> = vec![];
    for c in &f.inl {
        if c.lines.is_empty() {
            continue;
        }
        w.names.insert(o_name(&c.name));
        for l in &c.lines {
            kids.push((l.addr, l.end(), o_name(&c.name)));
        }
        o_inlines(p, c, files, depth + 1, w);
    }
    kids.sort();
    let mut prev: Option<(u64, String)> = None;
    for l in &f.lines {
        let path = o_path(p, &f.comp, &files[l.file]);
        w.files.insert(path.clone());
        let mut at = l.addr;
        let own = |a: u64, b: u64, prev: &mut Option<(u64, String)>, w: &mut Want| {
            if a < b {
                let me = Some((l.line as u32 as u64, path.clone()));
                if *prev != me {
                    w.lines.push((a as u32 as u64, l.line as u32 as u64, path.clone()));
                    *prev = me;
                }
            }
        };
        for (a, b, n) in kids.iter().filter(|k| l.addr <= k.0 && k.0 < l.end()) {
            own(at, *a, &mut prev, w);
            w.sites.entry((n.clone(), depth, l.line as u32 as u64, path.clone())).or_default().push((*a, b - a));
            prev = None;
            at = *b;
        }
        own(at, l.end(), &mut prev, w);
    }
}
fn o_plain(p: Platform, f: &MFun, files: &[MFile], w: &mut Want) {
    let mut prev: Option<(u64, String)> = None;
    for l in &f.lines {
        if l.line == 0 {
            continue;
        }
        let path = o_path(p, &f.comp, &files[l.file]);
        let me = Some((l.line, path.clone()));
        if prev != me {
            w.lines.push((l.addr as u32 as u64, l.line as u32 as u64, path.clone()));
            w.files.insert(path);
            prev = me;
        }
    }
}
// ------------------------------------------------------------------ generators
pub const NAMES: &[&str] = &[
    "foo", "bar", "baz", "a", "qux", "foo.cold", "_ZN3foo3barEv", "_ZN3foo3barEi", "_ZN4core3fmt9Formatter3padE", "?f@@YAXXZ",
    "_ZN4core3ptr13drop_in_place17h0123456789abcdefE", "x\ny", "\t", "z.cold.12", "w.isra.0.part", "with space", "operator()", "_RNvC4core3foo",
    "main", "std::vector", "b\x01\x7fc", "\u{2003}[clone x]", " [clone .y]", "\u{85}", "", "é\x1f", "foo [clone .cold]", "n.str", "long_name_of_a_function", "_Z1fv", "_Z1gILi3EEvT_", "m.llvm.123", "`anonymous namespace'::f",
];
pub fn gen_name(r: &mut Rng) -> MName {
    let n = if r.one_in(6) { format!("fn{}", r.below(5)) } else { r.pick(NAMES).to_string() };
    let l = *r.pick(&[Language::Unknown, Language::C, Language::Cpp, Language::Rust, Language::Cpp]);
    MName(n, !r.one_in(4), l)
}
pub fn gen_files(r: &mut Rng, odd: bool) -> Vec<MFile> {
    let dirs: &[&[u8]] = &[b"", b"/usr/src", b"src", b"../lib", b"C:\\x", b"/a/", b"\\\\srv\\y", b"sub/dir/", b"D:/b", b"b", b"c/d", b"a"];
    let names: &[&[u8]] = &[b"a.c", b"b.cpp", b"c.rs", b"x/y.h", b"/abs.h", b"a.h", b"z", b"y.h", b"d/y.h"];
    let bad: &[&[u8]] = &[b"caf\xe9.c", b"\xff\xfe", b"n\xc3\xa9.c", b"caf\xea.c"];
    let n = r.range(1, 6);
    let mut v: Vec<MFile> = (0..n)
        .map(|_| MFile {
            dir: if odd && r.one_in(8) { r.pick(bad).to_vec() } else { r.pick(dirs).to_vec() },
            name: if odd && r.one_in(5) { r.pick(bad).to_vec() } else { r.pick(names).to_vec() },
            owned: if odd && r.one_in(4) { r.range(1, 3) as u8 } else { 0 },
            within: None,
        })
        .collect();
    if odd && r.one_in(4) {
        // names in one buffer
        let j = r.below(v.len() as u64) as usize;
        v[j].owned = 0;
        let k = r.range(1, v[j].name.len() as u64) as usize;
        let mut f = v[j].clone();
        f.name.truncate(k);
        f.within = Some(j);
        if r.one_in(2) {
            f.dir = r.pick(dirs).to_vec();
        }
        v.push(f);
    }
    if r.one_in(4) {
        // a name that differs from another one in how it is written only
        let j = r.below(v.len() as u64) as usize;
        let mut f = MFile { owned: 0, within: None, ..v[j].clone() };
        let how = r.below(4);
        let dir = r.one_in(2) && !f.dir.is_empty();
        let t = if dir { &mut f.dir } else { &mut f.name };
        match how {
            0 => t.iter_mut().for_each(|c| *c = if *c == b'/' { b'\\' } else if *c == b'\\' { b'/' } else { *c }),
            1 => t.make_ascii_uppercase(),
            2 => t.push(b' '),
            _ => t.extend_from_slice(b"/."),
        }
        if f.name != v[j].name || f.dir != v[j].dir {
            v.push(f);
        }
    }
    v
}
pub fn gen_comp(r: &mut Rng, odd: bool) -> Vec<u8> {
    let dirs: &[&[u8]] = &[b"", b"/build", b"C:\\build\\", b"/w/", b"rel", b"/w"];
    if odd && r.one_in(8) {
        return b"/caf\xe9".to_vec();
    }
    r.pick(dirs).to_vec()
}
/// a line number; sometimes two of them agree in their low bits only
fn gen_line(r: &mut Rng, max: u64) -> u64 {
    let n = r.range(0, max);
    match r.below(12) {
        0 => n + 256 * r.below(4),
        1 => n + 65536 * r.below(3),
        2 => n + (1 << 24) * r.below(3),
        _ => n,
    }
}
/// lines tiling [a, b) with optional gaps
fn gen_tiles(r: &mut Rng, a: u64, b: u64, nf: usize, gaps: bool, maxline: u64) -> Vec<MLine> {
    let mut out = vec![];
    let mut at = a;
    while at < b {
        let len = r.range(1, (b - at).min(if b - at > 200 { 300 } else { 12 }));
        if !(gaps && r.one_in(8)) {
            let size = if len == 1 && r.one_in(3) { None } else { Some(len) };
            out.push(MLine { addr: at, size, file: r.below(nf as u64) as usize, line: gen_line(r, maxline) });
        }
        at += len;
    }
    out
}
fn gen_len(r: &mut Rng, n: u64) -> u64 {
    if r.one_in(20) {
        r.range(n, 3000)
    } else {
        r.range(1, n)
    }
}
/// a deep chain of inlined calls
fn gen_chain(r: &mut Rng, iv: &[(u64, u64)], nf: usize, odd: bool) -> MFun {
    let (a, b) = (iv[0].0, iv[0].1);
    let mut f: Option<MFun> = None;
    let n = r.range(5, 40);
    for _ in 0..n {
        let line = MLine { addr: a, size: Some(b - a), file: r.below(nf as u64) as usize, line: gen_line(r, 6) };
        f = Some(MFun { addr: a, size: b - a, name: gen_name(r), comp: gen_comp(r, odd), lines: vec![line], inl: f.into_iter().collect() });
    }
    f.unwrap()
}
/// a well-formed frame (premises of C03) over the given intervals
pub fn gen_frame(r: &mut Rng, iv: &[(u64, u64)], nf: usize, depth: u32, odd: bool) -> MFun {
    if depth == 0 && r.one_in(30) {
        return gen_chain(r, iv, nf, odd);
    }
    let mut lines = vec![];
    for (a, b) in iv {
        lines.extend(gen_tiles(r, *a, *b, nf, depth == 0, 6));
    }
    let mut inl = vec![];
    if depth < 4 && !r.one_in(4) {
        let k = r.range(1, 3) as usize;
        let mut parts: Vec<Vec<(u64, u64)>> = vec![vec![]; k];
        for l in &lines {
            let mut at = l.addr;
            while at < l.end() {
                let len = r.range(1, (l.end() - at).min(if l.end() - at > 100 { 300 } else { 6 }));
                if r.one_in(2) {
                    let c = r.below(k as u64) as usize;
                    parts[c].push((at, at + len));
                }
                at += len;
            }
        }
        for p in parts {
            if p.is_empty() && r.one_in(2) {
                continue;
            }
            inl.push(gen_frame(r, &p, nf, depth + 1, odd));
        }
    }
    let a = iv.first().map_or(0x1000, |x| x.0);
    let b = iv.last().map_or(0x1000, |x| x.1);
    MFun { addr: a, size: b - a, name: gen_name(r), comp: gen_comp(r, odd), lines, inl }
}
/// distinct functions with one display name cannot be told apart in the output
fn same_names(f: &mut MFun, seen: &mut BTreeMap<String, MName>) {
    for c in &mut f.inl {
        let n = seen.entry(o_name(&c.name)).or_insert(c.name.clone()).clone();
        c.name = n;
        same_names(c, seen);
    }
}
fn plat(r: &mut Rng) -> Platform {
    *r.pick(&[Platform::Linux, Platform::Mac, Platform::Win])
}
fn show(p: Platform, inl: bool, f: &[MFun], files: &[MFile]) -> String {
    format!("platform {p:?}, inlines {inl}, functions {f:?}, files {files:?}")
}
#[cfg(feature = "hooks")]
fn run(funs: &[MFun], files: &[MFile], p: Platform, inl: bool) -> Result<(Vec<Rec>, Vec<String>, Vec<String>), String> {
    run_mapped(funs, files, p, inl, &[])
}
#[cfg(feature = "hooks")]
fn run_mapped(funs: &[MFun], files: &[MFile], p: Platform, inl: bool, maps: &[(&str, &str)]) -> Result<(Vec<Rec>, Vec<String>, Vec<String>), String> {
    let fs: Vec<Function> = funs.iter().map(|f| to_fun(f, files, false)).collect();
    let map = if maps.is_empty() {
        None
    } else {
        dump_syms::verif::Map::new(&None, &Some(maps.iter().map(|m| m.0).collect()), &Some(maps.iter().map(|m| m.1).collect()), &None)?
    };
    let (syms, fl, or) = dump_syms::verif::collect(&fs, p, inl, map);
    let mut out = vec![];
    for s in &syms {
        let l = text_lines(s)?;
        let mut v = recs(l.into_iter())?;
        if v.len() != 1 {
            return Err(format!("one symbol printed as {} records", v.len()));
        }
        out.push(v.remove(0));
    }
    Ok((out, fl, or))
}
/// Without the hook: through a Breakpad text and ObjectInfo. Only what that format can express.
#[cfg(not(feature = "hooks"))]
fn run(funs: &[MFun], files: &[MFile], p: Platform, inl: bool) -> Result<(Vec<Rec>, Vec<String>, Vec<String>), String> {
    let fs: Vec<Function> = funs.iter().map(|f| to_fun(f, files, false)).collect();
    let _ = (fs, p, inl);
    Err("SKIP".into())
}
#[cfg(not(feature = "hooks"))]
fn run_mapped(funs: &[MFun], files: &[MFile], p: Platform, inl: bool, _maps: &[(&str, &str)]) -> Result<(Vec<Rec>, Vec<String>, Vec<String>), String> {
    run(funs, files, p, inl)
}
/// (regular expression, template): templates use group 1 only, which always takes part
const MAPS: &[(&str, &str)] = &[
    ("^/usr/(.*)$", "{1}"), ("a[.]c$(.*)", ""), ("^(.).*$", "{1}"), ("(/)", "x"), ("src(.*)", "/usr/src{1}"), ("^(.*)[.]h$", "https://h/{1}"), ("^(b)", "hg:{1}"), ("^C:(.*)$", "{1}"),
];
fn o_mapped(maps: &[(&str, &str)], path: &str) -> String {
    thread_local! { static RE: std::cell::RefCell<BTreeMap<String, regex::Regex>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }
    for (re, t) in maps {
        let re = RE.with(|m| m.borrow_mut().entry(re.to_string()).or_insert_with(|| regex::Regex::new(re).unwrap()).clone());
        if let Some(c) = re.captures(path) {
            return t.replace("{1}", c.get(1).map_or("", |g| g.as_str()));
        }
    }
    path.to_string()
}
fn file_of(fl: &[String], i: u64) -> Result<String, String> {
    fl.get(i as usize).cloned().ok_or_else(|| format!("file id {i} has no FILE record"))
}
fn got_lines(r: &Rec, fl: &[String]) -> Result<Vec<(u64, u64, u64, String)>, String> {
    r.lines.iter().map(|l| Ok((l.addr, l.len, l.line, file_of(fl, l.file)?))).collect()
}
fn got_sites(r: &Rec, fl: &[String], or: &[String]) -> Result<Vec<(Site, Vec<(u64, u64)>)>, String> {
    r.inlines
        .iter()
        .map(|i| {
            let n = or.get(i.origin as usize).cloned().ok_or_else(|| format!("origin id {} has no INLINE_ORIGIN record", i.origin))?;
            Ok(((n, i.depth, i.line, file_of(fl, i.file)?), i.ranges.clone()))
        })
        .collect()
}
fn uniq(v: &[String], what: &str) -> Result<(), String> {
    let s: BTreeSet<_> = v.iter().collect();
    if s.len() != v.len() {
        return Err(format!("{what} listed twice: {v:?}"));
    }
    Ok(())
}
macro_rules! skip {
    ($e:expr) => {
        match $e {
            Err(e) if e == "SKIP" => return Ok(false),
            Err(e) => return Err(e),
            Ok(v) => v,
        }
    };
}
#[cfg(not(feature = "hooks"))]
fn c01_direct(_r: &mut Rng) -> Case {
    Ok(false)
}
#[cfg(feature = "hooks")]
fn c01_direct(r: &mut Rng) -> Case {
    let n = if r.one_in(60) { r.range(500, 3000) } else { r.count(9) };
    let near = r.one_in(4);
    let base: u64 = if near { u32::MAX as u64 - 40 } else { r.range(0, 60) };
    let v: Vec<(u64, u64, u64)> = (0..n).map(|_| (base + r.range(0, 40), r.range(0, 9), r.range(0, 3))).collect();
    let (rva, len) = (base + r.range(0, 20), if r.one_in(5) { r.range(0, u32::MAX as u64) } else { r.range(0, 50) });
    let rva = rva.min(u32::MAX as u64);
    describe(format!("lines (address, number, file) {v:?} of the function at {rva:#x} with size {len:#x}"));
    let mut l = dump_syms::verif::Ln::new();
    for x in &v {
        l.line(x.0 as u32, x.1 as u32, x.2 as u32);
    }
    let t = l.finish(rva as u32, len as u32);
    let got: Vec<Rec> = recs(std::iter::once("FUNC 0 0 0 x").chain(text_lines(&t)?))?;
    let got: Vec<_> = got[0].lines.iter().map(|l| (l.addr, l.len, l.line, l.file.to_string())).collect();
    let want = o_lens(v.iter().map(|x| (x.0, x.1, x.2.to_string())).collect(), rva, len);
    eq("line records (address, length, line, file)", got, want)?;
    Ok(n > 1)
}
pub fn c01(r: &mut Rng, k: u64) -> Case {
    if k % 2 == 0 {
        return c01_direct(r);
    }
    let p = plat(r);
    let files = gen_files(r, false);
    let inl = r.one_in(2);
    let n = r.count(9);
    let base = r.range(1, 0x2000);
    // distinct line numbers: no entry is dropped as a repetition
    let mut lines: Vec<MLine> = (0..n)
        .map(|i| MLine { addr: base + r.range(0, 40), size: Some(r.range(1, 4)), file: r.below(files.len() as u64) as usize, line: 10 + i })
        .collect();
    if inl {
        let mut at = base;
        for l in lines.iter_mut() {
            l.addr = at;
            at += l.len() + r.range(0, 2);
        }
    }
    let f = MFun { addr: base, size: r.range(0, 60), name: gen_name(r), comp: gen_comp(r, false), lines, inl: vec![] };
    describe(show(p, inl, std::slice::from_ref(&f), &files));
    let (rs, fl, _) = skip!(run(std::slice::from_ref(&f), &files, p, inl));
    let mut w = Want::default();
    if inl {
        o_inlines(p, &f, &files, 0, &mut w);
    } else {
        o_plain(p, &f, &files, &mut w);
    }
    eq("number of records", rs.len(), 1)?;
    eq("line records (address, length, line, file)", got_lines(&rs[0], &fl)?, o_lens(w.lines, f.addr, f.size))?;
    Ok(n > 1)
}
fn check_sites(got: Vec<(Site, Vec<(u64, u64)>)>, want: BTreeMap<Site, Vec<(u64, u64)>>) -> Result<(), String> {
    for w in got.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        if (a.1[0].0, a.0 .1) > (b.1[0].0, b.0 .1) {
            return Err(format!("INLINE records not ordered by first address and depth: {a:?} then {b:?}"));
        }
    }
    let mut g: Vec<(Site, Vec<(u64, u64)>)> = got;
    g.sort();
    let w: Vec<(Site, Vec<(u64, u64)>)> = want.into_iter().map(|(k, v)| (k, o_merge(v))).collect();
    eq("INLINE records ((origin, depth, call line, call file), ranges)", g, w)
}
#[cfg(not(feature = "hooks"))]
fn c02_direct(_r: &mut Rng) -> Case {
    Ok(false)
}
#[cfg(feature = "hooks")]
fn c02_direct(r: &mut Rng) -> Case {
    let n = r.count(10);
    let base = if r.one_in(5) { u32::MAX as u64 - 30 } else { 0x100 };
    let mut used: BTreeSet<((u32, u32, u32, u32), u64)> = BTreeSet::new();
    let mut v = vec![];
    for _ in 0..n {
        let s = (r.below(2) as u32, r.below(2) as u32, r.below(2) as u32, r.below(2) as u32);
        let a = base + r.range(0, 20);
        let l = r.range(0, 6).min(u32::MAX as u64 - a);
        if (l > 0 || r.one_in(3)) && used.insert((s, a)) {
            v.push((s, a, l));
            if l > 0 && r.one_in(10) {
                // the same range once more: nothing is merged
                v.push((s, a, l));
            }
        }
    }
    describe(format!("inlined ranges ((origin, depth, line, file), address, size) {v:x?}"));
    let mut l = dump_syms::verif::Ln::new();
    let mut want: BTreeMap<Site, Vec<(u64, u64)>> = BTreeMap::new();
    for (s, a, n) in &v {
        l.inline(*s, *a as u32, *n as u32);
        want.entry((s.0.to_string(), s.1 as u64, s.2 as u64, s.3.to_string())).or_default().push((*a, *n));
    }
    let t = l.finish(base as u32, 30);
    let got: Vec<Rec> = recs(std::iter::once("FUNC 0 0 0 x").chain(text_lines(&t)?))?;
    let got = got[0].inlines.iter().map(|i| ((i.origin.to_string(), i.depth, i.line, i.file.to_string()), i.ranges.clone())).collect();
    check_sites(got, want)?;
    Ok(v.len() > 1)
}
pub fn c02(r: &mut Rng, k: u64) -> Case {
    if k % 2 == 0 {
        return c02_direct(r);
    }
    tree_case(r, true, false)
}
/// the same tree, n times as long
fn stretch(f: &mut MFun, base: u64, n: u64) {
    f.addr = base + (f.addr.max(base) - base) * n;
    f.size *= n;
    for l in &mut f.lines {
        l.size = Some(l.len() * n);
        l.addr = base + (l.addr - base) * n;
    }
    for c in &mut f.inl {
        stretch(c, base, n);
    }
}
/// well-formed trees: INLINE records and line records as the oracle says
fn tree_case(r: &mut Rng, only_inlines: bool, odd: bool) -> Case {
    let p = plat(r);
    let files = gen_files(r, odd);
    let a = r.range(1, 0x3000);
    let len = gen_len(r, 60);
    let mut f = gen_frame(r, &[(a, a + len)], files.len(), 0, odd);
    if r.one_in(8) {
        let n = *r.pick(&[0x100, 0x3001, 0x10000, 0x20000]);
        stretch(&mut f, a, n);
    }
    same_names(&mut f, &mut BTreeMap::new());
    describe(show(p, true, std::slice::from_ref(&f), &files));
    let (rs, fl, or) = skip!(run(std::slice::from_ref(&f), &files, p, true));
    let mut w = Want::default();
    o_inlines(p, &f, &files, 0, &mut w);
    eq("number of records", rs.len(), 1)?;
    let nontrivial = !w.sites.is_empty();
    check_sites(got_sites(&rs[0], &fl, &or)?, w.sites)?;
    if !only_inlines {
        let got: Vec<_> = got_lines(&rs[0], &fl)?.into_iter().map(|x| (x.0, x.2, x.3)).collect();
        let want: Vec<_> = o_lens(w.lines, 0, 0).into_iter().map(|x| (x.0, x.2, x.3)).collect();
        eq("own line records (address, line, file)", got, want)?;
    }
    Ok(nontrivial)
}
fn wild(r: &mut Rng, nf: usize, depth: u32) -> MFun {
    let n = r.count(5);
    let mut lines: Vec<MLine> = (0..n)
        .map(|_| MLine { addr: 0x100 + r.range(0, 30), size: if r.one_in(4) { None } else { Some(r.range(0, 8)) }, file: r.below(nf as u64) as usize, line: r.range(0, 5) })
        .collect();
    if r.one_in(2) {
        lines.sort_by_key(|l| l.addr);
    }
    let k = if depth < 3 { r.below(3) } else { 0 };
    MFun { addr: 0x100, size: r.range(0, 40), name: gen_name(r), comp: vec![], lines, inl: (0..k).map(|_| wild(r, nf, depth + 1)).collect() }
}
fn all_entries(f: &MFun, p: Platform, files: &[MFile], depth: u64, own: &mut BTreeSet<(u64, String)>, inl: &mut BTreeSet<(String, u64, u64, u64)>) {
    for l in &f.lines {
        own.insert((l.line, o_path(p, &f.comp, &files[l.file])));
    }
    for c in &f.inl {
        if c.lines.is_empty() {
            continue;
        }
        for l in &c.lines {
            inl.insert((o_name(&c.name), depth, l.addr, l.len()));
        }
        all_entries(c, p, files, depth + 1, own, inl);
    }
}
pub fn c03(r: &mut Rng, k: u64) -> Case {
    if k % 4 != 0 {
        return tree_case(r, false, k % 8 == 1);
    }
    // any input: it ends, and every record comes from an entry that exists
    let p = plat(r);
    let files = gen_files(r, false);
    let f = wild(r, files.len(), 0);
    describe(show(p, true, std::slice::from_ref(&f), &files));
    let (rs, fl, or) = skip!(run(std::slice::from_ref(&f), &files, p, true));
    let (mut own, mut inl) = (BTreeSet::new(), BTreeSet::new());
    all_entries(&f, p, &files, 0, &mut own, &mut inl);
    for l in got_lines(&rs[0], &fl)? {
        if !own.contains(&(l.2, l.3.clone())) {
            return Err(format!("line record {l:?} comes from no line entry"));
        }
    }
    for (s, rg) in got_sites(&rs[0], &fl, &or)? {
        if !own.contains(&(s.2, s.3.clone())) {
            return Err(format!("INLINE record {s:?}: no line entry with its call line and file"));
        }
        for (a, n) in rg {
            for x in a..a + n {
                if !inl.iter().any(|e| e.0 == s.0 && e.1 == s.1 && e.2 <= x && x < e.2 + e.3) {
                    return Err(format!("INLINE record {s:?} covers {x:#x}, which no line entry of that call has"));
                }
            }
        }
    }
    Ok(!inl.is_empty())
}
pub fn c04(r: &mut Rng, _k: u64) -> Case {
    let p = plat(r);
    let files = gen_files(r, false);
    let base = r.range(1, 0x2000);
    let end = base + gen_len(r, 40);
    let mut f = gen_frame(r, &[(base, end)], files.len(), 0, false);
    let n = r.count(10);
    f.lines = (0..n)
        .map(|_| MLine { addr: base + r.range(0, 60), size: Some(r.range(0, 4)), file: r.below(files.len() as u64) as usize, line: gen_line(r, 3) })
        .collect();
    if !r.one_in(3) {
        f.lines.sort_by_key(|l| l.addr);
    }
    describe(show(p, false, std::slice::from_ref(&f), &files));
    let (rs, fl, or) = skip!(run(std::slice::from_ref(&f), &files, p, false));
    let mut w = Want::default();
    o_plain(p, &f, &files, &mut w);
    eq("number of records", rs.len(), 1)?;
    eq("INLINE records", rs[0].inlines.len(), 0)?;
    eq("INLINE_ORIGIN records", or, vec![])?;
    let got: Vec<_> = got_lines(&rs[0], &fl)?.into_iter().map(|x| (x.0, x.2, x.3)).collect();
    let want: Vec<_> = o_lens(w.lines, 0, 0).into_iter().map(|x| (x.0, x.2, x.3)).collect();
    eq("line records (address, line, file)", got, want)?;
    Ok(n > 2)
}
pub fn c05(r: &mut Rng, k: u64) -> Case {
    let p = plat(r);
    let files = gen_files(r, true);
    let inl = k % 2 == 0;
    let n = r.range(1, 4);
    let mut funs = vec![];
    let mut base = r.range(1, 0x1000);
    for _ in 0..n {
        let len = gen_len(r, 30);
        funs.push(gen_frame(r, &[(base, base + len)], files.len(), if inl { 0 } else { 3 }, true));
        base += len + 5;
    }
    let mut seen = BTreeMap::new();
    for f in &mut funs {
        same_names(f, &mut seen);
    }
    let maps: Vec<(&str, &str)> = if r.one_in(8) { (0..r.range(1, 3)).map(|_| *r.pick(MAPS)).collect() } else { vec![] };
    describe(format!("{}, path mappings {maps:?}", show(p, inl, &funs, &files)));
    let (rs, fl, or) = skip!(run_mapped(&funs, &files, p, inl, &maps));
    eq("number of records", rs.len(), funs.len())?;
    if maps.is_empty() {
        uniq(&fl, "path")?;
    }
    let shown = |x: &str| o_mapped(&maps, x);
    let mut all = BTreeSet::new();
    for (f, rec) in funs.iter().zip(&rs) {
        let mut w = Want::default();
        if inl {
            o_inlines(p, f, &files, 0, &mut w);
        } else {
            o_plain(p, f, &files, &mut w);
        }
        let got: Vec<_> = got_lines(rec, &fl)?.into_iter().map(|x| (x.0, x.3)).collect();
        let want: Vec<_> = o_lens(w.lines, 0, 0).into_iter().map(|x| (x.0, shown(&x.3))).collect();
        eq("file of each line record (address, path)", got, want)?;
        let gs: BTreeSet<_> = got_sites(rec, &fl, &or)?.into_iter().map(|s| (s.1, s.0 .3)).collect();
        let ws: BTreeSet<_> = w.sites.into_iter().map(|(s, v)| (o_merge(v), shown(&s.3))).collect();
        eq("call file of each INLINE record (ranges, path)", gs, ws)?;
        all.extend(w.files);
    }
    // one record per file, also when two files are mapped to the same path
    let mut gf = fl.clone();
    gf.sort();
    let mut wf: Vec<String> = all.iter().map(|f| shown(f)).collect();
    wf.sort();
    eq("FILE records (sorted)", gf, wf)?;
    Ok(fl.len() > 1)
}
/// the names as they are written, blank ones included, also after a merge
fn c06_text(r: &mut Rng) -> Case {
    use crate::syms::{dump, load, Input};
    let pool = ["in lined", "\x01 \x01", "zo\x7fe", "\x02", "\x01<x> ", "b", "\x03  \x04", "<name omitted>"];
    let mods: Vec<Vec<usize>> = (0..r.range(1, 3)).map(|_| (0..r.range(1, 4)).map(|_| r.below(pool.len() as u64) as usize).collect()).collect();
    let mut want = vec![];
    let mut texts = vec![];
    let mut at = 0x10;
    for m in &mods {
        let mut t = "MODULE Linux x86_64 000102030405060708090A0B0C0D0E0F0 mod.so\nFILE 0 /a.c\n".to_string();
        for (i, n) in pool.iter().enumerate() {
            t += &format!("INLINE_ORIGIN {i} {n}\n");
        }
        for o in m {
            t += &format!("FUNC {at:x} 8 0 f{at}\nINLINE 0 {at} 0 {o} {at:x} 4\n{at:x} 4 1 0\n{:x} 4 2 0\n", at + 4);
            let clean = pool[*o].replace(|c: char| c.is_control(), "");
            want.push((at, if clean.trim().is_empty() { "<name omitted>".to_string() } else { clean.trim().to_string() }));
            at += 16;
        }
        texts.push(t);
    }
    describe(format!("modules merged in this order:\n{}", texts.join("\n")));
    let mut acc: Option<dump_syms::object_info::ObjectInfo> = None;
    for t in &texts {
        let o = load(&Input::Text(t.clone()), "mod.so", Platform::Linux, true)?;
        acc = Some(match acc {
            None => o,
            Some(q) => dump_syms::object_info::ObjectInfo::merge(q, o).map_err(|e| e.to_string())?,
        });
    }
    let s = parse(&dump(&acc.unwrap())?)?;
    let mut got = vec![];
    for rec in &s.recs {
        for i in &rec.inlines {
            got.push((rec.addr, s.origins.get(i.origin as usize).cloned().ok_or("an INLINE without its INLINE_ORIGIN")?));
        }
    }
    eq("written origin of each inlined call (function, name)", got, want)?;
    Ok(true)
}
pub fn c06(r: &mut Rng, k: u64) -> Case {
    if k % 8 == 5 {
        return c06_text(r);
    }
    let p = plat(r);
    let files = gen_files(r, false);
    let n = r.range(1, 3);
    let mut funs = vec![];
    let mut base = r.range(1, 0x1000);
    for _ in 0..n {
        let len = gen_len(r, 40);
        funs.push(gen_frame(r, &[(base, base + len)], files.len(), 0, false));
        base += len + 5;
    }
    describe(show(p, true, &funs, &files));
    let (rs, fl, or) = skip!(run(&funs, &files, p, true));
    // one id per distinct inlined function (name, mangling, language)
    fn names(f: &MFun, out: &mut BTreeSet<(String, bool, String)>) {
        for c in &f.inl {
            if !c.lines.is_empty() {
                out.insert((c.name.0.clone(), c.name.1, format!("{:?}", c.name.2)));
                names(c, out);
            }
        }
    }
    let mut ids = BTreeSet::new();
    let mut disp = BTreeSet::new();
    for f in &funs {
        names(f, &mut ids);
    }
    eq("number of INLINE_ORIGIN records", or.len(), ids.len())?;
    for (f, rec) in funs.iter().zip(&rs) {
        let mut w = Want::default();
        o_inlines(p, f, &files, 0, &mut w);
        disp.extend(w.names);
        // distinct functions with one display name share a site in the oracle; compare covered addresses
        let cover = |v: Vec<(Site, Vec<(u64, u64)>)>| -> BTreeSet<(String, u64, u64)> {
            v.into_iter().flat_map(|(s, rg)| rg.into_iter().flat_map(move |(a, n)| { let s = s.clone(); (a..a + n).map(move |x| (s.0.clone(), s.1, x)) })).collect()
        };
        eq("origin of each inlined address (name, depth, address)", cover(got_sites(rec, &fl, &or)?), cover(w.sites.into_iter().collect()))?;
    }
    let g: BTreeSet<String> = or.iter().cloned().collect();
    eq("set of INLINE_ORIGIN names", g, disp)?;
    Ok(or.len() > 1)
}
