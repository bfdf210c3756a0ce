//! C17, C18, C20: whole runs of the dumper.
use crate::model::parse;
use crate::syms::{dump, elf_bytes, id_of, MElf};
use crate::{describe, eq, Case, Dir, Rng};
use dump_syms::dumper::{several_files, single_file, Config, FileOutput, Output};
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

const LINUX: &str = "/repo/test_data/linux";
const WIN: &str = "/repo/test_data/windows";
fn cfg(output: Output, check_cfi: bool) -> Config<'static> {
    let mut c = Config::with_output(output);
    c.check_cfi = check_cfi;
    c.emit_inlines = true;
    c
}
/// an error or a panic is a failed dump
fn attempt(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err("panic".into()),
    }
}
fn files_below(d: &Path, out: &mut BTreeMap<String, Vec<u8>>, root: &Path) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let m = std::fs::symlink_metadata(&p).unwrap();
        if m.is_dir() {
            files_below(&p, out, root);
        } else if m.is_file() {
            out.insert(p.strip_prefix(root).unwrap().to_str().unwrap().into(), std::fs::read(&p).unwrap());
        }
    }
}
pub fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    files_below(d, &mut m, d);
    m
}
fn rand_elf(r: &mut Rng, id: [u8; 20], n: u64) -> MElf {
    MElf { id, secs: vec![(".text".into(), 0x1000, 0x1000)], syms: (0..n).map(|i| (format!("sym_{}_{i}", r.below(1000)), 0x1000 + i * 8, 4)).collect() }
}
/// takes at most that many bytes at once, and is interrupted now and then
struct Short(Vec<u8>, usize, u64);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.2 += 1;
        if self.2 % 5 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub fn c17(r: &mut Rng, _k: u64) -> Case {
    let d = Dir::new();
    // input: small, large, or with unwind information
    let kind = r.below(4);
    let src = d.0.join("mod.so");
    let mut id = [0u8; 20];
    for b in id.iter_mut() {
        *b = r.next() as u8;
    }
    let bytes = match kind {
        0 => {
            let n = r.range(0, 5);
            elf_bytes(&rand_elf(r, id, n))
        }
        1 => {
            let n = r.range(300, 2000);
            elf_bytes(&rand_elf(r, id, n))
        }
        _ => std::fs::read(format!("{LINUX}/{}", r.pick(&["basic.full", "basic.stripped", "basic.dbg"]))).map_err(|e| format!("harness: {e}"))?,
    };
    std::fs::write(&src, &bytes).unwrap();
    let o = ObjectInfo::from_elf(&bytes, "mod.so", Platform::Linux, None, true).map_err(|e| e.to_string())?;
    let text = dump(&o)?;
    if r.one_in(3) {
        // a writer that takes a part of what it is given
        let n = *r.pick(&[1usize, 7, 100, 4095]);
        describe(format!("ELF of {} bytes, {} bytes of symbols, a writer that takes at most {n} bytes at once", bytes.len(), text.len()));
        let mut w = Short(vec![], n, 0);
        o.dump(&mut w).map_err(|e| format!("dump failed: {e}"))?;
        eq("length of the text written", w.0.len(), text.len())?;
        eq("the text is written as it is", w.0 == text.as_bytes(), true)?;
    }
    let has_cfi = !parse(&text)?.stack.is_empty();
    let check_cfi = r.one_in(2);
    let out_d = d.0.join("out");
    let store_d = d.0.join("store");
    std::fs::create_dir_all(&out_d).unwrap();
    let name = o.get_name().to_string();
    let rel = format!("{name}/{}/{name}.sym", o.get_debug_id());
    static CWD: std::sync::OnceLock<()> = std::sync::OnceLock::new();
    CWD.get_or_init(|| std::env::set_current_dir(crate::scratch()).unwrap());
    let sink = if r.one_in(8) { r.range(1, 3) } else { 0 }; // 0: a file, else standard output or error output
    let file_kind = if sink > 0 { 0 } else { r.below(4) }; // 0,1: a file, 2: the full device, 3: none
    // 0: none, 1: empty, 2: ok, 3: target on the full device, 4: a file in the way, 5: a blank as name
    // (the current directory is shared: only with an id of its own)
    let store_kind = r.below(if kind < 2 { 6 } else { 5 });
    let file = match file_kind {
        2 => Some(PathBuf::from("/dev/full")),
        3 => None,
        _ => Some(out_d.join("x.sym")),
    };
    let store = match store_kind {
        0 => None,
        1 => Some(PathBuf::new()),
        5 => Some(PathBuf::from(" ")),
        _ => Some(store_d.clone()),
    };
    match store_kind {
        3 => {
            let t = store_d.join(&rel);
            std::fs::create_dir_all(t.parent().unwrap()).unwrap();
            std::os::unix::fs::symlink("/dev/full", &t).unwrap();
        }
        4 => {
            std::fs::create_dir_all(&store_d).unwrap();
            std::fs::write(store_d.join(&name), "in the way").unwrap();
        }
        _ => {}
    }
    if r.one_in(3) && file_kind < 2 {
        // an older, longer file is replaced
        std::fs::write(out_d.join("x.sym"), vec![b'z'; text.len() + 100]).unwrap();
    }
    let had = tree(&out_d);
    let output = match (&file, &store) {
        (Some(f), Some(s)) => Output::FileAndStore { file: FileOutput::Path(f.clone()), store_directory: s.clone() },
        (Some(f), None) => Output::File(FileOutput::Path(f.clone())),
        (None, Some(s)) => Output::Store(s.clone()),
        (None, None) => return Ok(false),
    };
    describe(format!("ELF of {} bytes, {} bytes of symbols, unwind information {has_cfi}; file {file:?}, store {store:?} (kind {store_kind}), check_cfi {check_cfi}", bytes.len(), text.len()));
    if sink > 0 {
        return through_child(&d, &src, sink, &store, check_cfi, has_cfi, store_kind, &rel, &text);
    }
    let res = attempt(|| single_file(&cfg(output, check_cfi), src.to_str().unwrap()).map_err(|e| e.to_string()));
    let no_cfi = check_cfi && !has_cfi;
    let should_fail = no_cfi || file_kind == 2 || store_kind == 3 || store_kind == 4;
    eq("the dump succeeds", res.is_ok(), !should_fail)?;
    let after = tree(&out_d);
    if no_cfi {
        eq("output after the failed check for unwind information", after, had)?;
        if store_kind == 2 || store_kind == 1 {
            eq("store after the failed check for unwind information", tree(&store_d), BTreeMap::new())?;
        }
    } else if res.is_ok() {
        if let Some(f) = &file {
            let g = std::fs::read_to_string(f).map_err(|e| format!("output file: {e}"))?;
            eq("text in the output file", g, text.clone())?;
        }
        if store_kind == 5 {
            let g = std::fs::read_to_string(Path::new(" ").join(&rel)).map_err(|e| format!("file in the store: {e}"))?;
            eq("text in the store", g, text.clone())?;
        }
        let want: BTreeMap<String, Vec<u8>> = if store_kind == 2 { [(rel, text.clone().into_bytes())].into() } else { BTreeMap::new() };
        eq("files in the store", tree(&store_d), want)?;
    }
    Ok(true)
}
/// replay dump-child INPUT SINK STORE|- CHECK_CFI: one dump to a standard stream
pub fn child(a: &[String]) -> ! {
    let file = if a[1] == "stderr" { FileOutput::Stderr } else { FileOutput::Stdout };
    let output = match a[2].as_str() {
        "-" => Output::File(file),
        s => Output::FileAndStore { file, store_directory: PathBuf::from(s) },
    };
    let r = single_file(&cfg(output, a[3] == "true"), &a[0]);
    std::process::exit(if r.is_ok() { 0 } else { 7 })
}
#[allow(clippy::too_many_arguments)]
fn through_child(d: &Dir, src: &Path, sink: u64, store: &Option<PathBuf>, check_cfi: bool, has_cfi: bool, store_kind: u64, rel: &str, text: &str) -> Case {
    use std::process::{Command, Stdio};
    let full = sink == 3;
    let name = if sink == 2 { "stderr" } else { "stdout" };
    let cap = d.0.join("captured");
    let open = || -> Stdio { if full { std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap().into() } else { std::fs::File::create(&cap).unwrap().into() } };
    let s = store.as_ref().map_or("-".to_string(), |s| s.to_str().unwrap().to_string());
    describe(format!("dump of {} bytes of symbols to {name}{}, store {store:?} (kind {store_kind}), check_cfi {check_cfi}, unwind information {has_cfi}", text.len(), if full { " on the full device" } else { "" }));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["dump-child", src.to_str().unwrap(), name, &s, if check_cfi { "true" } else { "false" }]).stdin(Stdio::null());
    if sink == 2 {
        c.stdout(Stdio::null()).stderr(open());
    } else {
        c.stderr(Stdio::null()).stdout(open());
    }
    let st = c.status().map_err(|e| format!("harness: {e}"))?;
    let no_cfi = check_cfi && !has_cfi;
    let should_fail = no_cfi || full || store_kind == 3 || store_kind == 4;
    eq("the dump succeeds", st.success(), !should_fail)?;
    if st.success() {
        let g = std::fs::read_to_string(&cap).map_err(|e| e.to_string())?;
        eq(&format!("text on {name}"), g, text.to_string())?;
        if store_kind == 2 {
            let g = std::fs::read_to_string(d.0.join("store").join(rel)).map_err(|e| format!("file in the store: {e}"))?;
            eq("text in the store", g, text.to_string())?;
        }
    } else if no_cfi && !full && sink == 1 {
        eq("text on standard output after the failed check for unwind information", std::fs::read_to_string(&cap).map_err(|e| e.to_string())?, String::new())?;
    }
    Ok(true)
}
// ------------------------------------------------------------------ C18
pub fn c18(r: &mut Rng, k: u64) -> Case {
    let d = Dir::new();
    let nmod = r.range(1, 5);
    let bad = if k % 3 == 2 { r.range(1, 3) } else { 0 };
    let mut files: Vec<String> = vec![];
    let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for m in 0..nmod {
        let mut id = [m as u8 + 1; 20];
        id[3] = r.next() as u8;
        for i in 0..r.range(1, 4) {
            let p = d.0.join(format!("mod{m}_{i}"));
            let n = r.range(1, 4);
            let e = MElf { id, secs: vec![(".text".into(), 0, 0x10000)], syms: (0..n).map(|j| (format!("s_{m}_{i}_{j}"), 0x100 + i * 0x100 + j * 8, 4)).collect() };
            std::fs::write(&p, elf_bytes(&e)).unwrap();
            files.push(p.to_str().unwrap().into());
            want.entry(id_of(&id)).or_default().extend(e.syms.iter().map(|s| s.0.clone()));
        }
    }
    for i in 0..bad {
        let p = d.0.join(format!("bad{i}"));
        if r.one_in(2) {
            std::fs::write(&p, "not an object file").unwrap();
        } // else: does not exist
        files.push(p.to_str().unwrap().into());
    }
    // shuffle
    for i in (1..files.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        files.swap(i, j);
    }
    let jobs = if r.one_in(12) { 0 } else if r.one_in(12) { r.range(9, 80) as usize } else { r.range(1, 8) as usize };
    // a module whose file in the store cannot be written
    let blocked = bad == 0 && r.one_in(5);
    // unwind information asked for, and none of the modules has any
    let cfi = !blocked && bad == 0 && r.one_in(8);
    let full = !blocked && bad == 0 && !cfi && r.one_in(10);
    let fifo = !blocked && !cfi && !full && r.one_in(3);
    let short: Vec<_> = files.iter().map(|f| f.rsplit('/').next().unwrap().to_string()).collect();
    describe(format!("{} files {short:?} of {nmod} modules, {jobs} jobs, {}", files.len(), if fifo { "to one pipe" } else if full { "to the full device" } else if cfi { "to a store, unwind information required" } else if blocked { "to a store where one module cannot be written" } else { "to a store" }));
    let store = d.0.join("store");
    let pipe = d.0.join("pipe");
    let mut reader = None;
    if fifo {
        let ok = std::process::Command::new("mkfifo").arg(&pipe).status().map_err(|e| format!("harness: {e}"))?;
        if !ok.success() {
            return Err("harness: mkfifo".into());
        }
        // opened for reading and writing: never blocks, never sees an end
        let keep = std::fs::OpenOptions::new().read(true).write(true).open(&pipe).map_err(|e| format!("harness: {e}"))?;
        let mut rd = std::fs::File::open(&pipe).map_err(|e| format!("harness: {e}"))?;
        reader = Some((
            keep,
            std::thread::spawn(move || {
                let mut t = String::new();
                use std::io::Read;
                rd.read_to_string(&mut t).unwrap();
                t
            }),
        ));
    }
    if blocked {
        // the module's file is a directory
        let id = want.keys().nth(r.below(want.len() as u64) as usize).unwrap();
        for f in &short {
            let _ = std::fs::create_dir_all(store.join(f).join(id).join(format!("{f}.sym")));
        }
    }
    let output = if full { Output::File(FileOutput::Path("/dev/full".into())) } else if fifo { Output::File(FileOutput::Path(pipe.clone())) } else { Output::Store(store.clone()) };
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut c = cfg(output, cfi);
        c.num_jobs = jobs;
        let fs: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
        let res = attempt(|| several_files(&c, &fs).map_err(|e| e.to_string()));
        let _ = tx.send(res);
    });
    let res = match rx.recv_timeout(std::time::Duration::from_secs(20)) {
        Ok(r) => r,
        Err(_) => return Err("the run has not ended after 20 s".into()),
    };
    eq("the run succeeds", res.is_ok(), bad == 0 && !blocked && !cfi && !full)?;
    if blocked || cfi || full {
        return Ok(true);
    }
    let mut texts: Vec<String> = vec![];
    if let Some((mut keep, th)) = reader {
        use std::io::Write;
        keep.write_all(b"\n").unwrap();
        drop(keep);
        let t = th.join().map_err(|_| "harness: reader")?;
        if bad > 0 {
            return Ok(true);
        }
        // small dumps are written with one call each, so they do not interleave
        let t = t.trim_end_matches('\n').to_string() + "\n";
        for part in t.split("MODULE ").skip(1) {
            texts.push(format!("MODULE {part}"));
        }
    } else {
        if bad > 0 {
            return Ok(true);
        }
        for (p, b) in tree(&store) {
            let t = String::from_utf8(b).unwrap();
            let id = t.split(' ').nth(3).unwrap_or("").to_string();
            if !p.contains(&id) {
                return Err(format!("module {id} stored at {p}"));
            }
            texts.push(t);
        }
    }
    let mut got: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for t in &texts {
        let s = parse(t)?;
        let id = s.module.split(' ').nth(2).unwrap_or("").to_string();
        let names = s.recs.iter().map(|r| r.name.clone()).filter(|n| !n.starts_with('<')).collect();
        if got.insert(id.clone(), names).is_some() {
            return Err(format!("module {id} was written more than once"));
        }
    }
    eq("modules and their symbols", got, want)?;
    Ok(true)
}
// ------------------------------------------------------------------ C20
struct Pair {
    pdb: Vec<u8>,
    pe: Vec<u8>,
    id: &'static str,
    code: &'static str,
    stem: &'static str,
    recorded: &'static str,
}
fn pairs() -> Result<[Pair; 2], String> {
    let rd = |f: &str| std::fs::read(format!("{WIN}/{f}")).map_err(|e| format!("harness: {f}: {e}"));
    Ok([
        Pair {
            pdb: rd("dump_syms_regtest64.pdb")?,
            pe: rd("dump_syms_regtest64.exe")?,
            id: "72E103A85CB249078B76B2E7C06257B13",
            code: "589DFD111A000",
            stem: "dump_syms_regtest64",
            recorded: "C:/cygwin64/wip/breakpad-depot/src/src/tools/windows/dump_syms/testdata",
        },
        Pair {
            pdb: rd("basic32-min.pdb")?,
            pe: rd("basic32-min.dll")?,
            id: "878E82E5E282481B88FCBBA2CFF8C7F12",
            code: "5DDC1E9B6C000",
            stem: "basic32-min",
            recorded: "C:/Users/Calixte/dump_syms/test_data",
        },
    ])
}
pub fn c20(r: &mut Rng, k: u64) -> Case {
    let ps = pairs()?;
    let (me, other) = if r.one_in(3) { (&ps[1], &ps[0]) } else { (&ps[0], &ps[1]) };
    let d = Dir::new();
    let bin = d.0.join("bin");
    let cwd = d.0.join("cwd");
    std::fs::create_dir_all(&bin).unwrap();
    std::fs::create_dir_all(&cwd).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    let out = d.0.join("out.sym");
    let run = |input: &Path, server: Option<&str>| -> Result<String, String> {
        let mut c = Config::with_output(Output::File(FileOutput::Path(out.clone())));
        c.check_cfi = false;
        c.emit_inlines = false;
        c.symbol_server = server;
        attempt(|| single_file(&c, input.to_str().unwrap()).map_err(|e| e.to_string())).map_err(|e| format!("dump failed: {e}"))?;
        std::fs::read_to_string(&out).map_err(|e| e.to_string())
    };
    if k % 2 == 0 {
        // a PDB and candidates next to it
        let stem = *r.pick(&["prog", "lib.x", "a"]);
        let pdb = bin.join(format!("{stem}.{}", r.pick(&["pdb", "pdb", "dbg"])));
        std::fs::write(&pdb, &me.pdb).unwrap();
        let mut desc = vec![];
        let mut want: Option<String> = None;
        for e in ["dll", "dl_", "exe", "ex_"] {
            let f = bin.join(format!("{stem}.{e}"));
            match r.below(6) {
                0 | 1 => continue,
                2 => {
                    std::fs::write(&f, &me.pe).unwrap();
                    desc.push(format!("{e}: matching PE"));
                    if want.is_none() {
                        want = Some(format!("{stem}.{}", match e { "dl_" => "dll", "ex_" => "exe", e => e }));
                    }
                }
                3 => {
                    std::fs::write(&f, &other.pe).unwrap();
                    desc.push(format!("{e}: PE of another module"));
                }
                4 => {
                    let mut b = me.pe.clone();
                    let at = b.windows(4).position(|w| w == b"RSDS").ok_or("harness: no CodeView record")?;
                    let (i, what) = *r.pick(&[(20, "age"), (4, "GUID"), (19, "GUID"), (23, "age")]);
                    if i == 20 && r.one_in(2) {
                        // an age whose digits start with those of the age
                        b[at + i] = (b[at + i] << 4) | 3;
                    } else {
                        b[at + i] ^= 1;
                    }
                    std::fs::write(&f, &b).unwrap();
                    desc.push(format!("{e}: the PE with another {what}"));
                }
                _ => {
                    std::fs::write(&f, "garbage").unwrap();
                    desc.push(format!("{e}: not a PE"));
                }
            }
        }
        describe(format!("PDB {} as {:?}, next to it {desc:?}", me.stem, pdb.file_name().unwrap()));
        let t = run(&pdb, None)?;
        let code: Vec<&str> = t.lines().filter_map(|l| l.strip_prefix("INFO CODE_ID ")).collect();
        let w: Vec<String> = want.iter().map(|n| format!("{} {n}", me.code)).collect();
        eq("code id and PE name", code, w.iter().map(|s| s.as_str()).collect())?;
        let cfi = t.contains("\nSTACK CFI INIT");
        if me.stem == "dump_syms_regtest64" {
            eq("unwind information of the PE", cfi, want.is_some())?;
        }
        return Ok(desc.len() > 1);
    }
    // a PE, PDBs in the places where it is searched
    let pe = bin.join("prog.exe");
    let mut image = me.pe.clone();
    let mut stem = me.stem.to_string();
    if r.one_in(3) {
        // the recorded name, written otherwise
        let cv = image.windows(4).position(|w| w == b"RSDS").ok_or("harness: no CodeView record")?;
        let at = cv + image[cv..].windows(stem.len()).position(|w| w == stem.as_bytes()).ok_or("harness: no recorded name")?;
        let i = r.range(1, stem.len() as u64 - 2) as usize;
        let c = *r.pick(&[".", " ", "_", "A"]);
        stem.replace_range(i..i + 1, c);
        image[at + i] = c.as_bytes()[0];
    }
    std::fs::write(&pe, &image).unwrap();
    let name = format!("{stem}.pdb");
    let cache = d.0.join("cache");
    let places: Vec<PathBuf> = vec![
        cwd.join(me.recorded).join(&name),
        bin.join(&name),
        bin.join(format!("{stem}.pd_")),
        cwd.join(&name),
        cache.join(&name).join(me.id).join(&name),
    ];
    let mut desc = vec![];
    let mut want: Option<&str> = None;
    for p in &places {
        // the PDB's id tells which file was used
        let which = match r.below(5) {
            0 => Some(me),
            1 => Some(other),
            _ => None,
        };
        if let Some(w) = which {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, &w.pdb).unwrap();
            desc.push(format!("{}: PDB of {}", p.strip_prefix(&d.0).unwrap().display(), w.stem));
            want = want.or(Some(w.id));
        }
    }
    // decoys where nothing may be looked up
    for p in [d.0.join(&name), bin.join("prog.pdb"), cwd.join(format!("{stem}.pd_"))] {
        if r.one_in(3) {
            std::fs::write(&p, &other.pdb).unwrap();
            desc.push(format!("{}: decoy", p.strip_prefix(&d.0).unwrap().display()));
        }
    }
    describe(format!("PE of {} with PDB {name:?} as bin/prog.exe, current directory cwd, {desc:?}", me.stem));
    let server = format!("srv*{}*http://127.0.0.1:9/x", cache.display());
    let t = run(&pe, Some(&server))?;
    let first = t.lines().next().unwrap_or("").to_string();
    let w: Vec<&str> = first.splitn(5, ' ').collect();
    eq("debug id of the PDB used", w[3], want.unwrap_or(me.id))?;
    eq("module name", w[4], &name)?;
    eq("functions of a PDB", t.lines().filter(|l| l.starts_with("FUNC ")).any(|l| !l.ends_with('>')), want.is_some())?;
    Ok(want.is_some())
}
