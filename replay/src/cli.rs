//! C25: the command line of the real program against the library with the configuration it asks for.
use crate::dumps::tree;
use crate::idents::{fat, macho, CPUS};
use crate::pe::{pe_bytes, MPe};
use crate::{describe, eq, Case, Dir, Rng};
use dump_syms::dumper::{several_files, single_file, Config, FileOutput, Output};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

const LINUX: &str = "/repo/test_data/linux";
fn program() -> &'static Path {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| std::env::current_exe().unwrap().parent().unwrap().join("../cli/debug/dump_syms"))
}
fn version() -> &'static str {
    static V: OnceLock<String> = OnceLock::new();
    V.get_or_init(|| {
        let o = Command::new(program()).arg("--version").output().expect("harness: the program cannot be run");
        String::from_utf8_lossy(&o.stdout).trim().rsplit(' ').next().unwrap().to_string()
    })
}
/// <UPPERCASE_KEYWORD> <string>
fn well_formed(s: &str) -> bool {
    match s.find(|c: char| !(c.is_ascii_uppercase() || c == '_')) {
        Some(i) => i > 0 && s[i..].starts_with(' '),
        None => false,
    }
}
/// the dump with the INFO lines that were asked for
fn with_info(t: &str, info: &[String]) -> String {
    let mut out = String::new();
    let mut done = false;
    for l in t.split_inclusive('\n') {
        if !done && !l.starts_with("MODULE ") && !l.starts_with("INFO CODE_ID ") {
            done = true;
            info.iter().for_each(|i| out += &format!("INFO {i}\n"));
        }
        out += l;
    }
    if !done {
        info.iter().for_each(|i| out += &format!("INFO {i}\n"));
    }
    out
}
pub fn c25(r: &mut Rng, k: u64) -> Case {
    if !program().exists() {
        return Err("harness: the program was not built".into());
    }
    let d = Dir::new();
    let at = |n: &str| d.0.join(n).to_str().unwrap().to_string();
    // options, each with its value
    let mut opts: Vec<Vec<String>> = vec![];
    fn push(opts: &mut Vec<Vec<String>>, r: &mut Rng, short: Option<&str>, long: Option<&str>, v: &str) {
        match (short, long) {
            (Some(s), _) if long.is_none() || r.one_in(2) => opts.push(vec![s.into(), v.into()]),
            (_, Some(l)) if r.one_in(2) => opts.push(vec![format!("{l}={v}")]),
            (_, Some(l)) => opts.push(vec![l.into(), v.into()]),
            _ => unreachable!(),
        }
    }
    let mut conf = Config::with_output(Output::File(FileOutput::Path(d.0.join("want.sym"))));
    conf.check_cfi = false;
    conf.emit_inlines = false;
    let server;
    let (mut vars, mut srcs, mut dests, mapfile): (Vec<String>, Vec<String>, Vec<String>, String) = (vec![], vec![], vec![], at("map.json"));
    let arch: String;
    let ident: String;
    // the files
    let mut archs: Vec<Option<Vec<&str>>> = vec![];
    let files: Vec<String> = match k % 5 {
        0 => {
            let n = *r.pick(&[1u64, 1, 2]);
            (0..n)
                .map(|i| {
                    let f = at(&format!("m{i}.dylib"));
                    if r.one_in(8) {
                        std::fs::write(&f, "not an object").unwrap();
                        archs.push(None);
                        return f;
                    }
                    let ms: Vec<_> = (0..r.range(1, 3)).map(|_| *r.pick(&CPUS)).collect();
                    let raw: Vec<_> = ms.iter().enumerate().map(|(j, c)| ((c.0, c.1), macho((c.0, c.1), Some(&[i as u8 * 16 + j as u8 + 1; 16]), None))).collect();
                    std::fs::write(&f, fat(&raw)).unwrap();
                    archs.push(Some(ms.iter().map(|m| m.2).collect()));
                    f
                })
                .collect()
        }
        1 => {
            let f = at("x.dll");
            archs.push(Some(vec!["x86_64"]));
            let m = MPe { guid: [7; 16], age: 1, pdb: "x.pdb".into(), exports: vec![(Some("f".into()), 0x10)], pdata: vec![(0x1000, 0x1010)], stamp: 0x1234abcd, image: 0x1000 };
            let b = pe_bytes(&m);
            if r.one_in(3) {
                std::fs::write(&f, &b).unwrap();
                vec![f]
            } else {
                // in the cache of a symbol server, under an id
                let id = *r.pick(&["1234ABCD1000", "0707070707070707070707070707070701"]);
                let p = d.0.join("cache").join("x.dll").join(id);
                std::fs::create_dir_all(&p).unwrap();
                std::fs::write(p.join("x.dll"), &b).unwrap();
                vec!["x.dll".into()]
            }
        }
        2 => {
            archs.extend([Some(vec!["x86_64"]), Some(vec!["x86_64"])]);
            let mut v = vec![];
            for f in ["basic.stripped", "basic.dbg"] {
                std::fs::copy(format!("{LINUX}/{f}"), at(f)).map_err(|e| format!("harness: {e}"))?;
                v.push(at(f));
            }
            if r.one_in(2) {
                v.reverse();
            }
            v
        }
        _ => {
            archs.push(Some(vec!["x86_64"]));
            let f = at("basic.full");
            std::fs::copy(format!("{LINUX}/basic.full"), &f).map_err(|e| format!("harness: {e}"))?;
            if r.one_in(8) {
                // the same file twice
                archs.push(Some(vec!["x86_64"]));
                vec![f.clone(), f]
            } else {
                vec![f]
            }
        }
    };
    if k % 5 == 1 {
        server = format!("SRV*{}*http://127.0.0.1:9/x", at("cache"));
        if !r.one_in(4) {
            push(&mut opts, r, None, Some("--symbol-server"), &server);
            conf.symbol_server = Some(&server);
        }
        ident = r.pick(&["1234ABCD1000", "0707070707070707070707070707070701", "1"]).to_string();
        if r.one_in(2) {
            push(&mut opts, r, None, Some("--debug-id"), &ident);
            conf.debug_id = Some(&ident);
        }
        if r.one_in(2) {
            push(&mut opts, r, None, Some("--code-id"), &ident);
            conf.code_id = Some(&ident);
        }
    }
    if r.one_in(3) {
        arch = r.pick(&["x86_64", "arm64", "x86", "armv7", "x86_64h", "arm64e", "nonsense"]).to_string();
        push(&mut opts, r, Some("-a"), Some("--arch"), &arch);
        conf.arch = &arch;
    }
    if r.one_in(2) {
        opts.push(vec!["--inlines".into()]);
        conf.emit_inlines = true;
    }
    if r.one_in(4) {
        opts.push(vec!["--check-cfi".into()]);
        conf.check_cfi = true;
    }
    if r.one_in(3) {
        for _ in 0..r.below(3) {
            vars.push(r.pick(&["rev=abc", "rev=def", "n=1", "rev=a,b", "n=x=y", "bad"]).to_string());
        }
        let n = r.below(3);
        for _ in 0..n {
            srcs.push(r.pick(&["/(.*)", ".*/([^/]*)", "basic(.*)", ".{1,3}(.*)", " /(.*)", "("]).to_string());
            dests.push(r.pick(&["http://a/{rev}/{1}", "{n}:{1}", "{digest}", "x{1}y", "plain", "a,{1}", " {1} ", "{1"]).to_string());
        }
        if r.one_in(12) {
            dests.push("more".into());
        }
        for (l, v) in [("--mapping-var", &vars), ("--mapping-src", &srcs), ("--mapping-dest", &dests)] {
            // the values of one option in order
            let mut o = vec![];
            for x in v {
                push(&mut o, r, None, Some(l), x);
            }
            opts.push(o.concat());
        }
        opts.retain(|o| !o.is_empty());
    }
    conf.mapping_var = (!vars.is_empty()).then(|| vars.iter().map(|s| s.as_str()).collect());
    conf.mapping_src = (!srcs.is_empty()).then(|| srcs.iter().map(|s| s.as_str()).collect());
    conf.mapping_dest = (!dests.is_empty()).then(|| dests.iter().map(|s| s.as_str()).collect());
    if r.one_in(6) {
        std::fs::write(&mapfile, r#"{ "git": { "^(?:.*/)?(basic\\.cpp)$": "git:{1}" } }"#).unwrap();
        push(&mut opts, r, None, Some("--mapping-file"), &mapfile);
        conf.mapping_file = Some(&mapfile);
    }
    let jobs = r.pick(&["", "1", "2", "many"]).to_string();
    if files.len() > 1 || r.one_in(4) {
        // one job: the files in order
        let j = if files.len() > 1 { "1" } else { &jobs };
        push(&mut opts, r, Some("-j"), None, j);
    }
    if r.one_in(5) {
        let v = *r.pick(&["off", "error", "warn", "info", "debug", "trace", "x"]);
        push(&mut opts, r, None, Some("--verbose"), v);
    }
    if r.one_in(8) {
        push(&mut opts, r, Some("-t"), Some("--type"), "elf");
    }
    let mut info: Vec<String> = vec![];
    if r.one_in(3) {
        let mut o = vec![];
        for _ in 0..r.range(1, 3) {
            let good = ["CHANNEL nightly", "VENDOR Mozilla Foundation", "A_B  c", "X ", "_ y", "PRODUCT a b c", "LIST a,b", "T x ", "E k=v"];
            let bad = ["channel x", "NOSPACE", "A1 b", " A b", "Ab c"];
            let v = if r.one_in(8) { *r.pick(&bad) } else { *r.pick(&good) };
            push(&mut o, r, None, Some("--extra-info"), v);
            info.push(v.into());
        }
        opts.push(o.concat());
    }
    let bad_info = info.iter().any(|i| !well_formed(i));
    if r.one_in(3) {
        opts.push(vec!["--no-generator".into()]);
    } else {
        info.push(format!("GENERATOR mozilla/dump_syms {}", version()));
    }
    let list = k % 5 == 0 && files.len() > 1 || k % 5 != 1 && r.one_in(6);
    if list {
        opts.push(vec!["--list-arch".into()]);
    }
    let out = r.pick(&[None, None, Some("-".to_string()), Some(at("got.sym")), Some(at("got.sym")), Some("-x.sym".to_string()), Some(at("no/such/dir/got.sym"))]).clone();
    let store = r.one_in(2).then(|| at("got.store"));
    if store.is_some() && r.one_in(8) {
        // files where the directories are expected
        std::fs::write(at("got.store"), "").unwrap();
        std::fs::write(at("want.store"), "").unwrap();
    }
    if let Some(o) = &out {
        if o == "-x.sym" {
            opts.push(vec![format!("--output={o}")]);
        } else {
            push(&mut opts, r, Some("-o"), Some("--output"), o);
        }
    }
    if let Some(s) = &store {
        push(&mut opts, r, Some("-s"), Some("--store"), s);
    }
    // in any order, the files before, behind or in between
    for i in (1..opts.len()).rev() {
        opts.swap(i, r.below(i as u64 + 1) as usize);
    }
    let pos = r.below(opts.len() as u64 + 1) as usize;
    opts.insert(pos, files.clone());
    let args: Vec<String> = opts.concat();
    describe(format!("dump_syms {}", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ")));
    // what the library does with the configuration asked for
    let names: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
    let unwritable = out.as_ref().is_some_and(|o| o.contains("/no/such/"));
    conf.output = if store.is_some() {
        Output::FileAndStore { file: FileOutput::Path(d.0.join("want.sym")), store_directory: d.0.join("want.store") }
    } else {
        Output::File(FileOutput::Path(d.0.join("want.sym")))
    };
    let lib = !list && !bad_info && matches!(catch_unwind(AssertUnwindSafe(|| if names.len() == 1 { single_file(&conf, names[0]) } else { several_files(&conf, &names) })), Ok(Ok(())));
    // the program
    std::fs::create_dir_all(d.0.join("home")).unwrap();
    let o = Command::new(program())
        .args(&args)
        .env("HOME", d.0.join("home"))
        .current_dir(&d.0)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("harness: {e}"))?;
    let got_out = String::from_utf8_lossy(&o.stdout).to_string();
    let status = o.status.code();
    if list {
        let mut text = String::new();
        let mut ok = !bad_info;
        if ok {
            for (f, a) in files.iter().zip(&archs) {
                let Some(a) = a else {
                    ok = false;
                    break;
                };
                text += &format!("{} contains the following architecture{}:\n{}\n", f.rsplit('/').next().unwrap(), if a.len() == 1 { "" } else { "s" }, a.join(", "));
            }
        }
        eq("the program succeeds", status == Some(0), ok)?;
        if ok {
            eq("standard output", got_out.as_str(), text.as_str())?;
        }
        eq("files written", (Path::new(&at("got.sym")).exists(), Path::new(&at("got.store")).is_dir()), (false, false))?;
        return Ok(true);
    }
    eq("the program succeeds (and the dump by the library)", status == Some(0), lib && !unwritable)?;
    if !lib {
        eq("standard output of a failed run", got_out.as_str(), "")?;
        eq("an output file is there", Path::new(&at("got.sym")).exists(), false)?;
        return Ok(true);
    }
    if unwritable {
        return Ok(true);
    }
    let text = with_info(&std::fs::read_to_string(d.0.join("want.sym")).map_err(|e| format!("harness: {e}"))?, &info);
    let to_stdout = match &out {
        None => store.is_none(),
        Some(o) => o == "-",
    };
    eq("standard output", got_out.as_str(), if to_stdout { text.as_str() } else { "" })?;
    if to_stdout && !text.is_empty() && r.one_in(3) {
        // a standard output that takes nothing
        let pipe = r.one_in(2);
        let sink: Stdio = if pipe {
            let (rd, wr) = std::io::pipe().map_err(|e| format!("harness: {e}"))?;
            drop(rd);
            wr.into()
        } else {
            std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("harness: {e}"))?.into()
        };
        let st = Command::new(program())
            .args(&args)
            .env("HOME", d.0.join("home"))
            .current_dir(&d.0)
            .stdin(Stdio::null())
            .stdout(sink)
            .stderr(Stdio::null())
            .status()
            .map_err(|e| format!("harness: {e}"))?;
        if st.success() {
            return Err(format!("the run succeeds although its standard output is {}", if pipe { "a closed pipe" } else { "a full device" }));
        }
    }
    eq("output file", std::fs::read_to_string(at("got.sym")).or_else(|_| std::fs::read_to_string(at("-x.sym"))).ok(), (out.is_some() && !to_stdout).then(|| text.clone()))?;
    let mut want = tree(&d.0.join("want.store"));
    for v in want.values_mut() {
        *v = with_info(&String::from_utf8_lossy(v), &info).into_bytes();
    }
    eq("files in the store", tree(Path::new(&at("got.store"))), if store.is_some() { want } else { Default::default() })?;
    eq("a file named - is there", d.0.join("-").exists(), false)?;
    Ok(true)
}
