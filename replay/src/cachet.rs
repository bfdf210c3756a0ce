//! C19: symbol servers and caches, with a server on the loopback interface.
use crate::{describe, eq, Case, Dir, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::net::TcpListener;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

struct Srv {
    port: u16,
    files: Arc<Mutex<BTreeMap<String, (u16, Vec<u8>)>>>,
    log: Arc<Mutex<Vec<(String, String)>>>,
}
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn server() -> Srv {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let files: Arc<Mutex<BTreeMap<String, (u16, Vec<u8>)>>> = Default::default();
    let log: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    let (f, g) = (files.clone(), log.clone());
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            let (f, g) = (f.clone(), g.clone());
            std::thread::spawn(move || {
                let mut rd = BufReader::new(s.try_clone().unwrap());
                let mut w = s;
                loop {
                    let mut line = String::new();
                    if rd.read_line(&mut line).unwrap_or(0) == 0 {
                        return;
                    }
                    let mut p = line.split(' ');
                    let (m, u) = (p.next().unwrap_or("").to_string(), decode(p.next().unwrap_or("")));
                    loop {
                        let mut h = String::new();
                        if rd.read_line(&mut h).unwrap_or(0) == 0 || h.trim().is_empty() {
                            break;
                        }
                    }
                    g.lock().unwrap().push((m.clone(), u.clone()));
                    let body = f.lock().unwrap().get(&u).cloned();
                    let r = match &body {
                        Some((st, b)) => format!("HTTP/1.1 {st} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", b.len()),
                        None => "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".to_string(),
                    };
                    let _ = w.write_all(r.as_bytes());
                    if m == "GET" {
                        if let Some((_, b)) = body {
                            let _ = w.write_all(&b);
                        }
                    }
                    return;
                }
            });
        }
    });
    Srv { port, files, log }
}
fn srv() -> &'static Srv {
    static S: std::sync::OnceLock<Srv> = std::sync::OnceLock::new();
    S.get_or_init(server)
}
fn base(n: &str) -> String {
    for (a, b) in [("pd_", "pdb"), ("ex_", "exe"), ("dl_", "dll")] {
        if n.len() > 4 && n.is_char_boundary(n.len() - 4) && n[n.len() - 4..].to_ascii_lowercase() == format!(".{a}") {
            return format!("{}.{b}", &n[..n.len() - 4]);
        }
    }
    n.into()
}
pub fn c19(r: &mut Rng, k: u64) -> Case {
    let d = Dir::new();
    let home = d.0.join("home");
    std::fs::create_dir_all(&home).unwrap();
    std::env::set_var("HOME", &home);
    for v in ["http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    std::env::set_var("NO_PROXY", "*");
    let s = srv();
    s.files.lock().unwrap().clear();
    s.log.lock().unwrap().clear();
    let pad = |r: &mut Rng, x: &str| format!("{}{x}{}", r.pick(&["", " ", "\t"]), r.pick(&["", " ", ""]));
    // (cache directory, url prefix on the server)
    let mut want: Vec<(Option<std::path::PathBuf>, String)> = vec![];
    let mut entries = vec![];
    let n = r.range(0, 4);
    let mut default = false;
    for i in 0..n {
        let key = r.pick(&["srv", "SRV", "Srv", "sRv"]).to_string();
        let url = format!("http://127.0.0.1:{}/t{k}/s{i}", s.port);
        match r.below(8) {
            0 | 1 => {
                entries.push(format!("{}*{}", pad(r, &key), pad(r, &url)));
                want.push((None, format!("/t{k}/s{i}")));
            }
            2..=5 => {
                let (txt, dir) = match r.below(3) {
                    0 => (format!("~/c{i}"), home.join(format!("c{i}"))),
                    1 => (d.0.join("shared").to_str().unwrap().into(), d.0.join("shared")),
                    _ => (d.0.join(format!("c{i}")).to_str().unwrap().into(), d.0.join(format!("c{i}"))),
                };
                entries.push(format!("{}*{}*{}", pad(r, &key), pad(r, &txt), pad(r, &url)));
                want.push((Some(dir), format!("/t{k}/s{i}")));
            }
            6 => {
                let x = format!("{key}*a*b*{url}");
                entries.push(r.pick(&[x.as_str(), "", "cache*foo", "symsrv*x", "srvx*y", "http://a/b", " "]).to_string());
            }
            _ if k % 5 == 0 && !default => {
                // only looked at, no request goes to it
                default = true;
                entries.push(pad(r, &key));
            }
            _ => entries.push("nothing".into()),
        }
    }
    let mut path = String::new();
    for (i, e) in entries.iter().enumerate() {
        if i > 0 {
            path += *r.pick(&[";", "\n", ";;", "\r\n"]);
        }
        path += e;
    }
    let by_config = r.one_in(4);
    if by_config {
        std::fs::create_dir_all(home.join(".dump_syms")).unwrap();
        std::fs::write(home.join(".dump_syms/config"), &path).unwrap();
    }
    let servers = dump_syms::cache::get_sym_servers(if by_config { None } else { Some(&path) });
    describe(format!("symbol path {path:?}"));
    eq("number of servers", servers.as_ref().map_or(0, |v| v.len()), want.len() + default as usize)?;
    eq("no servers", servers.is_none(), want.is_empty() && !default)?;
    if default {
        if !format!("{servers:?}").contains("https://msdl.microsoft.com/download/symbols") {
            return Err(format!("srv alone does not denote the Microsoft server: {servers:?}"));
        }
        return Ok(true);
    }
    let name = r.pick(&["xul.pdb", "xul.pd_", "app.ex_", "lib.DL_", "ntdll.dll", "a", "x_", "né", "foo.so.1", ".pd_"]).to_string();
    let id = match r.below(6) {
        0 => format!("000{:X}0", r.next()),
        1 => format!("{:x}a", r.next()),
        _ => format!("{:X}1", r.next()),
    };
    let mut desc = vec![];
    // caches
    let mut found: Option<Vec<u8>> = None;
    let mut cache_files: BTreeMap<std::path::PathBuf, Vec<u8>> = BTreeMap::new();
    for (i, (c, _)) in want.iter().enumerate() {
        if let Some(c) = c {
            let p = c.join(base(&name)).join(&id).join(&name);
            if r.one_in(4) && !cache_files.contains_key(&p) {
                let body = format!("cached {i}").into_bytes();
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, &body).unwrap();
                cache_files.insert(p.clone(), body);
                desc.push(format!("cache of server {i} has the file"));
            }
            if r.one_in(6) {
                // a decoy that is not at CACHE/BASE/ID/NAME
                let q = c.join("other").join(&id);
                std::fs::create_dir_all(&q).unwrap();
                std::fs::write(q.join(&name), "decoy").unwrap();
            }
        }
    }
    // nor is it under another name there
    for (c, _) in want.iter().filter(|_| r.one_in(6)) {
        if let Some(c) = c {
            let mut other: Vec<char> = name.chars().collect();
            other.pop();
            let other = other.into_iter().collect::<String>() + "_";
            if other != name {
                let q = c.join(base(&name)).join(&id);
                std::fs::create_dir_all(&q).unwrap();
                std::fs::write(q.join(other), "decoy").unwrap();
            }
        }
    }
    for (c, _) in want.iter() {
        if let (Some(c), None) = (c, &found) {
            found = cache_files.get(&c.join(base(&name)).join(&id).join(&name)).cloned();
        }
    }
    let mut urls = BTreeSet::new();
    let alt = |n: &str| {
        let mut c: Vec<char> = n.chars().collect();
        c.pop();
        c.into_iter().collect::<String>() + "_"
    };
    let mut all: Vec<(usize, String)> = vec![];
    for (i, (_, u)) in want.iter().enumerate() {
        all.push((i, format!("{u}/{name}/{id}/{name}")));
        if !name.ends_with('_') {
            all.push((i, format!("{u}/{name}/{id}/{}", alt(&name))));
        }
    }
    for (_, u) in &all {
        urls.insert(u.clone());
    }
    // one server may have the file
    let mut served: Option<(usize, Vec<u8>)> = None;
    if !all.is_empty() && !r.one_in(3) {
        let (i, u) = r.pick(&all).clone();
        let body: &[u8] = r.pick(&[&b"served data"[..], &b"served data 2"[..], &b""[..], &b"Symbol Not Found"[..], &b"Symbol Not Found here"[..], &b"Symbol"[..], &b"xSymbol Not Found"[..], &b"<html>\nSymbol Not Found\n</html>"[..], &b"symbol not found"[..]]);
        let large: Vec<u8> = if r.one_in(20) { (0..r.range(60_000, 2_300_000)).map(|i| (i % 251) as u8).collect() } else { vec![] };
        let body = if large.is_empty() { body } else { &large };
        let st = if r.one_in(6) { *r.pick(&[203, 206, 226, 300, 404, 403, 500, 503, 410]) } else { 200 };
        s.files.lock().unwrap().insert(u.clone(), (st, body.to_vec()));
        desc.push(format!("server {i} answers {u} with {st} {:?}", String::from_utf8_lossy(&body[..body.len().min(60)])));
        if st == 200 && !body.is_empty() && !body.starts_with(b"Symbol Not Found") {
            served = Some((i, body.to_vec()));
        }
    }
    // a second one may have it too: the answer comes from either
    let mut second: Option<(usize, Vec<u8>)> = None;
    if let (Some((_, b)), true) = (&served, r.one_in(3)) {
        let (i, u) = r.pick(&all).clone();
        let body = [b.as_slice(), b" of the second"].concat();
        let mut f = s.files.lock().unwrap();
        if !f.contains_key(&u) {
            f.insert(u.clone(), (200, body.clone()));
            desc.push(format!("server {i} answers {u} with 200 and {} bytes", body.len()));
            second = Some((i, body));
        }
    }
    if r.one_in(20) {
        // a list of no servers has no file
        let (tx, rx) = std::sync::mpsc::channel();
        let (n, i) = (name.clone(), id.clone());
        std::thread::spawn(move || tx.send(dump_syms::cache::search_file(n, &i, Some(&vec![]))));
        match rx.recv_timeout(std::time::Duration::from_secs(20)) {
            Ok(x) => eq("answer without servers", x, (None, name.clone()))?,
            Err(_) => return Err(format!("the search for {name:?} in an empty list of servers does not end")),
        }
    }
    describe(format!("symbol path {path:?}, file {name:?} id {id}, {desc:?}"));
    let before: Vec<_> = cache_files.clone().into_iter().collect();
    let res = catch_unwind(AssertUnwindSafe(|| dump_syms::cache::search_file(name.clone(), &id, servers.as_ref())));
    let Ok((buf, nm)) = res else { return Err("panic".into()) };
    eq("file name returned", nm, name.clone())?;
    let log = s.log.lock().unwrap().clone();
    if let Some(f) = found {
        eq("data (from the first cache)", buf, Some(f))?;
        eq("requests although a cache has the file", log, vec![])?;
    } else {
        let heads: BTreeSet<String> = log.iter().map(|l| l.1.clone()).collect();
        eq("requested URLs", heads, urls)?;
        if second.is_some() && buf.as_ref() == second.as_ref().map(|s| &s.1) {
            served = second;
        }
        eq("data", buf, served.as_ref().map(|s| s.1.clone()))?;
        if let Some((i, b)) = &served {
            if let Some(c) = &want[*i].0 {
                cache_files.insert(c.join(base(&name)).join(&id).join(&name), b.clone());
            }
        }
    }
    for (p, b) in &cache_files {
        eq(&format!("content of {p:?}"), std::fs::read(p).ok(), Some(b.clone()))?;
    }
    // nothing else was cached
    for (c, _) in want.iter() {
        if let Some(c) = c {
            let p = c.join(base(&name)).join(&id).join(&name);
            eq(&format!("{p:?} exists"), p.exists(), cache_files.contains_key(&p))?;
        }
    }
    let _ = before;
    Ok(!want.is_empty())
}
