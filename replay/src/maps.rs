//! C14, C15: path mappings.
use crate::{Case, Rng};
#[cfg(not(feature = "hooks"))]
pub fn c14(_r: &mut Rng, _k: u64) -> Case {
    Ok(false)
}
#[cfg(not(feature = "hooks"))]
pub fn c15(_r: &mut Rng, _k: u64) -> Case {
    Ok(false)
}
#[cfg(feature = "hooks")]
pub use hooked::{c14, c15};
#[cfg(feature = "hooks")]
mod hooked {
    use super::*;
    use crate::{describe, eq, Dir};
    use dump_syms::verif::Map;
    use sha2::{Digest, Sha512};
    use std::collections::BTreeMap;

    type Vars = BTreeMap<String, String>;
    enum Part {
        Text(String),
        Group(usize),
        Var(String),
        Digest(bool),
    }
    /// None: rejected
    fn o_parse(t: &str, vars: &Vars) -> Option<Vec<Part>> {
        let c: Vec<char> = t.chars().collect();
        let mut out = vec![];
        let mut text = String::new();
        let mut i = 0;
        while i < c.len() {
            if c[i] == '{' {
                if let Some(j) = (i + 1..c.len()).find(|j| c[*j] == '{' || c[*j] == '}') {
                    if c[j] == '}' {
                        let name: String = c[i + 1..j].iter().collect();
                        out.push(Part::Text(std::mem::take(&mut text)));
                        out.push(if name == "DIGEST" || name == "digest" {
                            Part::Digest(name == "DIGEST")
                        } else if let Some(v) = vars.get(&name) {
                            Part::Var(v.clone())
                        } else if let Ok(n) = name.parse::<usize>() {
                            Part::Group(n)
                        } else {
                            return None;
                        });
                        i = j + 1;
                        continue;
                    }
                }
            }
            text.push(c[i]);
            i += 1;
        }
        out.push(Part::Text(text));
        Some(out)
    }
    /// Ok(None): does not apply; Err: the file cannot be read
    fn o_apply(re: &str, parts: &[Part], path: &str) -> Result<Option<String>, ()> {
        let re = regex::Regex::new(re).unwrap();
        let Some(caps) = re.captures(path) else { return Ok(None) };
        let mut out = String::new();
        for p in parts {
            match p {
                Part::Text(t) => out += t,
                Part::Var(v) => out += v,
                Part::Group(g) => match caps.get(*g) {
                    Some(m) => out += m.as_str(),
                    None => return Ok(None),
                },
                Part::Digest(up) => {
                    let d = std::fs::read(path).map_err(|_| ())?;
                    let h: String = Sha512::digest(&d).iter().map(|b| if *up { format!("{b:02X}") } else { format!("{b:02x}") }).collect();
                    out += &h;
                }
            }
        }
        Ok(Some(out))
    }
    const RES: &[&str] = &["/a/(.*)", "^(/[a-z]+)/(.*)$", "(x)?/(.+)", ".*", "(b|c)(d)?", "^/a/(b)(c)?(.*)", "/z/(.*)", "é(.*)", "([^/]*)$", "(?P<nope>/a)/(?P<w>.*)", "(?i)/A/(.*)"];
    fn template(r: &mut Rng, digest: bool, ok: bool) -> String {
        let mut parts = vec!["{1}", "{2}", "{0}", "x", "https://h/", "{v}", "{rev}", "é", "/", "}", "{", "}}", "{{", " ", ":", "{3}", "{1}{2}", "tail", "{4294967296}", "{18446744073709551616}", "{10}"];
        if digest {
            parts.extend(["{DIGEST}", "{digest}"]);
        }
        if !ok {
            parts.extend(["{nope}", "{}", "{ 1}", "{-1}", "{+1}", "{Digest}", "{é}", "{01}", "{w}"]);
        }
        let n = r.range(0, 6);
        (0..n).map(|_| *r.pick(&parts)).collect()
    }
    fn vars(r: &mut Rng) -> Vars {
        let mut v = Vars::new();
        for _ in 0..r.below(4) {
            v.insert(r.pick(&["v", "rev", "1", "DIGEST", "", "nope", "2"]).to_string(), r.pick(&["abc", "", "{1}", "a=b", "é", "{v}", "{rev}", "{DIGEST}", "$1", "\\1", "{", "a}"]).to_string());
        }
        v
    }
    fn path(r: &mut Rng, d: Option<&std::path::Path>) -> String {
        if let Some(d) = d {
            let f = d.join(*r.pick(&["a", "b", "d"]));
            return f.to_str().unwrap().into();
        }
        r.pick(&["/a/b", "/a/bc/d", "/z/a/b.c", "x/y", "b", "/é/ü", "", "cd", "bd", "/a/", "/q/r.c", "/A/b", "/a/B", "/Z/a/b.c", "/a/./b", "/a//b", "/a/b/", " /a/b", "CD", "/É/ü", "./x/y", "x/./y", "/a/b/."]).to_string()
    }
    pub fn c14(r: &mut Rng, k: u64) -> Case {
        let digest = k % 8 == 0;
        let dir = digest.then(Dir::new);
        if let Some(d) = &dir {
            for f in ["a", "b"] {
                let more = if r.one_in(8) { r.range(1 << 12, 5 << 20) as usize } else { 0 };
                std::fs::write(d.0.join(f), format!("{f}{}{}", r.below(100), "x".repeat(more))).unwrap();
            }
        }
        let ok = !r.one_in(5);
        let t = template(r, digest, ok);
        let re = if digest { *r.pick(&[".*", "(.)$", "^(.*)/(.)$"]) } else { *r.pick(RES) };
        let vs = vars(r);
        let args: Vec<String> = vs.iter().map(|(a, b)| format!("{a}={b}")).collect();
        let av: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let p = path(r, dir.as_ref().map(|d| d.0.as_path()));
        describe(format!("variables {av:?}, source {re:?}, destination {t:?}, path {p:?}"));
        let m = Map::new(&Some(av), &Some(vec![re]), &Some(vec![&t]), &None);
        let parts = o_parse(&t, &vs);
        eq("template accepted", m.is_ok(), parts.is_some())?;
        let (Ok(Some(m)), Some(parts)) = (m, parts) else { return Ok(true) };
        let g = m.map(&p);
        match o_apply(re, &parts, &p) {
            Ok(w) => eq("mapped path", g, Ok(w.clone())).map(|_| w.is_some()),
            Err(()) => {
                if let Ok(Some(x)) = g {
                    return Err(format!("mapped to {x:?} although the file cannot be read"));
                }
                Ok(false)
            }
        }
    }
    pub fn c15(r: &mut Rng, _k: u64) -> Case {
        let dir = Dir::new();
        let paths: Vec<String> = (0..r.range(2, 6)).map(|_| path(r, None)).collect();
        let fvars = vars(r);
        let cvars = vars(r);
        let mut merged = fvars.clone();
        merged.extend(cvars.clone());
        let gen = |r: &mut Rng, n: u64, vs: &Vars| -> Vec<(String, String)> {
            let mut v = vec![];
            for _ in 0..n {
                let mut t = template(r, false, true);
                while o_parse(&t, vs).is_none() {
                    t = format!("m{}-{{1}}", r.below(9));
                }
                v.push((r.pick(RES).to_string(), t));
            }
            v
        };
        let n = r.below(5);
        let file_maps: Vec<(String, String, Vec<String>)> = gen(r, n, &merged)
            .into_iter()
            .map(|(a, b)| {
                let fs = if r.one_in(2) { vec![] } else { (0..r.range(1, 2)).map(|_| r.pick(&paths).clone()).collect() };
                (a, b, fs)
            })
            .collect();
        let n = r.below(4);
        let cli = gen(r, n, &cvars);
        let with_file = r.one_in(2);
        let jf = dir.0.join("m.json");
        if with_file {
            let j = serde_json::json!({"variables": fvars, "mappings": file_maps.iter().map(|m| serde_json::json!({"source": m.0, "destination": m.1, "files": m.2})).collect::<Vec<_>>()});
            std::fs::write(&jf, j.to_string()).unwrap();
        }
        let mut args: Vec<String> = cvars.iter().map(|(a, b)| format!("{a}={b}")).collect();
        let mut bad = false;
        if r.one_in(12) {
            args.push("novalue".into());
            bad = true;
        }
        let mut src: Vec<&str> = cli.iter().map(|m| m.0.as_str()).collect();
        let dst: Vec<&str> = cli.iter().map(|m| m.1.as_str()).collect();
        if r.one_in(12) {
            src.push("x");
            bad = true;
        }
        let none = src.is_empty() && dst.is_empty();
        let av: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let jp = jf.to_str().unwrap().to_string();
        describe(format!("variables {av:?}, sources {src:?}, destinations {dst:?}, mapping file {:?}, paths {paths:?}", with_file.then_some((&fvars, &file_maps))));
        // an empty list is as good as none
        let (s_given, d_given) = (!none || r.one_in(4), !none || r.one_in(4));
        let m = Map::new(&Some(av), &s_given.then_some(src), &d_given.then_some(dst), &with_file.then_some(jp.as_str()));
        eq("accepted", m.is_ok(), !bad)?;
        let Ok(m) = m else { return Ok(true) };
        let mut order: Vec<(&str, Vec<Part>, &[String])> = vec![];
        if with_file {
            for m in file_maps.iter().filter(|m| !m.2.is_empty()) {
                order.push((&m.0, o_parse(&m.1, &merged).unwrap(), &m.2));
            }
            for m in file_maps.iter().filter(|m| m.2.is_empty()) {
                order.push((&m.0, o_parse(&m.1, &merged).unwrap(), &m.2));
            }
        }
        for m in &cli {
            order.push((&m.0, o_parse(&m.1, &cvars).unwrap(), &[]));
        }
        eq("has mappings", m.is_some(), !order.is_empty())?;
        let Some(m) = m else { return Ok(false) };
        let mut hit = false;
        for _ in 0..2 {
            for p in &paths {
                let w = order.iter().filter(|o| o.2.is_empty() || o.2.contains(p)).find_map(|o| o_apply(o.0, &o.1, p).unwrap());
                hit |= w.is_some();
                let g = m.map(p);
                eq(&format!("mapping of {p:?}"), g, Ok(w))?;
            }
        }
        Ok(hit && order.len() > 1)
    }
}
