//! The unit-file format: lines starting with `@` are directives, the rest is text of the current one.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum Place {
    Start,
    End,
    BeforeTail,
    Pat { pat: String, after: bool, nth: usize },
    LoopStart(usize),
    LoopEnd(usize),
    BeforeLoop(usize),
    AfterLoop(usize),
}
#[derive(Debug, Clone)]
pub struct Hint {
    pub place: Place,
    pub text: String,
}
#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub name: String,
    pub rename: Option<String>,
    pub self_ty: Option<String>,
    pub impl_head: Option<String>,
    pub sig_override: Option<String>,
    pub trait_decl: Option<String>,
    pub ret_name: String,
    pub spec: String,
    pub attrs: Vec<String>,
    pub loops: BTreeMap<usize, String>,
    pub clos: BTreeMap<usize, (String, String, String)>,
    pub n_clos: Option<usize>,
    pub hints: Vec<Hint>,
    pub substs: Vec<(String, String)>,
    pub unfold: bool,
    pub prints: bool,
    pub may_panic: bool,
    /// so do `unwrap` and `expect`
    pub may_unwrap: bool,
    pub iter_objects: Vec<usize>,
    pub props: Vec<String>,
    pub assumed: bool,
    /// a closure of another function, printed as a function with these extra parameters
    pub captures: Option<String>,
    /// locals of this type are dropped explicitly at the end of the function
    pub dropglue: Option<String>,
    pub fallback: String,
    /// match guards become conditions
    pub unguard: bool,
    /// type mappings of this function only
    pub types: BTreeMap<String, String>,
    /// included with @use: proved in its own unit, only its contract is printed here
    pub used: bool,
}
#[derive(Debug)]
pub enum Dir {
    Raw(String),
    Type(String, String, String),
    Fn(Box<FnSpec>),
}
#[derive(Debug, Default)]
pub struct Unit {
    pub strargs: std::collections::BTreeSet<String>,
    /// methods and functions that act on the ghost world
    pub prints: bool,
    pub world_methods: std::collections::BTreeSet<String>,
    pub world_fns: std::collections::BTreeSet<String>,
    pub files: Vec<String>,
    pub items: Vec<Dir>,
    pub methods: BTreeMap<String, String>,
    pub types: BTreeMap<String, String>,
    pub paths: BTreeMap<String, String>,
    pub drop_turbofish: bool,
    pub using: bool,
    pub loaded: Vec<std::path::PathBuf>,
}

enum Target {
    None,
    Raw,
    Spec,
    Loop(usize),
    Clo(usize),
    Hint(usize),
    Fallback,
}

pub fn parse_unit(path: &str) -> Unit {
    let mut u = Unit::default();
    load(path, &mut u);
    u
}
fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn load(path: &str, u: &mut Unit) {
    let canon = std::fs::canonicalize(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    if u.loaded.contains(&canon) {
        return;
    }
    u.loaded.push(canon);
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut cur: Option<FnSpec> = None;
    let mut t = Target::None;
    let mut raw = String::new();
    macro_rules! flush {
        () => {
            if let Some(mut f) = cur.take() {
                f.used = u.using;
                u.items.push(Dir::Fn(Box::new(f)));
            }
            if !raw.is_empty() {
                let mut text = std::mem::take(&mut raw);
                if u.using {
                    // lemmas of a used file are proved in that file's own unit
                    text = text
                        .lines()
                        .map(|l| if l.starts_with("pub proof fn ") { format!("#[verifier::external_body]\n{l}\n") } else { format!("{l}\n") })
                        .collect();
                }
                u.items.push(Dir::Raw(text));
            }
        };
    }
    for (ln, line) in text.lines().enumerate() {
        let l = line.trim();
        if let Some(d) = l.strip_prefix('@') {
            let (k, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            macro_rules! f {
                () => {
                    cur.as_mut().unwrap_or_else(|| panic!("{path}:{}: outside @fn", ln + 1))
                };
            }
            match k {
                "include" => {
                    flush!();
                    load(dir.join(rest).to_str().unwrap(), u);
                    t = Target::None;
                }
                "use" => {
                    flush!();
                    let was = std::mem::replace(&mut u.using, true);
                    load(dir.join(rest).to_str().unwrap(), u);
                    u.using = was;
                    t = Target::None;
                }
                "file" => {
                    if !u.files.contains(&rest.to_string()) {
                        u.files.push(rest.to_string())
                    }
                }
                "raw" => {
                    flush!();
                    t = Target::Raw;
                }
                "struct" | "enum" | "type" | "const" => {
                    flush!();
                    let (n, der) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                    u.items.push(Dir::Type(k.to_string(), n.to_string(), der.trim().to_string()));
                    t = Target::None;
                }
                "method" => {
                    for m in rest.split_whitespace() {
                        let (a, b) = match m.split_once("=>") {
                            Some((a, b)) => (a.to_string(), b.to_string()),
                            None => (m.to_string(), format!("vx_{}", m)),
                        };
                        u.methods.insert(a, b);
                    }
                }
                "strarg" => {
                    for m in rest.split_whitespace() {
                        u.strargs.insert(m.to_string());
                    }
                }
                "prints" if cur.is_some() => f!().prints = true,
                "prints" => u.prints = true,
                "worldmethod" => u.world_methods.extend(rest.split_whitespace().map(String::from)),
                "worldfn" => u.world_fns.extend(rest.split_whitespace().map(String::from)),
                "unmethod" => {
                    for m in rest.split_whitespace() {
                        u.methods.remove(m);
                    }
                }
                "fntype" => {
                    let (a, b) = rest.split_once("=>").expect("fntype a => b");
                    f!().types.insert(norm(a), b.trim().to_string());
                }
                "typemap" => {
                    let (a, b) = rest.split_once("=>").expect("typemap a => b");
                    u.types.insert(norm(a), b.trim().to_string());
                }
                "path" => {
                    let (a, b) = rest.split_once("=>").expect("path a => b");
                    u.paths.insert(norm(a), b.trim().to_string());
                }
                "fn" => {
                    flush!();
                    cur = Some(FnSpec { name: rest.to_string(), ret_name: "r".into(), ..Default::default() });
                    t = Target::None;
                }
                "as" => f!().rename = Some(rest.to_string()),
                "self" => f!().self_ty = Some(rest.to_string()),
                "impl" => f!().impl_head = Some(rest.to_string()),
                "sig" => f!().sig_override = Some(rest.to_string()),
                "ret" => f!().ret_name = rest.to_string(),
                "attr" => f!().attrs.push(rest.to_string()),
                "props" => f!().props = rest.split_whitespace().map(|s| s.to_string()).collect(),
                "unguard" => f!().unguard = true,
                "unfold" => f!().unfold = true,
                "maypanic" => f!().may_panic = true,
                "unwraps" => f!().may_unwrap = true,
                "assumed" => f!().assumed = true,
                "captures" => f!().captures = Some(rest.to_string()),
                "dropglue" => f!().dropglue = Some(rest.trim().to_string()),
                "nclos" => f!().n_clos = Some(rest.parse().unwrap()),
                "iterobj" => {
                    let n = rest.parse().unwrap();
                    f!().iter_objects.push(n)
                }
                "subst" => {
                    let (a, b) = rest.split_once("=>>").expect("subst a =>> b");
                    f!().substs.push((a.trim().to_string(), b.trim().to_string()))
                }
                "spec" => t = Target::Spec,
                "fallback" => t = Target::Fallback,
                "loop" => {
                    let n: usize = rest.parse().unwrap();
                    f!().loops.insert(n, String::new());
                    t = Target::Loop(n);
                }
                "clo" => {
                    // @clo N params -> (ret)
                    let (n, r) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                    let n: usize = n.parse().unwrap();
                    let (p, ret) = match r.rsplit_once("->>") {
                        Some((p, r)) => (p.trim().to_string(), r.trim().to_string()),
                        None => (r.trim().to_string(), String::new()),
                    };
                    f!().clos.insert(n, (p, ret, String::new()));
                    t = Target::Clo(n);
                }
                "at" => {
                    let (w, r) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                    let r = r.trim();
                    let place = match w {
                        "start" => Place::Start,
                        "end" => Place::End,
                        "tail" => Place::BeforeTail,
                        "loopstart" => Place::LoopStart(r.parse().unwrap()),
                        "loopend" => Place::LoopEnd(r.parse().unwrap()),
                        "beforeloop" => Place::BeforeLoop(r.parse().unwrap()),
                        "afterloop" => Place::AfterLoop(r.parse().unwrap()),
                        "before" | "after" => {
                            let (nth, p) = match r.strip_prefix('#') {
                                Some(x) => {
                                    let (n, p) = x.split_once(' ').unwrap();
                                    (n.parse().unwrap(), p)
                                }
                                None => (0, r),
                            };
                            Place::Pat { pat: p.to_string(), after: w == "after", nth }
                        }
                        _ => panic!("{path}:{}: bad @at {w}", ln + 1),
                    };
                    let fs = f!();
                    fs.hints.push(Hint { place, text: String::new() });
                    t = Target::Hint(fs.hints.len() - 1);
                }
                _ => panic!("{path}:{}: unknown directive @{k}", ln + 1),
            }
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &t {
            Target::None => {
                if !l.is_empty() && !l.starts_with('#') {
                    panic!("{path}:{}: stray text: {l}", ln + 1)
                }
            }
            Target::Raw => add(&mut raw),
            Target::Spec => add(&mut cur.as_mut().unwrap().spec),
            Target::Fallback => add(&mut cur.as_mut().unwrap().fallback),
            Target::Loop(n) => add(cur.as_mut().unwrap().loops.get_mut(n).unwrap()),
            Target::Clo(n) => add(&mut cur.as_mut().unwrap().clos.get_mut(n).unwrap().2),
            Target::Hint(k) => add(&mut cur.as_mut().unwrap().hints[*k].text),
        }
    }
    flush!();
}
