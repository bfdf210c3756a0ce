//! Mechanical extraction of functions of /repo into one Verus file.
//!
//!   extract <unit.spec> <repo root> <out.rs> <report.json> [--stub F]... [--probe]
//!
//! Every item named in the unit file is parsed from the current source with syn, rewritten by the
//! fixed rules below (REWRITE RULES) and printed with the contract, invariants and hints of the
//! unit file. `--stub F` prints F as `external_body` (contract assumed); `--probe` replaces every
//! contracted body by `assert(false)`, which must not verify (vacuity probe).
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod specfile;
use specfile::*;

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn toks<T: ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}
fn ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

struct Cx<'a> {
    unit: &'a Unit,
    fs: &'a FnSpec,
    is_option: bool,
    ret_unit_err: bool,
    rewrites: BTreeSet<String>,
    lost: Vec<String>,
    n_loops: usize,
    n_clos: usize,
    tmp: usize,
    str_params: Vec<String>,
}

/// assert!, assert_eq!, assert_ne! and matches! as the code they stand for
fn expand(m: &Macro) -> Option<Expr> {
    let name = m.path.segments.last().unwrap().ident.to_string();
    match name.as_str() {
        "assert" => {
            let args = parse_args(m.tokens.clone())?;
            let c = args.first()?;
            Some(parse_quote!(if !(#c) { panic!(""); }))
        }
        "assert_eq" | "assert_ne" => {
            let args = parse_args(m.tokens.clone())?;
            let (a, b) = (args.first()?, args.get(1)?);
            Some(if name == "assert_eq" { parse_quote!(if !(#a == #b) { panic!(""); }) } else { parse_quote!(if #a == #b { panic!(""); }) })
        }
        "matches" => {
                let ts = m.tokens.clone();
                use syn::parse::Parser;
                let (e, p, g) = (|i: syn::parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok((e, p, g))
                })
                .parse2(ts)
                .ok()?;
                Some(match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            }
        _ => None,
    }
}

// ---------------------------------------------------------------- pass 1: numbering and hints
struct Number<'a, 'b> {
    cx: &'b mut Cx<'a>,
}
fn marker(name: &str, n: usize) -> Stmt {
    let name = ident(name);
    let n = proc_macro2::Literal::usize_unsuffixed(n);
    parse_quote!(#name!(#n);)
}
impl<'a, 'b> Number<'a, 'b> {
    fn number_loop(&mut self, body: &mut Block) {
        let n = self.cx.n_loops;
        self.cx.n_loops += 1;
        body.stmts.insert(0, marker("vx_loop", n));
    }
}
impl<'a, 'b> VisitMut for Number<'a, 'b> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // what is reported of a panic is not modelled
        let n = b.stmts.len();
        b.stmts.retain(|s| match s {
            Stmt::Expr(Expr::Call(c), Some(_)) => {
                let f = toks(&c.func);
                !((f == "panic::set_hook" || f == "std::panic::set_hook") && !toks(&c.args).contains("exit"))
            }
            _ => true,
        });
        if b.stmts.len() != n {
            self.cx.rewrites.insert("`panic::set_hook(..)` (what is reported of a panic) is dropped".into());
        }
        // static X: Lazy<T> = Lazy::new(|| body);  =>  let X = body;
        let n = b.stmts.len();
        b.stmts.retain(|s| !matches!(s, Stmt::Macro(m) if m.mac.path.segments.last().is_some_and(|x| x.ident.to_string().starts_with("debug_assert"))));
        if b.stmts.len() != n {
            self.cx.rewrites.insert("debug_assert!(..) is dropped".into());
        }
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if let Some(n) = expand(&m.mac) {
                    *s = Stmt::Expr(n, m.semi_token);
                }
            }
            // anyhow::ensure!(c, ..)  =>  if !(c) { anyhow::bail!() }  (so that closures in c are seen)
            if let Stmt::Macro(m) = s {
                if m.mac.path.segments.last().is_some_and(|x| x.ident == "ensure") {
                    if let Some(args) = parse_args(m.mac.tokens.clone()) {
                        if let Some(c) = args.first() {
                            let n: Expr = parse_quote!(if !(#c) { anyhow::bail!(""); });
                            *s = Stmt::Expr(n, None);
                        }
                    }
                }
            }
            if let Stmt::Item(Item::Static(st)) = s {
                if let Expr::Call(c) = &*st.expr {
                    if toks(&c.func).ends_with("Lazy::new") && c.args.len() == 1 {
                        if let Expr::Closure(cl) = &c.args[0] {
                            let (nm, body) = (&st.ident, &cl.body);
                            let new: Stmt = parse_quote!(let #nm = #body;);
                            self.cx.rewrites.insert("`static X: Lazy<T> = Lazy::new(|| e)` inside a function is printed as `let X = e`".into());
                            *s = new;
                        }
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = expand(&m.mac) {
                *e = n;
            }
        }
        // x.for_each(|p| body)  =>  for p in x { body }
        if let Expr::MethodCall(m) = e {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let recv = &m.receiver;
                    let pat = &c.inputs[0];
                    let body = &c.body;
                    let new: Expr = parse_quote!(for #pat in #recv { #body; });
                    self.cx.rewrites.insert("`it.for_each(|p| body)` is printed as `for p in it { body }`".into());
                    *e = new;
                }
            }
        }
        // w.write_all(..).and_then(|p| body)  =>  match on the io::Result (the closure may borrow w mutably)
        if let Expr::MethodCall(m) = e {
            if m.method == "and_then" && m.args.len() == 1 {
                if let (Expr::Closure(c), Expr::MethodCall(r)) = (&m.args[0], &*m.receiver) {
                    if ["write_all", "flush", "read_to_end"].contains(&r.method.to_string().as_str()) {
                        let (recv, pat, body) = (&m.receiver, &c.inputs[0], &c.body);
                        let new: Expr = parse_quote!(match #recv { Ok(#pat) => #body, Err(vx_e) => Err(vx_e) });
                        self.cx.rewrites.insert("`w.write_all(..).and_then(|p| body)` is printed as `match w.write_all(..) { Ok(p) => body, Err(e) => Err(e) }`".into());
                        *e = new;
                    }
                }
            }
        }
        if self.cx.fs.may_unwrap {
            if let Expr::MethodCall(m) = e {
                if m.method == "unwrap" && m.args.is_empty() || m.method == "expect" && m.args.len() == 1 {
                    let recv = &m.receiver;
                    self.cx.rewrites.insert(format!("`x.{}()` is printed as `x.vx_or_diverge()`", m.method));
                    *e = parse_quote!(#recv.vx_or_diverge());
                }
            }
        }
        // x.unwrap_or_else(|..| panic!(..))
        if let Expr::MethodCall(m) = e {
            if m.method == "unwrap_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if only_panics(&c.body) {
                        let recv = &m.receiver;
                        let f = if self.cx.fs.may_panic { ident("vx_or_diverge") } else { ident("vx_or_panic") };
                        let new: Expr = parse_quote!(#recv.#f());
                        self.cx.rewrites.insert(format!("`x.unwrap_or_else(|..| panic!(..))` is printed as `x.{f}()`"));
                        *e = new;
                    }
                }
            }
        }
        // Option / Result combinators whose closure no clause of the unit file speaks about: a match
        let force = self.cx.fs.unfold;
        if self.cx.fs.clos.is_empty() || force {
            // b.then_some(x)
            if let Expr::MethodCall(m) = e {
                if m.method == "then_some" && m.args.len() == 1 {
                    let (recv, x) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!((if #recv { Some(#x) } else { None }));
                    self.cx.rewrites.insert("`b.then_some(x)` is printed as `if b { Some(x) } else { None }`".into());
                }
            }
            if let Expr::MethodCall(m) = e {
                if let Some(Expr::Closure(c)) = m.args.last() {
                    let name = m.method.to_string();
                    let param = |c: &ExprClosure| {
                        c.inputs.first().map(|p| match p {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        })
                    };
                    if name == "map_or" && m.args.len() == 2 && c.inputs.len() == 1 && !leaves(&c.body) && !leaves(&m.args[0]) {
                        let (recv, dflt, body, p) = (&m.receiver, &m.args[0], &c.body, param(c).unwrap());
                        let new: Expr = parse_quote!((match #recv { Some(#p) => #body, None => #dflt }));
                        self.cx.rewrites.insert(format!("`x.{name}(d, |p| e)` is printed as the match the std documentation defines"));
                        *e = new;
                    } else if name == "map_or_else" && m.args.len() == 2 && c.inputs.len() == 1 && !leaves(&c.body) && matches!(&m.args[0], Expr::Closure(d) if d.inputs.is_empty() && !leaves(&d.body)) {
                        let Expr::Closure(d) = &m.args[0] else { unreachable!() };
                        let (recv, dflt, body, p) = (&m.receiver, &d.body, &c.body, param(c).unwrap());
                        let new: Expr = parse_quote!((match #recv { Some(#p) => #body, None => #dflt }));
                        self.cx.rewrites.insert(format!("`x.{name}(|| d, |p| e)` is printed as the match the std documentation defines"));
                        *e = new;
                    } else if m.args.len() == 1 && c.asyncness.is_none() && !leaves(&c.body) {
                        let (recv, body, np) = (&m.receiver, &c.body, c.inputs.len());
                        let pat = param(c);
                        let opt = force || gives_option(recv);
                        let new: Option<Expr> = match (name.as_str(), np, pat) {
                            ("unwrap_or_else", 0, _) => Some(parse_quote!((match #recv { Some(vx_v) => vx_v, None => #body }))),
                            ("or_else", 0, _) => Some(parse_quote!((match #recv { Some(vx_v) => Some(vx_v), None => #body }))),
                            ("ok_or_else", 0, _) => Some(parse_quote!((match #recv { Some(vx_v) => Ok(vx_v), None => Err(#body) }))),
                            ("then", 0, _) => Some(parse_quote!((if #recv { Some(#body) } else { None }))),
                            ("and_then", 1, Some(p)) if opt => Some(parse_quote!((match #recv { Some(#p) => #body, None => None }))),
                            ("map", 1, Some(p)) if force => Some(parse_quote!((match #recv { Some(#p) => Some(#body), None => None }))),
                            ("filter", 1, Some(p)) if opt => Some(parse_quote!((match #recv { Some(vx_v) => { let #p = &vx_v; if #body { Some(vx_v) } else { None } } None => None }))),
                            ("is_some_and", 1, Some(p)) => Some(parse_quote!((match #recv { Some(#p) => #body, None => false }))),
                            ("is_none_or", 1, Some(p)) => Some(parse_quote!((match #recv { Some(#p) => #body, None => true }))),
                            ("unwrap_or_else", 1, Some(p)) => Some(parse_quote!((match #recv { Ok(vx_v) => vx_v, Err(#p) => #body }))),
                            _ => None,
                        };
                        if let Some(new) = new {
                            self.cx.rewrites.insert(format!("`x.{name}(|p| e)` is printed as the match the std documentation defines"));
                            *e = new;
                        }
                    }
                }
            }
        }
        // v.dedup_by(|next, current| body)  =>  explicit loop (std's documented semantics)
        if let Expr::MethodCall(m) = e {
            if m.method == "dedup_by" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let v = &m.receiver;
                    let (p0, p1) = (&c.inputs[0], &c.inputs[1]);
                    let body = &c.body;
                    let new: Expr = parse_quote!({
                        let mut vx_src = vx_take_vec(#v);
                        let mut vx_i: usize = 0;
                        while vx_i < vx_src.len() {
                            let mut vx_next = vx_copy_at(&vx_src, vx_i);
                            vx_i = vx_i + 1;
                            if #v.len() == 0 {
                                #v.push(vx_next);
                            } else {
                                let vx_last = #v.len() - 1;
                                let vx_same = {
                                    let #p1 = #v.vx_index_mut(vx_last);
                                    let #p0 = &mut vx_next;
                                    #body
                                };
                                if !vx_same {
                                    #v.push(vx_next);
                                }
                            }
                        }
                    });
                    self.cx.rewrites.insert("`v.dedup_by(|next, cur| body)` is printed as the loop the std documentation defines (body run on each element and the last kept one)".into());
                    *e = new;
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                self.number_loop(&mut f.body);
            }
            Expr::While(w) => self.number_loop(&mut w.body),
            Expr::Loop(l) => self.number_loop(&mut l.body),
            Expr::Closure(c) => {
                let n = self.cx.n_clos;
                self.cx.n_clos += 1;
                let body = &c.body;
                let mk = marker("vx_clo", n);
                let blk: Expr = match &**body {
                    Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => {
                        let mut b = b.clone();
                        b.block.stmts.insert(0, mk);
                        Expr::Block(b)
                    }
                    _ => parse_quote!({ #mk #body }),
                };
                c.body = Box::new(blk);
                if let Some(cs) = self.cx.fs.clos.get(&n) {
                    let (params, _, _) = cs;
                    if !params.trim().is_empty() {
                        let src = format!("|{}| 0", params);
                        match parse_str::<ExprClosure>(&src) {
                            Ok(pc) if pc.inputs.len() == c.inputs.len() => {
                                // keep the code's own patterns; take the types only
                                let new: Vec<Pat> = c
                                    .inputs
                                    .iter()
                                    .zip(pc.inputs.iter())
                                    .map(|(old, new)| {
                                        let old = match old {
                                            Pat::Type(t) => (*t.pat).clone(),
                                            o => o.clone(),
                                        };
                                        match new {
                                            Pat::Type(t) => {
                                                let ty = &t.ty;
                                                let pt: PatType = parse_closure_param(&old, ty);
                                                Pat::Type(pt)
                                            }
                                            _ => old,
                                        }
                                    })
                                    .collect();
                                // patterns that are not plain identifiers become a let
                                let mut inputs = syn::punctuated::Punctuated::new();
                                let mut lets: Vec<Stmt> = vec![];
                                for (i, p) in new.into_iter().enumerate() {
                                    if let Pat::Type(pt) = &p {
                                        if !matches!(&*pt.pat, Pat::Ident(pi) if pi.by_ref.is_none()) {
                                            let nm = ident(&format!("vx_p{}_{}", n, i));
                                            let ty = &pt.ty;
                                            let pat = &pt.pat;
                                            if let Pat::Reference(rp) = &**pat {
                                                let inner = &rp.pat;
                                                lets.push(parse_quote!(let #inner = *#nm;));
                                            } else {
                                                lets.push(parse_quote!(let #pat = #nm;));
                                            }
                                            let q: Pat = Pat::Type(parse_closure_param(&parse_quote!(#nm), ty));
                                            inputs.push(q);
                                            continue;
                                        }
                                    }
                                    inputs.push(p);
                                }
                                c.inputs = inputs;
                                if let Expr::Block(b) = &mut *c.body {
                                    for (k, l) in lets.into_iter().enumerate() {
                                        b.block.stmts.insert(1 + k, l);
                                    }
                                }
                                c.output = ReturnType::Default;
                            }
                            _ => self.cx.lost.push(format!("closure {} has other parameters", n)),
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// a call of a method of std::path, str or OsStr that gives an Option
fn gives_option(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if ["extension", "file_name", "file_stem", "parent", "to_str", "strip_suffix", "split_once", "rsplit_once", "ok", "err", "first", "last", "get", "name", "code_id", "pop"].contains(&m.method.to_string().as_str()))
}
/// `return` or `?` somewhere in e (they would leave another function when a closure is unfolded)
fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            if matches!(e, Expr::Return(_) | Expr::Try(_)) {
                self.0 = true;
            }
            syn::visit::visit_expr(self, e);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.path.segments.last().is_some_and(|x| x.ident == "bail" || x.ident == "ensure") || has_try(m.tokens.clone()) {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn has_try(ts: proc_macro2::TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Punct(p) => p.as_char() == '?',
        proc_macro2::TokenTree::Group(g) => has_try(g.stream()),
        _ => false,
    })
}
fn parse_closure_param(p: &Pat, ty: &Type) -> PatType {
    PatType { attrs: vec![], pat: Box::new(p.clone()), colon_token: Default::default(), ty: Box::new(ty.clone()) }
}

/// Inserts `vx_hint!(k);` for hint k of the unit file.
struct HintPlacer {
    pat: String,
    after: bool,
    k: usize,
    nth: usize,
    seen: usize,
    done: bool,
}
fn stmt_has_nested_block_with(s: &Stmt, pat: &str) -> bool {
    struct V<'a> {
        pat: &'a str,
        hit: bool,
    }
    impl<'a> syn::visit::Visit<'a> for V<'_> {
        fn visit_block(&mut self, b: &'a Block) {
            for s in &b.stmts {
                if toks(s).contains(self.pat) {
                    self.hit = true;
                }
            }
        }
    }
    let mut v = V { pat, hit: false };
    syn::visit::visit_stmt(&mut v, s);
    v.hit
}
impl VisitMut for HintPlacer {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.done {
            return;
        }
        let mut i = 0;
        while i < b.stmts.len() {
            let is_marker = matches!(&b.stmts[i], Stmt::Macro(m) if m.mac.path.segments[0].ident.to_string().starts_with("vx_"));
            if !is_marker && toks(&b.stmts[i]).contains(&self.pat) && !stmt_has_nested_block_with(&b.stmts[i], &self.pat) {
                if self.seen == self.nth {
                    let at = if self.after { i + 1 } else { i };
                    b.stmts.insert(at, marker("vx_hint", self.k));
                    self.done = true;
                    return;
                }
                self.seen += 1;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
/// start / end of loop bodies
struct LoopHint {
    n: usize,
    end: bool,
    k: usize,
    done: bool,
}
impl VisitMut for LoopHint {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let here = b.stmts.first().is_some_and(|s| toks(s) == format!("vx_loop!({});", self.n));
        if here && !self.done {
            let at = if self.end { b.stmts.len() } else { 1 };
            b.stmts.insert(at, marker("vx_hint", self.k));
            self.done = true;
            return;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
struct BeforeLoop {
    n: usize,
    after: bool,
    k: usize,
    done: bool,
}
/// a call of an async function whose future is neither awaited nor what a closure gives
fn unawaited(b: &Block, asyncs: &BTreeSet<String>) -> Option<String> {
    struct V<'a> {
        asyncs: &'a BTreeSet<String>,
        found: Option<String>,
    }
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Await(a) => match &*a.base {
                    Expr::Call(c) => c.args.iter().for_each(|x| self.visit_expr(x)),
                    x => self.visit_expr(x),
                },
                Expr::Closure(c) => match &*c.body {
                    Expr::Call(c) => c.args.iter().for_each(|x| self.visit_expr(x)),
                    Expr::Block(b) => {
                        let n = b.block.stmts.len();
                        for (i, s) in b.block.stmts.iter().enumerate() {
                            match s {
                                Stmt::Expr(Expr::Call(c), None) if i + 1 == n => c.args.iter().for_each(|x| self.visit_expr(x)),
                                s => self.visit_stmt(s),
                            }
                        }
                    }
                    x => self.visit_expr(x),
                },
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let n = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                        if self.asyncs.contains(&n) {
                            self.found = Some(n);
                        }
                    }
                    syn::visit::visit_expr(self, e);
                }
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V { asyncs, found: None };
    syn::visit::Visit::visit_block(&mut v, b);
    v.found
}
fn expr_loop_no(e: &Expr) -> Option<usize> {
    let b = match e {
        Expr::ForLoop(f) => &f.body,
        Expr::While(w) => &w.body,
        Expr::Loop(l) => &l.body,
        _ => return None,
    };
    let t = toks(b.stmts.first()?);
    t.strip_prefix("vx_loop!(")?.strip_suffix(");")?.parse().ok()
}
impl VisitMut for BeforeLoop {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for i in 0..b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Expr(e, _) => expr_loop_no(e) == Some(self.n),
                _ => false,
            };
            if hit && !self.done {
                let at = if self.after { i + 1 } else { i };
                if self.after {
                    // a trailing loop expression must become a statement
                    if let Stmt::Expr(_, semi) = &mut b.stmts[i] {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                }
                b.stmts.insert(at, marker("vx_hint", self.k));
                self.done = true;
                return;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- pass 2: rewriting
struct Rw<'a, 'b> {
    cx: &'b mut Cx<'a>,
}
const LOG: &[&str] = &["error", "warn", "info", "debug", "trace"];

fn parse_args(ts: TokenStream) -> Option<Vec<Expr>> {
    use syn::parse::Parser;
    syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts).ok().map(|p| p.into_iter().collect())
}

impl<'a, 'b> Rw<'a, 'b> {
    fn note(&mut self, s: &str) {
        self.cx.rewrites.insert(s.to_string());
    }
    fn fmt_pieces(&mut self, args: &[Expr], newline: bool) -> Option<Vec<Stmt>> {
        let mut out: Vec<Stmt> = vec![parse_quote!(let mut vx_b = vx_buf();)];
        if args.is_empty() {
            if newline {
                out.push(parse_quote!(vx_b.nl();));
            }
            return Some(out);
        }
        let lit = match &args[0] {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let rest = &args[1..];
        let mut next = 0;
        let mut text = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let flush = |text: &mut String, out: &mut Vec<Stmt>| {
            if !text.is_empty() {
                let l = LitStr::new(text, proc_macro2::Span::call_site());
                out.push(parse_quote!(vx_b.lit(#l);));
                text.clear();
            }
        };
        while i < cs.len() {
            if cs[i] == '{' {
                if i + 1 < cs.len() && cs[i + 1] == '{' {
                    text.push('{');
                    i += 2;
                    continue;
                }
                let j = (i..cs.len()).find(|&j| cs[j] == '}')?;
                let inner: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (inner, String::new()),
                };
                let e: Expr = if name.is_empty() {
                    let e = rest.get(next)?.clone();
                    next += 1;
                    e
                } else if let Ok(n) = name.parse::<usize>() {
                    rest.get(n)?.clone()
                } else {
                    parse_str(&name).ok()?
                };
                flush(&mut text, &mut out);
                match spec.as_str() {
                    "" => out.push(parse_quote!(vx_b.disp(&(#e));)),
                    "x" => out.push(parse_quote!(vx_b.hex(&(#e));)),
                    "X" => out.push(parse_quote!(vx_b.hex_upper(&(#e));)),
                    "?" => out.push(parse_quote!(vx_b.dbg(&(#e));)),
                    _ => return None,
                }
                i = j + 1;
            } else if cs[i] == '}' {
                text.push('}');
                i += 2;
            } else {
                text.push(cs[i]);
                i += 1;
            }
        }
        if newline {
            if text.is_empty() {
                out.push(parse_quote!(vx_b.nl();));
            } else {
                flush(&mut text, &mut out);
                out.push(parse_quote!(vx_b.nl();));
            }
        } else {
            flush(&mut text, &mut out);
        }
        Some(out)
    }
    fn ret_err(&self) -> TokenStream {
        if self.cx.ret_unit_err {
            quote!(return Err(vx_mk_err()))
        } else {
            quote!(return Err(vx_mk_err()))
        }
    }
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name.starts_with("vx_") {
            return None;
        }
        let args = parse_args(m.tokens.clone());
        let r: Expr = match name.as_str() {
            "println" | "print" if self.cx.unit.prints || self.cx.fs.prints => {
                let args = args?;
                let stmts = self.fmt_pieces(&args, name == "println")?;
                self.note("println!/print! are printed as the building of a text and a call to vx_print (shim contract)");
                parse_quote!({ #(#stmts)* vx_print(vx_b.into_string()); })
            }
            n if LOG.contains(&n) || n == "println" || n == "eprintln" => {
                self.note("log and console messages (error!, warn!, info!, println!) are dropped");
                parse_quote!({})
            }
            "write" | "writeln" => {
                let args = args?;
                let f = args[0].clone();
                let stmts = self.fmt_pieces(&args[1..], name == "writeln")?;
                self.note("write!/writeln!/format! are printed as a sequence of literal/Display/hex appends to a text buffer (shim contracts), then emitted to the formatter or returned as a String");
                parse_quote!({ #(#stmts)* #f.vx_emit(vx_b) })
            }
            "format" => {
                let args = args?;
                let stmts = self.fmt_pieces(&args, false)?;
                self.note("write!/writeln!/format! are printed as a sequence of literal/Display/hex appends to a text buffer (shim contracts), then emitted to the formatter or returned as a String");
                parse_quote!({ #(#stmts)* vx_b.into_string() })
            }
            "bail" => {
                self.note("anyhow::bail!/ensure! return Err of an opaque error (message dropped)");
                let r = self.ret_err();
                parse_quote!({ #r; })
            }
            "ensure" => {
                let args = args?;
                let c = &args[0];
                self.note("anyhow::bail!/ensure! return Err of an opaque error (message dropped)");
                let r = self.ret_err();
                parse_quote!(if !(#c) { #r; })
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                if self.cx.fs.may_panic {
                    self.note("panic! in functions whose contract allows it becomes a diverging call");
                    parse_quote!(vx_diverge())
                } else {
                    self.note("panic!/unreachable! become a call that requires false");
                    parse_quote!(vx_panic())
                }
            }
            "vec" => {
                // vec![x; n]  or  vec![a, b]
                if let Ok(r) = parse2::<ExprRepeat>(bracket(&m.tokens)) {
                    let (x, n) = (&r.expr, &r.len);
                    self.note("vec![x; n] becomes vx_vec_repeat(x, n)");
                    parse_quote!(vx_vec_repeat(#x, #n))
                } else {
                    return None;
                }
            }
            "cfg" => {
                let t = norm(&m.tokens.to_string());
                self.note("cfg!(...) is evaluated for the Linux target");
                let v = matches!(t.as_str(), "unix" | "target_os=\"linux\"" | "feature=\"http\"");
                if v {
                    parse_quote!(true)
                } else {
                    parse_quote!(false)
                }
            }
            _ => return None,
        };
        Some(r)
    }

    /// replaces string-literal patterns by fresh bindings; returns the guard
    fn unlit_pat(&mut self, p: &mut Pat) -> Option<Expr> {
        match p {
            Pat::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    self.cx.tmp += 1;
                    let nm = ident(&format!("vx_s{}", self.cx.tmp));
                    let g: Expr = parse_quote!(vx_streq(#nm, #s));
                    *p = parse_quote!(#nm);
                    self.note("string-literal patterns become a binding and an equality guard");
                    return Some(g);
                }
                None
            }
            Pat::Or(o) => {
                if o.cases.iter().all(|c| matches!(c, Pat::Lit(l) if matches!(l.lit, Lit::Str(_)))) {
                    self.cx.tmp += 1;
                    let nm = ident(&format!("vx_s{}", self.cx.tmp));
                    let mut g: Option<Expr> = None;
                    for c in &o.cases {
                        if let Pat::Lit(l) = c {
                            let s = &l.lit;
                            g = Some(match g {
                                None => parse_quote!(vx_streq(#nm, #s)),
                                Some(x) => parse_quote!(#x || vx_streq(#nm, #s)),
                            });
                        }
                    }
                    *p = parse_quote!(#nm);
                    self.note("string-literal patterns become a binding and an equality guard");
                    return g.map(|g| parse_quote!((#g)));
                }
                None
            }
            Pat::Tuple(t) => {
                let mut g: Option<Expr> = None;
                for e in t.elems.iter_mut() {
                    if let Some(x) = self.unlit_pat(e) {
                        g = Some(match g {
                            None => x,
                            Some(y) => parse_quote!(#y && #x),
                        });
                    }
                }
                g
            }
            Pat::TupleStruct(t) => {
                let mut g: Option<Expr> = None;
                for e in t.elems.iter_mut() {
                    if let Some(x) = self.unlit_pat(e) {
                        g = Some(match g {
                            None => x,
                            Some(y) => parse_quote!(#y && #x),
                        });
                    }
                }
                g
            }
            _ => None,
        }
    }
}
fn bracket(ts: &TokenStream) -> TokenStream {
    quote!([#ts])
}
fn is_str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}
fn tail_of(e: &mut Expr) -> &mut Expr {
    if let Expr::Block(b) = e {
        if b.label.is_none() && matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) {
            if let Expr::Block(b) = e {
                if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() {
                    return tail_of(x);
                }
            }
            unreachable!()
        }
    }
    e
}
fn branches<'x>(e: &'x mut Expr, out: &mut Vec<&'x mut Expr>) {
    match e {
        Expr::If(i) => {
            if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() {
                out.push(tail_of(x));
            }
            if let Some((_, x)) = &mut i.else_branch {
                if matches!(**x, Expr::If(_)) {
                    branches(x, out)
                } else {
                    out.push(tail_of(x));
                }
            }
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                out.push(tail_of(&mut a.body));
            }
        }
        _ => {}
    }
}
fn lit_branches(e: &mut Expr, strs: &[String]) -> bool {
    if !matches!(e, Expr::If(_) | Expr::Match(_)) {
        return false;
    }
    let mut v = vec![];
    branches(e, &mut v);
    if !v.iter().any(|x| is_str_lit(x)) {
        return false;
    }
    let mut hit = false;
    for x in v {
        if matches!(x, Expr::Path(p) if p.path.get_ident().is_some_and(|i| strs.contains(&i.to_string()))) {
            continue;
        }
        if matches!(x, Expr::Path(_) | Expr::Field(_)) || matches!(x, Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_) | Expr::Field(_))) {
            let y = x.clone();
            *x = parse_quote!(vx_sref(&#y));
            hit = true;
        }
    }
    hit
}
/// the parameters of type &str
fn str_params(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                (Pat::Ident(i), Type::Reference(r)) if toks(&r.elem) == "str" => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
/// the expression is just a panic!(..)
fn only_panics(e: &Expr) -> bool {
    match e {
        Expr::Macro(m) => m.mac.path.is_ident("panic"),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, _) => only_panics(x),
            Stmt::Macro(m) => m.mac.path.is_ident("panic"),
            _ => false,
        },
        _ => false,
    }
}
fn is_some_call(e: &Expr) -> bool {
    matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")))
}
fn contains_continue_or_question(_b: &Block) -> bool {
    false
}

impl<'a, 'b> VisitMut for Rw<'a, 'b> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // items and attributes inside bodies
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => keep_cfg(&l.attrs),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                let semi = m.semi_token;
                *s = Stmt::Expr(e, semi);
            }
        }
        if let Stmt::Local(l) = s {
            l.attrs.clear();
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Some(r) = self.cx.fs.types.get(&toks(t)).or_else(|| self.cx.unit.types.get(&toks(t))) {
            if let Ok(n) = parse_str::<Type>(r) {
                *t = n;
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(self.cx.unit, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // exact-token substitutions of the unit file
        let t = toks(e);
        if let Some((_, r)) = self.cx.fs.substs.iter().find(|(a, _)| norm(a) == t) {
            let r = r.clone();
            self.note(&format!("in {}: `{}` is printed as `{}`", self.cx.fs.name, t, r));
            match parse_str::<Expr>(&r) {
                Ok(n) => {
                    *e = n;
                    return;
                }
                Err(x) => panic!("bad subst {r}: {x}"),
            }
        }
        // if c { "lit" } else { x }: x may be a &String
        if lit_branches(e, &self.cx.str_params.clone()) {
            self.note("a branch `x` beside a branch that is a string literal is printed as vx_sref(&x) (deref coercion)");
        }
        // f(&x) where f takes a &str: x may be a String or a Cow
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let last = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if self.cx.unit.world_fns.contains(&last) {
                    c.args.push(parse_quote!(vx_w));
                    self.note("methods and functions that act on the ghost world get it as an extra argument vx_w");
                }
                if self.cx.unit.strargs.contains(&last) {
                    for a in c.args.iter_mut() {
                        if matches!(a, Expr::Reference(r) if r.mutability.is_none()) {
                            let x = a.clone();
                            *a = parse_quote!(vx_sref(#x));
                            self.note("a `&x` argument of a function that takes a &str is printed as vx_sref(&x) (deref coercion)");
                        }
                    }
                }
            }
        }
        // byte string literals
        if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
            let v = b.value();
            self.note("a byte string literal is printed as the array of its bytes");
            *e = parse_quote!(&[#(#v),*]);
        }
        // m.entry(k).or_insert(v) / or_insert_with(f)
        if let Expr::MethodCall(m) = e {
            if let Expr::MethodCall(en) = &*m.receiver {
                if en.method == "entry" && (m.method == "or_insert" || m.method == "or_insert_with") {
                    let map = &en.receiver;
                    let k = &en.args[0];
                    let v = &m.args[0];
                    let f = if m.method == "or_insert" { ident("vx_entry_or_insert") } else { ident("vx_entry_or_insert_with") };
                    self.note("`m.entry(k).or_insert..(v)` is printed as one call on the map");
                    *e = parse_quote!(#map.#f(#k, #v));
                }
            }
        }
        // match m.entry(k) { Occupied(e) => .., Vacant(e) => .. }
        if let Some(n) = entry_match(e) {
            self.note("`match map.entry(k) { Occupied(e) => A, Vacant(e) => B }` is printed as `if map.contains(k) { A } else { B }` with e.get/get_mut/insert as map lookups and insertions");
            *e = n;
        }
        match e {
            Expr::Macro(m) => {
                if let Some(mut n) = self.mac(&m.mac) {
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = n;
                    return;
                }
                if m.mac.path.is_ident("vec") {
                    if let Some(args) = parse_args(m.mac.tokens.clone()) {
                        let mut args = args;
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        m.mac.tokens = quote!(#(#args),*);
                    }
                }
            }
            Expr::MethodCall(m) => {
                let mut name = m.method.to_string();
                // rt.block_on(async { .. })
                if name == "block_on" && m.args.len() == 1 {
                    if let Expr::Async(a) = &m.args[0] {
                        if !leaves(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: a.block.clone() })) {
                            let b = a.block.clone();
                            m.args[0] = parse_quote!(#b);
                            self.note("`rt.block_on(async { .. })` is printed as rt.block_on({ .. }): the block runs at once");
                        }
                    }
                }
                if self.cx.unit.world_methods.contains(&name) {
                    m.args.push(parse_quote!(vx_w));
                    self.note("methods and functions that act on the ghost world get it as an extra argument vx_w");
                }
                // v.drain(..) => v.drain_all()
                if name == "drain" && m.args.len() == 1 && matches!(&m.args[0], Expr::Range(r) if r.start.is_none() && r.end.is_none()) && self.cx.unit.methods.contains_key("drain_all") {
                    name = "drain_all".into();
                    m.args.clear();
                }
                if let Some(n) = self.cx.unit.methods.get(&name) {
                    m.method = ident(n);
                    if n.starts_with("vx_") {
                        self.note(&format!(".{}() is std/dependency code: call of {} (assumed contract)", name, n));
                    }
                    if self.cx.unit.drop_turbofish {
                        // keep turbofish: it may carry the target type
                    }
                }
            }
            Expr::Try(t) => {
                let inner = &t.expr;
                let n: Expr = if self.cx.is_option {
                    parse_quote!(match #inner { Some(vx_v) => vx_v, None => return None })
                } else {
                    parse_quote!(match #inner { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_conv_err(vx_e)) })
                };
                self.note("`e?` is printed as a match with an early return (error value converted opaquely)");
                *e = n;
            }
            Expr::Reference(r) => {
                // &mut x[i]
                if let (true, Expr::Index(ix)) = (r.mutability.is_some(), &*r.expr) {
                    if !matches!(&*ix.index, Expr::Range(_)) {
                        let (b, i) = (&ix.expr, &ix.index);
                        let n: Expr = parse_quote!(#b.vx_index_mut(#i));
                        self.note("`&mut x[i]` becomes a call that requires i to be in range");
                        *e = n;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                // &x[a..b]
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let b = &ix.expr;
                        let n: Expr = match (&rg.start, &rg.end) {
                            (Some(s), Some(en)) => parse_quote!(#b.vx_slice(#s, #en)),
                            (None, Some(en)) => parse_quote!(#b.vx_slice_to(#en)),
                            (Some(s), None) => parse_quote!(#b.vx_slice_from(#s)),
                            (None, None) => parse_quote!(#b.vx_slice_all()),
                        };
                        self.note("`&x[a..b]` becomes a call that requires the bounds (and char boundaries for str)");
                        *e = n;
                    }
                }
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, BinOp::Eq(_));
                let ne = matches!(b.op, BinOp::Ne(_));
                if (eq || ne) && (is_str_lit(&b.left) || is_str_lit(&b.right)) {
                    let (l, r) = (&b.left, &b.right);
                    let n: Expr = if eq { parse_quote!(vx_streq(#l, #r)) } else { parse_quote!(!vx_streq(#l, #r)) };
                    self.note("`s == \"lit\"` becomes vx_streq(s, \"lit\")");
                    *e = n;
                } else if (eq || ne) && (is_some_call(&b.left) || is_some_call(&b.right)) {
                    let (l, r) = (&b.left, &b.right);
                    let n: Expr = if eq { parse_quote!(vx_eq(#l, #r)) } else { parse_quote!(!vx_eq(#l, #r)) };
                    self.note("`x == Some(y)` becomes vx_eq(x, Some(y))");
                    *e = n;
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut p = (*l.pat).clone();
                    if let Some(g) = self.unlit_pat(&mut p) {
                        let ex = &l.expr;
                        let th = &i.then_branch;
                        let el: Expr = match &i.else_branch {
                            Some((_, e)) => (**e).clone(),
                            None => parse_quote!({}),
                        };
                        *e = parse_quote!(match #ex { #p if #g => #th, _ => #el });
                    }
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    a.attrs.clear();
                    let mut p = a.pat.clone();
                    if let Some(g) = self.unlit_pat(&mut p) {
                        a.pat = p;
                        a.guard = Some(match a.guard.take() {
                            None => (Default::default(), Box::new(g)),
                            Some((i, old)) => (i, Box::new(parse_quote!(#g && #old))),
                        });
                    }
                }
                if self.cx.fs.unguard && m.arms.iter().any(|a| a.guard.is_some()) {
                    let r = unguard(&m.arms.iter().collect::<Vec<_>>());
                    let ex = &m.expr;
                    *e = parse_quote!({ let vx_m = #ex; #r });
                    self.note("match guards are printed as conditions in front of the arms (@unguard)");
                }
            }
            Expr::Closure(c) => {
                c.attrs.clear();
            }
            Expr::Await(a) => {
                let x = &a.base;
                self.note("`e.await` is printed as e.vx_await(): what the future does happens there");
                let n: Expr = parse_quote!(#x.vx_await());
                *e = n;
            }
            Expr::Async(_) => {
                self.cx.lost.push("an async block that is not run at once".into());
            }
            Expr::Unsafe(u) => {
                let b = &u.block;
                self.note("`unsafe { .. }` is printed as a plain block");
                *e = parse_quote!(#b);
            }
            Expr::ForLoop(f) => {
                let n = loop_no(&f.body);
                let it = ident(&format!("vx_it{}", n));
                let idx = ident(&format!("vx_i{}", n));
                let all = ident(&format!("vx_all{}", n));
                let pat = (*f.pat).clone();
                let ex = (*f.expr).clone();
                let mk = f.body.stmts[0].clone();
                let mut rest: Vec<Stmt> = f.body.stmts[1..].to_vec();
                let label = &f.label;
                let _ = contains_continue_or_question(&f.body);
                // a body that is a bare expression must be a statement
                if let Some(Stmt::Expr(_, semi)) = rest.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                // for p in M.values_mut() / for (k, v) in M.iter_mut() (map): loop over the keys in order
                if let Expr::MethodCall(m) = &ex {
                    let is_map_iter = m.method == "iter_mut" && self.cx.fs.iter_objects.contains(&n);
                    if m.method == "values_mut" || is_map_iter {
                        let v = &m.receiver;
                        let ks = ident(&format!("vx_ks{}", n));
                        let get: Expr = if is_map_iter {
                            parse_quote!((&#ks[vx_k], #v.vx_at_mut(&#ks[vx_k])))
                        } else {
                            parse_quote!(#v.vx_at_mut(&#ks[vx_k]))
                        };
                        let new: Expr = parse_quote!({
                            let #ks = #v.vx_keys();
                            let mut #idx: usize = 0;
                            #label while #idx < #ks.len() {
                                #mk
                                let vx_k = #idx;
                                #idx = #idx + 1;
                                let #pat = #get;
                                #(#rest)*
                            }
                        });
                        self.note("mutable iteration over a map is printed as a loop over its keys in order with a mutable lookup");
                        *e = new;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                    // for (p, q) in A.iter_mut().zip(B.iter())
                    if m.method == "zip" && m.args.len() == 1 {
                        if let (Expr::MethodCall(a), Expr::MethodCall(b), Pat::Tuple(pt)) = (&*m.receiver, &m.args[0], &pat) {
                            if a.method == "iter_mut" && b.method == "iter" && pt.elems.len() == 2 {
                                let (av, bv) = (&a.receiver, &b.receiver);
                                let (p0, p1) = (&pt.elems[0], &pt.elems[1]);
                                let new: Expr = parse_quote!({
                                    let mut #idx: usize = 0;
                                    #label while #idx < #av.len() && #idx < #bv.len() {
                                        #mk
                                        let vx_k = #idx;
                                        #idx = #idx + 1;
                                        let #p0 = #av.vx_index_mut(vx_k);
                                        let #p1 = &#bv[vx_k];
                                        #(#rest)*
                                    }
                                });
                                self.note("`for (p, q) in a.iter_mut().zip(b.iter())` is printed as an index loop");
                                *e = new;
                                visit_mut::visit_expr_mut(self, e);
                                return;
                            }
                        }
                    }
                }
                // for x in E.iter_mut(): index loop
                if let Expr::MethodCall(m) = &ex {
                    if m.method == "iter_mut" && !self.cx.fs.iter_objects.contains(&n) {
                        let v = &m.receiver;
                        let new: Expr = parse_quote!({
                            let mut #idx: usize = 0;
                            #label while #idx < #v.len() {
                                #mk
                                let vx_k = #idx;
                                #idx = #idx + 1;
                                let #pat = #v.vx_index_mut(vx_k);
                                #(#rest)*
                            }
                        });
                        self.note("`for p in v.iter_mut()` is printed as an index loop over v");
                        *e = new;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                let new: Expr = parse_quote!({
                    let mut #it = vx_iter(#ex);
                    let #all = #it.vx_all();
                    #label while #it.has_next() {
                        #mk
                        let #pat = #it.next_item();
                        #(#rest)*
                    }
                });
                self.note("`for p in e` is printed as a while loop over an explicit iterator object (sequence of items and position)");
                *e = new;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let mk = w.body.stmts[0].clone();
                    let rest: Vec<Stmt> = w.body.stmts[1..].to_vec();
                    let (p, ex) = (&l.pat, &l.expr);
                    let label = &w.label;
                    self.note("`while let p = e` is printed as loop { match e { p => .., _ => break } }");
                    *e = parse_quote!(#label loop { #mk match #ex { #p => { #(#rest)* } _ => { break; } } });
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct EntrySub {
    name: String,
    map: Expr,
    key: Ident,
}
impl VisitMut for EntrySub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // an inner entry match shadows the name: rewrite it first
        if let Some(n) = entry_match(e) {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if let Expr::Path(p) = &*m.receiver {
                if p.path.is_ident(&self.name) {
                    let (map, key) = (&self.map, &self.key);
                    match m.method.to_string().as_str() {
                        "get" => *e = parse_quote!(#map.vx_at(&#key)),
                        "get_mut" | "into_mut" => *e = parse_quote!(#map.vx_at_mut(&#key)),
                        "insert" => {
                            let v = &m.args[0];
                            *e = parse_quote!(#map.vx_set(#key.vx_clone(), #v));
                        }
                        _ => {}
                    }
                }
            }
        }
    }
}
/// `p if g => b, rest` as `if (match vx_m { p => g, _ => false }) { match vx_m { p => b, _ => unreached } } else { rest }`
fn unguard(arms: &[&Arm]) -> Expr {
    match arms.iter().position(|a| a.guard.is_some()) {
        None => parse_quote!(match vx_m { #(#arms)* }),
        Some(0) => {
            let (p, b) = (&arms[0].pat, &arms[0].body);
            let g = &arms[0].guard.as_ref().unwrap().1;
            let rest = unguard(&arms[1..]);
            parse_quote!(if (match vx_m { #p => #g, _ => false }) { match vx_m { #p => { #b } _ => vx_unreached() } } else { #rest })
        }
        Some(n) => {
            let first: Vec<&Pat> = arms[..n].iter().map(|a| &a.pat).collect();
            let plain = &arms[..n];
            let rest = unguard(&arms[n..]);
            parse_quote!(if (match vx_m { #(#first => true,)* _ => false }) { match vx_m { #(#plain)* _ => vx_unreached() } } else { #rest })
        }
    }
}
fn entry_match(e: &Expr) -> Option<Expr> {
    let Expr::Match(m) = e else { return None };
    let Expr::MethodCall(en) = &*m.expr else { return None };
    if en.method != "entry" || m.arms.len() != 2 {
        return None;
    }
    let mut occ = None;
    let mut vac = None;
    // unique key variable per nesting: derived from the map expression
    let map = (*en.receiver).clone();
    let key = ident(&format!("vx_key_{}", toks(&map).replace(|c: char| !c.is_alphanumeric(), "_")));
    for a in &m.arms {
        let Pat::TupleStruct(ts) = &a.pat else { return None };
        let which = ts.path.segments.last()?.ident.to_string();
        let nm = match &ts.elems[0] {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Wild(_) => "_".to_string(),
            _ => return None,
        };
        let mut body = (*a.body).clone();
        EntrySub { name: nm, map: map.clone(), key: key.clone() }.visit_expr_mut(&mut body);
        match which.as_str() {
            "Occupied" => occ = Some(body),
            "Vacant" => vac = Some(body),
            _ => return None,
        }
    }
    let (occ, vac) = (occ?, vac?);
    let k = &en.args[0];
    Some(parse_quote!({ let #key = #k; if #map.vx_contains_key(&#key) { #occ } else { #vac } }))
}
fn loop_no(b: &Block) -> usize {
    let t = toks(&b.stmts[0]);
    t.strip_prefix("vx_loop!(").and_then(|x| x.strip_suffix(");")).and_then(|x| x.parse().ok()).expect("loop marker")
}
/// #[cfg(..)] on statements and items, for the Linux target with default features
fn keep_cfg(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let t = toks(&a.meta);
            match t.as_str() {
                "cfg(unix)" | "cfg(feature=\"http\")" | "cfg(target_os=\"linux\")" => {}
                _ => return false,
            }
        }
    }
    true
}
fn rewrite_path(unit: &Unit, p: &mut Path) {
    let s = toks(p);
    if let Some(r) = unit.paths.get(&s) {
        if let Ok(n) = parse_str::<Path>(r) {
            *p = n;
            return;
        }
    }
    // the same path with generic arguments
    if let Some(last) = p.segments.last() {
        if !last.arguments.is_none() && p.segments.len() > 1 {
            let full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if let Some(r) = unit.paths.get(&full) {
                if let Ok(mut n) = parse_str::<Path>(r) {
                    n.segments.last_mut().unwrap().arguments = last.arguments.clone();
                    *p = n;
                    return;
                }
            }
        }
    }
    // prefix rules
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    for k in (1..segs.len()).rev() {
        let pre = segs[..k].join("::");
        if let Some(r) = unit.paths.get(&format!("{}::*", pre)) {
            let rest: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
            let mut np: Path = if r.is_empty() { Path { leading_colon: None, segments: Default::default() } } else { parse_str(r).unwrap() };
            for s in rest {
                np.segments.push(s);
            }
            *p = np;
            break;
        }
    }
    if p.segments.len() == 1 || !p.segments.is_empty() {
        let first = p.segments[0].ident.to_string();
        if let Some(r) = unit.paths.get(&format!("{}", first)) {
            if !r.contains("::") && !r.contains('<') {
                p.segments[0].ident = ident(r);
            }
        }
    }
}

// ---------------------------------------------------------------- closures as functions
struct Lift {
    clo: String,
    fname: Ident,
    caps: Vec<Expr>,
    found: Option<ExprClosure>,
}
impl VisitMut for Lift {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let name = self.clo.clone();
        let mut hit = None;
        for (i, s) in b.stmts.iter().enumerate() {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        if p.ident == name && self.found.is_none() {
                            self.found = Some(c.clone());
                            hit = Some(i);
                        }
                    }
                }
            }
        }
        if let Some(i) = hit {
            b.stmts.remove(i);
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) if self.found.is_some() => {
                if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.clo)) {
                    let f = &self.fname;
                    c.func = Box::new(parse_quote!(#f));
                    for x in &self.caps {
                        c.args.push(x.clone());
                    }
                }
            }
            // x.spawn(move || body)
            Expr::MethodCall(m) if self.clo == "spawn" && m.method == "spawn" && m.args.len() == 1 => {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() && self.found.is_none() {
                        self.found = Some(c.clone());
                        m.method = ident("vx_spawn");
                        m.args.clear();
                        for x in &self.caps {
                            m.args.push(x.clone());
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
fn lift(outer: &str, clo: &str, caps: &str, block: &mut Block) -> Option<(Signature, Block)> {
    let capsig: Signature = parse_str(&format!("fn f({caps})")).unwrap_or_else(|e| panic!("bad @captures {caps}: {e}"));
    let mut exprs: Vec<Expr> = vec![];
    for a in &capsig.inputs {
        let FnArg::Typed(t) = a else { panic!("bad @captures") };
        let p = &t.pat;
        exprs.push(match &*t.ty {
            Type::Reference(_) => parse_quote!(&#p),
            _ => parse_quote!(#p),
        });
    }
    let fname = ident(&format!("{}_{}", outer.replace("::", "_"), clo));
    let mut v = Lift { clo: clo.to_string(), fname: fname.clone(), caps: exprs, found: None };
    let mut b = block.clone();
    v.visit_block_mut(&mut b);
    let c = v.found?;
    let body: Block = match &*c.body {
        Expr::Block(b) => b.block.clone(),
        x => parse_quote!({ #x }),
    };
    let mut sig: Signature = parse_quote!(fn #fname());
    for i in &c.inputs {
        let Pat::Type(t) = i else { return None };
        sig.inputs.push(FnArg::Typed(t.clone()));
    }
    sig.inputs.extend(capsig.inputs.iter().cloned());
    sig.output = c.output.clone();
    *block = b;
    Some((sig, body))
}

// ---------------------------------------------------------------- drop
/// what the compiler adds at the end of the scope, for the locals that are values of the type
fn drop_glue(ty: &str, block: &mut Block, cx: &mut Cx) {
    let mut vars: Vec<Ident> = vec![];
    for s in &block.stmts {
        if let Stmt::Local(l) = s {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Ident(p), Some(init)) = (p, &l.init) {
                if matches!(&*init.expr, Expr::Struct(x) if x.path.is_ident(ty)) {
                    vars.push(p.ident.clone());
                }
            }
        }
    }
    if vars.is_empty() {
        return;
    }
    struct Exits(bool);
    impl VisitMut for Exits {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Return(_) | Expr::Try(_) => self.0 = true,
                Expr::Closure(_) => return,
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut x = Exits(false);
    x.visit_block_mut(block);
    if x.0 {
        cx.lost.push(format!("early exit from the scope of a {ty}"));
        return;
    }
    vars.reverse();
    let drops: Vec<Stmt> = vars.iter().map(|v| parse_quote!(#v.drop();)).collect();
    match block.stmts.pop() {
        Some(Stmt::Expr(e, None)) => {
            block.stmts.push(parse_quote!(let vx_ret = #e;));
            block.stmts.extend(drops);
            block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
        }
        last => {
            block.stmts.extend(last);
            block.stmts.extend(drops);
        }
    }
    cx.rewrites.insert(format!("the drop of a local {ty} at the end of its function is written out"));
}

// ---------------------------------------------------------------- items
struct Items {
    fns: BTreeMap<String, (Option<ItemImpl>, Signature, Block)>,
    structs: BTreeMap<String, ItemStruct>,
    enums: BTreeMap<String, ItemEnum>,
    types: BTreeMap<String, ItemType>,
    consts: BTreeMap<String, ItemConst>,
}
fn collect(items: &[Item], out: &mut Items) {
    for it in items {
        match it {
            Item::Fn(f) if keep_cfg(&f.attrs) => {
                out.fns.insert(f.sig.ident.to_string(), (None, f.sig.clone(), (*f.block).clone()));
            }
            Item::Struct(s) => {
                out.structs.insert(s.ident.to_string(), s.clone());
            }
            Item::Enum(s) => {
                out.enums.insert(s.ident.to_string(), s.clone());
            }
            Item::Type(s) => {
                out.types.insert(s.ident.to_string(), s.clone());
            }
            Item::Const(s) => {
                out.consts.insert(s.ident.to_string(), s.clone());
            }
            Item::Impl(i) => {
                let ty = match &*i.self_ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => continue,
                };
                for ii in &i.items {
                    if let ImplItem::Fn(f) = ii {
                        if !keep_cfg(&f.attrs) {
                            continue;
                        }
                        let key = match &i.trait_ {
                            None => format!("{}::{}", ty, f.sig.ident),
                            Some((_, p, _)) => format!("<{} for {}>::{}", p.segments.last().unwrap().ident, ty, f.sig.ident),
                        };
                        if let Some((_, p, _)) = &i.trait_ {
                            // several implementations of one generic trait: also under its full name
                            let full = format!("<{} for {}>::{}", toks(p.segments.last().unwrap()), ty, f.sig.ident);
                            out.fns.insert(full, (Some(i.clone()), f.sig.clone(), f.block.clone()));
                        }
                        out.fns.insert(key, (Some(i.clone()), f.sig.clone(), f.block.clone()));
                    }
                }
            }
            _ => {}
        }
    }
}

/// prints tokens with line breaks
fn pretty(ts: TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String, ind: usize, paren: usize) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        out.push_str("{\n");
                        out.push_str(&"  ".repeat(ind + 1));
                        go(g.stream(), out, ind + 1, 0);
                        out.push('\n');
                        out.push_str(&"  ".repeat(ind));
                        out.push_str("} ");
                        let nx = v.get(i + 1).map(|t| t.to_string()).unwrap_or_default();
                        if paren == 0 && !nx.starts_with("else") && nx != "." && nx != ";" && nx != "," && nx != ")" {
                            out.push('\n');
                            out.push_str(&"  ".repeat(ind));
                        }
                    }
                    Delimiter::Parenthesis => {
                        out.push('(');
                        go(g.stream(), out, ind, paren + 1);
                        out.push_str(") ");
                    }
                    Delimiter::Bracket => {
                        out.push('[');
                        go(g.stream(), out, ind, paren + 1);
                        out.push_str("] ");
                    }
                    Delimiter::None => go(g.stream(), out, ind, paren),
                },
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    out.push(c);
                    if p.spacing() == proc_macro2::Spacing::Alone && c != '.' && c != '&' && c != '\'' && c != '!' {
                        out.push(' ');
                    }
                    if c == ';' {
                        out.push('\n');
                        out.push_str(&"  ".repeat(ind));
                    }
                }
                TokenTree::Ident(id) => {
                    out.push_str(&id.to_string());
                    out.push(' ');
                }
                TokenTree::Literal(l) => {
                    out.push_str(&l.to_string());
                    out.push(' ');
                }
            }
            i += 1;
        }
    }
    let mut s = String::new();
    go(ts, &mut s, 0, 0);
    s
}

/// moves `vx_loop!(n);` specs etc. to their place
fn place_specs(mut text: String, fs: &FnSpec, probe: bool) -> String {
    // loops
    for kind in ["vx_loop", "vx_clo"] {
        loop {
            let Some(pos) = text.find(&format!("{} !(", kind)) else { break };
            let end = pos + text[pos..].find(';').unwrap() + 1;
            let num: usize = text[pos..end].split('(').nth(1).unwrap().split(')').next().unwrap().trim().parse().unwrap();
            let brace = text[..pos].rfind('{').unwrap();
            let spec = if kind == "vx_loop" {
                fs.loops.get(&num).cloned().unwrap_or_default()
            } else {
                match fs.clos.get(&num) {
                    Some((_, ret, s)) => {
                        if ret.is_empty() {
                            s.clone()
                        } else {
                            format!("-> {}\n{}", ret, s)
                        }
                    }
                    None => String::new(),
                }
            };
            let head = text[..brace].to_string();
            let tail = text[end..].to_string();
            text = format!("{}\n{}\n{{{}", head, spec, tail);
        }
    }
    for (k, h) in fs.hints.iter().enumerate() {
        let m = format!("vx_hint !({} )", k);
        let m2 = format!("vx_hint !({})", k);
        for m in [m, m2] {
            if let Some(pos) = text.find(&m) {
                let end = pos + text[pos..].find(';').unwrap() + 1;
                text = format!("{}{}\n{}", &text[..pos], if probe { "" } else { &h.text }, &text[end..]);
            }
        }
    }
    text
}

fn strip_vis(fields: &mut Fields) {
    for f in fields.iter_mut() {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: extract unit.spec repo out.rs report.json [--stub F].. [--probe]");
        std::process::exit(2);
    }
    let unit = parse_unit(&args[1]);
    let repo = &args[2];
    let mut stubs: BTreeSet<String> = BTreeSet::new();
    let mut probe = false;
    let mut probe_end = false;
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--stub" => {
                stubs.insert(args[i + 1].clone());
                i += 1;
            }
            "--probe" => probe = true,
            "--probe-end" => probe_end = true,
            _ => {}
        }
        i += 1;
    }
    let mut out = String::new();
    let mut report_fns = vec![];
    let mut rewrites: BTreeSet<String> = BTreeSet::new();
    let mut parse_errors = vec![];
    let mut files: BTreeMap<String, Items> = BTreeMap::new();
    for f in &unit.files {
        let mut its = Items { fns: Default::default(), structs: Default::default(), enums: Default::default(), types: Default::default(), consts: Default::default() };
        match std::fs::read_to_string(format!("{}/{}", repo, f)).map_err(|e| e.to_string()).and_then(|s| syn::parse_file(&s).map_err(|e| e.to_string())) {
            Ok(file) => collect(&file.items, &mut its),
            Err(e) => parse_errors.push(format!("{}: {}", f, e)),
        }
        files.insert(f.clone(), its);
    }
    let asyncs: BTreeSet<String> = files.values().flat_map(|i| i.fns.iter()).filter(|(_, f)| f.1.asyncness.is_some()).map(|(n, _)| n.rsplit("::").next().unwrap().to_string()).collect();
    for d in &unit.items {
        let Dir::Fn(fs) = d else { continue };
        let (Some(caps), Some((outer, clo))) = (&fs.captures, fs.name.rsplit_once("::")) else { continue };
        for f in &unit.files {
            let its = files.get_mut(f).unwrap();
            let lifted = match its.fns.get_mut(outer) {
                Some((_, _, block)) => lift(outer, clo, caps, block),
                None => None,
            };
            if let Some((sig, b)) = lifted {
                rewrites.insert(format!("the closure `{clo}` of {outer} is printed as a function with the captured variables `{caps}` as parameters"));
                its.fns.insert(fs.name.clone(), (None, sig, b));
            }
        }
    }
    out.push_str("#![allow(unused, non_camel_case_types, non_snake_case)]\n#![cfg_attr(verus_keep_ghost, feature(allocator_api))]\nuse vstd::prelude::*;\nverus! {\n");
    let empty_fs = FnSpec::default();
    for d in &unit.items {
        match d {
            Dir::Raw(s) => {
                out.push_str(s);
                out.push('\n');
            }
            Dir::Type(kind, name, derive) => {
                let mut found = None;
                for f in &unit.files {
                    let its = &files[f];
                    if kind == "struct" {
                        if let Some(s) = its.structs.get(name) {
                            found = Some(Item::Struct(s.clone()));
                        }
                    } else if kind == "enum" {
                        if let Some(s) = its.enums.get(name) {
                            found = Some(Item::Enum(s.clone()));
                        }
                    } else if kind == "type" {
                        if let Some(s) = its.types.get(name) {
                            found = Some(Item::Type(s.clone()));
                        }
                    } else if kind == "const" {
                        if let Some(s) = its.consts.get(name) {
                            found = Some(Item::Const(s.clone()));
                        }
                    }
                }
                let Some(mut it) = found else {
                    report_fns.push(json!({"fn": name, "status": "lost", "why": format!("{kind} {name} not found"), "type": true}));
                    continue;
                };
                // comparing, copying and the default value are taken to be the derived ones
                let by_hand = files.values().flat_map(|i| i.fns.keys()).find(|k| {
                    let Some((tr, rest)) = k.strip_prefix('<').and_then(|k| k.split_once(" for ")) else { return false };
                    let tr = tr.split('<').next().unwrap().rsplit("::").next().unwrap().trim();
                    let of = rest.split(['>', '<']).next().unwrap().trim();
                    of == name && matches!(tr, "Clone" | "Default" | "PartialEq" | "Eq" | "PartialOrd" | "Ord" | "Hash")
                });
                if let Some(k) = by_hand {
                    report_fns.push(json!({"fn": name, "status": "lost", "why": format!("{k} is written by hand, and taken to be derived"), "type": true}));
                }
                let mut cx = Cx { unit: &unit, fs: &empty_fs, is_option: false, ret_unit_err: false, rewrites: Default::default(), lost: vec![], n_loops: 0, n_clos: 0, tmp: 0, str_params: vec![] };
                match &mut it {
                    Item::Struct(s) => {
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        strip_vis(&mut s.fields);
                        Rw { cx: &mut cx }.visit_item_struct_mut(s);
                    }
                    Item::Enum(s) => {
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        for v in s.variants.iter_mut() {
                            v.attrs.clear();
                        }
                        Rw { cx: &mut cx }.visit_item_enum_mut(s);
                    }
                    Item::Type(s) => {
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        Rw { cx: &mut cx }.visit_item_type_mut(s);
                    }
                    Item::Const(s) => {
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        if let Type::Reference(r) = &mut *s.ty {
                            if r.lifetime.is_none() {
                                r.lifetime = Some(parse_quote!('static));
                            }
                        }
                    }
                    _ => {}
                }
                if !derive.is_empty() {
                    out.push_str(&format!("#[derive({})]\n", derive));
                }
                out.push_str(&pretty(it.to_token_stream()));
                out.push('\n');
            }
            Dir::Fn(fs) => {
                let mut found = None;
                for f in &unit.files {
                    if let Some(x) = files[f].fns.get(&fs.name) {
                        found = Some((f.clone(), x.clone()));
                    }
                }
                let Some((file, (imp, sig, block))) = found else {
                    report_fns.push(json!({"fn": fs.name, "status": "lost", "why": "function not found"}));
                    // its contract stays available to callers through @fallback
                    out.push_str(&fs.fallback);
                    continue;
                };
                let is_option = match &sig.output {
                    ReturnType::Type(_, t) => toks(t).starts_with("Option<"),
                    _ => false,
                };
                let mut cx = Cx { unit: &unit, fs, is_option, ret_unit_err: false, rewrites: Default::default(), lost: vec![], n_loops: 0, n_clos: 0, tmp: 0, str_params: str_params(&sig) };
                let src_line = sig.ident.span().start().line;
                let mut block = block;
                let mut sig = sig;
                Number { cx: &mut cx }.visit_block_mut(&mut block);
                if cx.n_loops != fs.loops.len() && !(fs.loops.is_empty() && cx.n_loops == 0) {
                    let m = format!("{} loops, {} expected", cx.n_loops, fs.loops.len());
                    cx.lost.push(m);
                }
                if fs.n_clos.is_some() && fs.n_clos != Some(cx.n_clos) {
                    let m = format!("{} closures, {} expected", cx.n_clos, fs.n_clos.unwrap());
                    cx.lost.push(m);
                } else if let Some(mx) = fs.clos.keys().max() {
                    if *mx >= cx.n_clos {
                        cx.lost.push(format!("closure {} not found", mx));
                    }
                }
                for (k, h) in fs.hints.iter().enumerate() {
                    let done = match &h.place {
                        Place::Start => {
                            block.stmts.insert(0, marker("vx_hint", k));
                            true
                        }
                        Place::End => {
                            block.stmts.push(marker("vx_hint", k));
                            true
                        }
                        Place::BeforeTail => {
                            let at = block.stmts.len().saturating_sub(1);
                            block.stmts.insert(at, marker("vx_hint", k));
                            true
                        }
                        Place::Pat { pat, after, nth } => {
                            let mut p = HintPlacer { pat: norm(pat), after: *after, k, nth: *nth, seen: 0, done: false };
                            p.visit_block_mut(&mut block);
                            p.done
                        }
                        Place::LoopStart(n) | Place::LoopEnd(n) => {
                            let mut p = LoopHint { n: *n, end: matches!(h.place, Place::LoopEnd(_)), k, done: false };
                            p.visit_block_mut(&mut block);
                            p.done
                        }
                        Place::BeforeLoop(n) => {
                            let mut p = BeforeLoop { n: *n, after: false, k, done: false };
                            p.visit_block_mut(&mut block);
                            p.done
                        }
                        Place::AfterLoop(_) => true,
                    };
                    if !done {
                        cx.lost.push(format!("anchor of hint {} not found: {:?}", k, h.place));
                    }
                }
                if let ReturnType::Type(_, t) = &sig.output {
                    let is_str = matches!(&**t, Type::Reference(r) if r.mutability.is_none() && toks(&r.elem) == "str");
                    if let (true, Some(Stmt::Expr(x, None))) = (is_str, block.stmts.last_mut()) {
                        let x = tail_of(x);
                        if matches!(x, Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_) | Expr::Field(_))) {
                            let y = x.clone();
                            *x = parse_quote!(vx_sref(#y));
                            cx.rewrites.insert("a returned `&x` of a function that returns a &str is printed as vx_sref(&x) (deref coercion)".into());
                        }
                    }
                }
                if let Some(ty) = &fs.dropglue {
                    drop_glue(ty, &mut block, &mut cx);
                }
                if let Some(n) = unawaited(&block, &asyncs) {
                    cx.lost.push(format!("the future of {n} is not awaited"));
                }
                Rw { cx: &mut cx }.visit_block_mut(&mut block);
                // hints after a loop go into the block the rewriting may have put around it
                for (k, h) in fs.hints.iter().enumerate() {
                    if let Place::AfterLoop(n) = &h.place {
                        let mut p = BeforeLoop { n: *n, after: true, k, done: false };
                        p.visit_block_mut(&mut block);
                        if !p.done {
                            cx.lost.push(format!("anchor of hint {} not found: {:?}", k, h.place));
                        }
                    }
                }
                Rw { cx: &mut cx }.visit_signature_mut(&mut sig);
                sig.constness = None;
                if sig.asyncness.take().is_some() {
                    cx.rewrites.insert("an `async fn` is printed as a plain function; a call of one must be awaited or be what a closure gives".into());
                }
                if let Some(r) = &fs.rename {
                    sig.ident = ident(r);
                }
                // parameters that are patterns or `mut x`
                for a in sig.inputs.iter_mut() {
                    if let FnArg::Typed(t) = a {
                        t.attrs.clear();
                    }
                }
                let lost = if fs.used { vec![] } else { cx.lost.clone() };
                let stub = fs.used || !lost.is_empty() || stubs.contains(&fs.name);
                let probe = probe && !stub;
                if probe_end && !stub {
                    let at = match block.stmts.last() {
                        Some(Stmt::Expr(_, None)) => block.stmts.len() - 1,
                        Some(Stmt::Expr(Expr::Return(_), _)) => block.stmts.len() - 1,
                        _ => block.stmts.len(),
                    };
                    block.stmts.insert(at, parse_quote!(assert(false);));
                }
                if !fs.used {
                    rewrites.extend(cx.rewrites.iter().cloned());
                }
                // print
                let start_line = out.matches('\n').count() + 1;
                let mut head = String::new();
                let mut close = "";
                if let Some(im) = &imp {
                    let mut im = im.clone();
                    im.items.clear();
                    im.attrs.clear();
                    im.trait_ = None;
                    Rw { cx: &mut cx }.visit_item_impl_mut(&mut im);
                    let self_ty = match &fs.self_ty {
                        Some(s) => s.clone(),
                        None => im.self_ty.to_token_stream().to_string(),
                    };
                    if let Some(h) = &fs.impl_head {
                        head = format!("{} {{\n", h);
                    } else {
                        let g = &im.generics;
                        let (ig, _, wc) = g.split_for_impl();
                        head = format!("impl {} {} {} {{\n", ig.to_token_stream(), self_ty, wc.to_token_stream());
                    }
                    close = "}\n";
                }
                if unit.world_fns.contains(&sig.ident.to_string()) {
                    sig.inputs.push(parse_quote!(vx_w: &mut VxWorld));
                }
                let params = sig.inputs.to_token_stream().to_string();
                let generics = sig.generics.to_token_stream().to_string();
                let wc = sig.generics.where_clause.to_token_stream().to_string();
                let ret = match &sig.output {
                    ReturnType::Default => String::new(),
                    ReturnType::Type(_, t) => {
                        if toks(t) == "!" {
                            "-> !".into()
                        } else {
                            format!("-> ({} : {})", fs.ret_name, t.to_token_stream())
                        }
                    }
                };
                let vis = if fs.impl_head.as_deref().is_some_and(|h| h.contains(" for ")) { "" } else { "pub" };
                let mut text = String::new();
                if stub || probe {
                    if stub && !probe {
                        text.push_str("#[verifier::external_body]\n");
                    }
                } 
                for a in &fs.attrs {
                    if !(probe || stub) {
                        text.push_str(&format!("#[{}]\n", a));
                    } else if a.contains("exec_allows_no_decreases") || a.contains("rlimit") {
                        // irrelevant for a stub
                    }
                }
                let sigtext = match &fs.sig_override {
                    Some(s) => s.clone(),
                    None => format!("{} fn {} {} ({}) {} {}", vis, sig.ident, generics, params, ret, wc),
                };
                text.push_str(&sigtext);
                text.push('\n');
                text.push_str(&fs.spec);
                text.push('\n');
                if probe {
                    text.push_str("{ assert(false); vx_diverge() }\n");
                } else if stub {
                    text.push_str("{ unimplemented!() }\n");
                } else {
                    let body = pretty(block.to_token_stream());
                    text.push_str(&place_specs(body, fs, probe));
                }
                let text = if fs.trait_decl.is_some() && false { text } else { text };
                out.push_str(&head);
                out.push_str(&text);
                out.push('\n');
                out.push_str(close);
                let end_line = out.matches('\n').count() + 1;
                report_fns.push(json!({"fn": fs.name, "file": file, "line": src_line, "emitted": sig.ident.to_string(),
                    "start": start_line, "end": end_line, "prop": fs.props,
                    "assumed": fs.assumed,
                    "free_closures": (0..cx.n_clos).filter(|n| !fs.clos.contains_key(n)).count(),
                    "status": if fs.used {"used"} else if !lost.is_empty() {"lost"} else if stub {"stub"} else {"ok"}, "why": lost.join("; ")}));
            }
        }
    }
    out.push_str("\n} // verus!\n");
    std::fs::write(&args[3], &out).unwrap();
    let rep = json!({"unit": args[1], "fns": report_fns, "rewrites": rewrites, "parse_errors": parse_errors});
    std::fs::write(&args[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}
