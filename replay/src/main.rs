//! Replay harness: runs the real code of /repo on generated inputs and compares it with an
//! independent oracle per property.
//!   replay CNN [--seed S] [--cases N] [--case K] [--out FILE] [--threads T]
//! exit 0: no disagreement; exit 1: a disagreement, described in FILE (JSON).
mod cachet;
mod cli;
mod dumps;
mod funcs;
mod idents;
mod maps;
mod model;
mod paths;
mod reads;
mod pe;
mod syms;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// a number of things: mostly up to n, sometimes many more
    pub fn count(&mut self, n: u64) -> u64 {
        if self.one_in(25) {
            self.range(n, 8 * n)
        } else {
            self.range(0, n)
        }
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
thread_local! { static DESC: RefCell<String> = const { RefCell::new(String::new()) }; static QUIET: RefCell<bool> = const { RefCell::new(false) };
  static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
/// describe the input before the code under test runs
pub fn describe(s: impl Into<String>) {
    let s = s.into();
    if let Some(p) = TRACE.get() {
        // a single case: what was going on when the process dies
        let _ = std::fs::write(p, &s);
    }
    if let Some(b) = BUSY.get() {
        let i = SLOT.with(|s| *s.borrow());
        if let Some(b) = b.get(i) {
            b.lock().unwrap().2 = s.clone();
        }
    }
    DESC.with(|d| *d.borrow_mut() = s);
}
static TRACE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// per thread: the case it works on, since when, and its description
static BUSY: std::sync::OnceLock<Vec<Mutex<(Option<u64>, std::time::Instant, String)>>> = std::sync::OnceLock::new();
thread_local! { static SLOT: RefCell<usize> = const { RefCell::new(usize::MAX) }; }
/// a case that takes this long (seconds) does not end
const STUCK: u64 = 45;
/// Outcome of one case: Ok(nontrivial) or what disagreed
pub type Case = Result<bool, String>;
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}
pub fn scratch() -> std::path::PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("VERIF_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let p = base.join(format!("vx-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub struct Dir(pub std::path::PathBuf);
impl Dir {
    pub fn new() -> Self {
        Dir(scratch())
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

type CaseFn = fn(&mut Rng, u64) -> Case;
fn table(p: &str) -> Option<(CaseFn, u64, u64)> {
    // (case function, cases in the quick tier, cases in the thorough tier)
    Some(match p {
        "C01" => (funcs::c01, 400_000, 2_000_000),
        "C02" => (funcs::c02, 300_000, 2_000_000),
        "C03" => (funcs::c03, 300_000, 1_000_000),
        "C04" => (funcs::c04, 400_000, 1_000_000),
        "C05" => (funcs::c05, 200_000, 500_000),
        "C06" => (funcs::c06, 200_000, 500_000),
        "C07" => (syms::c07, 400_000, 500_000),
        "C08" => (syms::c08, 600_000, 1_000_000),
        "C09" => (syms::c09, 300_000, 400_000),
        "C10" => (syms::c10, 150_000, 300_000),
        "C11" => (syms::c11, 200_000, 300_000),
        "C12" => (syms::c12, 200_000, 300_000),
        "C13" => (paths::c13, 600_000, 2_000_000),
        "C14" => (maps::c14, 60_000, 300_000),
        "C15" => (maps::c15, 15_000, 200_000),
        "C16" => (paths::c16, 400_000, 2_000_000),
        "C17" => (dumps::c17, 1_200, 1500),
        "C18" => (dumps::c18, 800, 3000),
        "C19" => (cachet::c19, 1_500, 3000),
        "C20" => (dumps::c20, 300, 1200),
        "C21" => (syms::c21, 300_000, 400_000),
        "C22" => (paths::c22, 600_000, 2_000_000),
        "C23" => (idents::c23, 60_000, 300_000),
        "C24" => (reads::c24, 30_000, 300_000),
        "C25" => (cli::c25, 15_000, 100_000),
        _ => return None,
    })
}
fn h(s: &str) -> u64 {
    let mut k = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut k);
    k.finish()
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "dump-child") {
        dumps::child(&args[2..]);
    }
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let prop = args.get(1).cloned().unwrap_or_default();
    let Some((f, quick, thorough)) = table(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    };
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = get("--tier").unwrap_or("quick".into());
    let n: u64 = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { thorough } else { quick });
    let limit: u64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 60 });
    let single: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    let serial = matches!(prop.as_str(), "C18" | "C20" | "C19");
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(if serial { 1 } else { 8 });
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string());
        if !QUIET.with(|q| *q.borrow()) && std::env::var("VX_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    let start = std::time::Instant::now();
    let next = AtomicU64::new(single.unwrap_or(0));
    let end = single.map(|s| s + 1).unwrap_or(n);
    let stop = AtomicBool::new(false);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let evals = AtomicU64::new(0);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fail: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    if let Some(p) = get("--describe") {
        let _ = TRACE.set(p);
    }
    let _ = BUSY.set((0..threads).map(|_| Mutex::new((None, start, String::new()))).collect());
    let slots = get("--slots").map(|p| std::fs::File::create(p).unwrap());
    let done = AtomicBool::new(false);
    let active = AtomicU64::new(threads);
    std::thread::scope(|sc| {
        {
            let (done, prop, out) = (&done, &prop, get("--out"));
            sc.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for b in BUSY.get().unwrap() {
                        let b = b.lock().unwrap().clone();
                        if let (Some(k), t, d) = b {
                            if t.elapsed().as_secs() >= STUCK {
                                finish(prop, seed, (0, 0, vec![]), Some((k, d, format!("the call has not ended after {STUCK} s"))), &out);
                            }
                        }
                    }
                }
            });
        }
        for slot in 0..threads as usize {
            let (slots, done, active) = (&slots, &done, &active);
            let (stop, next, distinct, evals, samples, fail, prop) = (&stop, &next, &distinct, &evals, &samples, &fail, &prop);
            sc.spawn(move || {
                SLOT.with(|s| *s.borrow_mut() = slot);
                let me = &BUSY.get().unwrap()[slot];
                QUIET.with(|q| *q.borrow_mut() = true);
                loop {
                    if stop.load(Ordering::SeqCst) || (single.is_none() && start.elapsed().as_secs() > limit) {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= end {
                        break;
                    }
                    if let Some(f) = slots {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_all_at(&(k + 1).to_le_bytes(), slot as u64 * 8);
                    }
                    *me.lock().unwrap() = (Some(k), std::time::Instant::now(), String::new());
                    let mut rng = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ h(prop) ^ k.wrapping_mul(0x9E3779B97F4A7C15));
                    rng.next();
                    describe("");
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, k)));
                    me.lock().unwrap().0 = None;
                    let d = DESC.with(|d| d.borrow().clone());
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
                    };
                    evals.fetch_add(1, Ordering::SeqCst);
                    match r {
                        Ok(nontrivial) => {
                            if nontrivial && distinct.lock().unwrap().insert(h(&d)) {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 3 {
                                    s.push(d.chars().take(600).collect());
                                }
                            }
                        }
                        Err(e) => {
                            let mut fl = fail.lock().unwrap();
                            if fl.as_ref().map_or(true, |x| x.0 > k) {
                                *fl = Some((k, d, e));
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
                if active.fetch_sub(1, Ordering::SeqCst) == 1 {
                    done.store(true, Ordering::SeqCst);
                }
            });
        }
    });
    let fl = fail.into_inner().unwrap();
    let counts = (evals.load(Ordering::SeqCst), distinct.into_inner().unwrap().len(), samples.into_inner().unwrap());
    finish(&prop, seed, counts, fl, &get("--out"))
}
fn finish(prop: &str, seed: u64, (evals, distinct, samples): (u64, usize, Vec<String>), fl: Option<(u64, String, String)>, path: &Option<String>) -> ! {
    let out = serde_json::json!({
        "property": prop, "seed": seed, "evaluations": evals,
        "distinct_nontrivial": distinct, "samples": samples,
        "hooks": cfg!(feature = "hooks"),
        "failure": fl.as_ref().map(|(k, d, e)| serde_json::json!({"case": k, "input": d, "disagreement": e,
            "rerun": format!("replay {prop} --seed {seed} --case {k}")})),
    });
    if let Some(p) = path {
        std::fs::write(p, serde_json::to_string_pretty(&out).unwrap()).unwrap();
    } else {
        println!("{}", serde_json::to_string_pretty(&out).unwrap());
    }
    std::process::exit(if fl.is_some() { 1 } else { 0 });
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
pub fn described() -> String {
    DESC.with(|d| d.borrow().clone())
}
