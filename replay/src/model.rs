//! A strict reader of Breakpad symbol text, written from the format description.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Ln {
    pub addr: u64,
    pub len: u64,
    pub line: u64,
    pub file: u64,
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Inl {
    pub depth: u64,
    pub line: u64,
    pub file: u64,
    pub origin: u64,
    pub ranges: Vec<(u64, u64)>,
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Rec {
    pub public: bool,
    pub multiple: bool,
    pub addr: u64,
    pub size: u64,
    pub param: u64,
    pub name: String,
    pub inlines: Vec<Inl>,
    pub lines: Vec<Ln>,
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Sym {
    pub module: String,
    pub infos: Vec<String>,
    pub files: Vec<String>,
    pub origins: Vec<String>,
    pub recs: Vec<Rec>,
    pub stack: Vec<String>,
}
fn hex(s: &str) -> Result<u64, String> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c)) || (s.len() > 1 && s.starts_with('0')) {
        return Err(format!("not a plain lower-case hexadecimal number: {s:?}"));
    }
    u64::from_str_radix(s, 16).map_err(|e| e.to_string())
}
fn dec(s: &str) -> Result<u64, String> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
        return Err(format!("not a plain decimal number: {s:?}"));
    }
    s.parse().map_err(|e: std::num::ParseIntError| e.to_string())
}
/// the records of one symbol (or of several)
pub fn recs<'a>(lines: impl Iterator<Item = &'a str>) -> Result<Vec<Rec>, String> {
    let mut out: Vec<Rec> = vec![];
    for l in lines {
        if let Some(r) = l.strip_prefix("FUNC ") {
            let (m, r) = match r.strip_prefix("m ") {
                Some(r) => (true, r),
                None => (false, r),
            };
            let p: Vec<&str> = r.splitn(4, ' ').collect();
            if p.len() != 4 {
                return Err(format!("bad FUNC record {l:?}"));
            }
            out.push(Rec { public: false, multiple: m, addr: hex(p[0])?, size: hex(p[1])?, param: hex(p[2])?, name: p[3].into(), ..Default::default() });
        } else if let Some(r) = l.strip_prefix("PUBLIC ") {
            let (m, r) = match r.strip_prefix("m ") {
                Some(r) => (true, r),
                None => (false, r),
            };
            let p: Vec<&str> = r.splitn(3, ' ').collect();
            if p.len() != 3 {
                return Err(format!("bad PUBLIC record {l:?}"));
            }
            out.push(Rec { public: true, multiple: m, addr: hex(p[0])?, param: hex(p[1])?, name: p[2].into(), ..Default::default() });
        } else if let Some(r) = l.strip_prefix("INLINE ") {
            let last = out.last_mut().ok_or("INLINE record before any FUNC")?;
            if last.public {
                return Err(format!("INLINE record below a PUBLIC: {l:?}"));
            }
            if !last.lines.is_empty() {
                return Err(format!("INLINE record after line records: {l:?}"));
            }
            let p: Vec<&str> = r.split(' ').collect();
            if p.len() < 6 || p.len() % 2 != 0 {
                return Err(format!("bad INLINE record {l:?}"));
            }
            let mut ranges = vec![];
            for c in p[4..].chunks(2) {
                ranges.push((hex(c[0])?, hex(c[1])?));
            }
            last.inlines.push(Inl { depth: dec(p[0])?, line: dec(p[1])?, file: dec(p[2])?, origin: dec(p[3])?, ranges });
        } else {
            let last = out.last_mut().ok_or_else(|| format!("unexpected record {l:?}"))?;
            if last.public {
                return Err(format!("line record below a PUBLIC: {l:?}"));
            }
            let p: Vec<&str> = l.split(' ').collect();
            if p.len() != 4 {
                return Err(format!("bad line record {l:?}"));
            }
            last.lines.push(Ln { addr: hex(p[0])?, len: hex(p[1])?, line: dec(p[2])?, file: dec(p[3])? });
        }
    }
    Ok(out)
}
pub fn text_lines(t: &str) -> Result<Vec<&str>, String> {
    if t.is_empty() {
        return Ok(vec![]);
    }
    if !t.ends_with('\n') {
        return Err("text does not end with a line break".into());
    }
    Ok(t[..t.len() - 1].split('\n').collect())
}
pub fn parse(t: &str) -> Result<Sym, String> {
    let lines = text_lines(t)?;
    let mut s = Sym::default();
    let mut sec = 0;
    let mut body: Vec<&str> = vec![];
    for l in lines {
        if let Some(r) = l.strip_prefix("MODULE ") {
            if sec != 0 {
                return Err("MODULE is not the first record".into());
            }
            sec = 1;
            s.module = r.to_string();
        } else if let Some(r) = l.strip_prefix("INFO ") {
            if sec != 1 {
                return Err(format!("INFO record out of place: {l:?}"));
            }
            s.infos.push(r.into());
        } else if let Some(r) = l.strip_prefix("FILE ") {
            if !(1..=2).contains(&sec) {
                return Err(format!("FILE record out of place: {l:?}"));
            }
            sec = 2;
            let (n, p) = r.split_once(' ').ok_or("bad FILE record")?;
            if dec(n)? != s.files.len() as u64 {
                return Err(format!("FILE ids are not 0,1,2..: {l:?}"));
            }
            s.files.push(p.into());
        } else if let Some(r) = l.strip_prefix("INLINE_ORIGIN ") {
            if !(1..=3).contains(&sec) {
                return Err(format!("INLINE_ORIGIN record out of place: {l:?}"));
            }
            sec = 3;
            let (n, p) = r.split_once(' ').ok_or("bad INLINE_ORIGIN record")?;
            if dec(n)? != s.origins.len() as u64 {
                return Err(format!("INLINE_ORIGIN ids are not 0,1,2..: {l:?}"));
            }
            if p.trim().is_empty() {
                return Err("INLINE_ORIGIN without a name".into());
            }
            s.origins.push(p.into());
        } else if l.starts_with("STACK ") {
            if sec == 0 {
                return Err("STACK before MODULE".into());
            }
            sec = 5;
            s.stack.push(l.into());
        } else {
            if !(1..=4).contains(&sec) {
                return Err(format!("record out of place: {l:?}"));
            }
            sec = 4;
            body.push(l);
        }
    }
    s.recs = recs(body.into_iter())?;
    for w in s.recs.windows(2) {
        if w[0].addr >= w[1].addr {
            return Err(format!("symbols not in increasing address order: {:x} then {:x}", w[0].addr, w[1].addr));
        }
    }
    Ok(s)
}
