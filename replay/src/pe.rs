//! A minimal PE32+ (x86_64) file: exports, exception directory, CodeView record.
#[derive(Clone, Debug)]
pub struct MPe {
    pub guid: [u8; 16],
    pub age: u32,
    pub pdb: String,
    /// exported symbols (name, address); without a name: a symbol that has none
    pub exports: Vec<(Option<String>, u32)>,
    /// functions of the exception directory (start, end)
    pub pdata: Vec<(u32, u32)>,
    pub stamp: u32,
    pub image: u32,
}
const VA: u32 = 0x7000_0000;
const RAW: u32 = 0x200;
pub fn pe_bytes(m: &MPe) -> Vec<u8> {
    // contents of the only section
    let mut d: Vec<u8> = vec![];
    let w32 = |d: &mut Vec<u8>, v: u32| d.extend_from_slice(&v.to_le_bytes());
    let pad = |d: &mut Vec<u8>| {
        while d.len() % 8 != 0 {
            d.push(0);
        }
    };
    // unwind information: version 1, no codes
    d.extend_from_slice(&[1, 0, 0, 0]);
    pad(&mut d);
    let pdata = d.len() as u32;
    for (a, b) in &m.pdata {
        w32(&mut d, *a);
        w32(&mut d, *b);
        w32(&mut d, VA);
    }
    let pdata_len = d.len() as u32 - pdata;
    pad(&mut d);
    let cv = d.len() as u32;
    d.extend_from_slice(b"RSDS");
    d.extend_from_slice(&m.guid);
    w32(&mut d, m.age);
    d.extend_from_slice(m.pdb.as_bytes());
    d.push(0);
    let cv_len = d.len() as u32 - cv;
    pad(&mut d);
    let dbg = d.len() as u32;
    for v in [0, 0, 0, 2, cv_len, VA + cv, RAW + cv] {
        w32(&mut d, v);
    }
    pad(&mut d);
    // export tables
    let mut names = vec![];
    for (n, _) in &m.exports {
        if let Some(n) = n {
            names.push(VA + d.len() as u32);
            d.extend_from_slice(n.as_bytes());
            d.push(0);
        } else {
            names.push(1);
        }
    }
    pad(&mut d);
    let np = d.len() as u32;
    for n in &names {
        w32(&mut d, *n);
    }
    let op = d.len() as u32;
    for i in 0..m.exports.len() as u16 {
        d.extend_from_slice(&i.to_le_bytes());
    }
    pad(&mut d);
    let ap = d.len() as u32;
    for (_, a) in &m.exports {
        w32(&mut d, *a);
    }
    let dllname = d.len() as u32;
    d.extend_from_slice(b"x.dll\0");
    pad(&mut d);
    let exp = d.len() as u32;
    let n = m.exports.len() as u32;
    for v in [0, 0, 0, VA + dllname, 0, n, n, VA + ap, VA + np, VA + op] {
        w32(&mut d, v);
    }
    while d.len() % 0x200 != 0 {
        d.push(0);
    }
    let raw = d.len() as u32;
    // headers
    let mut h: Vec<u8> = vec![0; 0x40];
    h[0] = b'M';
    h[1] = b'Z';
    h[0x3c] = 0x40;
    h.extend_from_slice(b"PE\0\0");
    let w16 = |d: &mut Vec<u8>, v: u16| d.extend_from_slice(&v.to_le_bytes());
    w16(&mut h, 0x8664);
    w16(&mut h, 1);
    w32(&mut h, m.stamp);
    w32(&mut h, 0);
    w32(&mut h, 0);
    w16(&mut h, 240);
    w16(&mut h, 0x2022);
    // optional header
    w16(&mut h, 0x20b);
    h.extend_from_slice(&[14, 0]);
    for v in [0, raw, 0, 0, 0x1000] {
        w32(&mut h, v);
    }
    h.extend_from_slice(&0x1_4000_0000u64.to_le_bytes());
    w32(&mut h, 0x1000);
    w32(&mut h, 0x200);
    for v in [6, 0, 0, 0, 6, 0] {
        w16(&mut h, v);
    }
    for v in [0, m.image, 0x200, 0] {
        w32(&mut h, v);
    }
    w16(&mut h, 3);
    w16(&mut h, 0x160);
    for v in [0x100000u64, 0x1000, 0x100000, 0x1000] {
        h.extend_from_slice(&v.to_le_bytes());
    }
    w32(&mut h, 0);
    w32(&mut h, 16);
    for i in 0..16 {
        let (a, z) = match i {
            0 if n > 0 => (VA + exp, 40),
            3 if pdata_len > 0 => (VA + pdata, pdata_len),
            6 => (VA + dbg, 28),
            _ => (0, 0),
        };
        w32(&mut h, a);
        w32(&mut h, z);
    }
    h.extend_from_slice(b".rdata\0\0");
    for v in [raw, VA, raw, RAW, 0, 0, 0, 0x4000_0040] {
        w32(&mut h, v);
    }
    assert!(h.len() <= 0x200);
    h.resize(0x200, 0);
    h.extend_from_slice(&d);
    h
}
