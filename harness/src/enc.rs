//! Independent encoders of the MySQL/MariaDB wire formats, written from the protocol documentation.

pub fn crc32(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 { c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 }; }
            t[i as usize] = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data { c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8); }
    !c
}

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> Self { W(Vec::new()) }
    pub fn u8(&mut self, v: u8) -> &mut Self { self.0.push(v); self }
    pub fn u16(&mut self, v: u16) -> &mut Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn u24(&mut self, v: u32) -> &mut Self { self.0.extend_from_slice(&v.to_le_bytes()[..3]); self }
    pub fn u32(&mut self, v: u32) -> &mut Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn u48(&mut self, v: u64) -> &mut Self { self.0.extend_from_slice(&v.to_le_bytes()[..6]); self }
    pub fn u64(&mut self, v: u64) -> &mut Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn le(&mut self, v: u64, n: usize) -> &mut Self { self.0.extend_from_slice(&v.to_le_bytes()[..n]); self }
    pub fn be(&mut self, v: u64, n: usize) -> &mut Self { self.0.extend_from_slice(&v.to_be_bytes()[8 - n..]); self }
    pub fn bytes(&mut self, v: &[u8]) -> &mut Self { self.0.extend_from_slice(v); self }
    pub fn str0(&mut self, v: &str) -> &mut Self { self.0.extend_from_slice(v.as_bytes()); self.0.push(0); self }
    pub fn lenenc(&mut self, v: u64) -> &mut Self {
        if v < 251 { self.u8(v as u8) }
        else if v < 1 << 16 { self.u8(0xfc).u16(v as u16) }
        else if v < 1 << 24 { self.u8(0xfd).u24(v as u32) }
        else { self.u8(0xfe).u64(v) }
    }
    pub fn lenstr(&mut self, v: &[u8]) -> &mut Self { self.lenenc(v.len() as u64).bytes(v) }
    /// first bit = least significant bit of the first byte
    pub fn bitmap_lsb(&mut self, b: &[bool]) -> &mut Self {
        for c in b.chunks(8) {
            let mut v = 0u8;
            for (i, x) in c.iter().enumerate() { if *x { v |= 1 << i; } }
            self.u8(v);
        }
        self
    }
    /// first bit = most significant bit of the first byte
    pub fn bitmap_msb(&mut self, b: &[bool]) -> &mut Self {
        for c in b.chunks(8) {
            let mut v = 0u8;
            for (i, x) in c.iter().enumerate() { if *x { v |= 0x80 >> i; } }
            self.u8(v);
        }
        self
    }
}

pub const HEADER: usize = 19;

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr { pub ts: u32, pub ty: u8, pub sid: u32, pub len: u32, pub next: u32, pub flags: u16 }

/// The complete event as stored in a log or sent on the wire (without the packet status byte).
pub fn event(h: &Hdr, body: &[u8], crc: bool) -> Vec<u8> {
    let mut w = W::new();
    w.u32(h.ts).u8(h.ty).u32(h.sid).u32(h.len).u32(h.next).u16(h.flags).bytes(body);
    if crc {
        let c = crc32(&w.0);
        w.u32(c);
    }
    w.0
}

/// Format description body. `n` post-header lengths (one per known event type); `alg` and the four
/// checksum bytes are present in servers that know checksums.
pub fn fde_body(version: u16, server: &str, created: u32, n: usize, alg: Option<u8>) -> Vec<u8> {
    let mut w = W::new();
    w.u16(version);
    let mut s = [0u8; 50];
    let b = server.as_bytes();
    s[..b.len().min(50)].copy_from_slice(&b[..b.len().min(50)]);
    w.bytes(&s).u32(created).u8(19);
    let fixed: [u8; 42] = [56, 13, 0, 8, 0, 18, 0, 4, 4, 4, 4, 18, 0, 0, 0 /* FDE: set below */, 0, 4, 26, 8, 0, 0, 0, 8, 8, 8, 2, 0, 0, 0, 10, 10, 10, 42, 42, 0, 18, 52, 0, 10, 40, 0, 0];
    for i in 0..n {
        let v = if i == 14 { (57 + n) as u8 } else if i < 42 { fixed[i] } else { 0 };
        w.u8(v);
    }
    if let Some(a) = alg { w.u8(a); }
    w.0
}

/// Decimal digits (most significant first) of the integer and the fraction part, exactly p - s and s of them.
pub fn decimal(neg: bool, int: &[u8], frac: &[u8]) -> Vec<u8> {
    const B: [usize; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
    let num = |d: &[u8]| d.iter().fold(0u64, |a, x| a * 10 + *x as u64);
    let mut w = W::new();
    let lead = int.len() % 9;
    if lead > 0 { w.be(num(&int[..lead]), B[lead]); }
    for c in int[lead..].chunks(9) { w.be(num(c), 4); }
    let full = frac.len() / 9 * 9;
    for c in frac[..full].chunks(9) { w.be(num(c), 4); }
    let rest = &frac[full..];
    if !rest.is_empty() { w.be(num(rest), B[rest.len()]); }
    if neg { for b in w.0.iter_mut() { *b = !*b; } }
    if let Some(b) = w.0.first_mut() { *b ^= 0x80; }
    w.0
}

pub fn frac_bytes(w: &mut W, fsp: u8, micros: u32) {
    match fsp {
        0 => {}
        1 | 2 => { w.be((micros / 10000) as u64, 1); }
        3 | 4 => { w.be((micros / 100) as u64, 2); }
        _ => { w.be(micros as u64, 3); }
    }
}

/// TIME(fsp) as the server packs it (my_time_packed_to_binary).
pub fn time2(neg: bool, h: u32, m: u32, s: u32, micros: u32, fsp: u8) -> Vec<u8> {
    let hms = ((h as i64) << 12) | ((m as i64) << 6) | s as i64;
    let mut nr = (hms << 24) + micros as i64;
    if neg { nr = -nr; }
    let mut w = W::new();
    match fsp {
        0 => { w.be(((0x800000i64 + (nr >> 24)) as u64) & 0xffffff, 3); }
        1 | 2 => {
            w.be(((0x800000i64 + (nr >> 24)) as u64) & 0xffffff, 3);
            let f = (nr % (1 << 24)) / 10000;
            w.u8(f as i8 as u8);
        }
        3 | 4 => {
            w.be(((0x800000i64 + (nr >> 24)) as u64) & 0xffffff, 3);
            let f = (nr % (1 << 24)) / 100;
            w.be(f as i16 as u16 as u64, 2);
        }
        _ => { w.be(((nr + 0x800000000000i64) as u64) & 0xffffffffffff, 6); }
    }
    w.0
}
pub fn datetime2(y: u32, mo: u32, d: u32, h: u32, mi: u32, s: u32, micros: u32, fsp: u8) -> Vec<u8> {
    let ymd = (((y as u64) * 13 + mo as u64) << 5) | d as u64;
    let hms = ((h as u64) << 12) | ((mi as u64) << 6) | s as u64;
    let mut w = W::new();
    w.be(((ymd << 17) | hms) + 0x8000000000, 5);
    frac_bytes(&mut w, fsp, micros);
    w.0
}
