//! Deterministic PRNG with boundary-biased generators, and the literal dictionary.
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 { hash_bytes(s.as_bytes()) }
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
    let mut x = h;
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64, stream: u64, case: u64) -> Self {
        let mut x = seed.wrapping_mul(0xD6E8FEB86659FD93) ^ stream.rotate_left(17) ^ case.wrapping_mul(0xA0761D6478BD642F);
        let mut s = [0u64; 4];
        for v in s.iter_mut() { *v = splitmix(&mut x); }
        if s == [0; 4] { s[0] = 1; }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo { return lo; }
        if lo == 0 && hi == u64::MAX { return self.u64(); }
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    /// true with probability p percent
    pub fn pct(&mut self, p: u64) -> bool { self.below(100) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n { v.extend_from_slice(&self.u64().to_le_bytes()); }
        v.truncate(n);
        v
    }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }

    /// Boundary-biased integer of at most `bits` bits.
    pub fn edge(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(20) {
            0..=4 => {
                let k = self.below(bits as u64 + 1);
                let p = if k >= 64 { 0 } else { 1u64 << k };
                match self.below(3) { 0 => p.wrapping_sub(1), 1 => p, _ => p.wrapping_add(1) }
            }
            5..=8 => dict_int(self),
            9 => 0,
            10 => mask,
            11 => self.below(300),
            12 => { // repeated byte patterns
                let b = self.u8() as u64;
                b.wrapping_mul(0x0101010101010101)
            }
            13 => 10u64.saturating_pow(self.below(20) as u32).wrapping_sub(self.below(2)),
            14 => { let k = if self.bool() { 4 } else { 64 }; mask.wrapping_sub(self.below(k)) }
            15 | 16 => { let b = self.range(1, bits as u64) as u32; self.u64() & (if b >= 64 { u64::MAX } else { (1u64 << b) - 1 }) }
            _ => self.u64(),
        };
        v & mask
    }
    /// Boundary-biased in [lo, hi].
    pub fn edge_in(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo { return lo; }
        for _ in 0..4 {
            let v = match self.below(8) {
                0 => lo,
                1 => hi,
                2 => lo + self.below((hi - lo).min(4) + 1),
                3 => hi - self.below((hi - lo).min(4) + 1),
                4 | 5 => self.edge(64 - hi.leading_zeros()),
                _ => self.range(lo, hi),
            };
            if v >= lo && v <= hi { return v; }
        }
        self.range(lo, hi)
    }
    /// Length with a bias to small values and to boundaries up to max.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(10) {
            0 => 0.min(max),
            1 => 1.min(max),
            2..=5 => self.usize(max.min(12) + 1),
            6 => self.edge_in(0, max as u64) as usize,
            7 => self.usize(max.min(300) + 1),
            8 => { let d = dict_int(self) as usize; if d <= max { d } else { self.usize(max.min(64) + 1) } }
            _ => self.usize(max.min(64) + 1),
        }
    }
    /// Valid UTF-8 text of at most max bytes.
    pub fn text(&mut self, max: usize) -> String {
        if self.pct(6) {
            let s = dict_str(self);
            if s.len() <= max { return s; }
        }
        let n = self.len(max);
        self.text_len(n)
    }
    /// Valid UTF-8 text of exactly n bytes.
    pub fn text_len(&mut self, n: usize) -> String {
        if n > 0 && self.pct(10) {
            // what something that tidies text up would remove, quote, fold or split at
            let a = *self.pick(&["\u{feff}", " ", "  ", "\t", "\n", "\r\n", "\r", "\u{a0}", "\u{200b}", "\u{3000}", "e\u{301}", "\u{130}", "\u{df}", "\u{fffd}", "\u{ffff}",
                "'", "\"", "`", "\\", "\\0", "%", "/", "../", ";", "#", "--", ",", ":", "-", "+", "0", "NULL"]);
            if a.len() <= n {
                let t = self.plain_text(n - a.len());
                return match self.below(3) { 0 => format!("{}{}", a, t), 1 => format!("{}{}", t, a), _ => {
                    let mut i = self.usize(t.len() + 1);
                    while !t.is_char_boundary(i) { i -= 1; }
                    format!("{}{}{}", &t[..i], a, &t[i..])
                } };
            }
        }
        self.plain_text(n)
    }
    fn plain_text(&mut self, n: usize) -> String {
        let mut s = String::with_capacity(n);
        let style = self.below(4);
        if style == 0 && n > 16 {
            let c = (b'a' + self.below(26) as u8) as char;
            for _ in 0..n { s.push(c); }
            return s;
        }
        while s.len() < n {
            let left = n - s.len();
            let r = if style == 1 { 0 } else { self.below(12) };
            let c = match r {
                8 if left >= 2 => char::from_u32(0x80 + self.below(0x780) as u32),
                9 if left >= 3 => char::from_u32(0x800 + self.below(0xF800) as u32),
                10 if left >= 4 => char::from_u32(0x10000 + self.below(0x100000) as u32),
                11 => char::from_u32(1 + self.below(31) as u32),
                _ => char::from_u32(0x20 + self.below(95) as u32),
            };
            if let Some(c) = c { if c.len_utf8() <= left { s.push(c); } }
        }
        s
    }
    /// Text that may contain NUL characters.
    pub fn text_nul(&mut self, n: usize) -> String {
        let mut s = self.text_len(n);
        if n > 0 && self.pct(10) {
            let i = self.usize(n);
            if s.as_bytes()[i] < 128 { s.replace_range(i..i + 1, "\0"); }
        }
        s
    }
    /// Short names: 0..=max bytes, mostly short.
    pub fn text_len_small(&mut self, max: usize) -> String {
        let n = if self.pct(85) { self.usize(max.min(12) + 1) } else { self.edge_in(0, max as u64) as usize };
        self.text_len(n)
    }
    /// Bytes that are certainly not valid UTF-8.
    pub fn bad_utf8(&mut self, max: usize) -> Vec<u8> {
        loop {
            let n = 1 + self.len(max.max(1) - 1);
            let mut v = self.text_len(n).into_bytes();
            let i = self.usize(n);
            v[i] = *self.pick(&[0xff, 0xc0, 0x80, 0xf8, 0xfe]);
            if std::str::from_utf8(&v).is_err() { return v; }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.usize(i + 1); v.swap(i, j); }
    }
}

pub struct Dict { pub ints: Vec<u64>, pub new_ints: Vec<u64>, pub strs: Vec<String>, pub new_strs: Vec<String> }
static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let (mut ints, strs) = harvest("/repo/src");
        let (bi, bs) = baseline();
        for d in [250u64, 251, 252, 255, 256, 65535, 65536, 16777215, 16777216, 32768] { ints.insert(d); }
        let near = |s: &BTreeSet<u64>| {
            let mut o = BTreeSet::new();
            for v in s { o.insert(*v); o.insert(v.wrapping_add(1)); o.insert(v.wrapping_sub(1)); }
            o.into_iter().collect::<Vec<_>>()
        };
        let ni: BTreeSet<u64> = ints.difference(&bi).cloned().filter(|v| !(bi.is_empty() || *v < 3)).collect();
        let ns: Vec<String> = strs.difference(&bs).cloned().collect();
        Dict { new_ints: near(&ni), ints: near(&ints), new_strs: if bs.is_empty() { vec![] } else { ns }, strs: strs.into_iter().collect() }
    })
}
pub fn dict_int(r: &mut Rng) -> u64 {
    let d = dict();
    if !d.new_ints.is_empty() && r.bool() { return *r.pick(&d.new_ints); }
    *r.pick(&d.ints)
}
pub fn dict_str(r: &mut Rng) -> String {
    let d = dict();
    if !d.new_strs.is_empty() && r.bool() { return r.pick(&d.new_strs).clone(); }
    if d.strs.is_empty() { return String::new(); }
    r.pick(&d.strs).clone()
}

fn baseline() -> (BTreeSet<u64>, BTreeSet<String>) {
    let text = include_str!("../baseline_literals.txt");
    let (mut i, mut s) = (BTreeSet::new(), BTreeSet::new());
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("i ") { if let Ok(v) = x.parse() { i.insert(v); } }
        if let Some(x) = l.strip_prefix("s ") { s.insert(x.to_string()); }
    }
    (i, s)
}

/// Integer and string literals of the code under test: inputs worth trying.
pub fn harvest(root: &str) -> (BTreeSet<u64>, BTreeSet<String>) {
    let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
    let mut stack = vec![std::path::PathBuf::from(root)];
    while let Some(p) = stack.pop() {
        if p.is_dir() {
            if let Ok(rd) = std::fs::read_dir(&p) { for e in rd.flatten() { stack.push(e.path()); } }
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            if let Ok(t) = std::fs::read_to_string(&p) {
                let t = match t.find("#[cfg(test)]") { Some(i) => t[..i].to_string(), None => t };
                scan(&t, &mut ints, &mut strs);
            }
        }
    }
    (ints, strs)
}

fn scan(t: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
    for line in t.lines() {
        let l = line.trim_start();
        if l.starts_with("//") { continue; }
        let b: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut prev_int: Option<(u64, String)> = None;
        let mut between = String::new();
        while i < b.len() {
            let c = b[i];
            if c == '/' && i + 1 < b.len() && b[i + 1] == '/' { break; }
            if c == '"' {
                let mut s = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' { i += 1; }
                    if i < b.len() { s.push(b[i]); }
                    i += 1;
                }
                if !s.is_empty() && s.len() < 80 && !s.contains('{') { strs.insert(s); }
                i += 1;
                continue;
            }
            let prev_ident = i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_');
            if c.is_ascii_digit() && !prev_ident {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') { i += 1; }
                let tok: String = b[st..i].iter().filter(|c| **c != '_').collect();
                let v = parse_int(&tok);
                if let Some(v) = v {
                    ints.insert(v);
                    if let Some((p, _)) = &prev_int {
                        if between.contains("<<") && v < 64 { ints.insert(p.wrapping_shl(v as u32)); }
                        if between.trim() == "*" { ints.insert(p.wrapping_mul(v)); }
                    }
                    prev_int = Some((v, tok));
                    between.clear();
                }
                continue;
            }
            between.push(c);
            i += 1;
        }
    }
}

fn parse_int(tok: &str) -> Option<u64> {
    if let Some(h) = tok.strip_prefix("0x") {
        let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
        return u64::from_str_radix(&h, 16).ok();
    }
    if let Some(h) = tok.strip_prefix("0b") {
        let h: String = h.chars().take_while(|c| *c == '0' || *c == '1').collect();
        return u64::from_str_radix(&h, 2).ok();
    }
    let h: String = tok.chars().take_while(|c| c.is_ascii_digit()).collect();
    h.parse().ok()
}
