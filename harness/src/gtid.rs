//! Reference model of GTID sets and lists.
use crate::rng::Rng;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use std::collections::BTreeMap;

pub type Uuid = [u8; 16];

/// Canonical set: per server sorted, disjoint, non-adjacent closed intervals.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MSet(pub BTreeMap<Uuid, Vec<(u64, u64)>>);

pub fn uuid_text(u: &Uuid) -> String {
    let h = crate::mon::hex(u);
    format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32])
}

pub fn normalise(mut v: Vec<(u64, u64)>) -> Vec<(u64, u64)> {
    v.sort();
    let mut o: Vec<(u64, u64)> = vec![];
    for (a, b) in v {
        match o.last_mut() {
            Some(l) if a <= l.1 || (l.1 != u64::MAX && a == l.1 + 1) => { if b > l.1 { l.1 = b } }
            _ => o.push((a, b)),
        }
    }
    o
}

impl MSet {
    pub fn add_interval(&mut self, u: Uuid, a: u64, b: u64) {
        let e = self.0.entry(u).or_default();
        let mut v = std::mem::take(e);
        v.push((a, b));
        *e = normalise(v);
    }
    pub fn contains(&self, u: &Uuid, n: u64) -> bool { self.0.get(u).map(|v| v.iter().any(|(a, b)| *a <= n && n <= *b)).unwrap_or(false) }
    pub fn text(&self) -> String {
        self.0.iter().map(|(u, v)| {
            let mut s = uuid_text(u);
            for (a, b) in v { if a == b { s.push_str(&format!(":{}", a)) } else { s.push_str(&format!(":{}-{}", a, b)) } }
            s
        }).collect::<Vec<_>>().join(",")
    }
    pub fn count(&self) -> u128 { self.0.values().flatten().map(|(a, b)| (*b - *a) as u128 + 1).sum() }
}

/// The library's set as a model value (its own structure, not normalised).
pub fn of_lib(s: &GtidSet) -> Result<MSet, String> {
    let mut m = MSet::default();
    for (k, us) in &s.uuid_sets {
        if *k != us.source_id.uuid { return Err(format!("server key {:?} differs from its id {:?}", k, us.source_id.uuid)); }
        let t = uuid_text(&us.source_id.data);
        if us.source_id.uuid != t { return Err(format!("server id text {:?} is not the canonical {:?}", us.source_id.uuid, t)); }
        if m.0.insert(us.source_id.data, us.intervals.iter().map(|i| (i.start, i.end)).collect()).is_some() { return Err(format!("server {} occurs twice", t)); }
    }
    Ok(m)
}

/// The library's set must be exactly the model, in canonical form, and print canonically.
pub fn check_set(s: &GtidSet, want: &MSet) -> Result<(), String> {
    let got = of_lib(s)?;
    if got != *want { return Err(format!("set: got {}, expected {}", crate::model::short(got.text()), crate::model::short(want.text()))); }
    let t = crate::mon::lib(|| s.to_string())?;
    if t != want.text() { return Err(format!("printed set: got {:?}, expected {:?}", crate::model::short(t), crate::model::short(want.text()))); }
    Ok(())
}

pub fn gen_uuid(r: &mut Rng) -> Uuid {
    let mut u = [0u8; 16];
    match r.below(8) {
        0 => {}
        1 => u = [0xff; 16],
        2 => { u[15] = r.u8(); }
        3 => { u[0] = r.u8(); }
        _ => u.copy_from_slice(&r.bytes(16)),
    }
    u
}
/// A small pool of ids, some differing in a single nibble.
pub fn gen_pool(r: &mut Rng, n: usize) -> Vec<Uuid> {
    let mut v: Vec<Uuid> = vec![];
    while v.len() < n {
        let mut u = gen_uuid(r);
        if !v.is_empty() && r.bool() { u = *r.pick(&v); let i = r.usize(16); u[i] ^= 1 << r.below(8); }
        if !v.contains(&u) { v.push(u); }
    }
    v
}
pub fn gen_intervals(r: &mut Rng, n: usize, max: u64) -> Vec<(u64, u64)> {
    let mut v = vec![];
    for _ in 0..n {
        let a = if r.pct(70) { 1 + r.below(60.min(max)) } else { r.edge_in(1, max) };
        let b = a.saturating_add(match r.below(4) { 0 => 0, 1 => r.below(3), 2 => r.below(20), _ => if r.pct(20) { r.edge_in(0, max) } else { 0 } }).min(max);
        v.push((a, b));
    }
    normalise(v)
}
pub fn gen_set(r: &mut Rng, servers: usize, ivs: usize, max: u64) -> MSet {
    let n = r.usize(servers + 1);
    let mut m = MSet::default();
    for u in gen_pool(r, n) { let k = 1 + r.usize(ivs); m.0.insert(u, gen_intervals(r, k, max)); }
    m
}
/// Entries with distinct domains.
pub fn gen_list(r: &mut Rng, n: usize) -> Vec<(u32, u32, u64)> {
    let mut v: Vec<(u32, u32, u64)> = vec![];
    while v.len() < n {
        let d = if r.bool() { r.below(n as u64 * 2) as u32 } else { r.edge(32) as u32 };
        if v.iter().all(|x| x.0 != d) { v.push((d, r.edge(32) as u32, r.edge(64))); }
    }
    v
}
pub fn list_text(l: &[(u32, u32, u64)]) -> String { l.iter().map(|(d, s, q)| format!("{}-{}-{}", d, s, q)).collect::<Vec<_>>().join(",") }
