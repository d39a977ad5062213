//! C03 C14 C15 C16: GTID sets and lists as text, in memory, in events and on the wire.
use crate::ensure;
use crate::events::*;
use crate::gtid::{self, MSet, Uuid as U};
use crate::model::short;
use crate::mon::{lib, CaseResult, Ctx};
use crate::net;
use crate::rng::{hash_str, Rng};
use crate::server::{self, Cmd};
use crate::{Prop, WORKERS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::providers::mariadb::gtid::gtid::Gtid as MaGtid;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid::Gtid;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::providers::mysql::gtid::interval::Interval;
use mysql_cdc::providers::mysql::gtid::uuid::Uuid;
use mysql_cdc::providers::mysql::gtid::uuid_set::UuidSet;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C03", case: c03, quick: 2_400_000, thorough: 48_000_000, workers: WORKERS, min: 10_000, level: "exploration",
            rule: "A case parses one text as a MySQL GTID set or MariaDB GTID list: spellings of a known set (case, blanks, newlines, repeated ids, split, overlapping and unordered intervals) must give that set and its canonical print; edited texts (all one-character deletions, insertions and replacements of sample texts are enumerated) are judged by an independent grammar: denoted state, or error, or either where the server's documentation leaves it open, never another state and never a panic. Distinct by text.",
            assumptions: &["texts the documentation leaves open (empty elements, interval end below start, id 0, ids above 2^63-2, leading zeros or plus sign, inner blanks, 32-digit ids without dashes) may be rejected or parsed to what they denote"] },
        Prop { id: "C14", case: c14, quick: 50_000, thorough: 1_000_000, workers: WORKERS, min: 2500, level: "exploration",
            rule: "Every sequence of up to 5 additions over ids 1..5 on every subset of {1..5} as the starting set is enumerated (32 cases of 3905 histories); further cases run histories of up to 5000 additions over several servers and ids up to 2^64-1 and compare the set, its canonical form, its print and each reported novelty with a reference set after every addition. Distinct by history.",
            assumptions: &[] },
        Prop { id: "C15", case: c15, quick: 80_000, thorough: 1_600_000, workers: WORKERS * 2, min: 1500, level: "exploration",
            rule: "A case takes a random position through its representations (text, memory, previous-GTIDs or GTID-list event, dump request or connect state received by a mock server) and requires the same position in each. Distinct by position.",
            assumptions: &["positions of up to 66000 intervals or 2100 servers or 5000 domains (a request must fit one 16 MB packet)"] },
        Prop { id: "C16", case: c16, quick: 400_000, thorough: 8_000_000, workers: WORKERS, min: 5000, level: "exploration",
            rule: "Every sequence of up to 6 additions over 3 domains and 2 GTIDs each is enumerated from every starting subset of the domains; further cases run long histories over many domains; entries, print and reported novelty are compared with a map after every addition. Distinct by history.",
            assumptions: &[] },
    ]
}

// ---- C03 ----

/// What a text may be taken for.
#[derive(Debug, PartialEq)]
enum Judge<T> { Must(T), Open(T), Reject }

fn edge_ws(c: char) -> bool { c == ' ' || c == '\n' }

/// Trims an element; the flag tells that something besides blanks and newlines was trimmed.
fn trim_el(e: &str) -> (&str, bool) {
    let a = e.trim_matches(edge_ws);
    let b = a.trim();
    (b, b.len() != a.len())
}
/// A number; open when it is spelled unusually or out of the documented range.
fn number(s: &str, lo: u64, hi: u64) -> Judge<u64> {
    let mut open = false;
    let t = s.trim();
    if t.len() != s.len() { open = true; }
    let t = if let Some(x) = t.strip_prefix('+') { open = true; x } else { t };
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return Judge::Reject; }
    if t.len() > 1 && t.starts_with('0') { open = true; }
    match t.parse::<u64>() {
        Err(_) => Judge::Reject,
        Ok(v) => if open || v < lo || v > hi { Judge::Open(v) } else { Judge::Must(v) },
    }
}

fn judge_set(t: &str) -> Judge<MSet> {
    let mut m = MSet::default();
    if t.is_empty() { return Judge::Must(m); }
    if t.trim().is_empty() { return Judge::Open(m); }
    let mut open = false;
    for el in t.split(',') {
        let (e, o) = trim_el(el);
        open |= o;
        if e.is_empty() { return Judge::Reject; }
        let mut parts = e.split(':');
        let id = parts.next().unwrap();
        let it = id.trim();
        if it.len() != id.len() { open = true; }
        let b = it.as_bytes();
        let dashed = b.len() == 36 && b.iter().enumerate().all(|(i, c)| if [8, 13, 18, 23].contains(&i) { *c == b'-' } else { c.is_ascii_hexdigit() });
        let plain = b.len() == 32 && b.iter().all(|c| c.is_ascii_hexdigit());
        if !dashed && !plain { return Judge::Reject; }
        if plain { open = true; }
        let h: String = it.chars().filter(|c| *c != '-').collect();
        let mut u: U = [0; 16];
        for i in 0..16 { u[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap(); }
        let mut n = 0;
        for iv in parts {
            n += 1;
            let mut ends = iv.split('-');
            let a = ends.next().unwrap();
            let z = ends.next();
            if ends.next().is_some() { return Judge::Reject; }
            let max = (1u64 << 63) - 2;
            let mut get = |s: &str| match number(s, 1, max) { Judge::Must(v) => Some(v), Judge::Open(v) => { open = true; Some(v) } Judge::Reject => None };
            let Some(a) = get(a) else { return Judge::Reject };
            let z = match z { None => a, Some(z) => match get(z) { Some(z) => z, None => return Judge::Reject } };
            if a > z { open = true; continue; }
            m.add_interval(u, a, z);
        }
        if n == 0 { return Judge::Reject; }
    }
    if open { Judge::Open(m) } else { Judge::Must(m) }
}

fn judge_list(t: &str) -> Judge<Vec<(u32, u32, u64)>> {
    let mut v: Vec<(u32, u32, u64)> = vec![];
    if t.is_empty() { return Judge::Must(v); }
    if t.trim().is_empty() { return Judge::Open(v); }
    let mut open = false;
    for el in t.split(',') {
        let (e, o) = trim_el(el);
        open |= o;
        if e.is_empty() { return Judge::Reject; }
        let c: Vec<&str> = e.split('-').collect();
        if c.len() != 3 { return Judge::Reject; }
        let mut x = [0u64; 3];
        for i in 0..3 {
            let hi = if i < 2 { u32::MAX as u64 } else { u64::MAX };
            match number(c[i], 0, hi) { Judge::Must(v) => x[i] = v, Judge::Open(v) => { if v > hi { return Judge::Reject; } open = true; x[i] = v }, Judge::Reject => return Judge::Reject }
        }
        if v.iter().any(|y| y.0 as u64 == x[0]) { return Judge::Reject; }
        v.push((x[0] as u32, x[1] as u32, x[2]));
    }
    if open { Judge::Open(v) } else { Judge::Must(v) }
}

fn entries(l: &GtidList) -> Vec<(u32, u32, u64)> { l.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect() }

fn parse_set(ctx: &mut Ctx, t: &str) -> CaseResult {
    ctx.set_input(t.as_bytes());
    ctx.sig(hash_str(t));
    let want = judge_set(t);
    let got = lib(|| GtidSet::parse(t)).map_err(|e| format!("parsing {:?} as a GTID set: {}", short(t.into()), e))?;
    match (want, got) {
        (Judge::Reject, Err(_)) => { ctx.count("texts rejected", 1); Ok(()) }
        (Judge::Reject, Ok(s)) => Err(format!("{:?} is not a GTID set but was parsed as {:?}", short(t.into()), short(s.to_string()))),
        (Judge::Must(_), Err(e)) => Err(format!("{:?} is a GTID set but was rejected: {:?}", short(t.into()), e)),
        (Judge::Open(_), Err(_)) => { ctx.count("open texts rejected", 1); Ok(()) }
        (Judge::Must(m), Ok(s)) => {
            ctx.count("texts parsed", 1);
            gtid::check_set(&s, &m).map_err(|e| format!("parsing {:?}: {}", short(t.into()), e))?;
            let p = lib(|| s.to_string())?;
            let again = lib(|| GtidSet::parse(&p))?.map_err(|e| format!("the printed set {:?} was rejected: {:?}", short(p.clone()), e))?;
            gtid::check_set(&again, &m)
        }
        (Judge::Open(m), Ok(s)) => {
            ctx.count("open texts parsed", 1);
            let mut g = gtid::of_lib(&s)?;
            g.0.retain(|_, v| !v.is_empty());
            ensure!(g == m, "parsing {:?}: got {:?}, the text denotes {:?} if anything", short(t.into()), short(g.text()), short(m.text()));
            Ok(())
        }
    }
}
fn parse_list(ctx: &mut Ctx, t: &str) -> CaseResult {
    ctx.set_input(t.as_bytes());
    ctx.sig(hash_str(t) ^ 1);
    let want = judge_list(t);
    let got = lib(|| GtidList::parse(t)).map_err(|e| format!("parsing {:?} as a GTID list: {}", short(t.into()), e))?;
    match (want, got) {
        (Judge::Reject, Err(_)) => { ctx.count("texts rejected", 1); Ok(()) }
        (Judge::Reject, Ok(l)) => Err(format!("{:?} is not a GTID list but was parsed as {:?}", short(t.into()), short(l.to_string()))),
        (Judge::Must(_), Err(e)) => Err(format!("{:?} is a GTID list but was rejected: {:?}", short(t.into()), e)),
        (Judge::Open(_), Err(_)) => { ctx.count("open texts rejected", 1); Ok(()) }
        (w, Ok(l)) => {
            let m = match w { Judge::Must(m) | Judge::Open(m) => m, _ => unreachable!() };
            ctx.count("texts parsed", 1);
            check_list(&l, &m).map_err(|e| format!("parsing {:?}: {}", short(t.into()), e))
        }
    }
}
/// Same entries (as a map by domain), in memory and in print.
fn check_list(l: &GtidList, want: &[(u32, u32, u64)]) -> CaseResult {
    let mut w = want.to_vec();
    w.sort();
    let mut g = entries(l);
    g.sort();
    ensure!(g == w, "list: got {:?}, expected {:?}", short(gtid::list_text(&g)), short(gtid::list_text(&w)));
    let t = lib(|| l.to_string())?;
    let mut p = match judge_list(&t) { Judge::Must(p) => p, _ => return Err(format!("the printed list {:?} is not in the documented format", short(t))) };
    p.sort();
    ensure!(p == w, "printed list: got {:?}, expected {:?}", short(t), short(gtid::list_text(&w)));
    Ok(())
}

fn spell_uuid(r: &mut Rng, u: &U) -> String {
    let t = gtid::uuid_text(u);
    match r.below(4) { 0 => t.to_uppercase(), 1 => t.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(), _ => t }
}
fn blanks(r: &mut Rng, s: &mut String) { if r.pct(30) { for _ in 0..1 + r.usize(3) { s.push(if r.bool() { ' ' } else { '\n' }); } } }

/// A spelling of the set.
pub fn spell(r: &mut Rng, m: &MSet) -> String {
    // (server, intervals) elements
    let mut els: Vec<(U, Vec<(u64, u64)>)> = vec![];
    for (u, iv) in &m.0 {
        let mut parts: Vec<(u64, u64)> = vec![];
        for (a, b) in iv {
            // cut into adjacent or overlapping pieces
            let mut lo = *a;
            while lo < *b && r.pct(40) {
                let mid = r.range(lo, *b - 1);
                let over = if r.bool() { 0 } else { r.below(3) };
                parts.push((lo, (mid + over).min(*b)));
                lo = mid + 1;
            }
            parts.push((lo, *b));
            if r.pct(10) { let x = r.range(*a, *b); let y = r.range(x, *b); parts.push((x, y)); }
        }
        if r.pct(60) { r.shuffle(&mut parts); }
        while !parts.is_empty() {
            let k = if r.pct(70) { parts.len() } else { 1 + r.usize(parts.len()) };
            let rest = parts.split_off(k);
            els.push((*u, parts));
            parts = rest;
        }
    }
    if r.bool() { r.shuffle(&mut els); }
    let mut t = String::new();
    for (i, (u, iv)) in els.iter().enumerate() {
        if i > 0 { blanks(r, &mut t); t.push(','); }
        blanks(r, &mut t);
        t.push_str(&spell_uuid(r, u));
        for (a, b) in iv { if a == b && r.pct(80) { t.push_str(&format!(":{}", a)); } else { t.push_str(&format!(":{}-{}", a, b)); } }
    }
    blanks(r, &mut t);
    t
}

const ALPHABET: [&str; 24] = [",", ":", "-", " ", "\n", "\t", "0", "1", "9", "a", "F", "g", "z", "+", ".", "é", "\0", "/", "x", "-0", "::", ",,", "99999999999999999999", "٣"];
const SETS: [&str; 4] = ["24bc7850-2c16-11e6-a073-0242ac110001:1-5", "24BC7850-2C16-11E6-A073-0242ac110001:7:9-12, 24bc7850-2c16-11e6-a073-0242ac110002:3", "00000000-0000-0000-0000-000000000000:1", ""];
const LISTS: [&str; 4] = ["0-1-270", "1-2-120, 2-3-130,\n3-4-50", "4294967295-4294967295-18446744073709551615", ""];

fn edit(t: &str, k: u64) -> Option<String> {
    let c: Vec<char> = t.chars().collect();
    let per = 1 + 2 * ALPHABET.len() as u64;
    let (pos, op) = ((k / per) as usize, k % per);
    if pos > c.len() { return None; }
    let mut o: String = c[..pos].iter().collect();
    if op == 0 { if pos < c.len() { o.extend(&c[pos + 1..]); } }
    else if op <= ALPHABET.len() as u64 { o.push_str(ALPHABET[op as usize - 1]); o.extend(&c[pos..]); }
    else { o.push_str(ALPHABET[(op - 1) as usize - ALPHABET.len()]); if pos < c.len() { o.extend(&c[pos + 1..]); } }
    Some(o)
}

/// Texts of very many elements, some with one thing wrong.
fn long_text(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let n = r.edge_in(2000, 70_000) as usize;
    ctx.count("texts of thousands of elements", 1);
    let wrong = r.pct(50);
    let at = r.usize(n);
    if r.bool() {
        // domains counting up; one may be repeated
        let twice = r.usize(n) as u32;
        // repeats are found by comparing all of them
        let n = n.min(20_000);
        let mut t = String::with_capacity(n * 16);
        for i in 0..n {
            if i > 0 { t.push(','); if r.pct(1) { t.push('\n'); } }
            let d = if wrong && i == at % n { twice % n as u32 } else { i as u32 };
            t.push_str(&format!("{}-{}-{}", d, r.below(3), r.below(1000)));
        }
        ctx.max("elements in one text", n as u64);
        parse_list(ctx, &t)
    } else {
        let servers = *r.pick(&[1usize, 2, 300, 3000]);
        let pool: Vec<U> = (0..servers).map(|i| { let mut u: U = [0x5a; 16]; u[..8].copy_from_slice(&crate::mon::mix(i as u64).to_be_bytes()); u }).collect();
        let mut t = String::with_capacity(n * 45);
        for i in 0..n {
            if i > 0 { t.push(','); }
            t.push_str(&spell_uuid(r, &pool[r.clone().usize(servers)]));
            let a = 1 + i as u64 * 3;
            let b = a + r.below(3);
            t.push_str(&if a == b { format!(":{}", a) } else { format!(":{}-{}", a, b) });
            if wrong && i == at { t.push_str(*r.pick(&["x", ":", "-", ":0", ":9-8", " ", ",", "-3-4"])); }
        }
        ctx.max("elements in one text", n as u64);
        parse_set(ctx, &t)
    }
}

fn c03(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    // all single edits of the sample texts
    let per = 100 * (1 + 2 * ALPHABET.len() as u64);
    if idx < 8 * per {
        let (s, k) = ((idx / per) as usize, idx % per);
        if let Some(t) = edit(if s < 4 { SETS[s] } else { LISTS[s - 4] }, k) {
            ctx.count("single edits enumerated", 1);
            return if s < 4 { parse_set(ctx, &t) } else { parse_list(ctx, &t) };
        }
    }
    if idx % 100_000 == 50_001 { return long_text(ctx, r); }
    match r.below(10) {
        0..=4 => {
            let m = gtid::gen_set(r, 5, 6, (1 << 63) - 2);
            let t = spell(r, &m);
            ctx.count("spellings of sets", 1);
            ctx.sample(|| format!("set text {:?}", short(t.clone())));
            match judge_set(&t) { Judge::Must(j) if j == m => {} Judge::Open(j) if j == m && m.0.is_empty() => {} o => panic!("harness: {:?} judged {:?}", t, o) }
            parse_set(ctx, &t)
        }
        5 => {
            let n = r.len(8);
            let l = gtid::gen_list(r, n);
            let mut t = String::new();
            for (i, (d, s, q)) in l.iter().enumerate() {
                if i > 0 { blanks(r, &mut t); t.push(','); }
                blanks(r, &mut t);
                t.push_str(&format!("{}-{}-{}", d, s, q));
            }
            if !l.is_empty() { blanks(r, &mut t); }
            ctx.count("spellings of lists", 1);
            parse_list(ctx, &t)
        }
        6 | 7 => {
            let m = gtid::gen_set(r, 3, 3, 1000);
            let mut t = spell(r, &m);
            for _ in 0..1 + r.usize(3) { let n = (t.chars().count() + 1) as u64 * (1 + 2 * ALPHABET.len() as u64); let k = r.below(n); if let Some(x) = edit(&t, k) { t = x; } }
            ctx.count("edited sets", 1);
            ctx.sample(|| format!("edited set text {:?}", short(t.clone())));
            parse_set(ctx, &t)
        }
        8 => {
            let n = 1 + r.len(4);
            let mut l = gtid::gen_list(r, n);
            if l.len() > 1 && r.pct(30) { l[1].0 = l[0].0; }
            let mut t = gtid::list_text(&l);
            for _ in 0..r.usize(4) { let n = (t.chars().count() + 1) as u64 * (1 + 2 * ALPHABET.len() as u64); let k = r.below(n); if let Some(x) = edit(&t, k) { t = x; } }
            ctx.count("edited lists", 1);
            parse_list(ctx, &t)
        }
        _ => {
            let t = match r.below(3) {
                0 => r.text(200),
                1 => { let n = r.len(40); (0..n).map(|_| *r.pick(&ALPHABET)).collect::<String>() }
                _ => { let u = spell_uuid(r, &[7; 16]); let k = r.usize(u.len() + 1); let n = r.len(12); format!("{}{}", &u[..k], (0..n).map(|_| *r.pick(&ALPHABET)).collect::<String>()) }
            };
            ctx.count("arbitrary texts", 1);
            parse_set(ctx, &t)?;
            parse_list(ctx, &t)
        }
    }
}

// ---- C14 ----

fn uuid(u: &U) -> Result<Uuid, String> { lib(|| Uuid::parse(gtid::uuid_text(u)))?.map_err(|e| format!("a well-formed server id was rejected: {:?}", e)) }

fn add(s: &mut GtidSet, m: &mut MSet, u: &U, n: u64) -> CaseResult {
    let fresh = !m.contains(u, n);
    m.add_interval(*u, n, n);
    let id = uuid(u)?;
    let got = lib(|| s.add_gtid(Gtid::new(id, n)))?.map_err(|e| format!("adding {}:{} failed: {:?}", gtid::uuid_text(u), n, e))?;
    ensure!(got == fresh, "adding {}:{} reported {} but the transaction was {}", gtid::uuid_text(u), n, got, if fresh { "new" } else { "already in the set" });
    Ok(())
}

fn c14(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx < 32 {
        let u: U = [0x24; 16];
        let mut start = MSet::default();
        for i in 0..5 { if idx >> i & 1 == 1 { start.add_interval(u, i + 1, i + 1); } }
        let text = start.text();
        let mut hist = 0;
        for len in 1..=5u32 {
            for code in 0..5u32.pow(len) {
                let mut s = lib(|| GtidSet::parse(&text))?.map_err(|e| format!("{:?} was rejected: {:?}", text, e))?;
                let mut m = start.clone();
                let mut c = code;
                let mut h = vec![];
                for _ in 0..len {
                    let n = (c % 5 + 1) as u64;
                    c /= 5;
                    h.push(n);
                    add(&mut s, &mut m, &u, n).and_then(|_| gtid::check_set(&s, &m)).map_err(|e| format!("start {:?}, additions {:?}: {}", text, h, e))?;
                }
                hist += 1;
            }
        }
        ctx.count("short histories enumerated", hist);
        ctx.sig(idx);
        return Ok(());
    }
    if idx % 4000 == 3001 { return many_servers(ctx, r, idx / 4000); }
    if r.pct(12) { return one_server(ctx, r); }
    let k = 1 + r.usize(4);
    let pool = gtid::gen_pool(r, k);
    let mut m = if r.bool() { MSet::default() } else { let mut m = MSet::default(); for u in &pool { if r.bool() { let k = 1 + r.usize(5); m.0.insert(*u, gtid::gen_intervals(r, k, (1 << 63) - 2)); } } m };
    let t = m.text();
    let mut s = if m.0.is_empty() && r.bool() { GtidSet::new() } else { let sp = spell(r, &m); lib(|| GtidSet::parse(sp.trim()))?.map_err(|e| format!("{:?} was rejected: {:?}", t, e))? };
    let n = match r.below(30) { 0 => 5000, 1..=4 => 300 + r.usize(500), _ => 1 + r.usize(60) };
    let style = r.below(6);
    let span = *r.pick(&[4u64, 12, 40, 300]);
    let base = match r.below(6) { 0 => u64::MAX - span - r.below(3), 1 => r.edge(63), _ => 1 };
    let mut order: Vec<u64> = (0..span + 1).collect();
    r.shuffle(&mut order);
    let mut h: Vec<(usize, u64)> = vec![];
    let mut sig = hash_str(&t);
    ctx.count("histories", 1);
    for i in 0..n {
        let ui = r.usize(pool.len());
        let x = match style {
            0 => base.saturating_add(i as u64),                                      // as a server commits
            1 => base.saturating_add(span).saturating_sub(i as u64 % (span + 1)),    // backwards
            2 => base.saturating_add(order[i % order.len()]),                        // a permutation
            3 => if r.pct(20) { r.edge(64) } else { base.saturating_add(r.below(span + 1)) },
            4 => base.saturating_add(2 * (i as u64 % (span / 2 + 1)) + (i as u64 / (span / 2 + 1)) % 2), // gaps, then fill
            _ => base.saturating_add(r.below(span + 1)),
        };
        if h.len() < 40 { h.push((ui, x)); }
        sig = sig.wrapping_mul(0x100000001b3) ^ x ^ (ui as u64) << 60;
        add(&mut s, &mut m, &pool[ui], x).map_err(|e| format!("start {:?}, additions (server, id) {:?}…: {}", short(t.clone()), h, e))?;
        if i < 200 || i % 97 == 0 || i + 1 == n { gtid::check_set(&s, &m).map_err(|e| format!("start {:?}, after addition {} of (server, id) {:?}…: {}", short(t.clone()), i + 1, h, e))?; }
        ctx.count("additions", 1);
    }
    ctx.sig(sig);
    ctx.max("intervals in one set", m.0.values().map(|v| v.len() as u64).sum());
    ctx.sample(|| format!("start {:?}, additions (server, id) {:?}, result {:?}", short(t.clone()), h, short(m.text())));
    Ok(())
}

/// A set of very many servers, or of very many intervals.
fn many_servers(ctx: &mut Ctx, r: &mut Rng, k: u64) -> CaseResult {
    let n = match k % 4 { 0 => 5000, 1 => r.range(257, 5000), 2 => r.edge_in(257, 5000), _ => 66_000 + r.below(4000) } as usize;
    let one = k / 4 % 2 == 1;
    let pool: Vec<U> = if one { gtid::gen_pool(r, 2) } else { (0..n).map(|i| { let mut u: U = [0x5a; 16]; u[..8].copy_from_slice(&crate::mon::mix(i as u64).to_be_bytes()); u[15] = i as u8; u }).collect() };
    let mut m = MSet::default();
    let mut s = GtidSet::new();
    // one server's gaps between all
    if one { let v: Vec<(u64, u64)> = (0..n as u64 * 3).map(|i| (10 + i * 4, 11 + i * 4)).collect(); m.0.insert(pool[0], v); let t = m.text(); s = lib(|| GtidSet::parse(&t))?.map_err(|e| format!("a set of {} intervals was rejected: {:?}", n * 3, e))?; }
    else { for u in &pool { let x = r.range(1, 9); add(&mut s, &mut m, u, x)?; } }
    for k in 0..300 {
        let u = if k < 3 { &pool[0] } else { r.pick(&pool) };
        let x = if one { let top = 10 + n as u64 * 12; match r.below(4) { 0 => top - r.below(20), 1 => 8 + r.below(20), _ => 5 + r.below(top) } } else { r.range(1, 12) };
        add(&mut s, &mut m, u, x).map_err(|e| format!("a set of {} servers: {}", m.0.len(), e))?;
        ctx.count("additions", 1);
        if k % 100 == 99 { gtid::check_set(&s, &m).map_err(|e| crate::model::short(e))?; }
    }
    ctx.count("sets of hundreds or thousands of servers or intervals", 1);
    ctx.max("servers in one set", m.0.len() as u64);
    ctx.max("intervals in one set", m.0.values().map(|v| v.len() as u64).sum());
    ctx.sig(n as u64 ^ r.u64());
    Ok(())
}

/// The set of a single server, used directly.
fn one_server(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let pool = gtid::gen_pool(r, 2);
    let (me, other) = (pool[0], pool[1]);
    let mut m = MSet::default();
    let mut given = vec![];
    for _ in 0..r.usize(6) {
        let a = if r.pct(80) { r.range(1, 30) } else { r.edge_in(1, u64::MAX) };
        let b = a.saturating_add(if r.pct(80) { r.below(5) } else { r.edge(63) });
        m.add_interval(me, a, b);
        given.push((a, b));
    }
    if given.is_empty() { m.0.insert(me, vec![]); }
    let id = |r: &mut Rng, u: &U| -> Result<Uuid, String> { if r.bool() { lib(|| Uuid::new(*u)) } else { lib(|| Uuid::parse(spell_uuid(r, u)))?.map_err(|e| format!("{:?}", e)) } };
    let i = id(r, &me)?;
    let mut s = lib(|| UuidSet::new(i, given.iter().map(|(a, b)| Interval::new(*a, *b)).collect()))?;
    let mut h = vec![];
    ctx.count("histories of one server's set", 1);
    ctx.sig(hash_str(&format!("{:?} {:?}", me, given)) ^ r.u64());
    let n = r.usize(30);
    for k in 0..=n {
        let f = |m: String| format!("the set of {} made of {:?}, after adding {:?}: {}", gtid::uuid_text(&me), given, h, m);
        let got: Vec<(u64, u64)> = s.intervals.iter().map(|i| (i.start, i.end)).collect();
        ensure!(got == m.0[&me], "{}", f(format!("got {:?}, expected {:?}", got, m.0[&me])));
        ensure!(s.source_id.data == me && s.source_id.uuid == gtid::uuid_text(&me), "{}", f("the server id changed".into()));
        if !got.is_empty() { let t = lib(|| s.to_string())?; ensure!(t == m.text(), "{}", f(format!("printed {:?}, expected {:?}", t, m.text()))); }
        if k == n { break; }
        let x = if r.pct(85) { r.range(1, 36) } else { r.edge_in(1, u64::MAX) };
        if r.pct(10) {
            let i = id(r, &other)?;
            ensure!(lib(|| s.add_gtid(Gtid::new(i, x)))?.is_err(), "{}", f(format!("{}:{} of another server was accepted", gtid::uuid_text(&other), x)));
            continue;
        }
        let fresh = !m.contains(&me, x);
        let i = id(r, &me)?;
        let got = lib(|| s.add_gtid(Gtid::new(i, x)))?.map_err(|e| f(format!("adding {} failed: {:?}", x, e)))?;
        ensure!(got == fresh, "{}", f(format!("adding {} reported {} but it was {}", x, got, if fresh { "new" } else { "already there" })));
        h.push(x);
        m.add_interval(me, x, x);
        ctx.count("additions", 1);
    }
    Ok(())
}

// ---- C15 ----

fn decode_set_data(d: &[u8]) -> Result<MSet, String> {
    let u64at = |i: usize| d.get(i..i + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).ok_or("the GTID data is cut");
    let mut m = MSet::default();
    let n = u64at(0)?;
    let mut p = 8;
    for _ in 0..n {
        let u: U = d.get(p..p + 16).ok_or("the GTID data is cut")?.try_into().unwrap();
        let k = u64at(p + 16)?;
        p += 24;
        let mut v = vec![];
        for _ in 0..k { let (a, b) = (u64at(p)?, u64at(p + 8)?); p += 16; if b <= a { return Err(format!("interval [{}, {}) is empty", a, b)); } v.push((a, b - 1)); }
        if m.0.insert(u, v).is_some() { return Err(format!("server {} occurs twice in the request", gtid::uuid_text(&u))); }
    }
    ensure!(p == d.len(), "{} stray bytes after the GTID data", d.len() - p);
    Ok(m)
}

/// A set as the library decodes it from a previous-GTIDs event.
fn via_event(m: &MSet) -> Result<GtidSet, String> {
    let mut evs = vec![fde("8.0.32", 40, Some(1)), prev_gtids(m)];
    lay_out(&mut evs, 4, true);
    let b = file_bytes(&evs, &|_| true);
    let mut out = read_all(&b, 5)?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    ensure!(out.items.len() == 2, "{} items for 2 events", out.items.len());
    check(&evs[1], true, &out.items[1])?;
    match out.items.pop().unwrap() { Ok((_, BinlogEvent::MySqlPrevGtidsEvent(e))) => Ok(e.gtid_set), _ => Err("not a previous-GTIDs event".into()) }
}
fn list_via_event(l: &[(u32, u32, u64)], flags: u32) -> Result<GtidList, String> {
    let mut evs = vec![fde("10.6.12-MariaDB-log", 163, Some(0)), ma_list(flags, l)];
    lay_out(&mut evs, 4, false);
    let b = file_bytes(&evs, &|i| i == 0);
    let mut out = read_all(&b, 5)?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    ensure!(out.items.len() == 2, "{} items for 2 events", out.items.len());
    check(&evs[1], false, &out.items[1])?;
    match out.items.pop().unwrap() { Ok((_, BinlogEvent::MariaDbGtidListEvent(e))) => Ok(e.gtid_list), _ => Err("not a GTID-list event".into()) }
}

fn c15(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let big = idx % 400 / 2 == 1;
    let net = r.pct(40) || big;
    if idx % 2 == 0 {
        let (a, b) = match if big { 90 } else { r.below(20) } { 90 => (0, 0), 0 => (400, 4), 1 => (3, 900), 2 => (40, 40), _ => (6, 8) };
        let mut m = gtid::gen_set(r, a, b, (1 << 63) - 2);
        if big {
            // counts and lengths beyond 16 bits
            let (servers, ivs) = match idx / 400 % 4 { 0 => (1, 5000), 1 => (1500 + r.usize(600), 2), 2 => (1, 66_000), _ => if idx % 80_000 == 1202 { (66_000 + r.usize(3000), 1) } else { (2, 3000) } };
            for u in gtid::gen_pool(r, servers) {
                let mut a = 1 + r.below(50);
                let mut v = vec![];
                for _ in 0..ivs { let b = a + if r.bool() { 0 } else { r.below(9) }; v.push((a, b)); a = b + 2 + r.below(5); }
                m.0.insert(u, v);
            }
            ctx.count("very large positions", 1);
        }
        let mut s = match if big { r.below(2) } else { r.below(3) } {
            0 => via_event(&m)?,
            1 => { let t = spell(r, &m); let t = if m.0.is_empty() { String::new() } else { t }; lib(|| GtidSet::parse(&t))?.map_err(|e| format!("{:?} was rejected: {:?}", short(t), e))? }
            _ => {
                // built by additions only
                let mut x = MSet::default();
                let mut s = GtidSet::new();
                let pool: Vec<U> = m.0.keys().take(5).cloned().collect();
                if !pool.is_empty() { for _ in 0..r.usize(120) { let u = *r.pick(&pool); let n = 1 + r.below(60); add(&mut s, &mut x, &u, n)?; } }
                m = x;
                s
            }
        };
        if !m.0.is_empty() && r.bool() {
            let keys: Vec<U> = m.0.keys().cloned().collect();
            for _ in 0..r.usize(10) { let u = *r.pick(&keys); let n = r.edge_in(1, (1 << 63) - 2); add(&mut s, &mut m, &u, n)?; }
        }
        ctx.sig(hash_str(&m.text()));
        ctx.count("MySQL positions", 1);
        ctx.max("intervals", m.0.values().map(|v| v.len() as u64).sum());
        ctx.sample(|| format!("set {:?}", short(m.text())));
        gtid::check_set(&s, &m)?;
        let t = lib(|| s.to_string())?;
        let back = lib(|| GtidSet::parse(&t))?.map_err(|e| format!("the printed set {:?} was rejected: {:?}", short(t.clone()), e))?;
        gtid::check_set(&back, &m).map_err(|e| format!("printed and parsed back: {}", e))?;
        // single GTIDs print as documented
        if let Some((u, iv)) = m.0.iter().next() {
            let g = Gtid::new(uuid(u)?, iv[0].0);
            let gt = lib(|| g.to_string())?;
            ensure!(gt == format!("{}:{}", gtid::uuid_text(u), iv[0].0), "printed GTID: {:?}", gt);
        }
        if !net { return Ok(()); }
        ctx.count("dump requests", 1);
        let cfg = server::cfg(false);
        let s = if r.bool() { s } else { back };
        let (sess, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| {}, |c, _, _| net::Stream::new(c).put(&server::eof_body())), |h, p| -> CaseResult {
            let mut cl = BinlogClient::new(net::options(&cfg, h, p, BinlogOptions::from_mysql_gtid(s)));
            let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate failed: {:?}", e))?;
            let _ = net::next(&mut st)?;
            let Some(held) = &cl.options.binlog.gtid_set else { return Err("the client lost its GTID position".into()) };
            gtid::check_set(held, &m).map_err(|e| format!("position held by the client: {}", e))
        });
        res?;
        let Some(Cmd::DumpGtid { data, .. }) = &sess.dump else { return Err(format!("no GTID dump request: {:?}, {:?}", sess.dump, sess.problems)) };
        let sent = decode_set_data(data)?;
        ensure!(sent == m, "set in the dump request: got {:?}, the client holds {:?}", short(sent.text()), short(m.text()));
        return Ok(());
    }
    let n = match if big { 90 } else { r.below(20) } { 90 => 4000 + r.usize(1000), 0 => 2000, 1 => 300, _ => r.len(12) };
    let l = gtid::gen_list(r, n);
    ctx.count("MariaDB positions", 1);
    ctx.sig(hash_str(&gtid::list_text(&l)));
    ctx.max("domains", n as u64);
    // an event may hold several servers of one domain
    if r.pct(20) && !l.is_empty() {
        let mut d = l.clone();
        let x = *r.pick(&l);
        d.push((x.0, x.1 ^ 1, r.edge(64)));
        list_via_event(&d, 0)?;
    }
    let flags = *r.pick(&[0u32, 0, 1, 2, 4, 8, 15]);
    let g = if r.bool() { list_via_event(&l, flags)? } else { let t = gtid::list_text(&l); lib(|| GtidList::parse(&t))?.map_err(|e| format!("{:?} was rejected: {:?}", short(t), e))? };
    check_list(&g, &l)?;
    let t = lib(|| g.to_string())?;
    let back = lib(|| GtidList::parse(&t))?.map_err(|e| format!("the printed list {:?} was rejected: {:?}", short(t.clone()), e))?;
    check_list(&back, &l).map_err(|e| format!("printed and parsed back: {}", e))?;
    if let Some(x) = l.first() {
        let gt = lib(|| MaGtid::new(x.0, x.1, x.2).to_string())?;
        ensure!(gt == format!("{}-{}-{}", x.0, x.1, x.2), "printed GTID: {:?}", gt);
    }
    if !net { return Ok(()); }
    ctx.count("connect states", 1);
    let cfg = server::cfg(true);
    let (sess, res) = server::with_server(ctx.worker, |s| net::serve_one(s, &cfg, |_| {}, |c, _, _| net::Stream::new(c).put(&server::eof_body())), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, BinlogOptions::from_mariadb_gtid(g)));
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate failed: {:?}", e))?;
        let _ = net::next(&mut st)?;
        let Some(held) = &cl.options.binlog.gtid_list else { return Err("the client lost its GTID position".into()) };
        check_list(held, &l).map_err(|e| format!("position held by the client: {}", e))
    });
    res?;
    let Some(v) = sess.vars.get("slave_connect_state") else { return Err(format!("no connect state was set: {:?}", sess.cmds)) };
    let Some(q) = v.strip_prefix('\'').and_then(|x| x.strip_suffix('\'')) else { return Err(format!("connect state {:?} is not a string", short(v.clone()))) };
    let mut sent = match judge_list(q) { Judge::Must(x) => x, o => return Err(format!("connect state {:?} is not a GTID list ({:?})", short(q.into()), o)) };
    sent.sort();
    let mut w = l.clone();
    w.sort();
    ensure!(sent == w, "connect state {:?} is not the list held, {:?}", short(q.into()), short(gtid::list_text(&w)));
    Ok(())
}

// ---- C16 ----

fn add16(l: &mut GtidList, m: &mut BTreeMap<u32, (u32, u64)>, d: u32, s: u32, q: u64) -> CaseResult {
    let fresh = !m.contains_key(&d);
    m.insert(d, (s, q));
    let got = lib(|| l.add_gtid(MaGtid::new(d, s, q)))?;
    ensure!(got == fresh, "adding {}-{}-{} reported {} but the domain was {}", d, s, q, got, if fresh { "new" } else { "known" });
    let want: Vec<(u32, u32, u64)> = m.iter().map(|(d, (s, q))| (*d, *s, *q)).collect();
    check_list(l, &want)
}

/// A list of very many domains.
fn many_domains(ctx: &mut Ctx, r: &mut Rng, k: u64) -> CaseResult {
    let n = match k % 20 { 0 => 6000, 1 => 20_000, k if k < 10 => r.range(257, 6000), _ => r.edge_in(257, 6000) } as u32;
    let step = *r.pick(&[1u32, 1, 7, 700_000]);
    let mut m: BTreeMap<u32, (u32, u64)> = BTreeMap::new();
    let mut l = GtidList::new();
    let by_text = r.bool();
    let mut doms: Vec<u32> = (0..n).map(|i| i.wrapping_mul(step)).collect();
    if r.bool() { r.shuffle(&mut doms); }
    let start: Vec<(u32, u32, u64)> = doms.iter().map(|d| (*d, r.below(5) as u32, r.below(1000))).collect();
    if by_text { let t = gtid::list_text(&start); l = lib(|| GtidList::parse(&t))?.map_err(|e| format!("a list of {} domains was rejected: {:?}", n, e))?; }
    for (d, s, q) in &start {
        if !by_text { ensure!(lib(|| l.add_gtid(MaGtid::new(*d, *s, *q)))?, "adding {}-{}-{} to {} other domains reported a known domain", d, s, q, m.len()); }
        m.insert(*d, (*s, *q));
    }
    for k in 0..400 {
        let d = if r.pct(10) { r.u64() as u32 } else if k < 4 { doms[0] } else { *r.pick(&doms) };
        let (s, q) = (r.below(5) as u32, r.below(2000));
        let fresh = m.insert(d, (s, q)).is_none();
        let got = lib(|| l.add_gtid(MaGtid::new(d, s, q)))?;
        ensure!(got == fresh, "adding {}-{}-{} to {} domains reported {} but the domain was {}", d, s, q, m.len(), got, if fresh { "new" } else { "known" });
        ctx.count("additions", 1);
        if k % 100 == 99 { let want: Vec<(u32, u32, u64)> = m.iter().map(|(d, (s, q))| (*d, *s, *q)).collect(); check_list(&l, &want)?; }
    }
    ctx.count("lists of hundreds or thousands of domains", 1);
    ctx.max("domains in one list", m.len() as u64);
    ctx.sig(n as u64 ^ r.u64());
    Ok(())
}

fn c16(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let doms = [0u32, 1, u32::MAX];
    if idx < 8 {
        let start: Vec<(u32, u32, u64)> = (0..3).filter(|i| idx >> i & 1 == 1).map(|i| (doms[i], 1, 10)).collect();
        let text = gtid::list_text(&start);
        let mut n = 0;
        for len in 1..=6u32 {
            for code in 0..6u32.pow(len) {
                let mut l = lib(|| GtidList::parse(&text))?.map_err(|e| format!("{:?} was rejected: {:?}", text, e))?;
                let mut m: BTreeMap<u32, (u32, u64)> = start.iter().map(|x| (x.0, (x.1, x.2))).collect();
                let mut c = code;
                let mut h = vec![];
                for _ in 0..len {
                    // the second GTID of a domain is older: the last one added counts
                    let (d, s, q) = (doms[(c % 3) as usize], 1 + c % 6 / 3, if c % 6 < 3 { 11 } else { 7 });
                    c /= 6;
                    h.push((d, s, q));
                    add16(&mut l, &mut m, d, s, q).map_err(|e| format!("start {:?}, additions {:?}: {}", text, h, e))?;
                }
                n += 1;
            }
        }
        ctx.count("short histories enumerated", n);
        ctx.sig(idx);
        return Ok(());
    }
    if idx % 10_000 == 3001 { return many_domains(ctx, r, idx / 10_000); }
    let k = r.len(10);
    let start = gtid::gen_list(r, k);
    let text = gtid::list_text(&start);
    let mut l = match r.below(3) { 0 if k == 0 => GtidList::new(), 1 => list_via_event(&start, 0)?, _ => lib(|| GtidList::parse(&text))?.map_err(|e| format!("{:?} was rejected: {:?}", text, e))? };
    let mut m: BTreeMap<u32, (u32, u64)> = start.iter().map(|x| (x.0, (x.1, x.2))).collect();
    let mut pool: BTreeSet<u32> = start.iter().map(|x| x.0).collect();
    for _ in 0..1 + r.usize(4) { pool.insert(r.edge(32) as u32); }
    let pool: Vec<u32> = pool.into_iter().collect();
    let mut h = vec![];
    let n = if r.pct(3) { 400 } else { 1 + r.usize(25) };
    for _ in 0..n {
        let d = if r.pct(5) { r.edge(32) as u32 } else { *r.pick(&pool) };
        let g = (d, if r.bool() { 1 } else { r.edge(32) as u32 }, if r.bool() { r.below(50) } else { r.edge(64) });
        h.push(g);
        add16(&mut l, &mut m, g.0, g.1, g.2).map_err(|e| format!("start {:?}, additions {:?}: {}", text, h, e))?;
        ctx.count("additions", 1);
    }
    ctx.count("histories", 1);
    ctx.sig(hash_str(&format!("{} {}", text, gtid::list_text(&h))));
    ctx.sample(|| format!("start {:?}, additions {:?}", text, &h[..h.len().min(8)]));
    Ok(())
}
