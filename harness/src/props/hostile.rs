//! C01 C02: hostile bytes in logs, streams and during connection set-up.
use crate::enc::{self, W};
use crate::ensure;
use crate::events::*;
use crate::model;
use crate::mon::{self, CaseResult, Ctx};
use crate::net;
use crate::props::decode::lead;
use crate::rng::Rng;
use crate::server::{self, Cfg};
use crate::{gtid, Prop, WORKERS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", case: c01, quick: 1_200_000, thorough: 24_000_000, workers: WORKERS, min: 15_000, level: "exploration",
            rule: "A case writes a log or a stream in which events are damaged (bit flips, edge values over fields, truncation, insertion, wild table definitions and row images, wrong event lengths, random bytes) and reads it to the end under monitors for panics, overflow, aborts, largest allocation, CPU time and number of items; when only bodies are damaged every intact event must still decode exactly. Distinct by the input bytes.",
            assumptions: &["allocation limit: 4 MiB + 512 bytes per input byte (20 MiB for streams, whose packets are at most 16 MiB)", "an endless loop is decided by 30 s of CPU time in one case, which normally takes under 10 ms", "tables wider than 500 columns with damaged row images are not generated: the representation of a row itself is one cell per column"] },
        Prop { id: "C02", case: c02, quick: 200_000, thorough: 900_000, workers: WORKERS * 3, min: 4_000, level: "fault_enumeration",
            rule: "A case connects a real client to a mock server that cuts the connection after k bytes (all k of ten session kinds are enumerated), replaces one byte (every byte, eight replacements each), damages the n-th packet (all n; empty, truncated, edge values, wrong lengths, foreign packets), or sends arbitrary bytes. Observed: panics, overflow, aborts, CPU time, allocation, and that an early end is an error. Distinct by (session kind, fault).",
            assumptions: &["TLS is not enabled (the library documents it as unsupported)"] },
    ]
}

fn alloc_check(len: usize, base: usize) -> CaseResult {
    let l = mon::alloc_largest();
    ensure!(l <= base + 512 * len, "a single request of {} bytes of memory for {} bytes of input", l, len);
    Ok(())
}

pub fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.usize(3) {
        let n = b.len();
        match r.below(10) {
            0 | 1 if n > 0 => { let i = r.usize(n); b[i] ^= 1 << r.below(8); }
            2 | 3 if n > 0 => { let i = r.usize(n); b[i] = r.edge(8) as u8; }
            4 | 5 if n > 0 => {
                let k = *r.pick(&[2usize, 3, 4, 6, 8]);
                let i = r.usize(n);
                let v = r.edge(8 * k as u32).to_le_bytes();
                for j in 0..k { if i + j < n { b[i + j] = v[j]; } }
            }
            6 => { let k = r.usize(n + 1); b.truncate(k); }
            7 => { let i = r.usize(n + 1); let k = r.len(20); let x = r.bytes(k); b.splice(i..i, x); }
            8 if n > 0 => { let i = r.usize(n); let j = (i + 1 + r.len(20)).min(n); b.drain(i..j); }
            9 if n > 0 => { let i = r.usize(n); let j = (i + 1 + r.len(40)).min(n); let x = b[i..j].to_vec(); let at = r.usize(n + 1); b.splice(at..at, x); }
            _ => { let k = r.len(8); let x = r.bytes(k); b.extend(x); }
        }
    }
}

const COLTYPES: [u8; 31] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255];

fn wild_lenenc(r: &mut Rng, w: &mut W, usual: u64) {
    match r.below(13) {
        12 => { w.u8(0xfe).u64(0u64.wrapping_sub(1 + r.below(60))); }
        0 => { w.u8(0xfb); }
        1 => { w.u8(0xfc).u16(r.edge(16) as u16); }
        2 => { w.u8(0xfd).u24(r.edge(24) as u32); }
        3 => { w.u8(0xfe).u64(r.edge(64)); }
        4 => { w.u8(0xff); }
        5 => { w.lenenc(usual.wrapping_add(r.range(0, 8)).wrapping_sub(4)); }
        _ => { w.lenenc(usual); }
    }
}

/// A table definition of arbitrary types and metadata, and row events that may not fit it.
fn wild_table(r: &mut Rng, id: u64) -> Vec<Ev> {
    let n = r.len(20);
    let mut w = W::new();
    w.u48(id).u16(0).u8(1).str0("d").u8(1).str0("t");
    wild_lenenc(r, &mut w, n as u64);
    let types: Vec<u8> = (0..n).map(|_| if r.pct(95) { *r.pick(&COLTYPES) } else { r.u8() }).collect();
    w.bytes(&types);
    let mut meta = vec![];
    for t in &types {
        let k = match t { 245 | 250 | 249 | 251 | 252 | 255 | 4 | 5 | 17 | 18 | 19 => 1, 16 | 15 | 253 | 246 | 247 | 248 | 254 => 2, _ => 0 };
        for _ in 0..k { meta.push(match r.below(4) { 0 => r.below(10) as u8, 1 => *r.pick(&[247u8, 248, 254, 0xee, 0xde]), 2 => r.edge(8) as u8, _ => r.u8() }); }
    }
    wild_lenenc(r, &mut w, meta.len() as u64);
    w.bytes(&meta);
    w.bytes(&r.bytes((n + 7) / 8));
    if r.pct(30) {
        for _ in 0..1 + r.usize(3) {
            w.u8(r.range(0, 13) as u8);
            let k = r.len(20);
            wild_lenenc(r, &mut w, k as u64);
            let v = if r.bool() { r.bytes(k) } else { let mut x = W::new(); for _ in 0..k { wild_lenenc(r, &mut x, 3); } x.0.truncate(k); x.0 };
            w.bytes(&v);
        }
    }
    let mut v = vec![Ev::new(19, w.0, Exp::Any)];
    for _ in 0..r.usize(4) {
        let ty = *r.pick(&[23u8, 24, 25, 30, 31, 32]);
        let mut w = W::new();
        w.u48(id).u16(0);
        if ty >= 30 { let k = r.len(8); w.u16(if r.pct(80) { k as u16 + 2 } else { r.edge(16) as u16 }); let x = r.bytes(k); w.bytes(&x); }
        wild_lenenc(r, &mut w, n as u64);
        let bm = (n + 7) / 8;
        for _ in 0..if ty == 24 || ty == 31 { 2 } else { 1 } {
            match r.below(4) { 0 => w.bytes(&vec![0; bm]), 1 => { let b = r.bytes(bm); w.bytes(&b) } _ => w.bytes(&vec![0xff; bm]) };
        }
        let k = r.len(120);
        let data = match r.below(3) { 0 => vec![0u8; k], 1 => vec![0xff; k], _ => r.bytes(k) };
        if r.bool() { w.bytes(&vec![0; bm]); }
        w.bytes(&data);
        v.push(Ev::new(ty, w.0, Exp::Any));
    }
    v
}

fn wild_event(r: &mut Rng) -> Vec<Ev> {
    match r.below(8) {
        0..=3 => { let id = r.below(4) + 500; wild_table(r, id) }
        4 => {
            // GTID sets with arbitrary counts and bounds
            let mut w = W::new();
            w.u64(if r.pct(70) { 1 + r.below(3) } else { r.edge(64) });
            for _ in 0..r.usize(4) {
                w.bytes(&gtid::gen_uuid(r)).u64(if r.pct(70) { 1 + r.below(3) } else { r.edge(64) });
                for _ in 0..r.usize(4) { w.u64(r.edge(64)).u64(r.edge(64)); }
            }
            vec![Ev::new(35, w.0, Exp::Any)]
        }
        5 => { let ty = *r.pick(&DECODED); let ty = if ty == 15 { 2 } else { ty }; let k = r.len(80); let b = match r.below(3) { 0 => vec![0xff; k], 1 => vec![0; k], _ => r.bytes(k) }; vec![Ev::new(ty, b, Exp::Any)] }
        6 => {
            let mut w = W::new();
            w.u32(r.edge(32) as u32);
            for _ in 0..r.usize(4) { w.u64(r.u64()).u64(r.u64()); }
            vec![Ev::new(163, w.0, Exp::Any)]
        }
        _ => {
            // valid event, damaged body
            let mut e = gen_plain(r);
            mutate_bytes(r, &mut e.body);
            e.exp = Exp::Any;
            if e.ty == 15 { e.ty = 2; }
            vec![e]
        }
    }
}

/// Damages one event; rows that depend on a damaged definition lose their expectation.
fn damage(r: &mut Rng, evs: &mut Vec<Ev>) -> bool {
    let i = 1 + r.usize(evs.len() - 1);
    let was_table = if let Exp::Table(t) = &evs[i].exp { Some(t.id) } else { None };
    mutate_bytes(r, &mut evs[i].body);
    evs[i].exp = Exp::Any;
    if let Some(id) = was_table {
        let newid = evs[i].body.get(..6).map(|b| { let mut x = [0u8; 8]; x[..6].copy_from_slice(b); u64::from_le_bytes(x) });
        for e in evs[i + 1..].iter_mut() {
            if let Exp::Rows(x) = &e.exp { if x.table_id == id || Some(x.table_id) == newid { e.exp = Exp::Any; } }
            if let Exp::Table(t) = &e.exp { if t.id == id || Some(t.id) == newid { break; } }
        }
    }
    true
}

/// Very many tiny parts in everything that is a list.
fn many_parts(ctx: &mut Ctx, r: &mut Rng, k: u64) -> CaseResult {
    let (f, c0, crc) = lead(r);
    let n = 1usize << r.range(17, 21);
    let def = |opt: &[u8]| {
        let mut w = W::new();
        w.u48(600).u16(0).u8(1).str0("d").u8(1).str0("t").u8(1).u8(1).u8(0).u8(1).bytes(opt);
        Ev::new(19, w.0, Exp::Any)
    };
    let mut m = W::new();
    let shape = k % 12;
    let mut evs = vec![f];
    match shape {
        // empty metadata fields: of one type, or of all that can be empty
        0 | 1 => {
            let t = [3u8, 4, 5, 6, 7, 8, 9, 11];
            let one = *r.pick(&t);
            for _ in 0..n { m.u8(if shape == 0 { one } else { *r.pick(&t) }).u8(0); }
            evs.push(def(&m.0));
        }
        // parts of one byte in one field
        2 => { m.u8(*r.pick(&[3u8, 7, 8, 9, 11])).lenenc(n as u64).bytes(&vec![r.below(250) as u8; n]); evs.push(def(&m.0)); }
        3 => { m.u8(*r.pick(&[4u8, 5, 6])).lenenc(n as u64).bytes(&vec![0; n]); evs.push(def(&m.0)); }
        // a list of lists
        4 => {
            let mut l = W::new();
            if r.bool() { l.lenenc(n as u64).bytes(&vec![0; n]); } else { for _ in 0..n { l.u8(1).u8(0); } }
            m.u8(*r.pick(&[5u8, 6])).lenstr(&l.0);
            evs.push(def(&m.0));
        }
        5 => { m.u8(*r.pick(&[2u8, 10])).lenenc(n as u64 + 1).bytes(&vec![7; n + 1]); evs.push(def(&m.0)); }
        // servers without transactions, or all the same one
        6 => {
            let same = r.bool();
            m.u64(n as u64 / 8);
            for i in 0..n as u64 / 8 { let mut u = [9u8; 16]; if !same { u[..8].copy_from_slice(&mon::mix(i).to_le_bytes()); } m.bytes(&u).u64(0); }
            evs.push(Ev::new(35, m.0, Exp::Any));
        }
        // intervals of one server, or one interval of very many servers
        7 => {
            let n = n as u64 / 16;
            if r.bool() {
                m.u64(1).bytes(&[9; 16]).u64(n);
                let (step, kind) = (r.range(1, 3), r.below(3));
                for i in 0..n { let a = 1 + match kind { 0 => i, 1 => n - i, _ => mon::mix(i) % (1 << 40) } * step; m.u64(a).u64(a + 1); }
            } else {
                m.u64(n);
                for i in 0..n { let mut u = [9u8; 16]; u[..8].copy_from_slice(&mon::mix(i).to_le_bytes()); m.bytes(&u).u64(1).u64(5).u64(6); }
            }
            evs.push(Ev::new(35, m.0, Exp::Any));
        }
        8 => {
            let n = n as u32 / 8;
            m.u32(n);
            for i in 0..n { m.u32(if k / 12 % 2 == 0 { 1 } else { i }).u32(1).u64(i as u64); }
            evs.push(Ev::new(163, m.0, Exp::Any));
        }
        // rows of one or no byte each
        9 => {
            let (b, p) = (r.u8(), r.below(2) as u8);
            evs.push(def(&[]));
            for ty in [23u8, 24, 25, 30, 31, 32] {
                if !r.pct(30) && ty != 30 { continue; }
                m = W::new();
                m.u48(600).u16(0);
                if ty >= 30 { m.u16(2); }
                m.u8(1).u8(p);
                if ty == 24 || ty == 31 { m.u8(p); }
                m.bytes(&vec![b; n / 2]);
                evs.push(Ev::new(ty, m.0, Exp::Any));
            }
        }
        // white space, separators and quotes all the way
        10 => {
            let b = r.pick(&[" ", "\t", "/*", "*/", "--", "(", ")", "'", "`", ";", "SAVEPOINT ", "ROLLBACK ", "\u{fe0f}", "\0"]).repeat(n / 4);
            evs.push(query(&b));
            evs.push(rows_query(&b));
            evs.push(annotate(&b));
            evs.push(uservar(&b, Some((0, 33, b.clone(), 0))));
        }
        // events without a body
        _ => for _ in 0..n / 16 { let ty = *r.pick(&DECODED); evs.push(Ev::new(if ty == 15 { 2 } else { ty }, vec![], Exp::Any)); },
    }
    let mut tail = gen_group(r, 7_000_001, true);
    tail.push(xid(42));
    evs.extend(tail);
    lay_out(&mut evs, 4, crc);
    let crcf = move |i: usize| if i == 0 { c0 } else { crc };
    let b = file_bytes(&evs, &crcf);
    ctx.set_input(&b);
    ctx.sig_bytes(&b);
    ctx.count("logs with very many tiny parts", 1);
    ctx.max("tiny parts in one log", n as u64);
    let out = read_all(&b, evs.len() + 4)?;
    alloc_check(b.len(), 4 << 20)?;
    let out = out.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    for (i, e) in evs.iter().enumerate() {
        let Some(g) = out.items.get(i) else { return Err(format!("iteration ended after {} of {} complete events", out.items.len(), evs.len())) };
        check(e, crcf(i), g).map_err(|m| format!("event {} of {}, intact, after very many tiny parts (shape {}): {}", i, evs.len(), shape, model::short(m)))?;
    }
    ensure!(out.ended && out.items.len() == evs.len(), "{} items for {} events", out.items.len(), evs.len());
    // a consumer commits it all
    let mut cl = BinlogClient::new(mysql_cdc::replica_options::ReplicaOptions { binlog: match r.below(3) { 0 => BinlogOptions::from_start(), 1 => BinlogOptions::from_mysql_gtid(GtidSet::new()), _ => BinlogOptions::from_mariadb_gtid(GtidList::new()) }, ..Default::default() });
    mon::lib(|| for i in &out.items { if let Ok((h, e)) = i { cl.commit(h, e); } })?;
    Ok(())
}

fn c01(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx % 20_000 == 17 { return many_parts(ctx, r, idx / 20_000); }
    if r.pct(6) { return c01_stream(ctx, r); }
    let (mut f, c0, crc) = lead(r);
    let mode = r.below(10);
    let crcf = move |i: usize| if i == 0 { c0 } else { crc };
    if mode <= 5 {
        // bodies are damaged, framing is intact
        let n = 2 + r.usize(5);
        let mut evs = gen_events(r, n, true);
        evs.insert(0, f.clone());
        for _ in 0..1 + r.usize(2) {
            if r.bool() { damage(r, &mut evs); }
            else {
                let w = wild_event(r);
                let at = 1 + r.usize(evs.len());
                // not between a definition and its rows
                evs.splice(at..at, w);
            }
        }
        // definitions may have been shadowed by an inserted one of the same id (ids 500..504 are rare elsewhere)
        let ids: Vec<u64> = (500..504).collect();
        for e in evs.iter_mut() { if let Exp::Rows(x) = &e.exp { if ids.contains(&x.table_id) { e.exp = Exp::Any; } } }
        let mut tail = gen_group(r, 7_000_001, true);
        tail.push(xid(42));
        evs.extend(tail);
        let short_crc = crc && r.pct(15);
        lay_out(&mut evs, 4, crc);
        let mut b = MAGIC.to_vec();
        let cut_at = if short_crc { 1 + r.usize(evs.len() - 1) } else { usize::MAX };
        for (i, e) in evs.iter_mut().enumerate() {
            if i == cut_at {
                // an event shorter than its checksum
                e.body.clear();
                let k = r.usize(4);
                let mut h = e.hdr(false);
                h.len = (enc::HEADER + k) as u32;
                b.extend(enc::event(&h, &r.bytes(k), false));
                if let Exp::Table(t) = &e.exp { ctx.note(format!("table {} lost", t.id)); }
                e.exp = Exp::Any;
            } else { b.extend(e.bytes(crcf(i))); }
        }
        if cut_at != usize::MAX { for e in evs.iter_mut() { if let Exp::Rows(x) = &e.exp { if x.table_id != 7_000_001 || cut_at + 1 >= 1 { e.exp = Exp::Any; } } } }
        ctx.set_input(&b);
        ctx.sig_bytes(&b);
        ctx.count("logs with damaged bodies", 1);
        ctx.count("damaged events", evs.iter().filter(|e| matches!(e.exp, Exp::Any)).count() as u64);
        let out = read_all(&b, evs.len() + 4)?;
        alloc_check(b.len(), 4 << 20)?;
        let out = out.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
        ctx.count("items yielded", out.items.len() as u64);
        ctx.count("errors yielded", out.items.iter().filter(|i| i.is_err()).count() as u64);
        for (i, e) in evs.iter().enumerate() {
            let Some(g) = out.items.get(i) else { return Err(format!("iteration ended after {} of {} complete events", out.items.len(), evs.len())) };
            check(e, crcf(i), g).map_err(|m| format!("intact event {} of {} after damaged ones: {}", i, evs.len(), m))?;
        }
        ensure!(out.ended && out.items.len() == evs.len(), "{} items for {} events", out.items.len(), evs.len());
        return Ok(());
    }
    // anything may be damaged
    let b = match mode {
        6 | 7 => {
            let n = 1 + r.usize(5);
            let mut evs = gen_events(r, n, true);
            if r.pct(40) { let w = wild_event(r); evs.extend(w); }
            if r.pct(20) { mutate_bytes(r, &mut f.body); }
            evs.insert(0, f);
            lay_out(&mut evs, 4, crc);
            let mut b = file_bytes(&evs, &crcf);
            mutate_bytes(r, &mut b);
            if r.bool() && b.len() >= 4 { b[..4].copy_from_slice(&MAGIC); }
            b
        }
        8 => {
            // event lengths that lie
            let mut evs = gen_events(r, 3, true);
            evs.insert(0, f);
            lay_out(&mut evs, 4, crc);
            let mut b = MAGIC.to_vec();
            let k = r.usize(evs.len());
            for (i, e) in evs.iter().enumerate() {
                let mut h = e.hdr(crcf(i));
                if i == k { h.len = match r.below(5) { 0 => r.below(19) as u32, 1 => r.edge(32) as u32, 2 => h.len.wrapping_add(r.below(40) as u32), 3 => h.len.wrapping_sub(r.below(40) as u32), _ => u32::MAX - r.below(40) as u32 }; }
                b.extend(enc::event(&h, &e.body, crcf(i)));
            }
            b
        }
        _ => {
            let mut b = MAGIC.to_vec();
            let n = r.len(200);
            for _ in 0..r.usize(5) {
                let k = r.len(60);
                let body = r.bytes(k);
                let ty = if r.pct(85) { *r.pick(&DECODED) } else { r.u8() };
                let mut h = Ev::new(ty, body.clone(), Exp::Any).hdr(false);
                if r.pct(20) { h.len = r.edge(32) as u32; }
                b.extend(enc::event(&h, &body, false));
            }
            b.extend(r.bytes(n));
            if r.pct(5) { b.truncate(r.usize(8)); }
            b
        }
    };
    ctx.set_input(&b);
    ctx.sig_bytes(&b);
    ctx.count("logs with damaged framing", 1);
    ctx.sample(|| format!("damaged log {}", mon::hex_short(&b)));
    let limit = b.len() / 19 + 8;
    let out = read_all(&b, limit)?;
    if r.pct(10) {
        // what was yielded can also be shown
        struct Sink(usize);
        impl std::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }
        use std::fmt::Write;
        if let Ok(o) = &out { let n = mon::lib(|| { let mut s = Sink(0); for i in &o.items { let _ = write!(s, "{:?}", i); } s.0 }).map_err(|m| format!("showing what was yielded: {}", m))?; ctx.count("characters shown", n as u64); }
    }
    alloc_check(b.len(), 4 << 20)?;
    if let Ok(o) = out {
        ctx.count("items yielded", o.items.len() as u64);
        ctx.count("errors yielded", o.items.iter().filter(|i| i.is_err()).count() as u64);
        ensure!(o.ended, "{} items from {} bytes and no end: items are yielded without consuming input", limit, b.len());
    }
    Ok(())
}

fn c01_stream(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let crc = r.bool();
    let mut cfg = server::cfg(r.bool());
    cfg.checksum = if crc { "CRC32" } else { "NONE" }.into();
    // (packet body, expectation; None: anything goes)
    let mut pk: Vec<(Vec<u8>, Option<Ev>)> = vec![];
    let n = 1 + r.usize(8);
    for _ in 0..n {
        match r.below(8) {
            0 => pk.push((vec![], None)),
            1 => { let k = r.len(30); let mut b = r.bytes(k + 1); if b[0] == 0xfe { b[0] = 0xff; } pk.push((b, None)); }
            2 => { let k = r.len(30); let mut b = vec![0u8]; b.extend(r.bytes(k)); pk.push((b, None)); }
            3 => { let k = r.len(12); let mut b = vec![0xffu8]; b.extend(r.bytes(k)); pk.push((b, None)); }
            4 | 5 => { for e in wild_event(r) { pk.push((net::event_packet(&e, crc), None)); } }
            6 => { let mut e = gen_plain(r); mutate_bytes(r, &mut e.body); if e.ty == 15 { e.ty = 3; } pk.push((net::event_packet(&e, crc), None)); }
            _ => { let e = gen_plain(r); let mut p = net::event_packet(&e, crc); p.truncate(r.usize(p.len())); if p.len() > 1 { pk.push((p, None)); } else { pk.push((net::event_packet(&e, crc), Some(e))); } }
        }
    }
    // random bytes may contain a valid format description: it cannot be (type 15 bodies are at least 57 bytes)
    let mut tail = gen_group(r, 7_000_001, true);
    tail.push(xid(43));
    for e in tail { pk.push((net::event_packet(&e, crc), Some(e))); }
    let bytes: Vec<u8> = pk.iter().flat_map(|p| p.0.clone()).collect();
    ctx.set_input(&bytes);
    ctx.sig_bytes(&bytes);
    ctx.count("streams", 1);
    let w = ctx.worker;
    let (_s, res) = server::with_server(w, |l| {
        net::serve_one(l, &cfg, |_| {}, |c, _, _| {
            let mut st = net::Stream::new(c);
            for (b, _) in &pk { st.put(b)?; }
            st.put(&server::eof_body())?;
            Ok(())
        })
    }, |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, BinlogOptions::from_start()));
        let mut ev = net::replicate(&mut cl)?.map_err(|e| format!("replicate failed: {:?}", e))?;
        for (i, (_, want)) in pk.iter().enumerate() {
            let g = net::next(&mut ev)?;
            match (want, g) {
                (Some(e), Some(g)) => check(e, crc, &g).map_err(|m| format!("intact packet {} after damaged ones: {}", i, m))?,
                (_, None) => return Err(format!("the stream ended at packet {} although the server did not say so", i)),
                (None, Some(_)) => {}
            }
        }
        ensure!(net::next(&mut ev)?.is_none(), "no end of stream after the server's end-of-stream packet");
        Ok(())
    });
    res?;
    alloc_check(bytes.len(), 20 << 20)
}

// ---- C02 ----

struct Kind02 { cfg: Cfg, binlog: fn() -> BinlogOptions }
fn kinds() -> Vec<Kind02> {
    let mut v = vec![];
    for maria in [false, true] {
        for (greet, acct, cached, pw) in [(server::NATIVE, server::NATIVE, true, "secret"), (server::SHA2, server::SHA2, true, "pw"), (server::SHA2, server::SHA2, false, "a longer password with spaces"), (server::NATIVE, server::SHA2, false, "x"), (server::SHA2, server::NATIVE, true, "y")] {
            let mut c = server::cfg(maria);
            c.plugin = greet.into();
            c.account = acct.into();
            c.cached = cached;
            c.password = pw.into();
            // fixed per kind: offsets into the set-up are enumerated
            let i = v.len() as u64;
            c.mix = i & 1 | (i % 5) << 1 | (i % 3) << 6 | (i / 2 % 2) << 8 | (i % 4) << 9 | (i % 2) << 11 | (i % 2) << 13 | (i / 3 % 2) << 14 | (i / 2 % 2) << 17;
            let binlog: fn() -> BinlogOptions = match (v.len() % 3, maria) {
                (0, _) => BinlogOptions::from_end,
                (1, true) => || BinlogOptions::from_mariadb_gtid(GtidList::parse("0-1-5").unwrap()),
                (1, false) => || BinlogOptions::from_mysql_gtid(GtidSet::parse("24bc7850-2c16-11e6-a073-0242ac110001:1-5").unwrap()),
                _ => || BinlogOptions::from_position("mysql-bin.000001".into(), 120),
            };
            v.push(Kind02 { cfg: c, binlog });
        }
    }
    v
}

/// (bytes sent before the stream request, packets) of every session kind.
fn dry(worker: usize) -> &'static Vec<(usize, usize)> {
    static T: OnceLock<Vec<(usize, usize)>> = OnceLock::new();
    T.get_or_init(|| kinds().iter().map(|k| {
        let (s, _r) = server::with_server(40 + worker, |l| {
            let mut s = server::Session::default();
            if let Some(mut c) = l.accept() { let _ = server::session(&mut c, &k.cfg, &mut s); return (s.setup_tx, c.packets, s); }
            (0, 0, s)
        }, |h, p| {
            let mut cl = BinlogClient::new(net::options(&k.cfg, h, p, (k.binlog)()));
            let _ = mon::lib(|| cl.replicate().map(|_| ()));
        });
        (s.0, s.1)
    }).collect())
}

fn c02(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let sizes = dry(ctx.worker);
    let ks = kinds();
    let total: u64 = sizes.iter().map(|s| s.0 as u64).sum();
    // every fourth case is a random one
    let (rest, idx) = if idx % 4 == 3 { (true, u64::MAX) } else { (false, idx - idx / 4) };
    if !rest && idx < total {
        // every cut offset
        let mut k = idx;
        let mut i = 0;
        while k >= sizes[i].0 as u64 { k -= sizes[i].0 as u64; i += 1; }
        return cut(ctx, &ks[i], i, k as usize, r.below(3));
    }
    if !rest && idx < total * (1 + EDITS.len() as u64) {
        // every byte replaced by every edge value
        let mut k = (idx - total) / EDITS.len() as u64;
        let mut i = 0;
        while k >= sizes[i].0 as u64 { k -= sizes[i].0 as u64; i += 1; }
        return edited(ctx, &ks[i], i, k as usize, ((idx - total) % EDITS.len() as u64) as usize);
    }
    let i = r.usize(ks.len());
    if r.pct(4) { return public_key(ctx, r); }
    if idx == u64::MAX && r.below(300) == 0 { return flood(ctx, r, &ks[i], i, sizes[i].1); }
    match r.below(10) {
        0 => garbage(ctx, r, &ks[i]),
        1 if sizes[i].0 > 0 => { let k = r.usize(sizes[i].0); cut(ctx, &ks[i], i, k, r.below(3)) }
        _ => damaged(ctx, r, &ks[i], i, sizes[i].1),
    }
}

/// One packet of the set-up repeated tens of thousands of times.
fn flood(ctx: &mut Ctx, r: &mut Rng, k: &Kind02, i: usize, packets: usize) -> CaseResult {
    let n = r.usize(packets.max(1));
    let times = 20_000 + r.usize(60_000);
    let other: Option<Vec<u8>> = match r.below(9) {
        0 => { let mut b = vec![0xfeu8]; b.extend(if r.bool() { server::NATIVE } else { server::SHA2 }.as_bytes()); b.push(0); b.extend_from_slice(&k.cfg.scramble); b.push(0); Some(b) }
        1 => Some(vec![1, 3]),
        2 => Some(vec![1, 4]),
        3 => Some(vec![0, 0, 0, 2, 0, 0, 0]),
        4 => Some(vec![0xfe, 0, 0, 2, 0]),
        5 => Some(vec![3, b'd', b'e', b'f']),
        6 => Some(vec![1]),
        _ => None,
    };
    ctx.count("set-up packets repeated", times as u64);
    let what = format!("session kind {}: packet {} {} {} times", i, n, match &other { None => "sent".to_string(), Some(b) => format!("replaced by {}", crate::mon::hex_short(b)) }, times);
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    let (_, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &k.cfg, |c| c.mutate = Some((n, Box::new(move |q, b| {
        let mut v = vec![];
        for j in 0..times { v.extend(server::packet(q.wrapping_add(j as u8), other.as_deref().unwrap_or(b))); }
        v
    }))), |_, _, _| Ok(())), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&k.cfg, h, p, (k.binlog)()));
        let _ = net::replicate(&mut cl)?;
        Ok(())
    });
    res.map_err(|m| format!("{}: {}", what, m))
}

/// Public keys of every size, sound or not.
fn public_key(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    use openssl::bn::BigNum;
    let mut cfg = server::cfg(r.bool());
    cfg.plugin = server::SHA2.into();
    cfg.account = server::SHA2.into();
    cfg.cached = false;
    cfg.password = { let n = match r.below(4) { 0 => r.usize(8), 1 => 8 + r.usize(40), 2 => 60 + r.usize(200), _ => 200 + r.usize(400) }; r.text_len(n) };
    let bits = match r.below(5) { 0 => r.usize(40), 1 => 300 + r.usize(80), 2 => 8 * r.usize(80), 3 => 1000 + r.usize(1100), _ => 1 + r.usize(600) };
    let mut m = { let n = bits.div_ceil(8); r.bytes(n) };
    if let Some(x) = m.first_mut() { *x = (*x | 0x80) >> ((8 - bits % 8) % 8); }
    if r.pct(90) { if let Some(x) = m.last_mut() { *x |= 1; } }
    let e = r.edge_in(0, 1 << 33);
    let e = if r.bool() { 65537 } else { e };
    let key = || -> Option<Vec<u8>> { openssl::rsa::Rsa::from_public_components(BigNum::from_slice(&m).ok()?, BigNum::from_dec_str(&e.to_string()).ok()?).ok()?.public_key_to_pem().ok() };
    let Some(pem) = key() else { ctx.count("public keys that could not be written", 1); return Ok(()); };
    ctx.count("public keys of odd sizes", 1);
    ctx.set_input(&pem);
    ctx.sig_bytes(&pem);
    ctx.note(format!("public key of {} bits, exponent {}, password of {} bytes", bits, e, cfg.password.len()));
    cfg.pem = Some(pem);
    let (_, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| (), |_, _, _| Ok(())), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, BinlogOptions::from_start()));
        let _ = net::replicate(&mut cl)?;
        Ok(())
    });
    res?;
    alloc_check(2000, 20 << 20)
}

/// Replacements of one byte.
const EDITS: [fn(u8) -> u8; 8] = [|_| 0, |_| 1, |_| 7, |_| 0x7f, |_| 0xff, |b| b.wrapping_add(1), |b| b.wrapping_sub(1), |b| b ^ 0x80];

fn edited(ctx: &mut Ctx, k: &Kind02, i: usize, at: usize, e: usize) -> CaseResult {
    ctx.count("set-up bytes replaced", 1);
    ctx.sig(1 << 60 | (i as u64) << 40 | (at as u64) << 8 | e as u64);
    ctx.note(format!("session kind {}: byte {} of the set-up replaced (way {})", i, at, e));
    let (_, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &k.cfg, |c| c.edit = Some((at, EDITS[e])), |_, _, _| Ok(())), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&k.cfg, h, p, (k.binlog)()));
        let _ = net::replicate(&mut cl)?;
        Ok(())
    });
    res?;
    alloc_check(2000, 20 << 20)
}

fn cut(ctx: &mut Ctx, k: &Kind02, i: usize, at: usize, how: u64) -> CaseResult {
    let how = (at > 0).then_some(how).unwrap_or(how & 1);
    ctx.count("connections cut during set-up", 1);
    if how == 2 { ctx.count("connections closed in one direction during set-up", 1); }
    ctx.sig(((i as u64) << 32) | (at as u64) << 2 | how);
    ctx.note(format!("session kind {} cut after {} bytes (reset: {}, one direction: {})", i, at, how == 1, how == 2));
    ctx.sample(|| format!("session kind {}: connection cut after {} bytes, reset {}, one direction {}", i, at, how == 1, how == 2));
    let w = ctx.worker;
    let (_, res) = server::with_server(w, |l| net::serve_one(l, &k.cfg, |c| { c.cut = Some(at); c.rst = how == 1; c.half = how == 2; }, |_, _, _| Ok(())),
        |h, p| -> CaseResult {
            let mut cl = BinlogClient::new(net::options(&k.cfg, h, p, (k.binlog)()));
            let r = net::replicate(&mut cl)?;
            ensure!(r.is_err(), "the connection ended after {} bytes of the set-up but a stream was reported as started", at);
            Ok(())
        });
    res?;
    alloc_check(2000, 20 << 20)
}

fn damaged(ctx: &mut Ctx, r: &mut Rng, k: &Kind02, i: usize, packets: usize) -> CaseResult {
    let n = r.usize(packets.max(1));
    let seed = r.u64();
    ctx.count("sessions with a damaged packet", 1);
    ctx.sig(seed);
    let mut cfg = k.cfg.clone();
    if r.pct(10) { cfg.greet_seq = r.edge(8) as u8; }
    if r.pct(5) { cfg.pem = Some({ let n = r.len(500); r.bytes(n) }); }
    ctx.note(format!("session kind {} packet {} of {} damaged", i, n, packets));
    ctx.sample(|| format!("session kind {}: packet {} of {} damaged", i, n, packets));
    let w = ctx.worker;
    let (_, res) = server::with_server(w, |l| net::serve_one(l, &cfg, |c| {
        let mut r = Rng::new(seed, 2, 0);
        c.mutate = Some((n, Box::new(move |seq, body| {
            let mut seq = seq;
            let mut b = body.to_vec();
            match r.below(12) {
                0 => b.clear(),
                1 => { let k = r.usize(b.len() + 1); b.truncate(k); }
                2 => { let k = r.usize(b.len().min(4) + 1); b.truncate(k); }
                3 | 4 => mutate_bytes(&mut r, &mut b),
                5 => { b = r.pick(&[&[0xffu8][..], &[0xfe], &[0x00], &[0x01], &[0xfb], &[1, 3], &[1, 4], &[1, 5], &[0xff, 1], &[0xff, 1, 2, b'#'], &[0xfe, 0], &[0xfe, b'a', 0, 0], &[2], &[0xfe, b'm', b'y', b's', b'q', b'l', b'_', b'n', b'a', b't', b'i', b'v', b'e', b'_', b'p', b'a', b's', b's', b'w', b'o', b'r', b'd', 0, 0]]).to_vec(); }
                6 => seq = r.u8(),
                // messages of any length, characters of several bytes at any place
                7 => {
                    let n = r.len(3000);
                    let mut m = if r.bool() { (0..n).map(|_| *r.pick(&['a', ' ', '\u{e9}', '\u{20ac}', '\u{1f600}'])).collect::<String>() } else { r.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}"]).repeat(n) };
                    for _ in 0..r.usize(4) { m.insert(0, 'x'); }
                    let st = r.pick(&[Some("HY000"), None, Some("\u{e9}\u{e9}\u{e9}"), Some("")]).clone();
                    b = server::err_body(r.edge(16) as u16, st, &m);
                }
                8 => { if !b.is_empty() { b[0] = r.edge(8) as u8; } }
                9 => {
                    // a length that lies
                    let mut p = server::packet(seq, &b);
                    let v = r.edge(24).to_le_bytes();
                    p[..3].copy_from_slice(&v[..3]);
                    return p;
                }
                10 => { let mut p = vec![]; for _ in 0..1 + r.usize(3) { let x = r.pick(&[vec![], vec![0xfeu8], vec![0u8, 0, 0, 2, 0], vec![0xff, 1, 2, 3], vec![0xfe, 0, 0, 2, 0]]).clone(); p.extend(server::packet(seq, &x)); } p.extend(server::packet(seq, &b)); return p; }
                _ => { let k = r.len(200); b = r.bytes(k); }
            }
            server::packet(seq, &b)
        })));
    }, |_, _, _| Ok(())), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, (k.binlog)()));
        match net::replicate(&mut cl)? {
            Ok(ev) => { drop(ev); }
            Err(_) => {}
        }
        Ok(())
    });
    res?;
    alloc_check(2000, 20 << 20)
}

fn garbage(ctx: &mut Ctx, r: &mut Rng, k: &Kind02) -> CaseResult {
    let mut b = vec![];
    for _ in 0..r.usize(12) {
        let body = match r.below(5) {
            0 => server::greeting(&k.cfg),
            1 => server::ok_body(),
            2 => server::eof_body(),
            3 => { let n = r.len(40); r.bytes(n) }
            _ => { let mut g = server::greeting(&k.cfg); mutate_bytes(r, &mut g); g }
        };
        b.extend(server::packet(r.u8(), &body));
    }
    if r.bool() { mutate_bytes(r, &mut b); }
    ctx.set_input(&b);
    ctx.sig_bytes(&b);
    ctx.count("arbitrary byte strings sent", 1);
    let w = ctx.worker;
    let (_, res) = server::with_server(w, |l| {
        if let Some(mut c) = l.accept() {
            let _ = c.send_raw(&b);
            let _ = c.s.shutdown(std::net::Shutdown::Write);
            // drain, so that the close is orderly
            let _ = c.s.set_read_timeout(Some(std::time::Duration::from_secs(5)));
            while c.recv().is_ok() {}
        }
    }, |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&k.cfg, h, p, (k.binlog)()));
        let _ = net::replicate(&mut cl)?;
        Ok(())
    });
    res?;
    let _ = model::short(String::new());
    alloc_check(b.len(), 20 << 20)
}
