//! C08 C11 C12: histories of definitions, checksum settings, and reading whole files.
use crate::ensure;
use crate::enc;
use crate::events::{self, *};
use crate::model::{self, *};
use crate::mon::{lib, CaseResult, Ctx};
use crate::net;
use crate::props::decode::lead;
use crate::rng::Rng;
use crate::server;
use crate::{gtid, Prop, WORKERS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", case: c08, quick: 150_000, thorough: 3_000_000, workers: WORKERS, min: 1500, level: "exploration",
            rule: "A case is a history of table definitions, redefinitions (other columns, other widths, same or other name), row events on defined and undefined ids, and other events over a small pool of table ids, read from one file, from two files read alternately, or from several sessions of one client; every row event is compared with the model's latest definition of its id in its own history, or must be an error. Distinct by the sequence of (kind, id).",
            assumptions: &["a definition stays in force within its stream until replaced (servers write one before every use)"] },
        Prop { id: "C11", case: c11, quick: 140_000, thorough: 2_800_000, workers: WORKERS, min: 1000, level: "exploration",
            rule: "A case renders one list of events with and without CRC32 checksums, from files and from streams, under format descriptions of every size from 27 to 198 event types (enumerated first) with and without the algorithm byte, and with the setting changing at later format descriptions; every rendering must decode to the same events. Distinct by (rendering, event bytes).",
            assumptions: &["the checksum value itself is not verified by the library (documented in its source) and is written correctly here"] },
        Prop { id: "C12", case: c12, quick: 60_000, thorough: 1_200_000, workers: WORKERS, min: 2000, level: "fault_enumeration",
            rule: "A case writes a file of events of all sizes around internal buffer sizes, with undecodable events in between, optionally cut at an arbitrary byte (every byte offset of sample logs is enumerated first), and requires exactly the complete events in order, errors in place of undecodable ones, and the end of iteration at the end of the file; some are read through a pipe in arbitrary small pieces. Distinct by the file's bytes.",
            assumptions: &["the torn tail itself may be reported as one error or not at all; nothing may be reported as an event for it"] },
    ]
}

// ---- C08 ----

/// A history over a pool of ids: events, and what must come out.
fn table_history(ctx: &mut Ctx, r: &mut Rng, ids: &[u64], n: usize) -> Vec<Ev> {
    let mut defs: HashMap<u64, Table> = HashMap::new();
    let mut past: Vec<Table> = vec![];
    let mut v: Vec<Ev> = vec![];
    let mut sig = 0u64;
    let base = gen_table(r, 0, vec![model::col(Kind::Int), model::col(Kind::VarChar(20))]);
    let names: Vec<(String, String)> = (0..3).map(|i| (base.db.clone(), format!("t{}", i))).collect();
    while v.len() < n {
        let id = *r.pick(ids);
        match r.below(10) {
            0..=3 => {
                // a definition: new columns, the same again, a permutation, or an older one of any table
                let mut t = if !past.is_empty() && r.pct(50) { r.pick(&past).clone() } else {
                    let k = 1 + r.usize(6);
                    let cols: Vec<Col> = (0..k).map(|_| { let k = gen_small_kind(r); model::col(k) }).collect();
                    gen_table(r, id, cols)
                };
                t.id = id;
                match r.below(4) {
                    0 => { let mut p: Vec<usize> = (0..t.cols.len()).collect(); r.shuffle(&mut p); t.cols = p.iter().map(|i| t.cols[*i].clone()).collect(); t.nullable = p.iter().map(|i| t.nullable[*i]).collect(); }
                    1 => { t.cols.push(model::col(Kind::Tiny)); t.nullable.push(true); }
                    2 if t.cols.len() > 1 => { t.cols.pop(); t.nullable.pop(); }
                    _ => {}
                }
                t.meta = None;
                if r.pct(60) { let (d, n) = r.pick(&names).clone(); t.db = d; t.name = n; }
                v.push(table(&t));
                past.push(t.clone());
                if defs.insert(id, t).is_some() { ctx.count("redefinitions", 1); } else { ctx.count("definitions", 1); }
                sig = sig.wrapping_mul(31).wrapping_add(id ^ 0x100);
            }
            4..=7 => {
                let mut o = gen_opts(r);
                o.nrows = 1 + o.nrows.min(3);
                match defs.get(&id) {
                    Some(t) if r.pct(8) => {
                        // rows of a table with another number of columns
                        let n = t.cols.len();
                        let old: Vec<&Table> = past.iter().filter(|p| p.cols.len() != n).collect();
                        let mut t = if !old.is_empty() && r.bool() { (*r.pick(&old)).clone() } else {
                            let mut t = t.clone();
                            match r.below(4) { 0 if n > 1 => { t.cols.truncate(n - 1); } 1 if n > 1 => { let k = 1 + r.usize(n - 1); t.cols.truncate(k); } _ => for _ in 0..1 + r.len(9) { let c = r.pick(&t.cols).clone(); t.cols.push(c); } }
                            t
                        };
                        t.id = id;
                        t.nullable.resize(t.cols.len(), true);
                        if t.cols.len() == n { continue; }
                        let (b, x) = gen_rows(r, &t, &o);
                        let mut e = events::rows(b, x);
                        e.exp = Exp::Err;
                        v.push(e);
                        ctx.count("row events of another width than the table", 1);
                    }
                    Some(t) => {
                        let t = t.clone();
                        let (b, x) = gen_rows(r, &t, &o);
                        v.push(events::rows(b, x));
                        ctx.count("row events on defined tables", 1);
                        sig = sig.wrapping_mul(31).wrapping_add(id ^ 0x200);
                    }
                    None => {
                        // the image fits some other table: decoding it with that would succeed
                        let mut t = if !past.is_empty() { r.pick(&past).clone() } else { base.clone() };
                        t.id = id;
                        let (b, x) = gen_rows(r, &t, &o);
                        let mut e = events::rows(b, x);
                        e.exp = Exp::Err;
                        v.push(e);
                        ctx.count("row events on undefined tables", 1);
                        sig = sig.wrapping_mul(31).wrapping_add(id ^ 0x400);
                    }
                }
            }
            8 => {
                // statements, also ones naming a table in use: a definition stays in force all the same
                let t = defs.get(&id).unwrap_or(&base);
                let s = match r.below(10) {
                    0 => "BEGIN".to_string(),
                    1 => "COMMIT".into(),
                    2 => "CREATE TABLE t(i int)".into(),
                    3 => format!("DROP TABLE `{}`", t.name),
                    4 => format!("ALTER TABLE {}.{} ADD COLUMN c INT", t.db, t.name),
                    5 => format!("TRUNCATE TABLE `{}`.`{}`", t.db, t.name),
                    6 => format!("DROP DATABASE `{}`", t.db),
                    7 => format!("RENAME TABLE `{}` TO `x`", t.name),
                    8 => format!("drop table if exists `{}` /* generated by server */", t.name),
                    _ => "ROLLBACK".into(),
                };
                v.push(if r.bool() { query(&s) } else { query_full(1, 0, 0, &[], &t.db, &s) });
                ctx.count("statements between definitions and rows", 1);
            }
            _ => { let e = match r.below(5) { 0 => { let mut e = rotate(if r.bool() { 4 } else { r.edge(40) }, "mysql-bin.000002"); if r.bool() { e.sid = 0; e.flags = 0x20; } e } 1 => heartbeat("mysql-bin.000002"), 2 => xid(1), 3 => rows_query("q"), _ => { let t = gen_unknown_type(r); let k = r.len(20); unknown(t, r.bytes(k)) } }; v.push(e); }
        }
    }
    ctx.sig(sig);
    v
}

fn id_pool(r: &mut Rng) -> Vec<u64> {
    let mut ids: Vec<u64> = vec![];
    let k = *r.pick(&[1usize, 2, 3, 5, 12]);
    while ids.len() < k {
        let id = match r.below(4) {
            0 => r.below(200),
            1 if !ids.is_empty() => { let x = *r.pick(&ids); x ^ (1 << r.below(48)) }
            2 if !ids.is_empty() => (*r.pick(&ids)).wrapping_add(1) & 0xffff_ffff_ffff,
            _ => r.edge(48),
        };
        if !ids.contains(&id) { ids.push(id); }
    }
    ids
}

fn c08(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx % 12_000 == 3001 { return many_tables(ctx, r); }
    let ids = id_pool(r);
    match r.below(20) {
        0..=9 => {
            let n = if r.pct(4) { 400 } else { 5 + r.usize(40) };
            // many ids at once: a bounded cache would forget some
            let ids = if r.pct(6) { let b = r.edge(40); (0..r.edge_in(20, 600)).map(|i| b + i).collect() } else { ids };
            let n = if ids.len() > 12 { ids.len() * 5 } else { n };
            let evs = table_history(ctx, r, &ids, n);
            ctx.count("files read", 1);
            ctx.sample(|| format!("{} events over table ids {:?}", evs.len(), &ids[..ids.len().min(6)]));
            if r.pct(20) {
                // the format is described again, also between a definition and its rows
                let (f, c0, c) = lead(r);
                let mut evs: Vec<(Ev, bool)> = evs.into_iter().map(|e| (e, c)).collect();
                evs.insert(0, (f.clone(), c0));
                for _ in 0..1 + r.usize(4) { let at = 1 + r.usize(evs.len()); evs.insert(at, (f.clone(), c0)); ctx.count("format descriptions between definitions and rows", 1); }
                let (mut evs, crcs): (Vec<Ev>, Vec<bool>) = evs.into_iter().unzip();
                lay_out_mixed(&mut evs, 4, &crcs);
                if r.pct(30) { evs = evs.into_iter().map(|e| e.with_header(r)).collect(); }
                let b = file_bytes(&evs, &|i| crcs[i]);
                ctx.set_input(&b);
                ctx.count("events compared", evs.len() as u64);
                return expect_file(&evs, &|i| crcs[i], &b);
            }
            crate::props::decode::run_file(ctx, r, evs, false)
        }
        10..=14 => interleaved(ctx, r, &ids),
        _ => sessions(ctx, r, &ids, idx),
    }
}

/// Very many tables in force at once.
fn many_tables(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let n = r.edge_in(9_000, 70_000).max(9_000);
    let base = r.edge(40);
    let variants: Vec<Table> = (0..5).map(|k| { let cols = (0..1 + k).map(|_| { let k = gen_small_kind(r); model::col(k) }).collect(); gen_table(r, 0, cols) }).collect();
    let of = |i: u64, seed: u64| { let mut t = variants[(crate::mon::mix(i ^ seed) % 5) as usize].clone(); t.id = base + i; t };
    let mut evs: Vec<Ev> = (0..n).map(|i| table(&of(i, 0))).collect();
    // some redefined
    let redef: std::collections::HashSet<u64> = (0..n / 50).map(|_| r.below(n)).collect();
    let mut re: Vec<u64> = redef.iter().copied().collect();
    re.sort();
    for i in &re { evs.push(table(&of(*i, 77))); }
    let mut which: Vec<u64> = vec![0, 1, n - 1, n / 2];
    for _ in 0..3000 { which.push(if r.pct(20) { *r.pick(&re) } else { r.below(n) }); }
    for i in which {
        let mut o = gen_opts(r);
        o.nrows = 1;
        let (b, x) = gen_rows(r, &of(i, if redef.contains(&i) { 77 } else { 0 }), &o);
        evs.push(events::rows(b, x));
    }
    ctx.sig(n ^ base.rotate_left(20));
    ctx.count("histories of thousands of tables", 1);
    ctx.max("tables in force at once", n);
    ctx.count("row events on defined tables", 3004);
    crate::props::decode::run_file(ctx, r, evs, false)
}

/// Two or three readers used alternately.
fn interleaved(ctx: &mut Ctx, r: &mut Rng, ids: &[u64]) -> CaseResult {
    ctx.count("groups of readers used alternately", 1);
    let mut rd = vec![];
    for _ in 0..2 + r.usize(2) {
        let n = 3 + r.usize(20);
        let mut evs = table_history(ctx, r, ids, n);
        let crc = r.bool();
        evs.insert(0, fde("8.0.32", 40, Some(crc as u8)));
        lay_out(&mut evs, 4, crc);
        let b = file_bytes(&evs, &|i| i == 0 || crc);
        let f = memfile(&b);
        let one = lib(|| BinlogReader::new(f))?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
        rd.push((one, evs, crc, 0usize));
    }
    loop {
        let open: Vec<usize> = (0..rd.len()).filter(|i| rd[*i].3 < rd[*i].1.len()).collect();
        if open.is_empty() { break; }
        let i = *r.pick(&open);
        let (one, evs, crc, k) = &mut rd[i];
        let g = lib(|| one.next())?;
        let Some(g) = g else { return Err(format!("reader {} ended after {} of {} events", i, k, evs.len())) };
        check(&evs[*k], *k == 0 || *crc, &g).map_err(|m| format!("reader {} event {}: {}", i, k, m))?;
        *k += 1;
        ctx.count("events compared", 1);
    }
    Ok(())
}

/// Several sessions of one client: each starts without definitions.
fn sessions(ctx: &mut Ctx, r: &mut Rng, ids: &[u64], _idx: u64) -> CaseResult {
    let n = 2 + r.usize(2);
    let mut ss: Vec<(Vec<Ev>, bool)> = vec![];
    for _ in 0..n {
        let k = 3 + r.usize(15);
        let mut evs = table_history(ctx, r, ids, k);
        let crc = r.bool();
        if r.pct(30) { for _ in 0..1 + r.usize(2) { let at = r.usize(evs.len() + 1); evs.insert(at, fde("8.0.32", 42, if crc { Some(1) } else { None })); } }
        lay_out(&mut evs, 120, crc);
        ss.push((evs, crc));
    }
    ctx.count("clients with several sessions", 1);
    ctx.count("sessions", n as u64);
    let w = ctx.worker;
    let maria = r.bool();
    let blocking = r.bool();
    let (_, res) = server::with_server(w, |l| {
        for (evs, crc) in &ss {
            let mut cfg = server::cfg(maria);
            cfg.checksum = if *crc { "CRC32" } else { "NONE" }.into();
            net::serve_one(l, &cfg, |_| {}, |c, _, _| {
                let mut st = net::Stream::new(c);
                for e in evs { st.event(e, *crc)?; }
                st.put(&server::eof_body())
            });
        }
    }, |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&server::Cfg { blocking, ..server::cfg(maria) }, h, p, BinlogOptions::from_position("mysql-bin.000001".into(), 120)));
        let mut kept = vec![];
        for (i, (evs, crc)) in ss.iter().enumerate() {
            let mut st = net::replicate(&mut cl)?.map_err(|e| format!("session {}: replicate failed: {:?}", i, e))?;
            for (k, e) in evs.iter().enumerate() {
                let Some(g) = net::next(&mut st)? else { return Err(format!("session {} ended after {} of {} events", i, k, evs.len())) };
                check(e, *crc, &g).map_err(|m| format!("session {} event {}: {}", i, k, m))?;
                if let Ok((h, e)) = &g { lib(|| cl.commit(h, e))?; }
            }
            ensure!(net::next(&mut st)?.is_none(), "session {}: no end of stream", i);
            kept.push(st);
        }
        Ok(())
    });
    ctx.count("events compared", ss.iter().map(|s| s.0.len() as u64).sum());
    res
}

// ---- C11 ----

/// Events with content everywhere: any lost or added byte shows.
fn content(r: &mut Rng, n: usize) -> Vec<Ev> {
    let mut v = gen_events(r, n, true);
    let k = r.usize(30);
    v.push(heartbeat(&r.text_len(k)));
    v.push(query(&{ let k = 1 + r.usize(60); r.text_len(k) }));
    v.push(rotate(r.edge(64), &{ let k = r.usize(20); r.text_len(k) }));
    if r.bool() { v.push(annotate(&r.text_len(9))); }
    if r.bool() { v.push(prev_gtids(&gtid::gen_set(r, 2, 3, 1000))); }
    // rows whose last image ends exactly at the end of the event
    v.extend(gen_group(r, 5, true));
    v
}

/// Contents that end with what would be the checksum of the event: without checksums they are content.
fn own_checksum(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let aware = r.bool();
    let size = r.range(27, 198) as usize;
    let f = fde(if aware { "8.0.32" } else { "5.5.62" }, size, if aware { Some(0) } else { None });
    let mut evs = vec![f];
    for _ in 0..1 + r.usize(4) {
        let k = r.usize(30);
        let mut t: Vec<u8> = (0..k).map(|_| 32 + r.below(90) as u8).collect();
        t.extend(b"000000....");
        let text = String::from_utf8(t).unwrap();
        evs.push(match r.below(4) { 0 => annotate(&text), 1 => query(&text), 2 => rotate(4, &text), _ => heartbeat(&text) });
    }
    evs.push(xid(9));
    let crcs: Vec<bool> = (0..evs.len()).map(|i| i == 0 && aware).collect();
    lay_out_mixed(&mut evs, 4, &crcs);
    for e in evs.iter_mut().skip(1).filter(|e| e.ty != 16) {
        for n in 0..2000u32 {
            let k = e.body.len();
            e.body[k - 10..k - 4].copy_from_slice(format!("{:06}", n).as_bytes());
            let whole = enc::event(&e.hdr(false), &e.body, false);
            let sum = enc::crc32(&whole[..whole.len() - 4]).to_le_bytes();
            if !sum.is_ascii() || sum.contains(&0) { continue; }
            e.body[k - 4..].copy_from_slice(&sum);
            ctx.count("contents that end with their own checksum", 1);
            break;
        }
        // the text as it is now
        if let Exp::RowsQuery(t) | Exp::Heartbeat(t) | Exp::Query { sql: t, .. } = &mut e.exp { let k = e.body.len(); *t = String::from_utf8_lossy(&e.body[k - t.len()..]).into(); }
        if let Exp::Rotate(_, file) = &mut e.exp { *file = String::from_utf8_lossy(&e.body[8..]).into(); }
    }
    let b = file_bytes(&evs, &|i| crcs[i]);
    ctx.set_input(&b);
    ctx.sig_bytes(&b);
    expect_file(&evs, &|i| crcs[i], &b).map_err(|m| format!("a log without checksums whose texts end with their own CRC32: {}", m))
}

fn c11(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx % 200 == 99 { return own_checksum(ctx, r); }
    // every size of the format description, each with every setting
    let (size, alg) = if idx < 172 * 3 { (27 + (idx / 3) as usize, [None, Some(0u8), Some(1)][(idx % 3) as usize]) } else { (r.range(27, 198) as usize, *r.pick(&[None, Some(0), Some(1)])) };
    let version = *r.pick(&["8.0.32", "5.5.5-10.6.12-MariaDB-log", "5.7.40-log", "5.5.62", "10.11.2-MariaDB-1:10.11.2+maria~ubu2204", "vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv"]);
    let n = 1 + r.usize(8);
    let evs = content(r, n);
    let bodies: Vec<u8> = evs.iter().flat_map(|e| e.body.clone()).collect();
    ctx.sig_bytes(&[&bodies[..], &[size as u8, alg.unwrap_or(9)]].concat());
    ctx.sample(|| format!("format description for {} event types, algorithm {:?}, {} events", size, alg, evs.len()));
    ctx.count("lists of events", 1);
    let f = fde(version, size, alg);
    // the given rendering, then one with the opposite setting, then a log whose setting changes
    let mut alts: Vec<Vec<Part>> = vec![vec![(alg, f.clone(), evs.clone())]];
    let other = match alg { Some(1) => Some(0), _ => Some(1) };
    alts.push(vec![(other, fde(version, size, other), evs.clone())]);
    if r.bool() {
        let k = 2 + r.usize(3);
        let mut v = vec![];
        for _ in 0..k {
            let a = *r.pick(&[None, Some(0), Some(1)]);
            let m = r.usize(4);
            v.push((a, fde(version, r.range(27, 198) as usize, a), content(r, m)));
        }
        alts.push(v);
    }
    for parts in &alts {
        // as a file
        let (all, crcs) = flatten(parts, None);
        let mut all = all;
        lay_out_mixed(&mut all, 4, &crcs);
        let b = file_bytes(&all, &|i| crcs[i]);
        ctx.set_input(&b);
        expect_file(&all, &|i| crcs[i], &b).map_err(|m| format!("file, format description for {} types, checksums {:?}: {}", size, parts.iter().map(|p| p.0).collect::<Vec<_>>(), m))?;
        ctx.count("files read", 1);
        ctx.count("events compared", all.len() as u64);
    }
    if idx % 4 == 0 || r.pct(20) {
        for parts in &alts { stream11(ctx, r, parts)?; }
    }
    Ok(())
}

/// A format description with this algorithm byte (None: a server without checksums), and the events it governs.
type Part = (Option<u8>, Ev, Vec<Ev>);

fn flatten(parts: &[Part], before: Option<(&[Ev], bool)>) -> (Vec<Ev>, Vec<bool>) {
    let (mut all, mut crcs) = (vec![], vec![]);
    if let Some((evs, c)) = before { for e in evs { all.push(e.clone()); crcs.push(c); } }
    for (alg, f, evs) in parts {
        // a checksum-aware server writes the checksum field of its format description in any case
        all.push(f.clone());
        crcs.push(alg.is_some());
        for e in evs { all.push(e.clone()); crcs.push(*alg == Some(1)); }
    }
    (all, crcs)
}
fn lay_out_mixed(evs: &mut [Ev], start: usize, crc: &[bool]) {
    let mut p = start;
    for (e, c) in evs.iter_mut().zip(crc) { p += e.size(*c); e.next = p as u32; }
}

fn stream11(ctx: &mut Ctx, r: &mut Rng, parts: &[Part]) -> CaseResult {
    // negotiated at session set-up; events before the first format description follow it
    let neg = r.bool();
    let maria = r.bool();
    let mut pre = vec![rotate(r.edge(64), "mysql-bin.000001")];
    if r.pct(40) { let k = r.usize(5); pre.extend(content(r, k)); }
    let parts: &[Part] = if r.pct(15) { &[] } else { parts };
    let (mut all, crcs) = flatten(parts, Some((&pre, neg)));
    lay_out_mixed(&mut all, 4, &crcs);
    // events the server makes up have no position and are flagged
    let p = *r.pick(&[0u64, 50, 100]);
    for e in all.iter_mut() { if matches!(e.ty, 4 | 15 | 27) && r.pct(p) { e.next = 0; e.flags = *r.pick(&[0u16, 0x20, 0x20, 0x21]); e.ts = 0; } }
    let mut cfg = server::cfg(maria);
    cfg.blocking = r.bool();
    cfg.checksum = if neg { "CRC32" } else { "NONE" }.into();
    ctx.count("streams read", 1);
    ctx.count("events compared", all.len() as u64);
    let (_, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| {}, |c, _, _| {
        let mut st = net::Stream::new(c);
        for (e, c) in all.iter().zip(&crcs) { st.event(e, *c)?; }
        st.put(&server::eof_body())
    }), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, BinlogOptions::from_start()));
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate failed: {:?}", e))?;
        for (i, e) in all.iter().enumerate() {
            let Some(g) = net::next(&mut st)? else { return Err(format!("the stream ended after {} of {} events", i, all.len())) };
            check(e, crcs[i], &g).map_err(|m| format!("stream with checksum setting {} event {} of {}: {}", cfg.checksum, i, all.len(), m))?;
        }
        ensure!(net::next(&mut st)?.is_none(), "no end of stream");
        Ok(())
    });
    res
}

// ---- C12 ----

/// An event that is complete but cannot be decoded.
pub fn undecodable(r: &mut Rng) -> Ev {
    let mut e = match r.below(6) {
        0 => Ev::new(16, r.bytes(7), Exp::Err),
        1 => Ev::new(2, r.bytes(5), Exp::Err),
        2 => { let n = 1 + r.usize(30); let mut b = vec![0; 8]; b.extend(r.bad_utf8(n)); Ev::new(4, b, Exp::Err) }
        3 => { let t = gen_table(r, 987_654_321, vec![model::col(Kind::Int)]); let (b, x) = gen_rows(r, &t, &RowOpts { op: Op::Write, ver: 2, nrows: 2, full: true, null_pct: 0, extra: 0 }); let mut e = events::rows(b, x); e.exp = Exp::Err; e }
        4 => Ev::new(19, r.bytes(3), Exp::Err),
        _ => Ev::new(33, vec![1; 12], Exp::Err),
    };
    e.exp = Exp::Err;
    e
}

fn sized(r: &mut Rng, total: usize) -> Ev {
    let body = total.saturating_sub(enc::HEADER);
    if body >= 40 && r.pct(20) {
        // one that cannot be decoded
        let k = body - query("").body.len();
        let mut e = query(&r.text_len(k));
        let n = e.body.len();
        e.body[n - 1 - r.usize(k)] = 0xff;
        if r.bool() { e = Ev::new(30, e.body, Exp::Err); e.body[..6].copy_from_slice(&[0xee; 6]); }
        e.exp = Exp::Err;
        return e;
    }
    if body >= 20 && r.bool() {
        let mut e = query("");
        let k = body.saturating_sub(e.body.len());
        e = query(&r.text_len(k));
        return e;
    }
    unknown(gen_unknown_type(r), r.bytes(body))
}

fn small_log(r: &mut Rng) -> Vec<Ev> {
    let mut v = vec![query("BEGIN")];
    v.extend(gen_group(r, 9, true));
    v.push(undecodable(r));
    v.push(xid(77));
    v.push(unknown(3, vec![]));
    v.push(rotate(4, "mysql-bin.000002"));
    v
}

/// A file beyond 4 GiB (mostly holes), with events of known content all over it.
fn over_4g(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    use std::io::{Seek, SeekFrom, Write};
    let t = gen_table(r, 99, vec![model::col(Kind::Int), model::col(Kind::VarChar(20))]);
    let head = vec![fde("8.0.32", 40, Some(0)), table(&t)];
    let mut f = memfile(&[]);
    f.write_all(&MAGIC).expect("memfd write");
    let mut at = 4u64;
    let mut put = |b: &[u8], len: u64| { f.seek(SeekFrom::Start(at)).expect("seek"); f.write_all(b).expect("memfd write"); at += len; at };
    for e in &head { let b = e.bytes(matches!(e.exp, Exp::Fde { .. })); put(&b, b.len() as u64); }
    // what is expected after the head: the filler's length, or an event
    let mut want: Vec<Result<Ev, u32>> = vec![];
    let mut past = 0;
    while past < 12 {
        if past > 0 || r.pct(40) {
            let mut e = if r.pct(40) { let mut o = gen_opts(r); o.nrows = 2; let (b, x) = gen_rows(r, &t, &o); events::rows(b, x) } else { gen_plain(r) };
            if matches!(e.ty, 15) { continue; }
            e.next = r.u64() as u32;
            let b = e.bytes(false);
            put(&b, b.len() as u64);
            want.push(Ok(e));
        }
        if past > 0 { past += 1; continue; }
        let len = r.range(20 << 20, 160 << 20) as u32;
        let mut h = unknown(3, vec![]).bytes(false);
        h[4] = 200;
        h[9..13].copy_from_slice(&len.to_le_bytes());
        if put(&h, len as u64) > 1 << 32 { past = 1; }
        want.push(Err(len));
    }
    f.set_len(at).expect("memfd size");
    f.seek(SeekFrom::Start(0)).expect("seek");
    ctx.count("files of more than 4 GiB", 1);
    ctx.max("file bytes", at);
    ctx.sig(at);
    let mut rd = lib(|| BinlogReader::new(f))?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    for (i, e) in head.iter().enumerate() { let Some(g) = lib(|| rd.next())? else { return Err("no events".into()) }; check(e, matches!(e.exp, Exp::Fde { .. }), &g).map_err(|m| format!("event {}: {}", i, m))?; }
    for (i, w) in want.iter().enumerate() {
        let Some(g) = lib(|| rd.next())? else { return Err(format!("the iteration ended after {} of {} events of a file of {} bytes", i + 2, want.len() + 2, at)) };
        match w {
            Ok(e) => check(e, false, &g).map_err(|m| format!("file of {} bytes, event {}: {}", at, i + 2, m))?,
            Err(n) => match &g { Ok((h, mysql_cdc::events::binlog_event::BinlogEvent::UnknownEvent)) if h.event_length == *n => {} g => return Err(format!("file of {} bytes, event {} of {} bytes was reported as {:?}", at, i + 2, n, g)) },
        }
        ctx.count("events compared", 1);
    }
    ensure!(lib(|| rd.next())?.is_none(), "no end of iteration at the end of a file of {} bytes", at);
    Ok(())
}

/// Very many events.
fn many_events(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let (f, c0, crc) = lead(r);
    let n = r.range(66_000, 150_000) as usize;
    let t = gen_table(r, 99, vec![model::col(Kind::Tiny)]);
    let opts = RowOpts { op: Op::Write, ver: 2, nrows: 1, full: true, null_pct: 0, extra: 0 };
    let mut kinds: Vec<Ev> = vec![xid(5), heartbeat("mysql-bin.000001"), query("BEGIN"), undecodable(r)];
    for _ in 0..6 { let (b, x) = gen_rows(r, &t, &opts); kinds.push(events::rows(b, x)); }
    let mut evs = vec![f, table(&t)];
    while evs.len() < n { evs.push(r.pick(&kinds).clone()); }
    lay_out(&mut evs, 4, crc);
    let b = file_bytes(&evs, &|i| if i == 0 { c0 } else { crc });
    ctx.sig_bytes(&b);
    ctx.count("files of more than 65536 events", 1);
    ctx.count("events compared", n as u64);
    ctx.max("events in one file", n as u64);
    expect_file(&evs, &|i| if i == 0 { c0 } else { crc }, &b)
}

fn c12(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx % 30_000 == 5003 { return over_4g(ctx, r); }
    if idx % 12_000 == 4007 { return many_events(ctx, r); }
    // every cut of some logs
    if idx < 3500 {
        let mut s = Rng::new(7, 12, idx / 700);
        let (f, c0, crc) = lead(&mut s);
        let mut evs = small_log(&mut s);
        evs.insert(0, f);
        lay_out(&mut evs, 4, crc);
        let crcf = move |i: usize| if i == 0 { c0 } else { crc };
        let b = file_bytes(&evs, &crcf);
        let cut = (idx % 700) as usize;
        if cut <= b.len() { ctx.count("cut points enumerated", 1); return torn(ctx, &evs, &crcf, &b, cut); }
    }
    let (f, c0, crc) = lead(r);
    let crcf = move |i: usize| if i == 0 { c0 } else { crc };
    let n = match r.below(10) { 0 => 0, 1 => 1, 2 => 300 + r.usize(300), _ => 1 + r.usize(20) };
    let mut evs: Vec<Ev> = vec![];
    let limit = if ctx.thorough && r.pct(1) { 20 << 20 } else { 200_000 };
    let big = r.pct(30);
    while evs.len() < n {
        match r.below(6) {
            0 if r.pct(30) => { let t = gen_unknown_type(r); for _ in 0..1 + r.usize(3) { evs.push(unknown(t, vec![])); } }
            0 => { let e = undecodable(r); evs.push(e); }
            1 | 2 if big => {
                // sizes around buffers of every power of two
                let s = if r.pct(60) { let k = 32 * 1024; (k + r.usize(64)).saturating_sub(32) } else { r.edge_in(19, limit as u64) as usize };
                let e = sized(r, s);
                evs.push(e);
            }
            3 => { let id = r.below(50); let g = gen_group(r, id, true); evs.extend(g); }
            _ => { let e = gen_plain(r); evs.push(e); }
        }
    }
    if idx % 6000 == 4001 {
        // more than three bytes of length
        let e = sized(r, (1 << 24) + r.clone().usize(3 << 20));
        let at = r.usize(evs.len() + 1);
        evs.insert(at, e);
        evs.push(xid(3));
        ctx.count("events of 16 MB and more", 1);
    }
    let no_fde = r.pct(3);
    if !no_fde { evs.insert(0, f); }
    let crcf = move |i: usize| if no_fde { false } else { crcf(i) };
    let flags: Vec<bool> = (0..evs.len()).map(|i| crcf(i)).collect();
    lay_out_mixed(&mut evs, 4, &flags);
    // a relay log: the positions and times are those of another file
    match r.below(10) {
        0 => { evs = evs.into_iter().map(|e| e.with_header(r)).collect(); ctx.count("files with arbitrary headers", 1); }
        1 => { for e in evs.iter_mut() { if r.pct(30) { e.next = 0; e.flags |= 0x20; if r.bool() { e.ts = 0; } } } ctx.count("files with artificial events", 1); }
        _ => {}
    }
    let b = file_bytes(&evs, &crcf);
    ctx.set_input(&b);
    ctx.sig_bytes(&b);
    ctx.max("file bytes", b.len() as u64);
    match r.below(10) {
        0 => {
            // not a log at all
            let mut x = b.clone();
            let i = r.usize(4);
            match r.below(3) { 0 => x[i] ^= 1 << r.below(8), 1 => x.truncate(r.usize(4)), _ => { x = { let k = r.len(60); r.bytes(k) }; } }
            if x.len() >= 4 && x[..4] == MAGIC { return Ok(()); }
            ctx.count("files without signature", 1);
            match read_all(&x, 4)? { Err(_) => Ok(()), Ok(_) => Err("a file without the binlog signature was accepted".into()) }
        }
        1..=5 => {
            let cut = if r.bool() { r.usize(b.len() + 1) } else {
                // near an event boundary
                let mut p = 4;
                let k = r.usize(evs.len() + 1);
                for (i, e) in evs.iter().enumerate().take(k) { p += e.size(crcf(i)); }
                (p + r.usize(42)).saturating_sub(21).min(b.len())
            };
            torn(ctx, &evs, &crcf, &b, cut)
        }
        _ => {
            ctx.count("complete files", 1);
            ctx.count("events compared", evs.len() as u64);
            ctx.sample(|| format!("complete file of {} events, {} bytes, types {:?}", evs.len(), b.len(), evs.iter().take(12).map(|e| e.ty).collect::<Vec<_>>()));
            if r.pct(12) {
                // a header with an impossible length (space never written, for one) is not the end of the file
                let k = r.usize(evs.len() + 1);
                let at = 4 + (0..k).map(|i| evs[i].size(crcf(i))).sum::<usize>();
                let mut h = vec![0u8; 19];
                if r.bool() { h = r.bytes(19); h[9..13].copy_from_slice(&(r.below(19) as u32).to_le_bytes()); }
                let n = 1 + r.usize(3);
                let mut x = b[..at].to_vec();
                for _ in 0..n { x.extend(&h); }
                x.extend(&b[at..]);
                ctx.set_input(&x);
                ctx.count("impossible headers", 1);
                let out = read_all(&x, evs.len() + n + 6)?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
                for i in 0..k { check(&evs[i], crcf(i), out.items.get(i).ok_or("events are missing")?).map_err(|m| format!("event {}: {}", i, m))?; }
                return match out.items.get(k) {
                    Some(Err(_)) => Ok(()),
                    Some(Ok((h, _))) => Err(format!("an event of type {} was yielded for a header with an impossible length at byte {}", h.event_type, at)),
                    None => Err(format!("the iteration ended at byte {} of {}, at a header with an impossible length", at, x.len())),
                };
            }
            if !evs.is_empty() && r.pct(20) { return growing(ctx, r, &evs, &crcf, &b); }
            if r.pct(25) {
                let seed = r.u64();
                let Some(out) = read_piped(&b, evs.len() + 8, seed)? else { ctx.count("pipes without verdict", 1); return Ok(()); };
                ctx.count("files read in arbitrary pieces", 1);
                return expect_out(&evs, &crcf, out).map_err(|m| format!("read through a pipe in small pieces: {}", m));
            }
            expect_file(&evs, &crcf, &b)
        }
    }
}

/// The log is written to while it is read: whatever was appended before the reader came to the end is yielded.
fn growing(ctx: &mut Ctx, r: &mut Rng, evs: &[Ev], crc: &dyn Fn(usize) -> bool, b: &[u8]) -> CaseResult {
    use std::os::unix::fs::FileExt;
    let mut ends = vec![];
    let mut p = 4;
    for (i, e) in evs.iter().enumerate() { p += e.size(crc(i)); ends.push(p); }
    let file = memfile(&b[..4]);
    let writer = file.try_clone().map_err(|e| e.to_string())?;
    let mut there = 4;
    let mut appends = 0u64;
    let mut rd = lib(|| mysql_cdc::binlog_reader::BinlogReader::new(file))?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    for i in 0..evs.len() {
        if ends[i] > there || r.pct(20) {
            // up to the end of some event, or a part of one that is not yet due
            let to = ends[i + r.usize((evs.len() - i).min(4))];
            let to = (to + if r.bool() { r.usize(60) } else { 0 }).min(b.len()).max(there);
            writer.write_all_at(&b[there..to], there as u64).map_err(|e| e.to_string())?;
            there = to;
            appends += 1;
        }
        let Some(g) = lib(|| rd.next())? else { return Err(format!("the iteration ended before event {}, which had been appended to the file", i)) };
        check(&evs[i], crc(i), &g).map_err(|m| format!("event {} of a file that was appended to: {}", i, m))?;
    }
    ensure!(there == b.len(), "harness: {} of {} bytes written", there, b.len());
    ensure!(lib(|| rd.next())?.is_none(), "something was yielded after the last event");
    ctx.count("files appended to while read", 1);
    ctx.count("appends", appends);
    Ok(())
}

fn torn(ctx: &mut Ctx, evs: &[Ev], crc: &dyn Fn(usize) -> bool, b: &[u8], cut: usize) -> CaseResult {
    let x = &b[..cut];
    ctx.set_input(x);
    ctx.sig_bytes(x);
    ctx.count("torn files", 1);
    ctx.sample(|| format!("file of {} events and {} bytes cut after byte {}", evs.len(), b.len(), cut));
    let mut whole = 0;
    let mut p = 4;
    for (i, e) in evs.iter().enumerate() { p += e.size(crc(i)); if p <= cut { whole += 1; } else { break; } }
    let pipe = cut % 9 == 5;
    let out = if pipe { match read_piped(x, whole + 6, cut as u64)? { Some(o) => { ctx.count("files read in arbitrary pieces", 1); o } None => return Ok(()) } } else { read_all(x, whole + 6)? };
    let out = match out {
        Err(e) => { ensure!(cut < 4, "the reader rejected a log cut after {} bytes: {:?}", cut, e); return Ok(()); }
        Ok(o) => o,
    };
    ensure!(cut >= 4, "a file of {} bytes was accepted", cut);
    ctx.count("events compared", whole as u64);
    for i in 0..whole {
        let Some(g) = out.items.get(i) else { return Err(format!("cut after byte {}: only {} of {} complete events were yielded", cut, out.items.len(), whole)) };
        check(&evs[i], crc(i), g).map_err(|m| format!("cut after byte {}: event {}: {}", cut, i, m))?;
    }
    for g in &out.items[whole..] {
        if let Ok((h, _)) = g { return Err(format!("cut after byte {}: an event of type {} was yielded for the incomplete tail", cut, h.event_type)); }
    }
    ensure!(out.ended, "cut after byte {}: the iteration does not end", cut);
    Ok(())
}
