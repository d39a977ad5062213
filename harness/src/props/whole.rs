//! C25 C26 C27 C28: independence, promptness, resources of long runs, commits of whatever was received.
use super::commit::{self, group, record, G, KINDS};
use super::hostile;
use crate::ensure;
use crate::events::*;
use crate::gtid::{self, MSet, Uuid as U};
use crate::mon::{self, lib, CaseResult, Ctx};
use crate::net;
use crate::props::decode::lead;
use crate::rng::Rng;
use crate::server::{self, Cfg, Cmd};
use crate::{Prop, WORKERS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_events::BinlogEvents;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use mysql_cdc::starting_strategy::StartingStrategy;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C25", case: c25, quick: 20_000, thorough: 400_000, workers: WORKERS, min: 400, level: "exploration",
            rule: "A case opens two to five clients and readers at once, over histories with the same table ids, other definitions, other checksum settings and other positions, and consumes them interleaved in one thread or in parallel threads with random pauses; every event, and every recorded position after every commit, must be what that client's own history gives; each session must carry its own client's user, database, server id and heartbeat interval, servers have different keys, and some groups contain a client that is refused. Distinct by (histories, interleaving seed).",
            assumptions: &["parallel interleavings are those the scheduler gives, with random pauses"] },
        Prop { id: "C26", case: c26, quick: 20_000, thorough: 400_000, workers: WORKERS * 3, min: 300, level: "exploration",
            rule: "A mock server sends each packet (events of all kinds and sizes, error packets, end of stream) only after the consumer reported the item of the one before, with the packet's last byte held back or not; an item that is not yielded within 8 s although its packet is complete, three times in a row, is a violation. Distinct by stream.",
            assumptions: &["8 s without further bytes is taken as waiting for the next packet (the client's own limit is set far above)"] },
        Prop { id: "C27", case: c27, quick: 12_000, thorough: 240_000, workers: WORKERS * 2, min: 200, level: "exploration",
            rule: "A case repeats one block of history up to 60 times through a reader or a stream with commits, or repeats a cycle of sessions with every kind of ending, and compares the memory allocated by the library after every repetition with that after the second one; the mock server must see each connection closed within 10 s after the client is done with it. Distinct by (block, kind).",
            assumptions: &["a table definition may be kept for every table id seen: the repeated blocks use the same ids", "memory allocated inside OpenSSL is not counted"] },
        Prop { id: "C28", case: c28, quick: 60_000, thorough: 1_200_000, workers: WORKERS, min: 2_000, level: "exploration",
            rule: "A case decodes a log of damaged and extreme events in arbitrary order and commits every event that was yielded to clients of every starting mode; observed are panics, that the GTID position holds the start plus only GTIDs announced by committed events, in canonical form, that the file coordinates are ones a committed event carried, and that a following replicate() returns and requests the position held or refuses. Distinct by the log's bytes.",
            assumptions: &["positions outside 1..2^63-2 cannot come from a real server; for them only the absence of panics and of inventions is judged"] },
    ]
}

// ---- C25 ----

/// One history with its own client or reader.
struct One { evs: Vec<Ev>, crcs: Vec<bool>, cfg: Cfg, file: bool, start: usize, marks: Vec<(MSet, BTreeMap<u32, (u32, u64)>)>, seed: u64, sid: u32, db: Option<String>, interval: Duration }

fn build(r: &mut Rng, ids: &[u64], pool: &[U], file: bool) -> One {
    let maria = r.bool();
    let mut evs = vec![];
    let mut my = MSet::default();
    let mut ma = BTreeMap::new();
    let mut marks = vec![];
    let n = 2 + r.usize(6);
    for i in 0..n {
        let g = if maria { G::Ma(r.below(2) as u32, 1, 1 + i as u64) } else { G::My(*r.pick(pool), 1 + i as u64 * r.range(1, 2)) };
        let kind = loop { let k = r.usize(KINDS); if k != 8 && k != 9 { break k; } };
        let gr = group(r, g, kind, false);
        let last = gr.evs.len() - 1;
        for (k, e) in gr.evs.into_iter().enumerate() {
            evs.push(e);
            if k == last { record(&mut my, &mut ma, &g); }
            marks.push((my.clone(), ma.clone()));
        }
        // the same ids with other definitions
        let id = *r.pick(ids);
        if r.pct(50) && !evs.iter().any(|e: &Ev| matches!(&e.exp, Exp::Table(t) if t.id == id)) {
            // not defined here, but perhaps by another source
            let mut g = gen_group(r, id, true);
            g.retain(|e| matches!(e.exp, Exp::Rows(_)));
            for mut e in g { e.exp = Exp::Err; evs.push(e); marks.push((my.clone(), ma.clone())); }
        }
        for e in gen_group(r, id, true) { evs.push(e); marks.push((my.clone(), ma.clone())); }
    }
    // without a format description there are no checksums
    let bare = file && r.pct(20);
    let crc = r.bool() && !bare;
    let mut crcs = vec![crc; evs.len()];
    if file && !bare { evs.insert(0, fde("8.0.32", 40, Some(crc as u8))); crcs.insert(0, true); marks.insert(0, Default::default()); }
    let mut p = 4;
    for (e, c) in evs.iter_mut().zip(&crcs) { p += e.size(*c); e.next = p as u32; }
    let mut cfg = server::cfg(maria);
    cfg.checksum = if crc { "CRC32" } else { "NONE" }.into();
    cfg.password = r.text(20);
    cfg.account = if r.bool() { server::NATIVE } else { server::SHA2 }.into();
    cfg.plugin = if r.bool() { server::NATIVE } else { server::SHA2 }.into();
    cfg.scramble = server::gen_scramble(r);
    cfg.scramble2 = server::gen_scramble(r);
    cfg.blocking = r.bool();
    cfg.cached = r.bool();
    cfg.user = r.text(12);
    let db = if r.bool() { Some(r.text(12)).filter(|d| !d.is_empty()) } else { None };
    let interval = net::INTERVAL + Duration::from_millis(r.below(20_000));
    One { evs, crcs, cfg, file, start: 0, marks, seed: r.u64(), sid: r.range(1, u32::MAX as u64) as u32, db, interval }
}

/// Whether clients, streams and readers may be handed to other threads, by the compiler's word.
const MOVES: bool = {
    trait No { const SEND: bool = false; }
    impl<T> No for T {}
    struct Is<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    impl<T: Send> Is<T> { const SEND: bool = true; }
    <Is<BinlogClient>>::SEND && <Is<BinlogEvents>>::SEND && <Is<BinlogReader>>::SEND
};
/// Only used where `MOVES` holds.
struct Moved<'a>(&'a mut Src);
unsafe impl Send for Moved<'_> {}

enum Src { Stream(BinlogClient, BinlogEvents), File(BinlogReader) }

impl One {
    fn open(&self, host: &str, port: u16) -> Result<Src, String> {
        if self.file {
            let b = file_bytes(&self.evs, &|i| self.crcs[i]);
            let f = memfile(&b);
            return Ok(Src::File(lib(|| BinlogReader::new(f))?.map_err(|e| format!("the reader rejected the file: {:?}", e))?));
        }
        let b = if self.cfg.maria { BinlogOptions::from_mariadb_gtid(GtidList::new()) } else { BinlogOptions::from_mysql_gtid(GtidSet::new()) };
        let mut cl = BinlogClient::new(ReplicaOptions { server_id: self.sid, database: self.db.clone(), heartbeat_interval: self.interval, ..net::options(&self.cfg, host, port, b) });
        let st = net::replicate(&mut cl)?.map_err(|e| format!("replicate: {:?}", e))?;
        Ok(Src::Stream(cl, st))
    }
    /// Takes the next item; true at the end.
    fn step(&self, s: &mut Src, k: usize) -> Result<bool, String> {
        let g = match s { Src::File(f) => lib(|| f.next())?, Src::Stream(_, st) => net::next(st)? };
        if k == self.evs.len() { ensure!(g.is_none(), "an item after the end"); return Ok(true); }
        let Some(g) = g else { return Err(format!("ended after {} of {} events", k, self.evs.len())) };
        check(&self.evs[k], self.crcs[k], &g).map_err(|m| format!("event {}: {}", k, m))?;
        if let (Src::Stream(cl, _), Ok((h, e))) = (s, &g) {
            lib(|| cl.commit(h, e))?;
            let (my, ma) = &self.marks[k];
            commit::check_position(cl, self.cfg.maria, my, ma).map_err(|m| format!("after committing event {}: {}", k, m))?;
        }
        Ok(false)
    }
}

/// What a session asked for is what its own client is configured with.
fn asked25(o: &One, s: &server::Session) -> CaseResult {
    ensure!(s.user == o.cfg.user.as_bytes(), "logged in as {:?}, not as {:?}", String::from_utf8_lossy(&s.user), o.cfg.user);
    ensure!(s.db.clone().unwrap_or_default() == o.db.clone().unwrap_or_default().as_bytes(), "database {:?}, not {:?}", s.db, o.db);
    let sid = match &s.dump { Some(server::Cmd::Dump { sid, .. } | server::Cmd::DumpGtid { sid, .. }) => *sid, d => return Err(format!("requested {:?}", d)) };
    if o.cfg.blocking { ensure!(sid == o.sid, "the request carries server id {}, not {}", sid, o.sid); }
    let hb = s.vars.get("master_heartbeat_period").or(s.vars.get("source_heartbeat_period")).and_then(|x| x.trim_matches('\'').parse::<u128>().ok());
    ensure!(hb == Some(o.interval.as_nanos()), "asked for a heartbeat period of {:?}, not {:?}", hb, o.interval);
    Ok(())
}

fn serve25(o: &One, mut c: server::Conn, wrong: &Mutex<Option<String>>) {
    let mut s = server::Session::default();
    let mut r = Rng::new(o.seed, 25, 0);
    if let Ok(Some(_)) = server::session(&mut c, &o.cfg, &mut s) {
        if let Err(m) = asked25(o, &s) { wrong.lock().unwrap().get_or_insert(m); }
        let mut st = net::Stream::new(&mut c);
        for (e, crc) in o.evs.iter().zip(&o.crcs) {
            if st.event(e, *crc).is_err() { return; }
            if r.pct(3) { std::thread::sleep(Duration::from_micros(r.below(300))); }
        }
        let _ = st.put(&server::eof_body());
    }
}

fn c25(ctx: &mut Ctx, r: &mut Rng, _idx: u64) -> CaseResult {
    let n = 2 + r.usize(4);
    let ids: Vec<u64> = (0..1 + r.usize(3)).map(|i| 100 + i as u64).collect();
    let pool = gtid::gen_pool(r, 2);
    let ones: Vec<One> = (0..n).map(|_| { let f = r.pct(35); build(r, &ids, &pool, f) }).collect();
    let parallel = r.bool();
    let seed = r.u64();
    let moving = MOVES && r.pct(30);
    for o in &ones { ctx.count("events compared", o.evs.len() as u64); ctx.count(if o.file { "readers" } else { "clients" }, 1); }
    ctx.count(if parallel { "groups in parallel threads" } else { "groups interleaved in one thread" }, 1);
    if moving { ctx.count("groups handed from thread to thread", 1); }
    ctx.sig(seed ^ ones.iter().map(|o| o.seed).fold(0u64, |a, b| a.rotate_left(5) ^ b));
    ctx.sample(|| format!("{} sources, parallel {}, event counts {:?}", n, parallel, ones.iter().map(|o| o.evs.len()).collect::<Vec<_>>()));
    let lsn: Vec<server::Lsn> = (0..n).map(|i| server::listen(100 + ctx.worker * 8 + i)).collect();
    let wrong = Mutex::new(None);
    let w = &wrong;
    // sessions that fail stay alone with their failure
    let failing = r.pct(15);
    let bad = failing.then(|| { let mut o = build(r, &ids, &pool, false); o.cfg.deny = true; o });
    if failing { ctx.count("groups with a refused client", 1); }
    let bad_lsn = failing.then(|| server::listen(100 + ctx.worker * 8 + 7));
    let refused = || -> CaseResult {
        if let (Some(o), Some(l)) = (&bad, &bad_lsn) { ensure!(o.open(&l.host, l.port).is_err(), "a refused client was started"); }
        Ok(())
    };
    std::thread::scope(|sc| {
        for (o, l) in ones.iter().zip(&lsn) { if !o.file { sc.spawn(move || { if let Some(c) = l.accept() { serve25(o, c, w); } }); } }
        if let (Some(o), Some(l)) = (&bad, &bad_lsn) { sc.spawn(move || { if let Some(mut c) = l.accept() { c.short_wait = true; let _ = server::session(&mut c, &o.cfg, &mut server::Session::default()); } }); }
        let res = (|| -> CaseResult {
            if parallel {
                let hr = sc.spawn(&refused);
                let hs: Vec<_> = ones.iter().zip(&lsn).enumerate().map(|(i, (o, l))| sc.spawn(move || -> CaseResult {
                    let mut r = Rng::new(seed, 26, i as u64);
                    let mut s = o.open(&l.host, l.port)?;
                    let mut k = o.start;
                    loop {
                        // every part in a thread of its own
                        let part = if moving { r.usize(6) } else { usize::MAX };
                        let src = Moved(&mut s);
                        let (k, r) = (&mut k, &mut r);
                        let run = move || -> Result<bool, String> {
                            let src = src;
                            let mut left = part;
                            loop {
                                if left == 0 { return Ok(false); }
                                left -= 1;
                                if o.step(src.0, *k)? { return Ok(true); }
                                *k += 1;
                                if r.pct(5) { std::thread::sleep(Duration::from_micros(r.below(200))); }
                            }
                        };
                        let end = if moving { std::thread::scope(|t| t.spawn(run).join().unwrap_or_else(|_| Err("a client thread panicked".into()))) } else { run() };
                        if end? { return Ok(()); }
                    }
                })).collect();
                let rs: Vec<CaseResult> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a client thread panicked".into()))).collect();
                hr.join().unwrap_or_else(|_| Err("a client thread panicked".into()))?;
                for (i, x) in rs.into_iter().enumerate() { x.map_err(|m| format!("{} sources in parallel threads, source {} ({}): {}", n, i, if ones[i].file { "file" } else { "client" }, m))?; }
                return Ok(());
            }
            let mut r = Rng::new(seed, 26, 99);
            let mut open: Vec<Option<Src>> = (0..n).map(|_| None).collect();
            let mut at = vec![0usize; n];
            let mut left: Vec<usize> = (0..n).collect();
            let mut when = r.usize(12);
            while !left.is_empty() {
                if failing { if when == 0 { refused()?; } when = when.wrapping_sub(1); }
                let j = r.usize(left.len());
                let i = left[j];
                let f = |m: String| format!("{} sources used alternately, source {} ({}): {}", n, i, if ones[i].file { "file" } else { "client" }, m);
                if open[i].is_none() { open[i] = Some(ones[i].open(&lsn[i].host, lsn[i].port).map_err(f)?); continue; }
                for _ in 0..1 + r.usize(3) {
                    let end = if moving && r.pct(30) { let (o, s, k) = (&ones[i], Moved(open[i].as_mut().unwrap()), at[i]); std::thread::scope(|t| t.spawn(move || { let s = s; o.step(s.0, k) }).join().unwrap_or_else(|_| Err("a client thread panicked".into()))) } else { ones[i].step(open[i].as_mut().unwrap(), at[i]) };
                    if end.map_err(f)? { left.remove(j); if r.bool() { open[i] = None; } break; }
                    at[i] += 1;
                }
            }
            Ok(())
        })();
        for l in lsn.iter().chain(&bad_lsn) { l.stop.store(true, std::sync::atomic::Ordering::SeqCst); }
        res
    })?;
    if let Some(m) = wrong.into_inner().unwrap() { return Err(format!("{} sources at once, a session: {}", n, m)); }
    Ok(())
}

// ---- C26 ----

fn c26(ctx: &mut Ctx, r: &mut Rng, _idx: u64) -> CaseResult {
    let crc = r.bool();
    let mut cfg = server::cfg(r.bool());
    cfg.checksum = if crc { "CRC32" } else { "NONE" }.into();
    cfg.blocking = r.bool();
    let n = 1 + r.usize(12);
    let mut evs: Vec<Ev> = vec![];
    while evs.len() < n {
        match r.below(8) {
            0 => { let m = if r.pct(5) { 3_000_000 } else { 70_000 }; let k = r.edge_in(0, m) as usize; let t = gen_unknown_type(r); evs.push(unknown(t, vec![7; k])); }
            1 => evs.push(heartbeat("mysql-bin.000004")),
            2 => { let id = r.below(9); evs.extend(gen_group(r, id, true)); }
            3 => evs.extend([query("BEGIN"), xid(5)]),
            4 => { evs.push(rotate(4, "mysql-bin.000005")); }
            _ => evs.push(gen_plain(r)),
        }
    }
    lay_out(&mut evs, 4, crc);
    let mut pk: Vec<Vec<u8>> = evs.iter().map(|e| net::event_packet(e, crc)).collect();
    let end_error = r.pct(25);
    pk.push(if end_error { { let e = r.pick(&server::ERRORS); server::err_body(e.0, Some(e.1), e.2) } } else { server::eof_body() });
    let split = r.u64();
    ctx.count("packets sent one at a time", pk.len() as u64);
    ctx.sig_bytes(&pk.concat());
    ctx.sample(|| format!("{} packets of {:?} bytes", pk.len(), pk.iter().take(12).map(|p| p.len()).collect::<Vec<_>>()));
    let mut last = String::new();
    for _ in 0..3 {
        let (tx, rx) = mpsc::channel::<usize>();
        let (cfg, pk) = (&cfg, &pk);
        let (late, res) = server::with_server(ctx.worker, move |l| l.accept().and_then(|mut c| {
            let mut s = server::Session::default();
            let Ok(Some(_)) = server::session(&mut c, cfg, &mut s) else { return None };
            let mut r = Rng::new(split, 3, 3);
            let mut late = None;
            if rx.recv_timeout(Duration::from_secs(8)).is_err() { return Some(usize::MAX); }
            for (k, p) in pk.iter().enumerate() {
                let whole = server::packet((k + 1) as u8, p);
                let hold = if r.bool() { 1 + r.usize(whole.len().min(40)) } else { 0 };
                let cut = whole.len() - hold.min(whole.len() - 1);
                if c.send_raw(&whole[..cut]).is_err() { return late; }
                if cut < whole.len() { if r.pct(30) { std::thread::sleep(Duration::from_micros(r.below(500))); } if c.send_raw(&whole[cut..]).is_err() { return late; } }
                if late.is_none() && rx.recv_timeout(Duration::from_secs(8)).is_err() { late = Some(k); }
            }
            late
        }), |h, p| -> Result<usize, String> {
            let mut cl = BinlogClient::new(net::options(cfg, h, p, BinlogOptions::from_start()));
            let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate: {:?}", e))?;
            let _ = tx.send(0);
            for (i, e) in evs.iter().enumerate() {
                let Some(g) = net::next(&mut st)? else { return Err(format!("the stream ended after {} of {} events", i, evs.len())) };
                check(e, crc, &g).map_err(|m| format!("event {}: {}", i, m))?;
                let _ = tx.send(i);
                if let Ok((h, e)) = &g { lib(|| cl.commit(h, e))?; }
            }
            match net::next(&mut st)? { None => ensure!(!end_error, "the error packet was not reported"), Some(Err(_)) => ensure!(end_error, "an error at the end of the stream"), Some(Ok(_)) => return Err("an item after the last event".into()) }
            let _ = tx.send(evs.len());
            Ok(evs.len())
        });
        res?;
        match late {
            None => { ctx.count("streams", 1); return Ok(()); }
            Some(usize::MAX) => last = "replicate() did not return within 8 s of its stream request, before any event was sent".into(),
            Some(k) => last = format!("packet {} of {} was not yielded within 8 s of its last byte, only after more was sent", k, evs.len() + 1),
        }
    }
    Err(format!("{} (three times)", last))
}

// ---- C27 ----

/// The events, and the number of groups.
fn block(r: &mut Rng, maria: bool) -> (Vec<Ev>, u64) {
    let mut evs = vec![];
    if r.pct(12) {
        // nothing but events which cannot be decoded, of one kind or of several; rows of tables never defined
        for _ in 0..1 + r.usize(6) {
            let mut e = crate::props::history::undecodable(r);
            if r.pct(30) { e.ty = *r.pick(&DECODED); if matches!(e.ty, 15 | 35 | 160 | 27 | 29 | 163) { e.ty = 5; } e.body.truncate(4); e.exp = Exp::Err; }
            let k = match r.below(3) { 0 => 1, 1 => 30, _ => r.usize(200) };
            for _ in 0..k { evs.push(e.clone()); }
        }
        if evs.is_empty() { evs.push(xid(1)); }
        return (evs, 1);
    }
    let n = 1 + r.usize(5);
    for i in 0..n {
        let g = if maria { G::Ma(0, 1, 100_000 + i as u64) } else { G::My([7; 16], 100_000 + i as u64) };
        // an interrupted group leaves a gap, which has to be kept
        let kind = loop { let k = r.usize(KINDS); if k != 8 && k != 9 { break k; } };
        // table ids 100..106: the same in every repetition
        evs.extend(group(r, g, kind, false).evs);
    }
    for _ in 0..r.usize(6) { match r.below(4) { 0 => evs.push(heartbeat("mysql-bin.000004")), 1 => { let k = r.edge_in(0, 40_000) as usize; evs.push(unknown(200, vec![1; k])) } 2 => evs.push(rotate(4, "mysql-bin.000004")), _ => { let e = gen_plain(r); if !matches!(e.ty, 15 | 33 | 162) { evs.push(e); } } } }
    if r.pct(30) { let mut e = xid(1); e.body.truncate(3); e.exp = Exp::Err; evs.push(e); }
    (evs, n as u64)
}

fn grown(ctx: &mut Ctx, what: &str, live: &[isize]) -> CaseResult {
    let base = live[1];
    let m = live[2..].iter().max().copied().unwrap_or(base);
    ctx.max("bytes grown after the second repetition", (m - base).max(0) as u64);
    ctx.count("repetitions", live.len() as u64);
    ensure!(m - base <= 1024, "{}: the library holds {} bytes after the second repetition and {} after {} repetitions of the same", what, base, live[live.len() - 1], live.len());
    Ok(())
}

fn c27(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    match idx % 3 { 0 => c27_file(ctx, r), 1 => c27_stream(ctx, r), _ => c27_sessions(ctx, r) }
}

/// Other names and values of the same length in every repetition: nothing is seen twice.
fn other_text(e: &mut Ev, k: u64) {
    fn digits(b: &mut [u8], k: u64) {
        let n = b.len();
        if n >= 6 && b[n - 6..].is_ascii() && (n == 6 || b[n - 7].is_ascii()) { b[n - 6..].copy_from_slice(format!("{:06}", k % 1_000_000).as_bytes()); }
    }
    match (e.ty, &e.exp) {
        (_, Exp::Err) => {}
        (4, _) => digits(&mut e.body[8..], k),
        (27, _) | (160, _) => digits(&mut e.body, k),
        (29, _) => digits(&mut e.body[1..], k),
        (14, _) => { let n = u32::from_le_bytes(e.body[..4].try_into().unwrap()) as usize; digits(&mut e.body[4..4 + n], k) }
        (19, _) => { let n = e.body[8] as usize; digits(&mut e.body[9..9 + n], k); let m = e.body[10 + n] as usize; digits(&mut e.body[11 + n..11 + n + m], k) }
        (2, Exp::Query { sql, .. }) if sql.len() > 20 && ["INSERT", "UPDATE", "DELETE", "CREATE", "REPLACE"].iter().any(|w| sql.starts_with(w)) => { let n = e.body.len() - sql.len(); digits(&mut e.body[n..], k) }
        (16, _) => e.body[..8].copy_from_slice(&k.to_le_bytes()),
        (5, _) => e.body[1..9].copy_from_slice(&k.to_le_bytes()),
        (200, _) => { let t = k.to_le_bytes(); let n = e.body.len().min(8); e.body[..n].copy_from_slice(&t[..n]) }
        _ => {}
    }
}

/// One block repeated, GTID numbers counting on.
fn repeated(r: &mut Rng, maria: bool, reps: usize, crc: bool) -> (Vec<Vec<Vec<u8>>>, usize) {
    let (b, groups) = block(r, maria);
    let vary = r.bool();
    let n = b.len();
    let mut out = vec![];
    for k in 0..reps as u64 {
        out.push(b.iter().map(|e| {
            let mut e = e.clone();
            if vary { other_text(&mut e, k); }
            // contiguous numbers: the position does not grow
            match (e.ty, &e.exp) {
                (_, Exp::Err) => {}
                (33, _) => { let x = u64::from_le_bytes(e.body[17..25].try_into().unwrap()) + k * groups; e.body[17..25].copy_from_slice(&x.to_le_bytes()); }
                (162, _) => { let x = u64::from_le_bytes(e.body[..8].try_into().unwrap()) + k * groups; e.body[..8].copy_from_slice(&x.to_le_bytes()); }
                _ => {}
            }
            e.bytes(crc)
        }).collect());
    }
    (out, n)
}

fn c27_file(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let (f, c0, crc) = lead(r);
    let reps = 10 + r.usize(50);
    let maria = r.bool();
    let (bl, n) = repeated(r, maria, reps, crc);
    let mut b = MAGIC.to_vec();
    b.extend(f.bytes(c0));
    for x in bl.iter().flatten() { b.extend(x); }
    ctx.sig_bytes(&b);
    ctx.count("files with a repeated block", 1);
    ctx.sample(|| format!("file: block of {} events, {} times", n, reps));
    let file = memfile(&b);
    let mut rd = lib(|| BinlogReader::new(file))?.map_err(|e| format!("{:?}", e))?;
    let mut cl = if maria { BinlogClient::new(ReplicaOptions { binlog: BinlogOptions::from_mariadb_gtid(GtidList::new()), ..Default::default() }) } else { BinlogClient::new(ReplicaOptions { binlog: BinlogOptions::from_mysql_gtid(set(&contiguous())?), ..Default::default() }) };
    lib(|| drop(rd.next()))?;
    let mut live = vec![];
    for _ in 0..reps {
        for _ in 0..n {
            lib(|| match rd.next() { Some(Ok((h, e))) => { cl.commit(&h, &e); Ok(()) } Some(Err(_)) => Ok(()), None => Err("the file ended early".to_string()) })??;
        }
        live.push(mon::alloc_live());
    }
    ctx.count("events read", (reps * n) as u64);
    grown(ctx, "reading a file", &live)?;
    lib(|| { drop(rd); drop(cl) })?;
    Ok(())
}
/// All numbers the blocks can use.
fn contiguous() -> MSet { let mut m = MSet::default(); m.add_interval([7; 16], 1, 99_999); m }
fn set(m: &MSet) -> Result<GtidSet, String> { let t = m.text(); lib(|| GtidSet::parse(&t))?.map_err(|e| format!("{:?}: {:?}", t, e)) }

fn c27_stream(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let crc = r.bool();
    let maria = r.bool();
    let reps = 10 + r.usize(30);
    let (bl, n) = repeated(r, maria, reps, crc);
    let mut cfg = server::cfg(maria);
    cfg.checksum = if crc { "CRC32" } else { "NONE" }.into();
    cfg.blocking = r.bool();
    ctx.sig_bytes(&bl[0].concat());
    ctx.count("streams with a repeated block", 1);
    ctx.count("events read", (reps * n) as u64);
    let gtids = r.bool();
    let mut live = vec![];
    let (_, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| {}, |c, _, _| {
        let mut st = net::Stream::new(c);
        for e in bl.iter().flatten() { let mut v = vec![0u8]; v.extend(e); st.put(&v)?; }
        st.put(&server::eof_body())
    }), |h, p| -> CaseResult {
        let o = if !gtids { BinlogOptions::from_start() } else if maria { BinlogOptions::from_mariadb_gtid(GtidList::new()) } else { BinlogOptions::from_mysql_gtid(set(&contiguous())?) };
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, o));
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate: {:?}", e))?;
        for _ in 0..reps {
            for _ in 0..n {
                lib(|| match st.next() { Some(Ok((h, e))) => { cl.commit(&h, &e); Ok(()) } Some(Err(mysql_cdc::errors::Error::IoError(e))) if e.raw_os_error().is_some() => Err(format!("{:?}", e)), Some(Err(_)) => Ok(()), None => Err("the stream ended early".to_string()) })??;
            }
            live.push(mon::alloc_live());
        }
        lib(|| { drop(st); drop(cl) })?;
        Ok(())
    });
    res?;
    grown(ctx, "reading a stream", &live)
}

fn c27_sessions(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let maria = r.bool();
    // one cycle of sessions: how each ends
    let cycle: Vec<u64> = (0..1 + r.usize(4)).map(|_| r.below(12)).collect();
    let reps = 4 + r.usize(4);
    let plugin = if r.bool() { server::NATIVE } else { server::SHA2 };
    ctx.sig(crate::rng::hash_str(&format!("{} {:?} {} {}", maria, cycle, reps, plugin)) ^ r.u64());
    ctx.count("sessions", (cycle.len() * reps) as u64);
    ctx.sample(|| format!("sessions ending {:?}, {} times", cycle, reps));
    let cfgs: Vec<Cfg> = cycle.iter().map(|k| {
        let mut c = server::cfg(maria);
        c.plugin = plugin.into();
        c.account = plugin.into();
        c.checksum = "NONE".into();
        match k { 0 => c.deny = true, 1 => c.refuse = Some((r.usize(4), 0)), 2 => c.greet_error = true, 6 => c.account = "sha256_password".into(), 7 => c.plugin = "sha256_password".into(),
            8 => c.checksum = "SHA999".into(), 10 => { c.account = server::SHA2.into(); c.cached = false; c.pem = Some(b"no key".to_vec()); } _ => {} }
        c
    }).collect();
    let (tx, rx) = mpsc::channel::<()>();
    let rx = Mutex::new(rx);
    let mut live = vec![];
    let ids: Vec<Ev> = gen_group(r, 3, true);
    let blocking = r.bool();
    // the server closes nothing itself before the client is done
    let (open, res) = server::with_server(ctx.worker, |l| -> Option<String> {
        for s in 0..cycle.len() * reps {
            let k = cycle[s % cycle.len()];
            let cfg = &cfgs[s % cycle.len()];
            let Some(mut c) = l.accept() else { return None };
            let mut se = server::Session::default();
            if k == 3 { c.cut = Some(100); }
            if k == 9 { c.mutate = Some((0, Box::new(|q, b| server::packet(q, &b[..b.len().min(12)])))); }
            if let Ok(Some(_)) = server::session(&mut c, cfg, &mut se) {
                let mut st = net::Stream::new(&mut c);
                for e in &ids { let _ = st.event(e, false); }
                if k == 4 { let _ = st.put(&server::eof_body()); }
                if k == 5 { let _ = st.put(&server::err_body(1236, Some("HY000"), "gone")); }
            }
            // the client says when it is done
            if rx.lock().unwrap().recv_timeout(Duration::from_secs(100)).is_err() { return None; }
            let t = Instant::now();
            let _ = c.s.set_read_timeout(Some(Duration::from_secs(10)));
            let mut b = [0u8; 512];
            loop {
                match c.s.read(&mut b) {
                    Ok(0) => break,
                    Ok(_) if t.elapsed() < Duration::from_secs(10) => {}
                    Err(e) if !matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => break,
                    _ => {
                        // nothing more is served
                        while let Some(c) = l.accept() { drop(c); }
                        return Some(format!("session {} (ending {}): the connection is still open 10 s after the client was done with it", s, k));
                    }
                }
            }
        }
        None
    }, |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&cfgs[0], h, p, BinlogOptions::from_position("mysql-bin.000001".into(), 120)));
        for _ in 0..reps {
            for k in &cycle {
                // a GTID start without a GTID position
                cl.options.binlog.starting_strategy = if *k == 11 { StartingStrategy::FromGtid } else { StartingStrategy::FromPosition };
                cl.options.blocking = blocking;
                lib(|| {
                    if let Ok(mut st) = cl.replicate() {
                        let mut n = 0;
                        while let Some(Ok((h, e))) = st.next() { cl.commit(&h, &e); n += 1; if n == ids.len() { break; } }
                    }
                })?;
                let _ = tx.send(());
            }
            live.push(mon::alloc_live());
        }
        lib(|| drop(cl))?;
        Ok(())
    });
    res?;
    if let Some(m) = open { return Err(m); }
    grown(ctx, &format!("sessions ending {:?}", cycle), &live)
}

// ---- C28 ----

fn extreme(r: &mut Rng) -> u64 { match r.below(4) { 0 => r.below(4), 1 => u64::MAX - r.below(3), 2 => (1u64 << 63).wrapping_add(r.below(4)).wrapping_sub(2), _ => 1 + r.below(60) } }

/// A start as large as a packet, or larger.
fn huge_position(ctx: &mut Ctx, r: &mut Rng, k: u64) -> CaseResult {
    // size of the request: 31 bytes, 24 for each server, 16 for each interval
    let room = (0xff_ffffu64 - 31) / 8;
    let (servers, ivs) = match k % 4 {
        0 => { let j = *r.pick(&[2u64, 4, 100]); (j, (room - 3 * j) / 2 + r.below(3)) }
        1 => (1, (room - 3) / 2 - r.below(2)),
        2 => (1, (room - 3) / 2 + 1),
        _ => { let j = 1 + r.below(3000); (j, (room - 3 * j) / 2 + r.below(100_000)) }
    };
    let size = 31 + 24 * servers + 16 * ivs;
    let mut m = MSet::default();
    for s in 0..servers {
        let mut u: U = [0x5a; 16];
        u[..8].copy_from_slice(&mon::mix(s).to_be_bytes());
        let n = if s + 1 == servers { ivs - s * (ivs / servers) } else { ivs / servers };
        m.0.insert(u, (0..n).map(|i| (1 + i * 3, 1 + i * 3 + i % 2)).collect());
    }
    let mut evs = vec![fde("8.0.32", 40, Some(0)), prev_gtids(&m)];
    lay_out(&mut evs, 4, false);
    let b = file_bytes(&evs, &|i| i == 0);
    let mut out = read_all(&b, 5)?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    drop(b);
    let s = match out.items.pop() { Some(Ok((_, BinlogEvent::MySqlPrevGtidsEvent(e)))) => e.gtid_set, _ => return Err("the previous-GTIDs event was not decoded".into()) };
    ctx.count("positions of about 16 MB", 1);
    ctx.max("bytes of a request", size);
    ctx.sig(size);
    let cfg = server::cfg(false);
    let (se, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| {}, |c, _, _| net::Stream::new(c).put(&server::eof_body())), |h, p| -> Result<Result<(), String>, String> {
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, BinlogOptions::from_mysql_gtid(s)));
        Ok(match net::replicate(&mut cl)? { Err(e) => Err(format!("{:?}", e)), Ok(mut st) => match net::next(&mut st)? { None => Ok(()), x => Err(format!("{:?}", x.map(|x| x.map(|x| x.0)))) } })
    });
    let what = format!("a position of {} servers and {} intervals (a request of {} bytes)", servers, ivs, size);
    let res = res.map_err(|e| format!("{}: {}", what, e))?;
    match &se.dump {
        Some(server::Cmd::DumpGtid { data, .. }) => { let got = crate::props::resume::parse_set(data)?; ensure!(got == m, "{}: the request asks for another one", what); ensure!(res.is_ok(), "{}: {:?}", what, res); }
        Some(d) => return Err(format!("{}: wrong form of request {:?}", what, d)),
        None => { ensure!(size >= 0xff_ffff, "{}: no request was sent: {:?}", what, res); ensure!(res.is_err(), "{}: no request was sent but the session started", what); for p in &se.problems { if !p.contains("closed") { return Err(format!("{}: {}", what, p)); } } }
    }
    Ok(())
}

fn c28(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx % 15_000 == 4001 { return huge_position(ctx, r, idx / 15_000); }
    let (f, c0, crc) = lead(r);
    let pool = gtid::gen_pool(r, 2);
    let sane = r.bool();
    let mut evs = vec![f];
    let n = 1 + r.usize(30);
    while evs.len() < n {
        match r.below(10) {
            0..=2 => { let t = if sane { 1 + r.below(40) } else { extreme(r) }; let k = r.usize(20); let x = r.bytes(k); evs.push(my_gtid(*r.pick(&pool), t, r.u8(), &x)); }
            3 | 4 => { let x = r.bytes(6); evs.push(ma_gtid(r.below(3) as u32, r.below(3) as u32, extreme(r), r.u8(), &x)); }
            5 => { let k = r.usize(KINDS); let g = if r.bool() { G::My(*r.pick(&pool), 1 + r.below(40)) } else { G::Ma(r.below(3) as u32, 1, r.below(40)) }; let mut g = group(r, g, k, false).evs; r.shuffle(&mut g); evs.extend(g); }
            6 => evs.push(xid(r.u64())),
            7 => evs.push(query(*r.pick(&["BEGIN", "COMMIT", "ROLLBACK", "XA START X'1'", "XA COMMIT X'1'", "XA ROLLBACK X'1'", "XA END X'1'", "", "X", "XA"]))),
            8 => { let p = r.edge(64); let k = r.usize(30); let f = r.text_len(k); evs.push(rotate(p, &f)); }
            _ => { let mut e = gen_plain(r); if r.bool() { hostile::mutate_bytes(r, &mut e.body); } if e.ty == 15 { e.ty = 3; } evs.push(e); }
        }
    }
    for e in evs.iter_mut() { e.next = match r.below(4) { 0 => 0, _ => r.edge(32) as u32 }; }
    let b = file_bytes(&evs, &|i| if i == 0 { c0 } else { crc });
    ctx.set_input(&b);
    ctx.sig_bytes(&b);
    let out = read_all(&b, evs.len() + 4)?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    // starts
    let mut my0 = MSet::default();
    for u in &pool { if r.bool() { let v = if sane { vec![(1, 1 + r.below(20))] } else { gtid::gen_intervals(r, 3, (1 << 63) - 2) }; my0.0.insert(*u, v); } }
    let ma0: Vec<(u32, u32, u64)> = (0..r.below(3)).map(|d| (d as u32, 1, r.edge(64))).collect();
    let text = gtid::list_text(&ma0);
    let starts = [
        BinlogOptions::from_mysql_gtid(set(&my0)?),
        BinlogOptions::from_mariadb_gtid(lib(|| GtidList::parse(&text))?.map_err(|e| format!("{:?}: {:?}", text, e))?),
        BinlogOptions::from_position("start.000001".into(), 77),
        BinlogOptions::from_start(),
        BinlogOptions::from_end(),
    ];
    ctx.count("logs", 1);
    ctx.sample(|| format!("event types {:?}", evs.iter().take(14).map(|e| e.ty).collect::<Vec<_>>()));
    for (m, o) in starts.into_iter().enumerate() {
        let mut cl = BinlogClient::new(ReplicaOptions { binlog: o, ..Default::default() });
        let mut seen_my: BTreeSet<(U, u64)> = BTreeSet::new();
        let mut seen_ma: BTreeSet<(u32, u32, u64)> = ma0.iter().copied().collect();
        let mut files: BTreeSet<String> = [cl.options.binlog.filename.clone()].into();
        let mut places: BTreeSet<u32> = [cl.options.binlog.position].into();
        for (i, it) in out.items.iter().enumerate() {
            let Ok((h, e)) = it else { continue };
            match e {
                BinlogEvent::MySqlGtidEvent(x) => { seen_my.insert((x.gtid.source_id.data, x.gtid.transaction_id)); }
                BinlogEvent::MariaDbGtidEvent(x) => { seen_ma.insert((x.gtid.domain_id, x.gtid.server_id, x.gtid.sequence)); }
                BinlogEvent::RotateEvent(x) => { files.insert(x.binlog_filename.clone()); places.insert(x.binlog_position as u32); }
                _ => {}
            }
            places.insert(h.next_event_position);
            lib(|| cl.commit(h, e)).map_err(|m| format!("committing event {} (type {}): {}", i, h.event_type, m))?;
            ctx.count("commits", 1);
            let b = &cl.options.binlog;
            ensure!(files.contains(&b.filename), "after committing event {} the recorded file is {:?}, which no committed event named", i, b.filename);
            ensure!(places.contains(&b.position), "after committing event {} the recorded position is {}, which no committed event carried", i, b.position);
            if let Some(s) = &b.gtid_set {
                let got = gtid::of_lib(s)?;
                for v in got.0.values() {
                    ensure!(gtid::normalise(v.clone()) == *v, "after committing event {}: intervals {:?} are not in canonical form", i, v);
                }
                for (u, v) in &my0.0 { for (a, z) in v { ensure!(got.0.get(u).map(|g| g.iter().any(|(x, y)| x <= a && z <= y)).unwrap_or(false), "after committing event {} the starting position is no longer contained in {:?}", i, got.text()); } }
                // nothing invented
                let mut most = my0.clone();
                for (u, n) in &seen_my { most.add_interval(*u, *n, *n); }
                for (u, v) in &got.0 { for (a, z) in v { ensure!(most.0.get(u).map(|g| g.iter().any(|(x, y)| x <= a && z <= y)).unwrap_or(false), "after committing event {} the position contains {}-{} of {}, which was not announced", i, a, z, gtid::uuid_text(u)); } }
            }
            if let Some(l) = &b.gtid_list {
                let mut d: Vec<u32> = l.gtids.iter().map(|x| x.domain_id).collect();
                for x in &l.gtids { ensure!(seen_ma.contains(&(x.domain_id, x.server_id, x.sequence)), "after committing event {} the position contains {}-{}-{}, which was not announced", i, x.domain_id, x.server_id, x.sequence); }
                for x in &ma0 { ensure!(d.contains(&x.0), "after committing event {} domain {} is gone", i, x.0); }
                d.sort();
                ensure!(d.windows(2).all(|w| w[0] != w[1]), "after committing event {} a domain is there twice: {:?}", i, d);
            }
            ensure!(b.gtid_set.is_some() == (m == 0) && b.gtid_list.is_some() == (m == 1), "a GTID position of the other kind after committing event {}", i);
        }
        if r.pct(6) {
            // the position can be requested, or is refused
            let maria = m == 1 || (m != 0 && r.bool());
            let cfg = server::cfg(maria);
            ctx.count("requests after commits", 1);
            let (s, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| {}, |c, _, _| c.send(1, &server::eof_body())), |h, p| -> Result<bool, String> {
                let o = net::options(&cfg, h, p, BinlogOptions::from_start());
                cl.options.hostname = o.hostname;
                cl.options.port = o.port;
                cl.options.username = o.username;
                cl.options.password = o.password;
                Ok(net::replicate(&mut cl)?.is_ok())
            });
            if res? && m == 0 {
                let Some(Cmd::DumpGtid { data, .. }) = &s.dump else { return Err(format!("no GTID dump request: {:?}, {:?}", s.dump, s.problems)) };
                let sent = super::resume::parse_set(data)?;
                let held = gtid::of_lib(cl.options.binlog.gtid_set.as_ref().ok_or("the GTID position is gone")?)?;
                ensure!(sent == held, "the request has {:?} but {:?} is held", sent.text(), held.text());
            }
        }
    }
    Ok(())
}
