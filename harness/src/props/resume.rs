//! C19: a consumer that reconnects after faults.
use super::commit::{self, check_position, group, record, Group, G, KINDS};
use crate::ensure;
use crate::events::*;
use crate::gtid::{self, MSet, Uuid as U};
use crate::model::{self, *};
use crate::mon::{lib, CaseResult, Ctx};
use crate::net;
use crate::rng::Rng;
use crate::server::{self, Cfg, Cmd, Conn, Session};
use crate::{Prop, WORKERS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use std::collections::BTreeMap;
use std::io;
use std::sync::{mpsc, Mutex};
use std::time::Duration;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C19", case: c19, quick: 20_000, thorough: 400_000, workers: WORKERS * 2, min: 600, level: "fault_enumeration",
            rule: "A case replicates a multi-file history from a mock server that serves from the requested coordinates, through up to 25 sessions ended by cuts at any byte (session set-up included), server error packets and consumer restarts (with the last event committed or not), while the history grows; in GTID mode the sessions alternate between servers with different log files. Checked in every session: exactly the events due were sent and yielded, none skipped, no recorded work again; at the end everything was delivered. Every cut byte of sample histories is enumerated first. Distinct by (history, faults).",
            assumptions: &["in file-position mode a statement has one row event per table definition, each right after it (the other histories are the recorded known finding)", "one event group never spans log files, as the servers guarantee"] },
    ]
}

struct Real { ev: Ev, group: Option<usize>, file: usize, start: u32 }
/// One server's logs.
struct Data { maria: bool, crc: bool, names: Vec<String>, evs: Vec<Real>, groups: Vec<G> }

impl Data {
    fn packet_crc(&self, e: &Ev) -> bool { self.crc || matches!(e.exp, Exp::Fde { .. }) }
    fn build(r: &mut Rng, maria: bool, crc: bool, prefix: &str, groups: &[Group], files: usize) -> Data {
        let ver = if maria { "10.6.12-MariaDB-log" } else { "8.0.32" };
        let mut d = Data { maria, crc, names: vec![], evs: vec![], groups: groups.iter().map(|g| g.gtid).collect() };
        let first = r.below(900);
        let digits = *r.pick(&[6usize, 6, 4]);
        for k in 0..files { d.names.push(format!("{}.{:0w$}", prefix, first + k as u64, w = digits)); }
        let mut seen_my = MSet::default();
        let mut seen_ma = BTreeMap::new();
        // groups per file
        let mut cuts: Vec<usize> = (1..files).map(|_| r.usize(groups.len() + 1)).collect();
        cuts.sort();
        cuts.push(groups.len());
        let mut g0 = 0;
        for k in 0..files {
            let mut evs: Vec<(Ev, Option<usize>)> = vec![(fde(ver, 42, Some(crc as u8)), None)];
            if maria { let l: Vec<(u32, u32, u64)> = seen_ma.iter().map(|(d, (s, q)): (&u32, &(u32, u64))| (*d, *s, *q)).collect(); evs.push((ma_list(0, &l), None)); if r.bool() { evs.push((unknown(161, b"\x10\0\0\0mysql-bin.000004".to_vec()), None)); } }
            else { evs.push((prev_gtids(&seen_my), None)); }
            for i in g0..cuts[k] {
                for e in &groups[i].evs { evs.push((e.clone(), Some(i))); }
                record(&mut seen_my, &mut seen_ma, &groups[i].gtid);
                if r.pct(10) { evs.push((unknown(26, vec![1, 0]), None)); }
            }
            g0 = cuts[k];
            if k + 1 < files { evs.push(if r.pct(80) { (rotate(4, &d.names[k + 1]), None) } else { (unknown(3, vec![]), None) }); }
            let mut p = 4u32;
            for (mut e, g) in evs {
                let start = p;
                p += e.size(d.packet_crc(&e)) as u32;
                e.next = p;
                e.ts = 1_600_000_000;
                d.evs.push(Real { ev: e, group: g, file: k, start });
            }
        }
        d
    }
    fn end(&self, i: usize) -> u32 { self.evs[i].ev.next }
    /// Last visible event when groups before `g` exist.
    fn visible(&self, g: usize) -> usize {
        match self.evs.iter().position(|e| matches!(e.group, Some(k) if k >= g)) { Some(i) => i, None => self.evs.len() }
    }
    /// Index of the first event at or after a coordinate; None if it is not an event boundary of a visible log.
    fn locate(&self, file: &str, pos: u64, limit: usize) -> Option<usize> {
        let f = if file.is_empty() { 0 } else { self.names.iter().position(|n| n == file)? };
        let mut last = None;
        for (i, e) in self.evs.iter().enumerate().take(limit) {
            if e.file != f { continue; }
            if e.start as u64 == pos { return Some(i); }
            last = Some(i);
        }
        let l = last?;
        if self.end(l) as u64 == pos { return Some(l + 1); }
        None
    }
    fn coordinate(&self, i: usize) -> (String, u64) {
        // the position after event i - 1
        let j = if i == 0 { return (self.names[0].clone(), 4) } else { i - 1 };
        (self.names[self.evs[j].file].clone(), self.end(j) as u64)
    }
}

#[derive(Clone, Default)]
struct Script { server: usize, limit: usize, cut: Option<usize>, cut_stream: Option<usize>, error_after: Option<usize>, beats: u64, fde_real: bool }

struct Done { session: Session, plan: Vec<(Option<usize>, Ev)>, refused: Option<String>, errored: bool, first: Option<usize> }

fn artificial_rotate(pos: u64, file: &str) -> Ev { let mut e = rotate(pos, file); e.ts = 0; e.next = 0; e.flags = 0x20; e }
fn beat(d: &Data, i: usize) -> Ev {
    let (f, p) = d.coordinate(i);
    let mut e = heartbeat(&f);
    e.ts = 0;
    e.next = p as u32;
    e
}

/// What a server sends for a request.
fn plan(d: &Data, sc: &Script, cmd: &Cmd, s: &Session) -> Result<(Vec<(Option<usize>, Ev)>, usize), String> {
    let mut v: Vec<(Option<usize>, Ev)> = vec![];
    let mut b = Rng::new(sc.beats, 7, 7);
    let text = |f: &[u8]| String::from_utf8_lossy(f).into_owned();
    let (from, skip): (usize, Box<dyn Fn(usize) -> bool>) = match cmd {
        Cmd::Dump { pos, file, .. } => {
            let state = if d.maria { s.vars.get("slave_connect_state").cloned() } else { None };
            match state {
                Some(t) => {
                    let t = t.trim_matches('\'').to_string();
                    let mut m: BTreeMap<u32, u64> = BTreeMap::new();
                    for x in t.split(',').filter(|x| !x.is_empty()) {
                        let p: Vec<u64> = x.split('-').map(|y| y.trim().parse::<u64>()).collect::<Result<_, _>>().map_err(|_| format!("bad connect state {:?}", t))?;
                        if p.len() != 3 { return Err(format!("bad connect state {:?}", t)); }
                        m.insert(p[0] as u32, p[2]);
                    }
                    let g = d.groups.clone();
                    (0, Box::new(move |i| match g[i] { G::Ma(dom, _, q) => m.get(&dom).map(|l| q <= *l).unwrap_or(false), _ => false }))
                }
                None => {
                    if *pos < 4 { return Err("Client requested master to start replication from position < 4".into()); }
                    let f = text(file);
                    let Some(i) = d.locate(&f, *pos as u64, sc.limit) else { return Err(format!("no event starts at {:?} {}", f, pos)); };
                    (i, Box::new(|_| false))
                }
            }
        }
        Cmd::DumpGtid { file, pos, data, .. } => {
            let set = parse_set(data)?;
            let f = text(file);
            let i = if f.is_empty() { 0 } else { match d.locate(&f, *pos, sc.limit) { Some(i) => i, None => return Err(format!("Could not find first log file name in binary log index file: {:?} {}", f, pos)) } };
            let g = d.groups.clone();
            (i, Box::new(move |i| match g[i] { G::My(u, n) => set.contains(&u, n), _ => false }))
        }
        _ => return Err("not a dump".into()),
    };
    let by_gtid = !matches!((cmd, d.maria), (Cmd::Dump { .. }, false)) && (matches!(cmd, Cmd::DumpGtid { .. }) || s.vars.contains_key("slave_connect_state"));
    let mut from = from;
    if by_gtid && from == 0 && sc.fde_real {
        // the first file that has something new
        let k = d.evs.iter().take(sc.limit).position(|e| matches!(e.group, Some(g) if !skip(g)));
        if let Some(k) = k { let f = d.evs[k].file; from = d.evs.iter().position(|e| e.file == f).unwrap(); }
    }
    let mut file = usize::MAX;
    let mut skipped = false;
    for i in from..sc.limit {
        let e = &d.evs[i];
        if e.file != file {
            file = e.file;
            v.push((None, artificial_rotate(e.start as u64, &d.names[file])));
            if e.start != 4 {
                let mut f = d.evs.iter().find(|x| x.file == file).unwrap().ev.clone();
                f.next = 0;
                v.push((None, f));
            }
        }
        if let Some(g) = e.group {
            if skip(g) { skipped = true; continue; }
        }
        let boundary = i == 0 || e.group.is_none() || d.evs[i - 1].group != e.group;
        if skipped && boundary && b.bool() { v.push((None, beat(d, i))); }
        skipped = false;
        if boundary && i > from && b.pct(10) && d.evs[i - 1].file == e.file { v.push((None, beat(d, i))); }
        v.push((Some(i), e.ev.clone()));
    }
    if from >= sc.limit && from > 0 {
        let (f, p) = d.coordinate(from);
        v.push((None, artificial_rotate(p, &f)));
        let k = d.evs[from - 1].file;
        let mut f = d.evs.iter().find(|x| x.file == k).unwrap().ev.clone();
        f.next = 0;
        v.push((None, f));
    }
    if sc.limit > 0 && b.bool() { v.push((None, beat(d, sc.limit.max(from)))); }
    Ok((v, from))
}

pub fn parse_set(d: &[u8]) -> Result<MSet, String> {
    let mut p = 0;
    let u64at = |n: &mut usize| -> Result<u64, String> { let x = d.get(*n..*n + 8).ok_or("GTID data too short")?; *n += 8; Ok(u64::from_le_bytes(x.try_into().unwrap())) };
    let mut m = MSet::default();
    let n = u64at(&mut p)?;
    for _ in 0..n {
        let u: U = d.get(p..p + 16).ok_or("GTID data too short")?.try_into().unwrap();
        p += 16;
        let k = u64at(&mut p)?;
        let mut v = m.0.remove(&u).unwrap_or_default();
        for _ in 0..k { let a = u64at(&mut p)?; let b = u64at(&mut p)?; if b <= a { return Err(format!("interval {}..{}", a, b)); } v.push((a, b - 1)); }
        m.0.insert(u, gtid::normalise(v));
    }
    if p != d.len() { return Err("stray bytes after the GTID data".into()); }
    Ok(m)
}

fn serve(lsn: &server::Lsn, data: &[Data], cfgs: &[Cfg], script: &Mutex<Script>, tx: mpsc::Sender<Done>) {
    while let Some(mut c) = lsn.accept() {
        let sc = script.lock().unwrap().clone();
        let d = &data[sc.server];
        let mut cfg = cfgs[sc.server].clone();
        let (f, p) = d.coordinate(sc.limit);
        cfg.status = Some((f, p));
        c.cut = sc.cut;
        let mut s = Session::default();
        let mut done = Done { session: Session::default(), plan: vec![], refused: None, errored: false, first: None };
        if let Ok(Some(cmd)) = server::session(&mut c, &cfg, &mut s) {
            if let Err(e) = stream(&mut c, d, &sc, &cmd, &s, &mut done) { s.ended = Some(format!("{}", e)); }
        }
        done.session = s;
        if tx.send(done).is_err() { return; }
    }
}

fn stream(c: &mut Conn, d: &Data, sc: &Script, cmd: &Cmd, s: &Session, done: &mut Done) -> io::Result<()> {
    let mut st = net::Stream::new(c);
    match plan(d, sc, cmd, s) {
        Err(m) => {
            done.refused = Some(m.clone());
            st.put(&server::err_body(1236, Some("HY000"), &m))
        }
        Ok((p, first)) => {
            done.plan = p.clone();
            done.first = Some(first);
            if let Some(k) = sc.cut_stream { st.c.cut = Some(st.c.tx + k); }
            if sc.cut_stream == Some(0) { st.c.close(); return Ok(()); }
            let mut buf = vec![];
            let mut seq = 1u8;
            for (i, (_, e)) in p.iter().enumerate() {
                if sc.error_after == Some(i) {
                    done.errored = true;
                    buf.extend(server::packet(seq, &server::err_body(1236, Some("HY000"), "binlog truncated in the middle of event")));
                    return st.c.send_raw(&buf);
                }
                buf.extend(server::packet(seq, &net::event_packet(e, d.packet_crc(e))));
                seq = seq.wrapping_add(1);
                if buf.len() > 1200 || i % 3 == 0 { st.c.send_raw(&buf)?; buf.clear(); }
            }
            buf.extend(server::packet(seq, &server::eof_body()));
            st.c.send_raw(&buf)
        }
    }
}

fn work(e: &Ev) -> bool {
    match &e.exp { Exp::Rows(_) | Exp::Xid(_) => true, Exp::Query { sql, .. } => sql != "BEGIN" && !sql.is_empty(), _ => false }
}

fn c19(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx == 0 { return statement_split(ctx); }
    // sample histories with every cut byte come first
    let enumerated = 1200u64;
    let mut h = if idx < enumerated { Rng::new(5, 19, idx / 300) } else { r.clone() };
    let small = idx < enumerated;
    let maria = if small { (idx / 300) % 2 == 1 } else { h.bool() };
    let by_gtid = if small { (idx / 300) >= 2 } else { h.bool() };
    // groups
    let n = if small { 3 } else { 1 + h.usize(12) };
    let k = 1 + h.usize(2);
    let pool = gtid::gen_pool(&mut h, k);
    let mut no: BTreeMap<usize, u64> = BTreeMap::new();
    let mut groups = vec![];
    for _ in 0..n {
        let g = if maria { let d = h.below(2) as u32; let q = no.entry(d as usize).or_insert(0); *q += 1 + h.below(2); G::Ma(d, 1 + h.below(2) as u32, *q) }
            else { let u = h.usize(pool.len()); let q = no.entry(u).or_insert(0); *q += 1 + h.below(2); G::My(pool[u], *q) };
        let kind = loop { let k = if small { *h.pick(&[0usize, 0, 3, 1]) } else { h.usize(KINDS) }; if k != 8 && k != 9 { break k; } };
        groups.push(group(&mut h, g, kind, !by_gtid));
    }
    let files = 1 + h.usize(3);
    let crc = h.bool();
    let mut data = vec![Data::build(&mut h, maria, crc, "mysql-bin", &groups, files)];
    if by_gtid { let f2 = 1 + h.usize(3); let c2 = h.bool(); let name = if h.bool() { "other" } else { "mysql-bin" }; data.push(Data::build(&mut h, maria, c2, name, &groups, f2)); }
    let cfgs: Vec<Cfg> = data.iter().map(|d| { let mut c = server::cfg(maria); c.checksum = if d.crc { "CRC32" } else { "NONE" }.into(); c }).collect();
    // start
    let d0 = &data[0];
    let mut my = MSet::default();
    let mut ma: BTreeMap<u32, (u32, u64)> = BTreeMap::new();
    // first event (position mode) that is due
    let mut due: Option<usize> = Some(0);
    let mut visible = if h.pct(40) { n } else { h.usize(n + 1) };
    if small { visible = n; }
    let opts = if by_gtid {
        let k = if h.bool() { 0 } else { h.usize(n + 1) };
        for g in &groups[..k] { record(&mut my, &mut ma, &g.gtid); }
        if maria {
            let t = ma.iter().map(|(d, (s, q))| format!("{}-{}-{}", d, s, q)).collect::<Vec<_>>().join(",");
            BinlogOptions::from_mariadb_gtid(lib(|| GtidList::parse(&t))?.map_err(|e| format!("{:?}: {:?}", t, e))?)
        } else { let t = my.text(); BinlogOptions::from_mysql_gtid(lib(|| GtidSet::parse(&t))?.map_err(|e| format!("{:?}: {:?}", t, e))?) }
    } else {
        match h.below(3) {
            0 => BinlogOptions::from_start(),
            1 => {
                // any boundary that does not separate a table definition from its rows
                let lim = d0.visible(visible).max(1);
                let mut i = h.usize(lim);
                while i > 0 && matches!(d0.evs[i].ev.exp, Exp::Rows(_)) { i -= 1; }
                due = Some(i);
                BinlogOptions::from_position(d0.names[d0.evs[i].file].clone(), d0.evs[i].start)
            }
            _ => { due = None; BinlogOptions::from_end() }
        }
    };
    let from_end = due.is_none();
    let blocking = h.bool();
    let mut sig = crate::rng::hash_str(&format!("{} {} {} {:?}", maria, by_gtid, crc, groups.iter().map(|g| g.kind).collect::<Vec<_>>())) ^ h.u64();
    ctx.count(if by_gtid { "histories by GTID" } else { "histories by file position" }, 1);
    ctx.count("groups", n as u64);
    let faults = if small { 2 } else { 1 + r.usize(if ctx.thorough { 24 } else { 9 }) };
    let script = Mutex::new(Script::default());
    let (tx, rx) = mpsc::channel();
    let (_, res) = server::with_server(ctx.worker, |l| serve(l, &data, &cfgs, &script, tx), |host, port| -> CaseResult {
        let mut o = net::options(&cfgs[0], host, port, opts);
        o.blocking = blocking;
        let mut cl = BinlogClient::new(o);
        let mut delivered_all;
        let mut sessions = 0;
        let mut finals = 0;
        loop {
            sessions += 1;
            let last = sessions > faults;
            if last { visible = n; finals += 1; } else if r.pct(if from_end { 75 } else { 40 }) { visible = visible.max(r.usize(n + 1)); }
            let server = if data.len() > 1 { r.usize(2) } else { 0 };
            let d = &data[server];
            let mut sc = Script { server, limit: d.visible(visible), beats: r.u64(), fde_real: r.bool(), ..Default::default() };
            // file-position histories grow only within what exists: never show less than before
            let mut drop_after: Option<usize> = None;
            // the type of the event after which the consumer stops, and which one of them
            let mut stop_at: Option<(u8, usize)> = None;
            if !last {
                if small && sessions == 1 { sc.cut_stream = Some((idx % 300) as usize * 3 + r.usize(3)); }
                else { match r.below(8) {
                    0 => sc.cut = Some(1 + r.usize(900)),
                    1 | 2 => sc.cut_stream = Some(match r.below(3) { 0 => r.usize(60), 1 => r.usize(600), _ => r.usize(4000) }),
                    3 => sc.error_after = Some(r.usize(20)),
                    4 => {}
                    5 => stop_at = Some((*r.pick(&[4u8, 4, 4, 15, 2, 2, 16, 19, 27, 30, 31, 33, 35, 162, 163]), 1 + r.usize(3))),
                    _ => drop_after = Some(match r.below(3) { 0 => r.usize(4), 1 => r.usize(15), _ => r.usize(60) }),
                } }
            }
            let commit_last = r.pct(60);
            sig = sig.rotate_left(7) ^ crate::rng::hash_str(&format!("{:?} {:?} {:?} {:?} {} {}", sc.cut, sc.cut_stream, sc.error_after, (drop_after, stop_at), commit_last, server));
            *script.lock().unwrap() = sc.clone();
            let head = format!("session {} (server {}, cut {:?}/{:?}, error after {:?}, consumer stops after {:?} or event type {:?}; recorded {:?} {}; GTID position {:?} {:?})", sessions, server, sc.cut, sc.cut_stream, sc.error_after, drop_after, stop_at,
                cl.options.binlog.filename, cl.options.binlog.position, cl.options.binlog.gtid_set.as_ref().map(|s| s.to_string()), cl.options.binlog.gtid_list.as_ref().map(|s| s.to_string()));
            ctx.note(head.clone());
            ctx.count("sessions", 1);
            cl.options.port = port;
            let mut items: Vec<Item> = vec![];
            let mut committed = 0;
            let mut end = "";
            let mut setup_error = None;
            let mut progress: Vec<usize> = vec![];
            match net::replicate(&mut cl)? {
                Err(e) => setup_error = Some(format!("{:?}", e)),
                Ok(mut st) => loop {
                    if drop_after == Some(items.len()) { end = "consumer"; break; }
                    match net::next(&mut st)? {
                        None => { end = "eof"; break; }
                        Some(Err(e)) => { ctx.note(format!("item {}: {:?}", items.len(), e)); items.push(Err(e)); end = "error"; break; }
                        Some(Ok((hd, ev))) => {
                            let stop = match &mut stop_at { Some((t, k)) if *t == hd.event_type => { *k -= 1; *k == 0 } _ => false };
                            if stop { drop_after = Some(items.len() + 1); }
                            let skip_commit = drop_after == Some(items.len() + 1) && !commit_last;
                            if !skip_commit { lib(|| cl.commit(&hd, &ev)).map_err(|m| format!("{}: commit: {}", head, m))?; committed += 1; progress.push(items.len()); }
                            items.push(Ok((hd, ev)));
                        }
                    }
                },
            }
            let done = match rx.recv_timeout(Duration::from_secs(100)) { Ok(d) => d, Err(_) => return Err(format!("{}: the server's session did not end (harness)", head)) };
            // set-up
            if let Some(e) = &setup_error {
                ensure!(sc.cut.is_some(), "{}: replicate failed although the server was fine: {} ({:?})", head, e, done.session.problems);
                ctx.count("sessions cut during set-up", 1);
            }
            if !done.session.problems.is_empty() && sc.cut.is_none() { return Err(format!("{}: {:?}", head, done.session.problems)); }
            // a start from the end is fixed by the first status that reached the client, which shows by the next
            // command or, if the connection was lost right after the reply, by the position it records
            if from_end && due.is_none() {
                let q = done.session.cmds.iter().position(|c| matches!(c, Cmd::Query(q) if q.to_ascii_lowercase().starts_with("show")));
                if let Some(q) = q { if done.session.cmds.len() > q + 1 || !cl.options.binlog.filename.is_empty() { due = Some(sc.limit); ctx.note(format!("the start is event {}", sc.limit)); } }
            }
            if let Some(m) = &done.refused { return Err(format!("{}: the server cannot serve the request: {}", head, m)); }
            if done.session.dump.is_some() {
                // what the request means
                let real: Vec<usize> = done.plan.iter().filter_map(|(i, _)| *i).collect();
                if by_gtid {
                    let want: Vec<usize> = (0..sc.limit).filter(|i| match d.evs[*i].group { Some(g) => !has(&my, &ma, &d.groups[g]), None => false }).collect();
                    let got: Vec<usize> = real.iter().copied().filter(|i| d.evs[*i].group.is_some()).collect();
                    if got != want {
                        let lost = want.iter().find(|i| !got.contains(i));
                        let twice = got.iter().find(|i| !want.contains(i));
                        return Err(format!("{}: the request does not denote the transactions that are due: {} (request {})", head,
                            match (lost, twice) { (Some(i), _) => format!("event {} of group {:?} would be lost", i, d.groups[d.evs[*i].group.unwrap()]), (_, Some(i)) => format!("recorded group {:?} would come again", d.groups[d.evs[*i].group.unwrap()]), _ => String::new() }, short(format!("{:?}", done.session.dump))));
                    }
                    ctx.count("GTID requests checked", 1);
                } else {
                    let s = done.first.unwrap();
                    let want = due.unwrap_or(0);
                    ensure!(s <= want, "{}: events {}..{} would be skipped (first skipped: {} at {:?})", head, want, s, short(format!("{:?}", d.evs[want].ev.exp)), d.coordinate(want));
                    for i in s..want { ensure!(!work(&d.evs[i].ev), "{}: event {} was committed and would be delivered again: {}", head, i, short(format!("{:?}", d.evs[i].ev.exp))); }
                    ctx.count("position requests checked", 1);
                }
            }
            // what was yielded
            for (k, g) in items.iter().enumerate() {
                if let Err(e) = g {
                    // where errors belong: the cut, the error packet
                    let at_error = done.errored && sc.error_after == Some(k);
                    ensure!(at_error || sc.cut.is_some() || sc.cut_stream.is_some(), "{}: event {} of the session ({}) was reported as {:?}", head, k, short(done.plan.get(k).map(|p| format!("{:?}", p.1.exp)).unwrap_or_default()), e);
                    if !at_error {
                        // bytes up to here must really be incomplete
                        let sent: usize = done.plan.iter().take(k + 1).map(|(_, e)| 4 + net::event_packet(e, d.packet_crc(e)).len()).sum();
                        let room = match (sc.cut, sc.cut_stream) { (_, Some(c)) => c, (Some(c), _) => c.saturating_sub(done.session.setup_tx), _ => usize::MAX };
                        let eof = k == done.plan.len();
                        ensure!(sent > room || eof, "{}: event {} of the session was sent completely but reported as {:?}", head, k, e);
                    }
                    continue;
                }
                let Some((_, e)) = done.plan.get(k) else { return Err(format!("{}: item {} was never sent", head, k)) };
                check(e, d.packet_crc(e), g).map_err(|m| format!("{}: event {} of the session: {}", head, k, m))?;
            }
            if end == "eof" { ensure!(items.len() == done.plan.len() && !done.errored, "{}: the stream ended after {} of {} events", head, items.len(), done.plan.len()); }
            // progress of the model
            for k in &progress {
                if let Some(i) = done.plan[*k].0 {
                    if by_gtid {
                        if let Some(g) = d.evs[i].group { if i + 1 >= d.evs.len() || d.evs[i + 1].group != Some(g) { record(&mut my, &mut ma, &d.groups[g]); ctx.count("transactions recorded", 1); } }
                    } else { due = Some(due.unwrap_or(0).max(i + 1)); }
                }
            }
            ctx.count("events committed", committed);
            match end { "consumer" => ctx.count("consumer restarts", 1), "error" if done.errored => ctx.count("sessions ended by a server error", 1), "error" => ctx.count("streams cut", 1), "eof" => ctx.count("streams read to the end", 1), _ => {} }
            if by_gtid { check_position(&cl, maria, &my, &ma).map_err(|m| format!("{}: afterwards {}", head, m))?; }
            delivered_all = if by_gtid { groups.iter().all(|g| has(&my, &ma, &g.gtid)) } else { due.is_some() && due.unwrap() >= d0.evs.len() };
            if last {
                // a last fault-free session must complete everything (a start from the end may need a second one)
                ensure!(end == "eof", "{}: the last session ended by {:?} {:?}", head, end, setup_error);
                if delivered_all || (from_end && finals < 2 && due.is_none()) || finals > 2 { ensure!(delivered_all || due.is_none(), "{}: not everything was delivered", head); break; }
                ensure!(finals < 3 && delivered_all, "{}: the stream was read to its end but {} events of {} were delivered", head, due.unwrap_or(0), d0.evs.len());
            }
        }
        ctx.count("histories delivered completely", 1);
        Ok(())
    });
    ctx.sig(sig);
    ctx.sample(|| format!("maria {}, by GTID {}, {} groups in {} files, {} faults", maria, by_gtid, n, files, faults));
    let _ = commit::props;
    res
}

fn has(my: &MSet, ma: &BTreeMap<u32, (u32, u64)>, g: &G) -> bool {
    match g { G::My(u, n) => my.contains(u, *n), G::Ma(d, _, q) => ma.get(d).map(|x| *q <= x.1).unwrap_or(false) }
}

/// A statement with two row events under one table definition, resumed between them.
fn statement_split(ctx: &mut Ctx) -> CaseResult {
    let mut r = Rng::new(1, 19, 0);
    let cols: Vec<Col> = vec![model::col(gen_small_kind(&mut r))];
    let t = gen_table(&mut r, 7, cols);
    let mut o = gen_opts(&mut r);
    o.nrows = 1;
    let (b1, x1) = gen_rows(&mut r, &t, &o);
    let (b2, x2) = gen_rows(&mut r, &t, &o);
    let g = Group { gtid: G::My([1; 16], 1), evs: vec![my_gtid([1; 16], 1, 0, &[]), query("BEGIN"), table(&t), rows(b1, x1), rows(b2, x2), xid(1)], complete: true, kind: 0 };
    let data = vec![Data::build(&mut r, false, true, "mysql-bin", &[g], 1)];
    let cfgs = vec![server::cfg(false)];
    let script = Mutex::new(Script { server: 0, limit: data[0].evs.len(), ..Default::default() });
    let (tx, rx) = mpsc::channel();
    let (_, res) = server::with_server(ctx.worker, |l| serve(l, &data, &cfgs, &script, tx), |host, port| -> Result<bool, String> {
        let mut cl = BinlogClient::new(net::options(&cfgs[0], host, port, BinlogOptions::from_start()));
        let first = data[0].evs.iter().position(|e| matches!(e.ev.exp, Exp::Rows(_))).unwrap();
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("{:?}", e))?;
        loop {
            let Some(Ok((h, e))) = net::next(&mut st)? else { return Err("the first session was interrupted".into()) };
            lib(|| cl.commit(&h, &e))?;
            if h.next_event_position == data[0].end(first) { break; }
        }
        drop(st);
        let _ = rx.recv_timeout(Duration::from_secs(100));
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("{:?}", e))?;
        let mut bad = false;
        let mut seen = false;
        loop {
            match net::next(&mut st)? {
                None => break,
                Some(Err(_)) => bad = true,
                Some(Ok((h, e))) => { if h.next_event_position == data[0].end(first + 1) { seen = true; } lib(|| cl.commit(&h, &e))?; }
            }
        }
        Ok(bad || !seen)
    });
    ctx.count("statements resumed between their row events", 1);
    if res? { return ctx.known("statement-split", "file-position resume after committing a row event that is not the last one of its table definition: the remaining row events of the statement are reported as errors (their table definition is not sent again)"); }
    Ok(())
}
