//! C17 C18: what committing events records.
use crate::ensure;
use crate::events::{self, *};
use crate::gtid::{self, MSet, Uuid as U};
use crate::model::{self, *};
use crate::mon::{lib, CaseResult, Ctx};
use crate::net;
use crate::rng::Rng;
use crate::server;
use crate::{Prop, WORKERS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use mysql_cdc::starting_strategy::StartingStrategy;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", case: c17, quick: 300_000, thorough: 6_000_000, workers: WORKERS, min: 2500, level: "exploration",
            rule: "A case is a binlog history of event groups as MySQL and MariaDB write them (row and statement transactions, savepoints, DDL, standalone statements, COMMIT and ROLLBACK ends, XA in both phases, groups interrupted by a crash, several servers and domains, unrelated events between), read with the library and committed event by event; after every commit the recorded GTID position must equal the start plus exactly the groups whose last event was committed. All sequences of three group kinds are enumerated first. Distinct by sequence of group kinds and GTIDs.",
            assumptions: &["groups contained in a compressed transaction payload event are not decoded by the library and not generated", "MariaDB groups come without BEGIN, as sent to a client that announces capability 4"] },
        Prop { id: "C18", case: c18, quick: 600_000, thorough: 12_000_000, workers: WORKERS, min: 2500, level: "exploration",
            rule: "A case commits a random history (all event kinds, artificial events without a position, real and artificial rotations, table definitions, in every starting mode) event by event and compares the recorded file and position with the model after every commit. Distinct by history.",
            assumptions: &["rotation targets are below 4 GiB (binlog positions are 32 bits)"] },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum G { My(U, u64), Ma(u32, u32, u64) }

/// An event group; complete groups end with the event that finishes the transaction.
#[derive(Clone, Debug)]
pub struct Group { pub gtid: G, pub evs: Vec<Ev>, pub complete: bool, pub kind: usize }

/// What ends or begins transactions when it is the statement, and means nothing inside one.
const KEYWORDS: [&str; 8] = ["BEGIN", "COMMIT", "ROLLBACK", "XA START", "XA COMMIT", "XA ROLLBACK", "XA END", "START TRANSACTION"];
/// Comments, spaces and brackets around a statement, which it keeps when it is logged.
fn wrapped(r: &mut Rng, s: String) -> String {
    if s.is_empty() || !r.pct(20) { return s; }
    match r.below(9) {
        0 => format!("/*!40000 {} */", s),
        1 => format!("/*!{}*/", s),
        2 => format!("/*M!100100 {} */", s),
        3 => format!("/* x */ {}", s),
        4 => format!("# x\n{}", s),
        5 => format!("--\n{};", s),
        6 => format!(" \t{} ", s),
        7 => format!("({})", s),
        _ => s.to_lowercase(),
    }
}
fn stmt(r: &mut Rng) -> String { let s = plain_stmt(r); wrapped(r, s) }
fn ddl(r: &mut Rng) -> String { let s = plain_ddl(r); wrapped(r, s) }
fn plain_stmt(r: &mut Rng) -> String {
    match r.below(24) {
        17 => "REPLACE INTO t VALUES (1)".into(),
        18 => "LOAD DATA INFILE 'a' INTO TABLE t".into(),
        19 => "SET @a = 1".into(),
        20 => "DO 0".into(),
        21 => "DROP TEMPORARY TABLE IF EXISTS x".into(),
        22 => "WITH c AS (SELECT 1) DELETE FROM t".into(),
        23 => "SELECT f()".into(),
        12 => format!("DELETE FROM t WHERE a = '{}'", r.pick(&KEYWORDS)),
        13 => format!("UPDATE t SET a = 1 -- {}", r.pick(&KEYWORDS)),
        14 => format!("/* {} */ DELETE FROM t", r.pick(&KEYWORDS)),
        15 => format!("INSERT INTO `{}` VALUES (1)", r.pick(&KEYWORDS)),
        16 => format!("-- {}\nUPDATE t SET b = 2", r.pick(&KEYWORDS)),
        0 => "SAVEPOINT `sp1`".into(),
        1 => "ROLLBACK TO `sp1`".into(),
        2 => "INSERT INTO t VALUES ('COMMIT')".into(),
        3 => "RELEASE SAVEPOINT `sp1`".into(),
        4 => "UPDATE t SET a = 'BEGIN' WHERE b = 1".into(),
        5 => "CREATE TEMPORARY TABLE x (a INT)".into(),
        6 => "".into(),
        7 => "CREATE TABLE t2 (a INT) START TRANSACTION".into(),
        8 => "DELETE FROM t WHERE a = 'XA COMMIT'".into(),
        9 => { let n = 1 + r.usize(40); format!("INSERT INTO t VALUES ('{}')", r.text_len(n)) }
        10 => "COMMIT_LOG_TABLE_MAINTENANCE".into(),
        _ => "INSERT INTO t SELECT * FROM u".into(),
    }
}
fn plain_ddl(r: &mut Rng) -> String {
    match r.below(28) {
        16 => "SET PASSWORD FOR 'u'@'%'='*AA'".into(),
        17 => "FLUSH PRIVILEGES".into(),
        18 => "OPTIMIZE TABLE t".into(),
        19 => "RENAME TABLE t TO u".into(),
        20 => "INSERT INTO m VALUES (1)".into(),
        21 => "DROP TEMPORARY TABLE IF EXISTS `x`".into(),
        22 => "SELECT f()".into(),
        23 => "REVOKE ALL ON *.* FROM u".into(),
        24 => "CREATE USER u".into(),
        25 => "SAVEPOINT_TABLE".into(),
        26 => "USE test".into(),
        27 => "DO 0".into(),
        12 => format!("CREATE TABLE `{}` (a INT)", r.pick(&KEYWORDS)),
        13 => format!("ALTER TABLE t COMMENT '{}'", r.pick(&KEYWORDS)),
        14 => format!("/* {} */ DROP TABLE t", r.pick(&KEYWORDS)),
        15 => format!("DROP TABLE t -- {}", r.pick(&KEYWORDS)),
        0 => "CREATE TABLE t (a INT)".into(),
        1 => "DROP TABLE `t` /* generated by server */".into(),
        2 => "CREATE PROCEDURE p() BEGIN COMMIT; END".into(),
        3 => "GRANT SELECT ON *.* TO 'u'@'%'".into(),
        4 => "ALTER TABLE t ADD COLUMN b INT".into(),
        5 => "FLUSH TABLES".into(),
        6 => "BEGINNING".into(),
        7 => "TRUNCATE TABLE t".into(),
        8 => "CREATE DATABASE `xa_start`".into(),
        9 => { let n = 1 + r.usize(30); format!("DROP VIEW `{}`", r.text_len(n)) }
        10 => "ANALYZE TABLE t".into(),
        _ => "CREATE TABLE t2 AS SELECT * FROM t".into(),
    }
}

/// Row events of one statement; `single`: at most one row event per table definition.
fn row_stmt(r: &mut Rng, single: bool) -> Vec<Ev> {
    let mut v = vec![];
    let id = 100 + r.below(6);
    let n = 1 + r.usize(3);
    let cols: Vec<Col> = (0..n).map(|_| { let k = gen_small_kind(r); model::col(k) }).collect();
    let t = gen_table(r, id, cols);
    v.push(table(&t));
    for _ in 0..if single { 1 } else { 1 + r.usize(3) } {
        let mut o = gen_opts(r);
        o.nrows = 1 + r.usize(2);
        let (b, x) = gen_rows(r, &t, &o);
        v.push(events::rows(b, x));
    }
    v
}

fn body_events(r: &mut Rng, maria: bool, single: bool) -> Vec<Ev> {
    let mut v = vec![];
    for _ in 0..r.usize(4) {
        match r.below(7) {
            0..=2 => { if r.pct(30) { v.push(if maria { annotate("INSERT INTO t VALUES (1)") } else { rows_query("COMMIT") }); } v.extend(row_stmt(r, single)); }
            3 => { v.push(intvar(2, r.u64())); v.push(query(&stmt(r))); }
            4 => { v.push(uservar("a", Some((0, 33, "COMMIT".into(), 0)))); v.push(query(&stmt(r))); }
            _ => v.push(query(&stmt(r))),
        }
    }
    v
}

pub const KINDS: usize = 12;
/// The events of one group. Kinds: 0 rows + XID, 1 statements + COMMIT, 2 ROLLBACK, 3 DDL, 4 DDL with context events,
/// 5 XA first phase, 6 XA COMMIT, 7 XA ROLLBACK, 8 interrupted transaction, 9 interrupted before its statement, 10 empty transaction, 11 XA in one phase.
pub fn group(r: &mut Rng, g: G, kind: usize, single: bool) -> Group {
    let maria = matches!(g, G::Ma(..));
    let mut v = vec![];
    let standalone = matches!(kind, 3 | 4 | 6 | 7 | 9);
    match g {
        G::My(u, n) => { let tail = { let k = r.usize(30); r.bytes(k) }; let f = *r.pick(&[0u8, 0, 1]); v.push(my_gtid(u, n, f, &tail)); }
        G::Ma(d, s, q) => {
            let mut f = if standalone { 1 } else { 0 };
            for b in [4u8, 8, 16, 32] { if r.pct(40) { f |= b; } }
            let mut tail = vec![0u8; 6];
            if r.pct(30) { f |= 2; tail = r.bytes(8); }
            if kind == 5 { f |= 0x40; tail.extend([0, 0, 0, 1, 1, 0, b'x']); }
            if kind == 6 || kind == 7 { f |= 0x80; tail.extend([0, 0, 0, 1, 1, 0, b'x']); }
            v.push(ma_gtid(d, s, q, f, &tail));
        }
    }
    if !standalone && kind != 5 && kind != 11 && !maria { v.push(query("BEGIN")); }
    let mut complete = true;
    let q = { let k = r.usize(4); r.bytes(k).iter().map(|b| format!("{:02x}", b)).collect::<String>() };
    let x = format!("X'78',X'{}',{}", q, *r.pick(&[1u32, 0, 7, u32::MAX]));
    match kind {
        0 => { v.extend(row_stmt(r, single)); v.extend(body_events(r, maria, single)); v.push(xid(if r.bool() { r.edge(64) } else { r.u64() })); }
        1 => { v.extend(body_events(r, maria, single)); v.push(query("COMMIT")); }
        2 => { v.extend(body_events(r, maria, single)); v.push(query("ROLLBACK")); }
        3 => v.push(query(&ddl(r))),
        4 => { if r.pct(20) { v.push(query("")); } if r.bool() { v.push(intvar(2, 7)); } if r.bool() { v.push(uservar("v", None)); } if r.bool() { let t = *r.pick(&[13u8, 3, 1]); v.push(unknown(t, vec![1, 2, 3])); } v.push(query(&ddl(r))); }
        5 | 11 => {
            if !maria { v.push(query(&format!("XA START {}", x))); }
            v.extend(body_events(r, maria, single));
            v.push(query(&format!("XA END {}", x)));
            let by_query = kind == 11 && r.bool();
            if by_query { v.push(query(&format!("XA COMMIT {} ONE PHASE", x))); }
            else { v.push(unknown(38, { let mut b = vec![(kind == 11) as u8]; b.extend(1u32.to_le_bytes()); b.extend(1u32.to_le_bytes()); b.extend((q.len() as u32 / 2).to_le_bytes()); b.push(b'x'); b.extend(vec![7; q.len() / 2]); b })); }
        }
        6 => v.push(query(&format!("XA COMMIT {}", x))),
        7 => v.push(query(&format!("XA ROLLBACK {}", x))),
        8 => { v.extend(body_events(r, maria, single)); if r.bool() { v.extend(row_stmt(r, single)); } complete = false; }
        9 => complete = false,
        _ => v.push(query("COMMIT")),
    }
    for e in v.iter_mut() { vary(r, e); }
    Group { gtid: g, evs: v, complete, kind }
}
/// What the server writes beside the statement: context of the connection, error code, flags, time.
fn vary(r: &mut Rng, e: &mut Ev) {
    if r.bool() { return; }
    if let Exp::Query { sql, .. } = &e.exp {
        let status = { let k = r.usize(40); r.bytes(k) };
        let db = match r.below(3) { 0 => { let k = r.usize(12); r.text_len(k) } 1 => r.pick(&["mysql", "sys", "information_schema", "performance_schema", "test", "MYSQL"]).to_string(), _ => String::new() };
        let err = if r.bool() { 0 } else { *r.pick(&[1u16, 1051, 1062, 1317, 1053, 65535]) };
        *e = query_full(r.edge(32) as u32, r.edge(32) as u32, err, &status, &db, &sql.clone());
        e.flags = *r.pick(&[0u16, 4, 8, 12, 0x100, 0x200, 0x8000]);
    }
    e.ts = *r.pick(&[0u32, 1, 1_700_000_000, u32::MAX]);
    // 65535 is what the client calls itself
    if !matches!(e.exp, Exp::MaGtid { .. }) { e.sid = *r.pick(&[0u32, 1, 2, 65535, u32::MAX]); }
}

/// Events that belong to no group.
pub fn between(r: &mut Rng, maria: bool) -> Ev {
    match r.below(6) {
        0 => heartbeat("mysql-bin.000004"),
        1 => { let mut e = rotate(4, "mysql-bin.000005"); if r.bool() { e.ts = 0; e.flags = 0x20; } e }
        2 => if maria { ma_list(0, &[(0, 1, 1_000_000), (9, 9, 9)]) } else { prev_gtids(&MSet::default()) },
        3 => if maria { unknown(161, b"\x10\0\0\0mysql-bin.000004".to_vec()) } else { unknown(3, vec![]) },
        4 => fde(if maria { "10.6.12-MariaDB-log" } else { "8.0.32" }, 42, Some(0)),
        _ => { let t = gen_unknown_type(r); if matches!(t, 38 | 40 | 165) { unknown(3, vec![]) } else { unknown(t, vec![1, 2]) } }
    }
}

pub fn record(my: &mut MSet, ma: &mut BTreeMap<u32, (u32, u64)>, g: &G) {
    match g {
        G::My(u, n) => my.add_interval(*u, *n, *n),
        G::Ma(d, s, q) => { ma.insert(*d, (*s, *q)); }
    }
}
pub fn check_position(cl: &BinlogClient, maria: bool, my: &MSet, ma: &BTreeMap<u32, (u32, u64)>) -> CaseResult {
    let b = &cl.options.binlog;
    if maria {
        let Some(l) = &b.gtid_list else { return Err("the GTID list is gone".into()) };
        ensure!(b.gtid_set.is_none(), "a MySQL GTID set appeared in a MariaDB replication");
        let mut g: Vec<(u32, u32, u64)> = l.gtids.iter().map(|x| (x.domain_id, x.server_id, x.sequence)).collect();
        g.sort();
        let w: Vec<(u32, u32, u64)> = ma.iter().map(|(d, (s, q))| (*d, *s, *q)).collect();
        ensure!(g == w, "recorded position {:?}, expected {:?}", gtid::list_text(&g), gtid::list_text(&w));
    } else {
        let Some(s) = &b.gtid_set else { return Err("the GTID set is gone".into()) };
        ensure!(b.gtid_list.is_none(), "a MariaDB GTID list appeared in a MySQL replication");
        gtid::check_set(s, my).map_err(|e| format!("recorded position: {}", e))?;
    }
    Ok(())
}

fn client(b: BinlogOptions) -> BinlogClient { BinlogClient::new(ReplicaOptions { binlog: b, ..Default::default() }) }

fn c17(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let n3 = (KINDS * KINDS * KINDS) as u64;
    if idx >= 2 * n3 && r.pct(1) { return reconnected(ctx, r); }
    let maria = if idx < 2 * n3 { idx >= n3 } else { r.bool() };
    let mut kinds: Vec<usize> = vec![];
    if idx < 2 * n3 {
        let mut c = (idx % n3) as usize;
        for _ in 0..3 { kinds.push(c % KINDS); c /= KINDS; }
        kinds.push(3);
        ctx.count("sequences of group kinds enumerated", 1);
    } else {
        let n = if r.pct(3) { 100 } else { 1 + r.usize(14) };
        for _ in 0..n { kinds.push(r.usize(KINDS)); }
    }
    // starting position
    let k = 1 + r.usize(3);
    let pool = gtid::gen_pool(r, k);
    let mut my = MSet::default();
    let mut ma: BTreeMap<u32, (u32, u64)> = BTreeMap::new();
    if r.bool() { for u in &pool { if r.bool() { let n = 1 + r.below(20); my.add_interval(*u, 1, n); } } }
    if r.bool() { for d in 0..r.below(4) { ma.insert(d as u32, (1, 10)); } }
    let on = !r.pct(12);
    let mut opts = if maria {
        let t = ma.iter().map(|(d, (s, q))| format!("{}-{}-{}", d, s, q)).collect::<Vec<_>>().join(",");
        BinlogOptions::from_mariadb_gtid(lib(|| GtidList::parse(&t))?.map_err(|e| format!("{:?}: {:?}", t, e))?)
    } else {
        let t = my.text();
        BinlogOptions::from_mysql_gtid(lib(|| GtidSet::parse(&t))?.map_err(|e| format!("{:?}: {:?}", t, e))?)
    };
    let keep = r.bool();
    if !on {
        opts.starting_strategy = *r.pick(&[StartingStrategy::FromStart, StartingStrategy::FromEnd, StartingStrategy::FromPosition]);
        if !keep { opts.gtid_set = None; opts.gtid_list = None; }
        ctx.count("histories without GTID replication", 1);
    }
    // the history: events, and the group each event completes
    let mut next_no: BTreeMap<usize, u64> = BTreeMap::new();
    let mut evs: Vec<Ev> = vec![];
    let mut done: Vec<Option<G>> = vec![];
    let mut sig = crate::rng::hash_str(&format!("{} {} {:?}", maria, on, kinds));
    for kind in &kinds {
        let g = if maria {
            let d = r.below(3) as u32;
            let q = next_no.entry(d as usize).or_insert(11);
            let x = *q;
            if r.pct(90) { *q += 1 + r.below(2); }
            G::Ma(d, *r.pick(&[1u32, 2, 3, 65535]), x)
        } else {
            let u = r.usize(pool.len());
            let q = next_no.entry(u).or_insert_with(|| 1 + my.0.get(&pool[u]).and_then(|v| v.last()).map(|x| x.1).unwrap_or(0));
            let x = *q;
            if r.pct(90) { *q += 1 + r.below(2); }
            G::My(pool[u], x)
        };
        let gr = group(r, g, *kind, false);
        ctx.count("groups", 1);
        if !gr.complete { ctx.count("interrupted groups", 1); }
        let last = gr.evs.len() - 1;
        for (i, e) in gr.evs.into_iter().enumerate() {
            // heartbeats can come anywhere
            if r.pct(4) { evs.push(heartbeat("mysql-bin.000004")); done.push(None); }
            evs.push(e);
            done.push(if gr.complete && i == last { Some(g) } else { None });
        }
        if !gr.complete && r.pct(70) { evs.push(between(r, maria)); done.push(None); }
        if r.pct(25) { evs.push(between(r, maria)); done.push(None); }
        sig = sig.wrapping_mul(31).wrapping_add(match g { G::My(_, n) => n, G::Ma(d, _, q) => q ^ (d as u64) << 40 });
    }
    ctx.sig(sig);
    lay_out(&mut evs, 4, false);
    // format descriptions inside have checksum bytes
    let items = decode_mixed(&evs)?;
    let mut cl = client(opts);
    ctx.sample(|| format!("maria {}, GTID mode {}, groups {:?}", maria, on, kinds));
    ctx.count("commits", items.len() as u64);
    let before = (my.clone(), ma.clone());
    for (i, (h, e)) in items.iter().enumerate() {
        lib(|| cl.commit(h, e)).map_err(|m| format!("committing event {} ({:?}): {}", i, evs[i].ty, m))?;
        if on {
            if let Some(g) = &done[i] { record(&mut my, &mut ma, g); ctx.count("transactions recorded", 1); }
            check_position(&cl, maria, &my, &ma).map_err(|m| format!("after committing event {} (type {}, {}) of groups {:?}: {}", i, evs[i].ty, short(format!("{:?}", evs[i].exp)), kinds, m))?;
        } else if keep {
            check_position(&cl, maria, &before.0, &before.1).map_err(|m| format!("not replicating by GTID, after event {}: {}", i, m))?;
        } else {
            ensure!(cl.options.binlog.gtid_set.is_none() && cl.options.binlog.gtid_list.is_none(), "not replicating by GTID, but event {} created a GTID position", i);
        }
    }
    Ok(())
}

/// A session that ends anywhere in a group; the next one starts with the ends of transactions that were not announced.
fn reconnected(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let maria = r.bool();
    let pool = gtid::gen_pool(r, 2);
    let mut no = 0;
    let mut my = MSet::default();
    let mut ma: BTreeMap<u32, (u32, u64)> = BTreeMap::new();
    // per session: events and the group each completes
    let mut parts: Vec<Vec<(Ev, Option<G>)>> = vec![];
    let n = 2 + r.usize(3);
    for s in 0..n {
        let mut v = vec![];
        if s > 0 {
            for _ in 0..1 + r.usize(2) {
                if r.bool() { v.push((unknown(34, vec![1; 25]), None)); }
                let kind = *r.pick(&[0usize, 1, 2, 3, 4, 6, 7, 10, 11]);
                let g = group(r, G::My([1; 16], 1), kind, false);
                let from = 1 + r.usize(g.evs.len() - 1);
                v.extend(g.evs.into_iter().skip(from).filter(|e| !matches!(e.exp, Exp::Rows(_))).map(|e| (e, None)));
            }
        }
        for _ in 0..1 + r.usize(3) {
            no += 1;
            let g = if maria { G::Ma(r.below(2) as u32, 1, no) } else { G::My(*r.pick(&pool), no) };
            let kind = r.usize(KINDS);
            let gr = group(r, g, kind, false);
            let last = gr.evs.len() - 1;
            for (i, e) in gr.evs.into_iter().enumerate() { v.push((e, if gr.complete && i == last { Some(g) } else { None })); }
        }
        if s + 1 < n {
            // the last group begins but is not finished
            no += 1;
            let g = if maria { G::Ma(r.below(2) as u32, 1, no) } else { G::My(*r.pick(&pool), no) };
            let kind = *r.pick(&[0usize, 1, 2, 4, 5, 11, 3]);
            let gr = group(r, g, kind, false);
            let k = 1 + r.usize(gr.evs.len() - 1);
            v.extend(gr.evs.into_iter().take(k).map(|e| (e, None)));
        }
        parts.push(v);
    }
    ctx.sig(parts.iter().flatten().fold(7, |a: u64, (e, _)| a.rotate_left(5) ^ e.ty as u64 ^ (e.body.len() as u64) << 8));
    ctx.count("clients that reconnect in a group", 1);
    ctx.count("commits", parts.iter().map(|p| p.len() as u64).sum());
    for p in parts.iter_mut() { let mut evs: Vec<Ev> = p.iter().map(|x| x.0.clone()).collect(); lay_out(&mut evs, 4, false); for (x, e) in p.iter_mut().zip(evs) { x.0 = e; } }
    ctx.sample(|| format!("{} sessions, event types {:?}", n, parts.iter().map(|p| p.iter().map(|e| e.0.ty).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let mut cfg = server::cfg(maria);
    cfg.checksum = "NONE".into();
    let how = r.u64();
    let (_, res) = server::with_server(ctx.worker, |l| {
        for (i, p) in parts.iter().enumerate() {
            net::serve_one(l, &cfg, |_| {}, |c, _, _| {
                let mut st = net::Stream::new(c);
                for (e, _) in p { st.event(e, false)?; }
                match (how >> (2 * i)) & 3 { 0 => Ok(()), 1 => st.put(&server::err_body(1236, Some("HY000"), "gone")), _ => st.put(&server::eof_body()) }
            });
        }
    }, |h, port| -> CaseResult {
        let b = if maria { BinlogOptions::from_mariadb_gtid(GtidList::new()) } else { BinlogOptions::from_mysql_gtid(GtidSet::new()) };
        let mut cl = BinlogClient::new(net::options(&cfg, h, port, b));
        for (s, p) in parts.iter().enumerate() {
            let mut st = net::replicate(&mut cl)?.map_err(|e| format!("session {}: {:?}", s, e))?;
            check_position(&cl, maria, &my, &ma).map_err(|m| format!("after replicate(), session {}: {}", s, m))?;
            for (i, (e, done)) in p.iter().enumerate() {
                let Some(g) = net::next(&mut st)? else { return Err(format!("session {} ended after {} events", s, i)) };
                check(e, false, &g).map_err(|m| format!("session {} event {}: {}", s, i, m))?;
                let (h, b) = g.map_err(|e| format!("{:?}", e))?;
                lib(|| cl.commit(&h, &b))?;
                if let Some(g) = done { record(&mut my, &mut ma, g); }
                check_position(&cl, maria, &my, &ma).map_err(|m| format!("session {}, after committing event {} (type {}, {}): {}", s, i, e.ty, short(format!("{:?}", e.exp)), m))?;
            }
            lib(|| drop(st.next()))?;
        }
        Ok(())
    });
    res
}

/// Decodes the events with the library; format descriptions carry a checksum field of their own.
fn decode_mixed(evs: &[Ev]) -> Result<Vec<(mysql_cdc::events::event_header::EventHeader, mysql_cdc::events::binlog_event::BinlogEvent)>, String> {
    let mut all = vec![fde("8.0.32", 40, Some(0))];
    all.extend(evs.iter().cloned());
    let f: Vec<bool> = all.iter().map(|e| matches!(e.exp, Exp::Fde { .. })).collect();
    let b = file_bytes(&all, &|i| f[i]);
    let out = read_all(&b, all.len() + 2)?.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    ensure!(out.items.len() == all.len(), "{} items for {} events", out.items.len(), all.len());
    let mut v = vec![];
    for (i, x) in out.items.into_iter().enumerate() {
        check(&all[i], f[i], &x)?;
        if i > 0 { v.push(x.map_err(|e| format!("event {}: {:?}", i, e))?); }
    }
    Ok(v)
}

fn c18(ctx: &mut Ctx, r: &mut Rng, _idx: u64) -> CaseResult {
    let maria = r.bool();
    let n = if r.pct(4) { 300 } else { 1 + r.usize(40) };
    let mut evs: Vec<Ev> = vec![];
    while evs.len() < n {
        match r.below(8) {
            0 | 1 => { let g = if maria { G::Ma(r.below(2) as u32, 1, 1 + r.below(50)) } else { G::My([9; 16], 1 + r.below(50)) }; let k = r.usize(KINDS); evs.extend(group(r, g, k, false).evs); }
            2 => { let id = r.below(5); evs.extend(gen_group(r, id, true)); }
            3 => { let p = r.edge(32); let f = if r.pct(70) { format!("mysql-bin.{:06}", r.below(30)) } else { r.text(100) }; evs.push(rotate(p, &f)); }
            4 => evs.push(between(r, maria)),
            _ => { let mut e = gen_plain(r); if e.ty == 4 || e.ty == 38 { e = xid(3); } evs.push(e); }
        }
    }
    let f: Vec<bool> = evs.iter().map(|e| matches!(e.exp, Exp::Fde { .. })).collect();
    let mut p = 4usize;
    for (e, c) in evs.iter_mut().zip(&f) {
        p += e.size(*c);
        e.next = match r.below(10) { 0 | 1 => 0, 2 => r.edge(32) as u32, _ => p as u32 };
        if r.pct(10) { e.flags = r.edge(16) as u16; }
        if r.pct(10) { e.ts = 0; }
    }
    let items = decode_mixed(&evs)?;
    let (mut file, mut pos) = (String::new(), 4u32);
    let mut opts = match r.below(4) {
        0 => BinlogOptions::from_start(),
        1 => { file = "mysql-bin.000003".into(); pos = r.edge(32) as u32; BinlogOptions::from_position(file.clone(), pos) }
        2 => { pos = 0; BinlogOptions::from_end() }
        _ => if maria { BinlogOptions::from_mariadb_gtid(lib(|| GtidList::parse("0-1-1"))?.map_err(|e| format!("{:?}", e))?) } else { BinlogOptions::from_mysql_gtid(GtidSet::new()) },
    };
    if opts.starting_strategy == StartingStrategy::FromEnd && r.bool() { file = "end.000001".into(); pos = 77; opts.filename = file.clone(); opts.position = pos; }
    ensure!(opts.filename == file && opts.position == pos, "starting options: {:?} {}", opts.filename, opts.position);
    let mut cl = client(opts);
    let mut sig = 0u64;
    ctx.count("histories", 1);
    ctx.count("commits", items.len() as u64);
    ctx.sample(|| format!("event types and positions {:?}", evs.iter().take(14).map(|e| (e.ty, e.next)).collect::<Vec<_>>()));
    for (i, (h, e)) in items.iter().enumerate() {
        let before = pos;
        match &evs[i].exp {
            Exp::Table(_) => {}
            Exp::Rotate(p, f) => { file = f.clone(); pos = *p as u32; ctx.count("rotations", 1); }
            _ => if evs[i].next > 0 { pos = evs[i].next; } else { ctx.count("events without a position", 1); },
        }
        sig = sig.wrapping_mul(0x100000001b3) ^ (evs[i].ty as u64) << 32 ^ evs[i].next as u64;
        lib(|| cl.commit(h, e)).map_err(|m| format!("committing event {}: {}", i, m))?;
        let b = &cl.options.binlog;
        ensure!(b.filename == file && b.position == pos, "after committing event {} (type {}, next position {}, {}; before: {}): recorded {:?} {}, expected {:?} {}", i, evs[i].ty, evs[i].next, short(format!("{:?}", evs[i].exp)), before, b.filename, b.position, file, pos);
    }
    ctx.sig(sig);
    Ok(())
}
