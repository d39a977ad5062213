//! Model of binlog events: encoding, generation, and comparison with what the library reports.
use crate::enc::{self, Hdr, W};
use crate::gtid::{self, MSet};
use crate::model::{self, *};
use crate::rng::Rng;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent as BE;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::metadata::default_charset::DefaultCharset;

#[derive(Clone, Debug)]
pub enum Exp {
    Unknown,
    /// complete, but the library must report an error in its place
    Err,
    /// error or event, but not a panic (no expectation on the content)
    Any,
    Query { thread: u32, dur: u32, err: u16, status: Vec<u8>, db: String, sql: String },
    Xid(u64),
    Rotate(u64, String),
    IntVar(u8, u64),
    UserVar { name: String, value: Option<(u8, u32, String, u8)> },
    RowsQuery(String),
    Heartbeat(String),
    Fde { version: u16, server: String, alg: u8 },
    MyGtid { uuid: [u8; 16], gno: u64, flags: u8 },
    PrevGtids(MSet),
    MaGtid { domain: u32, server: u32, seq: u64, flags: u8 },
    MaList(Vec<(u32, u32, u64)>),
    Table(Table),
    Rows(Rows),
}

#[derive(Clone, Debug)]
pub struct Ev { pub ts: u32, pub ty: u8, pub sid: u32, pub next: u32, pub flags: u16, pub body: Vec<u8>, pub exp: Exp }

impl Ev {
    pub fn new(ty: u8, body: Vec<u8>, exp: Exp) -> Self { Ev { ts: 1_600_000_000, ty, sid: 1, next: 0, flags: 0, body, exp } }
    pub fn with_header(mut self, r: &mut Rng) -> Self {
        self.ts = if r.pct(30) { odd_time(r) } else { r.edge(32) as u32 };
        if !matches!(self.exp, Exp::MaGtid { .. }) { self.sid = r.edge(32) as u32; }
        self.next = r.edge(32) as u32;
        self.flags = r.edge(16) as u16;
        self
    }
    pub fn size(&self, crc: bool) -> usize { enc::HEADER + self.body.len() + if crc { 4 } else { 0 } }
    pub fn hdr(&self, crc: bool) -> Hdr { Hdr { ts: self.ts, ty: self.ty, sid: self.sid, len: self.size(crc) as u32, next: self.next, flags: self.flags } }
    pub fn bytes(&self, crc: bool) -> Vec<u8> {
        enc::event(&self.hdr(crc), &self.body, crc)
    }
}

pub type Item = Result<(EventHeader, BE), Error>;

/// Times whose bytes look like something else: the signature of a log, status bytes of packets, the two bytes of
/// semi-synchronous replication.
pub fn odd_time(r: &mut Rng) -> u32 {
    let hi = r.u64() as u32;
    match r.below(4) {
        0 => u32::from_le_bytes(*b"\xfebin"),
        1 => hi & 0xffff_0000 | (r.below(2) as u32) << 8 | 0xef,
        2 => hi & 0xffff_ff00 | *r.pick(&[0u32, 0xfe, 0xff, 0xfb]),
        _ => hi,
    }
}

pub fn check_header(h: &EventHeader, w: &Hdr) -> Result<(), String> {
    let g = Hdr { ts: h.timestamp, ty: h.event_type, sid: h.server_id, len: h.event_length, next: h.next_event_position, flags: h.event_flags };
    if g == *w { Ok(()) } else { Err(format!("header: got {:?}, the server wrote {:?}", g, w)) }
}

/// Compares what the library yielded with the event that was written.
pub fn check(ev: &Ev, crc: bool, got: &Item) -> Result<(), String> {
    match (&ev.exp, got) {
        (Exp::Any, _) => Ok(()),
        (Exp::Err, Err(_)) => Ok(()),
        (Exp::Err, Ok((_, e))) => Err(format!("an undecodable event (type {}) was reported as {}", ev.ty, short(format!("{:?}", e)))),
        (_, Err(e)) => Err(format!("event of type {} ({}) was reported as an error: {:?}", ev.ty, short(format!("{:?}", ev.exp)), e)),
        (_, Ok((h, e))) => { check_header(h, &ev.hdr(crc))?; check_event(&ev.exp, e) }
    }
}

macro_rules! same { ($n:expr, $g:expr, $w:expr) => { if $g != $w { return Err(format!("{}: got {}, expected {}", $n, short(format!("{:?}", $g)), short(format!("{:?}", $w)))); } } }

pub fn check_event(exp: &Exp, e: &BE) -> Result<(), String> {
    match (exp, e) {
        (Exp::Unknown, BE::UnknownEvent) => Ok(()),
        (Exp::Query { thread, dur, err, status, db, sql }, BE::QueryEvent(q)) => {
            same!("query thread id", q.thread_id, *thread);
            same!("query duration", q.duration, *dur);
            same!("query error code", q.error_code, *err);
            same!("query status variables", q.status_variables, *status);
            same!("query database", q.database_name, *db);
            same!("query statement", q.sql_statement, *sql);
            Ok(())
        }
        (Exp::Xid(x), BE::XidEvent(g)) => { same!("xid", g.xid, *x); Ok(()) }
        (Exp::Rotate(p, f), BE::RotateEvent(g)) => { same!("rotate position", g.binlog_position, *p); same!("rotate file", g.binlog_filename, *f); Ok(()) }
        (Exp::IntVar(t, v), BE::IntVarEvent(g)) => { same!("intvar type", g.intvar_type, *t); same!("intvar value", g.value, *v); Ok(()) }
        (Exp::UserVar { name, value }, BE::UserVarEvent(g)) => {
            same!("user variable name", g.name, *name);
            match (value, &g.value) {
                (None, None) => Ok(()),
                (Some((t, c, v, f)), Some(x)) => {
                    same!("user variable type", x.var_type, *t);
                    same!("user variable collation", x.collation, *c);
                    same!("user variable value", x.value, *v);
                    same!("user variable flags", x.flags, *f);
                    Ok(())
                }
                (w, g) => Err(format!("user variable value: got {:?}, expected {:?}", g, w)),
            }
        }
        (Exp::RowsQuery(q), BE::RowsQueryEvent(g)) => { same!("rows query", g.query, *q); Ok(()) }
        (Exp::Heartbeat(f), BE::HeartbeatEvent(g)) => { same!("heartbeat file", g.binlog_filename, *f); Ok(()) }
        (Exp::Fde { version, server, alg }, BE::FormatDescriptionEvent(g)) => {
            same!("binlog version", g.binlog_version, *version);
            same!("server version", g.server_version, *server);
            same!("checksum type", g.checksum_type as u8, *alg);
            Ok(())
        }
        (Exp::MyGtid { uuid, gno, flags }, BE::MySqlGtidEvent(g)) => {
            same!("gtid source id", g.gtid.source_id.data, *uuid);
            same!("gtid source id text", g.gtid.source_id.uuid, gtid::uuid_text(uuid));
            same!("gtid number", g.gtid.transaction_id, *gno);
            same!("gtid flags", g.flags, *flags);
            Ok(())
        }
        (Exp::PrevGtids(s), BE::MySqlPrevGtidsEvent(g)) => gtid::check_set(&g.gtid_set, s),
        (Exp::MaGtid { domain, server, seq, flags }, BE::MariaDbGtidEvent(g)) => {
            same!("gtid domain", g.gtid.domain_id, *domain);
            same!("gtid server", g.gtid.server_id, *server);
            same!("gtid sequence", g.gtid.sequence, *seq);
            same!("gtid flags", g.flags, *flags);
            Ok(())
        }
        (Exp::MaList(l), BE::MariaDbGtidListEvent(g)) => {
            let got: Vec<(u32, u32, u64)> = g.gtid_list.gtids.iter().map(|x| (x.domain_id, x.server_id, x.sequence)).collect();
            same!("gtid list", got, *l);
            Ok(())
        }
        (Exp::Table(t), BE::TableMapEvent(g)) => {
            same!("table id", g.table_id, t.id);
            same!("database name", g.database_name, t.db);
            same!("table name", g.table_name, t.name);
            let types: Vec<u8> = t.cols.iter().map(|c| c.ty).collect();
            same!("column types", g.column_types, types);
            let m: Vec<u16> = t.cols.iter().map(|c| c.meta16).collect();
            same!("column metadata", g.column_metadata, m);
            same!("nullability", g.null_bitmap, t.nullable);
            match (&t.meta, &g.table_metadata) {
                (None, None) => Ok(()),
                (Some((w, _)), Some(m)) => {
                    let cs = |d: &Option<DefaultCharset>| d.as_ref().map(|d| (d.default_charset_collation, d.charset_collations.clone()));
                    let got = Meta {
                        signedness: m.signedness.clone(), default_charset: cs(&m.default_charset), column_charsets: m.column_charsets.clone(),
                        column_names: m.column_names.clone(), set_values: m.set_string_values.clone(), enum_values: m.enum_string_values.clone(),
                        geometry_types: m.geometry_types.clone(), simple_pk: m.simple_primary_keys.clone(), prefix_pk: m.primary_keys_with_prefix.clone(),
                        es_default_charset: cs(&m.enum_and_set_default_charset), es_column_charsets: m.enum_and_set_column_charsets.clone(), visibility: m.column_visibility.clone(),
                    };
                    same!("metadata: signedness", got.signedness, w.signedness);
                    same!("metadata: default charset", got.default_charset, w.default_charset);
                    same!("metadata: column charsets", got.column_charsets, w.column_charsets);
                    same!("metadata: column names", got.column_names, w.column_names);
                    same!("metadata: set values", got.set_values, w.set_values);
                    same!("metadata: enum values", got.enum_values, w.enum_values);
                    same!("metadata: geometry types", got.geometry_types, w.geometry_types);
                    same!("metadata: primary key", got.simple_pk, w.simple_pk);
                    same!("metadata: prefix primary key", got.prefix_pk, w.prefix_pk);
                    same!("metadata: enum/set default charset", got.es_default_charset, w.es_default_charset);
                    same!("metadata: enum/set charsets", got.es_column_charsets, w.es_column_charsets);
                    same!("metadata: visibility", got.visibility, w.visibility);
                    Ok(())
                }
                (w, g) => Err(format!("table metadata: got {}, expected {}", short(format!("{:?}", g)), short(format!("{:?}", w)))),
            }
        }
        (Exp::Rows(w), BE::WriteRowsEvent(g)) if w.op == Op::Write => {
            rows_head(w, g.table_id, g.flags, g.columns_number, &g.columns_present)?;
            same!("number of rows", g.rows.len(), w.rows.len());
            for (i, (a, b)) in g.rows.iter().zip(&w.rows).enumerate() { row_eq(&a.cells, b).map_err(|e| format!("row {}: {}", i, e))?; }
            Ok(())
        }
        (Exp::Rows(w), BE::DeleteRowsEvent(g)) if w.op == Op::Delete => {
            rows_head(w, g.table_id, g.flags, g.columns_number, &g.columns_present)?;
            same!("number of rows", g.rows.len(), w.rows.len());
            for (i, (a, b)) in g.rows.iter().zip(&w.rows).enumerate() { row_eq(&a.cells, b).map_err(|e| format!("row {}: {}", i, e))?; }
            Ok(())
        }
        (Exp::Rows(w), BE::UpdateRowsEvent(g)) if w.op == Op::Update => {
            rows_head(w, g.table_id, g.flags, g.columns_number, &g.columns_before_update)?;
            same!("columns present after update", g.columns_after_update, w.present2);
            same!("number of rows", g.rows.len(), w.rows.len());
            for i in 0..w.rows.len() {
                row_eq(&g.rows[i].before_update.cells, &w.rows[i]).map_err(|e| format!("row {} before: {}", i, e))?;
                row_eq(&g.rows[i].after_update.cells, &w.rows2[i]).map_err(|e| format!("row {} after: {}", i, e))?;
            }
            Ok(())
        }
        (w, g) => Err(format!("event kind: got {}, expected {}", short(format!("{:?}", g)), short(format!("{:?}", w)))),
    }
}
fn rows_head(w: &Rows, id: u64, flags: u16, n: usize, present: &Vec<bool>) -> Result<(), String> {
    same!("rows table id", id, w.table_id);
    same!("rows flags", flags, w.flags);
    same!("rows column count", n, w.ncols);
    same!("columns present", *present, w.present);
    Ok(())
}
pub fn row_eq(got: &[Option<mysql_cdc::events::row_events::mysql_value::MySqlValue>], want: &Row) -> Result<(), String> {
    same!("number of cells", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if !cell_eq(g, w) { return Err(format!("cell {}: got {}, expected {}", i, short(format!("{:?}", g)), short(format!("{:?}", w)))); }
    }
    Ok(())
}

// ---- constructors ----

pub fn query(sql: &str) -> Ev { query_full(1, 0, 0, &[], "db", sql) }
pub fn query_full(thread: u32, dur: u32, err: u16, status: &[u8], db: &str, sql: &str) -> Ev {
    let mut w = W::new();
    w.u32(thread).u32(dur).u8(db.len() as u8).u16(err).u16(status.len() as u16).bytes(status).str0(db).bytes(sql.as_bytes());
    Ev::new(2, w.0, Exp::Query { thread, dur, err, status: status.to_vec(), db: db.into(), sql: sql.into() })
}
pub fn xid(x: u64) -> Ev { Ev::new(16, x.to_le_bytes().to_vec(), Exp::Xid(x)) }
pub fn rotate(pos: u64, file: &str) -> Ev {
    let mut w = W::new();
    w.u64(pos).bytes(file.as_bytes());
    Ev::new(4, w.0, Exp::Rotate(pos, file.into()))
}
pub fn heartbeat(file: &str) -> Ev { Ev::new(27, file.as_bytes().to_vec(), Exp::Heartbeat(file.into())) }
pub fn intvar(t: u8, v: u64) -> Ev { let mut w = W::new(); w.u8(t).u64(v); Ev::new(5, w.0, Exp::IntVar(t, v)) }
pub fn uservar(name: &str, value: Option<(u8, u32, String, u8)>) -> Ev {
    let mut w = W::new();
    w.u32(name.len() as u32).bytes(name.as_bytes());
    match &value {
        None => { w.u8(1); }
        Some((t, c, v, f)) => { w.u8(0).u8(*t).u32(*c).u32(v.len() as u32).bytes(v.as_bytes()).u8(*f); }
    }
    Ev::new(14, w.0, Exp::UserVar { name: name.into(), value })
}
/// The server writes the length modulo 256.
pub fn rows_query(q: &str) -> Ev { let mut w = W::new(); w.u8(q.len() as u8).bytes(q.as_bytes()); Ev::new(29, w.0, Exp::RowsQuery(q.into())) }
pub fn annotate(q: &str) -> Ev { Ev::new(160, q.as_bytes().to_vec(), Exp::RowsQuery(q.into())) }
/// alg None: a server that predates checksums.
pub fn fde(server: &str, n: usize, alg: Option<u8>) -> Ev {
    Ev::new(15, enc::fde_body(4, server, 0, n, alg), Exp::Fde { version: 4, server: server.into(), alg: alg.unwrap_or(0) })
}
pub fn my_gtid(uuid: [u8; 16], gno: u64, flags: u8, tail: &[u8]) -> Ev {
    let mut w = W::new();
    w.u8(flags).bytes(&uuid).u64(gno).bytes(tail);
    Ev::new(33, w.0, Exp::MyGtid { uuid, gno, flags })
}
pub fn prev_gtids(s: &MSet) -> Ev {
    let mut w = W::new();
    w.u64(s.0.len() as u64);
    for (u, iv) in &s.0 {
        w.bytes(u).u64(iv.len() as u64);
        for (a, b) in iv { w.u64(*a).u64(*b + 1); }
    }
    Ev::new(35, w.0, Exp::PrevGtids(s.clone()))
}
pub fn ma_gtid(domain: u32, server: u32, seq: u64, flags: u8, tail: &[u8]) -> Ev {
    let mut w = W::new();
    w.u64(seq).u32(domain).u8(flags).bytes(tail);
    let mut e = Ev::new(162, w.0, Exp::MaGtid { domain, server, seq, flags });
    e.sid = server;
    e
}
pub fn ma_list(flags: u32, l: &[(u32, u32, u64)]) -> Ev {
    let mut w = W::new();
    w.u32(l.len() as u32 | (flags << 28));
    for (d, s, q) in l { w.u32(*d).u32(*s).u64(*q); }
    Ev::new(163, w.0, Exp::MaList(l.to_vec()))
}
pub fn table(t: &Table) -> Ev { Ev::new(19, t.body(), Exp::Table(t.clone())) }
pub fn rows(body: Vec<u8>, x: Rows) -> Ev { Ev::new(x.ty(), body, Exp::Rows(x)) }
pub fn unknown(ty: u8, body: Vec<u8>) -> Ev { Ev::new(ty, body, Exp::Unknown) }

/// Type codes the library documents as decoded.
pub const DECODED: [u8; 20] = [2, 4, 5, 14, 15, 16, 19, 23, 24, 25, 27, 29, 30, 31, 32, 33, 35, 160, 162, 163];

pub fn gen_unknown_type(r: &mut Rng) -> u8 {
    loop {
        let t = match r.below(3) { 0 => *r.pick(&[0u8, 1, 3, 13, 34, 36, 37, 38, 40, 41, 161, 164, 165, 166, 255]), _ => r.u8() };
        if !DECODED.contains(&t) { return t; }
    }
}

/// A self-contained non-row event with arbitrary field values.
pub fn gen_plain(r: &mut Rng) -> Ev {
    match r.below(15) {
        0 | 1 => {
            let status = { let n = r.len(400); r.bytes(n) };
            let db = r.text_len_small(255);
            let sql = gen_sql(r);
            query_full(r.edge(32) as u32, r.edge(32) as u32, r.edge(16) as u16, &status, &db, &sql)
        }
        2 => xid(r.edge(64)),
        3 => { let p = r.edge(64); let f = r.text(512); rotate(p, &f) }
        4 => intvar(r.edge(8) as u8, r.edge(64)),
        5 => {
            let name = r.text(300);
            let v = if r.pct(25) { None } else { Some((r.edge(8) as u8, r.edge(32) as u32, { let s = r.text(600); nuls(r, s) }, r.edge(8) as u8)) };
            uservar(&name, v)
        }
        6 => { let q = gen_sql(r); rows_query(&q) }
        7 => { let q = gen_sql(r); annotate(&q) }
        8 => { let f = r.text(512); heartbeat(&f) }
        9 | 10 => { let tail = if r.bool() { let n = r.len(60); r.bytes(n) } else { vec![] }; my_gtid(gtid::gen_uuid(r), r.edge_in(1, i64::MAX as u64), r.u8(), &tail) }
        11 => { let s = gtid::gen_set(r, 4, 5, 1 << 62); prev_gtids(&s) }
        12 => { let tail = if r.bool() { let n = r.len(20); r.bytes(n) } else { vec![0; 6] }; ma_gtid(r.edge(32) as u32, r.edge(32) as u32, r.edge(64), r.u8(), &tail) }
        13 => { let n = r.len(6); let l = gtid::gen_list(r, n); ma_list(*r.pick(&[0u32, 0, 1, 2, 8, 15]), &l) }
        _ => { let t = gen_unknown_type(r); let n = r.len(300); let b = r.bytes(n); unknown(t, b) }
    }
}
/// About `n` bytes, cheap to make and different throughout.
pub fn long_text(r: &mut Rng, n: usize) -> String {
    let k = 1 + r.len(90);
    let p = r.text_len(k);
    let mut s = String::with_capacity(n + 200);
    while s.len() < n { s.push_str(&p); s.push_str(&s.len().to_string()); }
    s
}
/// Sometimes with NUL characters, last or inside.
fn nuls(r: &mut Rng, mut s: String) -> String {
    if r.pct(4) { s.push('\0'); if r.pct(30) { s.push('\0'); } }
    if r.pct(3) { s.insert(0, '\0'); }
    if r.pct(3) { let mut i = r.usize(s.len() + 1); while !s.is_char_boundary(i) { i -= 1; } s.insert(i, '\0'); }
    s
}
pub fn gen_sql(r: &mut Rng) -> String { let s = gen_sql1(r); nuls(r, s) }
fn gen_sql1(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.pick(&["BEGIN", "COMMIT", "ROLLBACK", "", "SAVEPOINT a", "INSERT INTO t VALUES (1)", "CREATE TABLE t (a INT)"]).to_string(),
        1 => { let n = r.edge_in(0, 3000) as usize; r.text_len(n) }
        2 if r.pct(10) => { let n = r.edge_in(0, 70000) as usize; r.text_len(n) }
        _ => r.text(400),
    }
}

/// A table definition followed by row events on it.
pub fn gen_group(r: &mut Rng, id: u64, small: bool) -> Vec<Ev> {
    let n = if small { 1 + r.usize(4) } else { 1 + r.len(12) };
    let cols: Vec<Col> = (0..n).map(|_| { let k = if small { gen_small_kind(r) } else { gen_kind(r) }; model::col(k) }).collect();
    let t = gen_table(r, id, cols);
    let mut v = vec![table(&t)];
    for _ in 0..r.usize(3) {
        let mut o = gen_opts(r);
        if small { o.nrows = o.nrows.min(3); }
        let (b, x) = gen_rows(r, &t, &o);
        v.push(rows(b, x));
    }
    v
}

/// A list of events, each decodable where it stands.
pub fn gen_events(r: &mut Rng, n: usize, small: bool) -> Vec<Ev> {
    let mut v = vec![];
    while v.len() < n {
        if r.pct(35) { let id = r.edge(48); v.extend(gen_group(r, id, small)); } else { v.push(gen_plain(r)); }
    }
    v.truncate(n);
    v
}

pub const MAGIC: [u8; 4] = [0xfe, b'b', b'i', b'n'];

/// Sets every event's next position from its place in a file that starts at `start`.
pub fn lay_out(evs: &mut [Ev], start: usize, crc: bool) {
    let mut p = start;
    for e in evs.iter_mut() { p += e.size(crc); e.next = p as u32; }
}
pub fn file_bytes(evs: &[Ev], crc: &dyn Fn(usize) -> bool) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    for (i, e) in evs.iter().enumerate() { v.extend(e.bytes(crc(i))); }
    v
}

// ---- reading files with the library ----

pub fn memfile(b: &[u8]) -> std::fs::File {
    use std::io::{Seek, SeekFrom, Write};
    use std::os::fd::FromRawFd;
    let fd = unsafe { libc::memfd_create(b"vmon\0".as_ptr() as *const libc::c_char, libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    f.write_all(b).expect("memfd write");
    f.seek(SeekFrom::Start(0)).expect("memfd seek");
    f
}

/// Everything the reader yields, up to `limit` items (then None is reported as missing).
pub struct ReadOut { pub items: Vec<Item>, pub ended: bool }

pub fn read_all(b: &[u8], limit: usize) -> Result<Result<ReadOut, Error>, String> { read_file(memfile(b), limit) }

/// The same through a pipe, which gives the bytes in arbitrary pieces. None: the reader needs a file it can seek in.
pub fn read_piped(b: &[u8], limit: usize, seed: u64) -> Result<Option<Result<ReadOut, Error>>, String> {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    assert!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "pipe");
    let (rd, mut wr) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
    let out = std::thread::scope(|sc| {
        sc.spawn(move || {
            let mut r = crate::rng::Rng::new(seed, 77, 7);
            let mut o = 0;
            let mut pauses = 0;
            while o < b.len() {
                let n = match r.below(5) { 0 => 1, 1 => 1 + r.usize(4), 2 => 1 + r.usize(30), 3 => 1 + r.usize(700), _ => 1 + r.usize(70_000) }.min(b.len() - o);
                if wr.write_all(&b[o..o + n]).is_err() { return; }
                o += n;
                // the reader takes what is there
                if pauses < 200 { pauses += 1; std::thread::yield_now(); if r.pct(20) { std::thread::sleep(std::time::Duration::from_micros(20)); } }
            }
        });
        read_file(rd, limit)
    })?;
    let seek = |e: &Error| matches!(e, Error::IoError(e) if e.raw_os_error() == Some(libc::ESPIPE));
    if match &out { Err(e) => seek(e), Ok(o) => o.items.iter().any(|i| matches!(i, Err(e) if seek(e))) } { return Ok(None); }
    Ok(Some(out))
}

pub fn read_file(f: std::fs::File, limit: usize) -> Result<Result<ReadOut, Error>, String> {
    use mysql_cdc::binlog_reader::BinlogReader;
    crate::mon::lib(move || {
        let rd = match BinlogReader::new(f) { Ok(r) => r, Err(e) => return Err(e) };
        let mut items = vec![];
        let mut ended = false;
        let mut it = rd.read_events();
        while items.len() < limit {
            match it.next() { Some(x) => items.push(x), None => { ended = true; break; } }
        }
        Ok(ReadOut { items, ended })
    })
}

/// Reads the file and compares with the expected events, which must be all there is.
pub fn expect_file(evs: &[Ev], crc: &dyn Fn(usize) -> bool, bytes: &[u8]) -> Result<(), String> {
    expect_out(evs, crc, read_all(bytes, evs.len() + 8)?)
}
pub fn expect_out(evs: &[Ev], crc: &dyn Fn(usize) -> bool, out: Result<ReadOut, Error>) -> Result<(), String> {
    let out = out.map_err(|e| format!("the reader rejected the file: {:?}", e))?;
    for (i, e) in evs.iter().enumerate() {
        let Some(g) = out.items.get(i) else { return Err(format!("only {} of {} events were yielded", out.items.len(), evs.len())) };
        check(e, crc(i), g).map_err(|m| format!("event {} of {}: {}", i, evs.len(), m))?;
    }
    if out.items.len() > evs.len() { return Err(format!("more than the {} events of the file were yielded: {}", evs.len(), short(format!("{:?}", out.items[evs.len()])))); }
    if !out.ended { return Err("the end of the file did not end the iteration".into()); }
    Ok(())
}
