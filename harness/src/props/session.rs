//! C20 C21 C22 C23: authentication, secrecy of the password, session set-up, and the stream request.
use crate::ensure;
use crate::gtid::{self, MSet};
use crate::mon::{lib, CaseResult, Ctx};
use crate::net;
use crate::props::resume::parse_set;
use crate::rng::Rng;
use crate::server::{self, Cfg, Cmd, Session, NATIVE, SHA2};
use crate::{Prop, WORKERS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::errors::Error;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use mysql_cdc::ssl_mode::SslMode;
use mysql_cdc::starting_strategy::StartingStrategy;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C20", case: c20, quick: 100_000, thorough: 2_000_000, workers: WORKERS * 2, min: 1500, level: "exploration",
            rule: "A case is a login with random user, password (empty, short, long, non-ASCII), database and challenge through one of the exchange variants (direct, plugin switch, cached, public key; right and wrong credentials; locked accounts; unsupported plugins; greeting errors; a final reply that is not OK). The mock server verifies the proof as the real one does (SHA1/SHA256 stage hashes, RSA-OAEP with its private key). Checked: accepted exactly if right, success reported exactly after the final OK, user, database and sequence numbers on the wire. Distinct by (variant, credentials, challenge).",
            assumptions: &["challenges are 20 bytes in 1..127 without '$', as servers generate", "passwords in the public-key exchange are at most 200 bytes (the size an RSA-2048 OAEP block takes)"] },
        Prop { id: "C21", case: c21, quick: 100_000, thorough: 2_000_000, workers: WORKERS * 2, min: 1500, level: "exploration",
            rule: "A case is a session with a distinctive random password against an honest, downgrading or hostile server (clear-text plugin requests, old-password requests, repeated switches, odd or empty challenges, bad keys, damaged replies, TLS offered or not) in every TLS mode. Monitor: everything the client sent is searched for the password, for it in hex, base64, reversed, for unsalted hashes of it, and for it masked with any bytes either side sent or with the challenge in any phase. With TLS required and not established nothing credential-like may be sent. Distinct by (server behaviour, password).",
            assumptions: &["TLS itself is not implemented by the library (it panics after the TLS request, which sends nothing)"] },
        Prop { id: "C22", case: c22, quick: 50_000, thorough: 1_000_000, workers: WORKERS * 2, min: 1500, level: "fault_enumeration",
            rule: "A case is one session (server kind x start strategy x authentication exchange x blocking) with one refusal: at every command index and, for queries with results, at every step of the result set (all enumerated first), or none. Monitor in the mock server: order and completeness of settings, packet form, sequence numbers, commands sent before a reply was complete, anything after a refusal, and the code and message in the reported error. Distinct by (session kind, refusal point, message).",
            assumptions: &[] },
        Prop { id: "C23", case: c23, quick: 150_000, thorough: 3_000_000, workers: WORKERS * 2, min: 1500, level: "exploration",
            rule: "A case is a session with random starting options, server kind and version, file names, positions, server ids and GTID positions; the stream request is decoded in the mock server and compared with the configured start; repeated sessions with a moving server position check that the end is asked for once. Distinct by (configuration).",
            assumptions: &["non-blocking is requested by server id 0 or the non-blocking flag"] },
    ]
}

fn name(r: &mut Rng, max: usize) -> String { r.text_len_small(max) }

fn gen_password(r: &mut Rng) -> String {
    match r.below(8) { 0 => String::new(), 1 => r.text_len(1), 2 => { let n = 60 + r.usize(140); r.text_len(n) } _ => { let n = 1 + r.usize(30); r.text_len(n) } }
}

fn err_text(e: &Error) -> String { match e { Error::String(s) => s.clone(), e => format!("{:?}", e) } }

fn c20(ctx: &mut Ctx, r: &mut Rng, _idx: u64) -> CaseResult {
    let mut cfg = server::cfg(r.bool());
    cfg.user = { let n = name(r, 300); if n.is_empty() { "u".into() } else { n } };
    cfg.password = gen_password(r);
    cfg.scramble = server::gen_scramble(r);
    cfg.scramble2 = server::gen_scramble(r);
    cfg.plugin = match r.below(12) { 0 => (*r.pick(&["sha256_password", "mysql_old_password", "dialog", "", "mysql_native_password2", "mysql_clear_password"])).into(), 1..=5 => SHA2.into(), _ => NATIVE.into() };
    cfg.account = match r.below(14) { 0 => (*r.pick(&["sha256_password", "mysql_clear_password", "client_ed25519", "dialog", "caching_sha2_passwor"])).into(), 1..=6 => SHA2.into(), _ => NATIVE.into() };
    cfg.cached = r.bool();
    cfg.switch_anyway = r.pct(25);
    cfg.deny = r.pct(8);
    cfg.greet_error = r.pct(2);
    cfg.err = (r.edge_in(1, 65535) as u16, None, format!("message {}", r.below(1000)));
    if r.bool() { let e = r.pick(&server::ERRORS); cfg.err = (e.0, None, e.2.into()); }
    let db = if r.bool() { Some(name(r, 70)) } else { None };
    if r.pct(8) && cfg.account == NATIVE { let n = r.edge_in(200, 1500) as usize; cfg.password = r.text_len(n); ctx.count("very long passwords", 1); }
    // what the client uses
    let mut user = cfg.user.clone();
    let mut pw = cfg.password.clone();
    let wrong = r.below(10);
    match wrong {
        0 => { pw = if r.bool() { format!("{}x", pw) } else { gen_password(r) } }
        1 => { user = if r.bool() { format!("{} ", user) } else { "other".into() } }
        2 if !pw.is_empty() => { pw.pop(); }
        3 => { if pw.is_ascii() { pw = pw.to_ascii_uppercase(); } }
        _ => {}
    }
    let right = user == cfg.user && pw == cfg.password;
    // a final reply that is not an OK
    let odd = if r.pct(12) { Some(match r.below(7) { 0 => vec![1, 3], 1 => vec![1, 4], 2 => vec![0xfe], 3 => vec![0xfe, 0, 0, 2, 0], 4 => vec![2], 5 => { let k = 1 + r.usize(12); let mut b = r.bytes(k); if b[0] == 0 { b[0] = 3; } b } _ => vec![] }) } else { None };
    // index of the packet that is the final OK
    let switched = cfg.switch_anyway || cfg.account != NATIVE && cfg.plugin != cfg.account || cfg.account == NATIVE && cfg.plugin != NATIVE;
    let full = cfg.account == SHA2 && !cfg.password.is_empty() && !cfg.cached;
    let fast = cfg.account == SHA2 && !cfg.password.is_empty() && cfg.cached;
    let final_index = 1 + switched as usize + if full { 2 } else if fast { 1 } else { 0 };
    let unsupported = (cfg.account != NATIVE && cfg.account != SHA2) || (cfg.plugin != NATIVE && cfg.plugin != SHA2);
    let variant = format!("{} account {} cached {} right {} deny {} odd {:?} db {} empty {}", cfg.plugin, cfg.account, cfg.cached, right, cfg.deny, odd, db.is_some(), cfg.password.is_empty());
    ctx.note(format!("{} user {:?} password {:?} uses {:?} {:?} scrambles {:?} {:?}", variant, cfg.user, cfg.password, user, pw, cfg.scramble, cfg.scramble2));
    ctx.sig(crate::rng::hash_str(&format!("{} {} {} {:?}", variant, user, pw, cfg.scramble)));
    ctx.sample(|| variant.clone());
    let use_odd = odd.is_some() && right && !cfg.deny && !unsupported && !cfg.greet_error;
    let whole = r.bool() && !use_odd;
    let (s, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |c| {
        if use_odd { let b = odd.clone().unwrap(); c.mutate = Some((final_index, Box::new(move |q, _| server::packet(q, &b)))); }
    }, |c, _, _| { c.send(1, &server::eof_body()) }), |h, p| -> Result<Result<(), Error>, String> {
        let mut o = net::options(&cfg, h, p, BinlogOptions::from_start());
        o.username = user.clone();
        o.password = pw.clone();
        o.database = db.clone();
        let mut cl = BinlogClient::new(o);
        if whole { net::replicate(&mut cl).map(|x| x.map(|_| ())) } else { lib(|| cl.connect().map(|_| ())) }
    });
    let res = res.map_err(|p| format!("{}: {}", variant, p))?;
    // an odd reply may itself ask the client for another packet
    if !use_odd { for p in &s.problems { return Err(format!("{}: {}", variant, p)); } }
    if use_odd {
        ctx.count("final replies that are not OK", 1);
        ensure!(res.is_err(), "{}: success was reported although the server's last word was {:?} and not OK", variant, odd);
        return Ok(());
    }
    if cfg.greet_error {
        let Err(e) = &res else { return Err(format!("{}: success although the server refused the connection", variant)) };
        let t = err_text(e);
        ensure!(t.contains(&cfg.err.0.to_string()) && t.contains(&cfg.err.2), "{}: the error {:?} does not carry the server's", variant, t);
        ctx.count("refused connections", 1);
        return Ok(());
    }
    if unsupported {
        if (cfg.account != NATIVE && cfg.account != SHA2) || !s.authed { ensure!(res.is_err(), "{}: success with an unsupported plugin", variant); }
        ensure!(!s.authed || right, "{}: accepted with wrong credentials", variant);
        ctx.count("unsupported plugins", 1);
        return Ok(());
    }
    ensure!(s.user == user.as_bytes(), "{}: user on the wire {:?}, configured {:?}", variant, String::from_utf8_lossy(&s.user), user);
    ensure!(s.db.as_deref() == db.as_ref().map(|d| d.as_bytes()), "{}: database on the wire {:?}, configured {:?}", variant, s.db, db);
    if right { if let Some(false) = s.proof { return Err(format!("{}: the proof sent is not the one of the right password", variant)); } }
    let expect = right && !cfg.deny;
    ensure!(s.authed == expect, "{}: the server {} the credentials, which are {}", variant, if s.authed { "accepted" } else { "refused" }, if expect { "right" } else { "wrong" });
    match (&res, expect) {
        (Ok(()), false) => return Err(format!("{}: success was reported although the server refused", variant)),
        (Err(e), true) => return Err(format!("{}: the server accepted, but an error was reported: {:?}", variant, e)),
        (Err(e), false) => { let t = err_text(e); let d = server::deny_error(&cfg); ensure!(t.contains(&d.0.to_string()) && t.contains(d.2), "{}: the error {:?} does not carry the server's refusal", variant, t); ctx.count("logins refused", 1); }
        _ => { ctx.count("logins accepted", 1); if whole { ensure!(s.dump.is_some(), "{}: no stream request after login", variant); } }
    }
    if s.switched { ctx.count("plugin switches", 1); }
    if s.full { ctx.count("public key exchanges", 1); }
    if fast && expect { ctx.count("cached exchanges", 1); }
    if cfg.password.is_empty() { ctx.count("accounts without password", 1); }
    Ok(())
}

// ---- C21 ----

fn b64(b: &[u8]) -> Vec<u8> { openssl::base64::encode_block(b).into_bytes() }

fn find(h: &[u8], n: &[u8]) -> bool { !n.is_empty() && h.windows(n.len()).any(|w| w == n) }

/// Why what was sent reveals the password.
pub fn reveals(rx: &[u8], seen: &[Vec<u8>], pw: &str) -> Option<String> {
    let p = pw.as_bytes();
    if find(rx, p) { return Some("the password itself was sent".into()); }
    let rev: Vec<u8> = p.iter().rev().copied().collect();
    if find(rx, &rev) { return Some("the reversed password was sent".into()); }
    let hx = crate::mon::hex(p);
    if find(rx, hx.as_bytes()) || find(rx, hx.to_uppercase().as_bytes()) { return Some("the password was sent in hexadecimal".into()); }
    let b = b64(p);
    if find(rx, &b[..b.len() / 4 * 4 - 4]) { return Some("the password was sent in base64".into()); }
    let z = [p, &[0u8][..]].concat();
    for (n, h) in [("SHA1(password)", server::sha1(p)), ("SHA1(SHA1(password))", server::sha1(&server::sha1(p))), ("SHA256(password)", server::sha256(p)), ("SHA256(SHA256(password))", server::sha256(&server::sha256(p))), ("SHA256(password NUL)", server::sha256(&z))] {
        if find(rx, &h) || find(rx, crate::mon::hex(&h).as_bytes()) { return Some(format!("{} was sent: not bound to a challenge", n)); }
    }
    let n = p.len().min(10);
    // masked with a constant byte
    for w in rx.windows(n) { let k = w[0] ^ p[0]; if w.iter().zip(p).all(|(a, b)| a ^ b == k) { return Some(format!("the password was sent masked with the constant byte {:#x}", k)); } }
    // masked with bytes visible on the connection
    for m in seen {
        for key in m.windows(n) {
            for w in rx.windows(n) { if w[0] ^ key[0] == p[0] && w.iter().zip(key).zip(p).all(|((a, b), c)| a ^ b == *c) { return Some("the password was sent masked only with bytes visible on the connection".into()); } }
        }
    }
    None
}

fn c21(ctx: &mut Ctx, r: &mut Rng, _idx: u64) -> CaseResult {
    let mut cfg = server::cfg(r.bool());
    let n = 12 + r.usize(24);
    let pw: String = (0..n).map(|_| *r.pick(&['a', 'B', 'c', 'D', 'e', '7', '8', '9', '!', '#', 'q', 'W', 'z', '-', '+', 'K', 'ü'])).collect();
    cfg.user = "some_replication_user".into();
    cfg.password = pw.clone();
    cfg.scramble = server::gen_scramble(r);
    cfg.scramble2 = server::gen_scramble(r);
    cfg.plugin = if r.bool() { SHA2.into() } else { NATIVE.into() };
    cfg.cached = r.bool();
    cfg.switch_anyway = r.pct(25);
    cfg.ssl = r.bool();
    cfg.account = match r.below(10) { 0 => (*r.pick(&["mysql_clear_password", "sha256_password", "mysql_old_password", "dialog", "client_ed25519", "authentication_ldap_simple"])).into(), 1..=5 => SHA2.into(), _ => NATIVE.into() };
    // old servers, or such as pretend to be old
    if r.pct(25) { cfg.lacks = *r.pick(&[server::cap::SECURE_CONNECTION, server::cap::SECURE_CONNECTION, server::cap::PLUGIN_AUTH, server::cap::SECURE_CONNECTION | server::cap::PLUGIN_AUTH, server::cap::PROTOCOL_41, u32::MAX]); if r.bool() { cfg.version = (*r.pick(&["4.0.27", "3.23.58", "5.0.96", "5.5.5-10.6.12-MariaDB", ""])).into(); } }
    let behaviour = r.below(12);
    let mut mutate: Option<(usize, Vec<Vec<u8>>)> = None;
    match behaviour {
        0 => { let v = *r.pick(&[1u8, 2, 0x20, 0x7f]); cfg.scramble = vec![v; 20]; cfg.scramble2 = vec![v; 20]; }
        1 => { cfg.account = SHA2.into(); cfg.cached = false; cfg.pem = Some(match r.below(4) { 0 => vec![], 1 => b"-----BEGIN PUBLIC KEY-----\n".to_vec(), 2 => { let k = r.usize(300); r.bytes(k) } _ => weak_pem(r) }); }
        2 => { // any reply
            let k = r.usize(5);
            let body = match r.below(9) { 0 => vec![1, 4], 1 => vec![1, 3], 2 => vec![1], 3 => vec![1, 2], 4 => vec![0xfe], 5 => sw("mysql_clear_password", b""), 6 => sw(NATIVE, &[]), 7 => sw(SHA2, &[]), _ => { let k = r.usize(60); r.bytes(k) } };
            mutate = Some((k, vec![body]));
        }
        3 => { let k = 1 + r.usize(4); mutate = Some((k, vec![sw(SHA2, &cfg.scramble2), vec![1, 4]])); }
        4 => { cfg.password = "not the same".into(); }
        _ => {}
    }
    let tls = match r.below(8) { 0 => SslMode::IfAvailable, 1 => SslMode::Require, 2 => SslMode::RequireVerifyCa, 3 => SslMode::RequireVerifyFull, _ => SslMode::Disabled };
    let what = format!("server: lacks {:#x}, plugin {}, account {}, cached {}, TLS offered {}, behaviour {} {:?}; client TLS mode {:?}", cfg.lacks, cfg.plugin, cfg.account, cfg.cached, cfg.ssl, behaviour, mutate, tls);
    ctx.note(format!("{}; password {:?}", what, pw));
    ctx.sig(crate::rng::hash_str(&format!("{} {}", what, pw)));
    ctx.sample(|| what.clone());
    let at_construction = tls != SslMode::Disabled && r.bool();
    let seen = std::sync::Mutex::new(vec![cfg.scramble.repeat(3), cfg.scramble2.repeat(3), cfg.scramble[..8].repeat(4), server::greeting(&cfg)]);
    if let Some((_, v)) = &mutate { seen.lock().unwrap().extend(v.clone()); }
    if let Some(p) = &cfg.pem { seen.lock().unwrap().push(p.clone()); }
    let (s, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |c| {
        if let Some((k, v)) = mutate.clone() {
            c.mutate = Some((k, Box::new(move |q, _| { let mut o = vec![]; for (i, b) in v.iter().enumerate() { o.extend(server::packet(q.wrapping_add(2 * i as u8), b)); } o })));
        }
    }, |c, _, _| c.send(1, &server::eof_body())), |h, p| -> Result<Result<(), Error>, String> {
        let mut o = net::options(&cfg, h, p, BinlogOptions::from_start());
        o.password = pw.clone();
        if at_construction { o.ssl_mode = tls; return lib(|| BinlogClient::new(o).replicate().map(|_| ())); }
        let mut cl = lib(|| BinlogClient::new(o))?;
        cl.options.ssl_mode = tls;
        net::replicate(&mut cl).map(|x| x.map(|_| ()))
    });
    ctx.count("sessions", 1);
    ctx.count("bytes sent by clients", s.rx.len() as u64);
    if s.full { ctx.count("public key exchanges", 1); }
    if tls == SslMode::Disabled {
        // panics are only the subject where TLS is not involved
        let _ = res;
    } else { ctx.count("sessions with a TLS mode", 1); }
    let mut seen = seen.into_inner().unwrap();
    seen.push(s.rx.clone());
    if let Some(w) = reveals(&s.rx, &seen, &pw) { return Err(format!("{}: {} (sent: {})", what, w, crate::mon::hex_short(&s.rx))); }
    if tls as u8 >= SslMode::Require as u8 {
        ensure!(!find(&s.rx, cfg.user.as_bytes()) && s.user.is_empty(), "{}: a handshake response was sent in clear although TLS is required", what);
        // at most one TLS request
        ensure!(s.rx.is_empty() || s.rx.len() == 36, "{}: {} bytes were sent in clear although TLS is required", what, s.rx.len());
        ctx.count("sessions requiring TLS", 1);
    }
    Ok(())
}

fn sw(plugin: &str, data: &[u8]) -> Vec<u8> { let mut v = vec![0xfe]; v.extend(plugin.as_bytes()); v.push(0); v.extend(data); v.push(0); v }
fn weak_pem(r: &mut Rng) -> Vec<u8> {
    static K: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    let k = K.get_or_init(|| [512u32, 1024].iter().map(|n| openssl::rsa::Rsa::generate(*n).unwrap().public_key_to_pem().unwrap()).collect());
    r.pick(k).clone()
}

// ---- C22 ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Start { First, End, Position, Gtid }

fn start_options(r: &mut Rng, maria: bool, s: Start) -> Result<BinlogOptions, String> {
    Ok(match s {
        Start::First => BinlogOptions::from_start(),
        Start::End => BinlogOptions::from_end(),
        Start::Position => BinlogOptions::from_position("mysql-bin.000002".into(), 4 + r.below(1000) as u32),
        Start::Gtid => if maria { BinlogOptions::from_mariadb_gtid(lib(|| GtidList::parse("0-1-270"))?.map_err(|e| format!("{:?}", e))?) }
            else { BinlogOptions::from_mysql_gtid(lib(|| GtidSet::parse("d4c17f0c-4f11-11ea-93e3-325d3e1cd1c8:1-107"))?.map_err(|e| format!("{:?}", e))?) },
    })
}

/// Checks that everything is in place by the time of the stream request.
fn complete(s: &Session, maria: bool, st: Start, crc: &str) -> CaseResult {
    let v = &s.vars;
    let has = |names: &[&str]| names.iter().find_map(|n| v.get(*n)).cloned();
    let hb = has(&["master_heartbeat_period", "source_heartbeat_period"]).ok_or("the stream was requested without a heartbeat period")?;
    ensure!(hb.trim_matches('\'').parse::<u128>().is_ok(), "heartbeat period {:?}", hb);
    let cs = has(&["master_binlog_checksum", "source_binlog_checksum"]).ok_or("the stream was requested without announcing checksum awareness")?;
    ensure!(cs.trim_matches('\'').eq_ignore_ascii_case(crc), "announced checksum {:?}, the server uses {:?}", cs, crc);
    if maria {
        ensure!(v.get("mariadb_slave_capability").map(|x| x == "4").unwrap_or(false), "MariaDB slave capability: {:?}", v.get("mariadb_slave_capability"));
        if st == Start::Gtid {
            ensure!(v.get("slave_connect_state").map(|x| x.trim_matches('\'') == "0-1-270").unwrap_or(false), "MariaDB connect state: {:?}", v.get("slave_connect_state"));
            ensure!(s.cmds.iter().any(|c| matches!(c, Cmd::Register(_))), "a MariaDB GTID session without registration");
        } else { ensure!(!v.contains_key("slave_connect_state"), "a GTID state was sent in a session that does not start by GTID"); }
    }
    let asked = s.cmds.iter().filter(|c| matches!(c, Cmd::Query(q) if q.trim().to_ascii_lowercase().starts_with("show"))).count();
    ensure!(asked == (st == Start::End) as usize, "the server's position was asked {} times when starting from {:?}", asked, st);
    Ok(())
}

const STARTS: [Start; 4] = [Start::First, Start::End, Start::Position, Start::Gtid];
const POINTS: u64 = 12 * 12;

fn c22(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let enumerated = 2 * 4 * POINTS;
    let (maria, st, refuse) = if idx < enumerated {
        let k = idx % POINTS;
        ((idx / POINTS) % 2 == 1, STARTS[(idx / POINTS / 2) as usize], Some(((k / 12) as usize, (k % 12) as u8)))
    } else {
        (r.bool(), *r.pick(&STARTS), if r.pct(70) { Some((r.usize(11), r.usize(10) as u8)) } else { None })
    };
    let mut cfg = server::cfg(maria);
    if idx >= enumerated {
        cfg.checksum = if r.bool() { "CRC32" } else { "NONE" }.into();
        cfg.account = if r.bool() { NATIVE } else { SHA2 }.into();
        cfg.plugin = if r.bool() { NATIVE } else { SHA2 }.into();
        cfg.cached = !r.pct(20);
    }
    cfg.reply_delay_us = if r.pct(40) { 200 + r.below(2500) } else { 0 };
    let len = if r.pct(10) { r.edge_in(60, 900) as usize } else { 5 + r.usize(60) };
    let msg: String = (0..len).map(|_| *r.pick(&['a', 'M', 'x', ' ', '7', '.', '(', ';', 'é'])).collect();
    cfg.err = (r.edge_in(1, 65535) as u16, match r.below(3) { 0 => None, 1 => Some("HY000".into()), _ => Some("42000".into()) }, msg.clone());
    if r.bool() { let e = r.pick(&server::ERRORS); cfg.err = (e.0, if r.pct(90) { Some(e.1.into()) } else { None }, e.2.into()); }
    let msg = cfg.err.2.clone();
    cfg.refuse = refuse;
    let special = if idx >= enumerated && refuse.is_none() { r.below(7) } else { 9 };
    let end = st == Start::End;
    match special { 0 if end => cfg.status = None,
        // a position that cannot be read
        3 if end => cfg.status_rows = Some(match r.below(6) {
            0 => vec![vec!["mysql-bin.000007".into()]],
            1 => vec![vec![]],
            2 => vec![vec!["mysql-bin.000007".into(), (*r.pick(&["", "x", "-4", "4.5", "0x10", " 4", "99999999999999999999"])).into(), "".into(), "".into()]],
            3 => vec![vec!["4567".into(), "mysql-bin.000007".into(), "".into(), "".into()]],
            4 => vec![],
            _ => vec![vec!["mysql-bin.000007".into(), "".into()]],
        }),
        // no checksum setting
        4 => cfg.checksum_rows = Some(match r.below(3) { 0 => vec![], 1 => vec![vec![]], _ => vec![vec![(*r.pick(&["", "CRC64", "crc", "NONE,CRC32", "1", "NULL"])).into()]] }), 1 => cfg.checksum = "SHA999".into(), 2 => cfg.deny = true, _ => {} }
    let what = format!("maria {}, start {:?}, refuse {:?}, special {}, {}/{}", maria, st, refuse, special, cfg.plugin, cfg.account);
    ctx.note(format!("{}; error {:?}", what, cfg.err));
    ctx.sig(crate::rng::hash_str(&format!("{} {} {:?}", what, cfg.cached, cfg.err)));
    ctx.sample(|| what.clone());
    let b = start_options(r, maria, st)?;
    let blocking = r.bool();
    let again = r.pct(30);
    let mut clean = cfg.clone();
    clean.refuse = None; clean.deny = false; clean.status_rows = None; clean.checksum_rows = None; clean.checksum = "CRC32".into(); clean.status = Some(("mysql-bin.000009".into(), 99));
    let (mut sessions, res) = server::with_server(ctx.worker, |l| {
        let mut v = vec![];
        v.push(net::serve_one(l, &cfg, |_| {}, |c, _, s| {
            if s.refused.is_some() { return c.send(1, &server::err_body(cfg.err.0, cfg.err.1.as_deref(), &cfg.err.2)); }
            c.send(1, &server::eof_body())
        }));
        if again { v.push(net::serve_one(l, &clean, |_| {}, |c, _, _| c.send(1, &server::eof_body()))); }
        v
    }, |h, p| -> Result<(Result<Option<String>, Error>, Option<Result<(), Error>>), String> {
        let mut o = net::options(&cfg, h, p, b);
        o.blocking = blocking;
        let mut cl = BinlogClient::new(o);
        let a = match net::replicate(&mut cl)? {
            Err(e) => Err(e),
            Ok(mut s) => match net::next(&mut s)? { None => Ok(None), Some(Err(e)) => Ok(Some(err_text(&e))), Some(Ok(_)) => Ok(Some("an event".into())) },
        };
        let b = if again { Some(net::replicate(&mut cl)?.map(|_| ())) } else { None };
        Ok((a, b))
    });
    let (res, second) = res.map_err(|p| format!("{}: {}", what, p))?;
    let s = sessions.remove(0);
    ctx.count("sessions", 1);
    ctx.count("commands", s.cmds.len() as u64);
    for p in &s.problems { return Err(format!("{}: {}", what, p)); }
    ensure!(s.after_refusal.is_empty(), "{}: after {:?} was refused, the client sent {:?}", what, s.refused, s.after_refusal);
    let carries = |t: &str| t.contains(&cfg.err.0.to_string()) && t.contains(&msg);
    let dump_refused = s.refused.is_some() && s.dump.is_some();
    if let Some(q) = &s.refused {
        if dump_refused {
            ctx.count("stream requests refused", 1);
            match &res { Ok(Some(t)) => ensure!(carries(t), "{}: the stream request was refused, but the stream yields {:?}", what, t), r => return Err(format!("{}: the stream request was refused, but the result is {:?}", what, r)) }
        } else {
            ctx.count("commands refused", 1);
            let Err(e) = &res else { return Err(format!("{}: {:?} was refused, but the result is {:?}", what, q, res)) };
            let t = err_text(e);
            ensure!(carries(&t), "{}: {:?} was refused, but the error {:?} does not carry code {} and message {:?}", what, q, t, cfg.err.0, msg);
            ensure!(s.dump.is_none(), "{}: the stream was requested", what);
        }
    } else if matches!(special, 1 | 2 | 4) || matches!(special, 0 | 3) && end {
        ensure!(res.is_err(), "{}: set-up went on", what);
        ensure!(s.dump.is_none(), "{}: the stream was requested", what);
        if special == 2 { ensure!(s.cmds.is_empty(), "{}: commands after a refused login: {:?}", what, s.cmds); let t = err_text(res.as_ref().unwrap_err()); let d = server::deny_error(&cfg); ensure!(t.contains(&d.0.to_string()) && t.contains(d.2), "{}: {:?}", what, t); }
        ctx.count("set-ups that cannot be completed", 1);
    } else {
        ensure!(matches!(res, Ok(None)), "{}: nothing was refused, but the result is {:?}", what, res);
        ctx.count("complete set-ups", 1);
    }
    if s.dump.is_some() { complete(&s, maria, st, &cfg.checksum).map_err(|m| format!("{}: {} (commands {:?})", what, m, s.cmds))?; }
    if let Some(x) = second {
        let s2 = sessions.remove(0);
        for p in &s2.problems { return Err(format!("{}: second session: {}", what, p)); }
        ensure!(x.is_ok(), "{}: the next session of the client failed: {:?}", what, x);
        ensure!(s2.dump.is_some(), "{}: the next session did not request the stream", what);
        let v = &s2.vars;
        ensure!(["master_heartbeat_period", "source_heartbeat_period"].iter().any(|n| v.contains_key(*n)), "{}: the next session did not set the heartbeat period", what);
        ensure!(["master_binlog_checksum", "source_binlog_checksum"].iter().any(|n| v.contains_key(*n)), "{}: the next session did not announce checksum awareness", what);
        if maria { ensure!(v.get("mariadb_slave_capability").map(|x| x == "4").unwrap_or(false), "{}: the next session did not set the slave capability", what); }
        if maria && st == Start::Gtid { ensure!(v.contains_key("slave_connect_state"), "{}: the next session did not send the GTID state", what); }
        ctx.count("second sessions", 1);
    }
    Ok(())
}

// ---- C23 ----

/// What the client is configured to ask for, and of which server.
#[derive(Clone)]
struct Spec { maria: bool, version: String, sid: u32, blocking: bool, file: String, pos: u32, st: Start, my: MSet, ma: BTreeMap<u32, (u32, u64)>, missing: bool, fresh: bool, defaults: bool }

impl Spec {
    fn what(&self) -> String { format!("server {:?}, start {:?} {:?} {}, GTIDs {:?} {:?}, missing {}, server id {}, blocking {}", self.version, self.st, self.file, self.pos, self.my.text(), self.ma, self.missing, self.sid, self.blocking) }
}

fn gen_spec(r: &mut Rng, maria: bool) -> Result<(Spec, BinlogOptions), String> {
    let version = if maria {
        r.pick(&["5.5.5-10.6.12-MariaDB-log", "10.3.39-MariaDB-0ubuntu0.20.04.2", "5.5.5-10.11.6-MariaDB-1:10.11.6+maria~ubu2204", "11.4.2-MariaDB", "5.5.5-10.0.38-MariaDB", "5.5.5-10.5.23-MariaDB-enterprise-log"]).to_string()
    } else { r.pick(&["8.0.32", "5.7.31-log", "5.6.51-enterprise-commercial-advanced-log", "8.4.0", "9.0.1", "8.0.36-0ubuntu0.22.04.1", "5.7.44-48-log", "8.0.35-27.1"]).to_string() };
    // what the documentation of the options promises when they are not set
    let defaults = r.pct(6);
    let sid = if defaults { 65535 } else { r.edge_in(1, u32::MAX as u64) as u32 };
    let blocking = defaults || r.bool();
    let file = if r.pct(70) { format!("mysql-bin.{:06}", r.below(1_000_000)) } else { let n = 1 + r.usize(120); r.text_len(n) };
    let pos = if r.pct(4) { r.below(4) } else { r.edge_in(4, u32::MAX as u64) } as u32;
    let st = if defaults { Start::End } else { *r.pick(&STARTS) };
    let mut s = Spec { maria, version, sid, blocking, file, pos, st, my: MSet::default(), ma: BTreeMap::new(), missing: st == Start::Gtid && r.pct(25), fresh: true, defaults };
    let mut opts = match st {
        Start::First => BinlogOptions::from_start(),
        Start::End => BinlogOptions::from_end(),
        Start::Position => BinlogOptions::from_position(s.file.clone(), pos),
        Start::Gtid => {
            let use_maria = maria != s.missing;
            if use_maria {
                let n = r.len(8);
                let l = gtid::gen_list(r, n);
                for (d, i, q) in &l { s.ma.insert(*d, (*i, *q)); }
                let t = gtid::list_text(&l);
                BinlogOptions::from_mariadb_gtid(lib(|| GtidList::parse(&t))?.map_err(|e| format!("{:?}: {:?}", t, e))?)
            } else {
                s.my = gtid::gen_set(r, 4, 6, i64::MAX as u64 - 1);
                let t = s.my.text();
                BinlogOptions::from_mysql_gtid(lib(|| GtidSet::parse(&t))?.map_err(|e| format!("{:?}: {:?}", t, e))?)
            }
        }
    };
    // with the positions of both kinds of servers, only that of the server's kind counts
    if st == Start::Gtid && !s.missing && r.pct(15) {
        if maria { opts.gtid_set = Some(lib(|| GtidSet::parse("d4c17f0c-4f11-11ea-93e3-325d3e1cd1c8:1-107"))?.map_err(|e| format!("{:?}", e))?); }
        else { opts.gtid_list = Some(lib(|| GtidList::parse("0-1-270"))?.map_err(|e| format!("{:?}", e))?); }
    }
    ensure!(opts.starting_strategy == match st { Start::First => StartingStrategy::FromStart, Start::End => StartingStrategy::FromEnd, Start::Position => StartingStrategy::FromPosition, Start::Gtid => StartingStrategy::FromGtid }, "the options ask for {:?}, not for {:?}", opts.starting_strategy, st);
    Ok((s, opts))
}

fn c23(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx % 8 == 5 { return after_failure(ctx, r); }
    let maria = r.bool();
    let mut cfg = server::cfg(maria);
    cfg.checksum = if r.bool() { "CRC32" } else { "NONE" }.into();
    let (first, opts) = gen_spec(r, maria)?;
    let db = if r.pct(20) { Some("some".to_string()) } else { None };
    let rounds = if r.pct(40) { 3 } else { 1 };
    let mut specs = vec![first.clone()];
    let mut change: Vec<Option<BinlogOptions>> = vec![None];
    for _ in 1..rounds {
        // the same again, or reconfigured by the user, perhaps for a server of the other kind
        if r.pct(35) {
            let maria = r.bool();
            let (s, o) = gen_spec(r, maria)?;
            specs.push(s);
            change.push(Some(o));
            ctx.count("clients reconfigured between sessions", 1);
        } else {
            let mut s = specs.last().unwrap().clone();
            s.fresh = false;
            // a start that is not by GTID may continue on a server of the other kind
            if s.st != Start::Gtid && r.pct(20) { s.maria = !s.maria; s.version = if s.maria { "10.6.12-MariaDB" } else { "8.0.36" }.into(); }
            specs.push(s);
            change.push(None);
        }
    }
    for s in specs.iter_mut() { s.defaults = first.defaults; }
    // the server moves on between the sessions
    let cfgs: Vec<Cfg> = specs.iter().enumerate().map(|(i, s)| {
        let mut c = cfg.clone();
        c.maria = s.maria;
        c.version = s.version.clone();
        if s.st == Start::End { c.status = Some(if s.fresh { (s.file.clone(), s.pos as u64) } else { (format!("moved.{:06}", i), 1000 + i as u64) }); }
        c
    }).collect();
    let what = specs.iter().map(|s| s.what()).collect::<Vec<_>>().join("; then ");
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    ctx.sample(|| what.clone());
    let (ss, res) = server::with_server(ctx.worker, |l| cfgs.iter().map(|c| net::serve_one(l, c, |_| {}, |c, _, _| c.send(1, &server::eof_body()))).collect::<Vec<Session>>(), |h, p| -> Result<Vec<Result<(), Error>>, String> {
        let mut o = ReplicaOptions { server_id: first.sid, blocking: first.blocking, database: db, ..net::options(&cfg, h, p, opts) };
        if first.defaults {
            let d = ReplicaOptions { hostname: h.into(), port: p, username: cfg.user.clone(), password: cfg.password.clone(), database: o.database.take(), ..Default::default() };
            o = d;
            ctx.count("clients with default options", 1);
        }
        let mut cl = BinlogClient::new(o);
        let mut out = vec![];
        for (s, b) in specs.iter().zip(change) {
            if let Some(b) = b { cl.options.binlog = b; cl.options.server_id = s.sid; cl.options.blocking = s.blocking; }
            out.push(net::replicate(&mut cl)?.map(|_| ()));
        }
        Ok(out)
    });
    let res = res.map_err(|p| format!("{}: {}", what, p))?;
    for (i, ((s, x), sp)) in ss.iter().zip(&res).zip(&specs).enumerate() {
        let missing = sp.missing;
        let what = format!("session {} of: {}", i + 1, what);
        for p in &s.problems { return Err(format!("{}: {}", what, p)); }
        if missing {
            ensure!(x.is_err(), "{}: a start by GTID without the GTID position of this kind of server was accepted", what);
            ensure!(s.dump.is_none(), "{}: the stream was requested ({:?}) although the GTID position is missing", what, s.dump);
            ctx.count("starts without a GTID position refused", 1);
            continue;
        }
        ensure!(x.is_ok(), "{}: {:?}", what, x);
        request(ctx, &what, s, sp)?;
        ctx.count("requests checked", 1);
    }
    Ok(())
}

/// What a session asked for.
fn request(ctx: &mut Ctx, what: &str, s: &Session, sp: &Spec) -> CaseResult {
    let Spec { maria, sid, blocking, file, pos, st, my, ma, fresh, defaults, .. } = sp.clone();
    let asked = s.cmds.iter().filter(|c| matches!(c, Cmd::Query(q) if q.trim().to_ascii_lowercase().starts_with("show"))).count();
    ensure!(asked == (st == Start::End && fresh) as usize, "{}: the server's position was asked {} times", what, asked);
    let Some(d) = &s.dump else { return Err(format!("{}: no stream request", what)) };
    let (flags, rsid) = match d { Cmd::Dump { flags, sid, .. } => (*flags, *sid), Cmd::DumpGtid { flags, sid, .. } => (*flags, *sid), _ => unreachable!() };
    if blocking {
        ensure!(rsid == sid, "{}: the request carries server id {}", what, rsid);
        ensure!(flags & 1 == 0, "{}: the request asks for non-blocking mode", what);
    } else { ensure!(rsid == 0 || flags & 1 == 1, "{}: the request does not ask for non-blocking mode (server id {}, flags {})", what, rsid, flags); }
    match (d, st) {
        (Cmd::Dump { pos: p, file: f, .. }, Start::First) => ensure!(f.is_empty() && *p == 4, "{}: requested {:?} {}", what, String::from_utf8_lossy(f), p),
        (Cmd::Dump { pos: p, file: f, .. }, Start::End | Start::Position) => ensure!(f == file.as_bytes() && *p == pos, "{}: requested {:?} {}", what, String::from_utf8_lossy(f), p),
        (Cmd::DumpGtid { file: f, pos: p, data, .. }, Start::Gtid) if !maria => {
            ensure!(f.is_empty() && *p == 4, "{}: the GTID request is tied to {:?} {}", what, String::from_utf8_lossy(f), p);
            let g = parse_set(data).map_err(|e| format!("{}: {}", what, e))?;
            ensure!(g == my, "{}: the request holds the GTID set {:?}", what, g.text());
            ctx.count("MySQL GTID requests", 1);
        }
        (Cmd::Dump { .. }, Start::Gtid) if maria => {
            let t = s.vars.get("slave_connect_state").ok_or(format!("{}: no GTID state was sent", what))?;
            let t = t.strip_prefix('\'').and_then(|t| t.strip_suffix('\'')).ok_or(format!("{}: the GTID state {:?} is not a string", what, t))?;
            let mut got: BTreeMap<u32, (u32, u64)> = BTreeMap::new();
            for e in t.split(',').filter(|e| !e.is_empty()) {
                let p: Vec<&str> = e.trim().split('-').collect();
                let (a, b, c) = (p.first().and_then(|x| x.parse().ok()), p.get(1).and_then(|x| x.parse().ok()), p.get(2).and_then(|x| x.parse().ok()));
                let (Some(a), Some(b), Some(c), 3) = (a, b, c, p.len()) else { return Err(format!("{}: GTID state {:?}", what, t)) };
                ensure!(got.insert(a, (b, c)).is_none(), "{}: GTID state {:?} has a domain twice", what, t);
            }
            ensure!(got == ma, "{}: the GTID state sent is {:?}", what, t);
            let reg = s.cmds.iter().find_map(|c| match c { Cmd::Register(b) => Some(b.clone()), _ => None }).ok_or(format!("{}: not registered", what))?;
            let id = u32::from_le_bytes(reg[..4].try_into().unwrap());
            ensure!(id == sid, "{}: registered with server id {}", what, id);
            ctx.count("MariaDB GTID requests", 1);
        }
        _ => return Err(format!("{}: wrong form of request: {:?}", what, d)),
    }
    if defaults {
        let hb = s.vars.get("master_heartbeat_period").or(s.vars.get("source_heartbeat_period")).cloned();
        ensure!(hb.as_deref() == Some("30000000000"), "{}: a client with default options asked for a heartbeat period of {:?}", what, hb);
    }
    if !(maria && st == Start::Gtid) { ensure!(!s.vars.contains_key("slave_connect_state"), "{}: a GTID state was sent", what); }
    Ok(())
}

/// A session whose set-up fails leaves what is asked for as it was.
fn after_failure(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let maria = r.bool();
    let (mut spec, opts) = loop { let (s, o) = gen_spec(r, maria)?; if !s.missing && !s.defaults && (s.st == Start::End || r.bool()) { break (s, o); } };
    let mut good = server::cfg(maria);
    good.version = spec.version.clone();
    good.checksum = if r.bool() { "CRC32" } else { "NONE" }.into();
    let mut bad = good.clone();
    let mut fails = vec![];
    for _ in 0..1 + r.usize(2) {
        bad = good.clone();
        bad.status = Some(("moved.000001".into(), 4567));
        match r.below(7) {
            0 => bad.deny = true,
            1 => bad.greet_error = true,
            2 => bad.refuse = Some((r.usize(9), 0)),
            3 => bad.checksum = "SHA999".into(),
            _ => {
                let p = *r.pick(&["", "x", "-4", "4.5", "99999999999999999999", "5000000000", "4294967296"]);
                bad.status_rows = Some(match r.below(5) { 0 => vec![vec!["moved.000001".into()]], 1 => vec![], _ => vec![vec!["moved.000001".into(), p.into(), "".into(), "".into()]] });
                if r.pct(20) { bad.status_rows = None; bad.status = None; }
            }
        }
        fails.push(bad.clone());
    }
    let n = fails.len();
    if spec.st == Start::End { good.status = Some((spec.file.clone(), spec.pos as u64)); }
    let what = format!("after {} sessions that fail (deny {}, greeting {}, refused {:?}, checksum {:?}, status {:?} {:?}): {}", n, bad.deny, bad.greet_error, bad.refuse, bad.checksum, bad.status, bad.status_rows, spec.what());
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    ctx.sample(|| what.clone());
    fails.push(good.clone());
    let (ss, res) = server::with_server(ctx.worker, |l| fails.iter().map(|c| net::serve_one(l, c, |_| {}, |c, _, s| if s.refused.is_some() { c.send(1, &server::err_body(1236, Some("HY000"), "no")) } else { c.send(1, &server::eof_body()) })).collect::<Vec<Session>>(), |h, p| -> Result<Vec<Result<(), Error>>, String> {
        let mut cl = BinlogClient::new(ReplicaOptions { server_id: spec.sid, blocking: spec.blocking, ..net::options(&good, h, p, opts) });
        let mut out = vec![];
        for _ in 0..=n { out.push(net::replicate(&mut cl)?.map(|_| ())); }
        Ok(out)
    });
    let res = res.map_err(|p| format!("{}: {}", what, p))?;
    for s in &ss { for p in &s.problems { return Err(format!("{}: {}", what, p)); } }
    ensure!(res[n].is_ok(), "{}: {:?}", what, res[n]);
    // the end is known as soon as a server has given one that can be read
    let told = ss[..n].iter().zip(&fails).any(|(s, c)| s.cmds.iter().enumerate().any(|(i, q)| matches!(q, Cmd::Query(q) if q.trim().to_ascii_lowercase().starts_with("show")) && c.refuse.map_or(true, |(k, _)| k != i)) && c.status_rows.is_none() && c.status.is_some());
    if spec.st == Start::End && told {
        let asked = ss[n].cmds.iter().any(|c| matches!(c, Cmd::Query(q) if q.trim().to_ascii_lowercase().starts_with("show")));
        if !asked { spec.file = "moved.000001".into(); spec.pos = 4567; spec.fresh = false; }
    }
    ctx.count("requests after sessions that failed", 1);
    request(ctx, &what, &ss[n], &spec)
}
