//! Mock MySQL/MariaDB server: real handshake verification, session commands, command log, fault injection.
use crate::enc::W;
use crate::rng::Rng;
use openssl::hash::{hash, MessageDigest};
use openssl::pkey::Private;
use openssl::rsa::{Padding, Rsa};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;
use std::time::Duration;

pub const NATIVE: &str = "mysql_native_password";
pub const SHA2: &str = "caching_sha2_password";

/// Servers have different keys.
pub fn rsa_key(scramble: &[u8]) -> &'static Rsa<Private> {
    static K: OnceLock<Vec<Rsa<Private>>> = OnceLock::new();
    let k = K.get_or_init(|| [2048, 2048, 2048, 3072].iter().map(|n| Rsa::generate(*n).expect("rsa")).collect());
    &k[scramble.iter().map(|b| *b as usize).sum::<usize>() % k.len()]
}
pub fn sha1(b: &[u8]) -> Vec<u8> { hash(MessageDigest::sha1(), b).unwrap().to_vec() }
pub fn sha256(b: &[u8]) -> Vec<u8> { hash(MessageDigest::sha256(), b).unwrap().to_vec() }
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().enumerate().map(|(i, x)| x ^ b[i % b.len()]).collect() }

/// As the server checks a mysql_native_password reply.
pub fn native_ok(password: &str, scramble: &[u8], reply: &[u8]) -> bool {
    if password.is_empty() { return reply.is_empty(); }
    if reply.len() != 20 { return false; }
    let stage2 = sha1(&sha1(password.as_bytes()));
    let x = xor(reply, &sha1(&[scramble, &stage2[..]].concat()));
    sha1(&x) == stage2
}
/// As the server checks a caching_sha2_password reply against its cache.
pub fn sha2_fast_ok(password: &str, scramble: &[u8], reply: &[u8]) -> bool {
    if reply.len() != 32 { return false; }
    let stage2 = sha256(&sha256(password.as_bytes()));
    let x = xor(reply, &sha256(&[&stage2[..], scramble].concat()));
    sha256(&x) == stage2
}

pub struct Conn {
    pub s: TcpStream,
    pub rx: Vec<u8>,
    pub tx: usize,
    pub cut: Option<usize>,
    pub rst: bool,
    /// a cut closes the sending direction only
    pub half: bool,
    pub seg: Option<Rng>,
    pub pause_us: u64,
    pub pipelined: bool,
    /// packet to replace by arbitrary bytes: index, and (sequence number, body) -> bytes
    pub mutate: Option<(usize, Box<dyn FnMut(u8, &[u8]) -> Vec<u8> + Send>)>,
    pub packets: usize,
    pub short_wait: bool,
    /// after the replaced packet nothing more is sent; reads wait this long
    pub silence: Option<Duration>,
    pub muted: bool,
    /// one byte sent, by its offset, to be replaced
    pub edit: Option<(usize, fn(u8) -> u8)>,
    /// called once in the middle of a request of over 500 kB
    pub choke: Option<Box<dyn FnOnce() + Send>>,
}
impl Conn {
    pub fn new(s: TcpStream) -> Self {
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(Duration::from_secs(90)));
        let _ = s.set_write_timeout(Some(Duration::from_secs(90)));
        Conn { s, rx: vec![], tx: 0, cut: None, rst: false, half: false, seg: None, pause_us: 0, pipelined: false, mutate: None, packets: 0, short_wait: false, silence: None, muted: false, edit: None, choke: None }
    }
    /// Little of what is sent fits into the buffers of this side.
    pub fn small_window(&self) {
        let n: libc::c_int = 32 * 1024;
        unsafe { libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const libc::c_void, 4); }
    }
    fn quickack(&self) {
        let one: libc::c_int = 1;
        unsafe { libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4); }
    }
    pub fn pending(&self) -> bool {
        let mut p = libc::pollfd { fd: self.s.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, 0) } <= 0 { return false; }
        let mut b = [0u8; 1];
        unsafe { libc::recv(self.s.as_raw_fd(), b.as_mut_ptr() as *mut libc::c_void, 1, libc::MSG_PEEK | libc::MSG_DONTWAIT) > 0 }
    }
    fn read_exact(&mut self, n: usize) -> io::Result<Vec<u8>> {
        let mut b = vec![0u8; n];
        let mut got = 0;
        while got < n {
            if got > 0 && n > 500_000 { if let Some(f) = self.choke.take() { f(); } }
            self.quickack();
            let k = self.s.read(&mut b[got..])?;
            if k == 0 { return Err(io::ErrorKind::UnexpectedEof.into()); }
            self.rx.extend_from_slice(&b[got..got + k]);
            got += k;
        }
        Ok(b)
    }
    pub fn recv(&mut self) -> io::Result<(u8, Vec<u8>)> {
        let h = self.read_exact(4)?;
        let n = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
        let mut b = self.read_exact(n)?;
        // continued in further packets
        let mut last = n;
        while last == 0xffffff {
            let h = self.read_exact(4)?;
            last = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
            b.extend(self.read_exact(last)?);
        }
        Ok((h[3], b))
    }
    pub fn send_raw(&mut self, b: &[u8]) -> io::Result<()> {
        let mut b = b;
        let mut cutting = false;
        if let Some(c) = self.cut {
            let left = c.saturating_sub(self.tx);
            if b.len() >= left { b = &b[..left]; cutting = true; }
        }
        match self.seg.take() {
            None => self.s.write_all(b)?,
            Some(mut r) => {
                let mut o = 0;
                let mut pauses = 0;
                while o < b.len() {
                    let n = match r.below(6) { 0 => 1, 1 => 1 + r.usize(4), 2 => 1 + r.usize(20), 3 => 1 + r.usize(2000), _ => 1 + r.usize(70000) }.min(b.len() - o);
                    self.s.write_all(&b[o..o + n])?;
                    o += n;
                    if self.pause_us > 0 && pauses < 60 && r.pct(50) { pauses += 1; std::thread::sleep(Duration::from_micros(r.below(self.pause_us))); }
                }
                self.seg = Some(r);
            }
        }
        self.tx += b.len();
        if cutting {
            self.close();
            return Err(io::Error::new(io::ErrorKind::ConnectionAborted, "cut"));
        }
        Ok(())
    }
    pub fn close(&mut self) {
        if self.rst {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe { libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32); }
        } else if self.half {
            let _ = self.s.shutdown(std::net::Shutdown::Write);
            // until the client closes
            let _ = self.s.set_read_timeout(Some(Duration::from_secs(20)));
            let mut b = [0u8; 4096];
            while let Ok(n) = self.s.read(&mut b) { if n == 0 { break; } self.rx.extend_from_slice(&b[..n]); }
        } else {
            let _ = self.s.shutdown(std::net::Shutdown::Both);
        }
    }
    pub fn send(&mut self, seq: u8, body: &[u8]) -> io::Result<()> {
        if self.muted { return Ok(()); }
        let mut p = packet(seq, body);
        let k = self.packets;
        self.packets += 1;
        if let Some((n, f)) = &mut self.mutate {
            if *n == k {
                p = f(seq, body);
                match self.silence {
                    Some(t) => { self.muted = true; let _ = self.s.set_read_timeout(Some(t)); }
                    // the peer may now wait for more: do not wait long for it
                    None => self.short_wait = true,
                }
            }
        }
        if let Some((at, f)) = self.edit {
            if at >= self.tx && at < self.tx + p.len() { p[at - self.tx] = f(p[at - self.tx]); self.short_wait = true; }
        }
        if self.short_wait { let _ = self.s.set_read_timeout(Some(Duration::from_millis(60))); }
        self.send_raw(&p)
    }
}
pub fn packet(seq: u8, body: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    w.u24(body.len() as u32).u8(seq).bytes(body);
    w.0
}
pub fn err_body(code: u16, state: Option<&str>, msg: &str) -> Vec<u8> {
    let mut w = W::new();
    w.u8(0xff).u16(code);
    if let Some(s) = state { w.u8(b'#').bytes(s.as_bytes()); }
    w.bytes(msg.as_bytes());
    w.0
}
/// What servers answer: code, SQL state, message.
pub const ERRORS: [(u16, &str, &str); 34] = [
    (1040, "08004", "Too many connections"), (1044, "42000", "Access denied for user 'repl'@'%' to database 'x'"), (1045, "28000", "Access denied for user 'repl'@'10.0.0.7' (using password: YES)"),
    (1049, "42000", "Unknown database 'x'"), (1053, "08S01", "Server shutdown in progress"), (1064, "42000", "You have an error in your SQL syntax"), (1129, "HY000", "Host '10.0.0.7' is blocked because of many connection errors; unblock with 'mysqladmin flush-hosts'"),
    (1130, "HY000", "Host '10.0.0.7' is not allowed to connect to this MySQL server"), (1142, "42000", "SHOW command denied to user 'repl'@'%'"), (1152, "08S01", "Aborted connection 12 to db: 'x' user: 'repl' host: 'h' (Got an error reading communication packets)"),
    (1158, "08S01", "Got an error reading communication packets"), (1159, "08S01", "Got timeout reading communication packets"), (1160, "08S01", "Got an error writing communication packets"), (1161, "08S01", "Got timeout writing communication packets"),
    (1193, "HY000", "Unknown system variable 'binlog_checksum'"), (1205, "HY000", "Lock wait timeout exceeded; try restarting transaction"), (1220, "HY000", "Error when executing command SHOW BINLOG EVENTS: Could not find target log"), (1226, "42000", "User 'repl' has exceeded the 'max_user_connections' resource (current value: 1)"),
    (1227, "42000", "Access denied; you need (at least one of) the SUPER, REPLICATION CLIENT privilege(s) for this operation"), (1231, "42000", "Variable 'binlog_checksum' can't be set to the value of 'x'"), (1236, "HY000", "Could not find first log file name in binary log index file"),
    (1236, "HY000", "The slave is connecting using CHANGE MASTER TO MASTER_AUTO_POSITION = 1, but the master has purged binary logs containing GTIDs that the slave requires."), (1236, "HY000", "log event entry exceeded max_allowed_packet; Increase max_allowed_packet on master"),
    (1236, "HY000", "A slave with the same server_uuid/server_id as this slave has connected to the master"), (1290, "HY000", "The MySQL server is running with the --read-only option so it cannot execute this statement"), (1317, "70100", "Query execution was interrupted"),
    (1380, "HY000", "Failed initializing relay log position"), (1381, "HY000", "You are not using binary logging"), (1820, "HY000", "You must reset your password using ALTER USER statement before executing this statement."), (1862, "HY000", "Your password has expired."),
    (1927, "70100", "Connection was killed"), (3118, "HY000", "Access denied for user 'repl'@'%'. Account is locked."), (3159, "HY000", "Connections using insecure transport are prohibited while --require_secure_transport=ON."), (4031, "HY000", "The client was disconnected by the server because of inactivity. See wait_timeout and interactive_timeout for configuring this behavior."),
];
/// Refusals of a login, by the session's variant.
pub fn deny_error(cfg: &Cfg) -> (u16, &'static str, &'static str) {
    const L: [u16; 8] = [1045, 1045, 1045, 1044, 1049, 1862, 3118, 1226];
    let c = L[(cfg.mix >> 20) as usize % 8];
    *ERRORS.iter().find(|e| e.0 == c).unwrap()
}
pub fn ok_body() -> Vec<u8> { vec![0, 0, 0, 2, 0, 0, 0] }
pub fn eof_body() -> Vec<u8> { vec![0xfe, 0, 0, 2, 0] }
/// Ends of a stream, with every status there may be.
pub fn end_body(r: u64) -> Vec<u8> {
    let st = [2u16, 0, 0x22, 0x4002, 0x40, 10, 3, 0xffff, 0x80, 8][(r >> 3) as usize % 10];
    let mut v = vec![0xfe, (r >> 8 & 1) as u8 * 3, 0];
    v.extend(st.to_le_bytes());
    v
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub maria: bool,
    pub version: String,
    pub scramble: Vec<u8>,
    pub scramble2: Vec<u8>,
    /// plugin announced in the greeting
    pub plugin: String,
    /// plugin of the account
    pub account: String,
    pub user: String,
    pub password: String,
    pub cached: bool,
    /// ask for a switch even to the plugin already used
    pub switch_anyway: bool,
    pub ssl: bool,
    pub checksum: String,
    pub status: Option<(String, u64)>,
    /// index of the session command to refuse, and how far into a result set
    pub refuse: Option<(usize, u8)>,
    pub err: (u16, Option<String>, String),
    /// replaces the row of the position / the rows of the checksum query
    pub status_rows: Option<Vec<Vec<String>>>,
    pub checksum_rows: Option<Vec<Vec<String>>>,
    pub greet_seq: u8,
    pub reply_delay_us: u64,
    /// public key sent in the full exchange
    pub pem: Option<Vec<u8>>,
    pub greet_error: bool,
    /// refuse at the very end of authentication although the proof is right (locked account)
    pub deny: bool,
    /// what the client asks for
    pub blocking: bool,
    /// capabilities the server does not have
    pub lacks: u32,
    /// decides details servers differ in and clients do not depend on
    pub mix: u64,
}
pub fn cfg(maria: bool) -> Cfg {
    Cfg {
        maria,
        version: if maria { "5.5.5-10.6.12-MariaDB-log".into() } else { "8.0.32".into() },
        scramble: b"abcdefgh0123456789AB".to_vec(),
        scramble2: b"ZYXWVUTSRQPONMLKJIHG".to_vec(),
        plugin: NATIVE.into(), account: NATIVE.into(), user: "repl".into(), password: "secret".into(), cached: true, switch_anyway: false, ssl: false,
        checksum: "CRC32".into(), status: Some(("mysql-bin.000007".into(), 4567)), refuse: None,
        err: (1234, Some("42000".into()), "refused".into()), status_rows: None, checksum_rows: None, greet_seq: 0, reply_delay_us: 0, pem: None, greet_error: false, deny: false, blocking: true, lacks: 0, mix: crate::mon::case_mix() >> 7,
    }
}
pub fn gen_scramble(r: &mut Rng) -> Vec<u8> {
    (0..20).map(|_| loop { let c = 1 + r.below(126) as u8; if c != b'$' { break c; } }).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd { Query(String), Register(Vec<u8>), Dump { pos: u32, flags: u16, sid: u32, file: Vec<u8> }, DumpGtid { flags: u16, sid: u32, file: Vec<u8>, pos: u64, data: Vec<u8> }, Ping, Quit, Other(Vec<u8>) }

#[derive(Default, Debug)]
pub struct Session {
    pub connected: bool,
    pub user: Vec<u8>,
    pub db: Option<Vec<u8>>,
    pub client_plugin: Vec<u8>,
    pub caps: u32,
    pub switched: bool,
    pub full: bool,
    /// whether the caching_sha2_password proof was right
    pub proof: Option<bool>,
    pub authed: bool,
    pub denied: bool,
    pub cmds: Vec<Cmd>,
    pub vars: BTreeMap<String, String>,
    pub refused: Option<String>,
    /// commands (and count) received after a refusal
    pub after_refusal: Vec<Cmd>,
    pub dump: Option<Cmd>,
    pub problems: Vec<String>,
    pub rx: Vec<u8>,
    /// bytes sent before the stream request was received
    pub setup_tx: usize,
    pub replies: Vec<Vec<u8>>,
    pub ended: Option<String>,
}

pub mod cap {
    pub const CONNECT_WITH_DB: u32 = 8;
    pub const COMPRESS: u32 = 1 << 5;
    pub const PROTOCOL_41: u32 = 1 << 9;
    pub const SSL: u32 = 1 << 11;
    pub const SECURE_CONNECTION: u32 = 1 << 15;
    pub const PLUGIN_AUTH: u32 = 1 << 19;
    pub const CONNECT_ATTRS: u32 = 1 << 20;
    pub const LENENC_AUTH: u32 = 1 << 21;
    pub const DEPRECATE_EOF: u32 = 1 << 24;
    pub const ZSTD: u32 = 1 << 26;
}
/// What the server offers: the least that is needed, or everything servers have.
pub fn offered(c: &Cfg) -> u32 {
    let mut caps: u32 = match (c.mix & 1, c.maria) { (0, _) => 0x0008_a201 | 0x8 | 0x2000, (_, false) => 0xdfff_f7ff, (_, true) => 0x81bf_f7fe };
    if c.ssl { caps |= cap::SSL; }
    caps & !c.lacks
}
pub fn greeting(c: &Cfg) -> Vec<u8> {
    let mut w = W::new();
    let caps = offered(c);
    let charset = [45u8, 8, 33, 255, 224][(c.mix >> 1) as usize % 5];
    let thread = [77u32, 1, 0x0100_0001, u32::MAX, 300][(c.mix >> 4) as usize % 5];
    let status = [2u16, 0, 0x4002][(c.mix >> 6) as usize % 3];
    w.u8(10).str0(&c.version).u32(thread).bytes(&c.scramble[..8]).u8(0).u16(caps as u16).u8(charset).u16(status).u16((caps >> 16) as u16).u8(21);
    w.bytes(&[0; 6]).u32(if c.maria { [7, 0x1d][(c.mix >> 8) as usize % 2] } else { 0 });
    if caps & cap::SECURE_CONNECTION != 0 { w.bytes(&c.scramble[8..]).u8(0); }
    if caps & cap::PLUGIN_AUTH != 0 { w.str0(&c.plugin); }
    w.0
}
/// OK packets differ in counters, status and information text.
pub fn ok_reply(c: &Cfg) -> Vec<u8> {
    match (c.mix >> 9) % 4 {
        0 => vec![0, 3, 0xfc, 0x10, 1, 2, 0, 1, 0],
        1 => { let mut v = vec![0, 0, 0, 2, 0, 0, 0]; v.extend(b"Rows matched: 0"); v }
        2 => vec![0, 0, 0, 2, 0x40, 0xff, 0xff],
        _ => ok_body(),
    }
}

/// Ok(Some(dump)) when the client asked for the stream.
pub fn session(c: &mut Conn, cfg: &Cfg, s: &mut Session) -> io::Result<Option<Cmd>> {
    s.connected = true;
    let r = (|| {
        if !authenticate(c, cfg, s)? { return Ok(None); }
        commands(c, cfg, s)
    })();
    s.setup_tx = c.tx;
    s.rx = c.rx.clone();
    if let Err(e) = &r { s.ended = Some(format!("{}", e)); }
    if c.pipelined { s.problems.push("a command was sent before the reply to the previous one".into()); }
    r
}

fn refuse_auth(c: &mut Conn, cfg: &Cfg, s: &mut Session, seq: u8) -> io::Result<bool> {
    s.denied = true;
    let (code, state, msg) = deny_error(cfg);
    c.send(seq, &err_body(code, Some(state), msg))?;
    // whatever the client still sends after the refusal
    if let Ok((_, b)) = { if !c.short_wait { let _ = c.s.set_read_timeout(Some(Duration::from_secs(20))); } c.recv() } { s.problems.push(format!("{} bytes sent after authentication was refused", b.len())); }
    Ok(false)
}

fn reply(c: &mut Conn, cfg: &Cfg) {
    if cfg.reply_delay_us > 0 { std::thread::sleep(Duration::from_micros(cfg.reply_delay_us)); }
    if c.pending() { c.pipelined = true; }
}

fn authenticate(c: &mut Conn, cfg: &Cfg, s: &mut Session) -> io::Result<bool> {
    reply(c, cfg);
    if cfg.greet_error {
        c.send(cfg.greet_seq, &err_body(cfg.err.0, None, &cfg.err.2))?;
        s.denied = true;
        return Ok(false);
    }
    c.send(cfg.greet_seq, &greeting(cfg))?;
    let (seq, b) = c.recv()?;
    if seq != cfg.greet_seq.wrapping_add(1) { s.problems.push(format!("handshake response has sequence number {}, expected {}", seq, cfg.greet_seq.wrapping_add(1))); }
    if b.len() == 32 && b[1] & 8 != 0 {
        // SSL request: this server does not go on with TLS
        s.ended = Some("ssl request".into());
        let _ = c.recv().map(|(_, b)| s.problems.push(format!("{} bytes in clear after the SSL request", b.len())));
        return Ok(false);
    }
    if b.len() < 34 { s.problems.push("handshake response too short".into()); return refuse_auth(c, cfg, s, seq.wrapping_add(1)); }
    s.caps = u32::from_le_bytes(b[0..4].try_into().unwrap());
    // only what both sides have counts
    let caps = s.caps & offered(cfg);
    if caps & cap::PROTOCOL_41 == 0 { s.problems.push("a handshake response of protocol 4.1 without that capability".into()); return refuse_auth(c, cfg, s, seq.wrapping_add(1)); }
    if caps & (cap::COMPRESS | cap::SSL | cap::ZSTD) != 0 { s.problems.push(format!("the client asks for compression or TLS and goes on without: capabilities {:#x}", s.caps)); return refuse_auth(c, cfg, s, seq.wrapping_add(1)); }
    if b[9..32].iter().any(|x| *x != 0) { s.problems.push("reserved bytes of the handshake response are not zero".into()); }
    // names are in the character set the client announces
    let utf8 = matches!(b[8], 45 | 46 | 224..=247 | 255);
    let mut p = 32;
    let take0 = |p: &mut usize| -> Option<Vec<u8>> { let e = b[*p..].iter().position(|x| *x == 0)? + *p; let v = b[*p..e].to_vec(); *p = e + 1; Some(v) };
    let Some(user) = take0(&mut p) else { s.problems.push("no user name".into()); return refuse_auth(c, cfg, s, seq.wrapping_add(1)); };
    s.user = user;
    if p >= b.len() { s.problems.push("no auth response".into()); return refuse_auth(c, cfg, s, seq.wrapping_add(1)); }
    let n = if caps & (cap::SECURE_CONNECTION | cap::LENENC_AUTH) != 0 { p += 1; b[p - 1] as usize } else { b[p..].iter().position(|x| *x == 0).unwrap_or(b.len()) };
    if p + n > b.len() { s.problems.push("auth response cut".into()); return refuse_auth(c, cfg, s, seq.wrapping_add(1)); }
    let mut auth = b[p..p + n].to_vec();
    p += n;
    if caps & (cap::SECURE_CONNECTION | cap::LENENC_AUTH) == 0 { p += 1; }
    if caps & cap::CONNECT_WITH_DB != 0 { s.db = if p < b.len() { take0(&mut p) } else { None }; }
    if caps & cap::PLUGIN_AUTH != 0 && p < b.len() { s.client_plugin = take0(&mut p).unwrap_or_default(); } else { s.client_plugin = NATIVE.into(); }
    if caps & cap::CONNECT_ATTRS != 0 { if p < b.len() && b[p] < 251 { p += 1 + b[p] as usize } else { p += 9 } }
    if p != b.len() { s.problems.push(format!("{} stray bytes at the end of the handshake response", b.len().saturating_sub(p))); }
    let mut seq = seq;
    let mut scramble = cfg.scramble.clone();
    if cfg.switch_anyway || s.client_plugin != cfg.account.as_bytes() || cfg.plugin != cfg.account {
        let mut w = W::new();
        w.u8(0xfe).str0(&cfg.account).bytes(&cfg.scramble2).u8(0);
        reply(c, cfg);
        c.send(seq.wrapping_add(1), &w.0)?;
        s.switched = true;
        let (q, b) = c.recv()?;
        if q != seq.wrapping_add(2) { s.problems.push(format!("auth switch response has sequence number {}, expected {}", q, seq.wrapping_add(2))); }
        seq = q;
        auth = b;
        scramble = cfg.scramble2.clone();
    }
    let user_ok = s.user == cfg.user.as_bytes() && !cfg.deny && (utf8 || s.user.is_ascii());
    if cfg.account == NATIVE {
        if user_ok && native_ok(&cfg.password, &scramble, &auth) {
            reply(c, cfg);
            c.send(seq.wrapping_add(1), &ok_reply(cfg))?;
            s.authed = true;
            return Ok(true);
        }
        return refuse_auth(c, cfg, s, seq.wrapping_add(1));
    }
    if cfg.account != SHA2 { s.problems.push(format!("{} bytes sent for a plugin the client does not support", auth.len())); return refuse_auth(c, cfg, s, seq.wrapping_add(1)); }
    // caching_sha2_password
    if auth.is_empty() || auth == [0] {
        if user_ok && cfg.password.is_empty() {
            reply(c, cfg);
            c.send(seq.wrapping_add(1), &ok_reply(cfg))?;
            s.authed = true;
            return Ok(true);
        }
        return refuse_auth(c, cfg, s, seq.wrapping_add(1));
    }
    if cfg.password.is_empty() { return refuse_auth(c, cfg, s, seq.wrapping_add(1)); }
    let proof = sha2_fast_ok(&cfg.password, &scramble, &auth);
    s.proof = Some(proof);
    if cfg.cached && s.user == cfg.user.as_bytes() && proof {
        reply(c, cfg);
        c.send(seq.wrapping_add(1), &[1, 3])?;
        if cfg.deny { return refuse_auth(c, cfg, s, seq.wrapping_add(2)); }
        c.send(seq.wrapping_add(2), &ok_reply(cfg))?;
        s.authed = true;
        return Ok(true);
    }
    // a refusal can come at any stage
    let stage = if cfg.deny { (cfg.mix >> 23) % 3 } else { 2 };
    if stage == 0 { return refuse_auth(c, cfg, s, seq.wrapping_add(1)); }
    s.full = true;
    reply(c, cfg);
    c.send(seq.wrapping_add(1), &[1, 4])?;
    let (q, b) = c.recv()?;
    if q != seq.wrapping_add(2) { s.problems.push(format!("public key request has sequence number {}, expected {}", q, seq.wrapping_add(2))); }
    if b != [2] { s.problems.push("the client did not ask for the public key".into()); return refuse_auth(c, cfg, s, q.wrapping_add(1)); }
    if stage == 1 { return refuse_auth(c, cfg, s, q.wrapping_add(1)); }
    let mut w = W::new();
    w.u8(1);
    let key = rsa_key(&scramble);
    match &cfg.pem { Some(p) => w.bytes(p), None => w.bytes(&key.public_key_to_pem().unwrap()) };
    reply(c, cfg);
    c.send(q.wrapping_add(1), &w.0)?;
    let (q2, b) = c.recv()?;
    if q2 != q.wrapping_add(2) { s.problems.push(format!("encrypted password has sequence number {}, expected {}", q2, q.wrapping_add(2))); }
    let mut out = vec![0u8; key.size() as usize];
    let good = b.len() == out.len() && match key.private_decrypt(&b, &mut out, Padding::PKCS1_OAEP) {
        Ok(n) => { let clear = xor(&out[..n], &scramble); clear == [cfg.password.as_bytes(), &[0]].concat() }
        Err(_) => false,
    };
    if user_ok && good {
        reply(c, cfg);
        c.send(q2.wrapping_add(1), &ok_reply(cfg))?;
        s.authed = true;
        return Ok(true);
    }
    refuse_auth(c, cfg, s, q2.wrapping_add(1))
}

pub fn parse_cmd(b: &[u8]) -> Cmd {
    let u32at = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    match b.first() {
        Some(3) => Cmd::Query(String::from_utf8_lossy(&b[1..]).into_owned()),
        Some(0x15) => Cmd::Register(b[1..].to_vec()),
        Some(0x12) if b.len() >= 11 => Cmd::Dump { pos: u32at(1), flags: u16::from_le_bytes([b[5], b[6]]), sid: u32at(7), file: b[11..].to_vec() },
        Some(0x1e) if b.len() >= 11 => {
            let n = u32at(7) as usize;
            if b.len() < 11 + n + 12 { return Cmd::Other(b.to_vec()); }
            let pos = u64::from_le_bytes(b[11 + n..19 + n].try_into().unwrap());
            let d = u32at(19 + n) as usize;
            if b.len() != 23 + n + d { return Cmd::Other(b.to_vec()); }
            Cmd::DumpGtid { flags: u16::from_le_bytes([b[1], b[2]]), sid: u32at(3), file: b[11..11 + n].to_vec(), pos, data: b[23 + n..].to_vec() }
        }
        Some(0x0e) => Cmd::Ping,
        Some(1) => Cmd::Quit,
        _ => Cmd::Other(b.to_vec()),
    }
}

/// A literal or a system variable.
fn value(x: &str) -> bool {
    let quoted = |c: char| x.len() >= 2 && x.starts_with(c) && x.ends_with(c) && x[1..x.len() - 1].matches(c).count() % 2 == 0;
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let number = || { let x = x.trim_start_matches(['-', '+']); match x.split_once('.') { Some((a, b)) => digits(a) && digits(b), None => digits(x) } };
    quoted('\'') || quoted('"') || number() || x.strip_prefix("@@").map_or(false, |n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'.')) || ["null", "true", "false"].contains(&x.to_ascii_lowercase().as_str())
}

/// `set @a=1, @b='x'` -> the assignments, names lower-cased and without the @.
pub fn assignments(sql: &str) -> Option<Vec<(String, String)>> {
    let t = sql.trim();
    if t.len() < 4 || !t[..3].eq_ignore_ascii_case("set") || !t.as_bytes()[3].is_ascii_whitespace() { return None; }
    let mut parts = vec![String::new()];
    let mut q = false;
    for c in t[3..].chars() {
        if c == '\'' { q = !q; }
        if c == ',' && !q { parts.push(String::new()); } else { parts.last_mut().unwrap().push(c); }
    }
    let mut v = vec![];
    for p in parts {
        let p = p.trim();
        let (n, x) = p.split_once('=')?;
        let n = n.trim().trim_end_matches(':').trim();
        let n = n.strip_prefix('@')?;
        if !value(x.trim()) { return None; }
        v.push((n.to_ascii_lowercase(), x.trim().to_string()));
    }
    Some(v)
}

/// True when the error of `fail_at` was sent (a result set may have fewer packets).
fn send_result(c: &mut Conn, cfg: &Cfg, caps: u32, cols: &[&str], rows: &[Vec<String>], fail_at: Option<(u8, Vec<u8>)>) -> io::Result<bool> {
    let mut seq = 1u8;
    let mut step = 0u8;
    let mut put = |c: &mut Conn, b: &[u8]| -> io::Result<bool> {
        if let Some((k, e)) = &fail_at { if *k == step { c.send(seq, e)?; return Ok(false); } }
        step += 1;
        c.send(seq, b)?;
        seq = seq.wrapping_add(1);
        Ok(true)
    };
    if !put(c, &[cols.len() as u8])? { return Ok(true); }
    for n in cols {
        let mut w = W::new();
        let long = "long_table_name_".repeat(17);
        let (t, o) = [("", ""), ("t", "o"), (long.as_str(), long.as_str())][(cfg.mix >> 11) as usize % 3];
        for x in ["def", t, t, o, n, o] { w.lenstr(x.as_bytes()); }
        w.u8(0x0c).u16(45).u32(255).u8(253).u16(0).u8(0).u16(0);
        if !put(c, &w.0)? { return Ok(true); }
    }
    // a client may ask to have no packet after the columns and an OK at the end
    let modern = caps & offered(cfg) & cap::DEPRECATE_EOF != 0;
    let eof = [vec![0xfe, 0, 0, 2, 0], vec![0xfe, 3, 0, 0x22, 0x40]][(cfg.mix >> 13) as usize % 2].clone();
    if !modern && !put(c, &eof)? { return Ok(true); }
    for r in rows {
        let mut w = W::new();
        for x in r { w.lenstr(x.as_bytes()); }
        if !put(c, &w.0)? { return Ok(true); }
    }
    Ok(!put(c, if modern { &[0xfe, 0, 0, 2, 0, 0, 0] } else { &eof })?)
}

fn commands(c: &mut Conn, cfg: &Cfg, s: &mut Session) -> io::Result<Option<Cmd>> {
    loop {
        let (seq, b) = c.recv()?;
        let cmd = parse_cmd(&b);
        let index = s.cmds.len();
        s.cmds.push(cmd.clone());
        if s.refused.is_some() { s.after_refusal.push(cmd.clone()); }
        if seq != 0 { s.problems.push(format!("command {} has sequence number {}, expected 0", index, seq)); }
        if let Cmd::Dump { .. } | Cmd::DumpGtid { .. } = cmd {
            if let Some((k, _)) = cfg.refuse { if k == index {
                s.refused = Some(format!("{:?}", cmd));
            } }
            s.dump = Some(cmd.clone());
            return Ok(Some(cmd));
        }
        reply(c, cfg);
        let e = err_body(cfg.err.0, cfg.err.1.as_deref(), &cfg.err.2);
        let refuse = match cfg.refuse { Some((k, step)) if k == index => Some(step), _ => None };
        match &cmd {
            Cmd::Quit => return Ok(None),
            Cmd::Ping => c.send(1, &ok_reply(cfg))?,
            Cmd::Register(b) => {
                if refuse.is_some() { s.refused = Some("register".into()); c.send(1, &e)?; continue; }
                // server id, host, user, password, port, rank, master id
                let mut p = 4;
                for _ in 0..3 { p += 1 + b.get(p).map(|x| *x as usize).unwrap_or(1 << 20); }
                if p + 10 != b.len() { s.problems.push(format!("malformed COM_REGISTER_SLAVE: {}", crate::mon::hex_short(b))); }
                c.send(1, &ok_reply(cfg))?
            }
            Cmd::Query(q) => {
                let l = q.trim().trim_end_matches(';').to_ascii_lowercase().split_whitespace().collect::<Vec<_>>().join(" ");
                let is_set = l.starts_with("set ");
                if let Some(step) = refuse { if is_set || step == 0 { s.refused = Some(q.clone()); c.send(1, &e)?; continue; } }
                let fail = refuse.map(|k| (k, e.clone()));
                if is_set {
                    match assignments(q) {
                        Some(a) => {
                            for (n, v) in a {
                                let v = if v.to_ascii_lowercase().contains("global.binlog_checksum") { cfg.checksum.clone() } else { v };
                                s.vars.insert(n, v);
                            }
                            c.send(1, &ok_reply(cfg))?
                        }
                        None => { s.problems.push(format!("unknown SET: {}", q)); c.send(1, &err_body(1064, Some("42000"), "syntax"))? }
                    }
                } else if ["show master status", "show binary log status", "show binlog status"].contains(&l.as_str()) {
                    let rows: Vec<Vec<String>> = cfg.status.iter().map(|(f, p)| { let dbs = ["".to_string(), "db".into(), "d".repeat(250), "d".repeat(251), "db1,db2,".repeat(40)][(cfg.mix >> 14) as usize % 5].clone(); let mut v = vec![f.clone(), p.to_string(), dbs.clone(), dbs]; if !cfg.maria { v.push(["".to_string(), "aaaaaaaa-bbbb-cccc-dddd-eeeeeeeeeeee:1-5".into(), "aaaaaaaa-bbbb-cccc-dddd-eeeeeeeeeeee:1-5,\n".repeat(8), "aaaaaaaa-bbbb-cccc-dddd-eeeeeeeeeeee:1-5,\n".repeat(1700), "x".repeat(65535)][(cfg.mix >> 17) as usize % 5].clone()); } v }).collect();
                    let rows = cfg.status_rows.clone().unwrap_or(rows);
                    let cols: &[&str] = if cfg.maria { &["File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB"] } else { &["File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB", "Executed_Gtid_Set"] };
                    if send_result(c, cfg, s.caps, cols, &rows, fail)? { s.refused = Some(q.clone()); }
                } else if l.starts_with("select ") && l.contains("binlog_checksum") {
                    let v = if l.contains("@@") { cfg.checksum.clone() } else { s.vars.get("master_binlog_checksum").or(s.vars.get("source_binlog_checksum")).cloned().unwrap_or_default() };
                    let rows = cfg.checksum_rows.clone().unwrap_or_else(|| vec![vec![v]]);
                    if send_result(c, cfg, s.caps, &["@master_binlog_checksum"], &rows, fail)? { s.refused = Some(q.clone()); }
                } else {
                    s.problems.push(format!("unknown query: {}", q));
                    c.send(1, &err_body(1064, Some("42000"), "syntax"))?
                }
            }
            _ => { s.problems.push(format!("malformed or unknown command: {}", crate::mon::hex_short(&b))); c.send(1, &err_body(1047, Some("08S01"), "unknown command"))? }
        }
    }
}

// ---- running a server next to the client ----

pub struct Lsn { pub l: TcpListener, pub host: String, pub port: u16, pub stop: AtomicBool }
/// Whether the name means the loopback address, and only that.
fn localhost() -> bool {
    use std::net::ToSocketAddrs;
    static L: OnceLock<bool> = OnceLock::new();
    *L.get_or_init(|| ("localhost", 1).to_socket_addrs().map(|a| a.map(|a| a.ip().to_string()).all(|i| i == "127.0.0.1")).unwrap_or(false))
}
pub fn listen(worker: usize) -> Lsn {
    // own addresses keep the number of ports per address small; some cases use the well-known ones
    let host = match crate::mon::case_mix() % 32 { 5 => "127.0.0.1".into(), 6 if localhost() => "localhost".into(), _ => format!("127.0.{}.{}", 1 + worker / 200, 1 + worker % 200) };
    let l = TcpListener::bind((if host == "localhost" { "127.0.0.1" } else { host.as_str() }, 0)).expect("bind");
    l.set_nonblocking(true).expect("nonblocking");
    let port = l.local_addr().unwrap().port();
    Lsn { l, host, port, stop: AtomicBool::new(false) }
}
impl Lsn {
    /// None when the client is done.
    pub fn accept(&self) -> Option<Conn> {
        loop {
            match self.l.accept() {
                Ok((s, _)) => { s.set_nonblocking(false).ok()?; return Some(Conn::new(s)); }
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                    if self.stop.load(Ordering::SeqCst) { return None; }
                    let mut p = libc::pollfd { fd: self.l.as_raw_fd(), events: libc::POLLIN, revents: 0 };
                    unsafe { libc::poll(&mut p, 1, 20); }
                }
                Err(_) => return None,
            }
        }
    }
}

/// Runs `srv` in a thread while `cli` runs here.
pub fn with_server<S: Send, R>(worker: usize, srv: impl FnOnce(&Lsn) -> S + Send, cli: impl FnOnce(&str, u16) -> R) -> (S, R) {
    let lsn = listen(worker);
    std::thread::scope(|sc| {
        let h = sc.spawn(|| srv(&lsn));
        struct Stop<'a>(&'a AtomicBool);
        impl Drop for Stop<'_> { fn drop(&mut self) { self.0.store(true, Ordering::SeqCst) } }
        let r = { let _s = Stop(&lsn.stop); cli(&lsn.host, lsn.port) };
        (h.join().expect("server thread"), r)
    })
}
