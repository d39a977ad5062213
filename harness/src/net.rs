//! Client-side helpers for network cases.
use crate::events::{Ev, Item};
use crate::mon::lib;
use crate::server::{self, Cfg, Cmd, Conn, Session};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_events::BinlogEvents;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::errors::Error;
use mysql_cdc::replica_options::ReplicaOptions;
use std::io;
use std::time::Duration;

/// Client timeouts are interval + 10 s: nothing in an ordinary case waits that long.
pub const INTERVAL: Duration = Duration::from_secs(40);

pub fn options(c: &Cfg, host: &str, port: u16, binlog: BinlogOptions) -> ReplicaOptions {
    ReplicaOptions { hostname: host.into(), port, username: c.user.clone(), password: c.password.clone(), heartbeat_interval: INTERVAL, blocking: c.blocking, binlog, ..Default::default() }
}

/// One event packet: status byte and event.
pub fn event_packet(e: &Ev, crc: bool) -> Vec<u8> { let mut v = vec![0u8]; v.extend(e.bytes(crc)); v }

/// Sends event packets with sequence numbers as the server does after the request.
pub struct Stream<'a> { pub c: &'a mut Conn, pub seq: u8 }
impl<'a> Stream<'a> {
    pub fn new(c: &'a mut Conn) -> Self { Stream { c, seq: 1 } }
    pub fn put(&mut self, body: &[u8]) -> io::Result<()> {
        let s = self.seq;
        self.seq = self.seq.wrapping_add(1);
        self.c.send(s, body)
    }
    pub fn event(&mut self, e: &Ev, crc: bool) -> io::Result<()> { self.put(&event_packet(e, crc)) }
}

/// Serves one connection: session set-up, then `dump` on the stream request.
pub fn serve_one(lsn: &server::Lsn, cfg: &Cfg, prep: impl FnOnce(&mut Conn), dump: impl FnOnce(&mut Conn, &Cmd, &Session) -> io::Result<()>) -> Session {
    let mut s = Session::default();
    let Some(mut c) = lsn.accept() else { return s; };
    prep(&mut c);
    if let Ok(Some(d)) = server::session(&mut c, cfg, &mut s) {
        if let Err(e) = dump(&mut c, &d, &s) { s.ended = Some(format!("{}", e)); }
    }
    s.rx = c.rx.clone();
    s
}

pub fn replicate(client: &mut BinlogClient) -> Result<Result<BinlogEvents, Error>, String> { lib(|| client.replicate()) }

pub fn next(ev: &mut BinlogEvents) -> Result<Option<Item>, String> { lib(|| ev.next()) }
