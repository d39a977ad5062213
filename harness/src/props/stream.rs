//! C13: the replication stream.
use crate::ensure;
use crate::enc;
use crate::events::*;
use crate::mon::{hex_short, CaseResult, Ctx};
use crate::net;
use crate::rng::Rng;
use crate::server;
use crate::{Prop, WORKERS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::errors::Error;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", case: c13, quick: 50_000, thorough: 1_000_000, workers: WORKERS * 2, min: 2500, level: "fault_enumeration",
            rule: "A case streams event packets of all sizes up to the largest single packet (16777214 bytes) from a mock server in random TCP segments with random delays, with error packets, unknown packets and undecodable events in between, and ends by end-of-stream, an error packet, or a cut (orderly close or reset) at any byte; in some streams the server stalls inside a packet for longer than the client waits, then both go on; every cut offset of sample streams is enumerated first. Checked: the exact sequence of items. Distinct by (stream bytes, segmentation seed, ending).",
            assumptions: &["packets of 16 MB and more (split packets) are a documented limitation and not sent", "after an error the client may report end or errors, but no event"] },
    ]
}

enum P { Event(Ev), Unknown(Vec<u8>), Error(u16, String, Vec<u8>) }
enum End { Eof, Cut { at: usize, rst: bool } }

fn gen_error(r: &mut Rng) -> P {
    let code = if r.bool() { 1236 } else { r.edge_in(1, 65535) as u16 };
    let n = match r.below(10) { 0 => r.edge_in(80, 1000) as usize, 1 => 0, _ => 1 + r.usize(80) };
    let msg: String = (0..n).map(|_| *r.pick(&['a', 'b', 'Z', ' ', '0', '9', ';', ':', '.', '-', 'é', 'ж'])).collect();
    let state = match r.below(3) { 0 => None, 1 => Some("HY000"), _ => Some("42S02") };
    let (code, state, msg) = if r.bool() { let e = r.pick(&server::ERRORS); (e.0, if r.pct(90) { Some(e.1) } else { None }, e.2.to_string()) } else { (code, state, msg) };
    let b = server::err_body(code, state, &msg);
    P::Error(code, msg, b)
}

fn sized(r: &mut Rng, packet: usize, crc: bool) -> Ev {
    let over = 1 + enc::HEADER + if crc { 4 } else { 0 };
    let body = packet.saturating_sub(over);
    let e = query("");
    if r.bool() && body > e.body.len() {
        let n = body - e.body.len();
        // cheap long text
        let c = (b'a' + r.below(26) as u8) as char;
        let mut t: String = std::iter::repeat(c).take(n).collect();
        if n > 8 { let k = r.usize(n - 4); t.replace_range(k..k + 3, "xyz"); }
        return query(&t);
    }
    unknown(gen_unknown_type(r), if body > 100_000 { vec![r.u8(); body] } else { r.bytes(body) })
}

/// More than 4 GiB in one stream.
fn over_4g(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let crc = r.bool();
    let mut cfg = server::cfg(r.bool());
    cfg.checksum = if crc { "CRC32" } else { "NONE" }.into();
    let mut big = sized(r, 0xfffff0, crc);
    while !matches!(big.exp, Exp::Unknown) { big = sized(r, 0xfffff0, crc); }
    let bytes = net::event_packet(&big, crc);
    let n = (1usize << 32) / bytes.len() + 3;
    let small: Vec<Ev> = (0..n).map(|i| xid(i as u64)).collect();
    ctx.count("streams of more than 4 GiB", 1);
    ctx.count("packets", 2 * n as u64);
    ctx.max("stream bytes", (n * bytes.len()) as u64);
    ctx.sig(r.u64());
    let (_, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| {}, |c, _, _| {
        let mut seq = 1u8;
        let mut p = server::packet(seq, &bytes);
        for e in &small {
            p[3] = seq;
            c.send_raw(&p)?;
            seq = seq.wrapping_add(1);
            c.send_raw(&server::packet(seq, &net::event_packet(e, crc)))?;
            seq = seq.wrapping_add(1);
        }
        c.send(seq, &server::eof_body())
    }), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, BinlogOptions::from_start()));
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate failed: {:?}", e))?;
        for (i, e) in small.iter().enumerate() {
            for (k, e) in [&big, e].into_iter().enumerate() {
                let Some(g) = net::next(&mut st)? else { return Err(format!("the stream ended at packet {} although the server did not say so", 2 * i + k)) };
                check(e, crc, &g).map_err(|m| format!("packet {} of {}, after {} bytes: {}", 2 * i + k, 2 * n, i * bytes.len(), m))?;
            }
        }
        ensure!(net::next(&mut st)?.is_none(), "no end of stream");
        Ok(())
    });
    res
}

/// The server stalls inside a packet for longer than the client waits, then goes on, and so does the consumer: what is
/// yielded after the error must still be what the server sent, not the middle of an event taken for packets.
fn stalled(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let crc = r.bool();
    let mut cfg = server::cfg(r.bool());
    cfg.checksum = if crc { "CRC32" } else { "NONE" }.into();
    let n = 3 + r.usize(6);
    let at = r.usize(n);
    let mut evs: Vec<Ev> = (0..n).map(|_| gen_plain(r)).collect();
    let mut cut = 1 + r.usize(6);
    if r.pct(70) {
        // the rest of the packet looks like packets of its own
        let mut b = { let n = r.usize(60); r.bytes(n) };
        cut = 4 + 1 + enc::HEADER + b.len();
        for i in 0..1 + r.usize(3) { b.extend(server::packet(i as u8, &net::event_packet(&if r.bool() { xid(77) } else { rotate(4, "elsewhere.000001") }, crc))); }
        evs[at] = unknown(gen_unknown_type(r), b);
    }
    let bodies: Vec<Vec<u8>> = evs.iter().map(|e| net::event_packet(e, crc)).collect();
    if r.pct(25) { cut = r.usize(4 + bodies[at].len()); }
    let interval = std::time::Duration::from_millis(1 + r.below(800));
    let stall = interval + std::time::Duration::from_millis(10_700 + r.below(600));
    let what = format!("{} events, stall of {:?} after byte {} of packet {} ({} bytes)", n, stall, cut, at, 4 + bodies[at].len());
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    ctx.count("stalls inside a packet", 1);
    let (_, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| {}, |c, _, _| {
        for (i, b) in bodies.iter().enumerate() {
            let p = server::packet(1 + i as u8, b);
            if i == at { c.send_raw(&p[..cut])?; std::thread::sleep(stall); c.send_raw(&p[cut..])?; } else { c.send_raw(&p)?; }
        }
        c.send(1 + n as u8, &server::eof_body())
    }), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(mysql_cdc::replica_options::ReplicaOptions { heartbeat_interval: interval, ..net::options(&cfg, h, p, BinlogOptions::from_start()) });
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("{}: replicate failed: {:?}", what, e))?;
        let mut k = 0;
        let mut failed = 0;
        loop {
            match net::next(&mut st)? {
                // a plain end, or none because the connection was given up
                None => { ensure!(k == n || failed > 0, "{}: the stream ended after {} events", what, k); break; }
                Some(Err(e)) => {
                    ensure!(k >= at, "{}: packet {}: {:?}", what, k, e);
                    failed += 1;
                    if failed > 4 { break; }
                }
                Some(Ok(g)) => {
                    if k >= n { return Err(format!("{}: an event of type {} that was not sent, after all others", what, g.0.event_type)); }
                    let g = Ok(g);
                    // the interrupted event itself may be given up
                    if let Err(m) = check(&evs[k], crc, &g) {
                        if failed > 0 && k == at && k + 1 < n && check(&evs[k + 1], crc, &g).is_ok() { k += 2; continue; }
                        return Err(format!("{}: packet {}, after {} errors: {}", what, k, failed, m));
                    }
                    k += 1;
                }
            }
        }
        if failed > 0 { ctx.count("timeouts inside a packet that the consumer ignored", 1); }
        if k == n { ctx.count("streams resumed after a stall", 1); }
        Ok(())
    });
    res
}

fn c13(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let enumerated = 2400;
    if idx < enumerated {
        // every cut offset of fixed streams
        let mut s = Rng::new(3, 13, idx / 400);
        let crc = s.bool();
        let mut ps: Vec<P> = vec![];
        for _ in 0..4 { let e = match s.below(4) { 0 => heartbeat("bin.000001"), 1 => xid(5), 2 => rotate(4, "bin.000002"), _ => query("BEGIN") }; ps.push(P::Event(e)); }
        let total: usize = ps.iter().map(|p| 4 + body(p, crc).len()).sum();
        let at = (idx % 400) as usize;
        if at <= total {
            ctx.count("cut points enumerated", 1);
            return run(ctx, r, ps, crc, End::Cut { at, rst: r.clone().pct(30) });
        }
    }
    let crc = r.bool();
    let mut ps: Vec<P> = vec![];
    if idx % 4_000 == 2700 { return stalled(ctx, r); }
    if idx % 60_000 == 7001 { return over_4g(ctx, r); }
    if idx % 12_000 == 5003 {
        // more than 65536 packets
        let kinds: Vec<Ev> = (0..8).map(|_| loop { let e = gen_plain(r); if e.body.len() < 400 { break e; } }).collect();
        let bad = gen_error(r);
        let n = r.range(66_000, 140_000) as usize;
        while ps.len() < n { if let (true, P::Error(c, m, b)) = (r.pct(1), &bad) { ps.push(P::Error(*c, m.clone(), b.clone())); } else { ps.push(P::Event(r.pick(&kinds).clone())); } }
        ctx.count("streams of more than 65536 packets", 1);
        return run(ctx, r, ps, crc, End::Eof);
    }
    let huge = idx % 1500 == 1499;
    let n = match r.below(12) { 0 => 0, 1 => 400, _ => 1 + r.usize(20) };
    while ps.len() < n {
        match r.below(14) {
            0 => ps.push(gen_error(r)),
            1 => { let k = r.len(40); let mut b = r.bytes(k + 1); b[0] = r.range(1, 0xfd) as u8; if r.pct(20) { b.clear(); } ps.push(P::Unknown(b)); }
            2 => { let mut e = match r.below(3) { 0 => Ev::new(16, r.bytes(6), Exp::Err), 1 => Ev::new(2, r.bytes(4), Exp::Err), _ => Ev::new(19, r.bytes(4), Exp::Err) }; e.exp = Exp::Err; ps.push(P::Event(e)); }
            3 => { let id = r.below(9); for e in gen_group(r, id, true) { ps.push(P::Event(e)); } }
            4 if n < 30 => { let s = match r.below(5) { 0 => 65535 + r.usize(5), 1 => 32768 + r.usize(40), 2 => r.edge_in(30, 300_000) as usize, 3 => r.edge_in(30, 20_000) as usize, _ => 250 + r.usize(10) }; ps.push(P::Event(sized(r, s, crc))); }
            5 => ps.push(P::Event(heartbeat("mysql-bin.000009"))),
            _ => ps.push(P::Event(gen_plain(r))),
        }
    }
    if huge { let s = 0xfffffe - *r.pick(&[0usize, 0, 1, 1000]); let e = sized(r, s, crc); let at = r.usize(ps.len() + 1); ps.insert(at, P::Event(e)); ctx.count("packets of 16 MB", 1); }
    // the header says nothing about whether an event is delivered
    if r.pct(30) { for x in ps.iter_mut() { if let P::Event(e) = x { if r.pct(40) { e.flags |= *r.pick(&[0x80u16, 0x80, 0x20, 0x1, 0x4, 0x8, 0x40, 0x100, 0x200, 0xffff]); } if r.pct(40) && !matches!(e.exp, Exp::MaGtid { .. }) { e.sid = *r.pick(&[65535u32, 65535, 0, 1, u32::MAX]); } if r.pct(40) { e.ts = if r.bool() { odd_time(r) } else { *r.pick(&[0u32, 1, u32::MAX]) }; } } } }
    let mut p = 4u32;
    for x in ps.iter_mut() { if let P::Event(e) = x { p = p.wrapping_add(e.size(crc) as u32); if r.pct(80) { e.next = p; } } }
    let total: usize = ps.iter().map(|p| 4 + body(p, crc).len()).sum();
    let end = match r.below(6) {
        0 | 1 => End::Cut { at: r.usize(total + 1), rst: r.pct(30) },
        2 => { let mut o = vec![0usize]; for p in &ps { o.push(o.last().unwrap() + 4 + body(p, crc).len()); } let b = *r.pick(&o); End::Cut { at: (b + r.usize(7)).saturating_sub(3).min(total), rst: r.pct(30) } }
        _ => End::Eof,
    };
    run(ctx, r, ps, crc, end)
}

fn body(p: &P, crc: bool) -> Vec<u8> {
    match p { P::Event(e) => net::event_packet(e, crc), P::Unknown(b) => b.clone(), P::Error(_, _, b) => b.clone() }
}

fn run(ctx: &mut Ctx, r: &mut Rng, ps: Vec<P>, crc: bool, end: End) -> CaseResult {
    let bodies: Vec<Vec<u8>> = ps.iter().map(|p| body(p, crc)).collect();
    let total: usize = bodies.iter().map(|b| b.len() + 4).sum();
    let mut cfg = server::cfg(r.bool());
    cfg.blocking = r.bool();
    cfg.checksum = if crc { "CRC32" } else { "NONE" }.into();
    let seed = r.u64();
    let segs = r.pct(70);
    let pause = if total < 200_000 { *r.pick(&[0u64, 0, 300, 2000]) } else { 0 };
    for b in bodies.iter().filter(|b| b.len() < 4000).take(50) { ctx.note(format!("packet {}", hex_short(b))); }
    let mut h = seed ^ total as u64;
    for b in &bodies { h = h.rotate_left(5) ^ crate::rng::hash_bytes(&b[..b.len().min(200)]); }
    ctx.sig(h);
    ctx.count("streams", 1);
    ctx.count("packets", ps.len() as u64);
    ctx.max("stream bytes", total as u64);
    if segs { ctx.count("streams in random segments", 1); }
    match &end { End::Eof => ctx.count("streams ended by the server", 1), End::Cut { rst, .. } => ctx.count(if *rst { "streams reset" } else { "streams cut" }, 1) }
    ctx.sample(|| format!("{} packets, {} bytes, checksums {}, segmented {}, {}", ps.len(), total, crc, segs, match &end { End::Eof => "end of stream".to_string(), End::Cut { at, rst } => format!("cut after byte {} (reset {})", at, rst) }));
    // packets that are complete before the cut
    let mut whole = ps.len();
    let mut rst_any = false;
    if let End::Cut { at, rst } = &end {
        let mut p = 0;
        whole = 0;
        for b in &bodies { p += b.len() + 4; if p <= *at { whole += 1 } else { break } }
        rst_any = *rst;
        ctx.note(format!("cut after byte {} of {} (reset {}): {} whole packets", at, total, rst, whole));
    }
    let (_, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |_| {}, |c, _, _| {
        if segs { c.seg = Some(Rng::new(seed, 1, 1)); c.pause_us = pause; }
        if let End::Cut { at, rst } = &end {
            c.cut = Some(c.tx + at); c.rst = *rst;
            if *at == 0 { c.close(); return Ok(()); }
        }
        // packets are not separate writes: a few at a time
        let mut g = Rng::new(seed, 1, 2);
        let mut seq = 1u8;
        let mut buf = vec![];
        for b in &bodies {
            buf.extend(server::packet(seq, b));
            seq = seq.wrapping_add(1);
            if g.pct(60) { c.send_raw(&buf)?; buf.clear(); }
        }
        if let End::Eof = end { buf.extend(server::packet(seq, &server::end_body(seed))); }
        if !buf.is_empty() { c.send_raw(&buf)?; }
        Ok(())
    }), |h, p| -> CaseResult {
        let mut cl = BinlogClient::new(net::options(&cfg, h, p, BinlogOptions::from_start()));
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate failed: {:?}", e))?;
        for i in 0..whole {
            let Some(g) = net::next(&mut st)? else { return Err(format!("the stream ended at packet {} of {} although the server did not say so", i, whole)) };
            if rst_any { if let Err(Error::IoError(_)) = &g { if !matches!(&ps[i], P::Event(Ev { exp: Exp::Err, .. })) { ctx.count("resets seen before the cut", 1); return after(&mut st); } } }
            match &ps[i] {
                P::Event(e) => check(e, crc, &g).map_err(|m| format!("packet {} of {}: {}", i, whole, m))?,
                P::Unknown(b) => ensure!(g.is_err(), "packet {} is {} but was yielded as an event", i, if b.is_empty() { "empty".to_string() } else { format!("of unknown status {}", b[0]) }),
                P::Error(code, msg, _) => {
                    let Err(e) = &g else { return Err(format!("packet {} is an error packet but was yielded as an event", i)) };
                    let t = match e { Error::String(s) => s.clone(), e => format!("{:?}", e) };
                    ensure!(t.contains(&code.to_string()) && t.contains(msg.as_str()), "packet {}: the error {:?} does not carry the server's code {} and message {:?}", i, t, code, msg);
                }
            }
        }
        let last = net::next(&mut st)?;
        match end {
            End::Eof => { ensure!(last.is_none(), "an item after the server's end of stream: {:?}", last.map(|x| x.map(|y| y.0))); Ok(()) }
            End::Cut { at, .. } => {
                match last {
                    None => return Err(format!("the connection was lost after byte {} of the stream but the stream ended as if complete", at)),
                    Some(Ok((h, _))) => return Err(format!("an event of type {} was yielded that the server did not send completely (cut after byte {})", h.event_type, at)),
                    Some(Err(_)) => {}
                }
                after(&mut st)
            }
        }
    });
    res
}

/// Nothing but errors or the end after the connection is gone.
fn after(st: &mut mysql_cdc::binlog_events::BinlogEvents) -> CaseResult {
    for _ in 0..3 {
        match net::next(st)? {
            Some(Ok((h, _))) => return Err(format!("an event of type {} was yielded after the connection was lost", h.event_type)),
            None => break,
            _ => {}
        }
    }
    Ok(())
}
