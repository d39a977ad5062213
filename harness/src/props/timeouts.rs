//! C24: silent and slow servers.
use crate::ensure;
use crate::events::*;
use crate::mon::{CaseResult, Ctx};
use crate::net;
use crate::rng::Rng;
use crate::server::{self, Cfg, Cmd, Conn, Session};
use crate::Prop;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::replica_options::ReplicaOptions;
use std::io::Read;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C24", case: c24, quick: 2_160, thorough: 12_000, workers: 60, min: 200, level: "fault_enumeration",
            rule: "Five kinds of case. Silence: the mock server falls silent at a given point (greeting, each reply of the set-up, inside a packet header or body, inside a result set, before and between events, in a later session of the same client) and measures when the client gives up. Slow server: events or heartbeats arrive at up to 95% of the configured interval (intervals up to 13 s), or up to 4 s of latency after that, and every one must be yielded. Choked request: the server stops reading inside a request of 13 to 16 MB. Slow consumer: the consumer is away for longer than interval and allowance while the server goes on. Interval: the heartbeat period requested is compared with the configured one to the nanosecond. A silence verdict needs three violations in a row of the same point. Distinct by (point, interval).",
            assumptions: &["latency allowance judged: the client must give up between 5 s and 16 s after the interval", "a slow-server case counts only if the measured gaps stayed below the interval plus 4.9 s"] },
    ]
}

#[derive(Clone, Copy, Debug)]
enum Point { Greeting, Packet(usize), Inside(usize, usize), Stream(usize, usize) }

/// Waits until the client closes; the time it took, or None after `limit`.
fn until_closed(c: &mut Conn, from: Instant, limit: Duration) -> Option<Duration> {
    let mut b = [0u8; 256];
    loop {
        let left = limit.checked_sub(from.elapsed())?;
        if left.is_zero() { return None; }
        let _ = c.s.set_read_timeout(Some(left));
        match c.s.read(&mut b) {
            Ok(0) => return Some(from.elapsed()),
            Ok(_) => {}
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return None,
            Err(_) => return Some(from.elapsed()),
        }
    }
}

/// The second is sometimes large.
fn events(big: usize) -> Vec<Ev> { vec![fde("8.0.32", 42, Some(1)), if big > 0 { unknown(39, vec![7; big]) } else { heartbeat("mysql-bin.000007") }, query("BEGIN"), xid(4), heartbeat("mysql-bin.000007"), query("CREATE TABLE t (a INT)")] }

/// Serves until the point of silence, then waits. Ok(None): the client waited beyond the limit.
fn silent(c: &mut Conn, cfg: &Cfg, p: Point, big: usize, limit: Duration) -> (Option<Duration>, Session) {
    let mut s = Session::default();
    let t0 = Instant::now();
    match p {
        Point::Greeting => return (until_closed(c, t0, limit), s),
        Point::Packet(n) | Point::Inside(n, _) => {
            let cut = match p { Point::Inside(_, k) => k, _ => 0 };
            let flag = std::sync::Arc::new(std::sync::Mutex::new(None::<Instant>));
            let f = flag.clone();
            // the packet (or all but its first bytes) is not sent; the session loop then blocks in recv
            c.mutate = Some((n, Box::new(move |q, b| { *f.lock().unwrap() = Some(Instant::now()); let mut x = server::packet(q, b); x.truncate(cut.min(x.len().saturating_sub(1))); x })));
            c.silence = Some(limit);
            let r = server::session(c, cfg, &mut s);
            let at = *flag.lock().unwrap();
            match (r, at) {
                (_, Some(t)) => (until_closed(c, t, limit), s),
                // the session does not have that many packets: silent before the stream
                (Ok(Some(_)), None) => (until_closed(c, Instant::now(), limit), s),
                (_, None) => (Some(Duration::from_secs(0)), s),
            }
        }
        Point::Stream(n, k) => {
            let r = server::session(c, cfg, &mut s);
            if !matches!(r, Ok(Some(_))) { return (Some(Duration::from_secs(0)), s); }
            let ev = events(big);
            let mut seq = 1u8;
            for e in ev.iter().take(n) { let _ = c.send(seq, &net::event_packet(e, true)); seq += 1; }
            if k > 0 { if let Some(e) = ev.get(n) { let mut b = server::packet(seq, &net::event_packet(e, true)); b.truncate(k.min(b.len() - 1)); let _ = c.send_raw(&b); } }
            (until_closed(c, Instant::now(), limit), s)
        }
    }
}

fn silence_case(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let p = match idx % 12 {
        0 => Point::Greeting,
        1 | 2 | 3 => Point::Packet(1 + r.usize(12)),
        4 => Point::Inside(0, 1 + r.usize(60)),
        5 | 6 => Point::Inside(1 + r.usize(12), 1 + r.usize(8)),
        7 => Point::Stream(0, 0),
        8 => Point::Stream(1 + r.usize(6), 0),
        9 => Point::Stream(r.usize(6), 1 + r.usize(30)),
        10 => Point::Stream(2, 0),
        _ => Point::Stream(0, 3),
    };
    let interval = Duration::from_millis(match if idx % 5 == 4 { 9 } else { r.below(4) } { 9 => 11_500 + r.below(1500), 0 => 1 + r.below(50), 1 => 50 + r.below(400), 2 => 500 + r.below(2000), _ => 2000 + r.below(2500) });
    let maria = r.bool();
    let later = r.pct(35);
    let from_end = r.pct(40);
    let blocking = r.bool();
    let limit = interval + Duration::from_secs(16);
    let big = if r.pct(35) { *r.pick(&[70_000usize, 300_000, 2_000_000, 12_000_000]) } else { 0 };
    let what = format!("silence at {:?} (event of {} bytes, session {}), interval {:?}, maria {}, from end {}, blocking {}", p, big, 1 + later as u8, interval, maria, from_end, blocking);
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    ctx.sample(|| what.clone());
    let mut last = String::new();
    for _ in 0..3 {
        let cfg = Cfg { blocking: r.bool(), ..server::cfg(maria) };
        let (took, res) = server::with_server(ctx.worker, |l| {
            if later { net::serve_one(l, &cfg, |_| {}, |c, _, _| { let mut q = 1u8; for e in events(big) { c.send(q, &net::event_packet(&e, true))?; q += 1; } c.send(q, &server::eof_body()) }); }
            let mut c = l.accept()?;
            Some(silent(&mut c, &cfg, p, big, limit))
        }, |h, port| -> Result<(bool, String), String> {
            let b = if from_end { BinlogOptions::from_end() } else { BinlogOptions::from_start() };
            let mut cl = BinlogClient::new(ReplicaOptions { heartbeat_interval: interval, blocking, ..net::options(&cfg, h, port, b) });
            if later {
                let mut st = net::replicate(&mut cl)?.map_err(|e| format!("first session: {:?}", e))?;
                while let Some(x) = net::next(&mut st)? { let (h, e) = x.map_err(|e| format!("first session: {:?}", e))?; crate::mon::lib(|| cl.commit(&h, &e))?; }
            }
            match net::replicate(&mut cl)? {
                Err(e) => Ok((true, format!("{:?}", e))),
                Ok(mut st) => {
                    for _ in 0..events(0).len() + 2 {
                        match net::next(&mut st)? { Some(Err(e)) => return Ok((true, format!("{:?}", e))), None => return Ok((false, "the stream ended".into())), Some(Ok(_)) => {} }
                    }
                    Ok((false, "more events than were sent".into()))
                }
            }
        });
        let res = res.map_err(|m| format!("{}: {}", what, m))?;
        let Some((took, _)) = took else { return Err(format!("{}: the client never connected: {:?}", what, res)) };
        ctx.count("silences", 1);
        match took {
            None => { last = format!("the client was still waiting {:?} after the last byte", limit); continue; }
            Some(t) => {
                ensure!(res.0, "{}: no error was reported: {}", what, res.1);
                ensure!(t + Duration::from_millis(20) >= interval + Duration::from_secs(5), "{}: the client gave up after {:?}: no allowance for latency ({})", what, t, res.1);
                ctx.max("milliseconds until a silent server was given up, beyond the interval", t.saturating_sub(interval).as_millis() as u64);
                return Ok(());
            }
        }
    }
    Err(format!("{}: {} (three times)", what, last))
}

fn slow_case(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    // long intervals show a limit that does not depend on the interval
    let interval = match idx % 3 { 0 => Duration::from_millis(11_500 + r.below(1500)), 1 => Duration::from_millis(300 + r.below(3000)), _ => Duration::from_millis(10 + r.below(300)) };
    // network latency on top of the interval: the allowance judged is 5 s
    let late = Duration::from_millis(if r.pct(60) { 1000 + r.below(3000) } else { 0 });
    let beats = if interval > Duration::from_secs(5) || !late.is_zero() { 1 } else { 2 + r.usize(4) };
    let later = r.bool();
    let what = format!("slow server, interval {:?}, latency {:?}, {} gaps, session {}", interval, late, beats, 1 + later as u8);
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    let gaps: Vec<Duration> = (0..beats).map(|_| late + interval.mul_f64(if interval > Duration::from_secs(5) { 0.95 } else { 0.3 + r.below(60) as f64 / 100.0 })).collect();
    let cfg = Cfg { blocking: r.bool(), ..server::cfg(r.bool()) };
    let (worst, res) = server::with_server(ctx.worker, |l| {
        if later { net::serve_one(l, &cfg, |_| {}, |c, _, _| c.send(1, &server::eof_body())); }
        let mut worst = Duration::ZERO;
        net::serve_one(l, &cfg, |_| {}, |c, _, _| {
            let mut q = 1u8;
            let mut t = Instant::now();
            c.send(q, &net::event_packet(&fde("8.0.32", 42, Some(1)), true))?;
            for (i, g) in gaps.iter().enumerate() {
                std::thread::sleep(*g);
                q += 1;
                let e = if i % 2 == 0 { heartbeat("mysql-bin.000007") } else { xid(i as u64) };
                c.send(q, &net::event_packet(&e, true))?;
                worst = worst.max(t.elapsed());
                t = Instant::now();
            }
            c.send(q + 1, &server::eof_body())
        });
        worst
    }, |h, port| -> Result<(usize, Option<String>), String> {
        let mut cl = BinlogClient::new(ReplicaOptions { heartbeat_interval: interval, ..net::options(&cfg, h, port, BinlogOptions::from_start()) });
        if later { let mut st = net::replicate(&mut cl)?.map_err(|e| format!("first session: {:?}", e))?; let _ = net::next(&mut st)?; }
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate: {:?}", e))?;
        let mut n = 0;
        loop { match net::next(&mut st)? { None => return Ok((n, None)), Some(Err(e)) => return Ok((n, Some(format!("{:?}", e)))), Some(Ok(_)) => n += 1 } }
    });
    let (n, e) = res.map_err(|m| format!("{}: {}", what, m))?;
    if worst >= interval + Duration::from_millis(4900) && e.is_some() { ctx.count("slow-server cases without verdict", 1); return Ok(()); }
    ensure!(e.is_none(), "{}: a live server was given up after {} events: {}", what, n, e.unwrap());
    ensure!(n == beats + 1, "{}: {} events of {}", what, n, beats + 1);
    ctx.count("slow servers", 1);
    ctx.max("longest gap survived in milliseconds", worst.as_millis() as u64);
    Ok(())
}

/// The consumer is away for longer than the limit while the server goes on sending: nothing is lost and nothing times out.
fn away_case(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let interval = Duration::from_millis(200 + r.below(1500));
    let away = interval + Duration::from_millis(10_300 + r.below(2500));
    let beat = interval.mul_f64(0.5);
    let what = format!("consumer away for {:?}, interval {:?}", away, interval);
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    let cfg = Cfg { blocking: r.bool(), ..server::cfg(r.bool()) };
    let done = std::sync::atomic::AtomicBool::new(false);
    let (sent, res) = server::with_server(ctx.worker, |l| {
        let mut sent = 0;
        net::serve_one(l, &cfg, |_| {}, |c, _, _| {
            let mut q = 1u8;
            c.send(q, &net::event_packet(&fde("8.0.32", 42, Some(1)), true))?;
            sent += 1;
            while !done.load(std::sync::atomic::Ordering::SeqCst) {
                q = q.wrapping_add(1);
                c.send(q, &net::event_packet(&xid(sent as u64), true))?;
                sent += 1;
                std::thread::sleep(beat);
            }
            c.send(q.wrapping_add(1), &server::eof_body())
        });
        sent
    }, |h, port| -> Result<(usize, Option<String>), String> {
        let mut cl = BinlogClient::new(ReplicaOptions { heartbeat_interval: interval, ..net::options(&cfg, h, port, BinlogOptions::from_start()) });
        let mut st = net::replicate(&mut cl)?.map_err(|e| format!("replicate: {:?}", e))?;
        let mut n = 0;
        let r = loop {
            match net::next(&mut st)? { None => break (n, None), Some(Err(e)) => break (n, Some(format!("{:?}", e))), Some(Ok(_)) => n += 1 }
            if n == 2 { std::thread::sleep(away); }
            if n == 6 { done.store(true, std::sync::atomic::Ordering::SeqCst); }
        };
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        Ok(r)
    });
    let (n, e) = res.map_err(|m| format!("{}: {}", what, m))?;
    ensure!(e.is_none(), "{}: a live server was given up after {} of {} events: {}", what, n, sent, e.unwrap());
    ensure!(n == sent, "{}: {} events of {}", what, n, sent);
    ctx.count("slow consumers", 1);
    Ok(())
}

/// The server stops reading in the middle of a long request: the client must not wait forever for it to go on.
fn choked_case(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let interval = Duration::from_millis(1 + r.below(2500));
    let limit = interval + Duration::from_secs(16);
    let maria = r.bool();
    let kind = r.below(2);
    let size = r.range(13_000_000, 16_000_000) as usize;
    let resume = r.pct(30);
    let what = format!("the server stops reading in a request of {} bytes ({}, maria {}), interval {:?}, goes on later {}", size, if kind == 0 { "file name" } else { "GTIDs" }, maria, interval, resume);
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    let cfg = Cfg { blocking: r.bool(), ..server::cfg(maria) };
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let at = std::sync::Arc::new(std::sync::Mutex::new(None::<Instant>));
    // a server that goes on after half the allowance was only slow
    let pause = if resume { interval.mul_f64(0.5) + Duration::from_secs(2) } else { limit };
    let (s, res) = server::with_server(ctx.worker, |l| net::serve_one(l, &cfg, |c| {
        let (d, a) = (done.clone(), at.clone());
        c.small_window();
        c.choke = Some(Box::new(move || { let t = Instant::now(); *a.lock().unwrap() = Some(t); while t.elapsed() < pause && !d.load(std::sync::atomic::Ordering::SeqCst) { std::thread::sleep(Duration::from_millis(20)); } }));
    }, |c, _, _| c.send(1, &server::eof_body())), |h, port| -> Result<(Option<String>, Option<Duration>), String> {
        let b = if kind == 0 { BinlogOptions::from_position("b".repeat(size), 4) } else if maria {
            let l = mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList { gtids: (0..size as u32 / 24).map(|i| mysql_cdc::providers::mariadb::gtid::gtid::Gtid::new(1_000_000_000 + i, 1, 1_000_000_000)).collect() };
            BinlogOptions::from_mariadb_gtid(l)
        } else {
            use mysql_cdc::providers::mysql::gtid::{gtid_set::GtidSet, interval::Interval, uuid::Uuid, uuid_set::UuidSet};
            let u = Uuid::new([7; 16]);
            let mut s = GtidSet::new();
            let x = UuidSet { source_id: u.clone(), intervals: (0..size as u64 / 16).map(|i| Interval::new(1 + 2 * i, 1 + 2 * i)).collect() };
            s.uuid_sets.insert(u.uuid.clone(), x);
            BinlogOptions::from_mysql_gtid(s)
        };
        let mut cl = BinlogClient::new(ReplicaOptions { heartbeat_interval: interval, ..net::options(&cfg, h, port, b) });
        let x = net::replicate(&mut cl)?;
        let took = at.lock().unwrap().map(|t| t.elapsed());
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        Ok((x.err().map(|e| format!("{:?}", e)), took))
    });
    let (e, took) = res.map_err(|m| format!("{}: {}", what, m))?;
    let Some(took) = took else { return Err(format!("{}: the request was not sent: {:?} {:?}", what, e, s.ended)) };
    ctx.count("requests choked", 1);
    if resume {
        ensure!(e.is_none() || took < pause.mul_f64(0.5) && took > interval + Duration::from_secs(5), "{}: a slow server was given up after {:?}: {:?}", what, took, e);
        return Ok(());
    }
    ensure!(took < limit, "{}: the client was still waiting after {:?}", what, limit);
    ensure!(e.is_some(), "{}: no error was reported", what);
    ctx.max("milliseconds until a server that doesn't read was given up, beyond the interval", took.saturating_sub(interval).as_millis() as u64);
    Ok(())
}

fn exact_case(ctx: &mut Ctx, r: &mut Rng) -> CaseResult {
    let interval = match r.below(7) {
        6 => *r.pick(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_millis(1), Duration::from_secs(1), Duration::from_secs(4_294_967)]),
        0 => Duration::from_nanos(1 + r.edge(40)),
        1 => Duration::from_millis(1 + r.edge(32)),
        2 => Duration::from_secs(1 + r.below(4_294_967)),
        3 => Duration::new(r.below(4_294_966), r.below(1_000_000_000) as u32),
        4 => Duration::from_micros(1 + r.edge(40)),
        _ => Duration::from_millis(500 + r.below(60_000)),
    };
    let cfg = Cfg { blocking: r.bool(), ..server::cfg(r.bool()) };
    let rounds = 1 + r.usize(2);
    let what = format!("interval {:?}", interval);
    ctx.note(what.clone());
    ctx.sig(crate::rng::hash_str(&what));
    let (ss, res) = server::with_server(ctx.worker, |l| (0..rounds).map(|_| net::serve_one(l, &cfg, |_| {}, |c, d, _| { let _: &Cmd = d; c.send(1, &server::eof_body()) })).collect::<Vec<_>>(), |h, port| -> Result<(), String> {
        let mut cl = BinlogClient::new(ReplicaOptions { heartbeat_interval: interval, ..net::options(&cfg, h, port, BinlogOptions::from_start()) });
        for _ in 0..rounds { net::replicate(&mut cl)?.map_err(|e| format!("replicate: {:?}", e))?; }
        Ok(())
    });
    res.map_err(|m| format!("{}: {}", what, m))?;
    for s in ss {
        let hb = s.vars.get("master_heartbeat_period").or(s.vars.get("source_heartbeat_period")).ok_or(format!("{}: no heartbeat was requested", what))?;
        ensure!(hb.trim_matches('\'').parse::<u128>().ok() == Some(interval.as_nanos()), "{}: {} ns were requested instead of {}", what, hb, interval.as_nanos());
        ctx.count("heartbeat periods checked", 1);
    }
    Ok(())
}

fn c24(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    // the waiting cases come first, so that the others fill the rest
    let waiting = if ctx.thorough { 1800 } else { 120 };
    if idx < waiting { if idx % 20 == 7 { away_case(ctx, r) } else if idx % 20 == 11 { choked_case(ctx, r) } else if idx % 4 == 3 { slow_case(ctx, r, idx / 4) } else { silence_case(ctx, r, idx / 4 * 3 + idx % 4) } } else { exact_case(ctx, r) }
}
