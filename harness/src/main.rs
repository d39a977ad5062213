mod mon;
mod rng;
mod enc;
mod model;
mod events;
mod gtid;
mod server;
mod net;
mod props;

use mon::{clock_ns, Ctx, Slot};
use rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Ctx, &mut Rng, u64) -> mon::CaseResult,
    pub quick: u64,
    pub thorough: u64,
    pub workers: usize,
    /// Cases below which a run has observed too little to be called "held".
    pub min: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const WORKERS: usize = 8;
const CPU_LIMIT_NS: u64 = 30_000_000_000;
const WALL_LIMIT: Duration = Duration::from_secs(200);

struct Args { prop: String, thorough: bool, seed: u64, case: Option<u64>, scale: f64, root: String }

fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        case: None,
        scale: 1.0,
        root: std::env::var("VMON_ROOT").unwrap_or_else(|_| "/verif".into()),
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.thorough = it.next().map(|t| t == "thorough").unwrap_or(false),
            "--seed" => a.seed = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            "--case" => a.case = it.next().and_then(|s| s.parse().ok()),
            "--scale" => a.scale = it.next().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            _ => a.prop = x,
        }
    }
    a
}

fn main() {
    let a = args();
    if a.prop == "literals" {
        let (i, s) = rng::harvest("/repo/src");
        for v in i { println!("i {}", v); }
        for v in s { println!("s {}", v); }
        return;
    }
    let Some(p) = props::all().into_iter().find(|p| p.id == a.prop) else {
        eprintln!("unknown property {}", a.prop);
        std::process::exit(2);
    };
    if std::env::var("VMON_CHILD").is_ok() { child(&a, &p) } else { parent(&a, &p) }
}

/// The parent only turns an abnormal death of the child (abort, signal) into a verdict.
fn parent(a: &Args, p: &Prop) -> ! {
    let state = std::env::temp_dir().join(format!("vmon-{}-{}.state", p.id, std::process::id()));
    std::fs::write(&state, vec![0u8; 8 * 64]).expect("state file");
    let run = |case: Option<u64>| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(std::env::args().skip(1)).env("VMON_CHILD", &state);
        if let Some(i) = case { c.args(["--case", &i.to_string()]); }
        c.status().expect("spawn")
    };
    let st = run(a.case);
    let finish = |code: i32| -> ! { let _ = std::fs::remove_file(&state); std::process::exit(code) };
    if let Some(c) = st.code() { finish(c); }
    let sig = st.signal().unwrap_or(0);
    if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
        eprintln!("inconclusive: run ended by signal {}", sig);
        finish(2);
    }
    // An abort: find the case that causes it.
    let bytes = std::fs::read(&state).unwrap_or_default();
    let mut cases: Vec<u64> = bytes.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v > 0).map(|v| v - 1).collect();
    cases.sort();
    for i in cases {
        let st = run(Some(i));
        if let Some(s) = st.signal() {
            if s != libc::SIGKILL && s != libc::SIGTERM && s != libc::SIGINT {
                let path = write_replay(a, p, i, &format!("the process was ended by signal {} (abort, stack overflow or failed allocation)", s), &Ctx::new(0, a.thorough));
                evidence(a, p, &[], 0, 0.0, 1);
                println!("VIOLATION property={} replay={}", p.id, path);
                println!("  case {}: process ended by signal {} while running the code under test", i, s);
                finish(1);
            }
        } else if st.code() == Some(1) {
            finish(1);
        }
    }
    eprintln!("inconclusive: child died by signal {} but no single case reproduces it", sig);
    finish(2);
}

fn child(a: &Args, p: &Prop) -> ! {
    mon::install_hook();
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN); }
    let state = std::env::var("VMON_CHILD").unwrap();
    let map = unsafe {
        let f = std::ffi::CString::new(state).unwrap();
        let fd = libc::open(f.as_ptr(), libc::O_RDWR);
        let m = if fd >= 0 { libc::mmap(std::ptr::null_mut(), 512, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) } else { libc::MAP_FAILED };
        if m == libc::MAP_FAILED { Box::leak(Box::new([0u64; 64])).as_mut_ptr() } else { m as *mut u64 }
    };
    let n = match a.case { Some(_) => 1, None => ((if a.thorough { p.thorough } else { p.quick }) as f64 * a.scale).ceil() as u64 };
    let workers = if a.case.is_some() { 1 } else { p.workers.min(64) };
    let cap = Duration::from_secs(if a.thorough { 700 } else { 240 });
    let slots: Vec<Slot> = (0..workers).map(|i| Slot { case: unsafe { map.add(i) }, start_cpu: AtomicU64::new(0), start_wall: AtomicU64::new(0), clock: AtomicU64::new(u64::MAX) }).collect();
    for s in &slots { s.set(0); }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let found: Mutex<Option<(u64, String, Ctx)>> = Mutex::new(None);
    let harness_error: Mutex<Option<String>> = Mutex::new(None);
    let t0 = Instant::now();
    let stream = rng::hash_str(p.id);
    let listed = listed(a, p);
    let ctxs: Vec<Ctx> = std::thread::scope(|sc| {
        sc.spawn(|| watchdog(a, p, &slots, &done, t0));
        let hs: Vec<_> = (0..workers).map(|w| {
            let (slots, next, stop, found, harness_error, listed) = (&slots, &next, &stop, &found, &harness_error, &listed);
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                let mut ctx = Ctx::new(w, a.thorough);
                ctx.verbose = a.case.is_some();
                ctx.listed = listed.clone();
                let slot = &slots[w];
                unsafe {
                    let mut cid: libc::clockid_t = 0;
                    libc::pthread_getcpuclockid(libc::pthread_self(), &mut cid);
                    slot.clock.store(cid as i64 as u64, Ordering::SeqCst);
                }
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= n || stop.load(Ordering::SeqCst) || t0.elapsed() > cap { break; }
                    let idx = a.case.unwrap_or(k);
                    slot.start_cpu.store(mon::thread_cpu_ns(), Ordering::SeqCst);
                    slot.start_wall.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    slot.set(idx + 1);
                    ctx.begin();
                    mon::set_case(idx);
                    let mut r = Rng::new(a.seed, stream, idx);
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(&mut ctx, &mut r, idx)));
                    slot.set(0);
                    ctx.count("evaluations", 1);
                    match res {
                        Ok(Ok(())) => {}
                        Ok(Err(m)) => {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|x| idx < x.0).unwrap_or(true) {
                                let mut c = Ctx::new(w, a.thorough);
                                c.input = ctx.input.clone();
                                c.notes = ctx.notes.clone();
                                *f = Some((idx, m, c));
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                        Err(_) => {
                            *harness_error.lock().unwrap() = Some(format!("harness panic in case {}", idx));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    if ctx.verbose { for n in &ctx.notes { eprintln!("{}", n); } }
                }
                ctx
            }).unwrap()
        }).collect();
        let r = hs.into_iter().map(|h| h.join().expect("worker")).collect();
        done.store(true, Ordering::SeqCst);
        r
    });
    let wall = t0.elapsed().as_secs_f64();
    let evals: u64 = ctxs.iter().map(|c| c.counters.get("evaluations").copied().unwrap_or(0)).sum();
    let viol = found.into_inner().unwrap();
    let known: BTreeMap<String, String> = ctxs.iter().flat_map(|c| c.known.clone()).collect();
    for (k, v) in &known { println!("KNOWN-FINDING: property={} {}: {}", p.id, k, v); }
    if a.case.is_none() { evidence(a, p, &ctxs, evals, wall, viol.is_some() as u64); }
    if let Some((idx, msg, c)) = viol {
        let path = write_replay(a, p, idx, &msg, &c);
        println!("VIOLATION property={} replay={}", p.id, path);
        println!("  case {}: {}", idx, msg);
        std::process::exit(1);
    }
    if let Some(e) = harness_error.into_inner().unwrap() {
        eprintln!("ERROR property={}: {}", p.id, e);
        std::process::exit(2);
    }
    if a.case.is_none() && a.scale >= 1.0 && evals < p.min {
        eprintln!("inconclusive: only {} cases were run ({} needed)", evals, p.min);
        std::process::exit(2);
    }
    println!("held: property={} tier={} seed={} cases={} wall={:.1}s", p.id, if a.thorough { "thorough" } else { "quick" }, a.seed, evals, wall);
    std::process::exit(0);
}

/// Lines `known: property=<id> <finding id> <text>` of the known-findings file.
fn listed(a: &Args, p: &Prop) -> Vec<String> {
    let t = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.md", a.root)).unwrap_or_default();
    let head = format!("known: property={} ", p.id);
    t.lines().filter_map(|l| l.trim().trim_start_matches("- ").strip_prefix(&head).and_then(|x| x.split_whitespace().next()).map(String::from)).collect()
}

fn watchdog(a: &Args, p: &Prop, slots: &[Slot], done: &AtomicBool, t0: Instant) {
    while !done.load(Ordering::SeqCst) {
        std::thread::sleep(Duration::from_millis(100));
        for s in slots {
            let c = s.get();
            let clk = s.clock.load(Ordering::SeqCst);
            if c == 0 || clk == u64::MAX { continue; }
            let start = s.start_cpu.load(Ordering::SeqCst);
            let w = s.start_wall.load(Ordering::SeqCst);
            let cpu = clock_ns(clk as i64 as libc::clockid_t).saturating_sub(start);
            if s.get() != c || s.start_cpu.load(Ordering::SeqCst) != start { continue; }
            let blocked = t0.elapsed().saturating_sub(Duration::from_millis(w));
            let m = if cpu > CPU_LIMIT_NS {
                format!("no progress: the case used {} s of CPU time (cases normally take milliseconds): endless loop", cpu / 1_000_000_000)
            } else if blocked > WALL_LIMIT {
                format!("no progress: the case has been blocked for {} s (cases normally take milliseconds, every wait in them ends within seconds)", blocked.as_secs())
            } else { continue };
            let path = write_replay(a, p, c - 1, &m, &Ctx::new(0, a.thorough));
            if a.case.is_none() { evidence(a, p, &[], 0, t0.elapsed().as_secs_f64(), 1); }
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  case {}: {}", c - 1, m);
            unsafe { libc::fflush(std::ptr::null_mut()); }
            std::process::exit(1);
        }
    }
}

fn write_replay(a: &Args, p: &Prop, idx: u64, msg: &str, c: &Ctx) -> String {
    let dir = format!("{}/replays", a.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-seed{}-case{}.txt", dir, p.id, a.seed, idx);
    let mut t = format!("property {}\nseed {}\ntier {}\ncase {}\nreplay: cd /verif && ./check.sh {} --seed {} --tier {} --case {}\n\n{}\n",
        p.id, a.seed, if a.thorough { "thorough" } else { "quick" }, idx, p.id, a.seed, if a.thorough { "thorough" } else { "quick" }, idx, msg);
    for n in &c.notes { t.push_str(&format!("note: {}\n", n)); }
    if !c.input.is_empty() { t.push_str(&format!("input ({} bytes): {}\n", c.input.len(), mon::hex(&c.input))); }
    let _ = std::fs::write(&path, t);
    path
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(a: &Args, p: &Prop, ctxs: &[Ctx], evals: u64, wall: f64, violations: u64) {
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    for c in ctxs {
        for (k, v) in &c.counters {
            let e = counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") { *e = (*e).max(*v) } else { *e += *v }
        }
        sigs.extend(c.sigs.iter());
        for s in &c.samples { if samples.len() < 4 { samples.push(s.clone()); } }
    }
    counters.remove("evaluations");
    let obs: Vec<String> = counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let asm: Vec<String> = p.assumptions.iter().map(|s| jstr(s)).collect();
    let smp: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let t = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"observed\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(p.id), jstr(if a.thorough { "thorough" } else { "quick" }), a.seed, jstr(p.level), evals, sigs.len(), jstr(p.rule), smp.join(", "), obs.join(", "), asm.join(", "), wall, violations);
    let dir = format!("{}/evidence", a.root);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, p.id), t);
}
