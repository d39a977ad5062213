//! C04 C05 C06 C07 C09 C10: decoding of cells, rows, table definitions and the other events.
use crate::enc::{self, W};
use crate::ensure;
use crate::events::{self, *};
use crate::model::{self, *};
use crate::mon::{CaseResult, Ctx};
use crate::rng::Rng;
use crate::{gtid, Prop, WORKERS};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", case: c04, quick: 800_000, thorough: 16_000_000, workers: WORKERS, min: 2500, level: "exploration",
            rule: "A case writes a log with one table (numeric columns, often between sentinel columns) and row events, and compares every decoded cell with the value stored; the first cases enumerate every DECIMAL precision and scale, every TINYINT and SMALLINT. Non-trivial: at least one non-NULL numeric cell was decoded and compared; distinct by the row event's bytes.",
            assumptions: &["wire encodings follow the MySQL documentation (independent encoder in enc.rs)", "values a server cannot store (NaN, -0 DECIMAL) are not generated"] },
        Prop { id: "C05", case: c05, quick: 800_000, thorough: 16_000_000, workers: WORKERS, min: 3000, level: "exploration",
            rule: "As C04 with temporal columns of every type and fraction width; the first cases enumerate all YEAR bytes and all month/day pairs; rows with a negative TIME must be reported as errors while the rows of the next event still decode. Distinct by the row event's bytes.",
            assumptions: &["temporal encodings follow my_time.cc packing", "pre-5.6 fractional MariaDB formats are not generated"] },
        Prop { id: "C06", case: c06, quick: 400_000, thorough: 8_000_000, workers: WORKERS, min: 3000, level: "exploration",
            rule: "As C04 with CHAR, VARCHAR, BLOB, JSON, GEOMETRY, BIT, ENUM and SET columns; the first cases enumerate every CHAR length 0..1023, every VARCHAR length 0..600 with full-length values, every BIT width; rows with invalid UTF-8 text must be errors. Distinct by the row event's bytes.",
            assumptions: &[] },
        Prop { id: "C07", case: c07, quick: 400_000, thorough: 8_000_000, workers: WORKERS, min: 3000, level: "exploration",
            rule: "A case writes a table of 1 to 4096 columns and several row events (write, update, delete, versions 1 and 2) with random presence bitmaps, NULLs, numbers of rows and extra header data, and compares table id, flags, bitmaps and every row in order. Distinct by the row event's bytes.",
            assumptions: &["row images in which no column is present are not generated (their rows have no bytes)"] },
        Prop { id: "C09", case: c09, quick: 1_000_000, thorough: 20_000_000, workers: WORKERS, min: 3000, level: "exploration",
            rule: "A case writes table definitions with random columns and random subsets, orders and contents of the twelve optional metadata fields, and compares all of them, present or absent. Distinct by the table event's bytes.",
            assumptions: &["metadata field codes above 12 (newer servers) are not generated"] },
        Prop { id: "C10", case: c10, quick: 1_500_000, thorough: 30_000_000, workers: WORKERS, min: 3000, level: "exploration",
            rule: "A case writes a log of non-row events with boundary-biased field values in every header and body, mixed with event types that are not decoded (all 256 codes are enumerated), and compares every field. Distinct by the bytes of the log.",
            assumptions: &[] },
    ]
}

/// A format description as real servers write it, and whether checksums follow.
pub fn lead(r: &mut Rng) -> (Ev, bool, bool) {
    let alg = *r.pick(&[None, Some(0u8), Some(1), Some(1)]);
    let n = match r.below(5) { 0 => 27, 1 => 35, 2 => 42, 3 => 163, _ => r.range(27, 198) } as usize;
    let v = *r.pick(&["8.0.32", "5.5.5-10.6.12-MariaDB-log", "5.7.40-log", "5.5.62"]);
    (fde(v, n, alg), alg.is_some(), alg == Some(1))
}
/// The file with a format description in front, and the expected events.
pub fn with_lead(r: &mut Rng, mut evs: Vec<Ev>, headers: bool) -> (Vec<Ev>, bool, bool) {
    let (f, c0, c) = lead(r);
    evs.insert(0, f);
    if headers {
        let v: Vec<Ev> = evs.into_iter().map(|e| e.with_header(r)).collect();
        (v, c0, c)
    } else {
        lay_out(&mut evs, 4, c);
        (evs, c0, c)
    }
}
pub fn run_file(ctx: &mut Ctx, r: &mut Rng, evs: Vec<Ev>, headers: bool) -> CaseResult {
    let (evs, c0, c) = with_lead(r, evs, headers);
    let crc = move |i: usize| if i == 0 { c0 } else { c };
    let b = file_bytes(&evs, &crc);
    ctx.set_input(&b);
    ctx.count("events compared", evs.len() as u64);
    ctx.count("bytes read", b.len() as u64);
    if b.len() < 1 << 20 && r.pct(6) { cut_copy(ctx, r, &evs, &crc); }
    expect_file(&evs, &crc, &b)
}

/// Another reader of this thread meets the same events cut short. What it yields doesn't matter here.
fn cut_copy(ctx: &mut Ctx, r: &mut Rng, evs: &[Ev], crc: &dyn Fn(usize) -> bool) {
    let mut v = MAGIC.to_vec();
    for (i, e) in evs.iter().enumerate() {
        let mut x = e.bytes(crc(i));
        let keep = i == 0 || matches!(e.exp, Exp::Table(_)) && !r.pct(10) || r.pct(20);
        if !keep && x.len() > 20 {
            let n = if r.bool() { x.len() - r.range(1, (x.len() as u64 - 19).min(12)) as usize } else { 19 + r.usize(x.len() - 19) };
            x.truncate(n);
            x[9..13].copy_from_slice(&(n as u32).to_le_bytes());
        }
        v.extend(x);
    }
    let _ = read_all(&v, evs.len() + 10);
    ctx.count("cases after damaged events", 1);
}

fn row_opts(r: &mut Rng, nrows: usize, null_pct: u64) -> RowOpts {
    RowOpts { op: *r.pick(&[Op::Write, Op::Update, Op::Delete]), ver: r.range(1, 2) as u8, nrows, full: true, null_pct, extra: 0 }
}
fn count_rows(ctx: &mut Ctx, x: &Rows) {
    let n: usize = x.rows.iter().chain(&x.rows2).map(|r| r.iter().filter(|c| c.is_some()).count()).sum();
    ctx.count("cells compared", n as u64);
    ctx.count("rows compared", x.rows.len() as u64);
}

fn sentinel_cols(r: &mut Rng, k: Kind) -> Vec<Col> {
    let s = [Kind::Int, Kind::Tiny, Kind::VarChar(9), Kind::Big];
    let (a, b) = (*r.pick(&s), *r.pick(&s));
    vec![model::col(a), model::col(k), model::col(b)]
}

/// Builds an event of explicit rows (each value given).
fn explicit(t: &Table, op: Op, ver: u8, rows: &[Vec<(Vec<u8>, Cell)>]) -> Ev {
    let n = t.cols.len();
    let mut w = W::new();
    rows_head(&mut w, ver, t.id, 1, &[], n);
    w.bitmap_lsb(&vec![true; n]);
    if op == Op::Update { w.bitmap_lsb(&vec![true; n]); }
    let mut out: (Vec<Row>, Vec<Row>) = (vec![], vec![]);
    for (i, row) in rows.iter().enumerate() {
        w.bitmap_lsb(&vec![false; n]);
        for (b, _) in row { w.bytes(b); }
        let cells: Row = row.iter().map(|(_, c)| Some(c.clone())).collect();
        if op == Op::Update && i % 2 == 1 { out.1.push(cells); } else { out.0.push(cells); }
    }
    let x = Rows { op, ver, table_id: t.id, flags: 1, ncols: n, present: vec![true; n], present2: if op == Op::Update { vec![true; n] } else { vec![] }, rows: out.0, rows2: out.1 };
    events::rows(w.0, x)
}

fn random_cells(ctx: &mut Ctx, r: &mut Rng, kind: fn(&mut Rng) -> Kind) -> CaseResult {
    let n = 1 + r.len(8);
    let cols: Vec<Col> = (0..n).map(|_| { let k = if r.pct(80) { kind(r) } else { gen_kind(r) }; model::col(k) }).collect();
    let t = gen_table(r, r.clone().edge(48), cols);
    let mut evs = vec![table(&t)];
    for _ in 0..1 + r.usize(3) {
        let nr = 1 + r.len(10);
        let o = row_opts(r, nr, *r.clone().pick(&[0, 0, 10, 40]));
        let (b, x) = gen_rows(r, &t, &o);
        ctx.sig_bytes(&b);
        count_rows(ctx, &x);
        ctx.sample(|| format!("columns {:?}, first row {:?}", t.cols.iter().map(|c| c.kind).collect::<Vec<_>>(), x.rows.first()));
        evs.push(events::rows(b, x));
    }
    run_file(ctx, r, evs, false)
}

/// A row that cannot be represented is an error in its place; the next event is intact.
fn unrepresentable(ctx: &mut Ctx, r: &mut Rng, kind: fn(&mut Rng) -> Kind) -> CaseResult {
    let (k, bad) = loop { let k = kind(r); if let Some(b) = gen_unrepresentable(r, &model::col(k)) { break (k, b); } };
    let cols = sentinel_cols(r, k);
    let t = gen_table(r, 77, cols);
    let op = *r.pick(&[Op::Write, Op::Update, Op::Delete]);
    let ver = r.range(1, 2) as u8;
    let good: Vec<Vec<(Vec<u8>, Cell)>> = (0..2 + r.usize(3) * 2).map(|_| t.cols.iter().map(|c| gen_value(r, c)).collect()).collect();
    let mut rows = good.clone();
    let i = r.usize(rows.len());
    rows[i][1].0 = bad;
    let mut e = explicit(&t, op, ver, &rows);
    e.exp = Exp::Err;
    ctx.sig_bytes(&e.body);
    ctx.count("unrepresentable values", 1);
    ctx.sample(|| format!("unrepresentable {:?} value {}", k, crate::mon::hex_short(&rows[i][1].0)));
    let evs = vec![table(&t), e, explicit(&t, op, ver, &good)];
    run_file(ctx, r, evs, false)
}

fn c04(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    // every precision and scale
    const GRID: u64 = 65 * 39;
    if idx < GRID {
        let (p, s) = ((idx / 39 + 1) as u8, (idx % 39) as u8);
        if s > p { return Ok(()); }
        let cols = sentinel_cols(r, Kind::Dec(p, s));
        let t = gen_table(r, idx, cols);
        let (ni, nf) = ((p - s) as usize, s as usize);
        let mut pats: Vec<(bool, Vec<u8>, Vec<u8>)> = vec![];
        for neg in [false, true] {
            pats.push((neg, vec![0; ni], vec![0; nf]));
            pats.push((neg, vec![9; ni], vec![9; nf]));
            let mut a = vec![0; ni]; if let Some(x) = a.last_mut() { *x = 1; }
            pats.push((neg, a, vec![0; nf]));
            let mut a = vec![0; nf]; if let Some(x) = a.last_mut() { *x = 7; }
            pats.push((neg, vec![0; ni], a));
            let mut a = vec![0; ni]; if let Some(x) = a.first_mut() { *x = 3; }
            pats.push((neg, a, vec![0; nf]));
            // exactly one digit set, at a random place
            for _ in 0..2 {
                let mut d = vec![0u8; ni + nf];
                let i = r.usize(d.len());
                d[i] = 1 + r.below(9) as u8;
                pats.push((neg, d[..ni].to_vec(), d[ni..].to_vec()));
            }
            for _ in 0..3 { let d: Vec<u8> = (0..ni + nf).map(|_| r.below(10) as u8).collect(); pats.push((neg, d[..ni].to_vec(), d[ni..].to_vec())); }
        }
        let mut rows: Vec<Vec<(Vec<u8>, Cell)>> = vec![];
        for (neg, i, f) in pats {
            let v = dec_value(neg, &i, &f);
            rows.push(vec![gen_value(r, &t.cols[0]), v, gen_value(r, &t.cols[2])]);
        }
        let e = explicit(&t, Op::Write, 2, &rows);
        ctx.sig_bytes(&e.body);
        ctx.count("decimal (precision, scale) pairs", 1);
        ctx.count("cells compared", rows.len() as u64 * 3);
        return run_file(ctx, r, vec![table(&t), e], false);
    }
    if idx < GRID + 2 {
        // every TINYINT and SMALLINT value
        let k = if idx == GRID { Kind::Tiny } else { Kind::Short };
        let t = gen_table(r, idx, vec![model::col(k)]);
        let rows: Vec<Vec<(Vec<u8>, Cell)>> = match k {
            Kind::Tiny => (0..=255u8).map(|v| vec![(vec![v], Cell::Tiny(v))]).collect(),
            _ => (0..=65535u16).map(|v| vec![(v.to_le_bytes().to_vec(), Cell::Short(v))]).collect(),
        };
        ctx.count("cells compared", rows.len() as u64);
        let e = explicit(&t, Op::Write, 1, &rows);
        ctx.sig_bytes(&e.body);
        return run_file(ctx, r, vec![table(&t), e], false);
    }
    random_cells(ctx, r, gen_numeric)
}

fn c05(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx == 0 {
        let t = gen_table(r, 5, vec![model::col(Kind::Year), model::col(Kind::Tiny)]);
        let rows: Vec<_> = (0..=255u8).map(|b| vec![(vec![b], Cell::Year(if b == 0 { 0 } else { 1900 + b as u16 })), (vec![b], Cell::Tiny(b))]).collect();
        let e = explicit(&t, Op::Write, 2, &rows);
        ctx.sig_bytes(&e.body);
        ctx.count("cells compared", 512);
        return run_file(ctx, r, vec![table(&t), e], false);
    }
    if idx < 8 {
        // every month and day, old and new formats, one fraction width each
        let f = (idx - 1) as u8;
        let t = gen_table(r, 6, vec![model::col(Kind::Date), model::col(Kind::Dt2(f)), model::col(Kind::DtOld)]);
        let mut rows = vec![];
        for m in 0..=12u32 {
            for d in 0..=31u32 {
                let y = *r.pick(&[0u32, 1, 999, 1970, 2000, 2024, 2038, 9999, 2047, 4096]);
                let (h, mi, s) = (r.below(24) as u32, r.below(60) as u32, r.below(60) as u32);
                let us = (r.below(1_000_000) as u32) / 10u32.pow(6 - f as u32) * 10u32.pow(6 - f as u32);
                let mut w = W::new();
                w.u24((y << 9) | (m << 5) | d);
                let old = ((y as u64 * 100 + m as u64) * 100 + d as u64) * 1_000_000 + (h * 10000 + mi * 100 + s) as u64;
                rows.push(vec![
                    (w.0, Cell::Date(y as u16, m as u8, d as u8)),
                    (enc::datetime2(y, m, d, h, mi, s, us, f), Cell::DateTime(y as u16, m as u8, d as u8, h as u8, mi as u8, s as u8, us / 1000)),
                    (old.to_le_bytes().to_vec(), Cell::DateTime(y as u16, m as u8, d as u8, h as u8, mi as u8, s as u8, 0)),
                ]);
            }
        }
        let e = explicit(&t, Op::Write, 2, &rows);
        ctx.sig_bytes(&e.body);
        ctx.count("cells compared", rows.len() as u64 * 3);
        return run_file(ctx, r, vec![table(&t), e], false);
    }
    if idx < 15 {
        // every hour of a TIME, every fraction width
        let f = (idx - 8) as u8;
        let t = gen_table(r, 6, vec![model::col(Kind::Time2(f)), model::col(Kind::TimeOld)]);
        let mut rows = vec![];
        for h in 0..=838u32 {
            let (m, s) = (*r.pick(&[0u32, 59, 31, 7]), *r.pick(&[0u32, 59, 32, 9]));
            let us = (r.below(1_000_000) as u32) / 10u32.pow(6 - f as u32) * 10u32.pow(6 - f as u32);
            let mut w = W::new();
            w.u24(h * 10000 + m * 100 + s);
            rows.push(vec![
                (enc::time2(false, h, m, s, us, f), Cell::Time(h as i16, m as u8, s as u8, us / 1000)),
                (w.0, Cell::Time(h as i16, m as u8, s as u8, 0)),
            ]);
        }
        let e = explicit(&t, Op::Delete, 1, &rows);
        ctx.sig_bytes(&e.body);
        ctx.count("cells compared", rows.len() as u64 * 2);
        return run_file(ctx, r, vec![table(&t), e], false);
    }
    if r.pct(20) { return unrepresentable(ctx, r, |r| if r.bool() { Kind::TimeOld } else { Kind::Time2(r.below(7) as u8) }); }
    random_cells(ctx, r, gen_temporal)
}

fn c06(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let fixed: Option<Kind> = match idx {
        0..=1023 => Some(Kind::Char(idx as u16)),
        1024..=1624 => Some(Kind::VarChar((idx - 1024) as u16)),
        1625..=1688 => Some(Kind::Bit((idx - 1624) as u8)),
        1689..=1696 => Some(Kind::Set((idx - 1688) as u8)),
        1697..=1698 => Some(Kind::Enum((idx - 1696) as u8)),
        1699..=1714 => Some(Kind::Blob([252, 249, 250, 251][(idx - 1699) as usize / 4], ((idx - 1699) % 4 + 1) as u8)),
        _ => None,
    };
    if let Some(k) = fixed {
        let cols = sentinel_cols(r, k);
        let t = gen_table(r, idx, cols);
        let mut rows: Vec<Vec<(Vec<u8>, Cell)>> = (0..6).map(|_| t.cols.iter().map(|c| gen_value(r, c)).collect()).collect();
        if let Kind::Char(l) | Kind::VarChar(l) = k {
            for n in [l as usize, (l as usize).saturating_sub(1), 0, (l as usize).min(255), (l as usize).min(256)] {
                let s = r.text_len(n);
                let mut w = W::new();
                if l < 256 { w.u8(n as u8); } else { w.u16(n as u16); }
                w.bytes(s.as_bytes());
                let v = vec![gen_value(r, &t.cols[0]), (w.0, Cell::Str(s)), gen_value(r, &t.cols[2])];
                rows.push(v);
            }
        }
        if let Kind::Bit(n) = k {
            for i in 0..n {
                let v = 1u64 << i;
                let mut w = W::new();
                w.be(v, (n as usize + 7) / 8);
                let v = vec![gen_value(r, &t.cols[0]), (w.0, Cell::Bit((0..n).rev().map(|j| v >> j & 1 == 1).collect())), gen_value(r, &t.cols[2])];
                rows.push(v);
            }
        }
        if let Kind::Blob(_, n) = k {
            let max: usize = match n { 1 => 255, 2 => 65535, 3 => 70_000, _ => if ctx.thorough { (1 << 24) + 3 } else { 200_000 } };
            for len in [max, 255, 256, 65535, 65536] {
                if len > max { continue; }
                let b = r.bytes(len);
                let mut w = W::new();
                w.le(len as u64, n as usize).bytes(&b);
                let v = vec![gen_value(r, &t.cols[0]), (w.0, Cell::Blob(b)), gen_value(r, &t.cols[2])];
                rows.push(v);
            }
        }
        ctx.count("cells compared", rows.len() as u64 * 3);
        ctx.count("enumerated column declarations", 1);
        let e = explicit(&t, Op::Write, 2, &rows);
        ctx.sig_bytes(&e.body);
        return run_file(ctx, r, vec![table(&t), e], false);
    }
    if idx % 8000 == 3001 {
        // megabytes in one cell
        let n = 3 + (r.below(2) as u8);
        let cols = sentinel_cols(r, Kind::Blob(*r.clone().pick(&[252, 252, 250, 251]), n));
        let t = gen_table(r, 7, cols);
        let rows: Vec<Vec<(Vec<u8>, Cell)>> = (0..2).map(|_| {
            let len = r.edge_in(60_000, 6_000_000) as usize;
            let mut b = vec![r.u8(); len];
            for _ in 0..50 { let i = r.usize(len); b[i] = r.u8(); }
            let mut w = W::new();
            w.le(len as u64, n as usize).bytes(&b);
            vec![gen_value(r, &t.cols[0]), (w.0, Cell::Blob(b)), gen_value(r, &t.cols[2])]
        }).collect();
        let e = explicit(&t, *r.pick(&[Op::Write, Op::Update]), 2, &rows);
        ctx.count("cells compared", 6);
        ctx.count("events with cells of megabytes", 1);
        ctx.sig(e.body.len() as u64);
        return run_file(ctx, r, vec![table(&t), e], false);
    }
    if r.pct(15) {
        return unrepresentable(ctx, r, |r| { let l = r.edge_in(1, 1023) as u16; match r.below(3) { 0 => Kind::Char(l), 1 => Kind::VarChar(l), _ => Kind::VarString(l) } });
    }
    random_cells(ctx, r, gen_stringy)
}

fn c07(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx % 15_000 == 3001 {
        // very many rows in one event
        let k = *r.pick(&[Kind::Tiny, Kind::Short, Kind::Char(3)]);
        let t = gen_table(r, 9, vec![model::col(k)]);
        let o = RowOpts { nrows: r.range(66_000, 140_000) as usize, ..row_opts(r, 1, 10) };
        let (b, x) = gen_rows(r, &t, &o);
        ctx.sig_bytes(&b);
        count_rows(ctx, &x);
        ctx.count("events of more than 65536 rows", 1);
        return run_file(ctx, r, vec![table(&t), events::rows(b, x)], false);
    }
    let wide = idx % 50 == 7;
    let n = if wide { r.edge_in(200, 4096) as usize } else { match r.below(4) { 0 => 1 + r.usize(4), 1 => *r.pick(&[7usize, 8, 9, 15, 16, 17, 63, 64, 65]), 2 => 1 + r.usize(40), _ => 1 + r.len(300) } };
    let cols: Vec<Col> = (0..n).map(|_| { let k = if n > 40 || r.pct(70) { gen_small_kind(r) } else { gen_kind(r) }; model::col(k) }).collect();
    let id = r.edge(48);
    let t = gen_table(r, id, cols);
    let mut evs = vec![table(&t)];
    for _ in 0..1 + r.usize(4) {
        let mut o = gen_opts(r);
        if wide { o.nrows = o.nrows.min(3); }
        else if r.pct(4) { o.nrows = 100 + r.usize(200); }
        else if n < 12 && r.pct(20) { o.nrows = r.usize(40); }
        if r.pct(2) { o.extra = r.usize(65000); }
        let (b, x) = gen_rows(r, &t, &o);
        ctx.sig_bytes(&b);
        count_rows(ctx, &x);
        ctx.max("columns", n as u64);
        ctx.count(match (o.op, o.ver) { (Op::Write, 1) => "write v1", (Op::Write, _) => "write v2", (Op::Update, 1) => "update v1", (Op::Update, _) => "update v2", (Op::Delete, 1) => "delete v1", _ => "delete v2" }, 1);
        ctx.sample(|| format!("{:?} v{} with {} columns, present {:?}, {} rows", x.op, x.ver, n, x.present, x.rows.len()));
        evs.push(events::rows(b, x));
    }
    let h = r.bool();
    run_file(ctx, r, evs, h)
}

fn charset_default(r: &mut Rng, n: usize) -> (u32, Vec<(u32, u32)>) {
    let bits = if r.bool() { 16 } else { 32 };
    (r.edge(bits) as u32, (0..r.len(6)).map(|_| (if r.pct(80) { r.edge_in(0, n as u64 + 300) as u32 } else { r.edge(32) as u32 }, r.edge(bits) as u32)).collect())
}
fn charset_bytes(w: &mut W, d: &(u32, Vec<(u32, u32)>)) {
    w.lenenc(d.0 as u64);
    for (a, b) in &d.1 { w.lenenc(*a as u64).lenenc(*b as u64); }
}
fn ints(r: &mut Rng) -> Vec<u32> { let n = if r.pct(2) { r.edge_in(20, 4096) as usize } else { r.len(20) }; (0..n).map(|_| r.edge(32) as u32).collect() }
fn names(r: &mut Rng, max: usize) -> Vec<String> { (0..r.len(max)).map(|_| r.text(400)).collect() }

pub fn gen_meta(r: &mut Rng, cols: &[Col]) -> (Meta, Vec<u8>) {
    let mut m = Meta::default();
    let mut w = W::new();
    let mut order: Vec<u8> = (1..=12).collect();
    r.shuffle(&mut order);
    let p = *r.pick(&[10u64, 50, 90, 100]);
    let mut any = false;
    for (k, ty) in order.iter().enumerate() {
        if !(r.pct(p) || (k == 11 && !any)) { continue; }
        any = true;
        let mut f = W::new();
        match ty {
            1 => { let v: Vec<bool> = cols.iter().filter(|c| is_numeric(c)).map(|_| r.bool()).collect(); f.bitmap_msb(&v); m.signedness = Some(v); }
            2 => { let d = charset_default(r, cols.len()); charset_bytes(&mut f, &d); m.default_charset = Some(d); }
            3 => { let v = ints(r); for x in &v { f.lenenc(*x as u64); } m.column_charsets = Some(v); }
            4 => {
                let v: Vec<String> = if r.bool() { (0..cols.len()).map(|_| r.text_len_small(64)).collect() } else { names(r, 10) };
                for x in &v { f.lenstr(x.as_bytes()); }
                m.column_names = Some(v);
            }
            5 | 6 => {
                let many = if r.pct(4) { *r.pick(&[250usize, 251, 255, 256, 257, 300, 300, 300, 3000, if r.clone().pct(20) { 65_534 } else { 260 }]) } else { 0 };
                let v: Vec<Vec<String>> = (0..r.len(4)).map(|_| if many > 0 { (0..many + r.usize(2)).map(|_| r.text_len_small(20)).collect() } else { names(r, 8) }).collect();
                for x in &v { f.lenenc(x.len() as u64); for s in x { f.lenstr(s.as_bytes()); } }
                if *ty == 5 { m.set_values = Some(v) } else { m.enum_values = Some(v) }
            }
            7 => { let v = ints(r); for x in &v { f.lenenc(*x as u64); } m.geometry_types = Some(v); }
            8 => { let v = ints(r); for x in &v { f.lenenc(*x as u64); } m.simple_pk = Some(v); }
            9 => { let v: Vec<(u32, u32)> = ints(r).into_iter().map(|x| (x, { let b = if r.bool() { 16 } else { 32 }; r.edge(b) as u32 })).collect(); for (a, b) in &v { f.lenenc(*a as u64).lenenc(*b as u64); } m.prefix_pk = Some(v); }
            10 => { let d = charset_default(r, cols.len()); charset_bytes(&mut f, &d); m.es_default_charset = Some(d); }
            11 => { let v = ints(r); for x in &v { f.lenenc(*x as u64); } m.es_column_charsets = Some(v); }
            _ => { let v: Vec<bool> = cols.iter().map(|_| r.bool()).collect(); f.bitmap_msb(&v); m.visibility = Some(v); }
        }
        w.u8(*ty).lenstr(&f.0);
    }
    (m, w.0)
}

/// A metadata field of about `want` bytes: lengths of every encoded size.
fn big_field(ctx: &mut Ctx, r: &mut Rng, k: u64) -> CaseResult {
    let want = *r.pick(&[65_533usize, 65_535, 65_536, 70_000, 1 << 20, (1 << 24) - 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 17 << 20, 17 << 20]);
    let mut f = W::new();
    let mut m = Meta::default();
    let ty = [4u8, 5, 6, 6, 3, 8, 9][k as usize % 7];
    match ty {
        4 => {
            // few names, very long
            let a = r.usize(want.min(300_000));
            let v: Vec<String> = vec!["a".repeat(a), "é".repeat((want - a) / 2)];
            for x in &v { f.lenstr(x.as_bytes()); }
            m.column_names = Some(v);
        }
        5 | 6 => {
            let size = *r.pick(&[10usize, 250, 251, 300, 60_000, 65_535, 65_536]);
            let v: Vec<Vec<String>> = vec![(0..(want / (size + 1)).max(1)).map(|i| { let d = format!("{:08}", i); d + &"v".repeat(size - 8) }).collect(), vec!["last".into()]];
            for x in &v { f.lenenc(x.len() as u64); for s in x { f.lenstr(s.as_bytes()); } }
            if ty == 5 { m.set_values = Some(v) } else { m.enum_values = Some(v) }
        }
        9 => { let v: Vec<(u32, u32)> = (0..(want / 8) as u32).map(|i| (i, i.wrapping_mul(77))).collect(); for (a, b) in &v { f.lenenc(*a as u64).lenenc(*b as u64); } m.prefix_pk = Some(v); }
        _ => { let v: Vec<u32> = (0..(want / 4) as u32).map(|i| i.wrapping_mul(5)).collect(); for x in &v { f.lenenc(*x as u64); } if ty == 3 { m.column_charsets = Some(v) } else { m.simple_pk = Some(v) } }
    }
    let mut t = gen_table(r, 77, vec![model::col(Kind::Int), model::col(Kind::Int)]);
    let mut w = W::new();
    w.u8(ty).lenstr(&f.0);
    m.visibility = Some(vec![true, false]);
    w.u8(12).u8(1).u8(0x80);
    t.meta = Some((m, w.0));
    let e = table(&t);
    ctx.sig_bytes(&e.body);
    ctx.count("definitions with a huge metadata field", 1);
    ctx.max("bytes in one metadata field", f.0.len() as u64);
    run_file(ctx, r, vec![e], true).map_err(|m| format!("a metadata field of {} bytes: {}", f.0.len(), model::short(m)))
}

fn c09(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    if idx % 20_000 == 4001 { return big_field(ctx, r, idx / 20_000); }
    let mut evs = vec![];
    for _ in 0..1 + r.usize(3) {
        let n = match r.below(12) { 0 => *r.pick(&[7usize, 8, 9, 250, 251, 252, 255, 256]), 1 if idx % 20 == 3 => r.edge_in(257, 4096) as usize, 2 => r.len(300), _ => 1 + r.usize(20) };
        let cols: Vec<Col> = (0..n).map(|_| { let k = gen_kind(r); model::col(k) }).collect();
        let id = r.edge(48);
        let mut t = gen_table(r, id, cols);
        t.flags = r.edge(16) as u16;
        let (dl, nl) = (r.edge_in(0, 255) as usize, r.edge_in(0, 255) as usize);
        if r.pct(20) { t.db = r.text_len(dl); t.name = r.text_len(nl); }
        if r.pct(80) { t.meta = Some(gen_meta(r, &t.cols)); }
        let e = table(&t);
        ctx.sig_bytes(&e.body);
        ctx.count("columns compared", n as u64);
        if let Some((m, _)) = &t.meta {
            for (n, b) in [("signedness", m.signedness.is_some()), ("default charset", m.default_charset.is_some()), ("column charsets", m.column_charsets.is_some()), ("column names", m.column_names.is_some()), ("set values", m.set_values.is_some()), ("enum values", m.enum_values.is_some()), ("geometry types", m.geometry_types.is_some()), ("simple pk", m.simple_pk.is_some()), ("prefix pk", m.prefix_pk.is_some()), ("enum/set default charset", m.es_default_charset.is_some()), ("enum/set charsets", m.es_column_charsets.is_some()), ("visibility", m.visibility.is_some())] { if b { ctx.count(n, 1); } }
        }
        ctx.sample(|| format!("table {:?}.{:?} id {} columns {:?} metadata {:?}", t.db, t.name, t.id, t.cols.iter().map(|c| c.kind).collect::<Vec<_>>(), t.meta.as_ref().map(|m| &m.0)));
        evs.push(e);
    }
    let h = r.bool();
    run_file(ctx, r, evs, h)
}

fn c10(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> CaseResult {
    let mut evs = vec![];
    if idx < 256 {
        let ty = idx as u8;
        if !DECODED.contains(&ty) {
            for n in [0usize, 1, 4, 300] { evs.push(unknown(ty, r.bytes(n))); evs.push(gen_plain(r)); }
            ctx.count("event type codes enumerated", 1);
        }
    }
    if idx >= 256 && idx < 256 + 172 {
        // format descriptions of every size
        let n = (idx - 256 + 27) as usize;
        for alg in [None, Some(0), Some(1), None] {
            let body_crc = alg.is_some();
            let e = fde("8.0.32", n, alg);
            let e = e.with_header(r);
            let b = file_bytes(&[e.clone()], &|_| body_crc);
            ctx.set_input(&b);
            expect_file(&[e], &|_| body_crc, &b)?;
        }
        ctx.count("format description sizes", 1);
    }
    for _ in 0..1 + r.usize(10) { evs.push(gen_plain(r)); }
    if r.pct(10) {
        // server version strings of every length
        let n = r.usize(51);
        let v: String = (0..n).map(|_| (33 + r.below(90) as u8) as char).collect();
        let (n, version) = (r.range(27, 198) as usize, r.edge(16) as u16);
        let e = Ev::new(15, enc::fde_body(version, &v, r.edge(32) as u32, n, Some(0)), Exp::Fde { version, server: v, alg: 0 }).with_header(r);
        let b = file_bytes(&[e.clone()], &|_| true);
        ctx.set_input(&b);
        expect_file(&[e], &|_| true, &b)?;
    }
    if idx % 1500 == 7 {
        // texts of megabytes
        let n = r.range(65_536, 4 << 20) as usize;
        let t = crate::events::long_text(r, n);
        evs.push(match r.below(5) {
            0 => { let status = { let n = r.edge_in(0, 65535) as usize; r.bytes(n) }; query_full(1, 2, 0, &status, "db", &t) }
            1 => rows_query(&t),
            2 => annotate(&t),
            3 => uservar("v", Some((0, 33, t, 0))),
            _ => { let k = gen_unknown_type(r); unknown(k, t.into_bytes()) }
        });
        ctx.count("events with megabytes of text", 1);
    }
    for e in &evs { ctx.count(&format!("type {}", if DECODED.contains(&e.ty) { e.ty } else { 0 }), 1); }
    let h: Vec<u8> = evs.iter().flat_map(|e| e.body.clone()).collect();
    ctx.sig_bytes(&h);
    ctx.sample(|| short(format!("{:?}", evs.iter().map(|e| &e.exp).collect::<Vec<_>>())));
    ensure!(!evs.is_empty(), "harness: empty case");
    let _ = gtid::MSet::default();
    run_file(ctx, r, evs, true)
}
