//! Model of columns, cells and row images, with their wire encodings.
use crate::enc::{self, W};
use crate::rng::Rng;
use mysql_cdc::events::row_events::mysql_value::MySqlValue;

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Tiny(u8), Short(u16), Medium(u32), Int(u32), Big(u64), Float(u32), Double(u64), Decimal(String),
    Str(String), Bit(Vec<bool>), Enum(u32), Set(u64), Blob(Vec<u8>),
    Year(u16), Date(u16, u8, u8), Time(i16, u8, u8, u32), DateTime(u16, u8, u8, u8, u8, u8, u32), Ts(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Tiny, Short, Medium, Int, Big, Float, Double, Dec(u8, u8),
    Char(u16), VarChar(u16), VarString(u16), Bit(u8), Enum(u8), Set(u8), Blob(u8, u8), Json(u8), Geometry(u8),
    Year, Date, TimeOld, TsOld, DtOld, Time2(u8), Ts2(u8), Dt2(u8),
}

#[derive(Clone, Debug)]
pub struct Col { pub kind: Kind, pub ty: u8, pub meta: Vec<u8>, pub meta16: u16 }

pub fn col(kind: Kind) -> Col {
    let (ty, meta): (u8, Vec<u8>) = match kind {
        Kind::Tiny => (1, vec![]),
        Kind::Short => (2, vec![]),
        Kind::Medium => (9, vec![]),
        Kind::Int => (3, vec![]),
        Kind::Big => (8, vec![]),
        Kind::Float => (4, vec![4]),
        Kind::Double => (5, vec![8]),
        Kind::Dec(p, s) => (246, vec![p, s]),
        Kind::Char(l) => (254, vec![0xfe ^ ((l & 0x300) >> 4) as u8, (l & 0xff) as u8]),
        Kind::VarChar(l) => (15, l.to_le_bytes().to_vec()),
        Kind::VarString(l) => (253, l.to_le_bytes().to_vec()),
        Kind::Bit(n) => (16, vec![n % 8, n / 8]),
        Kind::Enum(n) => (254, vec![247, n]),
        Kind::Set(n) => (254, vec![248, n]),
        Kind::Blob(ty, n) => (ty, vec![n]),
        Kind::Json(n) => (245, vec![n]),
        Kind::Geometry(n) => (255, vec![n]),
        Kind::Year => (13, vec![]),
        Kind::Date => (10, vec![]),
        Kind::TimeOld => (11, vec![]),
        Kind::TsOld => (7, vec![]),
        Kind::DtOld => (12, vec![]),
        Kind::Time2(f) => (19, vec![f]),
        Kind::Ts2(f) => (17, vec![f]),
        Kind::Dt2(f) => (18, vec![f]),
    };
    let meta16 = match (ty, meta.len()) {
        (_, 0) => 0,
        (_, 1) => meta[0] as u16,
        (254, _) => u16::from_be_bytes([meta[0], meta[1]]),
        _ => u16::from_le_bytes([meta[0], meta[1]]),
    };
    Col { kind, ty, meta, meta16 }
}

pub fn is_numeric(c: &Col) -> bool { matches!(c.ty, 1 | 2 | 9 | 3 | 8 | 4 | 5 | 246) }

pub fn gen_numeric(r: &mut Rng) -> Kind {
    match r.below(10) {
        0 => Kind::Tiny, 1 => Kind::Short, 2 => Kind::Medium, 3 => Kind::Int, 4 => Kind::Big, 5 => Kind::Float, 6 => Kind::Double,
        _ => { let p = r.range(1, 65) as u8; let s = r.range(0, p.min(38) as u64) as u8; Kind::Dec(p, s) }
    }
}
pub fn gen_temporal(r: &mut Rng) -> Kind {
    let f = r.below(7) as u8;
    match r.below(9) {
        0 => Kind::Year, 1 => Kind::Date, 2 => Kind::TimeOld, 3 => Kind::TsOld, 4 => Kind::DtOld,
        5 | 6 => Kind::Time2(f), 7 => Kind::Ts2(f), _ => Kind::Dt2(f),
    }
}
pub fn gen_stringy(r: &mut Rng) -> Kind {
    match r.below(12) {
        0 | 1 => Kind::Char(r.edge_in(0, 1023) as u16),
        2 | 3 => Kind::VarChar(r.edge_in(0, 65535) as u16),
        4 => Kind::VarString(r.edge_in(0, 65535) as u16),
        5 | 6 => Kind::Bit(r.range(1, 64) as u8),
        7 => Kind::Enum(r.range(1, 2) as u8),
        8 => Kind::Set(r.range(1, 8) as u8),
        9 => { let n = r.range(1, 4) as u8; Kind::Blob(*r.pick(&[252u8, 252, 252, 249, 250, 251]), n) }
        10 => Kind::Json(4),
        _ => Kind::Geometry(*r.pick(&[4u8, 4, 1, 2, 3])),
    }
}
pub fn gen_kind(r: &mut Rng) -> Kind {
    match r.below(3) { 0 => gen_numeric(r), 1 => gen_temporal(r), _ => gen_stringy(r) }
}
/// A kind whose values are small (for wide tables and many rows).
pub fn gen_small_kind(r: &mut Rng) -> Kind {
    match r.below(8) {
        0 => Kind::Tiny, 1 => Kind::Short, 2 => Kind::Int, 3 => Kind::Big, 4 => Kind::Enum(1), 5 => Kind::Year,
        6 => Kind::VarChar(r.range(1, 20) as u16), _ => Kind::Bit(r.range(1, 16) as u8),
    }
}

fn micros(r: &mut Rng, fsp: u8) -> u32 {
    let m = match r.below(8) { 0 => 0, 1 => 999_999, 2 => 1000 * r.below(1000), 3 => 999 + 1000 * r.below(1000), 4 => r.below(1000), _ => r.below(1_000_000) } as u32;
    let unit = 10u32.pow(6 - fsp as u32);
    m / unit * unit
}
fn digits(r: &mut Rng, n: usize) -> Vec<u8> {
    let style = r.below(7);
    (0..n).map(|i| match style {
        0 => 0,
        1 => 9,
        2 => if i == 0 { 1 } else { 0 },
        3 => if i + 1 == n { 1 } else { 0 },
        4 => if r.pct(75) { 0 } else { r.below(10) as u8 },
        _ => r.below(10) as u8,
    }).collect()
}

/// Expected text of a decimal.
pub fn decimal_text(neg: bool, int: &[u8], frac: &[u8]) -> String {
    let mut s = String::new();
    if neg { s.push('-'); }
    let i: String = int.iter().map(|d| (b'0' + d) as char).collect();
    let i = i.trim_start_matches('0');
    s.push_str(if i.is_empty() { "0" } else { i });
    if !frac.is_empty() { s.push('.'); for d in frac { s.push((b'0' + d) as char); } }
    s
}

pub fn dec_value(neg: bool, int: &[u8], frac: &[u8]) -> (Vec<u8>, Cell) {
    let neg = neg && int.iter().chain(frac).any(|d| *d != 0);
    (enc::decimal(neg, int, frac), Cell::Decimal(decimal_text(neg, int, frac)))
}

fn lenprefix(w: &mut W, max: u16, b: &[u8]) {
    if max < 256 { w.u8(b.len() as u8); } else { w.u16(b.len() as u16); }
    w.bytes(b);
}
fn strlen(r: &mut Rng, max: usize) -> usize {
    // the declared maximum itself and its neighbourhood are interesting; very long ones are rare
    let n = match r.below(8) { 0 => max, 1 => max.saturating_sub(1), _ => r.len(max) };
    if n > 2000 && !r.pct(12) { r.usize(300.min(max) + 1) } else { n }
}

/// Wire bytes of a storable value of the column, and the cell it must decode to.
pub fn gen_value(r: &mut Rng, c: &Col) -> (Vec<u8>, Cell) {
    let mut w = W::new();
    let cell = match c.kind {
        Kind::Tiny => { let v = r.edge(8) as u8; w.u8(v); Cell::Tiny(v) }
        Kind::Short => { let v = r.edge(16) as u16; w.u16(v); Cell::Short(v) }
        Kind::Medium => { let v = r.edge(24) as u32; w.u24(v); Cell::Medium(v) }
        Kind::Int => { let v = r.edge(32) as u32; w.u32(v); Cell::Int(v) }
        Kind::Big => { let v = r.edge(64); w.u64(v); Cell::Big(v) }
        Kind::Float => {
            let v = match r.below(4) { 0 => *r.pick(&[0u32, 0x80000000, 0x3f800000, 1, 0x7f7fffff, 0xff7fffff, 0x00800000]), 1 => (r.below(1000) as f32 / 8.0).to_bits(), _ => r.edge(32) as u32 };
            let v = if v & 0x7f800000 == 0x7f800000 { v & 0xbfffffff } else { v };
            w.u32(v); Cell::Float(v)
        }
        Kind::Double => {
            let v = match r.below(4) { 0 => *r.pick(&[0u64, 1 << 63, 1, 0x7fefffffffffffff, 0xffefffffffffffff, 0x0010000000000000]), 1 => (r.below(100000) as f64 / 64.0).to_bits(), _ => r.edge(64) };
            let v = if v & 0x7ff0000000000000 == 0x7ff0000000000000 { v & 0xbfffffffffffffff } else { v };
            w.u64(v); Cell::Double(v)
        }
        Kind::Dec(p, s) => {
            let int = digits(r, (p - s) as usize);
            let frac = digits(r, s as usize);
            let neg = r.bool();
            let (b, c) = dec_value(neg, &int, &frac);
            w.bytes(&b); c
        }
        Kind::Char(l) => { let n = strlen(r, l as usize); let s = r.text_nul(n); lenprefix(&mut w, l, s.as_bytes()); Cell::Str(s) }
        Kind::VarChar(l) | Kind::VarString(l) => { let n = strlen(r, l as usize); let s = r.text_nul(n); lenprefix(&mut w, l, s.as_bytes()); Cell::Str(s) }
        Kind::Bit(n) => {
            let v = r.edge(n as u32);
            w.be(v, (n as usize + 7) / 8);
            Cell::Bit((0..n).rev().map(|i| v >> i & 1 == 1).collect())
        }
        Kind::Enum(n) => { let v = r.edge(8 * n as u32); w.le(v, n as usize); Cell::Enum(v as u32) }
        Kind::Set(n) => { let v = r.edge(8 * n as u32); w.le(v, n as usize); Cell::Set(v) }
        Kind::Blob(_, n) | Kind::Json(n) | Kind::Geometry(n) => {
            let max = match n { 1 => 255usize, 2 => 65535, _ => 70000 };
            let len = strlen(r, max);
            let b = if r.bool() { r.bytes(len) } else { vec![r.u8(); len] };
            w.le(len as u64, n as usize).bytes(&b);
            Cell::Blob(b)
        }
        Kind::Year => { let b = r.edge(8) as u8; w.u8(b); Cell::Year(if b == 0 { 0 } else { 1900 + b as u16 }) }
        Kind::Date => { let (y, m, d) = ymd(r); w.u24(((y as u32) << 9) | ((m as u32) << 5) | d as u32); Cell::Date(y, m, d) }
        Kind::TimeOld => { let (h, m, s) = hms(r, 838); w.u24(h * 10000 + m * 100 + s); Cell::Time(h as i16, m as u8, s as u8, 0) }
        Kind::TsOld => { let v = r.edge(32) as u32; w.u32(v); Cell::Ts(v as u64 * 1000) }
        Kind::DtOld => {
            let (y, mo, d) = ymd(r);
            let (h, mi, s) = hms(r, 23);
            let v = ((y as u64 * 100 + mo as u64) * 100 + d as u64) * 1_000_000 + (h * 10000 + mi * 100 + s) as u64;
            w.u64(v);
            Cell::DateTime(y, mo, d, h as u8, mi as u8, s as u8, 0)
        }
        Kind::Time2(f) => {
            let (h, m, s) = hms(r, 838);
            let us = micros(r, f);
            w.bytes(&enc::time2(false, h, m, s, us, f));
            Cell::Time(h as i16, m as u8, s as u8, us / 1000)
        }
        Kind::Ts2(f) => {
            let v = r.edge(32) as u32;
            let us = micros(r, f);
            w.be(v as u64, 4);
            enc::frac_bytes(&mut w, f, us);
            Cell::Ts(v as u64 * 1000 + us as u64 / 1000)
        }
        Kind::Dt2(f) => {
            let (y, mo, d) = ymd(r);
            let (h, mi, s) = hms(r, 23);
            let us = micros(r, f);
            w.bytes(&enc::datetime2(y as u32, mo as u32, d as u32, h, mi, s, us, f));
            Cell::DateTime(y, mo, d, h as u8, mi as u8, s as u8, us / 1000)
        }
    };
    (w.0, cell)
}
fn ymd(r: &mut Rng) -> (u16, u8, u8) {
    let y = match r.below(6) { 0 => 0, 1 => 9999, 2 => r.range(1900, 2100), 3 => r.edge_in(0, 9999), _ => r.below(10000) } as u16;
    let m = match r.below(6) { 0 => 0, 1 => 12, _ => r.below(13) } as u8;
    let d = match r.below(6) { 0 => 0, 1 => 31, _ => r.below(32) } as u8;
    if r.pct(5) { return (0, 0, 0); }
    (y, m, d)
}
fn hms(r: &mut Rng, maxh: u64) -> (u32, u32, u32) {
    let h = match r.below(6) { 0 => 0, 1 => maxh, _ => r.range(0, maxh) } as u32;
    let m = match r.below(6) { 0 => 0, 1 => 59, _ => r.below(60) } as u32;
    let s = match r.below(6) { 0 => 0, 1 => 59, _ => r.below(60) } as u32;
    (h, m, s)
}

/// A storable value the library cannot represent: decoding the row must be an error.
pub fn gen_unrepresentable(r: &mut Rng, c: &Col) -> Option<Vec<u8>> {
    let mut w = W::new();
    match c.kind {
        Kind::TimeOld => {
            let (h, m, s) = hms(r, 838);
            let v = (h * 10000 + m * 100 + s).max(1) as i32;
            w.bytes(&(-v).to_le_bytes()[..3]);
        }
        Kind::Time2(f) => {
            let (h, m, s) = hms(r, 838);
            let us = micros(r, f);
            if h + m + s + us == 0 { return None; }
            w.bytes(&enc::time2(true, h, m, s, us, f));
        }
        Kind::Char(l) | Kind::VarChar(l) | Kind::VarString(l) if l > 0 => {
            let b = r.bad_utf8((l as usize).min(1500));
            lenprefix(&mut w, l, &b);
        }
        _ => return None,
    }
    Some(w.0)
}

pub fn cell_eq(got: &Option<MySqlValue>, want: &Option<Cell>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => match (g, w) {
            (MySqlValue::TinyInt(a), Cell::Tiny(b)) => a == b,
            (MySqlValue::SmallInt(a), Cell::Short(b)) => a == b,
            (MySqlValue::MediumInt(a), Cell::Medium(b)) => a == b,
            (MySqlValue::Int(a), Cell::Int(b)) => a == b,
            (MySqlValue::BigInt(a), Cell::Big(b)) => a == b,
            (MySqlValue::Float(a), Cell::Float(b)) => a.to_bits() == *b,
            (MySqlValue::Double(a), Cell::Double(b)) => a.to_bits() == *b,
            (MySqlValue::Decimal(a), Cell::Decimal(b)) => a == b,
            (MySqlValue::String(a), Cell::Str(b)) => a == b,
            (MySqlValue::Bit(a), Cell::Bit(b)) => a == b,
            (MySqlValue::Enum(a), Cell::Enum(b)) => a == b,
            (MySqlValue::Set(a), Cell::Set(b)) => a == b,
            (MySqlValue::Blob(a), Cell::Blob(b)) => a == b,
            (MySqlValue::Year(a), Cell::Year(b)) => a == b,
            (MySqlValue::Date(a), Cell::Date(y, m, d)) => (a.year, a.month, a.day) == (*y, *m, *d),
            (MySqlValue::Time(a), Cell::Time(h, m, s, ms)) => (a.hour, a.minute, a.second, a.millis) == (*h, *m, *s, *ms),
            (MySqlValue::DateTime(a), Cell::DateTime(y, mo, d, h, mi, s, ms)) => {
                (a.year, a.month, a.day, a.hour, a.minute, a.second, a.millis) == (*y, *mo, *d, *h, *mi, *s, *ms)
            }
            (MySqlValue::Timestamp(a), Cell::Ts(b)) => a == b,
            _ => false,
        },
        _ => false,
    }
}

pub fn short(s: String) -> String {
    if s.len() > 200 { let mut n = 200; while !s.is_char_boundary(n) { n -= 1; } format!("{}…", &s[..n]) } else { s }
}

/// Optional metadata of a table definition.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Meta {
    pub signedness: Option<Vec<bool>>,
    pub default_charset: Option<(u32, Vec<(u32, u32)>)>,
    pub column_charsets: Option<Vec<u32>>,
    pub column_names: Option<Vec<String>>,
    pub set_values: Option<Vec<Vec<String>>>,
    pub enum_values: Option<Vec<Vec<String>>>,
    pub geometry_types: Option<Vec<u32>>,
    pub simple_pk: Option<Vec<u32>>,
    pub prefix_pk: Option<Vec<(u32, u32)>>,
    pub es_default_charset: Option<(u32, Vec<(u32, u32)>)>,
    pub es_column_charsets: Option<Vec<u32>>,
    pub visibility: Option<Vec<bool>>,
}

#[derive(Clone, Debug)]
pub struct Table { pub id: u64, pub flags: u16, pub db: String, pub name: String, pub cols: Vec<Col>, pub nullable: Vec<bool>, pub meta: Option<(Meta, Vec<u8>)> }

impl Table {
    pub fn body(&self) -> Vec<u8> {
        let mut w = W::new();
        w.u48(self.id).u16(self.flags);
        w.u8(self.db.len() as u8).str0(&self.db);
        w.u8(self.name.len() as u8).str0(&self.name);
        w.lenenc(self.cols.len() as u64);
        for c in &self.cols { w.u8(c.ty); }
        let m: Vec<u8> = self.cols.iter().flat_map(|c| c.meta.clone()).collect();
        w.lenstr(&m);
        w.bitmap_lsb(&self.nullable);
        if let Some((_, b)) = &self.meta { w.bytes(b); }
        w.0
    }
}

pub fn gen_table(r: &mut Rng, id: u64, cols: Vec<Col>) -> Table {
    let db = r.text_len_small(64);
    let name = r.text_len_small(64);
    let nullable = (0..cols.len()).map(|_| r.bool()).collect();
    Table { id, flags: r.below(2) as u16, db, name, cols, nullable, meta: None }
}

pub type Row = Vec<Option<Cell>>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Write, Update, Delete }

#[derive(Clone, Debug)]
pub struct Rows {
    pub op: Op, pub ver: u8, pub table_id: u64, pub flags: u16, pub ncols: usize,
    pub present: Vec<bool>, pub present2: Vec<bool>,
    pub rows: Vec<Row>, pub rows2: Vec<Row>,
}
impl Rows {
    pub fn ty(&self) -> u8 {
        match (self.op, self.ver) {
            (Op::Write, 1) => 23, (Op::Update, 1) => 24, (Op::Delete, 1) => 25,
            (Op::Write, _) => 30, (Op::Update, _) => 31, (Op::Delete, _) => 32,
        }
    }
}

/// One row image: the wire bytes and the expected cells.
pub fn gen_image(r: &mut Rng, cols: &[Col], present: &[bool], null_pct: u64, w: &mut W) -> Row {
    let mut row = Vec::with_capacity(cols.len());
    let mut nulls = vec![];
    let mut data = W::new();
    for (c, p) in cols.iter().zip(present) {
        if !*p { row.push(None); continue; }
        let null = r.pct(null_pct);
        nulls.push(null);
        if null { row.push(None); continue; }
        let (b, cell) = gen_value(r, c);
        data.bytes(&b);
        row.push(Some(cell));
    }
    w.bitmap_lsb(&nulls).bytes(&data.0);
    row
}

pub struct RowOpts { pub op: Op, pub ver: u8, pub nrows: usize, pub full: bool, pub null_pct: u64, pub extra: usize }

pub fn gen_opts(r: &mut Rng) -> RowOpts {
    RowOpts {
        op: *r.pick(&[Op::Write, Op::Update, Op::Delete]),
        ver: r.range(1, 2) as u8,
        nrows: r.len(6),
        full: r.bool(),
        null_pct: *r.pick(&[0, 20, 50, 100]),
        extra: if r.pct(30) { r.len(60) } else { 0 },
    }
}

fn presence(r: &mut Rng, n: usize, full: bool) -> Vec<bool> {
    if full || n == 0 { return vec![true; n]; }
    let p = *r.pick(&[10u64, 50, 90]);
    let mut v: Vec<bool> = (0..n).map(|_| r.pct(p)).collect();
    if !v.iter().any(|x| *x) { let i = r.usize(n); v[i] = true; }
    v
}

pub fn rows_head(w: &mut W, ver: u8, id: u64, flags: u16, extra: &[u8], ncols: usize) {
    w.u48(id).u16(flags);
    if ver == 2 { w.u16(extra.len() as u16 + 2).bytes(extra); }
    w.lenenc(ncols as u64);
}

pub fn gen_rows(r: &mut Rng, t: &Table, o: &RowOpts) -> (Vec<u8>, Rows) {
    let n = t.cols.len();
    let present = presence(r, n, o.full);
    let present2 = if o.op == Op::Update { presence(r, n, o.full) } else { vec![] };
    let flags = r.edge(16) as u16;
    let mut w = W::new();
    let extra = r.bytes(o.extra);
    rows_head(&mut w, o.ver, t.id, flags, &extra, n);
    w.bitmap_lsb(&present);
    if o.op == Op::Update { w.bitmap_lsb(&present2); }
    let (mut rows, mut rows2) = (vec![], vec![]);
    for _ in 0..o.nrows {
        rows.push(gen_image(r, &t.cols, &present, o.null_pct, &mut w));
        if o.op == Op::Update { rows2.push(gen_image(r, &t.cols, &present2, o.null_pct, &mut w)); }
    }
    (w.0, Rows { op: o.op, ver: o.ver, table_id: t.id, flags, ncols: n, present, present2, rows, rows2 })
}
