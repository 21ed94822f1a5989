//! K01-K05: exchange message decoding.  A message is written from random field values with its documented layout
//! (all other bytes are random printable characters) and the decoders must give back exactly those values.
use time::Date;
use trading_engine::data::krx::derivative_quote::{IFMSRPD0034, IFMSRPD0035};
use trading_engine::data::krx::derivative_trade::{IFMSRPD0036, IFMSRPD0037, IFMSRPD0038};
use trading_engine::data::krx::stock_quote::{IFMSRPD0002, IFMSRPD0003};
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade::TradeData;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::enums::TradeType;
use trading_engine::types::timestamp::DateUnixNanoGenerator;
use trading_engine::types::venue::Venue;
use trading_engine::utils::numeric_converter::{NumReprCfg, OrderConverter};
use crate::guard::at_end;
use vf::*;

const NANO: u64 = 1_000_000_000;
pub const HOUR: u64 = 3600 * NANO;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Q34,
    Q35,
    S2,
    S3,
    T36,
    T37,
    T38,
}
use Kind::*;
impl Kind {
    fn len(self) -> usize {
        match self {
            Q34 => 324,
            Q35 => 554,
            S2 => 555,
            S3 => 795,
            T36 => 173,
            T37 => 431,
            T38 => 661,
        }
    }
    fn levels(self) -> usize {
        match self {
            Q34 | T37 => 5,
            T36 => 0,
            _ => 10,
        }
    }
    fn start(self) -> usize {
        match self {
            T37 | T38 => 172,
            _ => 47,
        }
    }
    fn is_trade(self) -> bool {
        matches!(self, T36 | T37 | T38)
    }
    fn stock(self) -> bool {
        matches!(self, S2 | S3)
    }
}
/// price format: characters of the whole field, decimals behind the point, leading unused characters, sign column
#[derive(Clone, Copy, Debug, PartialEq)]
struct Fmt {
    unused: usize,
    signed: bool,
    int: usize,
    dec: usize,
    norm: i32,
}
const F_STOCK_DERIV: Fmt = Fmt { unused: 0, signed: true, int: 8, dec: 0, norm: 1 };
const F_RISK_FREE: Fmt = Fmt { unused: 0, signed: true, int: 4, dec: 3, norm: 0 };
const F_BASE: Fmt = Fmt { unused: 0, signed: true, int: 5, dec: 2, norm: 0 };
const F_STOCK: Fmt = Fmt { unused: 2, signed: false, int: 9, dec: 0, norm: 0 };

impl Fmt {
    fn write(&self, v: i64) -> String {
        let a = v.unsigned_abs();
        let p = 10u64.pow(self.dec as u32);
        let mut s = "0".repeat(self.unused);
        if self.signed {
            s.push(if v < 0 { '-' } else { '0' });
        }
        s += &format!("{:0w$}", a / p, w = self.int);
        if self.dec > 0 {
            s += &format!(".{:0w$}", a % p, w = self.dec);
        }
        s
    }
    fn max(&self) -> i64 {
        10i64.pow((self.int + self.dec) as u32) - 1
    }
}
fn price(src: &mut Src, f: &Fmt) -> i64 {
    let v = src.edgy(0, f.max());
    if f.signed && src.chance(1, 4) { -v } else { v }
}

#[derive(Clone, Debug, PartialEq)]
struct Exp {
    isin: String,
    stamp: u64,
    fmt: Fmt,
    /// ask price, bid price, ask qty, bid qty, ask count / lp ask, bid count / lp bid
    lv: Vec<(i64, i64, u64, u64, u64, u64)>,
    tp: i64,
    tq: u64,
    tt: TradeType,
    cum: u64,
}
#[derive(Clone, Debug)]
struct Msg {
    kind: Kind,
    bytes: Vec<u8>,
    exp: Exp,
}
impl Msg {
    fn view(&self) -> View<'_> {
        View { kind: self.kind, bytes: &self.bytes }
    }
}
const ISINS: [&str; 10] = [
    "KR4101V30008", "KR4169V30013", "KR4168V30013", "KR4301V13502", "KR41CNV10006", "KR7005930003", "KR4165V30001", "KR416900000Z",
    "KR41690ABCDE", "KR4175V30009",
];
fn put(b: &mut [u8], at: usize, s: &str) {
    b[at..at + s.len()].copy_from_slice(s.as_bytes());
}
fn isin(src: &mut Src) -> String {
    match src.draw(4) {
        0 => src.pick(&ISINS).to_string(),
        1 => format!("KR4169{:06}", src.draw(3000)),
        2 => format!("KR4{:09}", src.draw(5000)),
        _ => {
            let cs: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789".chars().collect();
            // bounded pool: every identifier created is interned for the life of the process
            let k = src.draw(4000);
            let mut x = k.wrapping_mul(0x9E3779B97F4A7C15);
            (0..12)
                .map(|_| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    cs[(x >> 33) as usize % cs.len()]
                })
                .collect()
        }
    }
}
fn day(src: &mut Src) -> i64 {
    // days since 1970-01-01
    src.edgy(0, 60_000)
}
fn date(d: i64) -> Date {
    Date::from_julian_day(2_440_588 + d as i32).unwrap()
}
fn qty(src: &mut Src, w: u32) -> u64 {
    src.edgy(0, 10i64.pow(w) - 1) as u64
}

fn gen_msg(src: &mut Src, kind: Kind, d: i64) -> Msg {
    let code = *src.pick(&["01F", "04F", "05F", "10F", "03F", "06F", "11F", "07F", "14F", "04E", "05S", "F04", "10G", "00F"]);
    let cat = *src.pick(&["B6", "G7", "A3", "04", "10", "05"]);
    gen_coded(src, kind, d, cat, code)
}
fn gen_coded(src: &mut Src, kind: Kind, d: i64, cat: &str, code: &str) -> Msg {
    let n = kind.len();
    // filler
    let mut x = src.u64();
    let mut b: Vec<u8> = (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            b'!' + ((x >> 40) % 94) as u8
        })
        .collect();
    b[n - 1] = 255;
    put(&mut b, 0, cat);
    put(&mut b, 2, code);
    let is = isin(src);
    put(&mut b, 17, &is);
    let (hh, mm, ss, us) = (src.draw(24), src.draw(60), src.draw(60), src.edgy(0, 999_999) as u64);
    put(&mut b, 35, &format!("{hh:02}{mm:02}{ss:02}{us:06}"));
    let stamp = d as u64 * 24 * HOUR + 9 * HOUR + (hh * 3600 + mm * 60 + ss) * NANO + us * 1000;
    let fmt = if kind.stock() {
        F_STOCK
    } else if code == "04F" || code == "05F" || code == "10F" {
        F_STOCK_DERIV
    } else if is.starts_with("KR4169") {
        F_RISK_FREE
    } else {
        F_BASE
    };
    let mut exp = Exp { isin: is, stamp, fmt, lv: vec![], tp: 0, tq: 0, tt: TradeType::Undefined, cum: 0 };
    if kind.is_trade() {
        exp.tp = price(src, &fmt);
        exp.tq = qty(src, 9);
        exp.cum = qty(src, 12);
        let c = *src.pick(&["0", "1", "2"]);
        exp.tt = match c {
            "0" => TradeType::Undefined,
            "1" => TradeType::Sell,
            _ => TradeType::Buy,
        };
        put(&mut b, 47, &fmt.write(exp.tp));
        put(&mut b, 56, &format!("{:09}", exp.tq));
        put(&mut b, 119, &format!("{:012}", exp.cum));
        put(&mut b, 153, c);
    }
    let (qw, cw) = if kind.stock() { (12, 12) } else { (9, 5) };
    let mut at = kind.start();
    for _ in 0..kind.levels() {
        let (ap, bp) = (price(src, &fmt), price(src, &fmt));
        let (aq, bq) = (qty(src, qw), qty(src, qw));
        let (ac, bc) = (qty(src, cw), qty(src, cw));
        let mut s = fmt.write(ap) + &fmt.write(bp) + &format!("{aq:0w$}{bq:0w$}", w = qw as usize);
        if kind != S2 {
            s += &format!("{ac:0w$}{bc:0w$}", w = cw as usize);
        }
        put(&mut b, at, &s);
        at += s.len();
        exp.lv.push((ap, bp, aq, bq, ac, bc));
    }
    Msg { kind, bytes: b, exp }
}

struct Cfg {
    cut: usize,
    cum: bool,
}
fn cfg(src: &mut Src, kind: Kind) -> Cfg {
    let cut = if src.chance(1, 2) { kind.levels() } else { src.usize(0, kind.levels()) };
    Cfg { cut, cum: src.bool() }
}
/// the bytes of a message, wherever they are
struct View<'a> {
    kind: Kind,
    bytes: &'a [u8],
}
fn quote(m: &View, c: &Cfg, dg: &mut DateUnixNanoGenerator) -> anyhow_r<QuoteSnapshot> {
    match m.kind {
        Q34 => IFMSRPD0034::default().with_quote_level_cut(c.cut)?.to_quote_snapshot(m.bytes, dg),
        Q35 => IFMSRPD0035::default().with_quote_level_cut(c.cut)?.to_quote_snapshot(m.bytes, dg),
        S2 => IFMSRPD0002::default().with_quote_level_cut(c.cut)?.to_quote_snapshot(m.bytes, dg),
        _ => IFMSRPD0003::default().with_quote_level_cut(c.cut)?.to_quote_snapshot(m.bytes, dg),
    }
}
#[allow(non_camel_case_types)]
type anyhow_r<T> = Result<T, anyhow::Error>;
fn quote_buf(m: &View, c: &Cfg, b: &mut QuoteSnapshot, dg: &mut DateUnixNanoGenerator) -> anyhow_r<()> {
    match m.kind {
        Q34 => IFMSRPD0034::default().with_quote_level_cut(c.cut)?.to_quote_snapshot_buffer(m.bytes, b, dg),
        Q35 => IFMSRPD0035::default().with_quote_level_cut(c.cut)?.to_quote_snapshot_buffer(m.bytes, b, dg),
        S2 => IFMSRPD0002::default().with_quote_level_cut(c.cut)?.to_quote_snapshot_buffer(m.bytes, b, dg),
        _ => IFMSRPD0003::default().with_quote_level_cut(c.cut)?.to_quote_snapshot_buffer(m.bytes, b, dg),
    }
}
fn tq(m: &View, c: &Cfg, dg: &mut DateUnixNanoGenerator) -> anyhow_r<TradeQuoteSnapshot> {
    match m.kind {
        T37 => IFMSRPD0037::default().with_quote_level_cut(c.cut)?.with_cum_trd_qnt(c.cum).to_trade_quote_snapshot(m.bytes, dg),
        _ => IFMSRPD0038::default().with_quote_level_cut(c.cut)?.with_cum_trd_qnt(c.cum).to_trade_quote_snapshot(m.bytes, dg),
    }
}
fn tq_buf(m: &View, c: &Cfg, b: &mut TradeQuoteSnapshot, dg: &mut DateUnixNanoGenerator) -> anyhow_r<()> {
    match m.kind {
        T37 => IFMSRPD0037::default().with_quote_level_cut(c.cut)?.with_cum_trd_qnt(c.cum).to_trade_quote_snapshot_buffer(m.bytes, b, dg),
        _ => IFMSRPD0038::default().with_quote_level_cut(c.cut)?.with_cum_trd_qnt(c.cum).to_trade_quote_snapshot_buffer(m.bytes, b, dg),
    }
}
fn trade(m: &View, c: &Cfg, dg: &mut DateUnixNanoGenerator) -> anyhow_r<TradeData> {
    IFMSRPD0036::default().with_cum_trd_qnt(c.cum).to_trade_data(m.bytes, dg)
}
fn trade_buf(m: &View, c: &Cfg, b: &mut TradeData, dg: &mut DateUnixNanoGenerator) -> anyhow_r<()> {
    IFMSRPD0036::default().with_cum_trd_qnt(c.cum).to_trade_data_buffer(m.bytes, b, dg)
}

fn check_levels(what: &str, m: &Msg, ask: &[LevelSnapshot], bid: &[LevelSnapshot], cut: usize) -> R {
    ensure_eq!(ask.len(), cut, "{what}: number of effective ask levels");
    ensure_eq!(bid.len(), cut, "{what}: number of effective bid levels");
    for i in 0..cut {
        let (ap, bp, aq, bq, ac, bc) = m.exp.lv[i];
        let (cnt, lp) = match m.kind {
            S2 => (None, None),
            S3 => (None, Some((ac, bc))),
            _ => (Some((ac as u32, bc as u32)), None),
        };
        let ea = LevelSnapshot { order_count: cnt.map(|c| c.0), book_price: ap, book_quantity: aq, lp_quantity: lp.map(|l| l.0) };
        let eb = LevelSnapshot { order_count: cnt.map(|c| c.1), book_price: bp, book_quantity: bq, lp_quantity: lp.map(|l| l.1) };
        ensure_eq!(ask[i], ea, "{what}: ask level {}", i + 1);
        ensure_eq!(bid[i], eb, "{what}: bid level {}", i + 1);
    }
    Ok(())
}
fn exp_cfg(f: &Fmt) -> (usize, usize, bool, usize) {
    (f.int, if f.dec > 0 { f.dec + 1 } else { 0 }, f.signed, f.unused)
}
fn check_conv(what: &str, m: &Msg, c: &OrderConverter) -> R {
    let k: &NumReprCfg = c.price.get_config();
    ensure_eq!((k.digit_length, k.decimal_point_length, k.is_signed, k.unused_length), exp_cfg(&m.exp.fmt), "{what}: price format attached to the result");
    Ok(())
}
fn to_real(f: &Fmt, v: i64) -> f64 {
    f.write(v).replace("0-", "-").parse::<f64>().unwrap()
}
fn check_real(what: &str, m: &Msg, c: &OrderConverter, v: i64) -> R {
    let e = to_real(&m.exp.fmt, v);
    let o = c.price.to_f64_from_i64(v);
    ensure!(o == e, "{what}: price {v} as a real number: observed {o}, expected {e}");
    Ok(())
}
fn fresh(stamp: trading_engine::types::timestamp::TimeStamp, what: &str) -> R {
    let now = trading_engine::get_unix_nano();
    ensure!(now.abs_diff(stamp.stamp) < HOUR, "{what}: receive time {} is not the decoding time {now}", stamp.stamp);
    Ok(())
}
fn check_quote(what: &str, m: &Msg, c: &Cfg, q: &QuoteSnapshot) -> R {
    ensure_eq!(q.id.symbol_str(), m.exp.isin.as_str(), "{what}: instrument");
    ensure_eq!(q.id.venue(), Venue::KRX, "{what}: venue");
    ensure_eq!(q.timestamp.stamp, m.exp.stamp, "{what}: time");
    ensure_eq!(q.quote_level_cut, c.cut, "{what}: level cut");
    ensure_eq!(q.all_lp_holdings, None, "{what}: lp holdings");
    fresh(q.system_timestamp, what)?;
    check_conv(what, m, q.order_converter)?;
    check_levels(what, m, q.effective_ask_data(), q.effective_bid_data(), c.cut)?;
    if c.cut > 0 {
        check_real(what, m, q.order_converter, q.ask_quote_data[0].book_price)?;
    }
    Ok(())
}
fn check_tq(what: &str, m: &Msg, c: &Cfg, q: &TradeQuoteSnapshot) -> R {
    ensure_eq!(q.id.symbol_str(), m.exp.isin.as_str(), "{what}: instrument");
    ensure_eq!(q.id.venue(), Venue::KRX, "{what}: venue");
    ensure_eq!(q.timestamp.stamp, m.exp.stamp, "{what}: time");
    ensure_eq!(q.quote_level_cut, c.cut, "{what}: level cut");
    ensure_eq!(q.all_lp_holdings, None, "{what}: lp holdings");
    ensure_eq!(q.trade_price, m.exp.tp, "{what}: trade price");
    ensure_eq!(q.trade_quantity, m.exp.tq, "{what}: trade quantity");
    ensure_eq!(q.trade_type, Some(m.exp.tt), "{what}: trade type");
    ensure_eq!(q.cumulative_trade_quantity, if c.cum { Some(m.exp.cum) } else { None }, "{what}: cumulative quantity");
    fresh(q.system_timestamp, what)?;
    check_conv(what, m, q.order_converter)?;
    check_levels(what, m, q.effective_ask_data(), q.effective_bid_data(), c.cut)?;
    check_real(what, m, q.order_converter, q.trade_price)
}
fn check_trade(what: &str, m: &Msg, c: &Cfg, q: &TradeData) -> R {
    ensure_eq!(q.id.symbol_str(), m.exp.isin.as_str(), "{what}: instrument");
    ensure_eq!(q.id.venue(), Venue::KRX, "{what}: venue");
    ensure_eq!(q.timestamp.stamp, m.exp.stamp, "{what}: time");
    ensure_eq!(q.trade_price, m.exp.tp, "{what}: trade price");
    ensure_eq!(q.trade_quantity, m.exp.tq, "{what}: trade quantity");
    ensure_eq!(q.trade_type, Some(m.exp.tt), "{what}: trade type");
    ensure_eq!(q.cumulative_trade_quantity, if c.cum { Some(m.exp.cum) } else { None }, "{what}: cumulative quantity");
    fresh(q.system_timestamp, what)?;
    check_conv(what, m, q.order_converter)?;
    check_real(what, m, q.order_converter, q.trade_price)?;
    let e = to_real(&m.exp.fmt, m.exp.tp) / 10f64.powi(m.exp.fmt.norm);
    ensure!((q.to_normalized_real() - e).abs() <= 1e-12 * e.abs(), "{what}: normalised price {} expected {e}", q.to_normalized_real());
    Ok(())
}
fn show(m: &Msg, c: &Cfg) -> String {
    format!("{:?} cut={} cum={} {}", m.kind, c.cut, c.cum, String::from_utf8_lossy(&m.bytes[..m.bytes.len() - 1]))
}
fn nontriv(m: &Msg, c: &Cfg) -> bool {
    if m.kind == T36 {
        m.exp.tp != 0 && m.exp.tq != 0
    } else {
        c.cut > 0 && m.exp.lv[..c.cut].iter().any(|l| l.0 != 0 && l.1 != 0 && l.2 != 0 && l.3 != 0)
    }
}

fn decode(src: &mut Src, ctx: &mut Ctx, kinds: &[Kind]) -> R {
    let kind = *src.pick(kinds);
    let d = day(src);
    let m = gen_msg(src, kind, d);
    let c = cfg(src, kind);
    ctx.note(show(&m, &c));
    ctx.nontrivial(nontriv(&m, &c));
    let mut dg = DateUnixNanoGenerator::from(date(d));
    let mut dg2 = DateUnixNanoGenerator::from_unixnano(d as u64 * 24 * HOUR + src.draw(24 * HOUR));
    let extra = src.usize(0, 3);
    match kind {
        T36 => {
            check_trade("decode", &m, &c, &trade(&m.view(), &c, &mut dg).must("decode")?)?;
            let mut b = TradeData::default();
            trade_buf(&m.view(), &c, &mut b, &mut dg2).must("decode into a buffer")?;
            check_trade("decode into a buffer", &m, &c, &b)
        }
        T37 | T38 => {
            check_tq("decode", &m, &c, &tq(&m.view(), &c, &mut dg).must("decode")?)?;
            let mut b = TradeQuoteSnapshot::with_quote_level(c.cut + extra);
            tq_buf(&m.view(), &c, &mut b, &mut dg2).must("decode into a buffer")?;
            check_tq("decode into a buffer", &m, &c, &b)
        }
        _ => {
            check_quote("decode", &m, &c, &quote(&m.view(), &c, &mut dg).must("decode")?)?;
            let mut b = QuoteSnapshot::with_quote_level(c.cut + extra);
            quote_buf(&m.view(), &c, &mut b, &mut dg2).must("decode into a buffer")?;
            check_quote("decode into a buffer", &m, &c, &b)
        }
    }
}
fn k01(src: &mut Src, ctx: &mut Ctx) -> R {
    decode(src, ctx, &[Q34, Q35])
}
fn k02(src: &mut Src, ctx: &mut Ctx) -> R {
    decode(src, ctx, &[T36, T37, T38])
}
fn k03(src: &mut Src, ctx: &mut Ctx) -> R {
    decode(src, ctx, &[S2, S3])
}

// ------------------------------------------------------------------ K04
fn corrupt(src: &mut Src, m: &mut Msg) {
    match src.draw(4) {
        0 => {
            let n = src.usize(0, m.bytes.len() - 1);
            m.bytes.truncate(n)
        }
        1 => *m.bytes.last_mut().unwrap() = src.draw(255) as u8,
        2 => m.bytes[17 + src.usize(0, 11)] = b' ',
        _ => m.bytes[17 + src.usize(0, 11)] = 128 + src.draw(127) as u8,
    }
}
fn ptr<T>(a: &T, b: &T, what: &str) -> R {
    ensure!(std::ptr::eq(a, b), "{what} differs from decoding afresh");
    Ok(())
}
fn k04(src: &mut Src, ctx: &mut Ctx) -> R {
    let family = src.draw(3);
    let kinds: &[Kind] = [&[Q34, Q35, S2, S3][..], &[T37, T38][..], &[T36][..]][family as usize];
    let mut qb = QuoteSnapshot::with_quote_level(10);
    let mut tb = TradeQuoteSnapshot::with_quote_level(10);
    let mut db = TradeData::default();
    if src.bool() {
        // whatever the buffer held before: an arbitrary earlier state
        let l = LevelSnapshot { order_count: Some(7), book_price: -3, book_quantity: 9, lp_quantity: Some(11) };
        qb.ask_quote_data = vec![l; 12];
        qb.bid_quote_data = vec![l; 10];
        qb.quote_level_cut = src.usize(0, 10);
        qb.all_lp_holdings = Some(5);
        tb.ask_quote_data = vec![l; 10];
        tb.bid_quote_data = vec![l; 11];
        tb.quote_level_cut = src.usize(0, 10);
        tb.all_lp_holdings = Some(5);
        tb.cumulative_trade_quantity = Some(1);
        tb.cumulative_qnt_converter = trading_engine::data::krx::krx_converter::get_krx_bond_cum_qnt_converter();
        db.cumulative_trade_quantity = Some(1);
        db.cumulative_qnt_converter = trading_engine::data::krx::krx_converter::get_krx_bond_cum_qnt_converter();
    }
    let d = day(src);
    let (mut dg1, mut dg2) = (DateUnixNanoGenerator::from(date(d)), DateUnixNanoGenerator::from(date(d)));
    let mut n = 0;
    let mut ok = 0;
    while src.more(&mut n, 6, if ctx.thorough { 14 } else { 8 }) {
        let kind = *src.pick(kinds);
        let mut m = gen_msg(src, kind, d);
        let c = cfg(src, kind);
        let bad = src.chance(1, 8);
        if bad {
            corrupt(src, &mut m);
        }
        ctx.note(format!("{:?} cut={} cum={}{}", kind, c.cut, c.cum, if bad { " malformed" } else { "" }));
        match family {
            0 => {
                let f = quote(&m.view(), &c, &mut dg1);
                let b = quote_buf(&m.view(), &c, &mut qb, &mut dg2);
                ensure_eq!(b.is_ok(), f.is_ok(), "message {n}: decoding into the buffer succeeds iff decoding afresh does");
                if let Ok(f) = f {
                    ensure_eq!(qb.id, f.id, "message {n}: instrument");
                    ensure_eq!(qb.timestamp, f.timestamp, "message {n}: time");
                    ensure_eq!(qb.quote_level_cut, f.quote_level_cut, "message {n}: level cut");
                    ensure_eq!(qb.all_lp_holdings, f.all_lp_holdings, "message {n}: lp holdings");
                    ensure_eq!(qb.effective_ask_data(), f.effective_ask_data(), "message {n}: ask levels");
                    ensure_eq!(qb.effective_bid_data(), f.effective_bid_data(), "message {n}: bid levels");
                    ptr(qb.order_converter, f.order_converter, "order converter")?;
                    ptr(qb.order_counter, f.order_counter, "order counter")?;
                    fresh(qb.system_timestamp, "buffer")?;
                    ok += 1;
                }
            }
            1 => {
                let f = tq(&m.view(), &c, &mut dg1);
                let b = tq_buf(&m.view(), &c, &mut tb, &mut dg2);
                ensure_eq!(b.is_ok(), f.is_ok(), "message {n}: decoding into the buffer succeeds iff decoding afresh does");
                if let Ok(f) = f {
                    ensure_eq!(tb.id, f.id, "message {n}: instrument");
                    ensure_eq!(tb.timestamp, f.timestamp, "message {n}: time");
                    ensure_eq!(tb.quote_level_cut, f.quote_level_cut, "message {n}: level cut");
                    ensure_eq!(tb.all_lp_holdings, f.all_lp_holdings, "message {n}: lp holdings");
                    ensure_eq!((tb.trade_price, tb.trade_quantity, tb.trade_type), (f.trade_price, f.trade_quantity, f.trade_type), "message {n}: trade");
                    ensure_eq!(tb.cumulative_trade_quantity, f.cumulative_trade_quantity, "message {n}: cumulative quantity");
                    ensure_eq!(tb.effective_ask_data(), f.effective_ask_data(), "message {n}: ask levels");
                    ensure_eq!(tb.effective_bid_data(), f.effective_bid_data(), "message {n}: bid levels");
                    ptr(tb.order_converter, f.order_converter, "order converter")?;
                    ptr(tb.order_counter, f.order_counter, "order counter")?;
                    ptr(tb.cumulative_qnt_converter, f.cumulative_qnt_converter, "cumulative quantity converter")?;
                    fresh(tb.system_timestamp, "buffer")?;
                    ok += 1;
                }
            }
            _ => {
                let f = trade(&m.view(), &c, &mut dg1);
                let b = trade_buf(&m.view(), &c, &mut db, &mut dg2);
                ensure_eq!(b.is_ok(), f.is_ok(), "message {n}: decoding into the buffer succeeds iff decoding afresh does");
                if let Ok(f) = f {
                    ensure_eq!(db.id, f.id, "message {n}: instrument");
                    ensure_eq!(db.timestamp, f.timestamp, "message {n}: time");
                    ensure_eq!((db.trade_price, db.trade_quantity, db.trade_type), (f.trade_price, f.trade_quantity, f.trade_type), "message {n}: trade");
                    ensure_eq!(db.cumulative_trade_quantity, f.cumulative_trade_quantity, "message {n}: cumulative quantity");
                    ensure_eq!(db.to_normalized_real(), f.to_normalized_real(), "message {n}: normalised price");
                    ptr(db.order_converter, f.order_converter, "order converter")?;
                    ptr(db.cumulative_qnt_converter, f.cumulative_qnt_converter, "cumulative quantity converter")?;
                    fresh(db.system_timestamp, "buffer")?;
                    ok += 1;
                }
            }
        }
        ensure_eq!(
            (dg2.get_utcdate_unix_nano(), dg2.get_prev_timestamp()),
            (dg1.get_utcdate_unix_nano(), dg1.get_prev_timestamp()),
            "message {n}: date state after decoding"
        );
    }
    ctx.nontrivial(ok >= 2);
    Ok(())
}

// ------------------------------------------------------------------ K05
fn k05(src: &mut Src, ctx: &mut Ctx) -> R {
    let kind = *src.pick(&[Q34, Q35, S2, S3, T36, T37, T38]);
    let d = day(src);
    let mut m = gen_msg(src, kind, d);
    let mut n = 0;
    let mut what = vec![];
    loop {
        match src.draw(9) {
            0 => {
                let k = src.usize(0, m.bytes.len());
                m.bytes.truncate(k);
                what.push(format!("cut to {k}"));
            }
            1 => {
                let k = src.usize(1, 40);
                let v = src.draw(256) as u8;
                m.bytes.extend(std::iter::repeat(v).take(k));
                what.push(format!("+{k}x{v}"));
            }
            2 => {
                if let Some(l) = m.bytes.last_mut() {
                    *l = src.draw(256) as u8;
                }
                what.push("last byte".into());
            }
            3 => {
                let k = 17 + src.usize(0, 11);
                if k < m.bytes.len() {
                    m.bytes[k] = *src.pick(&[b' ', b'\t', 0x80, 0xff, 0, b'\n', 0xc3]);
                }
                what.push(format!("code byte {k}"));
            }
            4 | 5 => {
                let k = src.usize(1, 30);
                for _ in 0..k {
                    if !m.bytes.is_empty() {
                        let i = src.usize(0, m.bytes.len() - 1);
                        m.bytes[i] = src.draw(256) as u8;
                    }
                }
                what.push(format!("{k} random bytes"));
            }
            6 => {
                // all payload bytes random, length and end byte kept
                let mut x = src.u64();
                let l = m.bytes.len();
                for b in m.bytes.iter_mut().take(l.saturating_sub(1)).skip(if src.bool() { 29 } else { 0 }) {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    *b = (x >> 40) as u8;
                }
                what.push("randomised".into());
            }
            7 => {
                // drop or double one character, keep the length
                if m.bytes.len() > 2 {
                    let i = src.usize(0, m.bytes.len() - 2);
                    let b = m.bytes.remove(i);
                    let at = src.usize(0, m.bytes.len() - 1);
                    m.bytes.insert(at, b);
                }
                what.push("character moved".into());
            }
            _ => {
                let v = *src.pick(&[0u8, b'9', b'0', b'-', b'.', b' ', 255, b'A']);
                let (a, k) = (src.usize(29, 160), src.usize(1, 60));
                for i in a..a + k {
                    if i + 1 < m.bytes.len() {
                        m.bytes[i] = v;
                    }
                }
                what.push(format!("run of {v} at {a}"));
            }
        }
        if !src.more(&mut n, 2, 4) {
            break;
        }
    }
    let b = &m.bytes;
    let code_bad = b.len() < 29 || b[17..29].iter().any(|c| !c.is_ascii() || *c == b' ' || *c == b'\t');
    let must_refuse = b.len() != kind.len() || b.last() != Some(&255) || code_bad;
    // identifiers are interned for ever: bound the number of distinct random codes
    let c = cfg(src, kind);
    let small = if src.chance(1, 4) && c.cut > 0 { 1 } else { 0 };
    ctx.note(format!("{:?} cut={} len={} {} -> {}", kind, c.cut, b.len(), what.join(","), if must_refuse { "must be refused" } else { "any answer" }));
    ctx.nontrivial(true);
    let mut dg = DateUnixNanoGenerator::from(date(d));
    let mut dg2 = dg;
    let (r, beyond) = at_end(&m.bytes, |bytes| {
        let v = View { kind, bytes };
        no_panic(|| match kind {
        T36 => {
            let mut x = TradeData::default();
            (trade(&v, &c, &mut dg).is_ok(), trade_buf(&v, &c, &mut x, &mut dg2).is_ok())
        }
        T37 | T38 => {
            let mut x = TradeQuoteSnapshot::with_quote_level(c.cut - small);
            (tq(&v, &c, &mut dg).is_ok(), tq_buf(&v, &c, &mut x, &mut dg2).is_ok())
        }
        _ => {
            let mut x = QuoteSnapshot::with_quote_level(c.cut - small);
            (quote(&v, &c, &mut dg).is_ok(), quote_buf(&v, &c, &mut x, &mut dg2).is_ok())
        }
    })
    });
    ensure!(!beyond, "decoder {kind:?} read beyond the end of a message of {} bytes", m.bytes.len());
    match r {
        Err(p) => fail!("decoder {kind:?} panicked on {} bytes: {p}", b.len()),
        Ok((a, bf)) => {
            if must_refuse {
                ensure!(!a && !bf, "malformed message accepted (fresh {a}, buffer {bf})");
            }
            if small == 1 && kind != T36 {
                ensure!(!bf, "a buffer with too few levels was accepted");
            }
        }
    }
    // level cuts beyond the layout
    let over = kind.levels() + 1 + src.usize(0, 20);
    let acc = match kind {
        Q34 => IFMSRPD0034::default().with_quote_level_cut(over).is_ok(),
        Q35 => IFMSRPD0035::default().with_quote_level_cut(over).is_ok(),
        S2 => IFMSRPD0002::default().with_quote_level_cut(over).is_ok(),
        S3 => IFMSRPD0003::default().with_quote_level_cut(over).is_ok(),
        T37 => IFMSRPD0037::default().with_quote_level_cut(over).is_ok(),
        T38 => IFMSRPD0038::default().with_quote_level_cut(over).is_ok(),
        T36 => false,
    };
    ensure!(!acc, "{over} levels accepted although the layout has {}", kind.levels());
    Ok(())
}

// ------------------------------------------------------------------ K07
/// what a transaction code stands for: kind of message, product number, market
fn interface(code: &str) -> Option<&'static str> {
    if code.len() != 5 {
        return None;
    }
    let (kind, no, market) = (&code[..2], code[2..4].parse::<u32>().ok().filter(|_| code[2..4].bytes().all(|c| c.is_ascii_digit()))?, &code[4..]);
    let ten = no == 4 || no == 5; // stock futures and options show ten levels
    match (kind, market) {
        ("A3", "F") if (1..=16).contains(&no) => Some("IFMSRPD0036"),
        ("B6", "F") if (1..=16).contains(&no) => Some(if ten { "IFMSRPD0035" } else { "IFMSRPD0034" }),
        ("G7", "F") if (1..=16).contains(&no) && no != 14 => Some(if ten { "IFMSRPD0038" } else { "IFMSRPD0037" }),
        ("B6", "S" | "Q" | "X") if no == 1 => Some("IFMSRPD0002"),
        ("B7", "S") if (2..=4).contains(&no) => Some("IFMSRPD0003"),
        ("A3", "S") if (1..=4).contains(&no) => Some("IFMSRPD0004"),
        ("A3", "Q" | "X") if no == 1 => Some("IFMSRPD0004"),
        ("B6", "B" | "K") if no == 1 => Some("IFMSRPD0023"),
        ("A3", "B" | "M" | "K") if no == 1 => Some("IFMSRPD0027"),
        ("G7", "B" | "K") if no == 1 => Some("IFMSRPD0029"),
        _ => None,
    }
}
fn k07(src: &mut Src, ctx: &mut Ctx) -> R {
    use trading_engine::data::checker::Checker;
    use trading_engine::data::krx::interface_map::KRX_TR_CODE_MAP;
    let cat = *src.pick(&["B6", "A3", "G7", "B7", "C1", "A6", "b6"]);
    let no = format!("{:02}", src.draw(20));
    let code = match src.draw(12) {
        0 => format!("{no}{}", src.pick(&["f", " ", "E", "R", "D", ""])),
        1 => format!("{}{}", src.pick(&["0", "1F2", "XXF", "001F", ""]), src.pick(&["F", "S"])),
        _ => format!("{no}{}", src.pick(&["F", "F", "F", "S", "Q", "X", "B", "M", "K"])),
    };
    let tr = format!("{cat}{code}");
    let want = interface(&tr);
    ctx.note(format!("{tr} -> {want:?}"));
    ctx.nontrivial(want.is_some());
    if tr == "G714F" {
        return discard(); // not documented: the product has trades and quotes but no message of both
    }
    ensure_eq!(KRX_TR_CODE_MAP.get(tr.as_bytes()).copied(), want, "interface of {tr}");
    let Some(name) = want else { return Ok(()) };
    let all = [(Q34, IFMSRPD0034::default().as_str()), (Q35, IFMSRPD0035::default().as_str()), (S2, IFMSRPD0002::default().as_str()), (S3, IFMSRPD0003::default().as_str()),
        (T36, IFMSRPD0036::default().as_str()), (T37, IFMSRPD0037::default().as_str()), (T38, IFMSRPD0038::default().as_str())];
    for (kind, s) in all {
        ensure_eq!(s, format!("IFMSRPD00{:02}", match kind { Q34 => 34, Q35 => 35, S2 => 2, S3 => 3, T36 => 36, T37 => 37, T38 => 38 }), "name of the decoder");
    }
    let Some((kind, _)) = all.iter().find(|x| x.1 == name) else { return Ok(()) };
    // a message with this code and the layout of this interface decodes, and no other decoder takes it
    let d = day(src);
    let m = gen_coded(src, *kind, d, &tr[..2], &tr[2..]);
    let c = Cfg { cut: kind.levels(), cum: true };
    let mut dg = DateUnixNanoGenerator::from(date(d));
    match kind {
        T36 => check_trade("decode", &m, &c, &trade(&m.view(), &c, &mut dg).must("decode")?)?,
        T37 | T38 => check_tq("decode", &m, &c, &tq(&m.view(), &c, &mut dg).must("decode")?)?,
        _ => check_quote("decode", &m, &c, &quote(&m.view(), &c, &mut dg).must("decode")?)?,
    }
    for (k, s) in all {
        if k != *kind {
            let other = Msg { kind: k, bytes: m.bytes.clone(), exp: m.exp.clone() };
            let c = Cfg { cut: 0, cum: false };
            let took = match k {
                T36 => trade(&other.view(), &c, &mut dg).is_ok(),
                T37 | T38 => tq(&other.view(), &c, &mut dg).is_ok(),
                _ => quote(&other.view(), &c, &mut dg).is_ok(),
            };
            ensure!(!took, "{s} accepts a message of {name}");
        }
    }
    Ok(())
}
fn same_level(src: &mut Src, ctx: &mut Ctx) -> R {
    let one = |src: &mut Src| LevelSnapshot {
        order_count: if src.bool() { Some(src.draw(3) as u32) } else { None },
        book_price: src.int(-2, 2),
        book_quantity: src.draw(3),
        lp_quantity: if src.bool() { Some(src.draw(3)) } else { None },
    };
    let a = one(src);
    let mut b = a;
    let other = one(src);
    for k in 0..4 {
        if src.chance(1, 4) {
            match k {
                0 => b.order_count = other.order_count,
                1 => b.book_price = other.book_price,
                2 => b.book_quantity = other.book_quantity,
                _ => b.lp_quantity = other.lp_quantity,
            }
        }
    }
    let same = (a.order_count, a.book_price, a.book_quantity, a.lp_quantity) == (b.order_count, b.book_price, b.book_quantity, b.lp_quantity);
    ctx.note(format!("{a:?} {b:?}"));
    ctx.nontrivial(!same);
    ensure_eq!(a == b, same, "equality of {a:?} and {b:?}");
    ensure_eq!(a == &b, same, "equality of {a:?} and a reference to {b:?}");
    ensure_eq!(&a == b, same, "equality of a reference to {a:?} and {b:?}");
    ensure_eq!(a != b, !same, "inequality of {a:?} and {b:?}");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "K01",
            facets: vec![facet("quote", "at least one requested level has non-zero prices and quantities on both sides", 960000, 28800000, k01)],
            assumptions: &["well-formed: sign column '0' or '-', digits elsewhere, a point where the product's price format has one"],
        },
        Property {
            id: "K02",
            facets: vec![facet("trade", "the trade (or a requested level) has non-zero price and quantity", 960000, 28800000, k02)],
            assumptions: &["well-formed: sign column '0' or '-', digits elsewhere, a point where the product's price format has one", "trade type codes 0 (undefined), 1 (sell), 2 (buy)"],
        },
        Property {
            id: "K03",
            facets: vec![facet("stock", "at least one requested level has non-zero prices and quantities on both sides", 800000, 24000000, k03)],
            assumptions: &["the two leading characters of an 11 character stock price are unused zeros"],
        },
        Property {
            id: "K04",
            facets: vec![facet("reuse", "at least two well-formed messages decoded into the same buffer", 300000, 9000000, k04), facet("levels", "two different levels", 100000, 1000000, same_level)],
            assumptions: &["the buffer has at least as many levels as the decoder is asked for"],
        },
        Property {
            id: "K07",
            facets: vec![facet("route", "the code has an interface", 300000, 9000000, k07)],
            assumptions: &["documented codes: those of the interface map's comments, by kind of message, product number and market (G714F left open)"],
        },
        Property {
            id: "K05",
            facets: vec![facet("fuzz", "every case (one to five mutations of a well-formed message)", 600000, 18000000, k05)],
            assumptions: &[],
        },
    ]
}
