//! K08: orders, market data and number formats written to JSON and read back.
use crate::book::inst;
use std::collections::HashMap;
use trading_engine::data::order::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::types::base::{LevelSnapshot, Slice, VirtualOrderId};
use trading_engine::types::enums::{Currency, DataType, FromU8, OrderSide, TradeType};
use trading_engine::types::id::InstId;
use trading_engine::types::inst_info::{BaseInstInfo, BaseInstMap, InstType};
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp};
use trading_engine::types::venue::Venue;
use trading_engine::utils::lazy_string::LazyString;
use trading_engine::utils::numeric_converter::*;
use vf::*;

fn back<T: serde::Serialize + serde::de::DeserializeOwned>(what: &str, x: &T) -> R<T> {
    let j = match serde_json::to_string(x) {
        Ok(j) => j,
        Err(e) => fail!("{what} cannot be written: {e}"),
    };
    match serde_json::from_str(&j) {
        Ok(y) => Ok(y),
        Err(e) => fail!("{what} written as {j} cannot be read back: {e}"),
    }
}
fn same<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, x: &T) -> R {
    let y = back(what, x)?;
    ensure!(y == *x, "{what}: {x:?} is read back as {y:?}");
    Ok(())
}
fn big(s: &mut Src) -> u64 {
    match s.draw(4) {
        0 => s.draw(3),
        1 => s.u64() >> s.draw(64),
        2 => u64::MAX - s.draw(2),
        _ => s.draw(100000),
    }
}
fn price(s: &mut Src) -> i64 {
    let x = (big(s) >> 1) as i64;
    if s.bool() { x } else { -x }
}
fn stamp(s: &mut Src) -> u64 {
    // up to the year 2200
    s.draw(7_258_118_400) * 1_000_000_000 + s.draw(1_000_000_000)
}
const SIDES: [OrderSide; 2] = [OrderSide::Ask, OrderSide::Bid];
const TYPES: [TradeType; 3] = [TradeType::Undefined, TradeType::Sell, TradeType::Buy];
fn order(s: &mut Src) -> OrderEnum {
    let (p, q, side, id) = (price(s), big(s), *s.pick(&SIDES), big(s));
    match s.draw(5) {
        0 => OrderEnum::NullOrder(NullOrder {}),
        1 => OrderEnum::LimitOrder(LimitOrder::new(p, q, side, id)),
        2 => OrderEnum::RemoveAnyOrder(RemoveAnyOrder::new(p, q, side)),
        3 => OrderEnum::CancelOrder(CancelOrder::new(id)),
        _ => OrderEnum::ModifyOrder(ModifyOrder::new(id, p, q)),
    }
}
fn orders(s: &mut Src, c: &mut Ctx) -> R {
    let (p, q, side, id) = (price(s), big(s), *s.pick(&SIDES), big(s));
    let l = LimitOrder::new(p, q, side, id);
    ensure!((l.price, l.quantity, l.order_side, l.order_id) == (p, q, side, id), "made limit order {l:?}");
    let m = MarketOrder::new(q, side, id);
    ensure!((m.quantity, m.order_side, m.order_id) == (q, side, id), "made market order {m:?}");
    let d = ModifyOrder::new(id, p, q);
    ensure!((d.order_id, d.price, d.quantity) == (id, p, q), "made modification {d:?}");
    let r = RemoveAnyOrder::new(p, q, side);
    ensure!((r.price, r.quantity, r.order_side) == (p, q, side), "made removal {r:?}");
    ensure_eq!(side.opposite().opposite(), side, "opposite side twice");
    ensure!(side.opposite() != side, "opposite of {side:?}");
    same("limit order", &l)?;
    same("market order", &m)?;
    same("modification", &d)?;
    same("removal", &r)?;
    same("cancellation", &CancelOrder::new(id))?;
    let mut v = vec![];
    for _ in 0..s.usize(1, 6) {
        let o = order(s);
        let t = TimeStamp::new(stamp(s));
        v.push(DecomposedOrder { order: o, timestamp: t, ..deco(s) });
    }
    c.note(format!("{v:?}"));
    let kinds = v.iter().map(|x| std::mem::discriminant(&x.order)).collect::<std::collections::HashSet<_>>().len();
    c.nontrivial(kinds >= 2 && p < 0);
    same("messages", &v)
}
fn deco(s: &mut Src) -> DecomposedOrder {
    let id = inst(s.draw(5));
    DecomposedOrder { order: OrderEnum::NullOrder(NullOrder {}), timestamp: TimeStamp::new(stamp(s)), id }
}
fn level(s: &mut Src) -> LevelSnapshot {
    LevelSnapshot {
        order_count: if s.bool() { Some(s.draw(4) as u32) } else { None },
        book_price: s.int(-2, 2),
        book_quantity: s.draw(4),
        lp_quantity: if s.bool() { Some(s.draw(3)) } else { None },
    }
}
fn fields(l: &LevelSnapshot) -> (Option<u32>, i64, u64, Option<u64>) {
    (l.order_count, l.book_price, l.book_quantity, l.lp_quantity)
}
fn values(s: &mut Src, c: &mut Ctx) -> R {
    let a = level(s);
    let b = if s.bool() {
        let mut b = a;
        match s.draw(5) {
            0 => b.order_count = level(s).order_count,
            1 => b.book_price += 1,
            2 => b.book_quantity += 1,
            3 => b.lp_quantity = level(s).lp_quantity,
            _ => {}
        }
        b
    } else {
        level(s)
    };
    let e = fields(&a) == fields(&b);
    c.note(format!("{a:?} {b:?}"));
    ensure!((a == b) == e && (b == a) == e, "{a:?} == {b:?} is {}", a == b);
    let (ra, rb) = (&a, &b);
    ensure!((a == rb) == e && (ra == b) == e, "{a:?} == {b:?} through a reference is {} and {}", a == rb, ra == b);
    same("level", &a)?;
    let n = s.draw(256) as u8;
    ensure_eq!(OrderSide::from_u8(n).ok().map(|x| x as u8), (1..=2).contains(&n).then_some(n), "side of code {n}");
    ensure_eq!(DataType::from_u8(n).ok().map(|x| x as u8), (1..=3).contains(&n).then_some(n), "data type of code {n}");
    ensure_eq!(TradeType::from_u8(n).ok().map(|x| x as u8), (n <= 2).then_some(n), "trade type of code {n}");
    for n in 0..4u8 {
        ensure_eq!(OrderSide::from_u8(n).ok().map(|x| x as u8), (1..=2).contains(&n).then_some(n), "side of code {n}");
        ensure_eq!(DataType::from_u8(n).ok().map(|x| x as u8), (1..=3).contains(&n).then_some(n), "data type of code {n}");
        ensure_eq!(TradeType::from_u8(n).ok().map(|x| x as u8), (n <= 2).then_some(n), "trade type of code {n}");
    }
    for x in SIDES {
        same("side", &x)?;
    }
    for x in [DataType::L1, DataType::L2, DataType::L3] {
        same("data type", &x)?;
    }
    for x in TYPES {
        same("trade type", &x)?;
    }
    let money = [Currency::KRW, Currency::USD, Currency::EUR, Currency::GBP, Currency::JPY, Currency::CNY, Currency::HKD];
    for x in money {
        same("currency", &x)?;
        ensure_eq!(format!("{x:?}"), x.as_str(), "name of a currency");
        ensure_eq!(x.as_isin_code().as_str().to_string(), format!("{}000000000", x.as_str()), "code of a currency");
    }
    for x in [Venue::Undefined, Venue::CCP, Venue::KRX, Venue::KIS, Venue::SI] {
        same("venue", &x)?;
        ensure_eq!(format!("{x:?}"), x.as_str(), "name of a venue");
    }
    let kinds = [InstType::Cash, InstType::Stock, InstType::Bond, InstType::EquityFutures, InstType::FxFutures, InstType::CommodityFutures, InstType::EquityOption, InstType::Swap, InstType::Crypto];
    let mut map = BaseInstMap::new();
    let mut model: HashMap<InstId, BaseInstInfo> = HashMap::new();
    let mut again = false;
    for _ in 0..s.usize(0, 5) {
        let id = inst(s.draw(4));
        let x = BaseInstInfo::new(*s.pick(&kinds), *s.pick(&money));
        same("instrument description", &x)?;
        again |= model.insert(id, x).is_some();
        map.insert(id, x);
    }
    for i in 0..5 {
        ensure_eq!(map.get(inst(i)), model.get(&inst(i)), "description of instrument {i}");
    }
    let t = TimeStamp::new(stamp(s));
    same("time stamp", &t)?;
    let mut g = DateUnixNanoGenerator::default();
    g.utcdate_unix_nano = stamp(s);
    g.prev_timestamp = stamp(s);
    let h = back("date generator", &g)?;
    ensure_eq!((h.utcdate_unix_nano, h.prev_timestamp, h.get_update_stamp()), (g.utcdate_unix_nano, g.prev_timestamp, g.get_update_stamp()), "date generator read back");
    let x = Slice { start: s.usize(0, 900), end: s.usize(0, 900) };
    let y = back("slice", &x)?;
    ensure_eq!((x.start, x.end), (y.start, y.end), "slice read back");
    let mut v = VirtualOrderId { order_id: big(s) >> 1 };
    let first = v.order_id;
    for i in 0..3 {
        ensure_eq!(v.next_id(), first + i, "order id given");
    }
    c.nontrivial(again || !e);
    Ok(())
}
fn snapshots(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.usize(0, 10);
    let v: Vec<LevelSnapshot> = (0..2 * n).map(|_| LevelSnapshot { book_price: price(s), book_quantity: big(s), ..level(s) }).collect();
    let (ask, bid) = v.split_at(n);
    let mut q = QuoteSnapshot::with_quote_level(n);
    let (t, u) = (stamp(s), stamp(s));
    let cut = s.usize(0, n);
    let lp = if s.bool() { Some(big(s)) } else { None };
    let id = inst(s.draw(9));
    c.note(format!("{id:?} {t} {u} cut {cut} holdings {lp:?} {ask:?} {bid:?}"));
    c.nontrivial(cut > 0 && cut < n && lp.is_some());
    q.id = id;
    q.timestamp = TimeStamp::new(t);
    q.system_timestamp = TimeStamp::new(u);
    q.ask_quote_data = ask.to_vec();
    q.bid_quote_data = bid.to_vec();
    q.quote_level_cut = cut;
    q.all_lp_holdings = lp;
    ensure!(q.effective_ask_data() == &ask[..cut], "effective asks");
    ensure!(q.effective_bid_data() == &bid[..cut], "effective bids");
    let mut j = serde_json::to_value(&q).must("quote as JSON")?;
    common(&mut j, "quote", id, t, u, cut, lp, ask, bid)?;
    let mut x = TradeQuoteSnapshot { id, timestamp: q.timestamp, system_timestamp: q.system_timestamp, ask_quote_data: ask.to_vec(), bid_quote_data: bid.to_vec(), quote_level_cut: cut, all_lp_holdings: lp, ..Default::default() };
    x.trade_price = price(s);
    x.trade_quantity = big(s);
    x.trade_type = if s.bool() { Some(*s.pick(&TYPES)) } else { None };
    x.cumulative_trade_quantity = if s.bool() { Some(big(s)) } else { None };
    ensure!(x.effective_ask_data() == &ask[..cut], "effective asks of a trade with quote");
    ensure!(x.effective_bid_data() == &bid[..cut], "effective bids of a trade with quote");
    let mut j = serde_json::to_value(&x).must("trade with quote as JSON")?;
    ensure_eq!(j["trade_price"].as_i64(), Some(x.trade_price), "trade price written");
    ensure_eq!(j["trade_quantity"].as_u64(), Some(x.trade_quantity), "trade quantity written");
    ensure_eq!(j["cumulative_trade_quantity"].as_u64(), x.cumulative_trade_quantity, "cumulative quantity written");
    let tt: Option<TradeType> = serde_json::from_value(j["trade_type"].take()).must("trade type")?;
    ensure_eq!(tt, x.trade_type, "trade type written");
    common(&mut j, "trade with quote", id, t, u, cut, lp, ask, bid)
}
#[allow(clippy::too_many_arguments)]
fn common(j: &mut serde_json::Value, what: &str, id: InstId, t: u64, u: u64, cut: usize, lp: Option<u64>, ask: &[LevelSnapshot], bid: &[LevelSnapshot]) -> R {
    let i: InstId = serde_json::from_value(j["id"].take()).must("id")?;
    ensure!(i == id, "{what}: {i:?} written for {id:?}");
    let ts: TimeStamp = serde_json::from_value(j["timestamp"].take()).must("time stamp")?;
    let us: TimeStamp = serde_json::from_value(j["system_timestamp"].take()).must("system time stamp")?;
    ensure_eq!((ts.stamp, us.stamp), (t, u), "{what}: times written");
    ensure_eq!(j["quote_level_cut"].as_u64(), Some(cut as u64), "{what}: level cut written");
    ensure_eq!(j["all_lp_holdings"].as_u64(), lp, "{what}: holdings written");
    for (k, v) in [("ask_quote_data", ask), ("bid_quote_data", bid)] {
        let w: Vec<LevelSnapshot> = serde_json::from_value(j[k].take()).must("levels")?;
        ensure_eq!(w.iter().map(fields).collect::<Vec<_>>(), v.iter().map(fields).collect::<Vec<_>>(), "{what}: {k} written");
    }
    Ok(())
}
fn formats(s: &mut Src, c: &mut Ctx) -> R {
    let signed = s.bool();
    let unused = s.usize(0, 3);
    let int = s.usize(1, 12);
    let dl = if s.bool() { 0 } else { s.usize(2, 6) };
    let norm = if s.bool() { Some(s.int(0, 6) as i32) } else { None };
    let cfg = NumReprCfg { digit_length: int, decimal_point_length: dl, is_signed: signed, unused_length: unused, total_length: int + dl + unused + signed as usize, float_normalizer: norm, drop_decimal_point: s.chance(1, 4) };
    let mut t: String = String::new();
    if signed {
        t.push(if s.bool() { '-' } else { '0' });
    }
    t += &"0".repeat(unused);
    t += &s.digits(int);
    if dl > 0 {
        t.push('.');
        t += &s.digits(dl - 1);
    }
    c.note(format!("{cfg:?} {t}"));
    let mut b = t.clone().into_bytes();
    b.extend([b'7'; 20]);
    same("layout", &cfg)?;
    let x = IntegerConverter::new(cfg).must("converter")?;
    let v = x.to_i64(&b);
    c.nontrivial(v != 0 && dl > 0);
    // a converter is read from its layout
    let y: IntegerConverter = serde_json::from_value(serde_json::to_value(cfg).must("layout as JSON")?).must("converter from its layout")?;
    let z = back("converter", &x)?;
    for (what, y) in [("read from its layout", &y), ("read back", &z)] {
        ensure_eq!(y.get_config(), &cfg, "layout of the converter {what}");
        ensure_eq!(y.to_i64(&b), v, "{t:?} by the converter {what}");
        ensure_eq!(y.normalized_real_from_i64(v).to_bits(), x.normalized_real_from_i64(v).to_bits(), "{v} normalised by the converter {what}");
    }
    let u = x.to_u64(&b);
    let o = back("order converter", &OrderConverter { price: x.clone(), quantity: y })?;
    ensure_eq!((o.to_book_price(&b), o.to_book_quantity(&b)), (v, u), "{t:?} by the order converter read back");
    let o = back("yield converter", &YieldConverter { converter: x.clone() })?;
    ensure_eq!(o.to_yield(&b), v, "{t:?} by the yield converter read back");
    let o = back("cumulative quantity converter", &CumQntConverter { converter: x.clone() })?;
    ensure_eq!(o.to_cum_qnt(&b), u, "{t:?} by the cumulative quantity converter read back");
    let n = t.len().min(10);
    if t.len() <= 10 && u <= u32::MAX as u64 {
        let o = back("order counter", &OrderCounter { order_count: x.clone() })?;
        ensure_eq!(o.to_order_count(&b[..n]) as u64, u, "{t:?} by the order counter read back");
    }
    // a time of day at an offset
    let off = s.draw(24) * 3_600_000_000_000;
    let k = TimeStampConverter::new(x.clone(), off);
    let l = back("time converter", &k)?;
    let day = format!("{:02}{:02}{:02}{:06}", s.draw(24), s.draw(60), s.draw(60), s.draw(1_000_000)).into_bytes();
    let mut day8 = day.clone();
    day8.extend([b'3'; 8]);
    let mut g1 = DateUnixNanoGenerator::default();
    let mut g2 = DateUnixNanoGenerator::default();
    let a = k.parse_hhmmssuuuuuu(&day8, None, &mut g1).must("time")?;
    let e = l.parse_hhmmssuuuuuu(&day8, None, &mut g2).must("time by the converter read back")?;
    ensure_eq!(a.stamp, e.stamp, "{:?} by the time converter read back", String::from_utf8_lossy(&day));
    let text: String = (0..s.usize(0, 12)).map(|_| *s.pick(&['a', '"', '\\', '한', '\n', ' ', '\u{0}', '1'])).collect();
    let w = text.clone();
    let lazy = LazyString::new(move || w.clone());
    let r = back("lazy text", &lazy)?;
    ensure_eq!(r.as_str(), text, "lazy text read back");
    ensure_eq!(lazy.as_str(), text, "lazy text");
    Ok(())
}
fn inst_map(_: &mut Src, c: &mut Ctx) -> R {
    c.nontrivial(true);
    let mut map = BaseInstMap::new();
    map.insert(inst(1), BaseInstInfo::new(InstType::Stock, Currency::KRW));
    let j = match serde_json::to_string(&map) {
        Ok(j) => j,
        Err(e) => fail!("an instrument map cannot be written: {e}"),
    };
    let b: BaseInstMap = serde_json::from_str(&j).must("read back")?;
    ensure!(b == map, "read back as {b:?}");
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "K08",
        facets: vec![
            facet("orders", "two or more kinds of messages, a negative price", 160000, 4800000, orders),
            facet("values", "levels that differ, or an instrument described twice", 40000, 1200000, values),
            facet("snapshots", "levels cut, holdings present", 60000, 1800000, snapshots),
            facet("formats", "a number with decimals that is not zero", 200000, 6000000, formats),
            probe("inst-map", "the one case", inst_map),
        ],
        assumptions: &["JSON through serde_json"],
    }]
}
