//! B01-B04: the order book against a list-of-orders reference model.
use std::collections::BTreeMap;
use trading_engine::data::order::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::orderbook::half_book::HalfBook;
use trading_engine::orderbook::OrderBook;
use trading_engine::types::base::{LevelSnapshot, TradeHistory};
use trading_engine::types::enums::OrderSide;
use trading_engine::types::id::isin_code::IsinCode;
use trading_engine::types::id::{InstId, Symbol};
use trading_engine::types::venue::Venue;
use vf::*;

#[derive(Clone, Copy, Debug, PartialEq)]
struct Rest {
    price: i64,
    id: u64,
    qty: u64,
}
/// reference half book: the resting orders in arrival order, nothing else
#[derive(Clone, Debug, Default)]
struct MSide {
    ask: bool,
    o: Vec<Rest>,
}
impl MSide {
    fn best(&self) -> Option<i64> {
        if self.ask { self.o.iter().map(|r| r.price).min() } else { self.o.iter().map(|r| r.price).max() }
    }
    fn levels(&self) -> BTreeMap<i64, u64> {
        let mut m = BTreeMap::new();
        for r in &self.o {
            *m.entry(r.price).or_insert(0) += r.qty;
        }
        m
    }
    fn total(&self) -> u64 {
        self.o.iter().map(|r| r.qty).sum()
    }
    fn pos(&self, id: u64) -> Option<usize> {
        self.o.iter().position(|r| r.id == id)
    }
    /// index of the order with the highest priority
    fn front(&self) -> Option<usize> {
        let b = self.best()?;
        self.o.iter().position(|r| r.price == b)
    }
    /// trade up to qty against this side; limit = worst acceptable price.  Returns executions per price.
    fn trade(&mut self, mut qty: u64, limit: Option<i64>) -> (Vec<(i64, u64)>, u64, usize) {
        let mut h: Vec<(i64, u64)> = vec![];
        let mut fills = 0;
        while qty > 0 {
            let Some(i) = self.front() else { break };
            let p = self.o[i].price;
            if let Some(l) = limit {
                if (self.ask && p > l) || (!self.ask && p < l) {
                    break;
                }
            }
            let t = qty.min(self.o[i].qty);
            qty -= t;
            self.o[i].qty -= t;
            fills += 1;
            if self.o[i].qty == 0 {
                self.o.remove(i);
            }
            match h.last_mut() {
                Some(l) if l.0 == p => l.1 += t,
                _ => h.push((p, t)),
            }
        }
        (h, qty, fills)
    }
    fn remove_any(&mut self, price: i64, mut qty: u64) -> u64 {
        while qty > 0 {
            let Some(i) = self.o.iter().rposition(|r| r.price == price) else { break };
            let t = qty.min(self.o[i].qty);
            qty -= t;
            self.o[i].qty -= t;
            if self.o[i].qty == 0 {
                self.o.remove(i);
            }
        }
        qty
    }
}
#[derive(Clone, Debug)]
struct Model {
    s: [MSide; 2],
}
impl Model {
    fn new() -> Model {
        Model { s: [MSide { ask: true, o: vec![] }, MSide { ask: false, o: vec![] }] }
    }
    fn find(&self, id: u64) -> Option<(usize, usize)> {
        (0..2).find_map(|k| self.s[k].pos(id).map(|i| (k, i)))
    }
    fn ids(&self) -> Vec<u64> {
        self.s.iter().flat_map(|s| s.o.iter().map(|r| r.id)).collect()
    }
    fn limit(&mut self, k: usize, price: i64, qty: u64, id: u64) -> (Option<(Vec<(i64, u64)>, u64)>, usize) {
        let (h, rem, fills) = self.s[1 - k].trade(qty, Some(price));
        if rem > 0 {
            self.s[k].o.push(Rest { price, id, qty: rem });
        }
        if h.is_empty() { (None, 0) } else { (Some((h, rem)), fills) }
    }
}
fn side(k: usize) -> OrderSide {
    if k == 0 { OrderSide::Ask } else { OrderSide::Bid }
}
fn half(b: &OrderBook, k: usize) -> &HalfBook {
    if k == 0 { &b.asks } else { &b.bids }
}
pub fn inst(n: u64) -> InstId {
    let s = format!("KR{:010}", n % 10_000_000_000);
    InstId::new(Symbol::Isin(IsinCode::new(s.as_bytes()).unwrap()), Venue::KRX)
}
fn hist(h: &TradeHistory) -> Vec<(i64, u64)> {
    (0..h.len()).map(|i| h[i]).collect()
}

#[derive(Clone, Debug)]
enum Op {
    Limit(usize, i64, u64),
    Add(usize, i64, u64),
    Market(usize, u64),
    Cancel(u64),
    Reduce(usize, i64, u64),
    Amend(u64, i64, u64),
    Chg(u64, u64),
}

struct Gen {
    centre: i64,
    width: i64,
    big: bool,
    /// orders of quantity zero, which never rest
    zero: bool,
    next_id: u64,
    stride: u64,
    /// orders up to the size of the whole other side
    sweep: bool,
}
impl Gen {
    fn new(s: &mut Src) -> Gen {
        let centre = match s.weighted(&[6, 2, 1, 1]) {
            0 => 1000,
            1 => 0,
            2 => -5000,
            _ => match s.weighted(&[4, 1, 1]) {
                0 => s.int(-1_000_000_000, 1_000_000_000),
                1 => i64::MAX - s.int(0, 3), // prices up to the largest and the smallest one there is
                _ => i64::MIN + s.int(0, 3),
            },
        };
        let width = match s.weighted(&[5, 3, 1]) {
            0 => 4,
            1 => 12,
            _ => 1_000_000,
        };
        let big = s.chance(1, 6);
        let next_id = match s.weighted(&[4, 1, 1]) {
            0 => 1,
            1 => 0,
            _ => s.int(0, i64::MAX / 2) as u64,
        };
        let stride = *s.pick(&[1, 1, 7, 1_000_003]);
        let zero = s.chance(1, 4);
        Gen { centre, width, big, zero, next_id, stride, sweep: false }
    }
    fn qty(&self, s: &mut Src) -> u64 {
        if self.zero && s.chance(1, 8) {
            return 0;
        }
        if self.big { s.edgy(1, 1_000_000_000) as u64 } else { s.int(1, 6) as u64 }
    }
    fn price(&self, s: &mut Src) -> i64 {
        self.centre.saturating_add(s.int(-self.width, self.width))
    }
    /// a price that is often one already in the book
    fn price_near(&self, s: &mut Src, m: &Model) -> i64 {
        if s.chance(1, 2) {
            let ps: Vec<i64> = m.s.iter().flat_map(|x| x.o.iter().map(|r| r.price)).collect();
            if !ps.is_empty() {
                return s.pick(&ps).saturating_add(*s.pick(&[0, 0, 0, 1, -1]));
            }
        }
        self.price(s)
    }
    fn id(&self, s: &mut Src, m: &Model) -> u64 {
        let ids = m.ids();
        if ids.is_empty() || s.chance(1, 8) {
            // unknown: either never used or already gone
            if s.bool() { self.next_id.wrapping_add(1_000_000_007) } else { self.next_id.wrapping_sub(self.stride * s.int(1, 6) as u64) }
        } else {
            *s.pick(&ids)
        }
    }
    fn op(&mut self, s: &mut Src, m: &Model) -> Op {
        match s.weighted(&[10, 3, 3, 3, 2, 3, 2]) {
            0 => {
                let k = s.usize(0, 1);
                if self.sweep && s.bool() {
                    let p = self.centre + if k == 0 { -s.int(0, self.width) } else { s.int(0, self.width) };
                    return Op::Limit(k, p, s.int(1, m.s[1 - k].total().max(1) as i64) as u64);
                }
                Op::Limit(k, self.price_near(s, m), self.qty(s))
            }
            1 => {
                let k = s.usize(0, 1);
                let mut p = self.price_near(s, m);
                // plain add does no matching, so it must not cross
                if let Some(b) = m.s[1 - k].best() {
                    if k == 0 && p <= b { p = b.saturating_add(1 + s.int(0, 2)) }
                    if k == 1 && p >= b { p = b.saturating_sub(1 + s.int(0, 2)) }
                    if p == b {
                        return Op::Limit(k, p, self.qty(s)); // no price left that does not cross
                    }
                }
                Op::Add(k, p, self.qty(s))
            }
            2 => {
                let k = s.usize(0, 1);
                let tot = m.s[1 - k].total();
                let q = match s.weighted(&[4, 1, 1, 1, if self.sweep { 6 } else { 0 }]) {
                    0 => self.qty(s),
                    1 => tot.max(1),
                    2 => tot + s.int(1, 3) as u64,
                    4 => s.int(1, tot.max(1) as i64) as u64,
                    _ => m.s[1 - k].front().map(|i| m.s[1 - k].o[i].qty).unwrap_or(1),
                };
                Op::Market(k, q)
            }
            3 => Op::Cancel(self.id(s, m)),
            4 => {
                let k = s.usize(0, 1);
                let p = self.price_near(s, m);
                let at = m.s[k].levels().get(&p).copied().unwrap_or(0);
                let q = match s.weighted(&[4, 2, 1]) {
                    0 => self.qty(s),
                    1 => at.max(1),
                    _ => at + 1,
                };
                Op::Reduce(k, p, q)
            }
            5 => {
                let id = self.id(s, m);
                let p = match m.find(id) {
                    Some((k, i)) if s.chance(1, 3) => m.s[k].o[i].price,
                    _ => self.price_near(s, m),
                };
                Op::Amend(id, p, self.qty(s))
            }
            _ => {
                let id = self.id(s, m);
                let q = if s.chance(1, 6) { 0 } else { self.qty(s) };
                Op::Chg(id, q)
            }
        }
    }
}

/// a book of many levels and of many orders at a level: (orders of the fullest level, levels of the deepest side)
fn bulk(s: &mut Src, b: &mut OrderBook, m: &mut Model, g: &mut Gen, t: &mut Tally) -> R<(usize, usize)> {
    let (mut most, mut deep) = (0, 0);
    g.centre = s.int(-2, 2) * 500;
    g.sweep = true;
    let mut far = 1;
    for k in 0..2 {
        let (levels, per) = match s.weighted(&[3, 3, 3, 1]) {
            0 => (s.usize(1, 3), s.usize(40, 300)),
            1 => (s.usize(20, 250), 1),
            2 => (s.usize(5, 60), s.usize(2, 8)),
            _ => (s.usize(0, 2), 1),
        };
        let step = s.int(1, 3);
        far = far.max(levels as i64 * step);
        let mut at: Vec<i64> = (0..levels as i64).flat_map(|i| vec![i * step + 1; per]).collect();
        s.shuffle(&mut at);
        for d in at {
            let p = if k == 0 { g.centre + d } else { g.centre - d };
            apply(b, m, &Op::Add(k, p, g.qty(s).max(1)), g, t, true)?;
        }
        most = most.max(if levels > 0 { per } else { 0 });
        deep = deep.max(levels);
    }
    g.width = far + 1;
    Ok((most, deep))
}
/// the many orders of a deep book, one in a few of them looked up
fn some_ids(s: &mut Src, all: &[u64], n: usize) -> Vec<u64> {
    if all.is_empty() { vec![] } else { (0..n).map(|_| *s.pick(all)).collect() }
}
fn b01_deep(s: &mut Src, c: &mut Ctx) -> R {
    let mut b = OrderBook::initialize_with_id(inst(1));
    let (mut m, mut g) = (Model::new(), Gen::new(s));
    let mut t = Tally { submitted: 0, traded: 0, cancelled: 0 };
    let (most, deep) = bulk(s, &mut b, &mut m, &mut g, &mut t)?;
    c.note(format!("up to {most} orders at a level, {deep} levels"));
    let (mut n, mut best) = (0, 0);
    while s.more(&mut n, 8, 30) {
        let op = g.op(s, &m);
        c.note(format!("{op:?}"));
        best = best.max(apply(&mut b, &mut m, &op, &mut g, &mut t, true)?);
        let rest: u128 = m.s.iter().map(|x| x.total() as u128).sum();
        let real: u128 = b.asks.aggregate_quantity() as u128 + b.bids.aggregate_quantity() as u128;
        ensure_eq!(real, rest, "quantity resting after {:?}", op);
        ensure_eq!(t.traded + t.cancelled + real, t.submitted, "traded + cancelled + resting against submitted after {:?}", op);
    }
    check_orders(&b, &m, &"all of it")?;
    c.nontrivial(best >= 20);
    Ok(())
}
fn b02_deep(s: &mut Src, c: &mut Ctx) -> R {
    let mut b = OrderBook::initialize_with_id(inst(1));
    let (mut m, mut g) = (Model::new(), Gen::new(s));
    let mut t = Tally { submitted: 0, traded: 0, cancelled: 0 };
    let first = g.next_id;
    let (most, deep) = bulk(s, &mut b, &mut m, &mut g, &mut t)?;
    let mut seen = m.ids();
    c.note(format!("ids from {first}: up to {most} orders at a level, {deep} levels"));
    let (mut n, mut best) = (0, 0);
    while s.more(&mut n, 6, 25) {
        let op = g.op(s, &m);
        c.note(format!("{op:?}"));
        if matches!(op, Op::Limit(..) | Op::Add(..)) {
            seen.push(g.next_id);
        }
        best = best.max(apply(&mut b, &mut m, &op, &mut g, &mut t, false)?);
        let some = some_ids(s, &seen, 12);
        for k in 0..2 {
            check_half(half(&b, k), &m.s[k], &some, &op)?;
        }
    }
    for k in 0..2 {
        check_half(half(&b, k), &m.s[k], &seen, &"all of it")?;
    }
    c.nontrivial(best >= 20);
    Ok(())
}

struct Tally {
    submitted: u128,
    /// counted twice (both sides of each trade)
    traded: u128,
    cancelled: u128,
}

/// apply op to both; check the reports; returns number of resting orders filled
fn apply(b: &mut OrderBook, m: &mut Model, op: &Op, g: &mut Gen, t: &mut Tally, reports: bool) -> R<usize> {
    let mut fills = 0;
    let report = |got: Option<(TradeHistory, u64)>, exp: Option<(Vec<(i64, u64)>, u64)>, t: &mut Tally| -> R {
        if !reports {
            return Ok(());
        }
        match (&got, &exp) {
            (None, None) => {}
            // nothing asked for, nothing traded
            (Some((h, 0)), _) if h.len() == 0 && matches!(op, Op::Limit(_, _, 0) | Op::Market(_, 0) | Op::Amend(_, _, 0)) => {}
            (None, Some((eh, 0))) if eh.is_empty() => {}
            (Some((h, rem)), Some((eh, erem))) => {
                ensure_eq!(hist(h), *eh, "executions of {:?} (price, quantity per price in order)", op);
                ensure_eq!(*rem, *erem, "remaining quantity of {:?}", op);
                let q: u64 = eh.iter().map(|x| x.1).sum();
                let v: i128 = eh.iter().map(|x| x.0 as i128 * x.1 as i128).sum();
                ensure_eq!(h.get_last_trade(), eh.last().copied(), "last trade of {:?}", op);
                let (avg, eavg) = (h.average_trade_price(), v as f64 / q as f64);
                ensure!((avg - eavg).abs() <= 1e-9 * eavg.abs().max(1.0), "average price of {:?}: {} expected {}", op, avg, eavg);
                t.traded += 2 * hist(h).iter().map(|x| x.1 as u128).sum::<u128>();
            }
            _ => fail!("report of {:?}: observed {:?}, expected {:?}", op, got, exp),
        }
        Ok(())
    };
    match *op {
        Op::Limit(k, p, q) => {
            let id = g.next_id;
            g.next_id = g.next_id.wrapping_add(g.stride);
            t.submitted += q as u128;
            let got = b.process_limit_order(LimitOrder::new(p, q, side(k), id));
            let (exp, f) = m.limit(k, p, q, id);
            fills = f;
            report(got, exp, t)?;
        }
        Op::Add(k, p, q) => {
            let id = g.next_id;
            g.next_id = g.next_id.wrapping_add(g.stride);
            t.submitted += q as u128;
            b.add_limit_order(LimitOrder::new(p, q, side(k), id)).must("add_limit_order")?;
            if q > 0 {
                m.s[k].o.push(Rest { price: p, id, qty: q });
            }
        }
        Op::Market(k, q) => {
            let got = b.process_market_order(&MarketOrder::new(q, side(k), u64::MAX));
            let empty = m.s[1 - k].o.is_empty();
            let (h, rem, f) = m.s[1 - k].trade(q, None);
            fills = f;
            t.submitted += (q - rem) as u128; // the unfilled part of a market order never rests
            report(got, if empty { None } else { Some((h, rem)) }, t)?;
        }
        Op::Cancel(id) => {
            let got = b.cancel_order(CancelOrder::new(id));
            let at = m.find(id);
            if let Some((k, i)) = at {
                t.cancelled += m.s[k].o.remove(i).qty as u128;
            }
            ensure_eq!(got.is_some(), at.is_some(), "whether cancelling {} found it", id);
        }
        Op::Reduce(k, p, q) => {
            let got = b.remove_order(RemoveAnyOrder::new(p, q, side(k)));
            let rem = m.s[k].remove_any(p, q);
            t.cancelled += (q - rem) as u128;
            ensure_eq!(got, Some(rem), "quantity not removed by {:?}", op);
        }
        Op::Amend(id, p, q) => {
            let got = b.modify_order(ModifyOrder::new(id, p, q));
            match m.find(id) {
                None => report(got, None, t)?,
                Some((k, i)) => {
                    t.cancelled += m.s[k].o[i].qty as u128;
                    t.submitted += q as u128;
                    if m.s[k].o[i].price == p {
                        m.s[k].o[i].qty = q;
                        if q == 0 {
                            m.s[k].o.remove(i);
                        }
                        report(got, None, t)?;
                    } else {
                        m.s[k].o.remove(i);
                        let (exp, f) = m.limit(k, p, q, id);
                        fills = f;
                        report(got, exp, t)?;
                    }
                }
            }
        }
        Op::Chg(id, q) => {
            let got = b.change_quantity(id, q);
            let at = m.find(id);
            if let Some((k, i)) = at {
                t.cancelled += m.s[k].o[i].qty as u128;
                t.submitted += q as u128;
                if q == 0 {
                    m.s[k].o.remove(i);
                } else {
                    m.s[k].o[i].qty = q;
                }
            }
            ensure_eq!(got.is_some(), at.is_some(), "whether changing the quantity of {} found it", id);
        }
    }
    Ok(fills)
}

fn check_orders(b: &OrderBook, m: &Model, after: &dyn std::fmt::Debug) -> R {
    for k in 0..2 {
        for r in &m.s[k].o {
            let o = half(b, k).get_order(r.id);
            let e = LimitOrder::new(r.price, r.qty, side(k), r.id);
            ensure_eq!(o, Some(e), "resting order {} after {:?}", r.id, after);
        }
    }
    Ok(())
}

/// full observable state of one side against the model
fn check_half(h: &HalfBook, m: &MSide, ids: &[u64], after: &dyn std::fmt::Debug) -> R {
    let lv = m.levels();
    let name = if m.ask { "ask" } else { "bid" };
    ensure_eq!(h.best_price, m.best().unwrap_or(if m.ask { i64::MAX } else { i64::MIN }), "best {} after {:?}", name, after);
    let snap: Vec<(i64, u64, Option<u32>)> = h.to_level_snapshot().iter().map(|l| (l.book_price, l.book_quantity, l.order_count)).collect();
    let exp: Vec<(i64, u64, Option<u32>)> =
        lv.iter().map(|(&p, &q)| (p, q, Some(m.o.iter().filter(|r| r.price == p).count() as u32))).collect();
    ensure_eq!(snap, exp, "{} levels (price, quantity, orders) after {:?}", name, after);
    ensure_eq!(h.aggregate_quantity(), m.total(), "{} total after {:?}", name, after);
    ensure_eq!(h.get_total_quantity(), m.total(), "{} total (get_total_quantity) after {:?}", name, after);
    ensure_eq!(h.len(), lv.len(), "{} number of levels after {:?}", name, after);
    ensure_eq!(h.is_empty(), lv.is_empty(), "{} is_empty after {:?}", name, after);
    ensure!(h.check_validity_quantity(), "{} totals do not add up after {:?}", name, after);
    for (&p, &q) in &lv {
        ensure_eq!(h.aggregate_quantity_at_price(p), q, "{} quantity at {} after {:?}", name, p, after);
        for d in [-1, 1] {
            let p = p.saturating_add(d);
            ensure_eq!(h.aggregate_quantity_at_price(p), lv.get(&p).copied().unwrap_or(0), "{} quantity at {} after {:?}", name, p, after);
        }
    }
    for &id in ids {
        let e = m.pos(id).map(|i| m.o[i]);
        let g = match no_panic(|| h.get_order(id)) {
            Ok(g) => g,
            Err(p) => fail!("looking up order {} on the {} side after {:?} panics: {}", id, name, after, p),
        };
        ensure_eq!(g.as_ref().map(|o| (o.price, o.quantity, o.order_id)), e.map(|r| (r.price, r.qty, r.id)), "{} lookup of order {} after {:?}", name, id, after);
        ensure_eq!(h.get_price(id), e.map(|r| r.price), "{} price lookup of order {} after {:?}", name, id, after);
    }
    Ok(())
}

fn ops_len(s: &mut Src, c: &Ctx) -> (u64, usize) {
    if c.thorough && s.chance(1, 10) { (60, 250) } else { (18, 60) }
}

fn b01(s: &mut Src, c: &mut Ctx) -> R {
    let mut b = OrderBook::initialize_with_id(inst(1));
    let mut m = Model::new();
    let mut g = Gen::new(s);
    let mut t = Tally { submitted: 0, traded: 0, cancelled: 0 };
    let (avg, max) = ops_len(s, c);
    let (mut n, mut multi, mut trades) = (0, false, 0);
    while s.more(&mut n, avg, max) {
        let op = g.op(s, &m);
        c.note(format!("{op:?}"));
        let f = apply(&mut b, &mut m, &op, &mut g, &mut t, true)?;
        trades += f;
        multi |= f >= 2;
        check_orders(&b, &m, &op)?;
        let rest: u128 = m.s.iter().map(|x| x.total() as u128).sum();
        let real: u128 = b.asks.aggregate_quantity() as u128 + b.bids.aggregate_quantity() as u128;
        ensure_eq!(real, rest, "quantity resting after {:?}", op);
        // both sides of a trade count; a market order counts its filled part as submitted
        ensure_eq!(t.traded + t.cancelled + real, t.submitted, "traded + cancelled + resting against submitted after {:?}", op);
    }
    c.nontrivial(multi && trades >= 3);
    // drain one order at a time: queue priority of everything left
    for k in 0..2 {
        while let Some(i) = m.s[k].front() {
            let r = m.s[k].o[i];
            let q1 = if r.qty > 1 && s.bool() { 1 } else { r.qty };
            let mut first = true;
            for q in [q1, r.qty - q1] {
                if q == 0 {
                    continue;
                }
                let got = b.process_market_order(&MarketOrder::new(q, side(1 - k), 0));
                let Some((h, rem)) = got else { fail!("draining {:?}: no trade", r) };
                ensure_eq!((hist(&h), rem), (vec![(r.price, q)], 0), "draining order {:?}", r);
                let left = half(&b, k).get_order(r.id).map(|o| o.quantity);
                let e = if first && q1 < r.qty { Some(r.qty - q1) } else { None };
                ensure_eq!(left, e, "order {:?} (first in priority) after trading {} of it", r, q);
                first = false;
            }
            m.s[k].o.remove(i);
        }
        ensure!(half(&b, k).is_empty(), "side not empty after draining");
    }
    Ok(())
}
fn b02(s: &mut Src, c: &mut Ctx) -> R {
    let mut b = OrderBook::initialize_with_id(inst(1));
    let mut m = Model::new();
    let mut g = Gen::new(s);
    let mut t = Tally { submitted: 0, traded: 0, cancelled: 0 };
    let (avg, max) = ops_len(s, c);
    let mut seen: Vec<u64> = vec![];
    let (mut n, mut removed_best, mut unknown) = (0, 0, 0);
    while s.more(&mut n, avg, max) {
        let op = g.op(s, &m);
        c.note(format!("{op:?}"));
        let before = [m.s[0].best(), m.s[1].best()];
        if matches!(op, Op::Limit(..) | Op::Add(..)) {
            seen.push(g.next_id);
        }
        if let Op::Cancel(id) | Op::Amend(id, ..) | Op::Chg(id, _) = op {
            if !seen.contains(&id) {
                seen.push(id);
            }
            unknown += m.find(id).is_none() as u32;
        }
        apply(&mut b, &mut m, &op, &mut g, &mut t, false)?;
        removed_best += ((before[0].is_some() && m.s[0].best() > before[0]) || (before[1].is_some() && m.s[1].best() < before[1])) as u32;
        for k in 0..2 {
            check_half(half(&b, k), &m.s[k], &seen, &op)?;
        }
        ensure!(b.check_validity_quantity(), "book totals after {:?}", op);
        let snap = |v: Vec<LevelSnapshot>| v.iter().map(|l| (l.book_price, l.book_quantity)).collect::<Vec<_>>();
        ensure_eq!(snap(b.ask_level_snapshot()), m.s[0].levels().into_iter().collect::<Vec<_>>(), "ask depth view after {:?}", op);
        ensure_eq!(snap(b.bid_level_snapshot()), m.s[1].levels().into_iter().collect::<Vec<_>>(), "bid depth view after {:?}", op);
    }
    c.nontrivial(removed_best >= 2 && unknown >= 1);
    // two books with the same orders have equal depth; one differing order makes them differ
    let mut b2 = OrderBook::initialize_with_id(inst(2));
    for k in 0..2 {
        for r in m.s[k].o.iter().rev() {
            b2.add_limit_order(LimitOrder::new(r.price, r.qty, side(k), r.id)).must("add")?;
        }
    }
    ensure!(b.eq_level(&b2) && b2.eq_level(&b), "eq_level is false for equal depth");
    let k = s.usize(0, 1);
    if !m.s[k].o.is_empty() {
        let r = *s.pick(&m.s[k].o.clone());
        b2.remove_order(RemoveAnyOrder::new(r.price, 1, side(k)));
        let away = if r.price > 0 { -1 } else { 1 };
        let o = r.price + away * s.int(0, 1);
        if o != r.price || s.bool() {
            b2.add_limit_order(LimitOrder::new(o + away, 1, side(k), 1u64 << 60)).must("add")?;
        }
        ensure!(!b.eq_level(&b2) && !b2.eq_level(&b), "eq_level is true for different depth");
    }
    Ok(())
}

/// direct use of one side, including price moves that bypass matching
fn b02_half(s: &mut Src, c: &mut Ctx) -> R {
    let k = s.usize(0, 1);
    let mut m = MSide { ask: k == 0, o: vec![] };
    let mut h = HalfBook::initialize(side(k));
    let mut next = 1u64;
    if s.chance(1, 6) {
        let (p, q) = (s.int(-3, 3), s.int(1, 5) as u64);
        h = HalfBook::initialize_with_limit_order(LimitOrder::new(p, q, side(k), 0));
        m.o.push(Rest { price: p, id: 0, qty: q });
        c.note(format!("start with {p}x{q}"));
    }
    let mut seen: Vec<u64> = vec![0];
    let (mut n, mut moved) = (0, 0);
    while s.more(&mut n, 16, 50) {
        let pick_id = |s: &mut Src, m: &MSide| if m.o.is_empty() || s.chance(1, 8) { next + 5 } else { m.o[s.draw(m.o.len() as u64) as usize].id };
        let what = s.weighted(&[8, 3, 3, 3, 3, 3, 3, 1, 1]);
        let txt;
        match what {
            0 => {
                let (p, q) = (s.int(-4, 4), s.int(1, 5) as u64);
                txt = format!("add {p}x{q}");
                h.add_limit_order(LimitOrder::new(p, q, side(k), next)).must(&txt)?;
                m.o.push(Rest { price: p, id: next, qty: q });
                seen.push(next);
                next += 1;
            }
            1 => {
                let id = pick_id(s, &m);
                txt = format!("cancel {id}");
                let at = m.pos(id);
                ensure_eq!(h.cancel_order(id).is_some(), at.is_some(), "{} found", txt);
                if let Some(i) = at {
                    m.o.remove(i);
                }
            }
            2 => {
                let (id, p) = (pick_id(s, &m), s.int(-4, 4));
                txt = format!("move {id} to {p}");
                let at = m.pos(id);
                ensure_eq!(h.change_price(id, p).is_some(), at.is_some(), "{} found", txt);
                if let Some(i) = at {
                    let r = m.o.remove(i);
                    m.o.push(Rest { price: p, ..r });
                    moved += 1;
                }
            }
            3 => {
                let (id, q) = (pick_id(s, &m), s.int(0, 5) as u64);
                txt = format!("resize {id} to {q}");
                let at = m.pos(id);
                ensure_eq!(h.change_quantity(id, q).is_some(), at.is_some(), "{} found", txt);
                if let Some(i) = at {
                    m.o[i].qty = q;
                    if q == 0 {
                        m.o.remove(i);
                    }
                }
            }
            4 => {
                let (p, q) = (s.int(-4, 4), s.int(1, 8) as u64);
                txt = format!("reduce {p} by {q}");
                let rem = m.remove_any(p, q);
                ensure_eq!(h.remove_order(RemoveAnyOrder::new(p, q, side(k))), Some(rem), "{}", txt);
            }
            5 => {
                let q = s.int(1, 12) as u64;
                txt = format!("market {q}");
                let exp = if m.o.is_empty() { None } else { let (h, r, _) = m.trade(q, None); Some((h, r)) };
                ensure_eq!(h.trade_market_order(&MarketOrder::new(q, side(1 - k), 0)).map(|(h, r)| (hist(&h), r)), exp, "{}", txt);
            }
            6 => {
                let (p, q) = (s.int(-4, 4), s.int(1, 12) as u64);
                txt = format!("limit {p}x{q}");
                let (eh, er, _) = m.trade(q, Some(p));
                let exp = if eh.is_empty() { None } else { Some((eh, er)) };
                ensure_eq!(h.trade_limit_order(&LimitOrder::new(p, q, side(1 - k), 0)).map(|(h, r)| (hist(&h), r)), exp, "{}", txt);
            }
            7 => {
                let q = s.int(1, 12) as u64;
                txt = "requests of the wrong side".to_string();
                ensure!(h.trade_market_order(&MarketOrder::new(q, side(k), 0)).is_none(), "market order of its own side traded");
                ensure!(h.trade_limit_order(&LimitOrder::new(0, q, side(k), 0)).is_none(), "limit order of its own side traded");
                ensure!(h.add_limit_order(LimitOrder::new(0, q, side(1 - k), next + 9)).is_err(), "order of the other side was added");
                ensure!(h.remove_order(RemoveAnyOrder::new(0, q, side(1 - k))).is_none(), "reduction of the other side was applied");
            }
            _ => {
                txt = "clear".to_string();
                h.clear();
                m.o.clear();
            }
        }
        c.note(&txt);
        check_half(&h, &m, &seen, &txt)?;
    }
    c.nontrivial(moved >= 1 && n >= 8);
    // queue order
    while let Some(i) = m.front() {
        let r = m.o.remove(i);
        let got = h.trade_market_order(&MarketOrder::new(r.qty, side(1 - k), 0)).map(|(h, x)| (hist(&h), x));
        ensure_eq!(got, Some((vec![(r.price, r.qty)], 0)), "drain {:?}", r);
        ensure!(h.get_order(r.id).is_none(), "order {:?} should have been the first in priority", r);
    }
    Ok(())
}

// ------------------------------------------------------------------ depth snapshots
type Depth = [BTreeMap<i64, u64>; 2];
fn snap_levels(s: &mut Src, d: &BTreeMap<i64, u64>, ask: bool, shown: usize) -> Vec<LevelSnapshot> {
    let mut v: Vec<(i64, u64)> = d.iter().map(|(&p, &q)| (p, q)).collect();
    if !ask {
        v.reverse();
    }
    v.resize(shown.max(v.len()), (0, 0)); // the exchange pads missing levels with zeros
    if s.chance(1, 8) {
        s.shuffle(&mut v);
    }
    if s.chance(1, 6) {
        // a level with nothing in it, anywhere, sometimes at a price of its own
        let p = if s.bool() { 0 } else { 990 + s.int(0, 20) };
        if !d.contains_key(&p) {
            v.insert(s.usize(0, v.len()), (p, 0));
        }
    }
    v.iter()
        .map(|&(p, q)| LevelSnapshot { order_count: if q > 0 { Some(1 + (q % 7) as u32) } else { Some(0) }, book_price: p, book_quantity: q, lp_quantity: None })
        .collect()
}
fn gen_depth(s: &mut Src, prev: &Depth, mid: &mut i64, span: i64) -> Depth {
    let mut d: Depth = [BTreeMap::new(), BTreeMap::new()];
    if s.chance(1, 6) {
        *mid += s.int(-6, 6);
    }
    for k in 0..2 {
        let n = if s.chance(1, 12) { 0 } else { s.usize(1, span as usize) };
        if s.chance(2, 3) && !prev[k].is_empty() {
            d[k] = prev[k].clone();
            let mut e = 0;
            while s.more(&mut e, 3.max(span as u64 / 8), 5.max(span as usize / 4)) {
                let p = if s.bool() && !d[k].is_empty() { *s.pick(&d[k].keys().copied().collect::<Vec<_>>()) } else { *mid + if k == 0 { s.int(1, span) } else { -s.int(1, span) } };
                match s.weighted(&[2, 1, 1]) {
                    0 => {
                        d[k].insert(p, s.int(1, 9) as u64);
                    }
                    1 => {
                        d[k].remove(&p);
                    }
                    _ => {
                        d[k].insert(p, s.edgy(1, 1_000_000_000) as u64);
                    }
                }
            }
            // keep the two sides uncrossed and no more levels than are shown
            d[k].retain(|&p, _| if k == 0 { p > *mid } else { p < *mid });
            while d[k].len() > span as usize {
                if k == 0 { d[k].pop_last(); } else { d[k].pop_first(); }
            }
        } else {
            for _ in 0..n {
                let p = *mid + if k == 0 { s.int(1, span) } else { -s.int(1, span) };
                d[k].insert(p, s.int(1, 9) as u64);
            }
        }
    }
    d
}
fn check_depth(b: &OrderBook, d: &Depth, what: &str) -> R {
    for k in 0..2 {
        let h = half(b, k);
        let name = ["ask", "bid"][k];
        let got: Vec<(i64, u64)> = h.to_level_snapshot().iter().map(|l| (l.book_price, l.book_quantity)).collect();
        ensure_eq!(got, d[k].iter().map(|(&p, &q)| (p, q)).collect::<Vec<_>>(), "{} depth {}", name, what);
        let best = if k == 0 { d[k].keys().next().copied().unwrap_or(i64::MAX) } else { d[k].keys().next_back().copied().unwrap_or(i64::MIN) };
        ensure_eq!(h.best_price, best, "best {} {}", name, what);
        ensure_eq!(h.aggregate_quantity(), d[k].values().sum::<u64>(), "{} total {}", name, what);
        for (&p, &q) in &d[k] {
            ensure_eq!(h.aggregate_quantity_at_price(p), q, "{} quantity at {} {}", name, p, what);
        }
        ensure!(h.check_validity_quantity(), "{} totals do not add up {}", name, what);
        ensure_eq!(h.len(), d[k].len(), "{} number of levels {}", name, what);
        for (&id, &p) in &h.cache {
            let o = match no_panic(|| h.get_order(id)) {
                Ok(Some(o)) => o,
                x => fail!("{} order {} at {} {}: {:?}", name, id, p, what, x),
            };
            ensure_eq!((o.order_id, o.price), (id, p), "{} order {} {}", name, id, what);
            ensure!(o.quantity > 0, "{} order {} has no quantity {}", name, id, what);
            if k == 0 {
                ensure!(!b.bids.cache.contains_key(&id), "order id {} rests on both sides {}", id, what);
            }
        }
    }
    Ok(())
}
fn show(d: &Depth) -> String {
    format!("asks {:?} bids {:?}", d[0], d[1])
}

fn b03(s: &mut Src, c: &mut Ctx) -> R {
    let id = inst(s.int(1, 5) as u64);
    let mut b = OrderBook::initialize_with_id(id);
    let mut d: Depth = [BTreeMap::new(), BTreeMap::new()];
    let mut mid = if s.chance(1, 4) { s.int(-3, 3) } else { 1000 };
    // most venues show ten levels, some show the whole book
    let span = if s.chance(1, 25) { s.int(11, 120) } else { 10 };
    let (mut n, mut vanished, mut padded) = (0, 0, 0);
    while s.more(&mut n, 6, 20) {
        let what = s.weighted(&[6, 4, 1, 2]);
        if what == 3 {
            // a market order trades against the depth shown
            let k = s.usize(0, 1);
            let tot: u64 = d[1 - k].values().sum();
            let mut q = if s.bool() { s.int(1, 9) as u64 } else { (tot / 2).max(1) };
            c.note(format!("market {} {q}", ["sell", "buy"][k]));
            b.process_market_order(&MarketOrder::new(q, side(k), 0));
            while q > 0 && !d[1 - k].is_empty() {
                let mut e = if k == 1 { d[0].first_entry().unwrap() } else { d[1].last_entry().unwrap() };
                let t = q.min(*e.get());
                q -= t;
                *e.get_mut() -= t;
                if *e.get() == 0 {
                    e.remove();
                }
            }
            check_depth(&b, &d, "after a market order")?;
            continue;
        }
        let nd = gen_depth(s, &d, &mut mid, span);
        let shown = *s.pick(&[0usize, 5, 10]);
        let (mut a, mut bb) = (snap_levels(s, &nd[0], true, shown), snap_levels(s, &nd[1], false, shown));
        let len = a.len().max(bb.len());
        for v in [&mut a, &mut bb] {
            v.resize(len, LevelSnapshot::default());
        }
        padded += (a.iter().chain(&bb).any(|l| l.book_quantity == 0)) as u32;
        // levels beyond the cut are not part of the snapshot
        let extra = if s.chance(1, 4) { s.usize(1, 5) } else { 0 };
        for i in 0..extra {
            let junk = LevelSnapshot { order_count: None, book_price: mid + span + 10 + i as i64, book_quantity: 3, lp_quantity: None };
            a.push(junk);
            bb.push(LevelSnapshot { book_price: mid - span - 10 - i as i64, ..junk });
        }
        let refused = what == 2;
        let qid = if refused { inst(77) } else { id };
        let trade = s.bool();
        c.note(format!("{}{} {}{}", if trade { "trade+depth" } else { "depth" }, if refused { " of another instrument" } else { "" }, show(&nd), if extra > 0 { format!(" (+{extra} levels beyond the cut)") } else { String::new() }));
        let r = if trade {
            let mut q = TradeQuoteSnapshot::with_quote_level(len);
            q.id = qid;
            q.ask_quote_data = a;
            q.bid_quote_data = bb;
            q.trade_price = mid;
            q.trade_quantity = 1;
            b.update_from_trade_quote_snapshot(&q)
        } else {
            let mut q = QuoteSnapshot::with_quote_level(len);
            q.id = qid;
            q.ask_quote_data = a;
            q.bid_quote_data = bb;
            b.update_from_quote_snapshot(&q)
        };
        if refused {
            ensure!(r.is_err(), "a snapshot of another instrument was accepted");
            check_depth(&b, &d, "after a refused snapshot")?;
        } else {
            r.must("applying a snapshot")?;
            vanished += (0..2).any(|k| d[k].keys().any(|p| !nd[k].contains_key(p))) as u32;
            d = nd;
            check_depth(&b, &d, "after a snapshot")?;
        }
    }
    c.nontrivial(vanished >= 2 && padded >= 1);
    Ok(())
}

fn b04(s: &mut Src, c: &mut Ctx) -> R {
    let mut b = OrderBook::initialize_with_id(inst(3));
    let mut d: Depth = [BTreeMap::new(), BTreeMap::new()];
    let mut mid = 1000;
    let span = if s.chance(1, 25) { s.int(11, 120) } else { 10 };
    let (mut n, mut msgs_seen) = (0, [0u32; 2]);
    // a replica showing the same depth, possibly with several orders per price
    let mut rep = OrderBook::initialize_with_id(inst(3));
    let mut rid = 1u64 << 40;
    let mut used = std::collections::BTreeSet::new();
    while s.more(&mut n, 6, 20) {
        let nd = gen_depth(s, &d, &mut mid, span);
        let shown = *s.pick(&[0usize, 5, 10]);
        let (a, bb) = (snap_levels(s, &nd[0], true, shown), snap_levels(s, &nd[1], false, shown));
        c.note(show(&nd));
        if s.chance(1, 3) {
            rep = OrderBook::initialize_with_id(inst(3));
            for k in 0..2 {
                for (&p, &q) in &d[k] {
                    let cut = if q > 1 { s.int(0, q as i64 - 1) as u64 } else { 0 };
                    for x in [cut, q - cut] {
                        if x > 0 {
                            rid += 1;
                            rep.add_limit_order(LimitOrder::new(p, x, side(k), rid)).must("add")?;
                        }
                    }
                }
            }
        }
        let msgs = b.decomposed_orders_with_update(&a, &bb).must("decompose")?;
        check_depth(&b, &nd, "of the decomposing book")?;
        let mut changed: Vec<(usize, i64)> = vec![];
        for k in 0..2 {
            for p in d[k].keys().chain(nd[k].keys()) {
                if d[k].get(p) != nd[k].get(p) && !changed.contains(&(k, *p)) {
                    changed.push((k, *p));
                }
            }
        }
        let mut touched: Vec<(usize, i64)> = vec![];
        for m in &msgs {
            ensure_eq!(m.id, inst(3), "instrument of a message");
            match &m.order {
                OrderEnum::LimitOrder(o) => {
                    ensure!(o.quantity > 0, "message adds a zero quantity: {:?}", o);
                    touched.push(((o.order_side == OrderSide::Bid) as usize, o.price));
                    msgs_seen[0] += 1;
                    ensure!(used.insert(o.order_id), "message uses order id {} again: {:?}", o.order_id, o);
                    rep.add_limit_order(o.clone()).must("replay add")?;
                }
                OrderEnum::RemoveAnyOrder(o) => {
                    touched.push(((o.order_side == OrderSide::Bid) as usize, o.price));
                    msgs_seen[1] += 1;
                    let left = rep.remove_order(o.clone());
                    ensure_eq!(left, Some(0), "replaying {:?} leaves quantity unremoved", o);
                }
                o => fail!("unexpected message {:?}", o),
            }
        }
        check_depth(&rep, &nd, "of the replica after replaying the messages")?;
        changed.sort();
        touched.sort();
        ensure_eq!(touched, changed, "levels named by the messages (side, price)");
        d = nd;
    }
    c.nontrivial(msgs_seen[0] >= 2 && msgs_seen[1] >= 2);
    Ok(())
}

/// the rows of a printed table by column name; rows of dashes only are left out
fn table(text: &str) -> R<Vec<BTreeMap<String, String>>> {
    let cells = |l: &str| -> Vec<String> { l.split('|').map(|x| x.trim().to_string()).collect() };
    let mut lines = text.lines().filter(|l| !l.trim().is_empty());
    let Some(head) = lines.next().map(cells) else { fail!("nothing is printed") };
    let mut rows = vec![];
    for l in lines {
        if l.chars().all(|c| "-| ".contains(c)) {
            continue;
        }
        let c = cells(l);
        ensure_eq!(c.len(), head.len(), "cells of the row {l:?} under {head:?}");
        rows.push(head.iter().cloned().zip(c).collect());
    }
    Ok(rows)
}
/// (price, orders, quantity) of the rows that show a level of this side
fn shown(rows: &[BTreeMap<String, String>], ask: bool) -> R<Vec<(i64, usize, u64)>> {
    let n = if ask { "Ask" } else { "Bid" };
    let mut v = vec![];
    for r in rows {
        let cell = |k: &str| r.get(k).cloned().unwrap_or_default();
        let (c, q) = (cell(&format!("{n} Cnt")), cell(&format!("{n} Qty")));
        if c.is_empty() && q.is_empty() {
            continue;
        }
        match (cell("Price").parse(), c.parse(), q.parse()) {
            (Ok(p), Ok(c), Ok(q)) => v.push((p, c, q)),
            _ => fail!("unreadable row {r:?}"),
        }
    }
    Ok(v)
}
fn b05(s: &mut Src, c: &mut Ctx) -> R {
    let mut b = OrderBook::initialize_with_id(inst(1));
    let mut m = Model::new();
    let mut g = Gen::new(s);
    let mut t = Tally { submitted: 0, traded: 0, cancelled: 0 };
    let mut n = 0;
    if s.chance(1, 60) {
        let (most, deep) = bulk(s, &mut b, &mut m, &mut g, &mut t)?;
        c.note(format!("up to {most} orders at a level, {deep} levels"));
    }
    while s.more(&mut n, 12, 40) {
        let op = g.op(s, &m);
        c.note(format!("{op:?}"));
        apply(&mut b, &mut m, &op, &mut g, &mut t, false)?;
    }
    let best_first = |k: usize| -> Vec<(i64, usize, u64)> {
        let lv = m.s[k].levels();
        let v = lv.iter().map(|(&p, &q)| (p, m.s[k].o.iter().filter(|r| r.price == p).count(), q));
        if k == 0 { v.collect() } else { v.rev().collect() }
    };
    let all = [best_first(0), best_first(1)];
    let rows = table(&b.to_string())?;
    // the highest price on top: asks down to the best one, then bids from the best one
    ensure_eq!(shown(&rows, true)?, all[0].iter().rev().copied().collect::<Vec<_>>(), "asks of the printed book\n{}", b.to_string());
    ensure_eq!(shown(&rows, false)?, all[1], "bids of the printed book\n{}", b.to_string());
    ensure_eq!(rows.len(), all[0].len() + all[1].len(), "rows of the printed book\n{}", b.to_string());
    let mut cut = false;
    for k in 0..2 {
        let depth = if s.bool() { Some(s.usize(0, all[k].len() + 2)) } else { None };
        c.note(format!("{:?} depth {depth:?}", side(k)));
        let d = depth.unwrap_or(usize::MAX).min(all[k].len());
        cut |= d > 0 && d < all[k].len();
        let text = half(&b, k).to_string_upto_depth(depth);
        let mut got = shown(&table(&text)?, k == 0)?;
        got.sort();
        let mut want = all[k][..d].to_vec();
        want.sort();
        ensure_eq!(got, want, "levels of the {:?} side printed up to depth {depth:?}\n{text}", side(k));
    }
    c.nontrivial(cut && all[0].len() + all[1].len() >= 3);
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "B01",
            facets: vec![facet("history", "an order filled at least two resting orders and at least three fills happened", 1200000, 36000000, b01),
                facet("deep", "one order filled at least twenty resting orders of a book with many levels or many orders at a level", 24000, 720000, b01_deep)],
            assumptions: &["order ids are unique among live orders", "plain adds (no matching) do not cross the book"],
        },
        Property {
            id: "B02",
            facets: vec![
                facet("history", "the best level vanished at least twice and at least one request named an id that is not resting", 400000, 12000000, b02),
                facet("half_book", "at least 8 operations including a price move", 400000, 12000000, b02_half),
                facet("deep", "one order filled at least twenty resting orders of a book with many levels or many orders at a level", 16000, 480000, b02_deep),
            ],
            assumptions: &["order ids are unique among live orders"],
        },
        Property {
            id: "B05",
            facets: vec![facet("print", "three or more levels, and a side printed only in part", 600000, 18000000, b05)],
            assumptions: &["order ids are unique among live orders"],
        },
        Property {
            id: "B03",
            facets: vec![facet("snapshots", "levels disappeared at least twice and a snapshot carried zero padding", 600000, 18000000, b03)],
            assumptions: &["the book is driven by depth snapshots and by market orders against them (one order per level, as the code documents)", "the two sides of a snapshot do not cross"],
        },
        Property {
            id: "B04",
            facets: vec![facet("decompose", "at least two additions and two removals were produced", 480000, 14400000, b04)],
            assumptions: &["the two sides of a snapshot do not cross"],
        },
    ]
}
