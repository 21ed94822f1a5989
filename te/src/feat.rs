//! F01, F02: features against their formulas on the integer books / the whole history.
use std::sync::OnceLock;
use trading_engine::data::krx::krx_converter::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::feature::tick::SimpleQuotes;
use trading_engine::feature::weight::TimeSeriesWeight;
use trading_engine::feature::weighted_valuation::{EWMA, EWMS};
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::timestamp::{TimeScale, TimeStamp};
use trading_engine::utils::numeric_converter::*;
use vf::*;

/// a converter with the powers of ten its prices and quantities are divided by
struct Conv {
    c: &'static OrderConverter,
    pp: i32,
    qp: i32,
}
fn own(pd: usize, pn: Option<i32>, qd: usize, qn: Option<i32>) -> Conv {
    let cfg = |d: usize, n: Option<i32>| NumReprCfg {
        digit_length: 8,
        decimal_point_length: if d == 0 { 0 } else { d + 1 },
        is_signed: true,
        unused_length: 0,
        total_length: 9 + if d == 0 { 0 } else { d + 1 },
        float_normalizer: n,
        drop_decimal_point: false,
    };
    let c = OrderConverter { price: IntegerConverter::new(cfg(pd, pn)).unwrap(), quantity: IntegerConverter::new(cfg(qd, qn)).unwrap() };
    Conv { c: Box::leak(Box::new(c)), pp: pd as i32 + pn.unwrap_or(0), qp: qd as i32 + qn.unwrap_or(0) }
}
fn convs() -> &'static Vec<Conv> {
    static C: OnceLock<Vec<Conv>> = OnceLock::new();
    C.get_or_init(|| {
        vec![
            own(0, None, 0, None),
            own(2, None, 0, None),
            own(0, Some(1), 0, None),
            own(2, Some(2), 0, Some(1)),
            own(3, Some(4), 0, Some(3)),
            own(1, None, 2, Some(0)),
            Conv { c: get_krx_stock_order_converter(), pp: 0, qp: 0 },
        ]
    })
}

#[derive(Clone, Debug)]
struct Book {
    bid: Vec<(i64, u64)>,
    ask: Vec<(i64, u64)>,
    cut: usize,
    t: u64,
    sys: u64,
}
fn qty(src: &mut Src) -> u64 {
    match src.draw(6) {
        0 => 0,
        1 => 1,
        2 => src.draw(10_000_000),
        _ => src.draw(50),
    }
}
fn side(src: &mut Src, n: usize, best: i64, dir: i64) -> Vec<(i64, u64)> {
    let mut p = best;
    (0..n)
        .map(|_| {
            let l = (p, qty(src));
            p += dir * src.int(1, 3);
            l
        })
        .collect()
}
fn book(src: &mut Src, mid: i64) -> Book {
    let n = src.usize(0, 10);
    let cut = if src.chance(2, 3) { n } else { src.usize(0, n) };
    let spread = src.int(1, 4);
    let mid = mid + src.int(-3, 3);
    Book { bid: side(src, n, mid, -1), ask: side(src, n, mid + spread, 1), cut, t: src.draw(1 << 40), sys: src.draw(1 << 40) }
}
/// the next observation: single levels move, grow, shrink, vanish
fn next(src: &mut Src, b: &Book, mid: i64) -> Book {
    if src.chance(1, 4) {
        return book(src, mid);
    }
    let mut c = b.clone();
    c.t += src.draw(1000);
    c.sys += src.draw(1000);
    for s in [&mut c.bid, &mut c.ask] {
        let mut k = 0;
        while src.more(&mut k, 3, 6) {
            if s.is_empty() {
                break;
            }
            let i = src.usize(0, s.len() - 1);
            match src.draw(4) {
                0 => s[i].1 = qty(src),
                1 => s[i].0 += src.int(-2, 2),
                2 => {
                    let d = src.int(-2, 2);
                    s.iter_mut().for_each(|l| l.0 += d)
                }
                _ => s[i].1 = s[i].1.saturating_sub(src.draw(20)),
            }
        }
    }
    if src.chance(1, 4) {
        c.cut = src.usize(0, c.bid.len());
    }
    c
}
fn lv(v: &[(i64, u64)]) -> Vec<LevelSnapshot> {
    v.iter().map(|&(p, q)| LevelSnapshot { order_count: Some(1), book_price: p, book_quantity: q, ..Default::default() }).collect()
}
fn quote(b: &Book, c: &Conv) -> QuoteSnapshot {
    QuoteSnapshot {
        ask_quote_data: lv(&b.ask),
        bid_quote_data: lv(&b.bid),
        quote_level_cut: b.cut,
        timestamp: TimeStamp::new(b.t),
        system_timestamp: TimeStamp::new(b.sys),
        order_converter: c.c,
        ..Default::default()
    }
}
fn trade_quote(b: &Book, c: &Conv) -> TradeQuoteSnapshot {
    TradeQuoteSnapshot {
        ask_quote_data: lv(&b.ask),
        bid_quote_data: lv(&b.bid),
        quote_level_cut: b.cut,
        timestamp: TimeStamp::new(b.t),
        system_timestamp: TimeStamp::new(b.sys),
        order_converter: c.c,
        ..Default::default()
    }
}
fn close(o: f64, e: f64, scale: f64) -> bool {
    (o - e).abs() <= 1e-9 * scale.abs().max(e.abs()).max(1e-12)
}
fn opt(o: Option<f64>, e: Option<f64>, scale: f64, what: &str) -> R {
    match (o, e) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if close(a, b, scale) => Ok(()),
        _ => fail!("{what}: observed {o:?}, expected {e:?}"),
    }
}
/// price measures of the first `n` levels
fn check_book(s: &SimpleQuotes, b: &Book, n: usize, c: &Conv) -> R {
    let pn = 10f64.powi(c.pp);
    let qn = 10f64.powi(c.qp);
    let n = n.min(b.cut);
    let (bid, ask) = (&b.bid[..n], &b.ask[..n]);
    let best = |x: &[(i64, u64)]| x.iter().find(|l| l.1 > 0).map(|l| l.0 as f64 / pn);
    let (bb, ba) = (best(bid), best(ask));
    let sc = bid.iter().chain(ask).map(|l| (l.0 as f64 / pn).abs()).fold(0.0, f64::max);
    opt(s.best_bid_price(), bb, sc, "best bid")?;
    opt(s.best_ask_price(), ba, sc, "best ask")?;
    opt(s.mid_price(), bb.and_then(|x| ba.map(|y| (x + y) / 2.0)), sc, "mid price")?;
    let tot: u64 = bid.iter().chain(ask).map(|l| l.1).sum();
    let asks: u64 = ask.iter().map(|l| l.1).sum();
    let val: f64 = bid.iter().chain(ask).map(|l| l.0 as f64 / pn * (l.1 as f64 / qn)).sum();
    let vwap = if asks == 0 { None } else { Some(val / (tot as f64 / qn)) };
    opt(s.vwap(), vwap, sc, "volume-weighted price")?;
    // the serialised form carries levels and times
    let js = serde_json::to_value(s).must("serialise")?;
    for (k, v) in [("bids", bid), ("asks", ask)] {
        let a = js[k].as_array().must("levels")?;
        ensure_eq!(a.len(), n, "number of {k}");
        for (x, l) in a.iter().zip(v) {
            ensure!(close(x["price"].as_f64().unwrap_or(f64::NAN), l.0 as f64 / pn, 0.0), "{k}: {x} for level {l:?}");
            ensure!(close(x["quantity"].as_f64().unwrap_or(f64::NAN), l.1 as f64 / qn, 0.0), "{k}: {x} for level {l:?}");
        }
    }
    ensure_eq!(js["timestamp"]["stamp"].as_u64(), Some(b.t), "time");
    ensure_eq!(js["system_time"]["stamp"].as_u64(), Some(b.sys), "system time");
    Ok(())
}
fn flow(prev: (i64, u64), cur: (i64, u64), bid: bool, qn: f64) -> f64 {
    let (p, c) = (prev.1 as f64 / qn, cur.1 as f64 / qn);
    let better = if bid { cur.0 > prev.0 } else { cur.0 < prev.0 };
    if better {
        c
    } else if cur.0 == prev.0 {
        c - p
    } else {
        -p
    }
}
fn ln_flow(prev: (i64, u64), cur: (i64, u64), bid: bool, qn: f64) -> f64 {
    let (p, c) = (prev.1 as f64 / qn, cur.1 as f64 / qn);
    let better = if bid { cur.0 > prev.0 } else { cur.0 < prev.0 };
    if better {
        if c > 0.0 { c.ln() } else { 0.0 }
    } else if cur.0 == prev.0 {
        if c > 0.0 && p > 0.0 { (c / p).ln() } else { 0.0 }
    } else if p > 0.0 {
        -p.ln()
    } else {
        0.0
    }
}
fn check_flow(a: &SimpleQuotes, b: &SimpleQuotes, x: (&Book, usize), y: (&Book, usize), c: &Conv) -> R {
    let qn = 10f64.powi(c.qp);
    let top = x.1.min(y.1);
    for level in 0..top + 3 {
        let ok = level >= 1 && level <= top;
        let r = [
            ("bid", a.get_bid_orderflow_imbalance(level, b)),
            ("ask", a.get_ask_orderflow_imbalance(level, b)),
            ("combined", a.get_orederflow_imbalance(level, b)),
            ("bid log", a.get_bid_ln_orderflow_imbalance(level, b)),
            ("ask log", a.get_ask_ln_orderflow_imbalance(level, b)),
            ("combined log", a.get_ln_orderflow_imbalance(level, b)),
        ];
        for (n, v) in &r {
            ensure_eq!(v.is_ok(), ok, "{n} order flow at level {level} (levels shown {} and {})", x.1, y.1);
        }
        if ok {
            let i = level - 1;
            let (bp, bc, ap, ac) = (x.0.bid[i], y.0.bid[i], x.0.ask[i], y.0.ask[i]);
            let f = (flow(bp, bc, true, qn), flow(ap, ac, false, qn));
            let l = (ln_flow(bp, bc, true, qn), ln_flow(ap, ac, false, qn));
            let e = [f.0, f.1, f.0 - f.1, l.0, l.1, l.0 - l.1];
            for ((n, v), e) in r.iter().zip(e) {
                let v = *v.as_ref().unwrap();
                ensure!(close(v, e, (bp.1 + bc.1 + ap.1 + ac.1) as f64 / qn + 30.0), "{n} order flow at level {level}: bid {bp:?} -> {bc:?}, ask {ap:?} -> {ac:?}: observed {v}, expected {e}");
            }
        }
    }
    Ok(())
}
fn features(src: &mut Src, ctx: &mut Ctx) -> R {
    let c = src.pick(convs());
    let mid = match src.draw(4) {
        0 => src.int(-20, 20),
        1 => src.int(1, 9_000_000),
        _ => 10_000,
    };
    let x = book(src, mid);
    let y = next(src, &x, mid);
    ctx.note(format!("powers {}/{} first {x:?} second {y:?}", c.pp, c.qp));
    let mk = |b: &Book, tq: bool| if tq { SimpleQuotes::new_from_trade_quote_snapshot(&trade_quote(b, c)) } else { SimpleQuotes::new_from_quote_sanpshot(&quote(b, c)) };
    let a = mk(&x, src.bool());
    let b = mk(&y, src.bool());
    check_book(&a, &x, x.cut, c)?;
    check_book(&b, &y, y.cut, c)?;
    check_flow(&a, &b, (&x, x.cut), (&y, y.cut), c)?;
    check_flow(&b, &a, (&y, y.cut), (&x, x.cut), c)?;
    // an updated object shows the new book, as far as the levels it was made for
    let mut u = match src.draw(3) {
        0 => SimpleQuotes::with_capacity(x.cut),
        _ => a.clone(),
    };
    let fits = y.cut >= x.cut;
    let r = if src.bool() { u.update_quote_snapshot(&quote(&y, c)) } else { u.update_trade_quote_snapshot(&trade_quote(&y, c)) };
    ensure_eq!(r.is_ok(), fits, "update of {} levels with {} levels accepted", x.cut, y.cut);
    if fits {
        check_book(&u, &y, x.cut, c)?;
        check_flow(&a, &u, (&x, x.cut), (&y, x.cut), c)?;
        check_flow(&u, &b, (&y, x.cut), (&y, y.cut), c)?;
    }
    let moved = x.bid.iter().zip(&y.bid).chain(x.ask.iter().zip(&y.ask)).any(|(p, q)| p != q);
    ctx.nontrivial(moved && x.cut.min(y.cut) > 0);
    Ok(())
}

fn weighted(src: &mut Src, ctx: &mut Ctx) -> R {
    let scales = [
        (TimeScale::Second, 1_000_000_000u64),
        (TimeScale::Micro, 1_000),
        (TimeScale::Milli, 1_000_000),
        (TimeScale::Minute, 60_000_000_000),
        (TimeScale::Hour, 3_600_000_000_000),
        (TimeScale::Day, 86_400_000_000_000),
    ];
    let (scale, ns) = *src.pick(&scales);
    let w = match src.draw(6) {
        0 => 1.0,
        1 => src.f(0.0, 0.01, 100),
        2 => src.f(0.9, 1.0, 1000),
        _ => src.f(0.01, 0.99, 98),
    };
    let weight = TimeSeriesWeight { weight: w, scale };
    let t0 = src.draw(1 << 60);
    let v0 = src.f(-100.0, 100.0, 2000);
    let mut t = t0;
    let mut a = EWMA::new(weight, v0, TimeStamp::new(t0));
    let mut s = EWMS::new(weight, TimeStamp::new(t0));
    let mut obs: Vec<(u64, f64)> = vec![];
    let mut k = 0;
    ensure_eq!(a.get_value(), v0, "initial average");
    ensure_eq!(s.get_value(), 0.0, "initial sum");
    while src.more(&mut k, 8, 30) {
        t += match src.draw(5) {
            0 => 0,
            1 => src.draw(ns),
            2 => ns * src.draw(4),
            3 => src.draw(30 * ns),
            _ => src.draw(3 * ns),
        };
        let x = src.f(-100.0, 100.0, 2000);
        obs.push((t, x));
        a.update(x, TimeStamp::new(t));
        s.update(x, TimeStamp::new(t));
        let decay = |from: u64, to: u64| w.powf((to - from) as f64 / ns as f64);
        let mut ea = v0 * decay(t0, t);
        let mut es = 0.0;
        let mut p = t0;
        for &(ti, xi) in &obs {
            ea += xi * (1.0 - decay(p, ti)) * decay(ti, t);
            es += xi * decay(ti, t);
            p = ti;
        }
        let sc = 100.0 * (obs.len() + 1) as f64;
        ensure!((a.get_value() - ea).abs() <= 1e-9 * sc, "weight {w} per {scale:?}, observations {obs:?} from {t0} {v0}: average observed {}, expected {ea}", a.get_value());
        ensure!((s.get_value() - es).abs() <= 1e-9 * sc, "weight {w} per {scale:?}, observations {obs:?} from {t0}: sum observed {}, expected {es}", s.get_value());
    }
    ctx.note(format!("weight {w} per {scale:?} from {v0}: {} observations {:?}", obs.len(), obs.iter().map(|o| (o.0 - t0, o.1)).collect::<Vec<_>>()));
    ctx.nontrivial(obs.len() > 2 && t > t0 && w < 1.0 && w > 0.0);
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "F01",
            facets: vec![facet("features", "both books show a level and some level differs", 160000, 4800000, features)],
            assumptions: &["both sides of a snapshot carry the same number of levels", "both books use the same number formats"],
        },
        Property {
            id: "F02",
            facets: vec![facet("weighted", "more than two observations, elapsed time, weight strictly between 0 and 1", 2400000, 72000000, weighted)],
            assumptions: &["observation times never decrease"],
        },
    ]
}
