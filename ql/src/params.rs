//! P01 zero curves, P02 bumps, P03 dividends and spot, P05 volatility surfaces, P06 fixings.
use crate::cal::{any_offset, any_time, calendar_of, closed_at, rule_closed, ymd};
use crate::dates::{any_date, DCS};
use crate::mk::*;
use ndarray::{Array1, Array2};
use quantlib::currency::Currency;
use quantlib::data::daily_value_data::DailyValueData;
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::value_data::ValueData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::{Compounding, StickynessType};
use quantlib::instruments::schedule::BaseSchedule;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
use quantlib::parameters::volatilities::volatiltiy_interpolator::VolatilityInterplator;
use quantlib::parameters::volatility::{Volatility, VolatilityTrait};
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::jointcalendar::JointCalendar;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Date, Duration, OffsetDateTime, Time, UtcOffset};
use vf::*;

pub fn any_eval(s: &mut Src) -> OffsetDateTime {
    let o = any_offset(s);
    OffsetDateTime::new_in_offset(any_date(s, 2000, 2035), any_time(s), o)
}
fn near(a: f32, b: f64, tol: f64) -> bool {
    (a as f64 - b).abs() <= tol
}
// ---------------------------------------------------------------- P01
const DAY: f32 = 0.002737;
/// forward rate and the bound on its rounding: (correct, what the listed finding gives, tolerance)
fn fwd(cv: &Cv, t1: f32, t2: f32, c: Compounding) -> Option<(f64, f64, f64)> {
    let tau = t2 - t1;
    let (t2, tau) = if tau.abs() > 1e-6 { (t2, tau) } else { (t1 + DAY, DAY) };
    let (a, b) = (cv.df(t1 as f64)?, cv.df(t2 as f64)?);
    let ratio = b / a;
    let tau = tau as f64;
    let tol = (cv.df_tol(t1 as f64) / a + cv.df_tol(t2 as f64) / b + 3e-7) / tau * ratio.max(1.0) + 1e-6;
    Some(match c {
        Compounding::Continuous => (-ratio.ln() / tau, -ratio.ln() / tau, tol),
        Compounding::Simple => ((1.0 / ratio - 1.0) / tau, (1.0 - ratio) / tau, tol),
    })
}
fn check_fwd(what: &str, got: anyhow::Result<f32>, want: Option<(f64, f64, f64)>) -> R {
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(g), None) => fail!("{what}: gave {g} outside the curve"),
        (Err(e), Some(_)) => fail!("{what}: refused: {e}"),
        (Ok(g), Some((right, listed, tol))) => {
            ensure!(near(g, right, tol) || near(g, listed, tol), "{what}: observed {g}, expected {right} (within {tol:e}; the listed finding gives {listed})");
            Ok(())
        }
    }
}
fn any_t(s: &mut Src, cv: &Cv) -> f32 {
    match s.draw(8) {
        0 => *s.pick(&cv.t) as f32,
        1 => -(s.f(0.001, 3.0, 100) as f32),
        2 => cv.t[28] as f32 + s.f(0.01, 3.0, 100) as f32,
        3 => s.f(0.0, 99.0, 997) as f32,
        4 => s.f(0.0, 0.1, 997) as f32,
        _ => s.f(0.0, 12.0, 4999) as f32,
    }
}
fn zero_curve(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let rates = any_rates(s, false);
    c.note(format!("evaluation {eval} {}", rates.note()));
    let (z, cv) = rates.build(&ed, "curve")?;
    let z = z.borrow();
    let (nt, nf) = (z.get_cached_discount_times_clone(), z.get_cached_discount_factors_clone());
    ensure_eq!(nt.len(), cv.t.len(), "number of nodes");
    let dfs = cv.node_df();
    for i in 0..nt.len() {
        ensure!(near(nt[i], cv.t[i], 1e-6 * (1.0 + cv.t[i])), "node {} time: observed {}, expected {}", NODES[i], nt[i], cv.t[i]);
        ensure!(near(nf[i], dfs[i], cv.df_tol(cv.t[i])), "node {} discount factor: observed {}, expected {}", NODES[i], nf[i], dfs[i]);
        ensure!(near(z.get_interpolated_rates()[i], cv.r[i], 3e-7), "node {} rate: observed {}, expected {}", NODES[i], z.get_interpolated_rates()[i], cv.r[i]);
        let at = z.get_discount_factor(nt[i]).must("discount factor at a node")?;
        ensure!(near(at, dfs[i], cv.df_tol(cv.t[i])), "discount factor at node {}: observed {at}, expected {}", NODES[i], dfs[i]);
    }
    ensure_eq!(z.get_discount_factor(0.0).ok(), Some(1.0), "discount factor at zero");
    c.nontrivial(rates.rates.len() > 1);
    // single times
    let mut ts = vec![];
    for _ in 0..6 {
        ts.push(any_t(s, &cv));
    }
    ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for &t in &ts {
        match (z.get_discount_factor(t), cv.df(t as f64)) {
            (Err(_), None) => {}
            (Ok(g), Some(w)) => ensure!(near(g, w, cv.df_tol(t as f64)), "discount factor at {t}: observed {g}, expected {w}"),
            (g, w) => fail!("discount factor at {t}: observed {g:?}, expected {w:?}"),
        }
        check_fwd(&format!("short rate at {t}"), z.get_short_rate_at_time(t), fwd(&cv, t, t + DAY, Compounding::Simple))?;
    }
    let got = z.get_vectorized_discount_factor_for_sorted_time(&Array1::from(ts.clone()));
    let singles: Result<Vec<f32>, _> = ts.iter().map(|t| z.get_discount_factor(*t)).collect();
    match (&got, &singles) {
        (Err(_), Err(_)) => {}
        (Ok(g), Ok(w)) => ensure!(g.iter().zip(w).all(|(a, b)| (a - b).abs() <= 1e-6 * b.abs()), "vectorised discount factors: observed {g:?}, expected {w:?} at {ts:?}"),
        _ => fail!("vectorised discount factors: observed {got:?}, single ones {singles:?} at {ts:?}"),
    }
    let shorts = z.get_vectorized_short_rate_for_sorted_times(&ts);
    let each: Result<Vec<f32>, _> = ts.iter().map(|t| z.get_short_rate_at_time(*t)).collect();
    ensure_eq!(shorts.ok(), each.ok(), "vectorised short rates at {ts:?}");
    // pairs
    for _ in 0..3 {
        let (t1, t2) = (*s.pick(&ts), *s.pick(&ts));
        let got = z.get_discount_factor_between_times(t1, t2);
        let want = match (t1 <= t2, cv.df(t1 as f64), cv.df(t2 as f64)) {
            (true, Some(a), Some(b)) => Some((b / a, cv.df_tol(t1 as f64) * b / a / a + cv.df_tol(t2 as f64) / a)),
            _ => None,
        };
        match (got, want) {
            (Err(_), None) => {}
            (Ok(g), Some((w, tol))) => ensure!(near(g, w, tol), "discount factor between {t1} and {t2}: observed {g}, expected {w}"),
            (g, w) => fail!("discount factor between {t1} and {t2}: observed {g:?}, expected {w:?}"),
        }
        for comp in [Compounding::Simple, Compounding::Continuous] {
            let want = if t1 <= t2 { fwd(&cv, t1, t2, comp) } else { None };
            check_fwd(&format!("{comp:?} forward between {t1} and {t2}"), z.get_forward_rate_between_times(t1, t2, comp), want)?;
        }
    }
    // dates, before and after a move of the evaluation date
    for moved in [false, true] {
        if moved {
            ed.borrow_mut().set_date(eval + Duration::days(s.int(-400, 400)) + Duration::seconds(s.int(0, 86399)));
        }
        let now = ed.borrow().get_date_clone();
        let mut ds = vec![];
        for _ in 0..4 {
            ds.push(match s.draw(5) {
                0 => now - Duration::seconds(s.int(1, 86400 * 400)),
                1 => now,
                2 => now + Duration::seconds(s.int(0, 86400 * 30)),
                _ => now + Duration::days(s.int(0, 14000)),
            });
        }
        ds.sort();
        let mut singles = vec![];
        for d in &ds {
            let t = yf(&now, d);
            let got = z.get_discount_factor_at_date(d);
            let want = if *d < now { None } else { cv.df(t as f64) };
            match (got, want) {
                (Err(_), None) => singles.push(None),
                (Ok(g), Some(w)) => {
                    ensure!(near(g, w, cv.df_tol(t as f64)), "discount factor at {d} (evaluation {now}): observed {g}, expected {w}");
                    singles.push(Some(g));
                }
                // a moment so close before the evaluation date that its elapsed time is zero in single precision
                (Ok(g), None) if t == 0.0 && g == 1.0 => singles.push(Some(g)),
                (g, w) => fail!("discount factor at {d} (evaluation {now}): observed {g:?}, expected {w:?}"),
            }
            for comp in [Compounding::Simple, Compounding::Continuous] {
                let want = if *d < now { None } else { fwd(&cv, 0.0, t, comp) };
                check_fwd(&format!("{comp:?} forward from the evaluation date {now} to {d}"), z.get_forward_rate_from_evaluation_date(d, comp), want)?;
            }
            check_fwd(&format!("instantaneous forward at {d}"), z.get_instantaneous_forward_rate_from_date(d), fwd(&cv, t, t + DAY, Compounding::Simple))?;
        }
        let all: Option<Vec<f32>> = singles.into_iter().collect();
        ensure_eq!(z.get_vectorized_discount_factor_for_sorted_dates(&ds).ok(), all, "discount factors at several dates {ds:?}");
        let (a, b) = (*s.pick(&ds), *s.pick(&ds));
        for comp in [Compounding::Simple, Compounding::Continuous] {
            let want = if a <= b { fwd(&cv, yf(&now, &a), yf(&now, &b), comp) } else { None };
            check_fwd(&format!("{comp:?} forward between {a} and {b} (evaluation {now})"), z.get_forward_rate_between_dates(&a, &b, comp), want)?;
        }
    }
    Ok(())
}
fn refusals(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let n = s.usize(2, 6);
    let mk = |v: Vec<f32>, d: Option<Vec<OffsetDateTime>>, t: Option<Vec<f32>>, m: Option<OffsetDateTime>| {
        VectorData::new(v.into(), d, t.map(|t| t.into()), m, Currency::USD, "n".into(), "c".into())
    };
    let rates: Vec<f32> = (0..n).map(|i| 0.01 * i as f32).collect();
    let times: Vec<f32> = (0..n).map(|i| 0.5 + i as f32).collect();
    let dates: Vec<OffsetDateTime> = (0..n).map(|i| eval + Duration::days(100 + 40 * i as i64)).collect();
    c.note(format!("evaluation {eval} {n} rates"));
    c.nontrivial(true);
    ensure!(mk(rates.clone(), None, None, Some(eval)).is_err(), "data without dates and times was accepted");
    ensure!(mk(rates[1..].to_vec(), None, Some(times.clone()), None).is_err(), "one rate too few for the times was accepted");
    ensure!(mk(rates.clone(), Some(dates[1..].to_vec()), None, Some(eval)).is_err(), "one date too few was accepted");
    ensure!(mk(rates.clone(), Some(dates.clone()), None, None).is_err(), "dates without a market time were accepted");
    let i = s.usize(0, n - 2);
    let mut t2 = times.clone();
    t2.swap(i, i + 1);
    let bad = mk(rates.clone(), None, Some(t2.clone()), None).must("data")?;
    ensure!(ZeroCurve::new(ed.clone(), &bad, "n".into(), "c".into()).is_err(), "a curve with times {t2:?} was accepted");
    let mut d2 = dates.clone();
    d2.swap(i, i + 1);
    let bad = mk(rates.clone(), Some(d2), None, Some(eval)).must("data")?;
    ensure!(ZeroCurve::new(ed.clone(), &bad, "n".into(), "c".into()).is_err(), "a curve with swapped dates was accepted");
    let bad = mk(vec![], None, Some(vec![]), None).must("empty data")?;
    ensure!(ZeroCurve::new(ed.clone(), &bad, "n".into(), "c".into()).is_err(), "a curve without rates was accepted");
    let d = ZeroCurve::dummy_curve().must("dummy curve")?;
    let t = s.f(0.0, 99.0, 500) as f32;
    ensure_eq!(d.get_discount_factor(t).ok(), Some(1.0), "dummy curve at {t}");
    Ok(())
}
fn simple_forward(_: &mut Src, c: &mut Ctx) -> R {
    let eval = OffsetDateTime::new_in_offset(ymd(2024, 1, 2), Time::MIDNIGHT, UtcOffset::UTC);
    let (z, cv) = Rates { days: vec![365], rates: vec![0.05], by_date: false }.build(&ev(eval), "c")?;
    c.note("5% flat curve, one year simple forward from time 1 to 2");
    let got = z.borrow().get_forward_rate_between_times(1.0, 2.0, Compounding::Simple).must("forward")?;
    let (right, _, tol) = fwd(&cv, 1.0, 2.0, Compounding::Simple).unwrap();
    ensure!(near(got, right, tol), "observed {got}, expected {right} = (P(1)/P(2) - 1)");
    Ok(())
}
// ---------------------------------------------------------------- P02
fn curve_bumps(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let rates = any_rates(s, false);
    let (z, mut cv) = rates.build(&ed, "curve")?;
    let before = z.borrow().get_cached_discount_factors_clone();
    let rates0 = z.borrow().get_interpolated_rates();
    let nt: Vec<f32> = z.borrow().get_cached_discount_times_clone().to_vec();
    let mut undo = vec![];
    let mut n = 0;
    let mut total = 0.0;
    loop {
        let b = *s.pick(&[1e-4f32, -1e-4, 0.01, -0.01, 0.0025]);
        let end = |s: &mut Src| -> Option<(f32, OffsetDateTime)> {
            let d = match s.draw(5) {
                0 => return None,
                1 => eval - Duration::days(s.int(0, 30)),
                2 => addp(&eval, *s.pick(&NODES)),
                3 => eval + Duration::days(s.int(0, 400)),
                _ => eval + Duration::days(s.int(0, 12000)),
            };
            Some((yf(&eval, &d), d))
        };
        let (a, z2) = (end(s), end(s));
        let by_date = s.bool();
        c.note(format!("bump {b} from {:?} to {:?} {}", a.map(|x| x.0), z2.map(|x| x.0), if by_date { "dates" } else { "times" }));
        let apply = |b: f32| {
            let mut z = z.borrow_mut();
            if by_date {
                z.bump_date_interval(a.as_ref().map(|x| &x.1), z2.as_ref().map(|x| &x.1), b)
            } else {
                z.bump_time_interval(a.map(|x| x.0), z2.map(|x| x.0), b)
            }
        };
        let (t1, t2) = (a.map_or(f64::NEG_INFINITY, |x| x.0 as f64), z2.map_or(f64::INFINITY, |x| x.0 as f64));
        let old = (z.borrow().get_cached_discount_factors_clone(), z.borrow().get_interpolated_rates());
        let _ = &old;
        let got = apply(b);
        if t1 > t2 {
            ensure!(got.is_err(), "a reversed interval {t1} to {t2} was accepted");
        } else {
            got.must("bump")?;
            cv.bump(t1, t2, b as f64);
            total += b.abs() as f64;
            undo.push((t1, t2, b, by_date, a, z2));
            let inside = cv.t.iter().filter(|t| **t > t1 && **t <= t2).count();
            c.nontrivial(inside > 0 && inside < cv.t.len());
        }
        let (r, f, w) = (z.borrow().get_interpolated_rates(), z.borrow().get_cached_discount_factors_clone(), cv.node_df());
        for i in 0..nt.len() {
            ensure!(near(r[i], cv.r[i], 3e-7 + 1e-6 * total), "rate at {}: observed {}, expected {}", NODES[i], r[i], cv.r[i]);
            ensure!(near(f[i], w[i], cv.df_tol(cv.t[i]) * (1.0 + cv.t[i])), "discount factor at {}: observed {}, expected {}", NODES[i], f[i], w[i]);
            if t1 > t2 || !(cv.t[i] > t1 && cv.t[i] <= t2) {
                ensure!(r[i] == old.1[i] && f[i] == old.0[i], "node {} outside the bump moved from {} to {}", NODES[i], old.1[i], r[i]);
            }
        }
        for _ in 0..2 {
            let t = any_t(s, &cv);
            if let Some(w) = cv.df(t as f64) {
                let g = z.borrow().get_discount_factor(t).must("discount factor after the bump")?;
                ensure!(near(g, w, cv.df_tol(t as f64) * (1.0 + t as f64)), "discount factor at {t} after the bump: observed {g}, expected {w}");
            }
        }
        if !s.more(&mut n, 2, 6) {
            break;
        }
    }
    s.shuffle(&mut undo);
    for (_, _, b, by_date, a, e) in undo {
        let mut z = z.borrow_mut();
        if by_date {
            z.bump_date_interval(a.as_ref().map(|x| &x.1), e.as_ref().map(|x| &x.1), -b).must("undo")?;
        } else {
            z.bump_time_interval(a.map(|x| x.0), e.map(|x| x.0), -b).must("undo")?;
        }
    }
    let after = z.borrow().get_cached_discount_factors_clone();
    let rates1 = z.borrow().get_interpolated_rates();
    for i in 0..nt.len() {
        ensure!((rates1[i] - rates0[i]).abs() <= 3e-7, "rate at {} after undoing every bump: observed {}, before {}", NODES[i], rates1[i], rates0[i]);
        ensure!(
            ((after[i] - before[i]) as f64).abs() <= 4e-7 * (1.0 + cv.t[i]) * before[i].abs() as f64,
            "discount factor at {} after undoing every bump: observed {}, before {}",
            NODES[i], after[i], before[i]
        );
    }
    Ok(())
}
fn yyyymmdd(d: &OffsetDateTime) -> i64 {
    d.year() as i64 * 10000 + d.month() as u8 as i64 * 100 + d.day() as i64
}
#[derive(Clone)]
pub struct Div {
    pub dates: Vec<OffsetDateTime>,
    pub amounts: Vec<f64>,
    pub spot: f64,
}
impl Div {
    /// product of one minus the ratio over ex-dates after the valuation instant up to the day of d
    pub fn ded(&self, now: &OffsetDateTime, d: &OffsetDateTime) -> f64 {
        (0..self.dates.len())
            .filter(|&i| self.dates[i] > *now && yyyymmdd(&self.dates[i]) <= yyyymmdd(d))
            .map(|i| 1.0 - self.amounts[i] / self.spot)
            .product()
    }
}
pub fn any_div(s: &mut Src, eval: &OffsetDateTime) -> Div {
    let spot = *s.pick(&[100.0f64, 1.0, 350.0, 64000.0]);
    let n = crate::maths::size(s, 1, 8, 60);
    let mut d = eval.date() + Duration::days(s.int(-200, 60));
    let mut dates = vec![];
    let mut amounts = vec![];
    for _ in 0..n {
        let t = if s.chance(1, 4) { any_time(s) } else { Time::MIDNIGHT };
        dates.push(OffsetDateTime::new_in_offset(d, t, eval.offset()));
        amounts.push((spot * s.f(0.0, if n > 8 { 0.02 } else { 0.2 }, 40)) as f32 as f64);
        d += Duration::days(if n > 8 { *s.pick(&[1i64, 2, 10]) } else { *s.pick(&[1i64, 2, 30, 91, 182]) });
    }
    if s.chance(1, 3) {
        dates[0] = dates[0].replace_time(eval.time());
    }
    Div { dates, amounts, spot }
}
pub fn mk_div(m: &Div, ed: &Ev) -> Result<DiscreteRatioDividend, Stop> {
    let eval = ed.borrow().get_date_clone();
    let a: Vec<f32> = m.amounts.iter().map(|x| *x as f32).collect();
    let v = VectorData::new(a.into(), Some(m.dates.clone()), None, Some(eval), Currency::KRW, "d".into(), "d".into()).must("data")?;
    DiscreteRatioDividend::new(ed.clone(), &v, m.spot as f32, "d".into(), "d".into()).must("dividend")
}
fn div_query(s: &mut Src, m: &Div, now: &OffsetDateTime) -> OffsetDateTime {
    let d = match s.draw(3) {
        0 => *s.pick(&m.dates),
        1 => *s.pick(&m.dates) + Duration::days(s.int(-1, 1)),
        _ => *now + Duration::days(s.int(-30, 1000)),
    };
    if s.bool() { d.replace_time(any_time(s)) } else { d }
}
fn dividend_bumps(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let mut m = any_div(s, &eval);
    c.note(format!("evaluation {eval} spot {} ex-dates {:?} amounts {:?}", m.spot, m.dates.iter().map(|d| d.to_string()).collect::<Vec<_>>(), m.amounts));
    let mut d = mk_div(&m, &ed)?;
    let tol = 3e-6;
    let mut undo: Vec<(Option<OffsetDateTime>, Option<OffsetDateTime>, f32)> = vec![];
    let a0 = m.amounts.clone();
    let mut n = 0;
    let undoing = |undo: &mut Vec<(Option<OffsetDateTime>, Option<OffsetDateTime>, f32)>| undo.pop();
    let mut back = false;
    loop {
        let (a, z, b) = if back {
            match undoing(&mut undo) {
                Some((a, z, b)) => (a, z, -b),
                None => break,
            }
        } else {
            let end = |s: &mut Src| (!s.chance(1, 4)).then(|| div_query(s, &m, &eval));
            (end(s), end(s), (m.spot * *s.pick(&[1e-4f64, 0.01, -0.002])) as f32)
        };
        let (d1, d2) = (a.as_ref().map_or(i64::MIN, yyyymmdd), z.as_ref().map_or(i64::MAX, yyyymmdd));
        let got = d.bump_date_interval(a.as_ref(), z.as_ref(), b);
        if d1 >= d2 {
            ensure!(got.is_err(), "an interval from {d1} to {d2} was accepted");
        } else {
            c.note(format!("bump {b} after {d1} up to {d2}"));
            got.must("bump")?;
            let mut hit = 0;
            for i in 0..m.dates.len() {
                let k = yyyymmdd(&m.dates[i]);
                if k > d1 && k <= d2 {
                    m.amounts[i] += b as f64;
                    hit += 1;
                }
            }
            c.nontrivial(hit > 0 && hit < m.dates.len());
            if !back {
                undo.push((a, z, b));
            }
        }
        for (i, (date, amount)) in d.get_dividend().iter().enumerate() {
            ensure!(*date == m.dates[i] && near(*amount, m.amounts[i], 1e-6 * m.spot), "dividend {i}: observed {amount} on {date}, expected {} on {}", m.amounts[i], m.dates[i]);
        }
        for (i, (date, ratio)) in d.get_dividend_ratio().iter().enumerate() {
            ensure!(*date == m.dates[i] && near(*ratio, m.amounts[i] / m.spot, 1e-6), "dividend ratio {i}: observed {ratio}, expected {}", m.amounts[i] / m.spot);
        }
        for _ in 0..3 {
            let q = div_query(s, &m, &eval);
            let (g, w) = (d.get_deduction_ratio(&q).must("deduction")?, m.ded(&eval, &q));
            ensure!(near(g, w, tol), "deduction to {q}: observed {g}, expected {w}");
        }
        if !back && !s.more(&mut n, 2, 6) {
            s.shuffle(&mut undo);
            back = true;
        }
    }
    for i in 0..a0.len() {
        ensure!((m.amounts[i] - a0[i]).abs() < 1e-6 * m.spot, "model not restored");
    }
    Ok(())
}
// ---------------------------------------------------------------- P03
fn roll(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let m = any_div(s, &eval);
    c.note(format!("evaluation {eval} spot {} ex-dates {:?} amounts {:?}", m.spot, m.dates.iter().map(|d| d.to_string()).collect::<Vec<_>>(), m.amounts));
    let d = Rc::new(RefCell::new(mk_div(&m, &ed)?));
    let price = (m.spot * s.f(0.5, 1.5, 20)) as f32;
    let mk = |div: Option<Rc<RefCell<DiscreteRatioDividend>>>| Rc::new(RefCell::new(MarketPrice::new(price, eval, div, Currency::KRW, "p".into(), "p".into())));
    let p = mk(Some(d.clone()));
    let plain = mk(None);
    // who watches the date: mostly all, sometimes only the prices or only the dividend
    let (prices, dividends) = *s.pick(&[(true, true), (true, true), (true, true), (true, true), (true, false), (false, true)]);
    c.note(format!("the date is watched by {}", if !prices { "the dividend" } else if !dividends { "the prices" } else { "prices and dividend" }));
    {
        let mut e = ed.borrow_mut();
        if prices {
            e.add_marketprice_observer(p.clone());
            e.add_marketprice_observer(plain.clone());
        }
        if dividends {
            e.add_dividend_observer(d.clone());
        }
    }
    let mut now = eval;
    let last = *m.dates.last().unwrap() + Duration::days(1);
    let far = last.max(eval) + Duration::days(400);
    let mut base = price as f64; // what the spot would be at the first evaluation date
    let mut n = 0;
    let mut moves = 2;
    let mut crossed = 0;
    loop {
        let target = match s.draw(6) {
            0 => eval,
            1 => *s.pick(&m.dates),
            2 => *s.pick(&m.dates) + Duration::seconds(*s.pick(&[-1i64, 1])),
            3 => last + Duration::days(s.int(0, 300)),
            _ => now + Duration::days(s.int(-40, 120)),
        };
        let how = s.draw(4);
        match how {
            0 => ed.borrow_mut().set_date(target),
            3 => {
                let (t, by) = *s.pick(&[("h", 3600), ("W", 7 * 86400), ("min", 60), ("sec", 1), ("D", 86400)]);
                let k = s.int(0, 40);
                let up = s.bool();
                if up {
                    *ed.borrow_mut() += format!("{k}{t}").as_str();
                } else {
                    *ed.borrow_mut() -= format!("{k}{t}").as_str();
                }
                ensure_eq!(ed.borrow().get_date_clone(), now + Duration::seconds(if up { k * by } else { -k * by }), "the date after a move by {k}{t}");
            }
            1 => {
                let k = (target - now).whole_days();
                if k >= 0 {
                    *ed.borrow_mut() += format!("{k}D").as_str();
                } else {
                    *ed.borrow_mut() -= format!("{}D", -k).as_str();
                }
            }
            _ => {
                let k = s.int(1, 14);
                let t = if s.chance(1, 4) { "2Y".to_string() } else { format!("{k}M") };
                if s.bool() {
                    *ed.borrow_mut() += t.as_str();
                } else {
                    *ed.borrow_mut() -= t.as_str();
                }
            }
        }
        let next = ed.borrow().get_date_clone();
        if how == 0 {
            ensure_eq!(next, target, "the date set");
        } else if how == 1 {
            ensure_eq!(next, now + Duration::days((target - now).whole_days()), "the date after adding days");
        }
        c.note(format!("move to {next}"));
        let (lo, hi) = (now.min(next), now.max(next));
        crossed += m.dates.iter().filter(|x| **x > lo && **x <= hi).count();
        now = next;
        // spot: dividends between the first valuation and now came off, or back on
        let mut w = base;
        for i in 0..m.dates.len() {
            let f = 1.0 - m.amounts[i] / m.spot;
            if prices && m.dates[i] > eval && m.dates[i] <= now {
                w *= f;
            }
            if prices && m.dates[i] > now && m.dates[i] <= eval {
                w /= f;
            }
        }
        let got = p.borrow().get_value();
        ensure!(near(got, w, 1.5e-6 * moves as f64 * w), "spot at {now}: observed {got}, expected {w}");
        if s.chance(1, 4) {
            // a quote or a shift replaces the spot of this moment
            let (x, f) = (*s.pick(&[1.0f32, 0.25, 12.5]), *s.pick(&[1.01f32, 0.99, 1.25]));
            let to = match s.draw(4) {
                0 => {
                    *p.borrow_mut() += x;
                    w + x as f64
                }
                1 if w > 20.0 => {
                    *p.borrow_mut() -= x;
                    w - x as f64
                }
                2 => {
                    *p.borrow_mut() /= f;
                    w / f as f64
                }
                _ => {
                    *p.borrow_mut() *= f;
                    w * f as f64
                }
            };
            c.note(format!("{w} becomes {to}"));
            let got = p.borrow().get_value();
            ensure!(near(got, to, 3e-6 * to), "spot {w} changed by {x} or {f}: observed {got}, expected {to}");
            base *= to / w;
            moves += 1;
        }
        let seen = *p.borrow().get_market_datetime();
        ensure_eq!(seen, if prices { now } else { eval }, "market time of the price");
        ensure_eq!(plain.borrow().get_value(), price, "spot without dividends at {now}");
        ensure_eq!(plain.borrow().get_dividend_deduction_ratio(&last).ok(), Some(1.0), "deduction without dividends");
        if !dividends {
            if !s.more(&mut n, 4, 12) {
                break;
            }
            continue;
        }
        let mut qs: Vec<OffsetDateTime> = (0..3).map(|_| div_query(s, &m, &now)).collect();
        qs.sort();
        let all = d.borrow().get_vectorized_deduction_ratio_for_sorted_datetime(&qs).must("deductions")?;
        for (i, q) in qs.iter().enumerate() {
            let (g, w) = (d.borrow().get_deduction_ratio(q).must("deduction")?, m.ded(&now, q));
            ensure!(near(g, w, 3e-6), "deduction from {now} to {q}: observed {g}, expected {w}");
            ensure_eq!(p.borrow().get_dividend_deduction_ratio(q).ok(), Some(g), "deduction seen by the price to {q}");
            ensure_eq!(all[i], g, "deduction in a batch to {q}");
        }
        if prices && now < far {
            let got = p.borrow().get_value() as f64 * p.borrow().get_dividend_deduction_ratio(&far).must("deduction")? as f64;
            let invariant = base * m.ded(&eval, &far);
            ensure!((got - invariant).abs() <= 3e-6 * moves as f64 * invariant, "spot times remaining deduction at {now}: observed {got}, expected {invariant}");
        }
        // a dividend built afresh on that date agrees
        let fresh = mk_div(&m, &ev(now))?;
        for q in &qs {
            let (a, b) = (fresh.get_deduction_ratio(q).must("fresh deduction")?, d.borrow().get_deduction_ratio(q).must("deduction")?);
            ensure!(near(a, b as f64, 1e-6), "deduction to {q} of a dividend built on {now}: observed {a}, of the moved one {b}");
        }
        if !s.more(&mut n, 4, 12) {
            break;
        }
    }
    c.nontrivial(crossed > 0);
    Ok(())
}
// ---------------------------------------------------------------- P05
pub const TENORS: [&str; 12] = ["1M", "2M", "3M", "6M", "9M", "1Y", "1Y6M", "2Y", "3Y", "4Y", "5Y", "10Y"];
struct Surf {
    tenors: Vec<String>,
    money: Vec<f32>,
    vol: Vec<Vec<f64>>, // at tenors x spot moneyness
    times: Vec<f64>,
    fwd: Vec<f64>,
    ref_spot: f64,
}
impl Surf {
    fn value(&self, t: f32, x: f32) -> f64 {
        let row = |i: usize| {
            let g: Vec<f64> = self.money.iter().map(|m| *m as f64 * self.ref_spot / self.fwd[i]).collect();
            line(&g, &self.vol[i], x as f64)
        };
        let v: Vec<f64> = (0..self.times.len()).map(row).collect();
        line(&self.times, &v, t as f64)
    }
}
fn surface(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let (coll, coll_m) = any_rates(s, false).build(&ed, "coll")?;
    let (borr, borr_m) = any_rates(s, false).build(&ed, "borr")?;
    let spot = *s.pick(&[100.0f32, 1.0, 350.0]);
    let div = if s.chance(1, 3) {
        let mut m = any_div(s, &eval);
        m.amounts.iter_mut().for_each(|a| *a = (*a / m.spot * spot as f64) as f32 as f64);
        m.spot = spot as f64;
        Some(m)
    } else {
        None
    };
    let dobj = match &div {
        Some(m) => Some(Rc::new(RefCell::new(mk_div(m, &ed)?))),
        None => None,
    };
    let price = Rc::new(RefCell::new(MarketPrice::new(spot, eval, dobj, Currency::KRW, "p".into(), "p".into())));
    let stick = *s.pick(&[StickynessType::StickyToMoneyness, StickynessType::StickyToStrike]);
    let k = s.usize(1, 6);
    let mut idx: Vec<usize> = (0..TENORS.len()).collect();
    s.shuffle(&mut idx);
    idx.truncate(k);
    idx.sort();
    let tenors: Vec<String> = idx.iter().map(|i| TENORS[*i].to_string()).collect();
    let nm = crate::maths::size(s, 1, 7, 25);
    let mut x = 0.5f32;
    let money: Vec<f32> = (0..nm)
        .map(|_| {
            x += *s.pick(&[0.025f32, 0.05, 0.1]);
            x
        })
        .collect();
    let init = || {
        LocalVolatilitySurface::initialize(
            ed.clone(), price.clone(), coll.clone(), borr.clone(), stick, VolatilityInterplator::default(), "v".into(), "v".into(),
        )
    };
    let times: Vec<f64> = tenors.iter().map(|t| yf(&eval, &addp(&eval, t)) as f64).collect();
    let forward = |sp: f64, d: &OffsetDateTime| {
        let t = yf(&eval, d) as f64;
        sp * borr_m.df(t).unwrap() / coll_m.df(t).unwrap() * div.as_ref().map_or(1.0, |m| m.ded(&eval, d))
    };
    let flat = s.chance(1, 4);
    let ref_spot;
    let (mut v, vol) = if flat {
        let vol = s.f(0.05, 0.9, 50) as f32;
        ref_spot = spot as f64;
        let data = ValueData::new(vol, None, Currency::NIL, "v".into(), "v".into()).must("value")?;
        c.note(format!("evaluation {eval} constant {vol} tenors {tenors:?} moneyness {money:?} {stick:?}"));
        (init().with_constant_volatility(&data, tenors.clone(), money.clone().into()).must("constant")?, vec![vec![vol as f64; nm]; k])
    } else {
        let (rows, cols) = (crate::maths::size(s, 2, 5, 25), crate::maths::size(s, 2, 6, 25));
        let rs = spot * *s.pick(&[1.0f32, 0.9, 1.2]);
        ref_spot = rs as f64;
        let mut d = eval + Duration::days(s.int(0, 60));
        let dates: Vec<OffsetDateTime> = (0..rows)
            .map(|_| {
                let r = d;
                d += Duration::days(s.int(20, 500));
                r
            })
            .collect();
        let mut kx = 0.4f32;
        let strikes: Vec<f32> = (0..cols)
            .map(|_| {
                kx += s.f(0.05, 0.3, 20) as f32;
                kx * rs
            })
            .collect();
        let vals: Vec<f32> = (0..rows * cols).map(|_| s.f(0.05, 0.9, 200) as f32).collect();
        c.note(format!(
            "evaluation {eval} spot {spot} surface spot {rs} dates {:?} strikes {strikes:?} vols {vals:?} tenors {tenors:?} moneyness {money:?} {stick:?}",
            dates.iter().map(|d| d.to_string()).collect::<Vec<_>>()
        ));
        let val = Array2::from_shape_vec((rows, cols), vals.clone()).unwrap();
        let mk = |dates: Vec<OffsetDateTime>, sp: Option<f32>| SurfaceData::new(sp, val.clone(), dates, strikes.clone().into(), Some(eval), Currency::NIL, "v".into(), "v".into());
        let data = mk(dates.clone(), Some(rs));
        // inputs that make no sense
        let mut bad = dates.clone();
        bad.swap(0, 1);
        ensure!(init().with_market_surface(&mk(bad.clone(), Some(rs)), tenors.clone(), money.clone().into()).is_err(), "unsorted maturities {bad:?} were accepted");
        let mut bad = dates.clone();
        bad[0] = eval - Duration::seconds(s.int(1, 86400 * 20));
        ensure!(init().with_market_surface(&mk(bad.clone(), Some(rs)), tenors.clone(), money.clone().into()).is_err(), "a maturity before the evaluation date {bad:?} was accepted");
        ensure!(init().with_market_surface(&mk(dates.clone(), None), tenors.clone(), money.clone().into()).is_err(), "a surface without spot was accepted");
        if k > 1 {
            let mut tt = tenors.clone();
            tt.swap(0, 1);
            ensure!(init().with_market_surface(&data, tt, money.clone().into()).is_err(), "unsorted tenors were accepted");
        }
        let gt: Vec<f64> = dates.iter().map(|d| yf(&eval, d) as f64).collect();
        let gm: Vec<f64> = strikes.iter().map(|x| (*x / rs) as f64).collect();
        let vol = times
            .iter()
            .map(|t| {
                money
                    .iter()
                    .map(|m| {
                        let rowv: Vec<f64> = (0..rows)
                            .map(|i| line(&gm, &(0..cols).map(|j| vals[i * cols + j] as f64).collect::<Vec<_>>(), *m as f64))
                            .collect();
                        line(&gt, &rowv, *t)
                    })
                    .collect()
            })
            .collect();
        (init().with_market_surface(&data, tenors.clone(), money.clone().into()).must("surface")?, vol)
    };
    let mut m = Surf { fwd: vec![], tenors: tenors.clone(), money: money.clone(), vol, times: times.clone(), ref_spot };
    for (i, t) in m.tenors.iter().enumerate() {
        ensure_eq!(v.get_imvol_matuirty_dates()[i], addp(&eval, t), "maturity of tenor {t}");
        ensure!(near(v.get_imvol_maturity_times()[i], times[i], 1e-6), "time of tenor {t}");
    }
    let steps = s.usize(1, 4);
    let mut stack: Vec<(Option<f32>, Option<f32>, Option<f32>, Option<f32>, f32)> = vec![];
    let vol0 = m.vol.clone();
    for step in 0..steps {
        let mut built = true;
        if step > 0 {
            match s.draw(3) {
                0 => {
                    // spot moves: only sticky strike shifts the forward axis
                    let p = spot * s.f(0.8, 1.2, 40) as f32;
                    price.borrow_mut().set_price(p);
                    c.note(format!("spot {p}"));
                    v.build().must("build")?;
                }
                _ => {
                    let tb = |s: &mut Src| (!s.chance(1, 3)).then(|| if s.bool() { *s.pick(&times) as f32 } else { s.f(0.0, 6.0, 100) as f32 + 0.03 });
                    let xb = |s: &mut Src| (!s.chance(1, 3)).then(|| if s.bool() { *s.pick(&money) } else { s.f(0.4, 1.6, 120) as f32 + 0.003 });
                    let (a, b, l, r) = (tb(s), tb(s), xb(s), xb(s));
                    let amount = *s.pick(&[0.01f32, -0.01, 0.001, 0.05]);
                    stack.push((a, b, l, r, amount));
                    c.note(format!("bump {amount} times {a:?} to {b:?} moneyness {l:?} to {r:?}"));
                    v.bump_volatility(a, b, l, r, amount).must("bump")?;
                    let inside = |x: f64, lo: Option<f32>, hi: Option<f32>| lo.map_or(true, |lo| lo as f64 + 1e-4 < x) && hi.map_or(true, |hi| x <= hi as f64 + 1e-4);
                    for i in 0..k {
                        for j in 0..nm {
                            if inside(times[i], a, b) && inside(money[j] as f64, l, r) {
                                m.vol[i][j] += amount as f64;
                            }
                        }
                    }
                    built = true;
                }
            }
        } else if s.bool() {
            Volatility::LocalVolatilitySurface(v.clone()).build().must("build")?;
            v.build().must("build")?;
        } else {
            v.build().must("build")?;
        }
        let _ = built;
        let base = match stick {
            StickynessType::StickyToMoneyness => ref_spot,
            StickynessType::StickyToStrike => price.borrow().get_value() as f64,
        };
        m.fwd = tenors.iter().map(|t| forward(base, &addp(&eval, t))).collect();
        for i in 0..k {
            for j in 0..nm {
                let g = v.get_interpolated_imvol()[[i, j]];
                ensure!(near(g, m.vol[i][j], 4e-6), "volatility at {} and moneyness {}: observed {g}, expected {}", tenors[i], money[j], m.vol[i][j]);
            }
        }
        let slope = 1.0 / 0.02; // steepest vol change per unit of moneyness
        for _ in 0..6 {
            let t = match s.draw(4) {
                0 => *s.pick(&times) as f32,
                1 => s.f(0.0, 0.2, 100) as f32,
                _ => s.f(0.0, 12.0, 500) as f32,
            };
            let x = match s.draw(3) {
                0 => {
                    let i = s.usize(0, k - 1);
                    (*s.pick(&money) as f64 * ref_spot / m.fwd[i]) as f32
                }
                _ => s.f(0.3, 2.0, 300) as f32,
            };
            let w = m.value(t, x);
            let g = v.get_value(t, x);
            ensure!(near(g, w, 5e-6 + slope * 2e-6 * (1.0 + x as f64)), "volatility at time {t} forward moneyness {x}: observed {g}, expected {w}");
            let (tv, td) = (v.total_variance(t, x).must("variance")?, v.total_deviation(t, x).must("deviation")?);
            let g = g as f64;
            ensure!(near(tv, g * g * t as f64, 1e-6 * (1.0 + t as f64)), "total variance at {t} {x}: observed {tv}, expected {}", g * g * t as f64);
            ensure!(near(td, g * (t as f64).sqrt(), 1e-6 * (1.0 + t as f64)), "total deviation at {t} {x}: observed {td}");
            if flat && step == 0 {
                ensure!(near(v.get_value(t, x), m.vol[0][0], 1e-6), "flat surface at {t} {x}: {g}");
                let later = v.total_variance(t + 0.5, x).must("variance")?;
                ensure!(later > tv, "total variance of a flat surface does not grow from {t}: {tv} then {later}");
            }
            let e = Volatility::LocalVolatilitySurface(v.clone());
            ensure_eq!(e.get_value(t, x), v.get_value(t, x), "through the volatility enum");
            ensure_eq!(e.total_variance(t, x).ok(), Some(tv), "variance through the volatility enum");
        }
        c.nontrivial(!flat && k > 1 && nm > 1);
    }
    while let Some((a, b, l, r, amount)) = stack.pop() {
        v.bump_volatility(a, b, l, r, -amount).must("undo")?;
    }
    for i in 0..k {
        for j in 0..nm {
            let g = v.get_interpolated_imvol()[[i, j]];
            ensure!(near(g, vol0[i][j], 4e-6), "volatility at {} and moneyness {} after undoing the bumps: observed {g}, before {}", tenors[i], money[j], vol0[i][j]);
        }
    }
    Ok(())
}
fn constant_vol(s: &mut Src, c: &mut Ctx) -> R {
    let v0 = s.f(0.0, 1.0, 100) as f32;
    let mut v = ConstantVolatility::new(v0, "n".into(), "c".into());
    let mut w = v0 as f64;
    let mut n = 0;
    c.note(format!("constant {v0}"));
    let mut bumps = vec![];
    loop {
        let (t, x) = (s.f(0.0, 30.0, 1000) as f32, s.f(0.1, 4.0, 100) as f32);
        let e = Volatility::ConstantVolatility(v.clone());
        let tol = 1.2e-7 * (bumps.len() + 2) as f64; // one rounding per bump
        ensure!(near(v.get_value(t, x), w, tol), "constant volatility at {t} {x}: observed {}, expected {w}", v.get_value(t, x));
        ensure!(near(v.total_variance(t, x).must("variance")?, w * w * t as f64, (1e-6 + 2.5 * tol) * (1.0 + t as f64)), "variance at {t}");
        ensure!(near(v.total_deviation(t, x).must("deviation")?, w * (t as f64).sqrt(), (1e-6 + tol) * (1.0 + t as f64)), "deviation at {t}");
        ensure_eq!((e.get_value(t, x), e.total_variance(t, x).ok(), e.total_deviation(t, x).ok()), (v.get_value(t, x), v.total_variance(t, x).ok(), v.total_deviation(t, x).ok()), "through the enum");
        let b = *s.pick(&[0.01f32, 0.001, -0.005]);
        c.note(format!("bump {b}"));
        let mut e = Volatility::ConstantVolatility(v.clone());
        e.bump_volatility(None, None, None, None, b).must("bump")?;
        v.bump_volatility(None, None, None, None, b).must("bump")?;
        ensure_eq!(e.get_value(1.0, 1.0), v.get_value(1.0, 1.0), "bump through the enum");
        bumps.push(b);
        w += b as f64;
        if !s.more(&mut n, 3, 10) {
            break;
        }
    }
    c.nontrivial(bumps.len() > 1);
    s.shuffle(&mut bumps);
    for b in bumps {
        v.bump_volatility(None, None, None, None, -b).must("undo")?;
    }
    ensure!(near(v.get_value(0.5, 1.0), v0 as f64, 2.4e-7 * (n + 3) as f64), "after undoing every bump: observed {}, before {v0}", v.get_value(0.5, 1.0));
    Ok(())
}
// ---------------------------------------------------------------- P06
fn past(s: &mut Src, c: &mut Ctx) -> R {
    let k = s.usize(0, 7);
    let (cal, name, own) = calendar_of(k);
    let o = own.unwrap_or_else(|| any_offset(s));
    let close = match s.draw(4) {
        0 => Time::MIDNIGHT,
        1 => Time::from_hms(23, 59, 59).unwrap(),
        _ => Time::from_hms(s.int(9, 20) as u8, s.int(0, 59) as u8, 0).unwrap(),
    };
    let mut d = any_date(s, 2001, 2040);
    let mut map: HashMap<Date, f32> = HashMap::new();
    let n = crate::maths::size(s, 1, 25, 400);
    let first = d;
    for _ in 0..n {
        map.insert(d, s.int(1, 100000) as f32);
        d += Duration::days(*s.pick(&[1i64, 1, 1, 2, 3, 9]));
    }
    let data = DailyValueData::new(map.clone(), close, o, cal.clone(), "n".into(), "c".into());
    let mut p = if s.bool() { DailyClosePrice::new_from_data(&data).must("from data")? } else { DailyClosePrice::new(map.clone(), close, o, cal.clone(), "n".into(), "c".into()) };
    c.note(format!("{name} offset {o} close {close} dates {first} to {d}"));
    let mut want: Vec<(Date, f32)> = map.iter().map(|(a, b)| (*a, *b)).collect();
    want.sort_by_key(|x| x.0);
    let ordered = (want.iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.1).collect::<Vec<_>>());
    ensure_eq!(p.get_ordered_data_by_datetime(), ordered, "ordered history");
    ensure_eq!(data.get_ordered_data_by_date(), ordered, "ordered data");
    for i in 0..8 {
        let day = match s.draw(3) {
            0 => *s.pick(&ordered.0),
            _ => first + Duration::days(s.int(-4, 60)),
        };
        let day = if i == 7 && s.bool() {
            let v = s.int(1, 999) as f32;
            if s.bool() {
                map.insert(day, v);
                p.set_value(map.clone());
            } else if let Some(x) = p.get_mut(&day) {
                *x = v;
                map.insert(day, v);
            }
            day
        } else {
            day
        };
        ensure_eq!(p.get(&day), map.get(&day), "value of {day}");
        ensure_eq!(p.get_value().get(&day), map.get(&day), "recorded value of {day}");
        let t = match s.draw(4) {
            0 => close,
            1 => (OffsetDateTime::new_in_offset(day, close, o) + Duration::seconds(1)).time(),
            _ => any_time(s),
        };
        let local = OffsetDateTime::new_in_offset(day, t, o);
        let q = if s.bool() { local.to_offset(any_offset(s)) } else { local };
        let mut e = day;
        if t > close {
            e += Duration::days(1);
            while rule_closed(k, e) {
                e += Duration::days(1);
            }
            c.nontrivial(true);
        }
        ensure_eq!(p.get_at_datetime(&q), map.get(&e), "value at {q} (local {local}, close {close}), expected that of {e}");
    }
    Ok(())
}
/// what one floating coupon depends on
pub struct Cpn<'a> {
    pub cv: &'a Cv,
    /// day of the curve
    pub eval: OffsetDateTime,
    /// day before which fixings are known
    pub now: OffsetDateTime,
    pub tenor: &'a str,
    pub overnight: Option<&'a str>,
    pub spread: f64,
    pub fixing_days: i64,
    pub hist: &'a HashMap<Date, f32>,
    pub dc: quantlib::time::conventions::DayCountConvention,
    pub cal: &'a JointCalendar,
    pub ks: &'a [usize],
}
impl Cpn<'_> {
    pub fn preceding(&self, d: OffsetDateTime) -> OffsetDateTime {
        let mut d = d;
        while self.ks.iter().any(|k| closed_at(*k, &d)) {
            d -= Duration::days(1);
        }
        d
    }
    /// (amount, tolerance), None when a forward lies outside the curve. Every forward has the right
    /// value or (listed) the one of the listed finding of P01.
    pub fn amount(&self, fixing: OffsetDateTime, start: OffsetDateTime, end: OffsetDateTime, listed: bool) -> Option<(f64, f64)> {
        let (eval, now) = (self.eval, self.now);
        let f = |a: &OffsetDateTime, b: &OffsetDateTime| {
            let (r, l, tol) = fwd(self.cv, yf(&eval, a), yf(&eval, b), Compounding::Simple)?;
            Some((if listed { l } else { r }, tol))
        };
        let frac = |a: &OffsetDateTime, b: &OffsetDateTime| self.cal.year_fraction(a, b, &self.dc).map(|x| x as f64);
        match self.overnight {
            None => {
                let e = addp(&fixing, self.tenor);
                let (r, tol) = if fixing < now {
                    match self.hist.get(&fixing.date()) {
                        Some(r) => (*r as f64, 1e-7),
                        None if e < eval => return None,
                        None => f(&eval, &e)?,
                    }
                } else {
                    f(&fixing, &e)?
                };
                let fr = frac(&start, &end).ok()?;
                Some(((r + self.spread) * fr, tol * fr + 1e-6))
            }
            Some(_) if fixing >= now => {
                let a = f(&fixing, &addp(&fixing, self.tenor))?;
                let l = end - Duration::days(self.fixing_days);
                let b = f(&l, &addp(&l, self.tenor))?;
                let fr = frac(&start, &end).ok()?;
                Some((((a.0 + b.0) / 2.0 + self.spread) * fr, (a.1 + b.1) / 2.0 * fr + 1e-6))
            }
            Some(ct) => {
                let spot = f(&now, &addp(&now, ct))?;
                let mut v = 1.0;
                let mut tol = 1e-6;
                let mut d = start;
                while d < end {
                    let fx = self.preceding(d - Duration::days(self.fixing_days));
                    let n = addp(&d, ct).min(end);
                    let fr = frac(&d, &n).ok()?;
                    let (r, t) = if fx < now {
                        self.hist.get(&fx.date()).map(|r| (*r as f64, 1e-7)).unwrap_or(spot)
                    } else {
                        f(&fx, &addp(&fx, self.tenor))?
                    };
                    v *= 1.0 + (r + self.spread) * fr;
                    tol += t * fr + 3e-7;
                    d = n;
                }
                Some((v - 1.0, tol))
            }
        }
    }
}
fn coupon(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let rates = any_rates(s, false);
    let (z, cv) = rates.build(&ed, "curve")?;
    let k = s.usize(0, 7);
    let (cal, name, own) = calendar_of(k);
    let o = own.unwrap_or(eval.offset());
    let eval = eval.to_offset(o);
    ed.borrow_mut().set_date(eval);
    let cal = JointCalendar::new(vec![cal]).must("calendar")?;
    let dc = *s.pick(&DCS);
    let tenor = *s.pick(&["1D", "91D", "3M", "6M", "1M"]);
    let overnight = s.chance(1, 2).then(|| if s.chance(1, 6) { "1W".to_string() } else { "1D".to_string() });
    let spread = s.chance(1, 2).then(|| s.f(-0.01, 0.02, 30) as f32);
    let fixing_days = s.int(0, 7);
    // at times the fixing falls on the day of the evaluation, at another time of it
    let start = eval + Duration::days(if s.chance(1, 4) { fixing_days } else { s.int(-120, 300) });
    let start = match s.draw(6) {
        0 => start.replace_time(Time::MIDNIGHT),
        1 | 2 => start.replace_time(any_time(s)),
        _ => start,
    };
    let end = start + Duration::days(s.int(1, 100));
    let preceding = |d: OffsetDateTime| {
        let mut d = d;
        while rule_closed(k, d.date()) {
            d -= Duration::days(1);
        }
        d
    };
    let fixing = preceding(start - Duration::days(fixing_days));
    let sch = BaseSchedule::new(fixing, start, end, end, None);
    let mut hist: HashMap<Date, f32> = HashMap::new();
    let gaps = s.chance(1, 3);
    let mut d = start.date() - Duration::days(30);
    while d <= end.date() {
        if !rule_closed(k, d) && !(gaps && s.chance(1, 3)) {
            hist.insert(d, s.f(-0.01, 0.08, 300) as f32);
        }
        d += Duration::days(1);
    }
    c.note(format!(
        "evaluation {eval} {} index {tenor} compounding {overnight:?} spread {spread:?} fixing days {fixing_days} {name} {dc:?} fixing {fixing} start {start} end {end}",
        rates.note()
    ));
    let index = RateIndex::new(tenor.into(), Currency::KRW, "i".into(), "i".into()).must("index")?;
    let close = Rc::new(DailyClosePrice::new(hist.clone(), Time::from_hms(16, 0, 0).unwrap(), o, calendar_of(k).0, "i".into(), "i".into()));
    let now = if s.chance(1, 4) { eval + Duration::days(s.int(0, 100)) } else { eval };
    let got = index.get_coupon_amount(&sch, spread, z.clone(), close, &now, overnight.as_ref(), &cal, &dc, fixing_days);
    let m = Cpn {
        cv: &cv,
        eval,
        now,
        tenor,
        overnight: overnight.as_deref(),
        spread: spread.unwrap_or(0.0) as f64,
        fixing_days,
        hist: &hist,
        dc,
        cal: &cal,
        ks: &[k],
    };
    let model = |listed: bool| m.amount(fixing, start, end, listed);
    c.nontrivial(fixing < eval && end > eval);
    match (got, model(false), model(true)) {
        (Err(_), None, _) => Ok(()),
        (Ok(g), Some((right, tol)), Some((listed, _))) => {
            ensure!(near(g, right, tol * 1.1) || near(g, listed, tol * 1.1), "coupon: observed {g}, expected {right} (listed finding {listed}, tolerance {tol:e})");
            Ok(())
        }
        (g, w, _) => fail!("coupon: observed {g:?}, expected {w:?}"),
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P01",
            facets: vec![
                facet("curve", "the curve has two or more market rates", 32000, 960000, zero_curve),
                facet("refusals", "every case builds data the curve must refuse", 2000, 60000, refusals),
                probe("simple-forward", "one year forward one year on a flat 5% curve", simple_forward),
            ],
            assumptions: &["elapsed times between dates are those of property D02", "single precision: discount factors within 4e-7 times the exponent"],
        },
        Property {
            id: "P02",
            facets: vec![
                facet("curve", "a bump moves some nodes and leaves others", 96000, 2880000, curve_bumps),
                facet("dividend", "a bump moves some dividends and leaves others", 240000, 7200000, dividend_bumps),
                facet("surface", "a surface with several maturities and levels, bumped", 60000, 1800000, surface),
                facet("constant", "two or more bumps", 120000, 3600000, constant_vol),
            ],
            assumptions: &["bumps are undone to within single precision rounding", "ends of a volatility bump within 1e-4 of a node include it"],
        },
        Property {
            id: "P03",
            facets: vec![facet("roll", "a move of the evaluation date passes an ex-dividend date", 600000, 18000000, roll)],
            assumptions: &["all ex-dividend dates and valuation dates of a case share one time zone offset", "the spot is observed at the first evaluation date"],
        },
        Property {
            id: "P05",
            facets: vec![
                facet("surface", "a market surface shown on several maturities and levels", 120000, 3600000, surface),
                facet("constant", "two or more bumps", 100000, 3000000, constant_vol),
            ],
            assumptions: &["single precision: volatilities within 5e-6 plus the slope in moneyness times its rounding"],
        },
        Property {
            id: "P06",
            facets: vec![
                facet("past", "a query after the close", 600000, 18000000, past),
                facet("coupon", "the fixing date is past and the period ends later", 240000, 7200000, coupon),
            ],
            assumptions: &["elapsed times are those of property D02, day counts those of D01, forwards those of P01"],
        },
    ]
}
