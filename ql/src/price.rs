//! V01 options, V02 forwards, V03 bonds and swaps, V04 yields: pricers on market objects against models of the values.
use crate::cal::any_time;
use crate::instr::*;
use crate::mk::*;
use crate::params::*;
use quantlib::currency::{Currency, FxCode};
use quantlib::data::surface_data::SurfaceData;
use quantlib::enums::*;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::quanto::Quanto;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
use quantlib::parameters::volatilities::volatiltiy_interpolator::VolatilityInterplator;
use quantlib::parameters::volatility::Volatility;
use quantlib::pricing_engines::bond_pricer::BondPricer;
use quantlib::pricing_engines::cash_pricer::CashPricer;
use quantlib::pricing_engines::futures_pricer::FuturesPricer;
use quantlib::pricing_engines::fx_futures_pricer::FxFuturesPricer;
use quantlib::pricing_engines::identity_pricer::IdentityPricer;
use quantlib::pricing_engines::krx_yield_pricer::KrxYieldPricer;
use quantlib::pricing_engines::ktbf_pricer::KtbfPricer;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::pricing_engines::option_analytic_pricer::OptionAnalyticPricer;
use quantlib::pricing_engines::plain_swap_pricer::PlainSwapPricer;
use quantlib::pricing_engines::pricer::{Pricer, PricerTrait};
use quantlib::pricing_engines::unit_pricer::UnitPricer;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::conventions::{DayCountConvention as Dc, PaymentFrequency as Pf};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use time::{Duration, OffsetDateTime};
use vf::*;

fn near(a: f32, b: f64, tol: f64) -> bool {
    (a as f64 - b).abs() <= tol
}
/// standard normal distribution function
pub fn ncdf(x: f64) -> f64 {
    let z = x.abs();
    let phi = (-z * z / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt();
    let tail = if z < 4.0 {
        // 1/2 - phi * (z + z^3/3 + z^5/15 + ...)
        let (mut t, mut sum, mut k) = (z, z, 1.0);
        while t.abs() > 1e-18 * sum.abs() + 1e-300 {
            k += 2.0;
            t *= z * z / k;
            sum += t;
        }
        0.5 - phi * sum
    } else {
        let mut f = 0.0;
        for k in (1..=60).rev() {
            f = k as f64 / (z + f);
        }
        phi / (z + f)
    };
    if x > 0.0 { 1.0 - tail } else { tail }
}
pub type Mp = Rc<RefCell<MarketPrice>>;
/// spot with its carry: what a forward depends on
pub struct Spot {
    pub eval: OffsetDateTime,
    pub spot: f32,
    pub div: Option<Div>,
    pub price: Mp,
    pub coll: (Zc, Cv),
    pub borr: (Zc, Cv),
}
impl Spot {
    pub fn any(s: &mut Src, ed: &Ev, ccy: Currency) -> Result<(Spot, String), Stop> {
        let eval = ed.borrow().get_date_clone();
        let (rc, rb) = (any_rates(s, false), any_rates(s, false));
        let div = s.bool().then(|| any_div(s, &eval));
        let spot = div.as_ref().map(|d| d.spot as f32).unwrap_or_else(|| *s.pick(&[100.0f32, 1.0, 350.0, 64000.0]));
        let dobj = match &div {
            Some(d) => Some(Rc::new(RefCell::new(mk_div(d, ed)?))),
            None => None,
        };
        let price = Rc::new(RefCell::new(MarketPrice::new(spot, eval, dobj, ccy, "p".into(), "p".into())));
        let note = format!(
            "spot {spot} collateral {} borrowing {} dividends {:?}",
            rc.note(),
            rb.note(),
            div.as_ref().map(|d| d.dates.iter().zip(&d.amounts).map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>())
        );
        Ok((Spot { eval, spot, div, price, coll: rc.build(ed, "coll")?, borr: rb.build(ed, "borr")? }, note))
    }
    /// forward and the relative bound on its rounding
    pub fn forward(&self, d: &OffsetDateTime) -> Option<(f64, f64)> {
        let t = yf(&self.eval, d) as f64;
        let (b, c) = (self.borr.1.df(t)?, self.coll.1.df(t)?);
        let tol = self.borr.1.df_tol(t) / b + self.coll.1.df_tol(t) / c + 2e-6;
        Some((self.spot as f64 * b / c * self.div.as_ref().map_or(1.0, |m| m.ded(&self.eval, d)), tol))
    }
    pub fn pricer(&self) -> FuturesPricer {
        FuturesPricer::new(self.price.clone(), self.coll.0.clone(), self.borr.0.clone())
    }
}
fn any_maturity(s: &mut Src, eval: &OffsetDateTime) -> OffsetDateTime {
    let d = match s.draw(6) {
        0 => *eval + Duration::days(s.int(1, 10)),
        1 => *eval + Duration::days(s.int(1000, 11000)),
        _ => *eval + Duration::days(s.int(1, 1200)),
    };
    if s.chance(1, 3) {
        let x = d.replace_time(any_time(s));
        if x > *eval { x } else { d }
    } else {
        d
    }
}
// ---------------------------------------------------------------- V01
fn any_vol(s: &mut Src, ed: &Ev, m: &Spot) -> Result<(Volatility, String), Stop> {
    if s.chance(1, 3) {
        let v = if s.chance(1, 20) { 0.0 } else { s.f(0.02, 0.9, 88) as f32 };
        return Ok((Volatility::ConstantVolatility(ConstantVolatility::new(v, "v".into(), "v".into())), format!("volatility {v}")));
    }
    let tenors: Vec<String> = ["1M", "3M", "6M", "1Y", "3Y"].iter().map(|x| x.to_string()).collect();
    let money = vec![0.7f32, 0.8, 0.9, 0.95, 1.0, 1.05, 1.1, 1.2, 1.3];
    let (rows, cols) = (s.usize(2, 4), s.usize(2, 5));
    let dates: Vec<OffsetDateTime> = (0..rows).map(|i| m.eval + Duration::days(40 + 170 * i as i64)).collect();
    let strikes: Vec<f32> = (0..cols).map(|j| m.spot * (0.7 + 0.15 * j as f32)).collect();
    let vals: Vec<f32> = (0..rows * cols).map(|_| s.f(0.05, 0.6, 110) as f32).collect();
    let note = format!("volatilities {vals:?} ({rows} x {cols})");
    let data = SurfaceData::new(Some(m.spot), ndarray::Array2::from_shape_vec((rows, cols), vals).unwrap(), dates, strikes.into(), Some(m.eval), Currency::NIL, "v".into(), "v".into());
    let mut v = LocalVolatilitySurface::initialize(
        ed.clone(), m.price.clone(), m.coll.0.clone(), m.borr.0.clone(), StickynessType::StickyToMoneyness, VolatilityInterplator::default(), "v".into(), "v".into(),
    )
    .with_market_surface(&data, tenors, money.into())
    .must("surface")?;
    v.build().must("build")?;
    Ok((Volatility::LocalVolatilitySurface(v), note))
}
struct Opt {
    strike: f32,
    mat: OffsetDateTime,
    call: bool,
    unit: f32,
    und_ccy: Currency,
    ccy: Currency,
}
impl Opt {
    fn inst(&self) -> Instrument {
        let o = self;
        Instrument::VanillaOption(VanillaOption::new(
            o.strike,
            o.unit,
            o.mat - Duration::days(100),
            o.mat,
            o.mat,
            o.mat,
            vec!["p".into()],
            o.und_ccy,
            o.ccy,
            if o.call { OptionType::Call } else { OptionType::Put },
            OptionExerciseType::European,
            OptionDailySettlementType::NotSettled,
            "option".into(),
            "option".into(),
        ))
    }
}
/// Black's formula on the forward
pub fn black(call: bool, f: f64, k: f64, dev: f64, dsc: f64) -> f64 {
    if dev == 0.0 {
        return dsc * if call { f - k } else { k - f }.max(0.0);
    }
    let d1 = (f / k).ln() / dev + dev / 2.0;
    let d2 = d1 - dev;
    dsc * if call { f * ncdf(d1) - k * ncdf(d2) } else { k * ncdf(-d2) - f * ncdf(-d1) }
}
fn option(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let und_ccy = *s.pick(&[Currency::USD, Currency::EUR]);
    let ccy = if s.chance(1, 2) { und_ccy } else { Currency::KRW };
    let (m, n1) = Spot::any(s, &ed, und_ccy)?;
    let rd = any_rates(s, false);
    let (dz, dcv) = rd.build(&ed, "dsc")?;
    let (vol, n2) = any_vol(s, &ed, &m)?;
    // the engine values options at the very moment they expire
    let mat = if s.chance(1, 20) { eval } else { any_maturity(s, &eval) };
    let t = yf(&eval, &mat);
    let strike = m.spot * if s.chance(1, 8) { 1.0 } else if s.chance(1, 5) { s.f(0.1, 4.0, 100) as f32 } else { s.f(0.6, 1.5, 180) as f32 };
    // a quanto adjustment may be configured even if it is not needed
    let quanto = if ccy != und_ccy { !s.chance(1, 6) } else { s.chance(1, 12) };
    let (fxv, rho) = (s.f(0.0, 0.4, 40) as f32, s.f(-1.0, 1.0, 40) as f32);
    let q = quanto.then(|| {
        let v = Rc::new(RefCell::new(Volatility::ConstantVolatility(ConstantVolatility::new(fxv, "fx".into(), "fx".into()))));
        Rc::new(RefCell::new(Quanto::new(v, rho, FxCode::new(und_ccy, ccy), "p".into())))
    });
    let mut o = Opt { strike, mat, call: true, unit: s.f(1.0, 1e6, 9) as f32, und_ccy, ccy };
    c.note(format!("{n1} {n2} discount {} evaluation {eval} maturity {mat} strike {strike} {und_ccy:?} in {ccy:?} quanto {:?}", rd.note(), quanto.then_some((fxv, rho))));
    let vol = Rc::new(RefCell::new(vol));
    let p = OptionAnalyticPricer::new(ed.clone(), m.price.clone(), m.coll.0.clone(), m.borr.0.clone(), dz.clone(), vol.clone(), q);
    let call = o.inst();
    o.call = false;
    let put = o.inst();
    if ccy != und_ccy && !quanto {
        ensure!(p.npv(&call).is_err() && p.npv(&put).is_err(), "an option in another currency than its underlying's was priced without a quanto adjustment");
        return Ok(());
    }
    let Some(((fwd, ftol), dsc)) = m.forward(&mat).zip(dcv.df(t as f64)) else {
        ensure!(p.npv(&call).is_err(), "priced beyond the curves");
        return Ok(());
    };
    let price = |i: &Instrument| p.npv(i).must("npv");
    let (gc, gp) = (price(&call)?, price(&put)?);
    let tt = t as f64;
    let k = strike as f64;
    let x = (k / fwd) as f32;
    let v = vol.borrow().get_value(t, x) as f64;
    let dev = v * tt.sqrt();
    let adj = if quanto { rho as f64 * fxv as f64 * v * tt } else { 0.0 };
    let f = fwd * (-adj).exp();
    let dtol = dcv.df_tol(tt) / dsc;
    // a surface is steep in moneyness between two quotes
    let slope = if matches!(*vol.borrow(), Volatility::ConstantVolatility(_)) { 0.0 } else { 25.0 * (ftol + 3e-7) * x as f64 };
    let tol = dsc * (2.0 * (ftol + dtol + 2e-6 + 1e-6 * adj.abs()) * (f + k) + (slope + 1e-6) * tt.sqrt() * f.max(k));
    let (wc, wp) = (black(true, f, k, dev, dsc), black(false, f, k, dev, dsc));
    c.nontrivial(wc > 20.0 * tol && wp > 20.0 * tol);
    ensure!(near(gc, wc, tol), "call: observed {gc}, expected {wc} (within {tol:e}; forward {fwd}, quanto forward {f}, deviation {dev})");
    ensure!(near(gp, wp, tol), "put: observed {gp}, expected {wp} (within {tol:e}; forward {fwd}, quanto forward {f}, deviation {dev})");
    // relations that hold whatever the volatility
    let (c64, p64) = (gc as f64, gp as f64);
    ensure!((c64 - p64 - dsc * (f - k)).abs() <= tol, "parity: call {gc} less put {gp}, expected {}", dsc * (f - k));
    for (g, i, top) in [(c64, (f - k).max(0.0) * dsc, f * dsc), (p64, (k - f).max(0.0) * dsc, k * dsc)] {
        ensure!(g >= i - tol && g <= top + tol, "bounds: observed {g}, expected between {i} and {top}");
    }
    for (i, g) in [(&call, gc), (&put, gp)] {
        let r = p.npv_result(i).must("npv result")?;
        ensure_eq!((r.get_npv(), r.get_expected_coupon_amount().must("coupons")?.len()), (g, 0), "detailed result");
        ensure_eq!(p.fx_exposure(i, g).must("exposure")?, HashMap::from([(ccy, g * o.unit)]), "currency exposure");
    }
    // a higher strike
    let up = s.f(0.01, 0.5, 50);
    o.strike = strike * (1.0 + up as f32);
    let (p2, c2) = (price(&o.inst())?, {
        o.call = true;
        price(&o.inst())?
    });
    if slope == 0.0 {
        let w = dsc * k * up;
        ensure!(c2 as f64 <= c64 + tol && c2 as f64 >= c64 - w - tol, "call at a strike {} higher: {c2}, before {gc}", o.strike - strike);
        ensure!(p2 as f64 >= p64 - tol && p2 as f64 <= p64 + w + tol, "put at a strike {} higher: {p2}, before {gp}", o.strike - strike);
        // a higher spot, then a higher volatility
        m.price.borrow_mut().set_price(m.spot * (1.0 + up as f32));
        let (c3, p3) = (price(&call)? as f64, price(&put)? as f64);
        ensure!(c3 >= c64 - tol && p3 <= p64 + tol, "at a spot {up} higher: call {c3} put {p3}, before {gc} and {gp}");
        m.price.borrow_mut().set_price(m.spot);
        if !quanto {
            vol.borrow_mut().bump_volatility(None, None, None, None, 0.05).must("bump")?;
            let (c4, p4) = (price(&call)? as f64, price(&put)? as f64);
            ensure!(c4 >= c64 - tol && p4 >= p64 - tol, "at a volatility 0.05 higher: call {c4} put {p4}, before {gc} and {gp}");
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- V02
fn forwards(s: &mut Src, c: &mut Ctx) -> R {
    let eval = any_eval(s);
    let ed = ev(eval);
    let ccy = *s.pick(&[Currency::USD, Currency::KRW]);
    let (m, note) = Spot::any(s, &ed, ccy)?;
    let mat = if s.chance(1, 12) { eval } else { any_maturity(s, &eval) };
    let (atp, unit) = (m.spot * s.f(0.5, 1.5, 40) as f32, s.f(1.0, 1e6, 9) as f32);
    c.note(format!("{note} evaluation {eval} maturity {mat} traded at {atp} unit {unit}"));
    let f = Instrument::Futures(Futures::new(atp, eval, mat, mat, mat, unit, ccy, ccy, "p".into(), "f".into(), "f".into()));
    let p = Pricer::FuturesPricer(m.pricer());
    let Some((w, tol)) = m.forward(&mat) else {
        ensure!(p.npv(&f).is_err(), "priced beyond the curves");
        return Ok(());
    };
    c.nontrivial((w / m.spot as f64 - 1.0).abs() > 1e-3);
    let g = p.npv(&f).must("npv")?;
    ensure!(near(g, w, tol * w.abs()), "futures: observed {g}, expected {w}");
    ensure_eq!(m.pricer().fair_forward(&mat).must("forward")?, g, "fair forward");
    ensure_eq!(p.npv_result(&f).must("result")?.get_npv(), g, "detailed value");
    let x = p.fx_exposure(&f, g).must("exposure")?;
    ensure_eq!(x.keys().collect::<Vec<_>>(), vec![&ccy], "currencies of the exposure");
    ensure!(near(x[&ccy], (g as f64 - atp as f64) * unit as f64, 1e-6 * (g + atp) as f64 * unit as f64), "exposure: observed {}, expected {}", x[&ccy], (g - atp) * unit);
    // the pricer sees later prices
    let up = m.spot * 1.25;
    m.price.borrow_mut().set_price(up);
    let g2 = p.npv(&f).must("npv")?;
    ensure!(near(g2, w * 1.25, 1.25 * tol * w.abs()), "futures after a move of the spot: observed {g2}, expected {}", w * 1.25);
    // spot instruments
    let st = Instrument::Stock(Stock::new("s".into(), "s".into(), vec!["p".into()], ccy, None));
    let ip = Pricer::IdentityPricer(IdentityPricer::new(m.price.clone()));
    ensure_eq!(ip.npv(&st).must("npv")?, up, "stock");
    ensure_eq!(ip.npv_result(&st).must("result")?.get_npv(), up, "stock, detailed");
    ensure_eq!(ip.fx_exposure(&st, up).must("exposure")?, HashMap::from([(ccy, up)]), "exposure of a stock");
    let cash = Instrument::Cash(Cash::new(ccy, "c".into(), "c".into()));
    let up = Pricer::UnitPricer(UnitPricer::new());
    ensure_eq!((up.npv(&cash).must("npv")?, CashPricer::new().npv(&cash).must("npv")?), (1.0, 1.0), "cash");
    ensure_eq!(up.npv_result(&cash).must("result")?.get_npv(), 1.0, "cash, detailed");
    ensure_eq!(CashPricer::new().npv_result(&cash).must("result")?.get_npv(), 1.0, "cash, detailed");
    ensure_eq!(up.fx_exposure(&cash, 1.0).must("exposure")?, HashMap::from([(ccy, 1.0)]), "exposure of cash");
    // instruments of another kind
    ensure!(p.npv(&cash).is_err() && p.npv_result(&cash).is_err() && p.fx_exposure(&cash, 1.0).is_err(), "the futures pricer priced cash");
    Ok(())
}
struct FxCase {
    fx: f32,
    atp: f32,
    unit: f32,
    mat: OffsetDateTime,
    inst: Instrument,
    pricer: Pricer,
    und: Cv,
    fut: Cv,
    t: f64,
    price: Mp,
}
const UND: Currency = Currency::USD;
const FUT: Currency = Currency::KRW;
fn fx_case(s: &mut Src, c: &mut Ctx) -> R<FxCase> {
    let eval = any_eval(s);
    let ed = ev(eval);
    let (ru, rf) = (any_rates(s, false), any_rates(s, false));
    let ((zu, und), (zf, fut)) = (ru.build(&ed, "und")?, rf.build(&ed, "fut")?);
    let fx = *s.pick(&[1300.0f32, 1.0, 0.007, 9.25]);
    let mat = if s.chance(1, 12) { eval } else { any_maturity(s, &eval) };
    let (atp, unit) = (fx * s.f(0.5, 1.5, 40) as f32, s.f(1.0, 1e6, 9) as f32);
    c.note(format!("fx {fx} underlying currency {} futures currency {} evaluation {eval} maturity {mat} traded at {atp} unit {unit}", ru.note(), rf.note()));
    let price = Rc::new(RefCell::new(MarketPrice::new(fx, eval, None, FUT, "fx".into(), "fx".into())));
    let inst = Instrument::FxFutures(FxFutures::new(atp, eval, mat, mat, mat, unit, FUT, UND, "f".into(), "f".into()));
    let pricer = Pricer::FxFuturesPricer(FxFuturesPricer::new(price.clone(), zu, zf));
    Ok(FxCase { fx, atp, unit, mat, inst, pricer, und, fut, t: yf(&eval, &mat) as f64, price })
}
fn fx_forwards(s: &mut Src, c: &mut Ctx) -> R {
    let k = fx_case(s, c)?;
    let Some((u, f)) = k.und.df(k.t).zip(k.fut.df(k.t)) else {
        ensure!(k.pricer.npv(&k.inst).is_err(), "priced beyond the curves");
        return Ok(());
    };
    let (ut, ft) = (k.und.df_tol(k.t), k.fut.df_tol(k.t));
    let w = k.fx as f64 * u / f;
    c.nontrivial((u / f - 1.0).abs() > 1e-3);
    let g = k.pricer.npv(&k.inst).must("npv")?;
    ensure!(near(g, w, w * (ut / u + ft / f + 1e-6)), "fx futures until {}: observed {g}, expected {w}", k.mat);
    ensure_eq!(k.pricer.npv_result(&k.inst).must("result")?.get_npv(), g, "detailed value");
    let x = k.pricer.fx_exposure(&k.inst, g).must("exposure")?;
    ensure_eq!(x.len(), 2, "number of currencies in the exposure");
    // per unit of notional (the listed finding) or for the unit notional
    let ok = |n: f64| near(x[&FUT], -f * k.atp as f64 * n, n * k.atp as f64 * (ft + 1e-6 * f)) && near(x[&UND], u * n, n * (ut + 1e-6 * u));
    ensure!(ok(1.0) || ok(k.unit as f64), "exposure: observed {x:?}, expected {} {FUT:?} and {u} {UND:?}, for one unit or {}", -f * k.atp as f64, k.unit);
    k.price.borrow_mut().set_price(k.fx * 0.5);
    let g2 = k.pricer.npv(&k.inst).must("npv")?;
    ensure!(near(g2, w * 0.5, w * (ut / u + ft / f + 1e-6)), "after a move of the rate: observed {g2}, expected {}", w * 0.5);
    Ok(())
}
fn fx_exposure_unit(_: &mut Src, c: &mut Ctx) -> R {
    c.note("flat zero rates, 10000 USD bought forward at 1300 KRW");
    let eval = time::macros::datetime!(2024-01-02 00:00 UTC);
    let ed = ev(eval);
    let r = || Rates { days: vec![365], rates: vec![0.0], by_date: false };
    let price = Rc::new(RefCell::new(MarketPrice::new(1300.0, eval, None, FUT, "fx".into(), "fx".into())));
    let mat = eval + Duration::days(100);
    let inst = Instrument::FxFutures(FxFutures::new(1300.0, eval, mat, mat, mat, 10000.0, FUT, UND, "f".into(), "f".into()));
    let p = FxFuturesPricer::new(price, r().build(&ed, "und")?.0, r().build(&ed, "fut")?.0);
    let x = p.fx_exposure(&inst, 1300.0).must("exposure")?;
    ensure!(near(x[&UND], 10000.0, 1.0) && near(x[&FUT], -13e6, 10.0), "exposure of 10000 USD bought forward at 1300 KRW: observed {x:?}, expected 10000 USD and -13000000 KRW");
    Ok(())
}
// ---------------------------------------------------------------- V03
/// value of the flows after the day of `now`, per unit of the curve, with the bound on rounding
fn discounted(f: &Flows, now: &OffsetDateTime, eval: &OffsetDateTime, cv: &Cv) -> Option<(f64, f64)> {
    let (mut v, mut tol) = (0.0, 0.0);
    for (d, (a, at)) in f {
        if d.date() > now.date() {
            let t = yf(eval, d) as f64;
            let df = cv.df(t)?;
            v += a * df;
            tol += at * df * 1.01 + a.abs() * (cv.df_tol(t) + 2e-7 * df * f.len() as f64) + 1e-9;
        }
    }
    Some((v, tol))
}
fn same_report(got: &NpvResult, want: &[(&HashMap<OffsetDateTime, f32>, f32)], npv: f32) -> R {
    ensure!(near(got.get_npv(), npv as f64, 2e-6 * (npv.abs() as f64 + want.iter().flat_map(|(m, x)| m.values().map(move |v| (v * x).abs() as f64)).sum::<f64>()) + 1e-9), "value of the detailed result: {} instead of {npv}", got.get_npv());
    let mut g: Vec<(OffsetDateTime, f32)> = got.get_cashflow_amounts().values().cloned().collect();
    let mut w: Vec<(OffsetDateTime, f32)> = want.iter().flat_map(|(m, x)| m.iter().map(move |(d, a)| (*d, a * x))).collect();
    let by = |a: &(OffsetDateTime, f32), b: &(OffsetDateTime, f32)| (a.0, a.1).partial_cmp(&(b.0, b.1)).unwrap();
    g.sort_by(by);
    w.sort_by(by);
    ensure_eq!(g, w, "reported cash flows");
    let e = got.get_expected_coupon_amount().must("expected amounts")?;
    let mut sum: BTreeMap<OffsetDateTime, (f64, f64)> = BTreeMap::new();
    for (d, a) in w {
        let x = sum.entry(d).or_default();
        *x = (x.0 + a as f64, x.1 + a.abs() as f64);
    }
    let mut days: Vec<_> = e.keys().copied().collect();
    days.sort();
    ensure_eq!(days, sum.keys().copied().collect::<Vec<_>>(), "dates of the expected amounts");
    for (d, (a, size)) in sum {
        ensure!(near(e[&d], a, 3e-7 * size), "expected amount on {d}: observed {}, expected {a}", e[&d]);
    }
    Ok(())
}
fn bonds(s: &mut Src, c: &mut Ctx) -> R {
    let most = if s.chance(1, 40) { 300 } else { 24 };
    let Some((b, eval)) = BondCase::any(s, most, true) else { return discard() };
    let ed = ev(eval);
    let (fz, fcv) = b.fl.rates.build(&ed, "forward")?;
    let rd = any_rates(s, false);
    let (dz, dcv) = rd.build(&ed, "discount")?;
    let own = s.chance(1, 3).then(|| {
        let d = eval + Duration::days(if s.chance(1, 4) { 0 } else { s.int(0, 400) });
        // at another time of the day, too
        let e = if s.bool() { d.replace_time(any_time(s)) } else { d };
        e.max(d)
    });
    let now = own.unwrap_or(eval);
    let close = b.fl.close(&b.t.ks, b.o);
    c.note(format!("{} evaluation {eval} pricing {own:?} discount {} forwards {}", b.note(), rd.note(), b.fl.rates.note()));
    let bond = b.bond(own)?;
    let p = Pricer::BondPricer(BondPricer::new(ed.clone(), dz, b.floating.then(|| fz.clone()), b.floating.then(|| close.clone())));
    let value = |f: &Option<Flows>| -> Option<(f64, f64)> {
        let (v, tol) = discounted(f.as_ref()?, &now, &eval, &dcv)?;
        let t = yf(&eval, &now) as f64;
        let df = dcv.df(t)?;
        Some((v / df, tol / df + v.abs() / df * (dcv.df_tol(t) / df + 3e-7)))
    };
    let (w, l) = (b.flows(&fcv, eval, now, false)?, b.flows(&fcv, eval, now, true)?);
    let flows = bond.get_cashflows(&now, b.floating.then(|| fz.clone()), b.floating.then(|| close.clone()));
    let i = Instrument::Bond(bond);
    match (p.npv(&i), value(&w), value(&l)) {
        (Err(_), None, _) => {
            ensure!(p.npv_result(&i).is_err(), "a detailed value without a value");
            Ok(())
        }
        (Ok(g), Some((a, tol)), Some((x, _))) => {
            let w = w.unwrap();
            c.nontrivial(w.keys().filter(|d| d.date() > now.date()).count() >= 2 && b.pers[0].pay.date() <= now.date());
            ensure!(near(g, a, tol) || near(g, x, tol), "bond: observed {g}, expected {a} (within {tol:e}; with the listed finding {x})");
            same_report(&p.npv_result(&i).must("detailed value")?, &[(&flows.must("cash flows")?, 1.0)], g)?;
            ensure_eq!(p.fx_exposure(&i, g).must("exposure")?, HashMap::from([(Currency::KRW, g * b.notional)]), "currency exposure");
            Ok(())
        }
        (g, w, _) => fail!("bond: observed {g:?}, expected {w:?}"),
    }
}
fn swaps(s: &mut Src, c: &mut Ctx) -> R {
    let most = if s.chance(1, 40) { 300 } else { 12 };
    let Some((k, eval)) = SwapCase::any(s, most, true) else { return discard() };
    let ed = ev(eval);
    let (fz, fcv) = k.fl.rates.build(&ed, "forward")?;
    let (r1, r2) = (any_rates(s, false), any_rates(s, false));
    let ((z1, cv1), (z2, cv2)) = (r1.build(&ed, "fixed")?, r2.build(&ed, "floating")?);
    let close = k.fl.close(&k.t.ks, k.o);
    let fx = k.two.then(|| *s.pick(&[1300.0f32, 1.0, 9.5]));
    c.note(format!("{} evaluation {eval} fx {fx:?} discounts {} and {}", k.note(), r1.note(), r2.note()));
    let swap = k.make()?.must("swap")?;
    let price = fx.map(|x| Rc::new(RefCell::new(MarketPrice::new(x, eval, None, k.ca, "fx".into(), "fx".into()))));
    let p = Pricer::PlainSwapPricer(PlainSwapPricer::new(ed.clone(), z1, z2, Some(fz.clone()), Some(close.clone()), price).must("pricer")?);
    let fixed = discounted(&k.fixed(&eval)?, &eval, &eval, &cv1);
    let floating = |listed: bool| -> Result<Option<(f64, f64)>, Stop> { Ok(k.floating(&fcv, &eval, listed)?.and_then(|f| discounted(&f, &eval, &eval, &cv2))) };
    let (w, l) = (floating(false)?, floating(true)?);
    let (f1, f2) = (swap.get_fixed_cashflows(&eval), swap.get_floating_cashflows(&eval, Some(fz), Some(close)));
    let i = Instrument::PlainSwap(swap);
    let x = fx.unwrap_or(1.0);
    let x64 = x as f64;
    match (p.npv(&i), fixed.zip(w), l) {
        (Err(_), None, _) => {
            ensure!(p.npv_result(&i).is_err(), "a detailed value without a value");
            Ok(())
        }
        (Ok(g), Some(((a, at), (b, bt))), Some((bl, _))) => {
            c.nontrivial(a != 0.0 && b != 0.0);
            let tol = at + bt * x64 + 2e-7 * (a.abs() + 2.0 * (b * x64).abs());
            ensure!(near(g, a + b * x64, tol) || near(g, a + bl * x64, tol), "swap: observed {g}, expected {} + {x} * {} = {} (within {tol:e}; listed finding {})", a, b, a + b * x64, a + bl * x64);
            same_report(&p.npv_result(&i).must("detailed value")?, &[(&f1.must("fixed")?, 1.0), (&f2.must("floating")?, x)], g)?;
            let e = p.fx_exposure(&i, g).must("exposure")?;
            let n = k.notional as f64;
            if k.two {
                ensure_eq!(e.len(), 2, "number of currencies in the exposure");
                ensure!(near(e[&k.ca], a * n, at * n + 2e-7 * a.abs() * n), "fixed currency exposure: observed {}, expected {}", e[&k.ca], a * n);
                let tol = bt * n + 2e-7 * b.abs() * n;
                ensure!(near(e[&k.cb], b * n, tol) || near(e[&k.cb], bl * n, tol), "floating currency exposure: observed {}, expected {}", e[&k.cb], b * n);
            } else {
                ensure_eq!(e.len(), 1, "number of currencies in the exposure");
                let tol = (at + bt) * n + 4e-7 * (a.abs() + b.abs()) * n;
                ensure!(near(e[&k.ca], (a + b) * n, tol) || near(e[&k.ca], (a + bl) * n, tol), "exposure: observed {}, expected {}", e[&k.ca], (a + b) * n);
            }
            Ok(())
        }
        (g, w, _) => fail!("swap: observed {g:?}, expected {w:?}"),
    }
}
/// expected cash flows: amounts by their probabilities, summed by date
fn results(s: &mut Src, c: &mut Ctx) -> R {
    let base = any_eval(s);
    let n = crate::maths::size(s, 0, 6, 100);
    let (mut a, mut p): (HashMap<usize, (OffsetDateTime, f32)>, HashMap<usize, (OffsetDateTime, f32)>) = Default::default();
    let mut want: BTreeMap<OffsetDateTime, (f64, f64)> = BTreeMap::new();
    for i in 0..n {
        let d = base + Duration::days(*s.pick(&[0, 1, 30]));
        let (x, q) = (s.f(-2.0, 2.0, 400) as f32, *s.pick(&[1.0f32, 0.5, 0.0, 0.25]));
        let id = 20 * i + s.usize(0, 19);
        a.insert(id, (d, x));
        p.insert(id, (d, q));
        let e = want.entry(d).or_default();
        *e = (e.0 + (x * q) as f64, e.1 + x.abs() as f64);
    }
    let npv = s.f(-2.0, 2.0, 400) as f32;
    c.note(format!("amounts {a:?} probabilities {p:?}"));
    c.nontrivial(want.len() < n);
    let r = NpvResult::new(npv, a.clone(), p.clone());
    ensure_eq!((r.get_npv(), r.get_cashflow_amounts()), (npv, &a), "content");
    let e = r.get_expected_coupon_amount().must("expected amounts")?;
    ensure_eq!(e.len(), want.len(), "number of dates");
    for (d, (w, size)) in &want {
        ensure!(e.get(d).is_some_and(|g| near(*g, *w, (4e-7f64).max(1.2e-7 * n as f64) * size)), "expected amount on {d}: observed {:?}, expected {w}", e.get(d));
    }
    if n > 0 {
        let k = *s.pick(&{
            let mut k: Vec<usize> = p.keys().copied().collect();
            k.sort();
            k
        });
        p.remove(&k);
        ensure!(NpvResult::new(npv, a, p).get_expected_coupon_amount().is_err(), "a cash flow without probability was accepted");
    }
    ensure_eq!(NpvResult::new_from_npv(npv).get_expected_coupon_amount().must("none")?.len(), 0, "cash flows of a bare value");
    Ok(())
}
// ---------------------------------------------------------------- V04
fn per_year(f: Pf) -> f64 {
    match f {
        Pf::Daily => 252.0,
        Pf::Weekly => 52.0,
        Pf::BiWeekly => 26.0,
        Pf::SemiMonthly => 24.0,
        Pf::Monthly => 12.0,
        Pf::SemiQuarterly => 6.0,
        Pf::Quarterly => 4.0,
        Pf::TriAnnually => 3.0,
        Pf::SemiAnnually => 2.0,
        _ => 1.0,
    }
}
/// price of the flows at a yield, and the bound on its rounding
fn yield_price(b: &BondCase, f: &Flows, now: &OffsetDateTime, y: f64) -> Result<Option<(f64, f64)>, Stop> {
    let cal = b.t.joint()?;
    let n = per_year(b.t.freq.0);
    let Some(next) = f.keys().find(|d| d.date() > now.date()) else { return Ok(None) };
    let (mut v, mut tol) = (0.0, 1e-9);
    for (d, (a, at)) in f {
        if d.date() > now.date() {
            let e = cal.year_fraction(next, d, &Dc::StreetConvention).must("year fraction")? as f64 * n;
            let x = (1.0 + y / n).powf(-e);
            v += a * x;
            tol += x * (at + a.abs() * (2e-7 * f.len() as f64 + e.abs() * (1.5e-7 + y.abs() / n * 3e-7) + 3e-7));
        }
    }
    let prev = b.pers.iter().map(|p| p.pay.date()).filter(|d| *d <= now.date()).max().unwrap_or(b.issue.date());
    let (left, whole) = ((next.date() - now.date()).whole_days() as f64, (next.date() - prev).whole_days() as f64);
    if whole == 0.0 {
        return Ok(None);
    }
    let q = 1.0 + y / n * left / whole;
    Ok(Some((v / q, tol / q.abs() + 4e-7 * (v / q).abs() * (1.0 + (y / n * left / whole).abs() / q.abs()))))
}
fn yields(s: &mut Src, c: &mut Ctx) -> R {
    let Some((b, eval)) = BondCase::any(s, 60, true) else { return discard() };
    let ed = ev(eval);
    let (fz, fcv) = b.fl.rates.build(&ed, "forward")?;
    let own = s.chance(1, 3).then(|| {
        let d = eval + Duration::days(if s.chance(1, 4) { 0 } else { s.int(0, 400) });
        // at another time of the day, too
        let e = if s.bool() { d.replace_time(any_time(s)) } else { d };
        e.max(d)
    });
    let now = own.unwrap_or(eval);
    let close = b.fl.close(&b.t.ks, b.o);
    let y = s.f(-0.01, 0.15, 160) as f32;
    c.note(format!("{} evaluation {eval} pricing {own:?} yield {y} issued {} forwards {}", b.note(), b.issue, b.fl.rates.note()));
    let i = Instrument::Bond(b.bond(own)?);
    let mut p = KrxYieldPricer::new(ed.clone(), y, b.floating.then(|| fz.clone()), b.floating.then(|| close.clone()));
    let (w, l) = (b.flows(&fcv, eval, now, false)?, b.flows(&fcv, eval, now, true)?);
    let Some((w, l)) = w.zip(l) else {
        ensure!(p.npv(&i).is_err(), "priced although the forwards are outside the curve");
        return Ok(());
    };
    let Some((a, tol)) = yield_price(&b, &w, &now, y as f64)? else { return discard() };
    let x = yield_price(&b, &l, &now, y as f64)?.unwrap().0;
    c.nontrivial(b.pers[0].pay.date() <= now.date() && w.keys().filter(|d| d.date() > now.date()).count() >= 2);
    let g = p.npv(&i).must("npv")?;
    ensure!(near(g, a, tol) || near(g, x, tol), "price at a yield of {y}: observed {g}, expected {a} (within {tol:e}; with the listed finding {x})");
    ensure!(near(p.npv_result(&i).must("result")?.get_npv(), g as f64, 2.0 * tol), "detailed value");
    let up = y + 0.01;
    p.set_bond_yield(up);
    ensure_eq!(p.get_bond_yield(), up, "yield");
    let h = p.npv(&i).must("npv")?;
    if w.values().all(|(a, _)| *a >= 0.0) && l.values().all(|(a, _)| *a >= 0.0) {
        ensure!((h as f64) < g as f64 + tol, "price at a yield of {up}: {h}, at {y}: {g}");
    }
    Ok(())
}
/// a bond as the treasury issues them
fn treasury(s: &mut Src) -> (BondCase, OffsetDateTime) {
    loop {
        if let Some((mut b, eval)) = BondCase::any(s, 60, false) {
            b.by_hand = false;
            b.strip = false;
            b.t.freq = FREQS[s.weighted(&[1, 4, 1])];
            b.rate = s.f(0.0, 0.08, 80) as f32;
            b.given = vec![];
            let years = s.int(1, 20);
            b.t.mat = step(&b.t.eff, years, 'Y');
            b.dc = *s.pick(&[Dc::StreetConvention, Dc::ActActIsda, Dc::Actual365Fixed]);
            b.t.pay_gap = 0;
            if let Some(p) = b.t.model() {
                b.given = vec![None; p.len()];
                b.pers = p;
                return (b, eval);
            }
        }
    }
}
fn inversion(s: &mut Src, c: &mut Ctx) -> R {
    let (b, _) = treasury(s);
    let left = s.int(200, (b.t.mat - b.t.eff).whole_days() - 20);
    let eval = b.t.mat - Duration::days(left);
    let ed = ev(eval);
    let y = s.f(0.0, 0.12, 120) as f32;
    let guess = s.chance(2, 3).then(|| s.f(0.0, 0.1, 100) as f32);
    c.note(format!("{} evaluation {eval} yield {y} first guess {guess:?}", b.note()));
    c.nontrivial((guess.unwrap_or(0.02) - y).abs() > 0.005);
    let bond = b.bond(None)?;
    let i = Instrument::Bond(bond.clone());
    let mut p = KrxYieldPricer::new(ed.clone(), y, None, None);
    let price = p.npv(&i).must("npv")?;
    let found = p.find_bond_yield(bond, price, guess).must("yield")?;
    ensure_eq!(p.get_bond_yield(), y, "yield of the pricer after searching");
    p.set_bond_yield(found);
    let back = p.npv(&i).must("npv")?;
    ensure!(near(back, price as f64, 5e-5), "the yield {found} found for {price} gives {back} back (true yield {y})");
    Ok(())
}
fn virtual_bond(s: &mut Src, c: &mut Ctx) -> R {
    let (years, coupon, n) = (s.int(1, 30), s.f(0.0, 0.12, 120) as f32, *s.pick(&[Pf::SemiAnnually, Pf::Annually, Pf::Quarterly, Pf::Monthly]));
    let unit = *s.pick(&[100.0f32, 1.0, 10000.0]);
    let y = s.f(-0.01, 0.15, 160) as f32;
    c.note(format!("{years} years coupon {coupon} {n:?} notional {unit} yield {y}"));
    c.nontrivial(y != coupon && years > 1);
    let g = KtbfVirtualBond::new(years as i32, coupon, n, unit).npv(y);
    let f = per_year(n);
    let (r, k) = (y as f64 / f, years as f64 * f);
    let v = (1.0 + r).powf(-k);
    let annuity = if r == 0.0 { k } else { (1.0 - v) / r };
    let w = (coupon as f64 / f * annuity + v) * unit as f64;
    ensure!(near(g, w, w * (1e-6 + 2e-7 * k)), "virtual bond: observed {g}, expected {w}");
    if y == coupon {
        ensure!(near(g, unit as f64, unit as f64 * (1e-6 + 2e-7 * k)), "virtual bond at par: {g}");
    }
    Ok(())
}
fn ktbf(s: &mut Src, c: &mut Ctx) -> R {
    let n = crate::maths::size(s, 1, 3, 8);
    let first = treasury(s).0;
    let eval = first.t.eff + Duration::days(s.int(20, 120));
    let ed = ev(eval);
    let mat = eval + Duration::days(s.int(1, 200));
    let rates = Rates { days: vec![s.int(1, 900), s.int(901, 6000)], rates: vec![s.f(0.005, 0.07, 60) as f32, s.f(0.005, 0.07, 60) as f32], by_date: false };
    let (dz, dcv) = rates.build(&ed, "KRWGOV")?;
    let rb = any_rates(s, false);
    let (bz, bcv) = rb.build(&ed, "repo")?;
    let mut cases = vec![];
    for i in 0..n {
        let mut b = if i == 0 { treasury(s).0 } else { treasury(s).0 };
        // issued about when the futures was
        (b.t.ks, b.o) = (first.t.ks.clone(), first.o);
        b.t.eff = first.t.eff + Duration::days(s.int(0, 15));
        b.t.mat = step(&b.t.eff, s.int(2, 10), 'Y');
        b.issue = b.t.eff;
        match b.t.model() {
            Some(p) => b.pers = p,
            None => return discard(),
        }
        b.given = vec![None; b.pers.len()];
        cases.push(b);
    }
    let (years, coupon) = (*s.pick(&[3i64, 5, 10]), *s.pick(&[0.05f32, 0.03]));
    c.note(format!("bonds {:?} virtual {years}y {coupon} evaluation {eval} maturity {mat} discount {} repo {}", cases.iter().map(|b| b.note()).collect::<Vec<_>>(), rates.note(), rb.note()));
    // yields of the bonds at their forward prices
    let mut total = 0.0;
    let mut ytol = 0.0;
    for b in &cases {
        let f = b.flows(&dcv, eval, mat, false)?.unwrap();
        let Some((v, tol)) = discounted(&f, &mat, &eval, &dcv) else { return discard() };
        let t = yf(&eval, &mat) as f64;
        let target = v / dcv.df(t).unwrap();
        let (mut lo, mut hi) = (-0.05f64, 0.5f64);
        for _ in 0..80 {
            let m = (lo + hi) / 2.0;
            match yield_price(b, &f, &mat, m)? {
                Some((x, _)) if x > target => lo = m,
                Some(_) => hi = m,
                None => return discard(),
            }
        }
        let d = (yield_price(b, &f, &mat, lo + 1e-4)?.unwrap().0 - yield_price(b, &f, &mat, lo - 1e-4)?.unwrap().0).abs() / 2e-4;
        total += lo;
        ytol += (6e-5 + tol * 3.0) / d;
    }
    let (y, ytol) = (total / n as f64, ytol / n as f64);
    let Some(repo) = bcv.df(yf(&eval, &mat) as f64) else { return discard() };
    let value = |y: f64| {
        let (r, k) = (y / 2.0, years as f64 * 2.0);
        let v = (1.0 + r).powf(-k);
        (coupon as f64 / 2.0 * (1.0 - v) / r + v) * 100.0 * repo
    };
    let w = value(y);
    let tol = (value(y - ytol) - value(y + ytol)).abs() + w * 1e-5;
    let mut bonds = vec![];
    for b in &cases {
        bonds.push(b.bond(Some(mat))?);
    }
    let virt = KtbfVirtualBond::new(years as i32, coupon, Pf::SemiAnnually, 100.0);
    let unit = 1e6;
    let k = KTBF::new(Currency::KRW, unit, eval, mat, mat, virt.clone(), bonds.clone(), "repo".into(), "k".into(), "k".into()).must("ktbf")?;
    ensure!(KTBF::new(Currency::KRW, unit, eval, mat + Duration::days(*s.pick(&[1, -1])), mat, virt.clone(), bonds.clone(), "repo".into(), "k".into(), "k".into()).is_err(), "bonds priced on another day were accepted");
    bonds.push(cases[0].bond(None)?);
    ensure!(KTBF::new(Currency::KRW, unit, eval, mat, mat, virt, bonds, "repo".into(), "k".into(), "k".into()).is_err(), "a bond without pricing day was accepted");
    let i = Instrument::KTBF(k);
    let p = Pricer::KtbfPricer(KtbfPricer::new(ed, dz, bz));
    let g = p.npv(&i).must("npv")?;
    c.nontrivial(n > 1);
    ensure!(near(g, w, tol), "treasury futures: observed {g}, expected {w} (within {tol:e}; average yield {y} within {ytol:e})");
    ensure!(near(p.npv_result(&i).must("result")?.get_npv(), w, tol), "detailed value");
    ensure_eq!(p.fx_exposure(&i, g).must("exposure")?, HashMap::from([(Currency::KRW, g * unit)]), "currency exposure");
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "V01",
            facets: vec![facet("option", "call and put both worth far more than the rounding bound", 200000, 6000000, option)],
            assumptions: &["curves, dividends and volatilities are those of P01-P05", "elapsed time is that of D02"],
        },
        Property {
            id: "V02",
            facets: vec![
                facet("futures", "the forward differs from spot", 120000, 3600000, forwards),
                facet("fx-futures", "the two currencies' rates differ", 120000, 3600000, fx_forwards),
                probe("fx-exposure-unit", "the listed contract", fx_exposure_unit),
            ],
            assumptions: &["curves and dividends are those of P01-P03"],
        },
        Property {
            id: "V03",
            facets: vec![
                facet("bond", "a coupon already paid and two or more to come", 50000, 1500000, bonds),
                facet("swap", "both legs have value", 40000, 1200000, swaps),
                facet("result", "several cash flows on one date", 80000, 2400000, results),
            ],
            assumptions: &["cash flows are those of T01 and T02, curves those of P01"],
        },
        Property {
            id: "V04",
            facets: vec![
                facet("price", "a coupon already paid and two or more to come", 75000, 2250000, yields),
                facet("inversion", "the first guess is 0.5% or more off", 22500, 675000, inversion),
                facet("virtual-bond", "away from par, more than a year", 90000, 2700000, virtual_bond),
                facet("treasury-futures", "two or more underlying bonds", 3750, 112500, ktbf),
            ],
            assumptions: &["cash flows are those of T01, day counts those of D01, curves those of P01"],
        },
    ]
}
