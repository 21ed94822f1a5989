//! T07: what instruments, market data and market parameters report of themselves
use crate::cal::{any_time, calendar_of};
use crate::dates::{any_date, DCS};
use crate::instr::{any_credit, BDCS, FREQS};
use crate::mk::{any_rates, ev};
use crate::trades::{Where, CODES};
use ndarray::{Array1, Array2};
use quantlib::currency::{Currency, FxCode};
use quantlib::data::daily_value_data::DailyValueData;
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::value_data::ValueData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::*;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::bond_futures::BondFutures;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::instrument_info::InstrumentInfo;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::plain_swap::{PlainSwap, PlainSwapType};
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::quanto::Quanto;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
use quantlib::parameters::volatilities::volatiltiy_interpolator::VolatilityInterplator;
use quantlib::parameters::volatility::{Volatility, VolatilityType};
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::time::jointcalendar::JointCalendar;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Date, Duration, OffsetDateTime};
use vf::*;

/// the terms an instrument of this kind has; None: it has no such term and must say so
#[derive(Default, Debug)]
struct Terms {
    price: f32,
    rating: Option<CreditRating>,
    issuer_type: Option<IssuerType>,
    rank: Option<RankType>,
    issuer: Option<String>,
    index: Option<Option<[String; 3]>>,
    pricing: Option<Option<OffsetDateTime>>,
    strip: Option<bool>,
    freq: Option<f32>,
    issue: Option<OffsetDateTime>,
    schedule: Option<Schedule>,
    calendar: Option<String>,
    bonds: Option<Vec<String>>,
    virt: bool,
    fixed: Option<Currency>,
    floating: Option<Currency>,
    und_ccy: Option<Currency>,
    strike: Option<f32>,
    call: Option<OptionType>,
    settle: Option<OptionDailySettlementType>,
    fx_und: Option<FxCode>,
    fx_swap: Option<Option<FxCode>>,
    kind: Option<PlainSwapType>,
    tags: Vec<String>,
    flows: bool,
    legs: bool,
}
fn index_of(i: &RateIndex) -> [String; 3] {
    [i.get_code().clone(), i.get_name().clone(), i.get_curve_tenor().clone()]
}
fn schedule(s: &mut Src, w: &Where) -> Schedule {
    let mut d = w.base;
    Schedule::new(
        (0..s.usize(0, 3))
            .map(|_| {
                let e = d + Duration::days(s.int(1, 200));
                let p = BaseSchedule::new(d - Duration::days(s.int(0, 3)), d, e, e + Duration::days(s.int(0, 5)), s.chance(1, 3).then(|| s.f(-0.01, 0.1, 110) as f32));
                d = e;
                p
            })
            .collect(),
    )
}
fn joint(s: &mut Src) -> Result<JointCalendar, Stop> {
    JointCalendar::new((0..s.usize(1, 2)).map(|_| calendar_of(s.usize(0, 7)).0).collect()).must("calendar")
}
fn any_ccy(s: &mut Src) -> Currency {
    Currency::from(*s.pick(&CODES))
}
fn one(s: &mut Src, w: &Where) -> Result<(Instrument, Terms), Stop> {
    let (name, code) = ("the name".to_string(), "the code".to_string());
    let ccy = any_ccy(s);
    let other = any_ccy(s);
    let unit = s.f(1.0, 1e6, 9) as f32;
    let atp = s.f(0.0, 5000.0, 501) as f32;
    let days: Vec<i64> = (0..4).map(|_| s.int(1, 400)).collect();
    let d1 = w.base - Duration::days(days[0]);
    let mat = w.base + Duration::days(days[1] + days[2]);
    let (d2, d3) = (w.base - Duration::days(days[3]), mat + Duration::days(s.int(0, 3)));
    let index = RateIndex::new((*s.pick(&["91D", "3M", "1D"])).into(), ccy, "index name".into(), "index code".into()).must("index")?;
    let bond = |s: &mut Src, code: &str, pricing: Option<OffsetDateTime>, floating: bool| -> Result<(Bond, Terms), Stop> {
        let (it, cr, rk) = any_credit(s);
        let (strip, sched, cal, freq) = (s.bool(), schedule(s, w), joint(s)?, FREQS[s.usize(0, 9)].0);
        let issuer = s.pick(&["Korea", "IBK"]).to_string();
        let b = Bond::new(
            it,
            cr,
            issuer.clone(),
            rk,
            ccy,
            unit,
            strip,
            sched.clone(),
            (!floating).then_some(0.03),
            None,
            floating.then(|| index.clone()),
            None,
            d1,
            d2,
            pricing,
            mat,
            cal.clone(),
            *s.pick(&DCS),
            *s.pick(&BDCS),
            freq,
            s.int(0, 3),
            s.int(0, 3),
            "the name".into(),
            code.into(),
        )
        .must("bond")?;
        let t = Terms {
            rating: Some(cr),
            issuer_type: Some(it),
            rank: Some(rk),
            issuer: Some(issuer),
            index: Some(floating.then(|| index_of(&index))),
            pricing: Some(pricing),
            strip: Some(strip),
            freq: Some(freq.as_real()),
            issue: Some(d1),
            schedule: Some(sched),
            calendar: Some(format!("{cal:?}")),
            flows: true,
            ..Default::default()
        };
        Ok((b, t))
    };
    Ok(match s.usize(0, 8) {
        0 => (Instrument::Futures(Futures::new(atp, d1, d2, mat, d3, unit, ccy, other, "und".into(), name, code)), Terms { price: atp, und_ccy: Some(other), ..Default::default() }),
        1 => (
            Instrument::FxFutures(FxFutures::new(atp, d1, d2, mat, d3, unit, ccy, other, name, code)),
            Terms { price: atp, und_ccy: Some(other), fx_und: Some(FxCode::new(other, ccy)), ..Default::default() },
        ),
        2 | 3 => {
            let (call, settle) = (*s.pick(&[OptionType::Call, OptionType::Put]), *s.pick(&[OptionDailySettlementType::Settled, OptionDailySettlementType::NotSettled]));
            let ex = *s.pick(&[OptionExerciseType::European, OptionExerciseType::American]);
            (
                Instrument::VanillaOption(VanillaOption::new(atp, unit, d1, d2, mat, d3, vec!["und".into()], other, ccy, call, ex, settle, name, code)),
                Terms { und_ccy: Some(other), strike: Some(atp), call: Some(call), settle: Some(settle), ..Default::default() },
            )
        }
        4 | 5 => {
            let (pricing, floating) = (s.bool().then_some(w.base + Duration::days(3)), s.bool());
            let (b, t) = bond(s, "the code", pricing, floating)?;
            (Instrument::Bond(b), t)
        }
        6 => {
            let mut bonds = vec![];
            let mut codes = vec![];
            for k in 0..s.usize(0, 3) {
                codes.push(format!("bond {k}"));
                bonds.push(bond(s, &codes[k], Some(mat), false)?.0);
            }
            let v = KtbfVirtualBond::new(s.int(1, 30) as i32, s.f(0.0, 0.1, 20) as f32, FREQS[1].0, 100.0);
            let tag = s.pick(&["repo", "repo2"]).to_string();
            (
                Instrument::KTBF(KTBF::new(ccy, unit, d1, mat, d3, v, bonds, tag.clone(), name, code).must("ktbf")?),
                Terms { bonds: Some(codes), virt: true, tags: vec![tag], ..Default::default() },
            )
        }
        7 => {
            let kind = s.usize(0, 4);
            let other = match kind {
                0 => ccy,
                _ if other == ccy => *[Currency::KRW, Currency::USD].iter().find(|x| **x != ccy).unwrap(),
                _ => other,
            };
            let ini = kind == 1 || kind == 2;
            let legs = |s: &mut Src| if kind < 2 { schedule(s, w) } else { Schedule::new(vec![]) };
            let issue = if kind == 4 { mat - Duration::days(s.int(0, 2)) } else { mat - Duration::days(s.int(3, 500)) };
            let x = PlainSwap::new(
                legs(s),
                legs(s),
                (kind < 2).then_some(0.02),
                (kind < 2).then(|| index.clone()),
                None,
                joint(s)?,
                unit,
                issue,
                d1,
                mat,
                ccy,
                other,
                ini.then_some(1.0),
                ini.then_some(1300.0),
                (kind > 0).then_some(1.0),
                (kind > 0).then_some(1300.0),
                *s.pick(&DCS),
                *s.pick(&DCS),
                *s.pick(&BDCS),
                *s.pick(&BDCS),
                FREQS[s.usize(0, 9)].0,
                FREQS[s.usize(0, 9)].0,
                s.int(0, 3),
                s.int(0, 3),
                name,
                code,
            )
            .must("swap")?;
            (
                Instrument::PlainSwap(x),
                Terms {
                    index: Some((kind < 2).then(|| index_of(&index))),
                    fixed: Some(ccy),
                    floating: Some(other),
                    fx_swap: Some((kind > 0).then(|| FxCode::new(other, ccy))),
                    kind: Some([PlainSwapType::IRS, PlainSwapType::CRS, PlainSwapType::FxSwap, PlainSwapType::FxForward, PlainSwapType::FxSpot][kind]),
                    legs: true,
                    ..Default::default()
                },
            )
        }
        // stocks, cash and bond futures have no further terms
        _ => match s.usize(0, 2) {
            0 => (Instrument::Stock(Stock::new(name, code, vec!["und".into()], ccy, None)), Terms::default()),
            1 => (Instrument::Cash(Cash::new(ccy, name, code)), Terms::default()),
            _ => {
                let j = serde_json::json!({"currency": ccy, "unit_notional": unit, "issue_date": d1, "maturity": mat, "name": name, "code": code});
                (Instrument::BondFutures(serde_json::from_value::<BondFutures>(j).must("bond futures")?), Terms::default())
            }
        },
    })
}
fn terms(s: &mut Src, c: &mut Ctx) -> R {
    let w = Where::any(s);
    let (x, t) = one(s, &w)?;
    c.note(format!("{} {t:?}", x.get_type_name()));
    c.nontrivial(!["Stock", "Cash", "BondFutures"].contains(&x.get_type_name()));
    ensure_eq!(x.get_average_trade_price(), t.price, "traded price");
    ensure_eq!(x.get_credit_rating().ok().copied(), t.rating, "rating");
    ensure_eq!(x.get_issuer_type().ok().copied(), t.issuer_type, "issuer type");
    ensure_eq!(x.get_rank_type().ok().copied(), t.rank, "rank");
    ensure_eq!(x.get_issuer_name().ok().cloned(), t.issuer, "issuer");
    ensure_eq!(x.get_rate_index().ok().map(|i| i.map(index_of)), t.index, "rate index");
    ensure_eq!(x.get_pricing_date().ok().map(|d| d.copied()), t.pricing, "pricing date");
    ensure_eq!(x.is_coupon_strip().ok(), t.strip, "strip");
    ensure_eq!(x.get_coupon_frequency().ok().map(|f| f.as_real()), t.freq, "coupon frequency");
    ensure_eq!(x.get_issue_date().ok().copied(), t.issue, "issue date");
    ensure_eq!(x.get_schedule().ok().cloned(), t.schedule, "schedule");
    ensure_eq!(x.get_calendar().ok().map(|d| format!("{d:?}")), t.calendar, "calendar");
    ensure_eq!(x.get_underlying_bonds().ok().map(|b| b.iter().map(|b| b.get_code().clone()).collect::<Vec<_>>()), t.bonds, "underlying bonds");
    ensure_eq!(x.get_virtual_bond_npv(0.03).is_ok(), t.virt, "value of a virtual bond");
    ensure_eq!(x.get_fixed_leg_currency().ok().copied(), t.fixed, "fixed leg's currency");
    ensure_eq!(x.get_floating_leg_currency().ok().copied(), t.floating, "floating leg's currency");
    ensure_eq!(x.get_underlying_currency().ok().copied(), t.und_ccy, "underlying's currency");
    ensure_eq!(x.get_strike().ok(), t.strike, "strike");
    ensure_eq!(x.get_option_type().ok(), t.call, "option type");
    ensure_eq!(x.get_option_daily_settlement_type().ok(), t.settle, "settlement");
    ensure_eq!(x.get_fxfutres_und_fxcode().ok().copied(), t.fx_und, "currency pair of a currency futures");
    ensure_eq!(x.get_floating_to_fixed_fxcode().ok().map(|f| f.copied()), t.fx_swap, "currency pair of a swap");
    ensure_eq!(x.get_specific_plain_swap_type().ok(), t.kind, "kind of swap");
    ensure_eq!(x.get_bond_futures_borrowing_curve_tags().into_iter().cloned().collect::<Vec<_>>(), t.tags, "borrowing tags");
    let far = w.base + Duration::days(20000);
    ensure_eq!((x.get_cashflows(&far, None, None).is_ok(), x.get_fixed_cashflows(&far).is_ok(), x.get_floating_cashflows(&far, None, None).is_ok()), (t.flows, t.legs, t.legs), "cash flows, fixed, floating after the end");
    let i = InstrumentInfo::new(x.get_name().clone(), x.get_code().clone(), x.get_type_name(), *x.get_currency(), x.get_unit_notional(), x.get_maturity());
    ensure_eq!(
        (i.get_name(), i.get_code(), i.type_name().as_str(), i.get_currency(), i.get_unit_notional(), i.get_maturity()),
        (x.get_name(), x.get_code(), x.get_type_name(), *x.get_currency(), x.get_unit_notional(), x.get_maturity()),
        "instrument information"
    );
    Ok(())
}

fn market(s: &mut Src, c: &mut Ctx) -> R {
    let w = Where::any(s);
    let (name, code) = ("the name".to_string(), "the code".to_string());
    let (ccy, other) = (any_ccy(s), any_ccy(s));
    let v = s.f(-10.0, 3000.0, 3011) as f32;
    let md = s.bool().then(|| w.base - Duration::seconds(s.int(0, 100000)));
    c.note(format!("{ccy:?} {other:?} {v} {md:?} base {}", w.base));
    c.nontrivial(true);
    let ed = ev(w.base);
    match s.usize(0, 6) {
        0 => {
            let x = ValueData::new(v, md, ccy, name.clone(), code).must("value data")?;
            ensure_eq!((x.get_value(), *x.get_market_datetime(), x.get_name(), *x.get_currency()), (v, md, &name, ccy), "value data");
        }
        1 => {
            // a series of values, edited
            let mut h: HashMap<Date, f32> = HashMap::new();
            let d0 = any_date(s, 2015, 2030);
            for _ in 0..s.usize(0, 5) {
                h.insert(d0 + Duration::days(s.int(0, 9)), s.f(0.0, 10.0, 101) as f32);
            }
            let (t, o, k) = (any_time(s), w.o, s.usize(0, 7));
            let mut x = DailyValueData::new(h.clone(), t, o, calendar_of(k).0, name.clone(), code.clone());
            let mut y = DailyClosePrice::new(h.clone(), t, o, calendar_of(k).0, name.clone(), code.clone());
            ensure_eq!((x.get_name(), x.get_code(), x.get_close_time(), x.get_utc_offset()), (&name, &code, &t, &o), "series");
            ensure_eq!((y.get_name(), y.get_code(), y.get_close_time(), y.get_utc_offset()), (&name, &code, &t, &o), "closing prices");
            ensure_eq!(format!("{:?}", x.get_calendar()), format!("{:?}", calendar_of(k).0), "calendar");
            for _ in 0..s.usize(0, 4) {
                let (d, v) = (d0 + Duration::days(s.int(0, 9)), s.f(0.0, 10.0, 101) as f32);
                if s.bool() {
                    x.insert(d, v);
                    h.insert(d, v);
                    y.set_value(h.clone());
                } else {
                    ensure_eq!((x.get_mut(&d).copied(), y.get_mut(&d).copied()), (h.get(&d).copied(), h.get(&d).copied()), "record to change of {d}");
                    for r in [x.get_mut(&d), y.get_mut(&d), h.get_mut(&d)].into_iter().flatten() {
                        *r = v;
                    }
                }
            }
            for i in 0..10 {
                let d = d0 + Duration::days(i);
                ensure_eq!((x.get(&d), y.get(&d)), (h.get(&d), h.get(&d)), "record of {d}");
            }
            let mut all: Vec<(Date, f32)> = h.iter().map(|(d, v)| (*d, *v)).collect();
            all.sort_by_key(|x| x.0);
            let all: (Vec<Date>, Vec<f32>) = all.into_iter().unzip();
            ensure_eq!(x.get_ordered_data_by_date(), all, "records in order");
            ensure_eq!(y.get_ordered_data_by_datetime(), all, "closing prices in order");
            ensure_eq!((x.get_value(), y.get_value()), (&h, &h), "all records");
        }
        2 => {
            let (n, m) = (s.usize(0, 3), s.usize(0, 3));
            let z = Array2::from_shape_vec((n, m), (0..n * m).map(|i| i as f32).collect()).unwrap();
            let dates: Vec<OffsetDateTime> = (0..n).map(|_| w.base + Duration::hours(s.int(0, 90000))).collect();
            let k: Array1<f32> = (0..m).map(|i| 100.0 + i as f32).collect();
            let spot = s.bool().then_some(v);
            let x = SurfaceData::new(spot, z.clone(), dates.clone(), k.clone(), md, ccy, name.clone(), code.clone());
            ensure_eq!((x.get_spot(), x.get_value(), x.get_dates(), x.get_strike(), x.get_market_datetime(), x.get_name(), x.get_code()), (spot, &z, &dates, &k, md, name.as_str(), code.as_str()), "surface data");
        }
        3 => {
            let n = s.usize(0, 4);
            let z: Array1<f32> = (0..n).map(|i| v + i as f32).collect();
            let t: Array1<f32> = (0..n).map(|i| 0.5 + i as f32).collect();
            let x = VectorData::new(z.clone(), None, Some(t.clone()), md, ccy, name.clone(), code.clone()).must("vector data")?;
            ensure_eq!((x.get_name_clone(), x.get_value_clone(), x.get_times_clone(), x.get_dates_clone()), (name.clone(), z.clone(), t, None), "vector data");
            ensure!(VectorData::new(z.clone(), None, None, md, ccy, name.clone(), code.clone()).is_err(), "vector data without dates or times");
            ensure!(VectorData::new(z, Some(vec![w.base; n]), None, None, ccy, name, code).is_err(), "dated vector data without its own date");
        }
        4 => {
            let (data, _) = any_rates(s, false).data(&w.base, "data")?;
            let z = ZeroCurve::new(ed.clone(), &data, name.clone(), code.clone()).must("curve")?;
            ensure_eq!((z.get_code(), z.get_name_clone()), (&code, name), "curve");
            ensure!(Rc::ptr_eq(&z.get_evaluation_date_clone(), &ed), "the curve's evaluation date is another one");
            let i = RateIndex::new("91D".into(), ccy, "n".into(), "c".into()).must("index")?;
            ensure_eq!((i.get_code().as_str(), i.get_name().as_str(), i.get_rate_index_code().as_str(), *i.get_currency(), i.get_curve_tenor().as_str()), ("c", "n", "c", ccy, "91D"), "rate index");
        }
        5 => {
            let fx = FxCode::new(ccy, other);
            let vol = |v: f32| Volatility::ConstantVolatility(ConstantVolatility::new(v, "the name".into(), "the code".into()));
            let q = Quanto::new(Rc::new(RefCell::new(vol(0.2))), 0.3, fx, "und".into());
            ensure_eq!((q.get_underlying_code().as_str(), *q.get_fx_code()), ("und", fx), "quanto");
            let price = Rc::new(RefCell::new(MarketPrice::new(100.0, w.base, None, ccy, "n".into(), "c".into())));
            let (z, _) = any_rates(s, true).build(&ed, "c")?;
            let l = LocalVolatilitySurface::initialize(ed.clone(), price, z.clone(), z, StickynessType::StickyToMoneyness, VolatilityInterplator::default(), name.clone(), code.clone());
            for (x, k) in [(vol(0.2), VolatilityType::ConstantVolatility), (Volatility::LocalVolatilitySurface(l), VolatilityType::LocalVolatilitySurface)] {
                ensure_eq!((x.get_name(), x.get_code(), x.get_volatility_type()), (&name, &code, k), "volatility");
            }
        }
        _ => {
            let n = s.usize(1, 4);
            let dates: Vec<OffsetDateTime> = (1..=n as i64).map(|i| w.base + Duration::days(30 * i)).collect();
            let vals: Vec<f32> = (0..n).map(|i| 0.5 + i as f32).collect();
            let data = VectorData::new(vals.into(), Some(dates), None, Some(w.base), ccy, "d".into(), "d".into()).must("vector data")?;
            let d = DiscreteRatioDividend::new(ed.clone(), &data, 100.0, "div name".into(), "und".into()).must("dividend")?;
            ensure_eq!(d.get_name(), "div name", "dividends");
            ensure!(Rc::ptr_eq(&d.get_evaluation_date_clone(), &ed), "the dividends' evaluation date is another one");
            let d = s.bool().then(|| Rc::new(RefCell::new(d)));
            let mut p = MarketPrice::new(v, w.base, d.clone(), ccy, name.clone(), code.clone());
            ensure_eq!((p.get_value(), p.get_market_datetime(), p.get_name(), p.get_code(), *p.get_currency()), (v, &w.base, &name, &code, ccy), "market price");
            ensure_eq!(p.get_dividend().as_ref().map(Rc::as_ptr), d.as_ref().map(Rc::as_ptr), "the price's dividends");
            p.set_price(3.0);
            ensure_eq!((p.get_value(), p.get_market_datetime(), p.get_code()), (3.0, &w.base, &code), "market price set to 3");
        }
    }
    Ok(())
}
/// which combinations of terms make an instrument, and of which kind
fn kinds(s: &mut Src, c: &mut Ctx) -> R {
    let w = Where::any(s);
    let mat = w.base + Duration::days(s.int(30, 900));
    if s.chance(1, 4) {
        // bonds under a futures are priced at its maturity
        let mut bonds = vec![];
        let mut ok = true;
        for k in 0..s.usize(1, 3) {
            let (it, cr, rk) = any_credit(s);
            let at = match s.usize(0, 5) {
                0 => None,
                1 => Some(mat + Duration::days(*s.pick(&[-1, 1]))),
                2 => Some(mat + Duration::seconds(*s.pick(&[-1, 1]))),
                _ => Some(mat),
            };
            ok &= at == Some(mat);
            let (fixed, floating) = (s.bool(), s.bool());
            let ix = RateIndex::new("91D".into(), Currency::KRW, "n".into(), "c".into()).must("index")?;
            let b = Bond::new(
                it, cr, "i".into(), rk, Currency::KRW, 1.0, false, schedule(s, &w), fixed.then_some(0.0), None, floating.then_some(ix), None, w.base, w.base, at, mat + Duration::days(900), joint(s)?,
                DCS[0], BDCS[0], FREQS[0].0, 0, 0, "b".into(), format!("b{k}"),
            );
            ensure_eq!(b.is_ok(), fixed != floating, "bond with a fixed coupon: {fixed}, with a floating one: {floating}, accepted");
            if let Ok(b) = b {
                bonds.push(b);
            } else {
                return Ok(());
            }
        }
        c.note(format!("{} bonds, all priced at maturity {mat}: {ok}", bonds.len()));
        c.nontrivial(bonds.len() >= 2);
        let v = KtbfVirtualBond::new(3, 0.05, FREQS[1].0, 100.0);
        let x = KTBF::new(Currency::KRW, 1e6, w.base, mat, mat, v, bonds, "repo".into(), "k".into(), "k".into());
        ensure_eq!(x.is_ok(), ok, "futures on bonds priced elsewhere accepted");
        return Ok(());
    }
    let all = s.usize(0, 3);
    let mut e = match all {
        0 => [false; 4],
        1 => [true; 4],
        _ => [false, false, true, true],
    };
    let (mut rate, mut index) = if s.bool() { (true, true) } else { (false, false) };
    let (mut legs1, mut legs2) = if s.bool() { (true, true) } else { (false, false) };
    let same = s.chance(1, 3);
    if s.bool() {
        // one thing off
        match s.usize(0, 7) {
            i @ 0..=3 => e[i] = !e[i],
            4 => rate = !rate,
            5 => index = !index,
            6 => legs1 = !legs1,
            _ => legs2 = !legs2,
        }
    }
    let days = *s.pick(&[0i64, 1, 2, 3, 4, 30]);
    // the days count, not the hours
    let issue = w.base - Duration::days(days);
    let (fc, lc) = (Currency::KRW, if same { Currency::KRW } else { Currency::USD });
    let (any, every) = (e.iter().any(|x| *x), e.iter().all(|x| *x));
    let none = !legs1 && !legs2 && !rate && !index;
    let want = match () {
        _ if rate && index && !any && same => Some(PlainSwapType::IRS),
        _ if rate && index && every && !same => Some(PlainSwapType::CRS),
        _ if none && every && !same => Some(PlainSwapType::FxSwap),
        _ if none && e == [false, false, true, true] && !same => Some(if days <= 2 { PlainSwapType::FxSpot } else { PlainSwapType::FxForward }),
        _ => None,
    };
    c.note(format!("exchanges {e:?} rate {rate} index {index} legs {legs1} {legs2} one currency {same}, {days} days before {}: {want:?}", w.base));
    c.nontrivial(want.is_none() || (2..=3).contains(&days));
    let ix = RateIndex::new("91D".into(), fc, "n".into(), "c".into()).must("index")?;
    let leg = |on: bool, w: &Where| Schedule::new(if on { vec![BaseSchedule::new(w.base, w.base, w.base + Duration::days(9), w.base + Duration::days(9), None)] } else { vec![] });
    let a = |i: usize, v: f32| e[i].then_some(v);
    let cal = joint(s)?;
    let x = PlainSwap::new(
        leg(legs1, &w), leg(legs2, &w), rate.then_some(0.02), index.then(|| ix.clone()), None, cal.clone(), 1e4, issue, issue, w.base, fc, lc, a(0, 1.0), a(1, 1300.0), a(2, 1.0), a(3, 1300.0), DCS[0],
        DCS[0], BDCS[0], BDCS[0], FREQS[0].0, FREQS[0].0, 0, 0, "x".into(), "x".into(),
    );
    let got = x.ok().map(|x| x.get_specific_plain_swap_type().unwrap());
    ensure_eq!(got, want, "kind of swap");
    let y = PlainSwap::new_from_conventions(
        fc, lc, a(0, 1.0), a(1, 1300.0), a(2, 1.0), a(3, 1300.0), 1e4, issue, w.base, mat, rate.then_some(0.02), index.then(|| ix.clone()), None, s.bool(), DCS[0], DCS[0], BDCS[0], BDCS[0], FREQS[0].0,
        FREQS[0].0, 0, 0, cal, "x".into(), "x".into(),
    );
    let got = y.ok().map(|x| x.get_specific_plain_swap_type().unwrap());
    ensure_eq!(got, want.filter(|k| matches!(k, PlainSwapType::IRS | PlainSwapType::CRS)), "kind of swap from conventions");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "T07",
        facets: vec![
            facet("instruments", "anything but stocks, cash and bond futures", 200000, 6000000, terms),
            facet("kinds", "a swap that is none, or one near the limit between spot and forward, or two or more bonds under a futures", 100000, 3000000, kinds),
            facet("market", "every case", 100000, 3000000, market),
        ],
        assumptions: &[],
    }]
}
