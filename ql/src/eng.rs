//! E01-E05: engines on whole portfolios.
use crate::cal::any_time;
use crate::dates::any_date;
use quantlib::enums::{StickynessType, VanillaOptionCalculationMethod};
use quantlib::instrument::Instrument;
use quantlib::instruments::instrument_info::InstrumentInfo;
use quantlib::parameters::volatilities::volatiltiy_interpolator::{AndreasenHuge, Dupire, VolatilityInterplator};
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration;
use quantlib::pricing_engines::calculation_result::CalculationResult;
use quantlib::pricing_engines::engine::Engine;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::pricing_engines::pricer::PricerTrait;
use quantlib::pricing_engines::pricer_factory::PricerFactory;
use std::collections::{BTreeSet, HashMap};
use time::OffsetDateTime;
use crate::trades::Trade;
use crate::world::*;
use quantlib::currency::{Currency, FxCode};
use quantlib::instrument::Instruments;
use quantlib::pricing_engines::engine_generator::{EngineGenerator, InstrumentCategory};
use std::collections::BTreeMap;
use vf::*;
use Kind as K;

/// a portfolio of the given kinds
fn portfolio(s: &mut Src, kinds: &[(K, u32)], max: usize) -> R<World> {
    let mut w = World::empty(s);
    w.pays = s.bool();
    let weights: Vec<u32> = kinds.iter().map(|x| x.1).collect();
    let mut n = 0;
    let (avg, max) = if s.chance(1, 60) { (40, 50) } else { (4, max) };
    while w.trades.is_empty() || s.more(&mut n, avg, max) {
        if n > 3 * max {
            return discard();
        }
        let k = kinds[s.weighted(&weights)].0;
        w.add(s, k)?;
        n += w.trades.is_empty() as usize;
    }
    Ok(w)
}
fn shuffled(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    s.shuffle(&mut v);
    v
}
fn judge(s: &mut Src, c: &mut Ctx, w: &World, cfg: &Cfg) -> R<Option<(Out<Fig>, Out<(Fig, f64)>)>> {
    let d = w.data()?;
    c.note(format!("{} {cfg:?}", w.note()));
    if w.trades.is_empty() {
        return discard();
    }
    let order = shuffled(s, w.trades.len());
    let want = expected(w, cfg, &d)?;
    match (engine(w, cfg, &d, &order)?, want) {
        (Ok(e), Some(want)) => {
            let got = figures(&e)?;
            compare(w, cfg, &got, &want)?;
            Ok(Some((got, want)))
        }
        (Err(_), None) => Ok(None),
        (Ok(_), None) => fail!("the engine made a result although the market does not have what the portfolio needs"),
        (Err(e), Some(_)) => fail!("the engine refused: {e:#}"),
    }
}
/// two instruments with figures for one factor
fn shared<T>(f: &Out<Fig>, pick: impl Fn(&Fig) -> &Out<T>, some: impl Fn(&T) -> bool) -> bool {
    let mut n: BTreeMap<&String, usize> = BTreeMap::new();
    for x in f.values() {
        for (k, v) in pick(x) {
            *n.entry(k).or_default() += some(v) as usize;
        }
    }
    n.values().any(|x| *x >= 2)
}
fn spot(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &[(K::Option, 6), (K::Futures, 2), (K::Stock, 1), (K::Cash, 1)], 6)?;
    let mut cfg = Cfg::any(s);
    cfg.on.delta = true;
    cfg.on.fx = s.bool();
    if let Some((g, _)) = judge(s, c, &w, &cfg)? {
        c.nontrivial(shared(&g, |f| &f.delta, |x| *x != 0.0) && shared(&g, |f| &f.gamma, |x| *x != 0.0));
    }
    Ok(())
}
const ANY: [(K, u32); 9] =
    [(K::Option, 3), (K::Futures, 2), (K::Stock, 1), (K::Cash, 1), (K::FxFutures, 2), (K::Bond, 2), (K::Floater, 2), (K::Swap, 3), (K::Ktbf, 1)];
fn theta(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &ANY, 5)?;
    let mut cfg = Cfg::any(s);
    cfg.on.theta = true;
    cfg.on.fx = s.bool();
    if let Some((g, _)) = judge(s, c, &w, &cfg)? {
        c.nontrivial(g.values().filter(|f| f.theta.is_some_and(|x| x != 0.0)).count() >= 2);
    }
    Ok(())
}
fn rates(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &ANY, 5)?;
    let mut cfg = Cfg::any(s);
    cfg.on.rho = true;
    cfg.on.rho_s = s.bool();
    if let Some((g, _)) = judge(s, c, &w, &cfg)? {
        c.nontrivial(shared(&g, |f| &f.rho, |x| *x != 0.0));
    }
    Ok(())
}
fn vols(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &[(K::Option, 6), (K::Futures, 1), (K::Stock, 1), (K::Cash, 1)], 5)?;
    let mut cfg = Cfg::any(s);
    cfg.on.vega = true;
    match s.draw(3) {
        0 => {}
        1 => cfg.on.vega_s = true,
        _ => cfg.on.vega_m = true,
    }
    if s.bool() {
        cfg.vega_s = cfg.vega;
        cfg.vega_m = cfg.vega;
    }
    if let Some((g, want)) = judge(s, c, &w, &cfg)? {
        c.nontrivial(shared(&g, |f| &f.vega, |x| *x != 0.0));
        // the buckets add up
        {
            for t in &w.trades {
                let (f, gross) = (&g[&t.code], want[&t.code].1);
                let tol = 1e-6 * gross * t.unit as f64 * 0.01 / cfg.vega as f64;
                for (k, v) in &f.vega {
                    for (what, l, bump) in [("vega structure", &f.vega_s, cfg.vega_s), ("vega matrix", &f.vega_m, cfg.vega_m)] {
                        if bump != cfg.vega {
                            continue;
                        }
                        if let Some(l) = l.get(k) {
                            let sum: f64 = l.iter().map(|x| *x as f64).sum();
                            ensure!((sum - *v as f64).abs() <= tol + 1e-4 * v.abs() as f64, "{}: the {what} of {k} adds up to {sum}, not to the vega {v}", t.code);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn divs(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &[(K::Option, 3), (K::Futures, 4), (K::Stock, 1), (K::Cash, 1)], 6)?;
    let mut cfg = Cfg::any(s);
    cfg.on.div = true;
    cfg.on.div_s = s.bool();
    if let Some((g, _)) = judge(s, c, &w, &cfg)? {
        c.nontrivial(shared(&g, |f| &f.div, |x| *x != 0.0));
    }
    Ok(())
}
fn flags(s: &mut Src) -> Measures {
    let mut b = || s.bool();
    Measures { fx: b(), delta: b(), vega: b(), rho: b(), div: b(), theta: b(), vega_s: b(), rho_s: b(), div_s: b(), vega_m: b() }
}
fn count(m: &Measures) -> usize {
    [m.fx, m.delta, m.vega, m.rho, m.div, m.theta, m.vega_s, m.rho_s, m.div_s, m.vega_m].iter().filter(|x| **x).count()
}
/// the figures of the requested measures
fn only(f: &Fig, m: &Measures) -> Fig {
    let mut f = f.clone();
    if !m.fx {
        f.fx = None;
    }
    if !m.delta {
        f.delta.clear();
        f.gamma.clear();
    }
    if !m.theta {
        f.theta = None;
    }
    for (on, x) in [(m.vega, &mut f.vega), (m.rho, &mut f.rho), (m.div, &mut f.div)] {
        if !on {
            x.clear();
        }
    }
    for (on, x) in [(m.vega_s, &mut f.vega_s), (m.rho_s, &mut f.rho_s), (m.div_s, &mut f.div_s), (m.vega_m, &mut f.vega_m)] {
        if !on {
            x.clear();
        }
    }
    f
}
fn gross(w: &World, cfg: &Cfg, d: &Data) -> R<Option<Out<f64>>> {
    let c = Cfg { on: Measures::default(), ..cfg.clone() };
    Ok(expected(w, &c, d)?.map(|x| x.into_iter().map(|(k, v)| (k, v.1)).collect()))
}
fn with_gross(f: &Out<Fig>, g: &Out<f64>, m: &Measures) -> Out<(Fig, f64)> {
    f.iter().map(|(k, f)| (k.clone(), (only(f, m), g[k]))).collect()
}
/// a refusal has to have a reason
fn refused<T>(w: &World, cfg: &Cfg, d: &Data, e: anyhow::Error) -> R<T> {
    ensure!(expected(w, cfg, d)?.is_none(), "the engine refused: {e:#}");
    discard()
}
fn run(w: &World, cfg: &Cfg, d: &Data, order: &[usize]) -> R<Option<Out<Fig>>> {
    match engine(w, cfg, d, order)? {
        Ok(e) => Ok(Some(figures(&e)?)),
        Err(x) => refused(w, cfg, d, x),
    }
}
fn subsets(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &ANY, 5)?;
    if w.trades.is_empty() {
        return discard();
    }
    let mut cfg = Cfg::any(s);
    let d = w.data()?;
    let mut more = flags(s);
    let mut few = flags(s);
    if count(&few) == 0 {
        few.vega = true;
    }
    macro_rules! both {
        ($($f:ident)*) => { $( few.$f &= more.$f | s.bool(); more.$f |= few.$f; )* };
    }
    both!(fx delta vega rho div theta vega_s rho_s div_s vega_m);
    c.note(format!("{} {cfg:?} {few:?} of {more:?}", w.note()));
    let Some(g) = gross(&w, &cfg, &d)? else { return discard() };
    let order = shuffled(s, w.trades.len());
    cfg.on = more.clone();
    let Some(all) = run(&w, &cfg, &d, &order)? else { return discard() };
    cfg.on = few.clone();
    let part = figures(&engine(&w, &cfg, &d, &order)?.must("some measures")?)?;
    c.nontrivial(count(&more) >= count(&few) + 2 && count(&few) >= 1 && part.values().any(|f| !f.delta.is_empty() || !f.vega.is_empty() || !f.rho.is_empty() || !f.div.is_empty() || f.theta.is_some()));
    compare(&w, &cfg, &part, &with_gross(&all, &g, &few))
}
fn again(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &ANY, 5)?;
    if w.trades.is_empty() {
        return discard();
    }
    let mut cfg = Cfg::any(s);
    cfg.on = flags(s);
    let d = w.data()?;
    c.note(format!("{} {cfg:?}", w.note()));
    let Some(g) = gross(&w, &cfg, &d)? else { return discard() };
    let order = shuffled(s, w.trades.len());
    let (mut e, first) = match engine(&w, &cfg, &d, &order)? {
        Ok(e) => {
            let f = figures(&e)?;
            (e, f)
        }
        Err(x) => return refused(&w, &cfg, &d, x),
    };
    let want = with_gross(&first, &g, &cfg.on);
    c.nontrivial(count(&cfg.on) >= 3 && w.trades.len() >= 2);
    for i in 0..s.int(1, 2) {
        e.calculate().must("another run")?;
        let r = figures(&e)?;
        compare(&w, &cfg, &r, &want).map_err(|x| match x {
            Stop::Fail(m) => Stop::Fail(format!("run {}: {m}", i + 2)),
            x => x,
        })?;
    }
    // the market is as it was
    e.reset_instruments_in_action();
    let now = e.get_npvs().must("values afterwards")?;
    for t in &w.trades {
        let (a, b) = (now[&t.code], first[&t.code].npv);
        let tol = 1e-6 * g[&t.code] + 3e-6 * b.abs() as f64;
        ensure!((a as f64 - b as f64).abs() <= tol, "{} {}: worth {a} per unit after the calculation, {b} before", t.code, t.ty);
    }
    Ok(())
}
/// an instrument alone has the figures it has in the portfolio
fn alone(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &ANY[..8], 5)?;
    let mut cfg = Cfg::any(s);
    cfg.on = flags(s);
    // short maturities share the date they are moved to
    let day = w.eval + time::Duration::days(cfg.theta as i64);
    cfg.on.theta &= w.trades.iter().filter(|t| t.mat.is_some_and(|m| m <= day)).count() < 2;
    let d = w.data()?;
    c.note(format!("{} {cfg:?}", w.note()));
    let Some(g) = gross(&w, &cfg, &d)? else { return discard() };
    let order = shuffled(s, w.trades.len());
    let Some(all) = run(&w, &cfg, &d, &order)? else { return discard() };
    c.nontrivial(w.trades.len() >= 3);
    for t in &w.trades {
        let one = World { trades: vec![t.clone()], ..w.clone() };
        let e = figures(&engine(&one, &cfg, &d, &[0])?.must("one instrument")?)?;
        let want = all.iter().filter(|x| *x.0 == t.code).map(|(k, f)| (k.clone(), f.clone())).collect();
        compare(&one, &cfg, &e, &with_gross(&want, &g, &cfg.on))?;
    }
    Ok(())
}
struct Cat {
    types: Option<Vec<&'static str>>,
    ccy: Option<Vec<Currency>>,
    und: Option<Vec<String>>,
}
impl Cat {
    fn accepts(&self, t: &Trade) -> bool {
        self.types.as_ref().is_none_or(|x| x.contains(&t.ty))
            && self.ccy.as_ref().is_none_or(|x| x.contains(&t.ccy))
            && self.und.as_ref().is_none_or(|x| t.und.is_empty() || *x == t.und)
    }
}
const TYPES: [&str; 11] = ["Futures", "VanillaCall", "VanillaPut", "Stock", "Cash", "FxFutures", "Bond", "IRS", "CRS", "FxSwap", "FxForward"];
fn some<T: Clone>(s: &mut Src, v: &[T]) -> Vec<T> {
    v.iter().filter(|_| s.bool()).cloned().collect()
}
fn groups(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &ANY[..8], 8)?;
    let mut cfg = Cfg::any(s);
    match s.draw(6) {
        0 => cfg.on.delta = true,
        1 => cfg.on.rho = true,
        2 => cfg.on.theta = true,
        3 => cfg.on.vega = true,
        _ => cfg.on.fx = true,
    }
    let unds: Vec<String> = w.unds.keys().cloned().collect();
    let mut cats = vec![];
    let mut n = 0;
    while s.more(&mut n, 4, 8) {
        let types = s.bool().then(|| some(s, &TYPES));
        let ccy = s.chance(1, 3).then(|| some(s, &USED));
        let und = s.chance(1, 3).then(|| match s.draw(3) {
            0 => some(s, &unds),
            _ if unds.is_empty() => vec![],
            _ => vec![s.pick(&unds).clone()],
        });
        cats.push(Cat { types, ccy, und });
    }
    if !s.chance(1, 4) {
        cats.push(Cat { types: None, ccy: None, und: None });
    }
    let show: Vec<String> = cats.iter().map(|k| format!("({:?} {:?} {:?})", k.types, k.ccy, k.und)).collect();
    c.note(format!("categories {} of {} {cfg:?}", show.join(" "), w.note()));
    let d = w.data()?;
    let mut left: Vec<usize> = shuffled(s, w.trades.len());
    let order = left.clone();
    let mut parts: Vec<Vec<usize>> = vec![];
    for k in &cats {
        let (a, b): (Vec<usize>, Vec<usize>) = left.iter().partition(|i| k.accepts(&w.trades[**i]));
        left = b;
        if !a.is_empty() {
            parts.push(a);
        }
    }
    let mut g = EngineGenerator::builder();
    let insts = Instruments::new(order.iter().map(|i| w.trades[*i].inst.clone()).collect());
    let q = cats
        .iter()
        .map(|k| InstrumentCategory::new(k.types.as_ref().map(|v| v.iter().map(|x| x.to_string()).collect()), k.ccy.clone(), k.und.clone()))
        .collect();
    let x = d.clone();
    g.with_configuration(cfg.build()?, w.eval, w.mp.build())
        .and_then(|g| g.with_instruments(insts))
        .and_then(|g| g.with_instrument_categories(q))
        .and_then(|g| g.with_data(x.fx, x.stock, x.curve, x.div, x.vol, x.surface, x.fxvol, x.corr, x.past))
        .must("generator")?;
    let r = g.distribute_instruments();
    ensure_eq!(r.is_err(), !left.is_empty(), "the distribution is refused; instruments no category accepts: {:?}", left.iter().map(|i| &w.trades[*i].code).collect::<Vec<_>>());
    if r.is_err() {
        return Ok(());
    }
    c.nontrivial(parts.len() >= 2 && w.trades.len() >= 4);
    let again = s.chance(1, 4);
    for _ in 0..1 + again as usize {
        let r = g.calculate();
        let mut all_fine = true;
        for p in &parts {
            let sub = World { trades: p.iter().map(|i| w.trades[*i].clone()).collect(), ..w.clone() };
            let Some(want) = expected(&sub, &cfg, &d)? else {
                all_fine = false;
                continue;
            };
            if r.is_ok() {
                let mut got = Out::new();
                for t in &sub.trades {
                    let Some(x) = g.get_calculation_results().get(&t.code) else { fail!("{} has no result", t.code) };
                    got.insert(t.code.clone(), Fig::read(x)?);
                }
                compare(&sub, &cfg, &got, &want)?;
            }
        }
        match (&r, all_fine) {
            (Ok(_), true) => ensure_eq!(g.get_calculation_results().len(), w.trades.len(), "number of results"),
            (Err(_), false) => {}
            (Err(e), true) => fail!("the calculation is refused: {e:#}"),
            (Ok(_), false) => fail!("the calculation succeeds although a group lacks market data"),
        }
    }
    Ok(())
}
const FACTORS: [&str; 7] = ["KOSPI2", "SPX", "CRS", "005930", "a", "KRWGOV", "USD OIS"];
pub const MONEY: [Currency; 5] = [Currency::KRW, Currency::USD, Currency::EUR, Currency::JPY, Currency::NIL];
pub fn amount(s: &mut Src) -> f32 {
    *s.pick(&[0.0f32, 1.0, -1.0, 0.1, 1234.5, -98765.43, 3.3e9, -1e-6]) * if s.bool() { 1.0 } else { s.f(-2.0, 2.0, 400) as f32 }
}
/// what a result has been told
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Told {
    pub npv: Option<f32>,
    pub value: Option<f32>,
    pub exposure: Option<HashMap<Currency, f32>>,
    pub one: [Option<HashMap<String, f32>>; 5],
    pub many: [Option<HashMap<String, Vec<f32>>>; 3],
    pub matrix: Option<HashMap<String, Vec<f32>>>,
    pub theta: Option<f32>,
    pub days: Option<i64>,
    pub flows: Option<HashMap<OffsetDateTime, f32>>,
    pub ccy: Option<Currency>,
}
impl Told {
    fn read(r: &CalculationResult) -> R<Told> {
        let j = serde_json::to_value(r).must("as JSON")?;
        Ok(Told {
            npv: r.get_npv_result().map(|x| x.get_npv()),
            value: r.get_value(),
            exposure: r.get_fx_exposure().cloned(),
            one: [r.get_delta(), r.get_gamma(), r.get_vega(), r.get_rho(), r.get_div_delta()].map(|x| x.cloned()),
            many: [r.get_vega_structure(), r.get_rho_structure(), r.get_div_structure()].map(|x| x.cloned()),
            matrix: r.get_vega_matrix().map(|x| x.iter().map(|(k, v)| (k.clone(), v.rows().into_iter().flat_map(|r| r.to_vec()).collect())).collect()),
            theta: r.get_theta(),
            days: j["theta_day"].as_i64(),
            flows: r.get_cashflows().cloned(),
            ccy: MONEY.into_iter().find(|c| Some(c.as_str()) == j["representation_currency"].as_str()),
        })
    }
    fn times(&self, x: f32) -> Told {
        let m = |v: &Option<HashMap<String, f32>>| v.as_ref().map(|v| v.iter().map(|(k, v)| (k.clone(), v * x)).collect());
        let l = |v: &Option<HashMap<String, Vec<f32>>>| v.as_ref().map(|v| v.iter().map(|(k, v)| (k.clone(), v.iter().map(|v| v * x).collect())).collect());
        Told {
            value: self.value.map(|v| v * x),
            exposure: self.exposure.as_ref().map(|v| v.iter().map(|(k, v)| (*k, v * x)).collect()),
            one: std::array::from_fn(|i| m(&self.one[i])),
            many: std::array::from_fn(|i| l(&self.many[i])),
            matrix: l(&self.matrix),
            theta: self.theta.map(|v| v * x),
            ..self.clone()
        }
    }
}
/// a result and what it has been told
pub struct Filled {
    pub r: CalculationResult,
    pub t: Told,
    pub info: InstrumentInfo,
    pub eval: OffsetDateTime,
    pub mat: Option<OffsetDateTime>,
    pub home: Currency,
    pub unit: f32,
    pub log: Vec<String>,
}
pub fn filled(s: &mut Src) -> R<Filled> {
    let home = *s.pick(&MONEY);
    let unit = amount(s);
    let eval = OffsetDateTime::new_in_offset(any_date(s, 2005, 2030), any_time(s), time::UtcOffset::UTC);
    let mat = s.bool().then(|| eval + time::Duration::days(s.int(-10, 500)));
    let info = InstrumentInfo::new("n".into(), "c".into(), "Futures", home, unit, mat.as_ref());
    let mut r = CalculationResult::new(info.clone(), eval);
    let mut t = Told { ccy: Some(home), ..Told::default() };
    let mut log = vec![];
    let mut n = 0;
    while s.more(&mut n, 10, 40) {
        let k = s.pick(&FACTORS).to_string();
        let x = amount(s);
        let list: Vec<f32> = (0..crate::maths::size(s, 0, 4, 50)).map(|_| amount(s)).collect();
        let what = s.draw(16) as usize;
        log.push(format!("{what} {k} {x} {list:?}"));
        match what {
            0 => {
                r.set_npv(NpvResult::new_from_npv(x));
                t.npv = Some(x);
            }
            1 => {
                let e = r.set_value();
                ensure_eq!(e.is_err(), t.npv.is_none(), "value set without a value per unit is refused");
                if let Some(v) = t.npv {
                    t.value = Some(v * unit);
                }
            }
            2 => {
                let m: HashMap<Currency, f32> = MONEY.iter().filter(|_| s.bool()).map(|m| (*m, x)).collect();
                r.set_fx_exposure(m.clone());
                t.exposure = Some(m);
            }
            3 => {
                r.set_theta(x);
                t.theta = Some(x);
            }
            4 => {
                let d = s.int(1, 30);
                r.set_theta_day(d as i32);
                t.days = Some(d);
            }
            5 => {
                let m: HashMap<OffsetDateTime, f32> = list.iter().enumerate().map(|(i, v)| (eval + time::Duration::days(i as i64), *v)).collect();
                r.set_cashflows(m.clone());
                t.flows = Some(m);
            }
            6 => {
                let m = ndarray::Array2::from_shape_vec((list.len(), 1), list.clone()).unwrap();
                let m = if s.bool() { m } else { m.reversed_axes() };
                r.set_single_vega_matrix(&k, m);
                t.matrix.get_or_insert_default().insert(k, list);
            }
            7 => {
                let z = *s.pick(&MONEY);
                r.set_representation_currency(z);
                t.ccy = Some(z);
            }
            8..=12 => {
                let i = what - 8;
                match i {
                    0 => r.set_single_delta(&k, x),
                    1 => r.set_single_gamma(&k, x),
                    2 => r.set_single_vega(&k, x),
                    3 => r.set_single_rho(&k, x),
                    _ => r.set_single_div_delta(&k, x),
                }
                t.one[i].get_or_insert_default().insert(k, x);
            }
            _ => {
                let i = what - 13;
                match i {
                    0 => r.set_single_vega_structure(&k, list.clone()),
                    1 => r.set_single_rho_structure(&k, list.clone()),
                    _ => r.set_single_div_structure(&k, list.clone()),
                }
                t.many[i].get_or_insert_default().insert(k, list);
            }
        }
    }
    Ok(Filled { r, t, info, eval, mat, home, unit, log })
}
fn results(s: &mut Src, c: &mut Ctx) -> R {
    let Filled { mut r, mut t, info, eval, mat, home, unit, log } = filled(s)?;
    let filled = [t.value.is_some(), t.exposure.is_some(), t.matrix.is_some(), t.theta.is_some()].iter().filter(|x| **x).count()
        + t.one.iter().filter(|x| x.is_some()).count()
        + t.many.iter().filter(|x| x.is_some()).count();
    let mut steps = vec![];
    for _ in 0..s.int(1, 3) {
        steps.push((*s.pick(&MONEY), *s.pick(&[1310.0f32, 7.6e-4, 1.0, 0.0, -2.5, 9.1])));
    }
    c.note(format!("{home:?} unit {unit} until {mat:?} set [{}] into {steps:?}", log.join("; ")));
    c.nontrivial(filled >= 5 && steps.iter().any(|x| Some(x.0) != t.ccy && x.1 != 1.0));
    ensure_eq!(Told::read(&r)?, t, "what was set");
    for (to, x) in steps {
        let was = r.clone();
        let n = r.representation_currency_conversion(to, x).must("conversion")?;
        ensure!(r == was, "the conversion changes the result it is made from");
        if Some(to) == t.ccy {
            ensure!(n == r, "a conversion to the same currency changes the result");
        } else {
            t = t.times(x);
            t.ccy = Some(to);
        }
        ensure_eq!(Told::read(&n)?, t, "converted to {to:?} at {x}");
        ensure!(n.get_instrument_info() == Some(&info), "instrument after conversion");
        ensure_eq!(n.get_evaluation_date(), Some(&eval), "evaluation date after conversion");
        ensure!(n.get_npv_result() == r.get_npv_result(), "value per unit after conversion");
        r = n;
    }
    Ok(())
}
/// one thing the portfolio may need is taken away
fn hole(s: &mut Src, w: &mut World) -> String {
    fn any<'a, K: Clone + 'a>(s: &mut Src, k: impl Iterator<Item = &'a K>) -> Option<K> {
        let v: Vec<K> = k.cloned().collect();
        if v.is_empty() { None } else { Some(s.pick(&v).clone()) }
    }
    fn sorted(m: &HashMap<FxCode, f32>) -> Vec<FxCode> {
        let mut v: Vec<FxCode> = m.keys().copied().collect();
        v.sort_by_key(|f| format!("{f}"));
        v
    }
    let mut t = String::new();
    macro_rules! drop {
        ($what:expr, $m:expr, $keys:expr) => {
            if let Some(k) = any(s, $keys.iter()) {
                t = format!("no {} {k:?}", $what);
                $m.remove(&k);
            }
        };
    }
    macro_rules! keys {
        ($m:expr) => {
            $m.keys().cloned().collect::<Vec<_>>()
        };
    }
    match s.draw(13) {
        0 | 1 => drop!("curve", w.rates, keys!(w.rates)),
        2 => drop!("quote", w.fx, sorted(&w.fx)),
        3 => drop!("currency volatility", w.fxvol, sorted(&w.fxvol)),
        4 => {
            let mut k: Vec<(String, FxCode)> = w.corr.keys().cloned().collect();
            k.sort_by_key(|x| format!("{x:?}"));
            drop!("correlation", w.corr, k)
        }
        5 => drop!("fixings", w.hist, keys!(w.hist)),
        6 => {
            let k = any(s, w.unds.keys());
            if let Some(k) = k {
                t = format!("no volatility {k}");
                w.unds.get_mut(&k).unwrap().vol = None;
            }
        }
        7 => drop!("underlying", w.unds, keys!(w.unds)),
        8 => drop!("collateral entry", w.mp.coll, keys!(w.mp.coll)),
        9 => drop!("borrowing entry", w.mp.borrow, keys!(w.mp.borrow)),
        10 => {
            let mut k = keys!(w.mp.fund);
            k.sort_by_key(|x| x.as_str());
            drop!("funding entry", w.mp.fund, k)
        }
        11 => {
            let mut k = keys!(w.mp.crs);
            k.sort_by_key(|x| x.as_str());
            drop!("crs entry", w.mp.crs, k)
        }
        _ => {
            if w.mp.bond.is_empty() || s.bool() {
                drop!("index entry", w.mp.index, keys!(w.mp.index))
            } else {
                let i = s.usize(0, w.mp.bond.len() - 1);
                t = format!("no bond entry {:?}", w.mp.bond.remove(i));
            }
        }
    }
    t
}
fn prescribed(s: &mut Src, c: &mut Ctx) -> R {
    let mut w = portfolio(s, &ANY, 6)?;
    let mut cfg = Cfg::any(s);
    cfg.on.fx = s.bool();
    let kinds: BTreeSet<&str> = w.trades.iter().map(|t| t.ty).collect();
    let many = kinds.len() >= 3;
    let mut holes = vec![];
    if s.bool() {
        for _ in 0..s.int(1, 2) {
            holes.push(hole(s, &mut w));
        }
    }
    c.note(holes.join(" "));
    c.nontrivial(many && !w.trades.is_empty());
    let r = judge(s, c, &w, &cfg)?;
    let _ = r;
    Ok(())
}
fn described(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &ANY, 6)?;
    let cfg = Cfg::any(s);
    let d = w.data()?;
    c.note(w.note());
    c.nontrivial(w.trades.len() >= 3);
    let order = shuffled(s, w.trades.len());
    let e = match engine(&w, &cfg, &d, &order)? {
        Ok(e) => e,
        Err(x) => return refused(&w, &cfg, &d, x),
    };
    let copies = e.get_calculation_result_clone();
    ensure_eq!(copies.len(), w.trades.len(), "number of results");
    for t in &w.trades {
        let Some(r) = copies.get(&t.code) else { fail!("{} has no result", t.code) };
        ensure!(*r == *e.get_calculation_result()[&t.code].borrow(), "{}: the copy of the result differs", t.code);
        let Some(i) = r.get_instrument_info() else { fail!("{}: no description", t.code) };
        let want = InstrumentInfo::new(t.name.clone(), t.code.clone(), t.ty, t.ccy, t.unit, t.mat.as_ref());
        ensure!(*i == want, "{} {}: described as {i:?} instead of {want:?}", t.code, t.ty);
        ensure_eq!(r.get_evaluation_date(), Some(&w.eval), "{}: evaluation date", t.code);
    }
    Ok(())
}
fn refusals(s: &mut Src, c: &mut Ctx) -> R {
    let mut w = portfolio(s, &ANY, 5)?;
    let cfg = Cfg::any(s);
    // later, when some are over
    let mats: Vec<OffsetDateTime> = w.trades.iter().filter_map(|t| t.mat).collect();
    let keep = s.chance(1, 6);
    if !mats.is_empty() && !keep {
        let m = *s.pick(&mats);
        w.eval = m + time::Duration::seconds(*s.pick(&[0, 1, -1, 86400, -86400, 40000, -40000]));
    }
    let over: Vec<&str> = w.trades.iter().filter(|t| t.mat.is_some_and(|m| m <= w.eval)).map(|t| t.code.as_str()).collect();
    c.note(format!("over: {over:?} {}", w.note()));
    let none = s.chance(1, 10);
    let insts: Vec<Instrument> = if none { vec![] } else { w.trades.iter().map(|t| t.inst.as_ref().clone()).collect() };
    c.nontrivial(!none && !over.is_empty() && over.len() < w.trades.len());
    let n = insts.len();
    let r = Engine::builder(0, cfg.build()?, w.eval, w.mp.build()).with_instruments(insts);
    ensure_eq!(r.is_err(), n == 0 || !over.is_empty(), "a portfolio of {n} with {over:?} over is refused");
    Ok(())
}
fn factory(s: &mut Src, c: &mut Ctx) -> R {
    let w = portfolio(s, &[(K::Option, 3), (K::Futures, 2), (K::Stock, 1), (K::Cash, 1), (K::FxFutures, 2), (K::Bond, 2), (K::Floater, 2), (K::Swap, 3), (K::Ktbf, 4)], 6)?;
    let cfg = Cfg::any(s);
    let d = w.data()?;
    c.note(w.note());
    let Some(m) = Market::new(&w, &cfg, &d)? else { return discard() };
    let mut g = m.clone();
    let mut gone = String::new();
    if s.bool() {
        macro_rules! lose {
            ($m:expr) => {{
                let mut k: Vec<_> = $m.keys().cloned().collect();
                k.sort_by_key(|x| format!("{x:?}"));
                if !k.is_empty() {
                    let k = s.pick(&k).clone();
                    gone = format!("{k:?}");
                    $m.remove(&k);
                }
            }};
        }
        match s.draw(8) {
            0 => lose!(g.fx),
            1 => lose!(g.eq),
            2 => lose!(g.vol),
            3 => lose!(g.quanto),
            4 => lose!(g.past),
            _ => lose!(g.zc),
        }
    }
    c.note(format!("without {gone}"));
    let f = PricerFactory::new(
        m.ed.clone(),
        g.fx.clone(),
        g.eq.clone(),
        g.zc.clone(),
        g.vol.clone(),
        g.quanto.clone(),
        g.past.clone(),
        std::rc::Rc::new(w.mp.build()),
        std::rc::Rc::new(cfg.build()?),
    );
    let mut n = 0;
    for t in &w.trades {
        let got = no_panic(|| f.create_pricer(&t.inst)).must("making a pricer")?;
        let want = g.pricer(&w, t);
        match (got, want) {
            (Ok(a), Some(b)) => {
                let (x, y) = (a.npv(&t.inst), b.npv(&t.inst));
                match (x, y) {
                    (Ok(x), Ok(y)) => {
                        n += 1;
                        // the parts of a swap's value cancel out, and are added up in any order
                        let flows = b.npv_result(&t.inst).map(|r| r.get_cashflow_amounts().values().map(|x| x.1.abs() as f64).sum()).unwrap_or(0.0);
                        let tol = if t.ty == "KTBF" { 1e-3 } else { 1e-4 } * y.abs() as f64 + 1e-3 + 4e-6 * (flows + 0.5 * t.size);
                        ensure!((x as f64 - y as f64).abs() <= tol, "{} {}: worth {x}, expected {y} (within {tol})", t.code, t.ty)
                    }
                    (x, y) => ensure_eq!(x.is_err(), y.is_err(), "{} {}: cannot be valued", t.code, t.ty),
                }
            }
            (Err(_), None) => {}
            (Ok(_), None) => fail!("{} {}: a pricer without the market data it needs", t.code, t.ty),
            (Err(e), Some(_)) => fail!("{} {}: refused: {e:#}", t.code, t.ty),
        }
    }
    c.nontrivial(n >= 2 && w.trades.len() >= 3);
    Ok(())
}
fn configured(s: &mut Src, c: &mut Ctx) -> R {
    let mut cfg = Cfg::any(s);
    cfg.on = flags(s);
    let gamma = if s.chance(1, 5) { !cfg.on.delta } else { cfg.on.delta };
    let mut bumps: Vec<f32> = (0..7).map(|i| 0.001 * (i + 1) as f32).collect();
    let bad = s.bool();
    if bad {
        let i = s.usize(0, 6);
        bumps[i] = *s.pick(&[0.0f32, -1e-9, -0.01, -0.0, 1e-30]);
    }
    cfg.theta = *s.pick(&[1, 1, 5, 0, -1]);
    c.note(format!("gamma {gamma} bumps {bumps:?} {cfg:?}"));
    let ok = gamma == cfg.on.delta && bumps.iter().all(|x| *x > 0.0) && cfg.theta > 0;
    c.nontrivial(!ok || count(&cfg.on) >= 3);
    let m = &cfg.on;
    let lv = s.pick(&[VolatilityInterplator::AndreasenHuge(AndreasenHuge {}), VolatilityInterplator::Dupire(Dupire {})]).clone();
    let stick = if s.bool() { StickynessType::StickyToMoneyness } else { StickynessType::StickyToStrike };
    let x = CalculationConfiguration::new(
        true, m.fx, m.delta, gamma, m.vega, m.rho, m.div, m.theta, m.vega_s, m.rho_s, m.div_s, m.vega_m, cfg.theta, stick.clone(), lv.clone(),
        bumps[0], bumps[1], bumps[2], bumps[3], bumps[4], bumps[5], bumps[6], cfg.rho_t.clone(), cfg.vega_t.clone(), cfg.div_t.clone(), cfg.money.clone().into(),
        VanillaOptionCalculationMethod::Analytic,
    );
    ensure_eq!(x.is_ok(), ok, "configuration accepted");
    let Ok(x) = x else { return Ok(()) };
    let has = |x: &CalculationConfiguration, what: &str| -> R {
        let got = Measures {
            fx: x.get_fx_exposure_calculation(),
            delta: x.get_delta_calculation(),
            vega: x.get_vega_calculation(),
            rho: x.get_rho_calculation(),
            div: x.get_div_delta_calculation(),
            theta: x.get_theta_calculation(),
            vega_s: x.get_vega_structure_calculation(),
            rho_s: x.get_rho_structure_calculation(),
            div_s: x.get_div_structure_calculation(),
            vega_m: x.get_vega_matrix_calculation(),
        };
        ensure_eq!(got, *m, "{what}: measures");
        ensure_eq!(x.get_gamma_calculation(), gamma, "{what}: gamma");
        ensure_eq!(x.get_npv_calculation(), true, "{what}: values");
        let b = [x.get_delta_bump_ratio(), x.get_gamma_bump_ratio(), x.get_vega_bump_value(), x.get_vega_structure_bump_value(), x.get_rho_bump_value(), x.get_div_bump_value()];
        ensure_eq!(b, [bumps[0], bumps[1], bumps[2], bumps[3], bumps[5], bumps[6]], "{what}: bumps");
        ensure_eq!(x.get_theta_day(), cfg.theta, "{what}: days");
        ensure_eq!(x.get_stickyness_type(), stick, "{what}: stickiness");
        ensure_eq!((x.get_rho_structure_tenors(), x.get_vega_structure_tenors(), x.get_div_structure_tenors()), (&cfg.rho_t, &cfg.vega_t, &cfg.div_t), "{what}: tenors");
        ensure_eq!(x.get_vega_matrix_spot_moneyness().to_vec(), cfg.money, "{what}: moneyness");
        Ok(())
    };
    has(&x, "as made")?;
    // and step by step, from the default
    let y = CalculationConfiguration::default()
        .with_delta_calculation(m.delta)
        .with_gamma_calculation(gamma)
        .with_vega_calculation(m.vega)
        .with_vega_structure_calculation(m.vega_s)
        .with_vega_matrix_calculation(m.vega_m)
        .with_theta_calculation(m.theta)
        .with_rho_calculation(m.rho)
        .with_rho_structure_calculation(m.rho_s)
        .with_div_delta_calculation(m.div)
        .with_div_structure_calculation(m.div_s)
        .with_stickyness_type(stick.clone())
        .with_lv_interpolator(lv.clone())
        .with_vanilla_option_calculation_method(VanillaOptionCalculationMethod::Analytic)
        .with_theta_day(cfg.theta)
        .with_delta_bump_ratio(bumps[0])
        .with_gamma_bump_ratio(bumps[1])
        .with_vega_bump_value(bumps[2])
        .with_vega_structure_bump_value(bumps[3])
        .with_vega_matrix_bump_value(bumps[4])
        .with_rho_bump_value(bumps[5])
        .with_rho_structure_tenors(cfg.rho_t.clone())
        .with_vega_structure_tenors(cfg.vega_t.clone())
        .with_div_structure_tenors(cfg.div_t.clone())
        .with_vega_matrix_spot_moneyness(cfg.money.clone().into());
    if m.fx {
        // what has no step keeps its default
        let mut z = serde_json::to_value(&x).must("as JSON")?;
        z["div_bump_value"] = serde_json::to_value(&y).must("as JSON")?["div_bump_value"].clone();
        ensure_eq!(serde_json::to_value(&y).must("as JSON")?, z, "made step by step");
    }
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "E01",
            facets: vec![
                facet("spot", "two instruments with a delta and a gamma to one underlying", 12000, 360000, spot),
                facet("theta", "two instruments with a theta", 10000, 300000, theta),
                facet("rates", "two instruments with a rho to one curve", 10000, 300000, rates),
                facet("volatility", "two instruments with a vega to one underlying", 8000, 240000, vols),
                facet("dividends", "two instruments with a dividend sensitivity to one underlying", 12000, 360000, divs),
            ],
            assumptions: &["values are those of V01-V04"],
        },
        Property {
            id: "E02",
            facets: vec![
                facet("subset", "two or more further measures, and figures to compare", 12500, 375000, subsets),
                facet("again", "three or more measures of two or more instruments", 10000, 300000, again),
            ],
            assumptions: &[],
        },
        Property {
            id: "E03",
            facets: vec![
                facet("groups", "two or more groups of four or more instruments", 20000, 600000, groups),
                facet("alone", "three or more instruments", 10000, 300000, alone),
            ],
            assumptions: &["what a group is worth is E01's model"],
        },
        Property {
            id: "E04",
            facets: vec![
                facet("conversion", "five or more kinds of figures, a conversion to another currency at another rate than one", 600000, 18000000, results),
                facet("described", "three or more instruments", 15000, 450000, described),
            ],
            assumptions: &[],
        },
        Property {
            id: "E05",
            facets: vec![
                facet("prescribed", "three or more kinds of instruments", 15000, 450000, prescribed),
                facet("factory", "two or more of three or more instruments valued", 15000, 450000, factory),
                facet("refusals", "some instruments over, some not", 15000, 450000, refusals),
                facet("configuration", "refused, or three or more measures", 400000, 12000000, configured),
            ],
            assumptions: &["values given the market data are those of V01-V04"],
        },
    ]
}
