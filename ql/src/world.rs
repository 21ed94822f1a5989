//! E01-E05: whole markets and portfolios. The engine is compared with direct pricers on market objects made anew.
use crate::cal::{any_time, calendar_of};
use crate::dates::{any_date, DCS};
use crate::instr::*;
use crate::mk::*;
use crate::params::*;
use crate::trades::{Mp, Trade, ISSUERS, UNDS};
use quantlib::currency::{Currency, FxCode};
use quantlib::data::daily_value_data::DailyValueData;
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::value_data::ValueData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::*;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::Instrument;
use quantlib::instruments::bond::Bond;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::schedule::Schedule;
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::quanto::Quanto;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
use quantlib::parameters::volatilities::volatiltiy_interpolator::VolatilityInterplator;
use quantlib::parameters::volatility::{Volatility};
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::pricing_engines::bond_pricer::BondPricer;
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration;
use quantlib::pricing_engines::engine::Engine;
use quantlib::pricing_engines::futures_pricer::FuturesPricer;
use quantlib::pricing_engines::fx_futures_pricer::FxFuturesPricer;
use quantlib::pricing_engines::identity_pricer::IdentityPricer;
use quantlib::pricing_engines::ktbf_pricer::KtbfPricer;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::pricing_engines::option_analytic_pricer::OptionAnalyticPricer;
use quantlib::pricing_engines::plain_swap_pricer::PlainSwapPricer;
use quantlib::pricing_engines::pricer::{Pricer, PricerTrait};
use quantlib::pricing_engines::unit_pricer::UnitPricer;
use quantlib::time::conventions::PaymentFrequency as Pf;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use time::{Date, Duration, OffsetDateTime, Time};
use vf::*;

pub const USED: [Currency; 4] = [Currency::KRW, Currency::USD, Currency::EUR, Currency::JPY];
pub const IDX: [&str; 3] = ["CD91", "SOFR", "EUR3M"];
const CURVES: [&str; 5] = ["KRWGOV", "USDOIS", "KRWIRS", "CRS", "REPO"];
pub fn und_ccy(u: &str) -> Currency {
    match u {
        "KOSPI2" | "005930" => Currency::KRW,
        "SX5E" => Currency::EUR,
        _ => Currency::USD,
    }
}
#[derive(Clone)]
pub enum Vol {
    Flat(f32),
    Surface(Vec<OffsetDateTime>, Vec<f32>, Vec<f32>),
}
#[derive(Clone)]
pub struct Und {
    pub spot: f32,
    pub div: Option<Div>,
    pub vol: Option<Vol>,
}
/// everything an engine is given
#[derive(Clone)]
pub struct World {
    pub eval: OffsetDateTime,
    pub ks: Vec<usize>,
    pub unds: BTreeMap<String, Und>,
    pub rates: BTreeMap<String, Rates>,
    pub mp: Mp,
    pub fx: HashMap<FxCode, f32>,
    pub fxvol: HashMap<FxCode, f32>,
    pub corr: HashMap<(String, FxCode), f32>,
    pub hist: BTreeMap<String, HashMap<Date, f32>>,
    pub trades: Vec<Trade>,
    /// every underlying pays dividends
    pub pays: bool,
    /// further curves a market object has
    pub extra: BTreeSet<String>,
}
fn nothing(name: String, code: String) -> Trade {
    Trade {
        inst: Rc::new(Instrument::Cash(Cash::default())),
        ty: "",
        name,
        code,
        ccy: Currency::KRW,
        unit: 1.0,
        und: vec![],
        vol: false,
        fx: None,
        quanto: None,
        more: vec![],
        mat: None,
        bond: None,
        index: None,
        settled: false,
        size: 0.0,
        tag: None,
    }
}
/// kinds of trades
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Futures,
    Option,
    Stock,
    Cash,
    FxFutures,
    Bond,
    Floater,
    Swap,
    Ktbf,
}
use Kind as K;
fn any_mat(s: &mut Src, eval: &OffsetDateTime) -> OffsetDateTime {
    let d = match s.draw(5) {
        0 => *eval + Duration::days(s.int(1, 8)),
        1 => *eval + Duration::days(s.int(700, 3000)),
        _ => *eval + Duration::days(s.int(5, 800)),
    };
    match s.draw(3) {
        0 => {
            let x = d.replace_time(any_time(s));
            if x > *eval { x } else { d }
        }
        _ => d,
    }
}
fn any_terms(s: &mut Src, w: &World) -> Terms {
    let freq = FREQS[*s.pick(&[FREQ_Q, FREQ_Q, FREQ_Q + 1, FREQ_Q + 2])];
    let mat = w.eval + Duration::days(match s.draw(4) {
        0 => s.int(1, 40),
        1 => s.int(1000, 2200),
        _ => s.int(20, 1000),
    });
    let mut mat = mat;
    let mut eff = w.eval - Duration::days(s.int(-20, 500));
    let forward = s.bool();
    if s.chance(1, 4) {
        // a coupon about now
        let k = s.int(1, 4) * freq.2;
        if forward {
            eff = step(&w.eval, -k, freq.1);
        } else {
            mat = step(&w.eval, k, freq.1);
        }
    }
    if s.chance(1, 3) {
        // coupons at another time of the day than the evaluation
        let by = Duration::minutes(*s.pick(&[-700, -60, -1, 1, 45, 600, 900]));
        mat += by;
        eff += by;
    }
    if eff >= mat {
        eff = mat - Duration::days(90);
    }
    Terms { ks: w.ks.clone(), eff, mat, conv: *s.pick(&BDCS), freq, forward, fix_gap: s.int(0, 3), pay_gap: *s.pick(&[0, 0, 1, 3]) }
}
const FREQ_Q: usize = 0;
impl World {
    pub fn empty(s: &mut Src) -> World {
        let (ks, o) = home(s);
        let t = if s.bool() { Time::from_hms(15, 30, 0).unwrap() } else { any_time(s) };
        World {
            eval: OffsetDateTime::new_in_offset(any_date(s, 2005, 2030), t, o),
            ks,
            unds: BTreeMap::new(),
            rates: BTreeMap::new(),
            mp: Mp::default(),
            fx: HashMap::new(),
            fxvol: HashMap::new(),
            corr: HashMap::new(),
            hist: BTreeMap::new(),
            trades: vec![],
            pays: false,
            extra: BTreeSet::new(),
        }
    }
    fn und(&mut self, s: &mut Src) -> String {
        // few of them, so that they are shared
        let u = UNDS[s.weighted(&[8, 3, 1, 1, 1])].to_string();
        if !self.unds.contains_key(&u) {
            let div = (s.bool() || self.pays).then(|| any_div(s, &self.eval));
            let spot = div.as_ref().map(|d| d.spot as f32).unwrap_or_else(|| *s.pick(&[100.0f32, 1.0, 350.0, 64000.0]));
            let vol = if s.bool() {
                Vol::Flat(s.f(0.05, 0.8, 75) as f32)
            } else {
                let (rows, cols) = (crate::maths::size(s, 2, 4, 18), crate::maths::size(s, 2, 4, 18));
                let dates = (0..rows).map(|i| self.eval + Duration::days(40 + 170 * i as i64)).collect();
                let strikes = (0..cols).map(|j| spot * (0.7 + 0.2 * j as f32)).collect();
                Vol::Surface(dates, strikes, (0..rows * cols).map(|_| s.f(0.1, 0.6, 100) as f32).collect())
            };
            self.rates.insert(u.clone(), any_rates(s, false));
            self.mp.borrow.insert(u.clone(), u.clone());
            let cv = self.curve(s);
            self.mp.coll.insert(u.clone(), cv.clone());
            if s.chance(1, 6) {
                // borrowing at the collateral rate
                self.mp.borrow.insert(u.clone(), cv);
            }
            self.unds.insert(u.clone(), Und { spot, div, vol: Some(vol) });
        }
        u
    }
    fn curve(&mut self, s: &mut Src) -> String {
        let c = s.pick(&CURVES).to_string();
        if !self.rates.contains_key(&c) {
            self.rates.insert(c.clone(), any_rates(s, false));
        }
        c
    }
    fn fund(&mut self, s: &mut Src, c: Currency) {
        if !self.mp.fund.contains_key(&c) {
            let x = self.curve(s);
            self.mp.fund.insert(c, x);
        }
    }
    fn crs(&mut self, s: &mut Src, c: Currency) {
        if !self.mp.crs.contains_key(&c) {
            let x = self.curve(s);
            self.mp.crs.insert(c, x);
        }
    }
    fn index(&mut self, s: &mut Src, ccy: Currency, tenor: &str) -> RateIndex {
        let code = s.pick(&IDX).to_string();
        if !self.mp.index.contains_key(&code) {
            let x = self.curve(s);
            self.mp.index.insert(code.clone(), x);
        }
        if !self.hist.contains_key(&code) {
            let base = s.f(0.0, 0.06, 60) as f32;
            let gaps = s.chance(1, 6);
            let mut h = HashMap::new();
            for i in -700..60i64 {
                let d = self.eval + Duration::days(i);
                if !(gaps && i.rem_euclid(11) == 3) {
                    h.insert(d.date(), base + 0.0001 * ((i * 37).rem_euclid(101)) as f32);
                }
            }
            self.hist.insert(code.clone(), h);
        }
        RateIndex::new(tenor.into(), ccy, code.clone(), code).unwrap()
    }
    fn quote(&mut self, s: &mut Src, f: FxCode) {
        let v = won;
        let (a, b) = (*f.get_currency1(), *f.get_currency2());
        let q = |s: &mut Src, a: &Currency, b: &Currency| (v(a) / v(b) * s.f(0.9, 1.1, 20)) as f32;
        match s.draw(4) {
            0 => {
                let x = q(s, &b, &a);
                self.fx.entry(f.reciprocal()).or_insert(x);
            }
            1 => {
                // the won leg of a won pair is no quote
                let (x, y) = (q(s, &a, &Currency::KRW), q(s, &b, &Currency::KRW));
                if a != Currency::KRW && b != Currency::KRW {
                    self.fx.entry(FxCode::new(a, Currency::KRW)).or_insert(x);
                    self.fx.entry(FxCode::new(b, Currency::KRW)).or_insert(y);
                } else {
                    self.fx.entry(f).or_insert(q(s, &a, &b));
                }
            }
            2 => {
                let (x, y) = (q(s, &a, &b), q(s, &b, &a));
                self.fx.entry(f).or_insert(x);
                self.fx.entry(f.reciprocal()).or_insert(y);
            }
            _ => {
                let x = q(s, &a, &b);
                self.fx.entry(f).or_insert(x);
            }
        }
    }
    /// a trade the world can price, with the market data it needs
    pub fn add(&mut self, s: &mut Src, kind: Kind) -> R<bool> {
        let i = self.trades.len();
        let (name, code) = (format!("name {i}"), format!("C{i}"));
        let mut t = nothing(name.clone(), code.clone());
        let eval = self.eval;
        let mat = any_mat(s, &eval);
        t.unit = s.f(1.0, 1e5, 9) as f32;
        t.mat = Some(mat);
        let (d1, d2) = (eval - Duration::days(s.int(0, 300)), mat + Duration::days(s.int(0, 2)));
        let inst = match kind {
            K::Futures => {
                let u = self.und(s);
                (t.ty, t.ccy, t.und) = ("Futures", und_ccy(&u), vec![u.clone()]);
                Instrument::Futures(Futures::new(self.unds[&u].spot * s.f(0.8, 1.2, 40) as f32, d1, mat, mat, d2, t.unit, t.ccy, t.ccy, u, name, code))
            }
            K::Option => {
                let u = self.und(s);
                let home = und_ccy(&u);
                t.ccy = if s.chance(1, 3) { *s.pick(&USED) } else { home };
                t.vol = true;
                t.settled = s.chance(1, 5);
                t.und = vec![u.clone()];
                self.fund(s, t.ccy);
                if home != t.ccy {
                    let f = FxCode::new(home, t.ccy);
                    t.quanto = Some(f);
                    let (v, c) = (s.f(0.0, 0.3, 30) as f32, s.f(-1.0, 1.0, 20) as f32);
                    self.fxvol.entry(f).or_insert(v);
                    self.corr.entry((u.clone(), f)).or_insert(c);
                }
                let call = s.bool();
                t.ty = if call { "VanillaCall" } else { "VanillaPut" };
                Instrument::VanillaOption(VanillaOption::new(
                    self.unds[&u].spot * s.f(0.6, 1.5, 90) as f32,
                    t.unit,
                    d1,
                    mat,
                    mat,
                    d2,
                    vec![u],
                    home,
                    t.ccy,
                    if call { OptionType::Call } else { OptionType::Put },
                    OptionExerciseType::European,
                    if t.settled { OptionDailySettlementType::Settled } else { OptionDailySettlementType::NotSettled },
                    name,
                    code,
                ))
            }
            K::Stock => {
                let u = self.und(s);
                if self.trades.iter().any(|t| t.code == u) {
                    return Ok(false);
                }
                (t.ty, t.ccy, t.und, t.unit, t.mat, t.code) = ("Stock", und_ccy(&u), vec![u.clone()], 1.0, None, u.clone());
                Instrument::Stock(Stock::new(name, u.clone(), vec![u], t.ccy, None))
            }
            K::Cash => {
                (t.ty, t.ccy, t.unit, t.mat) = ("Cash", *s.pick(&USED), 1.0, None);
                Instrument::Cash(Cash::new(t.ccy, name, code))
            }
            K::FxFutures => {
                let (a, b) = self.pair(s);
                (t.ty, t.ccy, t.more, t.fx) = ("FxFutures", b, vec![a], Some(FxCode::new(a, b)));
                self.quote(s, t.fx.unwrap());
                self.crs(s, a);
                self.crs(s, b);
                t.size = won(&a) / won(&b);
                Instrument::FxFutures(FxFutures::new(s.f(0.5, 1500.0, 30) as f32, d1, mat, mat, d2, t.unit, b, a, name, code))
            }
            K::Bond | K::Floater => {
                let tm = any_terms(s, self);
                if tm.model().is_none() {
                    return Ok(false);
                }
                let floats = kind == K::Floater;
                (t.ty, t.ccy, t.mat) = ("Bond", *s.pick(&USED), Some(tm.mat));
                let issuer = s.pick(&ISSUERS).to_string();
                let (it, cr) = (*s.pick(&[IssuerType::Government, IssuerType::Financial]), *s.pick(&[CreditRating::AAA, CreditRating::AA]));
                let key = (issuer.clone(), it, cr, t.ccy);
                if !self.mp.bond.iter().any(|x| x.0 == key) {
                    let x = self.curve(s);
                    self.mp.bond.push((key.clone(), x));
                }
                t.bond = Some(key);
                let index = floats.then(|| self.index(s, t.ccy, "91D"));
                t.index = index.as_ref().map(|i| i.get_code().clone());
                let own = s.chance(1, 8).then(|| eval + Duration::days(s.int(0, 10))).filter(|d| *d < tm.mat);
                let cal = tm.joint()?;
                let b = Bond::new_from_conventions(
                    it, cr, issuer, RankType::Senior, t.ccy, t.unit, false, tm.eff, tm.eff, own, tm.mat,
                    (!floats).then(|| s.f(0.0, 0.1, 100) as f32), None, index, None, cal, tm.forward, *s.pick(&DCS), tm.conv, tm.freq.0, tm.fix_gap, tm.pay_gap, name, code,
                );
                let Ok(b) = b else { return Ok(false) };
                Instrument::Bond(b)
            }
            K::Swap => {
                let kind = s.weighted(&[4, 4, 2, 2]); // IRS CRS FxSwap FxForward
                let tm = any_terms(s, self);
                if tm.model().is_none() {
                    return Ok(false);
                }
                let (a, b) = if kind == 0 {
                    let c = *s.pick(&USED);
                    (c, c)
                } else {
                    self.pair(s)
                };
                // b is the currency of the fixed leg
                (t.ty, t.ccy, t.more) = (["IRS", "CRS", "FxSwap", "FxForward"][kind], b, vec![a]);
                if kind > 0 {
                    t.fx = Some(FxCode::new(a, b));
                    self.quote(s, t.fx.unwrap());
                    self.crs(s, a);
                    self.crs(s, b);
                }
                let index = (kind < 2).then(|| self.index(s, a, "3M"));
                t.index = index.as_ref().map(|i| i.get_code().clone());
                let amt = |s: &mut Src, p: bool| p.then(|| s.f(0.5, 1500.0, 30) as f32);
                let ini = kind == 1 || kind == 2;
                let ex = [amt(s, ini), amt(s, ini), amt(s, kind > 0), amt(s, kind > 0)];
                let most = ex.iter().flatten().fold(1.0f64, |m, x| m.max(*x as f64));
                t.size = if kind == 0 { 1.0 } else { most * (1.0 + won(&a) / won(&b)) };
                let rate = (kind < 2).then(|| s.f(0.0, 0.1, 100) as f32);
                let cal = tm.joint()?;
                let (dc1, dc2) = (*s.pick(&DCS), *s.pick(&DCS));
                let mat = if kind < 2 { tm.mat } else { mat };
                t.mat = Some(mat);
                let r = if kind < 2 {
                    PlainSwap::new_from_conventions(
                        b, a, ex[0], ex[1], ex[2], ex[3], t.unit, tm.eff, tm.eff, mat, rate, index, None, tm.forward, dc1, dc2, tm.conv, tm.conv, tm.freq.0,
                        tm.freq.0, tm.fix_gap, tm.pay_gap, cal, name, code,
                    )
                } else {
                    let none = || Schedule::new(vec![]);
                    let issue = mat - Duration::days(s.int(5, 300));
                    PlainSwap::new(
                        none(), none(), None, None, None, cal, t.unit, issue, eval - Duration::days(s.int(-3, 200)), mat, b, a, ex[0], ex[1], ex[2], ex[3], dc1, dc2, tm.conv, tm.conv,
                        tm.freq.0, tm.freq.0, 0, 0, name, code,
                    )
                };
                let Ok(r) = r else { return Ok(false) };
                Instrument::PlainSwap(r)
            }
            K::Ktbf => {
                let tag = "repo".to_string();
                let mut bonds = vec![];
                for k in 0..s.usize(1, 3) {
                    let mut tm = any_terms(s, self);
                    tm.eff = eval - Duration::days(s.int(0, 100));
                    tm.mat = mat + Duration::days(s.int(700, 4000));
                    if tm.model().is_none() {
                        return Ok(false);
                    }
                    let cal = tm.joint()?;
                    let b = Bond::new_from_conventions(
                        IssuerType::Government, CreditRating::AAA, "Korea".into(), RankType::Senior, Currency::KRW, 10000.0, false, tm.eff, tm.eff, Some(mat), tm.mat,
                        Some(s.f(0.0, 0.08, 80) as f32), None, None, None, cal, tm.forward, *s.pick(&DCS), tm.conv, tm.freq.0, tm.fix_gap, tm.pay_gap, format!("b{k}"), format!("{i}.{k}"),
                    );
                    let Ok(b) = b else { return Ok(false) };
                    bonds.push(b);
                }
                if !self.rates.contains_key("KRWGOV") {
                    self.rates.insert("KRWGOV".into(), any_rates(s, false));
                }
                if !self.mp.borrow.contains_key(&tag) {
                    let x = self.curve(s);
                    self.mp.borrow.insert(tag.clone(), x);
                }
                t.ty = "KTBF";
                t.tag = Some(tag.clone());
                let v = KtbfVirtualBond::new(*s.pick(&[3, 5, 10]), 0.05, Pf::SemiAnnually, 100.0);
                Instrument::KTBF(KTBF::new(Currency::KRW, t.unit, d1, mat, d2, v, bonds, tag, name, code).must("ktbf")?)
            }
        };
        t.inst = Rc::new(inst);
        self.trades.push(t);
        Ok(true)
    }
    fn pair(&mut self, s: &mut Src) -> (Currency, Currency) {
        let a = *s.pick(&USED);
        let b = *s.pick(&USED);
        if a == b {
            (Currency::USD, Currency::KRW)
        } else {
            (a, b)
        }
    }
    pub fn note(&self) -> String {
        let t: Vec<String> = self
            .trades
            .iter()
            .map(|t| format!("{} {}x{} {:?}{:?} {:?} index {:?} settled {} until {}", t.code, t.unit, t.ty, t.ccy, t.more, t.und, t.index, t.settled, t.mat.map_or("-".into(), |m| m.to_string())))
            .collect();
        let u: Vec<String> = self
            .unds
            .iter()
            .map(|(k, u)| {
                let d = u.div.as_ref().map(|d| d.dates.iter().zip(&d.amounts).map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>());
                let v = match &u.vol {
                    None => "none".into(),
                    Some(Vol::Flat(v)) => v.to_string(),
                    Some(Vol::Surface(_, k, v)) => format!("{v:?} at {k:?}"),
                };
                format!("{k} {} dividends {d:?} volatility {v}", u.spot)
            })
            .collect();
        let r: Vec<String> = self.rates.iter().map(|(k, r)| format!("{k}: {}", r.note())).collect();
        format!("evaluation {} trades [{}] underlyings [{}] curves [{}] {:?} fx {:?}", self.eval, t.join("; "), u.join("; "), r.join("; "), self.mp, self.fx)
    }
    /// names of the curves an engine must have
    pub fn needed(&self) -> Option<BTreeSet<String>> {
        let mut n = self.extra.clone();
        for t in &self.trades {
            n.extend(self.mp.curves(t)?);
            n.extend(t.und.iter().cloned());
            if t.ty == "KTBF" {
                n.extend(self.mp.borrowing(t)?);
                n.insert("KRWGOV".into());
            }
        }
        Some(n)
    }
    pub fn data(&self) -> R<Data> {
        let value = |v: f32, c: Currency| ValueData::new(v, Some(self.eval), c, "v".into(), "v".into()).must("value data");
        let mut d = Data::default();
        for (k, v) in &self.fx {
            d.fx.insert(*k, value(*v, *k.get_currency2())?);
        }
        for (k, v) in &self.fxvol {
            d.fxvol.insert(*k, value(*v, Currency::NIL)?);
        }
        for (k, v) in &self.corr {
            d.corr.insert(k.clone(), value(*v, Currency::NIL)?);
        }
        for (k, r) in &self.rates {
            d.curve.insert(k.clone(), r.data(&self.eval, k)?.0);
        }
        for (k, u) in &self.unds {
            d.stock.insert(k.clone(), value(u.spot, und_ccy(k))?);
            if let Some(m) = &u.div {
                let a: Vec<f32> = m.amounts.iter().map(|x| *x as f32).collect();
                d.div.insert(k.clone(), VectorData::new(a.into(), Some(m.dates.clone()), None, Some(self.eval), und_ccy(k), k.clone(), k.clone()).must("dividends")?);
            }
            match &u.vol {
                None => {}
                Some(Vol::Flat(v)) => {
                    d.vol.insert(k.clone(), value(*v, Currency::NIL)?);
                }
                Some(Vol::Surface(..)) => {
                    d.surface.insert(k.clone(), u.surface(self.eval).unwrap());
                }
            }
        }
        for (k, h) in &self.hist {
            d.past.insert(
                k.clone(),
                DailyValueData::new(h.clone(), Time::from_hms(16, 0, 0).unwrap(), self.eval.offset(), calendar_of(self.ks[0]).0, k.clone(), k.clone()),
            );
        }
        Ok(d)
    }
}
impl Und {
    fn surface(&self, eval: OffsetDateTime) -> Option<SurfaceData> {
        match &self.vol {
            Some(Vol::Surface(dates, strikes, vals)) => Some(SurfaceData::new(
                Some(self.spot),
                ndarray::Array2::from_shape_vec((dates.len(), strikes.len()), vals.clone()).unwrap(),
                dates.clone(),
                strikes.clone().into(),
                Some(eval),
                Currency::NIL,
                "v".into(),
                "v".into(),
            )),
            _ => None,
        }
    }
}
#[derive(Default, Clone)]
pub struct Data {
    pub fx: HashMap<FxCode, ValueData>,
    pub stock: HashMap<String, ValueData>,
    pub curve: HashMap<String, VectorData>,
    pub div: HashMap<String, VectorData>,
    pub vol: HashMap<String, ValueData>,
    pub surface: HashMap<String, SurfaceData>,
    pub fxvol: HashMap<FxCode, ValueData>,
    pub corr: HashMap<(String, FxCode), ValueData>,
    pub past: HashMap<String, DailyValueData>,
}
/// the configuration of a calculation
#[derive(Clone, Debug)]
pub struct Cfg {
    pub on: Measures,
    pub stick: StickynessType,
    pub delta: f32,
    pub gamma: f32,
    pub vega: f32,
    pub vega_s: f32,
    pub vega_m: f32,
    pub rho: f32,
    pub div: f32,
    pub theta: i32,
    pub rho_t: Vec<String>,
    pub vega_t: Vec<String>,
    pub div_t: Vec<String>,
    pub money: Vec<f32>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Measures {
    pub fx: bool,
    pub delta: bool,
    pub vega: bool,
    pub rho: bool,
    pub div: bool,
    pub theta: bool,
    pub vega_s: bool,
    pub rho_s: bool,
    pub div_s: bool,
    pub vega_m: bool,
}
fn some_of(s: &mut Src, all: &[&str], min: usize) -> Vec<String> {
    let v: Vec<String> = all.iter().filter(|_| s.bool()).map(|x| x.to_string()).collect();
    if s.chance(1, 12) {
        // a month apart, longer than usual
        return (1..=s.usize(12, 30)).map(|m| format!("{m}M")).collect();
    }
    if v.len() < min { all[..min].iter().map(|x| x.to_string()).collect() } else { v }
}
impl Cfg {
    pub fn any(s: &mut Src) -> Cfg {
        let money: Vec<f32> = [0.6f32, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.4].into_iter().filter(|_| s.bool()).collect();
        Cfg {
            on: Measures::default(),
            stick: StickynessType::StickyToMoneyness,
            delta: *s.pick(&[0.01, 0.005, 0.05]),
            gamma: 0.01,
            vega: *s.pick(&[0.01, 0.005, 0.02]),
            vega_s: *s.pick(&[0.01, 0.005, 0.02]),
            vega_m: *s.pick(&[0.01, 0.005, 0.02]),
            rho: *s.pick(&[1e-3, 1e-4, 5e-3]),
            div: *s.pick(&[1e-3, 1e-4, 1e-2]),
            theta: *s.pick(&[1, 1, 2, 7, 30]),
            rho_t: some_of(s, &["1M", "3M", "6M", "9M", "1Y", "1Y6M", "2Y", "3Y", "5Y", "10Y"], 1),
            vega_t: some_of(s, &["1M", "2M", "3M", "6M", "1Y", "2Y", "3Y"], 2),
            div_t: some_of(s, &["1M", "2M", "3M", "6M", "9M", "1Y", "2Y", "3Y"], 1),
            money: if money.len() < 2 { vec![0.8, 1.0, 1.2] } else { money },
        }
    }
    pub fn build(&self) -> R<CalculationConfiguration> {
        let (c, m) = (self, &self.on);
        CalculationConfiguration::new(
            true,
            m.fx,
            m.delta,
            m.delta,
            m.vega,
            m.rho,
            m.div,
            m.theta,
            m.vega_s,
            m.rho_s,
            m.div_s,
            m.vega_m,
            c.theta,
            c.stick.clone(),
            VolatilityInterplator::default(),
            c.delta,
            c.gamma,
            c.vega,
            c.vega_s,
            c.vega_m,
            c.rho,
            c.div,
            c.rho_t.clone(),
            c.vega_t.clone(),
            c.div_t.clone(),
            c.money.clone().into(),
            VanillaOptionCalculationMethod::Analytic,
        )
        .must("configuration")
    }
}
type Shared<T> = Rc<RefCell<T>>;
pub fn share<T>(x: T) -> Shared<T> {
    Rc::new(RefCell::new(x))
}
/// market objects made without the engine
#[derive(Clone)]
pub struct Market {
    pub ed: Ev,
    pub fx: HashMap<FxCode, Shared<MarketPrice>>,
    pub eq: HashMap<String, Shared<MarketPrice>>,
    pub zc: HashMap<String, Zc>,
    pub div: HashMap<String, Shared<DiscreteRatioDividend>>,
    pub vol: HashMap<String, Shared<Volatility>>,
    pub quanto: HashMap<(String, FxCode), Shared<Quanto>>,
    pub past: HashMap<String, Rc<DailyClosePrice>>,
}
/// about how many won one unit of a currency is worth
fn won(c: &Currency) -> f64 {
    match c {
        Currency::KRW => 1.0,
        Currency::USD => 1310.0,
        Currency::EUR => 1420.5,
        _ => 9.1,
    }
}
pub fn rate_of(fx: &HashMap<FxCode, f32>, f: FxCode) -> Option<f32> {
    let won = |c: &Currency| fx.get(&FxCode::new(*c, Currency::KRW)).copied();
    fx.get(&f)
        .copied()
        .or_else(|| fx.get(&FxCode::new(*f.get_currency2(), *f.get_currency1())).map(|x| 1.0 / x))
        .or_else(|| Some(won(f.get_currency1())? / won(f.get_currency2())?))
}
impl Market {
    /// None: something the portfolio needs is missing
    pub fn new(w: &World, c: &Cfg, d: &Data) -> R<Option<Market>> {
        let ed = ev(w.eval);
        let mut m = Market {
            ed: ed.clone(),
            fx: HashMap::new(),
            eq: HashMap::new(),
            zc: HashMap::new(),
            div: HashMap::new(),
            vol: HashMap::new(),
            quanto: HashMap::new(),
            past: HashMap::new(),
        };
        for f in w.trades.iter().filter_map(|t| t.fx) {
            let Some(x) = rate_of(&w.fx, f) else { return Ok(None) };
            m.fx.insert(f, share(MarketPrice::new(x, w.eval, None, *f.get_currency2(), "fx".into(), "fx".into())));
        }
        let Some(names) = w.needed() else { return Ok(None) };
        for n in names {
            let Some(v) = d.curve.get(&n) else { return Ok(None) };
            m.zc.insert(n.clone(), share(ZeroCurve::new(ed.clone(), v, n.clone(), n.clone()).must("curve")?));
        }
        for u in w.trades.iter().flat_map(|t| t.und.iter()) {
            if m.eq.contains_key(u) {
                continue;
            }
            let Some(x) = w.unds.get(u) else { return Ok(None) };
            if let Some(v) = d.div.get(u) {
                m.div.insert(u.clone(), share(DiscreteRatioDividend::new(ed.clone(), v, x.spot, u.clone(), u.clone()).must("dividend")?));
            }
            m.eq.insert(u.clone(), share(MarketPrice::new(x.spot, w.eval, m.div.get(u).cloned(), und_ccy(u), u.clone(), u.clone())));
        }
        for t in w.trades.iter().filter(|t| t.vol) {
            let u = &t.und[0];
            let (Some(vol), Some(cc), Some(bc)) = (&w.unds[u].vol, m.named(w.mp.coll.get(u)), m.named(w.mp.borrow.get(u))) else { return Ok(None) };
            let v = LocalVolatilitySurface::initialize(ed.clone(), m.eq[u].clone(), cc, bc, c.stick.clone(), VolatilityInterplator::default(), u.clone(), u.clone());
            let (tn, mn) = (c.vega_t.clone(), c.money.clone().into());
            let mut v = match vol {
                Vol::Flat(_) => v.with_constant_volatility(&d.vol[u], tn, mn),
                _ => v.with_market_surface(&d.surface[u], tn, mn),
            }
            .must("volatility")?;
            v.build().must("volatility surface")?;
            m.vol.insert(u.clone(), share(Volatility::LocalVolatilitySurface(v)));
            if let Some(f) = t.quanto {
                let (Some(v), Some(r)) = (w.fxvol.get(&f), w.corr.get(&(u.clone(), f))) else { return Ok(None) };
                let v = share(Volatility::ConstantVolatility(ConstantVolatility::new(*v, "fx".into(), "fx".into())));
                m.quanto.insert((u.clone(), f), share(Quanto::new(v, *r, f, u.clone())));
            }
        }
        for (k, h) in &d.past {
            m.past.insert(k.clone(), Rc::new(DailyClosePrice::new_from_data(h).must("fixings")?));
        }
        Ok(Some(m))
    }
    fn named(&self, n: Option<&String>) -> Option<Zc> {
        self.zc.get(n?).cloned()
    }
    /// the pricer the matching rules prescribe
    pub fn pricer(&self, w: &World, t: &Trade) -> Option<Pricer> {
        let m = self;
        let one = |n: Option<String>| m.named(n.as_ref());
        let ed = m.ed.clone();
        let index = |t: &Trade| -> Option<(Option<Zc>, Option<Rc<DailyClosePrice>>)> {
            Some(match &t.index {
                None => (None, None),
                Some(i) => (Some(one(w.mp.forward(t))?), Some(m.past.get(i)?.clone())),
            })
        };
        Some(match t.ty {
            "Futures" => Pricer::FuturesPricer(FuturesPricer::new(m.eq.get(&t.und[0])?.clone(), one(w.mp.collateral(t)?.pop())?, one(w.mp.borrowing(t)?.pop())?)),
            "VanillaCall" | "VanillaPut" => {
                let u = &t.und[0];
                let dsc = if t.settled { share(ZeroCurve::dummy_curve().ok()?) } else { one(w.mp.discount(t))? };
                let q = match t.quanto {
                    None => None,
                    Some(f) => Some(m.quanto.get(&(u.clone(), f))?.clone()),
                };
                Pricer::OptionAnalyticPricer(OptionAnalyticPricer::new(
                    ed,
                    m.eq.get(u)?.clone(),
                    one(w.mp.collateral(t)?.pop())?,
                    one(w.mp.borrowing(t)?.pop())?,
                    dsc,
                    m.vol.get(u)?.clone(),
                    q,
                ))
            }
            "Stock" => Pricer::IdentityPricer(IdentityPricer::new(m.eq.get(&t.code)?.clone())),
            "Cash" => Pricer::UnitPricer(UnitPricer::new()),
            "FxFutures" => Pricer::FxFuturesPricer(FxFuturesPricer::new(m.fx.get(&t.fx?)?.clone(), one(w.mp.floating_crs(t))?, one(w.mp.crs(t))?)),
            "Bond" => {
                let (f, p) = index(t)?;
                Pricer::BondPricer(BondPricer::new(ed, one(w.mp.discount(t))?, f, p))
            }
            "KTBF" => Pricer::KtbfPricer(KtbfPricer::new(ed, one(Some("KRWGOV".into()))?, one(w.mp.borrowing(t)?.pop())?)),
            _ => {
                let (f, p) = index(t)?;
                let (a, b) = if t.ty == "IRS" { (w.mp.discount(t), w.mp.discount(t)) } else { (w.mp.crs(t), w.mp.floating_crs(t)) };
                let fx = match t.fx {
                    None => None,
                    Some(f) => Some(m.fx.get(&f)?.clone()),
                };
                Pricer::PlainSwapPricer(PlainSwapPricer::new(ed, one(a)?, one(b)?, f, p, fx).ok()?)
            }
        })
    }
    pub fn npv(&self, w: &World, t: &Trade) -> Option<f32> {
        self.pricer(w, t)?.npv(&t.inst).ok()
    }
    pub fn with_curve(&self, n: &str, from: Option<f32>, to: Option<f32>, b: f32) -> Market {
        let mut m = self.clone();
        let mut z = self.zc[n].borrow().clone();
        z.bump_time_interval(from, to, b).unwrap();
        m.zc.insert(n.into(), share(z));
        m
    }
    pub fn with_spot(&self, u: &str, f: f32) -> Market {
        let mut m = self.clone();
        let mut p = self.eq[u].borrow().clone();
        p *= f;
        m.eq.insert(u.into(), share(p));
        m
    }
    pub fn with_vol(&self, u: &str, v: Volatility) -> Market {
        let mut m = self.clone();
        m.vol.insert(u.into(), share(v));
        m
    }
    pub fn with_div(&self, w: &World, u: &str, from: Option<&OffsetDateTime>, to: Option<&OffsetDateTime>, b: f32) -> Market {
        let mut m = self.clone();
        let mut d = self.div[u].borrow().clone();
        d.bump_date_interval(from, to, b).unwrap();
        let d = share(d);
        m.eq.insert(u.into(), share(MarketPrice::new(w.unds[u].spot, w.eval, Some(d.clone()), und_ccy(u), u.into(), u.into())));
        m.div.insert(u.into(), d);
        m
    }
    /// the same market at another date
    pub fn moved(w: &World, c: &Cfg, d: &Data, to: OffsetDateTime) -> R<Option<Market>> {
        let Some(m) = Market::new(w, c, d)? else { return Ok(None) };
        {
            let mut e: std::cell::RefMut<EvaluationDate> = m.ed.borrow_mut();
            for p in m.fx.values().chain(m.eq.values()) {
                e.add_marketprice_observer(p.clone());
            }
            for p in m.div.values() {
                e.add_dividend_observer(p.clone());
            }
            e.set_date(to);
        }
        Ok(Some(m))
    }
}
pub type Out<T> = BTreeMap<String, T>;
/// the figures of one instrument
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fig {
    pub npv: f32,
    pub value: f32,
    pub flows: BTreeMap<OffsetDateTime, f32>,
    pub fx: Option<BTreeMap<Currency, f32>>,
    pub theta: Option<f32>,
    pub delta: Out<f32>,
    pub gamma: Out<f32>,
    pub vega: Out<f32>,
    pub rho: Out<f32>,
    pub div: Out<f32>,
    pub vega_s: Out<Vec<f32>>,
    pub rho_s: Out<Vec<f32>>,
    pub div_s: Out<Vec<f32>>,
    pub vega_m: Out<Vec<f32>>,
}
impl Fig {
    /// what the engine reports
    pub fn read(r: &quantlib::pricing_engines::calculation_result::CalculationResult) -> R<Fig> {
        let n = r.get_npv_result().some("value")?;
        let m = |x: Option<&HashMap<String, f32>>| x.map(|x| x.iter().map(|(k, v)| (k.clone(), *v)).collect()).unwrap_or_default();
        let l = |x: Option<&HashMap<String, Vec<f32>>>| x.map(|x| x.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default();
        Ok(Fig {
            npv: n.get_npv(),
            value: r.get_value().some("value")?,
            flows: r.get_cashflows().some("cash flows")?.iter().map(|(a, b)| (*a, *b)).collect(),
            fx: r.get_fx_exposure().map(|x| x.iter().map(|(a, b)| (*a, *b)).collect()),
            theta: r.get_theta(),
            delta: m(r.get_delta()),
            gamma: m(r.get_gamma()),
            vega: m(r.get_vega()),
            rho: m(r.get_rho()),
            div: m(r.get_div_delta()),
            vega_s: l(r.get_vega_structure()),
            rho_s: l(r.get_rho_structure()),
            div_s: l(r.get_div_structure()),
            vega_m: r.get_vega_matrix().map(|x| x.iter().map(|(k, v)| (k.clone(), v.rows().into_iter().flat_map(|r| r.to_vec()).collect())).collect()).unwrap_or_default(),
        })
    }
}
trait Some_<T> {
    fn some(self, what: &str) -> R<T>;
}
impl<T> Some_<T> for Option<T> {
    fn some(self, what: &str) -> R<T> {
        match self {
            Some(x) => Ok(x),
            None => fail!("the result has no {what}"),
        }
    }
}
pub fn engine(w: &World, c: &Cfg, d: &Data, order: &[usize]) -> R<anyhow::Result<Engine>> {
    let cfg = c.build()?;
    let run = || -> anyhow::Result<Engine> {
        let d = d.clone();
        let insts: Vec<Instrument> = order.iter().map(|i| w.trades[*i].inst.as_ref().clone()).collect();
        let mut e = Engine::builder(0, cfg, w.eval, w.mp.build()).with_instruments(insts)?.with_parameter_data(
            Arc::new(d.fx),
            Arc::new(d.stock),
            Arc::new(d.curve),
            Arc::new(d.div),
            Arc::new(d.vol),
            Arc::new(d.surface),
            Arc::new(d.fxvol),
            Arc::new(d.corr),
            Arc::new(d.past),
        )?;
        e.initialize_pricers()?;
        e.calculate()?;
        Ok(e)
    };
    Ok(run())
}
pub fn figures(e: &Engine) -> R<Out<Fig>> {
    let mut out = Out::new();
    for (k, r) in e.get_calculation_result() {
        out.insert(k.clone(), Fig::read(&r.borrow())?);
    }
    Ok(out)
}
/// what the figures should be, with the size of the amounts the value is made of
pub fn expected(w: &World, c: &Cfg, d: &Data) -> R<Option<Out<(Fig, f64)>>> {
    let Some(m) = Market::new(w, c, d)? else { return Ok(None) };
    Ok(expect(w, c, d, &m)?)
}
fn expect(w: &World, c: &Cfg, d: &Data, m: &Market) -> R<Option<Out<(Fig, f64)>>> {
    let on = &c.on;
    let mut out: Out<(Fig, f64)> = Out::new();
    // None: the engine has to fail
    macro_rules! get {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => return Ok(None),
            }
        };
    }
    for t in &w.trades {
        let p = get!(m.pricer(w, t));
        let r: NpvResult = get!(p.npv_result(&t.inst).ok());
        let npv = r.get_npv();
        let flows = r.get_expected_coupon_amount().must("cash flows")?.into_iter().collect::<BTreeMap<_, _>>();
        let mut f = Fig { npv, value: npv * t.unit, flows, ..Default::default() };
        let gross = r.get_cashflow_amounts().values().map(|x| x.1.abs() as f64).sum::<f64>() + npv.abs() as f64 * if t.ty == "KTBF" { 400.0 } else { 1.0 };
        // coupons of a floating leg are differences of discount factors of about one, and amounts paid on one day are netted
        let gross = gross + 0.5 * t.size;
        let gross = gross + t.und.iter().map(|u| 2.0 * w.unds[u].spot as f64).sum::<f64>();
        if on.fx {
            f.fx = Some(get!(p.fx_exposure(&t.inst, npv).ok()).into_iter().collect());
        }
        out.insert(t.code.clone(), (f, gross));
    }
    let is = |t: &Trade, v: &[&str]| v.contains(&t.ty);
    if on.delta {
        for t in w.trades.iter().filter(|t| is(t, &["Stock", "Futures"])) {
            let f = &mut out.get_mut(&t.code).unwrap().0;
            f.delta.insert(t.code.clone(), f.npv * 0.01 * t.unit);
            f.gamma.insert(t.code.clone(), 0.0);
        }
    }
    let unds: BTreeSet<String> = w.trades.iter().flat_map(|t| t.und.clone()).collect();
    for u in &unds {
        let of = |no: &[&str]| -> Vec<&Trade> { w.trades.iter().filter(|t| t.und.contains(u) && !is(t, no)).collect() };
        let opts = of(&["Stock", "Futures", "Cash"]);
        if on.delta && !opts.is_empty() {
            let (up, dn) = (m.with_spot(u, 1.0 + c.delta), m.with_spot(u, 1.0 - c.delta));
            for t in &opts {
                let (a, b) = (get!(up.npv(w, t)) as f64, get!(dn.npv(w, t)) as f64);
                let f = &mut out.get_mut(&t.code).unwrap().0;
                let (r, n) = (c.delta as f64, f.npv as f64);
                f.delta.insert(u.clone(), ((a - b) / (2.0 * r) * 0.01 * t.unit as f64) as f32);
                f.gamma.insert(u.clone(), (0.5 * (a + b - 2.0 * n) * (0.01 / r).powi(2) * t.unit as f64) as f32);
            }
        }
        if on.vega && !opts.is_empty() {
            let mut v = m.vol[u].borrow().clone();
            v.bump_volatility(None, None, None, None, c.vega).must("bump")?;
            let up = m.with_vol(u, v);
            for t in &opts {
                let a = get!(up.npv(w, t));
                let f = &mut out.get_mut(&t.code).unwrap().0;
                f.vega.insert(u.clone(), ((a as f64 - f.npv as f64) / c.vega as f64 * 0.01 * t.unit as f64) as f32);
            }
        }
        if (on.vega_s || on.vega_m) && !opts.is_empty() {
            let times: Vec<f32> = c.vega_t.iter().map(|x| yf(&w.eval, &addp(&w.eval, x))).collect();
            let last = yf(&w.eval, &opts.iter().map(|t| t.mat.unwrap()).max().unwrap());
            for matrix in [false, true] {
                if !(if matrix { on.vega_m } else { on.vega_s }) {
                    continue;
                }
                let (n, b) = (if matrix { c.money.len() } else { 1 }, if matrix { c.vega_m } else { c.vega_s });
                let mut v = m.vol[u].borrow().clone();
                let mut prev: Vec<f32> = opts.iter().map(|t| out[&t.code].0.npv).collect();
                let mut grid = vec![vec![0.0; times.len() * n]; opts.len()];
                for i in (0..times.len()).rev() {
                    let from = if i > 0 { Some(times[i - 1]) } else { None };
                    // later than every maturity: nothing depends on it
                    let idle = from.is_some_and(|f| last < f);
                    if idle && matrix {
                        continue;
                    }
                    for j in 0..n {
                        let (l, r) = if matrix { (if j > 0 { Some(c.money[j - 1]) } else { None }, Some(c.money[j])) } else { (None, None) };
                        v.bump_volatility(from, Some(times[i]), l, r, b).must("bump")?;
                        if idle {
                            continue;
                        }
                        let up = m.with_vol(u, v.clone());
                        for (k, t) in opts.iter().enumerate() {
                            let a = get!(up.npv(w, t));
                            grid[k][i * n + j] = ((a as f64 - prev[k] as f64) / b as f64 * 0.01 * t.unit as f64) as f32;
                            prev[k] = a;
                        }
                    }
                }
                for (k, t) in opts.iter().enumerate() {
                    let f = &mut out.get_mut(&t.code).unwrap().0;
                    (if matrix { &mut f.vega_m } else { &mut f.vega_s }).insert(u.clone(), std::mem::take(&mut grid[k]));
                }
            }
        }
        if !m.div.contains_key(u) {
            continue;
        }
        let divs = of(&["Stock", "Cash"]);
        if on.div {
            let up = m.with_div(w, u, None, None, c.div);
            for t in &divs {
                let a = get!(up.npv(w, t));
                let f = &mut out.get_mut(&t.code).unwrap().0;
                f.div.insert(u.clone(), ((a as f64 - f.npv as f64) / c.div as f64 * 1e-4 * t.unit as f64) as f32);
            }
        }
        if on.div_s {
            let dates: Vec<OffsetDateTime> = c.div_t.iter().map(|x| addp(&w.eval, x)).collect();
            for i in 0..dates.len() {
                let up = m.with_div(w, u, if i > 0 { Some(&dates[i - 1]) } else { None }, Some(&dates[i]), c.div);
                for t in &divs {
                    let a = get!(up.npv(w, t));
                    let f = &mut out.get_mut(&t.code).unwrap().0;
                    let x = ((a as f64 - f.npv as f64) / c.div as f64 * 1e-4 * t.unit as f64) as f32;
                    f.div_s.entry(u.clone()).or_default().push(x);
                }
            }
        }
    }
    let names: BTreeSet<String> = w.trades.iter().flat_map(|t| w.mp.curves(t).unwrap()).collect();
    for n in &names {
        let of = |no: &[&str]| -> Vec<&Trade> { w.trades.iter().filter(|t| w.mp.curves(t).unwrap().contains(n) && !is(t, no)).collect() };
        if on.rho {
            let up = m.with_curve(n, None, None, c.rho);
            for t in of(&["Stock"]) {
                let a = get!(up.npv(w, t));
                let f = &mut out.get_mut(&t.code).unwrap().0;
                f.rho.insert(n.clone(), ((a as f64 - f.npv as f64) / c.rho as f64 * 1e-4 * t.unit as f64) as f32);
            }
        }
        if on.rho_s {
            let times: Vec<f32> = c.rho_t.iter().map(|x| yf(&w.eval, &addp(&w.eval, x))).collect();
            for i in 0..times.len() {
                let up = m.with_curve(n, if i > 0 { Some(times[i - 1]) } else { None }, Some(times[i]), c.rho);
                for t in of(&["Stock", "Cash"]) {
                    let a = get!(up.npv(w, t));
                    let f = &mut out.get_mut(&t.code).unwrap().0;
                    let x = ((a as f64 - f.npv as f64) / c.rho as f64 * 1e-4 * t.unit as f64) as f32;
                    f.rho_s.entry(n.clone()).or_default().push(x);
                }
            }
        }
    }
    if on.theta {
        let day = w.eval + Duration::days(c.theta as i64);
        let ends = |t: &Trade| t.mat.is_some_and(|m| m <= day);
        let first = w.trades.iter().filter(|t| ends(t)).filter_map(|t| t.mat).min();
        for (early, to) in [(true, first), (false, Some(day))] {
            let group: Vec<&Trade> = w.trades.iter().filter(|t| !is(t, &["Stock", "Cash"]) && ends(t) == early).collect();
            let Some(to) = to.filter(|_| !group.is_empty()) else { continue };
            let later = get!(Market::moved(w, c, d, to)?);
            for t in group {
                let a = get!(later.npv(w, t));
                let f = &mut out.get_mut(&t.code).unwrap().0;
                let paid: f64 = f.flows.iter().filter(|(k, _)| w.eval.date() < k.date() && k.date() <= to.date()).map(|x| *x.1 as f64).sum();
                f.theta = Some(((a as f64 - f.npv as f64 + paid) * t.unit as f64 / yf(&w.eval, &to) as f64 / 365.0) as f32);
            }
        }
    }
    Ok(Some(out))
}
fn close(a: f32, b: f32, tol: f64) -> bool {
    a == b || (a as f64 - b as f64).abs() <= tol + 3e-6 * b.abs() as f64
}
/// engine against model
pub fn compare(w: &World, c: &Cfg, got: &Out<Fig>, want: &Out<(Fig, f64)>) -> R {
    ensure_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "instruments with results");
    for t in &w.trades {
        let (g, (e, gross)) = (&got[&t.code], &want[&t.code]);
        let id = format!("{} {}", t.code, t.ty);
        let eps = 1e-6 * gross * t.unit as f64;
        ensure!(close(g.npv, e.npv, 1e-6 * gross), "{id}: value per unit {}, expected {}", g.npv, e.npv);
        ensure!(close(g.value, e.value, eps), "{id}: value {}, expected {}", g.value, e.value);
        ensure_eq!(g.flows.keys().collect::<Vec<_>>(), e.flows.keys().collect::<Vec<_>>(), "{id}: dates of the cash flows");
        for (d, x) in &e.flows {
            ensure!(close(g.flows[d], *x, 1e-6 * gross), "{id}: cash flow on {d} {}, expected {x}", g.flows[d]);
        }
        match (&g.fx, &e.fx) {
            (Some(a), Some(b)) => {
                ensure_eq!(a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>(), "{id}: currencies of the exposure");
                for (k, x) in b {
                    ensure!(close(a[k], *x, eps.max(1e-6 * x.abs() as f64)), "{id}: exposure to {k:?} {}, expected {x}", a[k]);
                }
            }
            (a, b) => ensure_eq!(a, b, "{id}: currency exposure"),
        }
        let map = |what: &str, a: &Out<f32>, b: &Out<f32>, tol: f64| -> R {
            ensure_eq!(a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>(), "{id}: factors with a {what}");
            for (k, x) in b {
                ensure!(close(a[k], *x, tol), "{id}: {what} of {k} {}, expected {x} (within {tol:e})", a[k]);
            }
            Ok(())
        };
        map("delta", &g.delta, &e.delta, eps * 0.01 / c.delta as f64)?;
        map("gamma", &g.gamma, &e.gamma, eps * 2.0 * (0.01 / c.delta as f64).powi(2))?;
        map("vega", &g.vega, &e.vega, eps * 0.01 / c.vega as f64)?;
        map("rho", &g.rho, &e.rho, eps * 1e-4 / c.rho as f64)?;
        map("dividend sensitivity", &g.div, &e.div, eps * 1e-4 / c.div as f64)?;
        let list = |what: &str, a: &Out<Vec<f32>>, b: &Out<Vec<f32>>, tol: f64, idle: &dyn Fn(usize, &str) -> bool| -> R {
            ensure_eq!(a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>(), "{id}: factors with a {what}");
            for (k, x) in b {
                ensure_eq!(a[k].len(), x.len(), "{id}: length of the {what} of {k}");
                for i in 0..x.len() {
                    ensure!(close(a[k][i], x[i], tol) || (a[k][i] == 0.0 && idle(i, k)), "{id}: {what} {i} of {k} {}, expected {} (within {tol:e}; all {:?}, expected {x:?})", a[k][i], x[i], a[k]);
                }
            }
            Ok(())
        };
        list("vega structure", &g.vega_s, &e.vega_s, eps * 0.01 / c.vega_s as f64, &|_, _| false)?;
        list("vega matrix", &g.vega_m, &e.vega_m, eps * 0.01 / c.vega_m as f64, &|_, _| false)?;
        // buckets wholly after the last maturity of the instruments concerned may be left out
        let after = |i: usize, tenors: &[String], of: &dyn Fn(&Trade) -> bool| {
            i > 0 && w.trades.iter().filter(|t| of(t)).all(|t| t.mat.is_some_and(|m| m <= addp(&w.eval, &tenors[i - 1])))
        };
        list("rho structure", &g.rho_s, &e.rho_s, eps * 1e-4 / c.rho as f64, &|i, k| {
            after(i, &c.rho_t, &|t| !["Stock", "Cash"].contains(&t.ty) && w.mp.curves(t).unwrap().contains(k))
        })?;
        list("dividend structure", &g.div_s, &e.div_s, eps * 1e-4 / c.div as f64, &|i, k| after(i, &c.div_t, &|t| !["Stock", "Cash"].contains(&t.ty) && t.und.contains(&k.to_string())))?;
        match (g.theta, e.theta) {
            (Some(a), Some(b)) => {
                let day = w.eval + Duration::days(c.theta as i64);
                let day = w.trades.iter().filter_map(|t| t.mat).min().map_or(day, |m| day.min(m));
                let dt = yf(&w.eval, &day) as f64 * 365.0;
                let flows: f64 = e.flows.values().map(|x| x.abs() as f64).sum::<f64>() * 1e-6 * t.unit as f64;
                ensure!(close(a, b, (eps + flows) / dt), "{id}: theta {a}, expected {b}")
            }
            (a, b) => ensure_eq!(a, b.or(if c.on.theta { Some(0.0) } else { None }), "{id}: theta"),
        }
    }
    Ok(())
}
