//! T03 portfolio queries, T04 JSON round trips, T05 currencies, T06 curve matching
use crate::cal::{any_offset, any_time, calendar_of};
use crate::dates::{any_date, DCS};
use crate::instr::{any_credit, BDCS, FREQS};
use ndarray::{Array1, Array2};
use quantlib::currency::{Currency, FxCode};
use quantlib::data::daily_value_data::DailyValueData;
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::value_data::ValueData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::*;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::bond::Bond;
use quantlib::instruments::bond_futures::BondFutures;
use quantlib::instruments::cash::Cash;
use quantlib::instruments::futures::Futures;
use quantlib::instruments::fx_futures::FxFutures;
use quantlib::instruments::instrument_info::InstrumentInfo;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::plain_swap::PlainSwap;
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::instruments::stock::Stock;
use quantlib::instruments::vanilla_option::VanillaOption;
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration;
use quantlib::pricing_engines::calculation_result::CalculationResult;
use quantlib::pricing_engines::engine_generator::InstrumentCategory;
use quantlib::pricing_engines::match_parameter::MatchParameter;
use quantlib::pricing_engines::npv_result::NpvResult;
use quantlib::time::conventions::PaymentFrequency as Pf;
use quantlib::time::jointcalendar::JointCalendar;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use time::{Date, Duration, OffsetDateTime, UtcOffset};
use vf::*;

const CCYS: [Currency; 5] = [Currency::KRW, Currency::USD, Currency::EUR, Currency::JPY, Currency::GBP];
pub const UNDS: [&str; 5] = ["KOSPI2", "SPX", "005930", "AAPL", "SX5E"];
pub const INDICES: [&str; 3] = ["CD91", "SOFR", "EUR3M"];
pub const ISSUERS: [&str; 3] = ["Korea", "IBK", "KB Financial"];

/// an instrument and what it was made from
#[derive(Clone)]
pub struct Trade {
    pub inst: Rc<Instrument>,
    pub ty: &'static str,
    pub name: String,
    pub code: String,
    pub ccy: Currency,
    pub unit: f32,
    pub und: Vec<String>,
    pub vol: bool,
    pub fx: Option<FxCode>,
    pub quanto: Option<FxCode>,
    pub more: Vec<Currency>,
    pub mat: Option<OffsetDateTime>,
    pub bond: Option<(String, IssuerType, CreditRating, Currency)>,
    pub index: Option<String>,
    pub settled: bool,
    /// about the largest amount behind one unit, in the trade's currency
    pub size: f64,
    pub tag: Option<String>,
}
fn any_credit_few(s: &mut Src) -> (IssuerType, CreditRating) {
    (*s.pick(&[IssuerType::Government, IssuerType::Financial]), *s.pick(&[CreditRating::AAA, CreditRating::AA]))
}
fn any_index(s: &mut Src, ccy: Currency) -> RateIndex {
    let code = *s.pick(&INDICES);
    RateIndex::new((*s.pick(&["91D", "3M", "1D"])).into(), ccy, format!("{code} name"), code.into()).unwrap()
}
pub struct Where {
    pub o: UtcOffset,
    pub base: OffsetDateTime,
}
impl Where {
    pub fn any(s: &mut Src) -> Where {
        let o = any_offset(s);
        Where { o, base: OffsetDateTime::new_in_offset(any_date(s, 2015, 2030), any_time(s), o) }
    }
    fn later(&self, s: &mut Src, max: i64) -> OffsetDateTime {
        // few distinct days, so that maturities coincide
        let d = self.base + Duration::days(*s.pick(&[1, 30, 91, 365, max]));
        if s.chance(1, 6) { d + Duration::seconds(s.int(0, 86399)) } else { d }
    }
}
fn any_schedule(s: &mut Src, w: &Where, max: usize) -> Schedule {
    let n = s.usize(0, max);
    let mut d = w.base;
    Schedule::new(
        (0..n)
            .map(|_| {
                let e = d + Duration::days(s.int(1, 200));
                let p = BaseSchedule::new(d - Duration::days(s.int(0, 3)), d, e, e + Duration::days(s.int(0, 5)), s.chance(1, 3).then(|| s.f(-0.01, 0.1, 110) as f32));
                d = e;
                p
            })
            .collect(),
    )
}
fn joint(s: &mut Src) -> Result<JointCalendar, Stop> {
    let n = s.usize(1, 2);
    JointCalendar::new((0..n).map(|_| calendar_of(s.usize(0, 7)).0).collect()).must("calendar")
}
#[allow(clippy::too_many_arguments)]
fn any_bond(s: &mut Src, w: &Where, name: &str, code: &str, ccy: Currency, mat: OffsetDateTime, pricing: Option<OffsetDateTime>, fancy: bool) -> Result<(Bond, (String, IssuerType, CreditRating, Currency), Option<String>, f32), Stop> {
    let (mut it, mut cr, rk) = any_credit(s);
    if !fancy {
        (it, cr) = any_credit_few(s);
    }
    let issuer = s.pick(&ISSUERS).to_string();
    let index = s.bool().then(|| any_index(s, ccy));
    let unit = s.f(1.0, 1e5, 7) as f32;
    let b = Bond::new(
        it,
        cr,
        issuer.clone(),
        rk,
        ccy,
        unit,
        s.bool(),
        any_schedule(s, w, 4),
        index.is_none().then(|| s.f(-0.01, 0.1, 110) as f32),
        s.chance(1, 3).then(|| s.f(-0.01, 0.1, 110) as f32),
        index.clone(),
        s.chance(1, 4).then(|| "1D".to_string()),
        w.base - Duration::days(s.int(0, 400)),
        w.base - Duration::days(s.int(0, 300)),
        pricing.or_else(|| s.chance(1, 3).then(|| w.later(s, 700))),
        mat,
        joint(s)?,
        *s.pick(&DCS),
        *s.pick(&BDCS),
        FREQS[s.usize(0, 9)].0,
        s.int(0, 3),
        s.int(0, 3),
        name.into(),
        code.into(),
    )
    .must("bond")?;
    Ok((b, (issuer, it, cr, ccy), index.map(|i| i.get_code().clone()), unit))
}
/// `fancy`: every value of the enumerations (for round trips), otherwise few (so that attributes coincide)
pub fn any_trade(s: &mut Src, w: &Where, i: usize, fancy: bool) -> R<Trade> {
    let name = format!("name {i}");
    let code = format!("C{i}");
    let ccy = if fancy { Currency::from(*s.pick(&CODES)) } else { CCYS[s.weighted(&[4, 3, 1, 1, 1])] };
    let other = if s.bool() { ccy } else { *s.pick(&CCYS) };
    let unit = s.f(1.0, 1e6, 9) as f32;
    let mat = w.later(s, 3650);
    let atp = s.f(0.0, 5000.0, 501) as f32;
    let und = s.pick(&UNDS).to_string();
    let (d1, d2, d3) = (w.base - Duration::days(s.int(0, 400)), mat - Duration::days(s.int(0, 2)), mat + Duration::days(s.int(0, 3)));
    let mut t = Trade {
        inst: Rc::new(Instrument::Cash(Cash::default())),
        ty: "",
        name: name.clone(),
        code: code.clone(),
        ccy,
        unit,
        und: vec![],
        vol: false,
        fx: None,
        quanto: None,
        more: vec![],
        mat: Some(mat),
        bond: None,
        index: None,
        settled: false,
        size: 0.0,
        tag: None,
    };
    let inst = match s.usize(0, 12) {
        0 | 1 => {
            (t.ty, t.und, t.more) = ("Futures", vec![und.clone()], vec![other]);
            Instrument::Futures(Futures::new(atp, d1, d2, mat, d3, unit, ccy, other, und, name, code))
        }
        2 => {
            t.ty = "FxFutures";
            t.more = vec![other];
            t.fx = Some(FxCode::new(other, ccy));
            Instrument::FxFutures(FxFutures::new(atp, d1, d2, mat, d3, unit, ccy, other, name, code))
        }
        3 => {
            (t.ty, t.unit, t.und, t.mat) = ("Stock", 1.0, vec![und.clone()], None);
            let rank = [None, Some(StockRankType::Common), Some(StockRankType::Preferred), Some(StockRankType::Warrant), Some(StockRankType::Convertible)];
            Instrument::Stock(Stock::new(name, code, vec![und], ccy, *s.pick(&rank)))
        }
        4 => {
            (t.ty, t.unit, t.mat) = ("Cash", 1.0, None);
            Instrument::Cash(Cash::new(ccy, name, code))
        }
        5 | 6 => {
            let call = s.bool();
            t.ty = if call { "VanillaCall" } else { "VanillaPut" };
            t.und = vec![und.clone()];
            t.vol = true;
            t.settled = s.chance(1, 3);
            t.quanto = (other != ccy).then(|| FxCode::new(other, ccy));
            let ex = *s.pick(&[OptionExerciseType::European, OptionExerciseType::American, OptionExerciseType::Bermudan]);
            Instrument::VanillaOption(VanillaOption::new(
                atp,
                unit,
                d1,
                d2,
                mat,
                d3,
                vec![und],
                other,
                ccy,
                if call { OptionType::Call } else { OptionType::Put },
                ex,
                if t.settled { OptionDailySettlementType::Settled } else { OptionDailySettlementType::NotSettled },
                name,
                code,
            ))
        }
        7 => {
            t.ty = "KTBF";
            let tag = s.pick(&["repo", "repo2"]).to_string();
            let n = s.usize(0, 2);
            let mut bonds = vec![];
            for k in 0..n {
                bonds.push(any_bond(s, w, "b", &format!("{i}.{k}"), ccy, mat + Duration::days(1000), Some(mat), fancy)?.0);
            }
            t.tag = Some(tag.clone());
            let v = KtbfVirtualBond::new(s.int(1, 30) as i32, s.f(0.0, 0.1, 20) as f32, *s.pick(&[Pf::SemiAnnually, Pf::Annually, Pf::Quarterly]), 100.0);
            Instrument::KTBF(KTBF::new(ccy, unit, d1, mat, d3, v, bonds, tag, name, code).must("ktbf")?)
        }
        8 => {
            t.ty = "BondFutures";
            let j = serde_json::json!({"currency": ccy, "unit_notional": unit, "issue_date": d1, "maturity": mat, "name": name, "code": code});
            Instrument::BondFutures(serde_json::from_value::<BondFutures>(j).must("bond futures")?)
        }
        9 | 10 => {
            t.ty = "Bond";
            let (b, key, index, unit) = any_bond(s, w, &name, &code, ccy, mat, None, fancy)?;
            (t.bond, t.index, t.unit) = (Some(key), index, unit);
            Instrument::Bond(b)
        }
        _ => {
            let kind = s.usize(0, 4);
            let two = kind > 0;
            let other = if !two {
                ccy
            } else if other == ccy {
                if ccy == Currency::USD { Currency::KRW } else { Currency::USD }
            } else {
                other
            };
            t.ty = ["IRS", "CRS", "FxSwap", "FxForward", "FxSpot"][kind];
            t.fx = two.then(|| FxCode::new(other, ccy));
            t.more = vec![other];
            let index = (kind < 2).then(|| any_index(s, other));
            t.index = index.as_ref().map(|i| i.get_code().clone());
            let amt = |s: &mut Src, p: bool| p.then(|| s.f(0.5, 1500.0, 30) as f32);
            let ini = kind == 1 || kind == 2;
            let legs = |s: &mut Src| if kind < 2 { any_schedule(s, w, 3) } else { Schedule::new(vec![]) };
            let issue = if kind == 4 { mat - Duration::days(s.int(0, 2)) } else { mat - Duration::days(s.int(3, 500)) };
            Instrument::PlainSwap(
                PlainSwap::new(
                    legs(s),
                    legs(s),
                    (kind < 2).then(|| s.f(-0.01, 0.1, 110) as f32),
                    index,
                    s.chance(1, 4).then(|| "1D".to_string()),
                    joint(s)?,
                    unit,
                    issue,
                    d1,
                    mat,
                    ccy,
                    other,
                    amt(s, ini),
                    amt(s, ini),
                    amt(s, kind > 0),
                    amt(s, kind > 0),
                    *s.pick(&DCS),
                    *s.pick(&DCS),
                    *s.pick(&BDCS),
                    *s.pick(&BDCS),
                    FREQS[s.usize(0, 9)].0,
                    FREQS[s.usize(0, 9)].0,
                    s.int(0, 3),
                    s.int(0, 3),
                    name,
                    code,
                )
                .must("swap")?,
            )
        }
    };
    t.inst = Rc::new(inst);
    Ok(t)
}
const TYPES: [&str; 14] = ["Futures", "FxFutures", "Stock", "Cash", "VanillaCall", "VanillaPut", "KTBF", "BondFutures", "Bond", "IRS", "CRS", "FxSwap", "FxForward", "FxSpot"];

/// the maps of a match parameter
#[derive(Clone, Debug, Default)]
pub struct Mp {
    pub coll: BTreeMap<String, String>,
    pub borrow: BTreeMap<String, String>,
    pub bond: Vec<((String, IssuerType, CreditRating, Currency), String)>,
    pub crs: BTreeMap<Currency, String>,
    pub index: BTreeMap<String, String>,
    pub fund: BTreeMap<Currency, String>,
}
const CURVES: [&str; 6] = ["KRWGOV", "USDGOV", "KRWIRS", "KRWCRS", "USDOIS", "REPO"];
impl Mp {
    pub fn any(s: &mut Src) -> Mp {
        let full = !s.chance(1, 3);
        let has = |s: &mut Src| full || s.chance(9, 10);
        let cv = |s: &mut Src| s.pick(&CURVES).to_string();
        let mut m = Mp::default();
        for u in UNDS {
            if has(s) {
                m.coll.insert(u.into(), cv(s));
            }
            if has(s) {
                m.borrow.insert(u.into(), cv(s));
            }
        }
        for t in ["repo", "repo2"] {
            if has(s) {
                m.borrow.insert(t.into(), cv(s));
            }
        }
        for c in CCYS {
            if has(s) {
                m.crs.insert(c, cv(s));
            }
            if has(s) {
                m.fund.insert(c, cv(s));
            }
        }
        for i in INDICES {
            if has(s) {
                m.index.insert(i.into(), cv(s));
            }
        }
        for i in ISSUERS {
            for t in [IssuerType::Government, IssuerType::Financial] {
                for r in [CreditRating::AAA, CreditRating::AA] {
                    for c in CCYS {
                        if s.chance(1, 3) {
                            m.bond.push(((i.into(), t, r, c), cv(s)));
                        }
                    }
                }
            }
        }
        m
    }
    pub fn build(&self) -> MatchParameter {
        let h = |m: &BTreeMap<String, String>| m.clone().into_iter().collect::<HashMap<_, _>>();
        let c = |m: &BTreeMap<Currency, String>| m.clone().into_iter().collect::<HashMap<_, _>>();
        MatchParameter::new(h(&self.coll), h(&self.borrow), self.bond.clone().into_iter().collect(), c(&self.crs), h(&self.index), c(&self.fund))
    }
    fn two_ccy(t: &Trade) -> bool {
        ["CRS", "FxSwap", "FxForward", "FxSpot", "FxFutures"].contains(&t.ty)
    }
    fn named(x: Option<&String>) -> Option<String> {
        x.cloned()
    }
    // None: an error, "Dummy": not applicable
    fn dummy() -> Option<String> {
        Some("Dummy".into())
    }
    pub fn discount(&self, t: &Trade) -> Option<String> {
        match t.ty {
            "Bond" => Some(self.bond.iter().find(|(k, _)| Some(k) == t.bond.as_ref()).map(|x| x.1.clone()).unwrap_or("Dummy".into())),
            "IRS" | "CRS" => Self::named(self.index.get(t.index.as_ref()?)),
            "VanillaCall" | "VanillaPut" if !t.settled => Self::named(self.fund.get(&t.ccy)),
            _ => Self::dummy(),
        }
    }
    pub fn collateral(&self, t: &Trade) -> Option<Vec<String>> {
        t.und.iter().map(|u| self.coll.get(u).cloned()).collect()
    }
    pub fn borrowing(&self, t: &Trade) -> Option<Vec<String>> {
        t.und.iter().chain(t.tag.iter()).map(|u| self.borrow.get(u).cloned()).collect()
    }
    pub fn forward(&self, t: &Trade) -> Option<String> {
        match &t.index {
            Some(i) => Self::named(self.index.get(i)),
            None => Self::dummy(),
        }
    }
    pub fn crs(&self, t: &Trade) -> Option<String> {
        if Self::two_ccy(t) { Self::named(self.crs.get(&t.ccy)) } else { Self::dummy() }
    }
    pub fn floating_crs(&self, t: &Trade) -> Option<String> {
        if Self::two_ccy(t) { Self::named(self.crs.get(&t.more[0])) } else { Self::dummy() }
    }
    /// every curve an instrument depends on, without borrowing
    pub fn curves(&self, t: &Trade) -> Option<BTreeSet<String>> {
        let mut r: BTreeSet<String> = self.collateral(t)?.into_iter().collect();
        r.insert(self.discount(t)?);
        r.insert(self.forward(t)?);
        r.insert(self.crs(t)?);
        r.insert(self.floating_crs(t)?);
        r.remove("Dummy");
        Some(r)
    }
}
fn any_trades(s: &mut Src, w: &Where) -> R<Vec<Trade>> {
    let mut n = 0;
    let mut v = vec![];
    let (avg, most) = if s.chance(1, 40) { (60, 90) } else { (9, 24) };
    while s.more(&mut n, avg, most) {
        v.push(any_trade(s, w, n, false)?);
    }
    Ok(v)
}
fn note(v: &[Trade]) -> String {
    v.iter().map(|t| format!("{}:{} {:?}{:?} {:?} index {:?} until {:?}", t.code, t.ty, t.ccy, t.more, t.und, t.index, t.mat.map(|m| m.to_string()))).collect::<Vec<_>>().join("; ")
}
fn same(got: &[Rc<Instrument>], all: &[Trade], want: impl Fn(&Trade) -> bool, what: &str) -> R {
    let w: Vec<&Trade> = all.iter().filter(|t| want(t)).collect();
    let g: Vec<&str> = got.iter().map(|i| all.iter().find(|t| Rc::ptr_eq(&t.inst, i)).map(|t| t.code.as_str()).unwrap_or("?")).collect();
    let w: Vec<&str> = w.iter().map(|t| t.code.as_str()).collect();
    ensure_eq!(g, w, "{what}");
    Ok(())
}
/// each once, in any order
fn same_set<T: Ord + Debug + Clone>(got: Vec<T>, want: BTreeSet<T>, what: &str) -> R {
    let mut g = got;
    g.sort();
    let w: Vec<T> = want.into_iter().collect();
    ensure_eq!(g, w, "{what}");
    Ok(())
}
fn queries(s: &mut Src, c: &mut Ctx) -> R {
    let w = Where::any(s);
    let v = any_trades(s, &w)?;
    let p = Instruments::new(v.iter().map(|t| t.inst.clone()).collect());
    c.note(note(&v));
    c.nontrivial(v.len() >= 4 && v.iter().map(|t| t.ty).collect::<BTreeSet<_>>().len() >= 3);
    ensure_eq!(p.len(), v.len(), "number of instruments");
    ensure_eq!(p.is_empty(), v.is_empty(), "emptiness");
    for (i, t) in v.iter().enumerate() {
        let x = &p[i];
        ensure!(std::ptr::eq(x, &*t.inst), "instrument {i} is another one");
        ensure_eq!((x.get_name(), x.get_code(), x.get_type_name(), *x.get_currency(), x.get_unit_notional()), (&t.name, &t.code, t.ty, t.ccy, t.unit), "instrument {i}");
        ensure_eq!(x.get_maturity(), t.mat.as_ref(), "maturity of {}", t.code);
        ensure_eq!(x.get_underlying_codes(), t.und.iter().collect::<Vec<_>>(), "underlyings of {}", t.code);
    }
    same(&p.get_instruments_clone(), &v, |_| true, "all instruments")?;
    same(&p.iter().cloned().collect::<Vec<_>>(), &v, |_| true, "all instruments, iterating")?;
    same_set(p.get_all_underlying_codes().into_iter().cloned().collect(), v.iter().flat_map(|t| t.und.clone()).collect(), "underlying codes")?;
    same_set(
        p.get_all_fxcodes_for_pricing().into_iter().map(|f| (*f.get_currency1(), *f.get_currency2())).collect(),
        v.iter().filter_map(|t| t.fx).map(|f| (*f.get_currency1(), *f.get_currency2())).collect(),
        "currency pairs needed for pricing",
    )?;
    same_set(
        p.get_all_quanto_fxcode_und_pairs().into_iter().map(|(u, f)| (u.clone(), *f.get_currency1(), *f.get_currency2())).collect(),
        v.iter().filter_map(|t| t.quanto.map(|f| (t.und[0].clone(), *f.get_currency1(), *f.get_currency2()))).collect(),
        "quanto pairs",
    )?;
    same_set(p.get_all_type_names(), v.iter().map(|t| t.ty).collect(), "types")?;
    same_set(p.get_all_currencies().must("currencies")?.into_iter().copied().collect(), v.iter().flat_map(|t| t.more.iter().chain([&t.ccy])).copied().collect(), "currencies")?;
    let types = |s: &mut Src| -> Vec<&'static str> {
        let mut x: Vec<&str> = (0..s.usize(0, 4)).map(|_| *s.pick(&TYPES)).collect();
        if s.chance(1, 4) {
            x.push("PlainSwap");
        }
        x
    };
    for _ in 0..3 {
        let ex = s.bool().then(|| types(s));
        let exs = ex.clone().unwrap_or_default();
        let u = s.pick(&UNDS).to_string();
        same(&p.instruments_with_underlying(&u, ex.clone()), &v, |t| t.und.contains(&u) && !exs.contains(&t.ty), &format!("instruments on {u} except {ex:?}"))?;
        let k = *s.pick(&CCYS);
        same(&p.instruments_with_currency(&k), &v, |t| t.ccy == k, &format!("instruments in {k:?}"))?;
        let ty = types(s);
        same(&p.instruments_with_types(ty.clone()), &v, |t| ty.contains(&t.ty), &format!("instruments of {ty:?}"))?;
        // a selection of the instruments
        let sel: Option<Vec<usize>> = s.bool().then(|| (0..v.len()).filter(|_| s.bool()).collect());
        let some: Vec<Trade> = sel.as_ref().map(|i| i.iter().map(|i| v[*i].clone()).collect()).unwrap_or(v.clone());
        let arg: Option<Vec<Rc<Instrument>>> = sel.map(|_| some.iter().map(|t| t.inst.clone()).collect());
        let arg = arg.as_ref();
        let pick = |s: &mut Src, v: &[Trade]| {
            let ms: Vec<OffsetDateTime> = v.iter().filter_map(|t| t.mat).collect();
            if ms.is_empty() { w.base } else { *s.pick(&ms) + Duration::seconds(*s.pick(&[0, 1, -1, 86400, -86400])) }
        };
        let m = pick(s, &v);
        let why = format!("of {} instruments, {m}, except {ex:?}", some.len());
        same(&p.instruments_with_maturity_upto(arg, &m, ex.clone()), &some, |t| t.mat.is_some_and(|x| x <= m) && !exs.contains(&t.ty), &format!("maturing up to, {why}"))?;
        same(&p.instruments_with_maturity_over(arg, &m, ex.clone()), &some, |t| t.mat.is_none_or(|x| x > m) && !exs.contains(&t.ty), &format!("maturing after, {why}"))?;
        ensure_eq!(p.get_shortest_maturity(arg), some.iter().filter_map(|t| t.mat).min(), "shortest maturity of {}", some.len());
        let longest = if some.iter().any(|t| t.mat.is_none()) { None } else { some.iter().filter_map(|t| t.mat).max() };
        ensure_eq!(p.get_longest_maturity(arg), longest, "longest maturity of {}", some.len());
        ensure_eq!(p.get_all_inst_code_clone(arg), some.iter().map(|t| t.code.clone()).collect::<Vec<_>>(), "codes");
        same_set(p.get_all_unerlying_codes_requiring_volatility(arg), some.iter().filter(|t| t.vol).flat_map(|t| t.und.clone()).collect(), "underlyings with volatility")?;
    }
    Ok(())
}
fn curves(s: &mut Src, c: &mut Ctx) -> R {
    let w = Where::any(s);
    let v = any_trades(s, &w)?;
    let mp = Mp::any(s);
    let m = mp.build();
    let p = Instruments::new(v.iter().map(|t| t.inst.clone()).collect());
    c.note(format!("{} with {mp:?}", note(&v)));
    let roles = |t: &Trade| {
        let mut n: Vec<String> = mp.collateral(t).unwrap_or_default();
        n.extend([mp.discount(t), mp.forward(t), mp.crs(t), mp.floating_crs(t)].into_iter().flatten().filter(|x| x != "Dummy"));
        n.len()
    };
    c.nontrivial(v.len() >= 3 && v.iter().filter(|t| roles(t) > 0).count() >= 2);
    for t in &v {
        let i = &*t.inst;
        let one = |g: Result<&String, anyhow::Error>| g.ok().cloned();
        ensure_eq!(one(m.get_discount_curve_name(i)), mp.discount(t), "discount curve of {} {}", t.ty, t.code);
        ensure_eq!(one(m.get_rate_index_curve_name(i)), mp.forward(t), "forward curve of {} {}", t.ty, t.code);
        ensure_eq!(one(m.get_crs_curve_name(i)), mp.crs(t), "crs curve of {} {}", t.ty, t.code);
        ensure_eq!(one(m.get_floating_crs_curve_name(i)), mp.floating_crs(t), "floating side's crs curve of {} {}", t.ty, t.code);
        let many = |g: Result<Vec<&String>, anyhow::Error>| g.ok().map(|v| v.into_iter().cloned().collect::<Vec<_>>());
        ensure_eq!(many(m.get_collateral_curve_names(i)), mp.collateral(t), "collateral curves of {} {}", t.ty, t.code);
        ensure_eq!(many(m.get_borrowing_curve_names(i)), mp.borrowing(t), "borrowing curves of {} {}", t.ty, t.code);
        let u = s.pick(&UNDS).to_string();
        ensure_eq!(one(m.get_collateral_curve_name(i, &u)), mp.coll.get(&u).cloned(), "collateral curve of {u}");
    }
    let all: Option<BTreeSet<String>> = v.iter().map(|t| mp.curves(t)).collect::<Option<Vec<_>>>().map(|x| x.into_iter().flatten().collect());
    match (p.get_all_curve_names(&m), all) {
        (Ok(g), Some(w)) => same_set(g.into_iter().cloned().collect(), w, "curves of the portfolio")?,
        (Err(_), None) => (),
        (g, w) => fail!("curves of the portfolio: observed {g:?}, expected {w:?}"),
    }
    for k in CURVES {
        let ex: Option<Vec<&str>> = s.bool().then(|| (0..s.usize(0, 4)).map(|_| *s.pick(&TYPES)).collect());
        let exs = ex.clone().unwrap_or_default();
        let fine = v.iter().filter(|t| !exs.contains(&t.ty)).all(|t| mp.curves(t).is_some());
        match p.instruments_using_curve(&k.to_string(), &m, ex.clone()) {
            Ok(g) if fine => same(&g, &v, |t| !exs.contains(&t.ty) && mp.curves(t).unwrap().contains(k), &format!("instruments using {k} except {ex:?}"))?,
            Err(_) if !fine => (),
            g => fail!("instruments using {k} except {ex:?}: observed {:?} although {}", g.map(|x| x.len()), if fine { "every curve is matched" } else { "a curve is missing" }),
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- T05
pub const CODES: [&str; 47] = [
    "NIL", "KRW", "USD", "EUR", "JPY", "CNY", "CNH", "GBP", "AUD", "CAD", "CHF", "NZD", "SEK", "NOK", "MXN", "ZAR", "BRL", "INR", "RUB", "TRY", "HKD", "SGD", "TWD", "THB",
    "IDR", "MYR", "PHP", "VND", "PKR", "LKR", "BDT", "NPR", "KZT", "UZS", "KGS", "TJS", "MNT", "AED", "SAR", "QAR", "OMR", "KWD", "BHD", "JOD", "ILS", "EGP", "ZMW",
];
fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn currencies(s: &mut Src, c: &mut Ctx) -> R {
    let (i, j) = (s.usize(0, 46), s.usize(0, 46));
    let (a, b) = (CODES[i], CODES[j]);
    let (ca, cb) = (Currency::from(a), Currency::from(b));
    c.note(format!("{a} {b}"));
    c.nontrivial(i != j);
    ensure_eq!((ca.as_str().to_string(), ca.to_string(), format!("{ca:?}")), (a.to_string(), a.to_string(), a.to_string()), "text of {a}");
    ensure_eq!(ca == cb, a == b, "{a} against {b}");
    ensure!(a != b || hash_of(&ca) == hash_of(&cb), "hash of {a}");
    ensure_eq!(serde_json::to_string(&ca).must("json")?, format!("\"{a}\""), "JSON of {a}");
    ensure_eq!(serde_json::from_str::<Currency>(&format!("\"{a}\"")).must("json")?, ca, "currency of JSON {a}");
    // pairs
    let f = FxCode::new(ca, cb);
    ensure_eq!((*f.get_currency1(), *f.get_currency2()), (ca, cb), "pair {a}{b}");
    ensure_eq!(f.to_string(), format!("{a}{b}"), "text of the pair");
    ensure_eq!(FxCode::from(format!("{a}{b}").as_str()), f, "pair of its text");
    let r = f.reciprocal();
    ensure_eq!((*r.get_currency1(), *r.get_currency2()), (cb, ca), "reciprocal of {a}{b}");
    ensure_eq!(r.reciprocal(), f, "reciprocal of the reciprocal");
    ensure_eq!(r == f, a == b, "reciprocal against the pair");
    let (k, l) = (s.usize(0, 46), s.usize(0, 46));
    let g = FxCode::new(Currency::from(CODES[k]), Currency::from(CODES[l]));
    ensure_eq!(f == g, (i, j) == (k, l), "{f} against {g}");
    ensure!(f != g || hash_of(&f) == hash_of(&g), "hash of {f}");
    let text = serde_json::to_string(&f).must("json of a pair")?;
    ensure_eq!(text, format!("\"{a}_{b}\""), "JSON of a pair");
    ensure_eq!(serde_json::from_str::<FxCode>(&text).must("pair from its JSON")?, f, "pair of its JSON {text}");
    let m = HashMap::from([(f, 1.5f32)]);
    ensure_eq!(serde_json::from_str::<HashMap<FxCode, f32>>(&serde_json::to_string(&m).must("json of a map")?).must("map keyed by pairs")?, m, "map keyed by pairs");
    ensure_eq!(serde_json::from_str::<FxCode>(&format!("{{\"currency1\":\"{a}\",\"currency2\":\"{b}\"}}")).must("pair from fields")?, f, "pair of its fields");
    // text which is no currency
    let t: String = (0..s.usize(0, 5)).map(|_| *s.pick(&['A', 'D', 'E', 'K', 'R', 'S', 'U', 'W', 'k', '1', ' '])).collect();
    if !CODES.contains(&t.as_str()) {
        ensure_eq!(Currency::from(t.as_str()), Currency::NIL, "currency of {t:?}");
        ensure!(serde_json::from_str::<Currency>(&format!("\"{t}\"")).is_err(), "JSON {t:?} is a currency");
        ensure!(serde_json::from_str::<FxCode>(&format!("\"{t}_{a}\"")).is_err(), "JSON {t}_{a} is a pair");
    }
    Ok(())
}
// ---------------------------------------------------------------- T04
/// through JSON and back: nothing about the value changes
pub fn trip<T: Serialize + DeserializeOwned + Debug>(x: &T, what: &str) -> R<T> {
    let text = serde_json::to_string(x).must(&format!("JSON of {what}"))?;
    let y: T = match serde_json::from_str(&text) {
        Ok(y) => y,
        Err(e) => fail!("{what} does not come back from its own JSON: {e} in {}", &text[..text.len().min(600)]),
    };
    let again = serde_json::to_value(&y).must("JSON again")?;
    ensure_eq!(again, serde_json::to_value(x).must("JSON value")?, "{what}: JSON of what came back");
    // through the pretty form as well
    let pretty = serde_json::to_string_pretty(x).must("pretty JSON")?;
    let z: T = serde_json::from_str(&pretty).must(&format!("{what} from pretty JSON"))?;
    ensure_eq!(serde_json::to_value(&z).must("JSON again")?, again, "{what}: JSON after pretty JSON");
    Ok(y)
}
/// for types whose Debug shows every field and has no unordered map in it
fn trip_debug<T: Serialize + DeserializeOwned + Debug>(x: &T, what: &str) -> R<T> {
    let y = trip(x, what)?;
    ensure_eq!(format!("{y:?}"), format!("{x:?}"), "{what} after JSON");
    Ok(y)
}
fn trades_json(s: &mut Src, c: &mut Ctx) -> R {
    let w = Where::any(s);
    let t = any_trade(s, &w, 0, true)?;
    c.note(format!("{:?}", t.inst));
    c.nontrivial(t.ty != "Cash");
    match &*t.inst {
        Instrument::Futures(x) => ensure_eq!(trip_debug(x, t.ty)?, *x, "futures after JSON"),
        Instrument::Bond(x) => drop(trip_debug(x, t.ty)?),
        Instrument::BondFutures(x) => ensure_eq!(trip_debug(x, t.ty)?, *x, "bond futures after JSON"),
        Instrument::KTBF(x) => drop(trip_debug(x, t.ty)?),
        Instrument::PlainSwap(x) => drop(trip_debug(x, t.ty)?),
        Instrument::FxFutures(x) => ensure_eq!(trip_debug(x, t.ty)?, *x, "fx futures after JSON"),
        Instrument::VanillaOption(x) => drop(trip_debug(x, t.ty)?),
        Instrument::Stock(x) => ensure_eq!(trip_debug(x, t.ty)?, *x, "stock after JSON"),
        Instrument::Cash(x) => drop(trip_debug(x, t.ty)?),
    }
    Ok(())
}
fn any_name(s: &mut Src) -> String {
    s.pick(&["", "KOSPI2", "a \"quoted\" name", "한국", "line\nbreak", "back\\slash", "1D"]).to_string()
}
fn any_f32(s: &mut Src) -> f32 {
    match s.draw(4) {
        0 => s.f(-10.0, 10.0, 2000) as f32,
        1 => *s.pick(&[0.0, 1.0, -1.0, 0.1, 1e-7, 3.4e38, 1.17549435e-38, 1e-45, 16777217.0, 0.0001]),
        _ => loop {
            let x = f32::from_bits(s.draw(1 << 32) as u32);
            if x.is_finite() {
                break x;
            }
        },
    }
}
fn maybe_dt(s: &mut Src, w: &Where) -> Option<OffsetDateTime> {
    s.bool().then(|| w.base + Duration::seconds(s.int(-100000000, 100000000)) + Duration::nanoseconds(if s.bool() { s.int(0, 999_999_999) } else { 0 }))
}
fn data_json(s: &mut Src, c: &mut Ctx) -> R {
    let w = Where::any(s);
    let ccy = Currency::from(*s.pick(&CODES));
    let (name, code) = (any_name(s), any_name(s));
    let which = s.usize(0, 6);
    c.nontrivial(true);
    let fs = |s: &mut Src, n: usize| (0..n).map(|_| any_f32(s)).collect::<Vec<f32>>();
    let mut cal = calendar_of(s.usize(0, 7)).0;
    use quantlib::time::calendar_trait::CalendarTrait;
    for _ in 0..s.usize(0, 3) {
        let d = any_date(s, 2000, 2040);
        let r = if s.bool() { cal.add_holidays(&d) } else { cal.remove_holidays(&d) };
        r.must("edit of a calendar")?;
    }
    match which {
        0 => {
            let x = ValueData::new(any_f32(s), maybe_dt(s, &w), ccy, name, code).must("value data")?;
            c.note(format!("{x:?} {ccy:?}"));
            let y = trip_debug(&x, "value data")?;
            ensure_eq!((y.get_value().to_bits(), y.get_market_datetime(), y.get_currency(), y.get_name()), (x.get_value().to_bits(), x.get_market_datetime(), x.get_currency(), x.get_name()), "value data after JSON");
        }
        1 => {
            let n = s.usize(0, 6);
            let v = fs(s, n);
            let dated = s.bool();
            let dates: Option<Vec<OffsetDateTime>> = dated.then(|| (0..n).map(|_| w.base + Duration::hours(s.int(0, 90000))).collect());
            let times: Option<Array1<f32>> = (!dated).then(|| fs(s, n).into());
            let md = if dated { Some(w.base) } else { maybe_dt(s, &w) };
            let x = VectorData::new(v.into(), dates, times, md, ccy, name, code).must("vector data")?;
            c.note(format!("{x:?} {ccy:?}"));
            trip_debug(&x, "vector data")?;
        }
        2 => {
            let (n, m) = (s.usize(0, 4), s.usize(0, 4));
            let v = Array2::from_shape_vec((n, m), fs(s, n * m)).unwrap();
            let dates = (0..n).map(|_| w.base + Duration::hours(s.int(0, 90000))).collect();
            let x = SurfaceData::new(s.bool().then(|| any_f32(s)), v, dates, fs(s, m).into(), maybe_dt(s, &w), ccy, name, code);
            c.note(format!("{x:?}"));
            trip_debug(&x, "surface data")?;
        }
        3 | 4 => {
            let h: HashMap<Date, f32> = HashMap::new(); // with values: listed finding
            let t = any_time(s);
            if which == 3 {
                let x = DailyValueData::new(h.clone(), t, w.o, cal, name, code);
                c.note(format!("{x:?}"));
                let y = trip(&x, "daily values")?;
                ensure_eq!((y.get_value(), y.get_close_time(), y.get_utc_offset(), y.get_name(), y.get_code()), (&h, &t, &w.o, x.get_name(), x.get_code()), "daily values after JSON");
                ensure_eq!(format!("{:?}", y.get_calendar()), format!("{:?}", x.get_calendar()), "calendar after JSON");
            } else {
                let x = DailyClosePrice::new(h, t, w.o, cal, name, code);
                c.note(format!("{x:?}"));
                trip(&x, "close prices")?;
            }
        }
        5 => {
            let x = JointCalendar::new(vec![cal.clone(), calendar_of(s.usize(0, 7)).0]).must("joint calendar")?;
            c.note(format!("{x:?}"));
            trip_debug(&cal, "calendar")?;
            let y = trip_debug(&x, "joint calendar")?;
            for i in 0..40 {
                let d = w.base + Duration::days(i * 9);
                ensure_eq!(y.is_business_day(&d), x.is_business_day(&d), "{d} after JSON");
            }
        }
        _ => {
            let x = EvaluationDate::new(maybe_dt(s, &w).unwrap_or(w.base));
            c.note(format!("{}", x.get_date_clone()));
            let text = serde_json::to_string(&x).must("JSON")?;
            let y: EvaluationDate = serde_json::from_str(&text).must("evaluation date")?;
            ensure_eq!((y.get_date_clone(), y.get_date_clone().offset()), (x.get_date_clone(), x.get_date_clone().offset()), "evaluation date after JSON");
        }
    }
    Ok(())
}
fn results_json(s: &mut Src, c: &mut Ctx) -> R {
    let w = Where::any(s);
    let ccy = Currency::from(*s.pick(&CODES));
    let fs = |s: &mut Src, n: usize| (0..n).map(|_| any_f32(s)).collect::<Vec<f32>>();
    c.nontrivial(true);
    match s.usize(0, 3) {
        0 => {
            let pos = |s: &mut Src| loop {
                let x = any_f32(s).abs();
                if x > 0.0 {
                    break x;
                }
            };
            let dg = s.bool();
            let tn = |s: &mut Src| (0..s.usize(0, 3)).map(|_| any_name(s)).collect::<Vec<_>>();
            let x = CalculationConfiguration::new(
                s.bool(), s.bool(), dg, dg, s.bool(), s.bool(), s.bool(), s.bool(), s.bool(), s.bool(), s.bool(), s.bool(), s.int(1, 30) as i32,
                *s.pick(&[StickynessType::StickyToMoneyness, StickynessType::StickyToStrike]), Default::default(), pos(s), pos(s), pos(s), pos(s), pos(s), pos(s), pos(s), tn(s), tn(s), tn(s), fs(s, 3).into(),
                *s.pick(&[VanillaOptionCalculationMethod::Analytic, VanillaOptionCalculationMethod::MonteCarlo, VanillaOptionCalculationMethod::FiniteDifference]),
            )
            .must("configuration")?;
            c.note(format!("{x:?}"));
            ensure_eq!(trip_debug(&x, "configuration")?, x, "configuration after JSON");
        }
        1 => {
            let x = InstrumentCategory::new(
                s.bool().then(|| (0..s.usize(0, 3)).map(|_| any_name(s)).collect()),
                s.bool().then(|| vec![ccy]),
                s.bool().then(|| (0..s.usize(0, 3)).map(|_| any_name(s)).collect()),
            );
            c.note(format!("{x:?}"));
            trip_debug(&x, "category")?;
        }
        2 => {
            let mut m = Mp::any(s);
            m.bond.clear(); // listed finding
            c.note(format!("{m:?}"));
            let w = m.build();
            trip(&w, "match parameter")?;
        }
        _ => {
            let mat = maybe_dt(s, &w);
            let info = InstrumentInfo::new(any_name(s), any_name(s), "Bond", ccy, any_f32(s), mat.as_ref());
            ensure_eq!(trip(&info, "instrument info")?, info, "instrument info after JSON");
            let mut x = CalculationResult::new(info, w.base);
            let flows = |s: &mut Src| (0..s.usize(0, 4)).map(|i| (i, (w.base + Duration::days(i as i64), any_f32(s)))).collect::<HashMap<usize, _>>();
            let npv = NpvResult::new(any_f32(s), flows(s), flows(s));
            ensure_eq!(trip(&npv, "npv result")?, npv, "npv result after JSON");
            if s.bool() {
                x.set_npv(npv);
                x.set_value().must("value")?;
                if x.get_value().is_some_and(|v| !v.is_finite()) {
                    return discard();
                }
            }
            if s.bool() {
                x.set_fx_exposure(HashMap::from([(ccy, any_f32(s)), (Currency::USD, any_f32(s))]));
            }
            for u in ["A", "한국", "B"] {
                let p = s.draw(1 << 9);
                let v = any_f32(s);
                let a = fs(s, 3);
                if p & 1 > 0 { x.set_single_delta(u, v) }
                if p & 2 > 0 { x.set_single_gamma(u, v) }
                if p & 4 > 0 { x.set_single_vega(u, v) }
                if p & 8 > 0 { x.set_single_rho(u, v) }
                if p & 16 > 0 { x.set_single_div_delta(u, v) }
                if p & 32 > 0 { x.set_single_vega_structure(u, a.clone()) }
                if p & 64 > 0 { x.set_single_rho_structure(u, a.clone()) }
                if p & 128 > 0 { x.set_single_div_structure(u, a.clone()) }
                if p & 256 > 0 { x.set_single_vega_matrix(u, Array2::from_shape_vec((1, 3), a).unwrap()) }
            }
            if s.bool() {
                x.set_theta(any_f32(s));
                x.set_theta_day(s.int(1, 9) as i32);
            }
            c.note(serde_json::to_string(&x).unwrap_or_default());
            ensure!(trip(&x, "calculation result")? == x, "a calculation result changes through JSON");
        }
    }
    Ok(())
}
fn daily_values(_s: &mut Src, c: &mut Ctx) -> R {
    let h: HashMap<Date, f32> = HashMap::from([(crate::cal::ymd(2024, 1, 2), 1.0)]);
    c.note("daily values of one day".to_string());
    c.nontrivial(true);
    let t = time::Time::MIDNIGHT;
    trip(&DailyValueData::new(h.clone(), t, UtcOffset::UTC, calendar_of(0).0, "a".into(), "a".into()), "daily values")?;
    trip(&DailyClosePrice::new(h, t, UtcOffset::UTC, calendar_of(0).0, "a".into(), "a".into()), "close prices")?;
    Ok(())
}
fn match_parameter_bonds(_s: &mut Src, c: &mut Ctx) -> R {
    let m = Mp { bond: vec![(("Korea".into(), IssuerType::Government, CreditRating::AAA, Currency::KRW), "KRWGOV".into())], ..Default::default() };
    c.note("a match parameter with one bond discount curve".to_string());
    c.nontrivial(true);
    trip(&m.build(), "match parameter with a bond curve")?;
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![
        Property { id: "T03", facets: vec![facet("queries", "four or more instruments of three or more types", 420000, 12600000, queries)], assumptions: &["instruments are distinguished by identity, codes are distinct"] },
        Property {
            id: "T04",
            facets: vec![
                facet("trades", "anything but cash", 240000, 7200000, trades_json),
                facet("data", "every case", 240000, 7200000, data_json),
                facet("results", "every case", 240000, 7200000, results_json),
                probe("match-parameter-bonds", "the one case", match_parameter_bonds),
                probe("daily-values", "the one case", daily_values),
            ],
            assumptions: &["JSON through serde_json; numbers are finite"],
        },
        Property { id: "T05", facets: vec![facet("currencies", "two different currencies", 300000, 9000000, currencies)], assumptions: &[] },
        Property { id: "T06", facets: vec![facet("curves", "two or more instruments depending on curves", 180000, 5400000, curves)], assumptions: &["no curve is named Dummy, the name for none"] },
    ]
}
