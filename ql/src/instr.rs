//! S01 schedules, T01 bonds, T02 swaps: cash flows from the terms of the trade.
use crate::cal::{any_offset, any_time, calendar_of, closed_at, ymd};
use crate::dates::{any_date, DCS};
use crate::mk::*;
use crate::params::Cpn;
use quantlib::currency::Currency;
use quantlib::enums::{CreditRating, IssuerType, RankType};
use quantlib::instrument::InstrumentTrait;
use quantlib::instruments::bond::Bond;
use quantlib::instruments::plain_swap::{PlainSwap, PlainSwapType};
use quantlib::instruments::schedule::{build_schedule, BaseSchedule, Schedule};
use quantlib::parameters::past_price::DailyClosePrice;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::conventions::{BusinessDayConvention as Bdc, DayCountConvention as Dc, PaymentFrequency as Pf};
use quantlib::time::jointcalendar::JointCalendar;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use time::{Date, Duration, OffsetDateTime, Time, UtcOffset};
use vf::*;

pub const BDCS: [Bdc; 5] = [Bdc::Unadjusted, Bdc::Following, Bdc::ModifiedFollowing, Bdc::Preceding, Bdc::ModifiedPreceding];
/// (frequency, unit, multiple) by their published meaning
pub const FREQS: [(Pf, char, i64); 10] = [
    (Pf::Quarterly, 'M', 3),
    (Pf::SemiAnnually, 'M', 6),
    (Pf::Annually, 'Y', 1),
    (Pf::Monthly, 'M', 1),
    (Pf::SemiQuarterly, 'M', 2),
    (Pf::TriAnnually, 'M', 4),
    (Pf::Weekly, 'W', 1),
    (Pf::BiWeekly, 'W', 2),
    (Pf::SemiMonthly, 'W', 2),
    (Pf::Daily, 'D', 1),
];
/// n units after (or, negative, before) a date; months and years keep the day, clamped to the month end
pub fn step(d: &OffsetDateTime, n: i64, unit: char) -> OffsetDateTime {
    match unit {
        'D' => *d + Duration::days(n),
        'W' => *d + Duration::days(7 * n),
        _ => {
            let m = d.year() as i64 * 12 + d.month() as i64 - 1 + if unit == 'Y' { 12 * n } else { n };
            let (y, mo) = (m.div_euclid(12) as i32, (m.rem_euclid(12) + 1) as u8);
            d.replace_date(ymd(y, mo, d.day().min(crate::dates::mlen(y, mo))))
        }
    }
}
/// adjustment by a convention on the union of the calendars `ks`
pub fn adj(ks: &[usize], d: &OffsetDateTime, conv: Bdc) -> OffsetDateTime {
    let scan = |by: i64| {
        let mut x = *d;
        while ks.iter().any(|k| closed_at(*k, &x)) {
            x += Duration::days(by);
        }
        x
    };
    match conv {
        Bdc::Following => scan(1),
        Bdc::Preceding => scan(-1),
        Bdc::ModifiedFollowing => {
            let f = scan(1);
            if f.month() == d.month() { f } else { scan(-1) }
        }
        Bdc::ModifiedPreceding => {
            let f = scan(-1);
            if f.month() == d.month() { f } else { scan(1) }
        }
        _ => *d,
    }
}
/// the terms a schedule is generated from
#[derive(Clone, Debug)]
pub struct Terms {
    pub ks: Vec<usize>,
    pub eff: OffsetDateTime,
    pub mat: OffsetDateTime,
    pub conv: Bdc,
    pub freq: (Pf, char, i64),
    pub forward: bool,
    pub fix_gap: i64,
    pub pay_gap: i64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Per {
    pub fix: OffsetDateTime,
    pub start: OffsetDateTime,
    pub end: OffsetDateTime,
    pub pay: OffsetDateTime,
}
impl Terms {
    /// `o`: time zone offset of all dates; at most `max` periods
    pub fn any(s: &mut Src, o: UtcOffset, ks: Vec<usize>, max: i64) -> Terms {
        let t = if s.bool() { Time::MIDNIGHT } else { any_time(s) };
        let y = s.int(2001, 2028);
        // month ends, ordinary days, year ends
        let d = match s.draw(3) {
            0 => {
                let m = s.int(1, 12) as u8;
                ymd(y as i32, m, crate::dates::mlen(y as i32, m).saturating_sub(s.int(0, 3) as u8))
            }
            _ => any_date(s, y, y),
        };
        let eff = OffsetDateTime::new_in_offset(d, t, o);
        let freq = FREQS[s.weighted(&[6, 5, 4, 3, 1, 1, 1, 1, 1, 1])];
        let n = s.int(1, max);
        let mut mat = step(&eff, n * freq.2, freq.1);
        if s.chance(1, 2) {
            // a stub
            let days = match freq.1 {
                'D' => 0,
                'W' => s.int(0, 13) - 6,
                _ => s.int(0, 60) - 30,
            };
            mat += Duration::days(days);
        }
        if mat <= eff {
            mat = eff + Duration::days(s.int(1, 40));
        }
        while mat.year() > 2047 {
            mat = mat.replace_date(mat.date() - Duration::days(3653));
            if mat <= eff {
                mat = eff + Duration::days(100);
            }
        }
        if s.chance(1, 5) {
            // another time of day
            let m = mat.replace_time(any_time(s));
            mat = if m > eff { m } else { mat };
        }
        Terms {
            ks,
            eff,
            mat,
            conv: *s.pick(&BDCS),
            freq,
            forward: s.bool(),
            fix_gap: if s.bool() { s.int(0, 3) } else { s.int(0, 20) },
            pay_gap: if s.bool() { 0 } else { s.int(0, 12) },
        }
    }
    pub fn joint(&self) -> Result<JointCalendar, Stop> {
        JointCalendar::new(self.ks.iter().map(|k| calendar_of(*k).0).collect()).must("calendar")
    }
    /// None: refused, because adjustment leaves an empty period
    pub fn model(&self) -> Option<Vec<Per>> {
        let mut raw = vec![];
        let mut k = 0;
        if self.forward {
            loop {
                let d = step(&self.eff, k * self.freq.2, self.freq.1);
                raw.push(d);
                k += 1;
                if d >= self.mat {
                    break;
                }
            }
        } else {
            loop {
                let d = step(&self.mat, -k * self.freq.2, self.freq.1);
                raw.push(d);
                k += 1;
                if d <= self.eff {
                    break;
                }
            }
            raw.reverse();
        }
        let n = raw.len() - 1;
        // inner boundaries are adjusted, the two ends are the dates of the trade
        let mut b: Vec<OffsetDateTime> = raw.iter().map(|d| adj(&self.ks, d, self.conv)).collect();
        b[0] = self.eff;
        b[n] = self.mat;
        let mut res = vec![];
        for i in 0..n {
            if b[i + 1] <= b[i] {
                return None;
            }
            res.push(Per {
                fix: adj(&self.ks, &(b[i] - Duration::days(self.fix_gap)), Bdc::Preceding),
                start: b[i],
                end: b[i + 1],
                pay: if i == n - 1 { self.mat } else { adj(&self.ks, &(b[i + 1] + Duration::days(self.pay_gap)), self.conv) },
            });
        }
        Some(res)
    }
    pub fn note(&self) -> String {
        let names: Vec<&str> = self.ks.iter().map(|k| calendar_of(*k).1).collect();
        format!(
            "{} to {} {:?} {:?} {} on {names:?}, fixing gap {} payment gap {}",
            self.eff,
            self.mat,
            self.freq.0,
            self.conv,
            if self.forward { "forward" } else { "backward" },
            self.fix_gap,
            self.pay_gap
        )
    }
}
pub fn any_calendars(s: &mut Src) -> Vec<usize> {
    let n = 1 + s.weighted(&[3, 1]);
    let mut ks: Vec<usize> = (0..n).map(|_| s.usize(0, 7)).collect();
    ks.dedup();
    ks
}
/// a calendar and the offset its dates are meant in
pub fn home(s: &mut Src) -> (Vec<usize>, UtcOffset) {
    let k = s.usize(0, 7);
    let o = calendar_of(k).2.unwrap_or_else(|| any_offset(s));
    let mut ks = vec![k];
    if s.chance(1, 4) {
        ks.push(s.usize(0, 7));
    }
    ks.dedup();
    (ks, o)
}
fn check_schedule(got: &Schedule, want: &[Per]) -> R {
    ensure_eq!(got.len(), want.len(), "number of periods");
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure_eq!(*g.get_calc_start_date(), w.start, "start of period {i} of {}", want.len());
        ensure_eq!(*g.get_calc_end_date(), w.end, "end of period {i} of {}", want.len());
        ensure_eq!(*g.get_fixing_date(), w.fix, "fixing date of period {i} of {}", want.len());
        ensure_eq!(*g.get_payment_date(), w.pay, "payment date of period {i} of {}", want.len());
        ensure_eq!(g.get_amount(), None, "amount of period {i}");
    }
    Ok(())
}
fn schedule(s: &mut Src, c: &mut Ctx) -> R {
    let o = any_offset(s);
    let ks = any_calendars(s);
    let most = if s.chance(1, 40) { 700 } else { 40 };
    let mut t = Terms::any(s, o, ks, most);
    if s.chance(1, 12) {
        // very short trades
        t.mat = t.eff + Duration::days(s.int(0, 8) - 2);
    }
    let bad = s.chance(1, 25);
    if bad {
        if s.bool() { t.fix_gap = -1 - t.fix_gap } else { t.pay_gap = -1 - t.pay_gap }
    }
    c.note(t.note());
    let cal = t.joint()?;
    let got = build_schedule(t.forward, &t.eff, &t.mat, &cal, &t.conv, &t.freq.0, t.fix_gap, t.pay_gap);
    if bad {
        ensure!(got.is_err(), "a negative gap was accepted");
        return Ok(());
    }
    if t.mat <= t.eff {
        let g = got.must("schedule without life")?;
        ensure!(g.is_empty() && g.len() == 0, "a trade without life has {} periods", g.len());
        return Ok(());
    }
    match (got, t.model()) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(w)) => fail!("refused ({}), expected {} periods", e.to_string().lines().next().unwrap_or(""), w.len()),
        (Ok(g), None) => fail!("accepted with {} periods although one is empty", g.len()),
        (Ok(g), Some(w)) => {
            let regular = step(&t.eff, t.freq.2 * w.len() as i64, t.freq.1) == t.mat;
            c.nontrivial(w.len() >= 3 && (!regular || w.iter().any(|p| t.ks.iter().any(|k| closed_at(*k, &p.pay)) || p.start != t.eff)));
            check_schedule(&g, &w)?;
            // what the dates mean, independently of how they are found
            ensure_eq!(*g[0].get_calc_start_date(), t.eff, "first day");
            ensure_eq!(*g[g.len() - 1].get_calc_end_date(), t.mat, "last day");
            ensure_eq!(*g[g.len() - 1].get_payment_date(), t.mat, "last payment");
            for i in 1..g.len() {
                ensure_eq!(g[i].get_calc_start_date(), g[i - 1].get_calc_end_date(), "periods {i} and its predecessor");
                if t.conv != Bdc::Unadjusted {
                    for k in &t.ks {
                        ensure!(!closed_at(*k, g[i].get_calc_start_date()), "period {i} starts on a closed day {}", g[i].get_calc_start_date());
                    }
                }
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- floating index
pub struct Floating {
    pub tenor: &'static str,
    pub overnight: Option<String>,
    pub spread: Option<f32>,
    pub hist: HashMap<Date, f32>,
    pub rates: Rates,
}
impl Floating {
    pub fn any(s: &mut Src, around: &OffsetDateTime, days: i64, ks: &[usize]) -> Floating {
        let overnight = s.chance(1, 4).then(|| "1D".to_string());
        let tenor = if overnight.is_some() { "1D" } else { *s.pick(&["91D", "3M", "6M", "1M"]) };
        let mut hist = HashMap::new();
        let gaps = s.chance(1, 4);
        let base = s.f(0.0, 0.06, 60) as f32;
        for i in -days..=days {
            let d = *around + Duration::days(i);
            if !ks.iter().any(|k| closed_at(*k, &d)) && !(gaps && s.chance(1, 4)) {
                hist.insert(d.date(), base + 0.0001 * ((i * 37).rem_euclid(101)) as f32);
            }
        }
        Floating { tenor, overnight, spread: s.chance(1, 2).then(|| s.f(-0.01, 0.02, 30) as f32), hist, rates: any_rates(s, true) }
    }
    pub fn index(&self, currency: Currency, code: &str) -> RateIndex {
        RateIndex::new(self.tenor.into(), currency, code.into(), code.into()).unwrap()
    }
    pub fn close(&self, ks: &[usize], o: UtcOffset) -> Rc<DailyClosePrice> {
        let t = Time::from_hms(16, 0, 0).unwrap();
        Rc::new(DailyClosePrice::new(self.hist.clone(), t, o, calendar_of(ks[0]).0, "i".into(), "i".into()))
    }
}
/// amounts by date with the bound on their rounding
pub type Flows = BTreeMap<OffsetDateTime, (f64, f64)>;
pub fn add(f: &mut Flows, d: OffsetDateTime, a: f64, tol: f64) {
    let e = f.entry(d).or_insert((0.0, 0.0));
    e.0 += a;
    e.1 += tol + a.abs() * 2e-7;
}
pub fn same_flows(got: &HashMap<OffsetDateTime, f32>, want: &Flows, listed: &Flows, what: &str) -> R {
    let mut g: Vec<_> = got.keys().copied().collect();
    g.sort();
    let w: Vec<_> = want.keys().copied().collect();
    ensure_eq!(g, w, "{what}: payment dates");
    // one of the two values of the forwards throughout
    let ok = |m: &Flows| m.iter().all(|(d, (a, tol))| (got[d] as f64 - a).abs() <= *tol);
    if ok(want) || ok(listed) {
        return Ok(());
    }
    for (d, (a, tol)) in want {
        let x = got[d];
        if (x as f64 - a).abs() > *tol && (x as f64 - listed[d].0).abs() > *tol {
            fail!("{what}: {x} paid on {d}, expected {a} (within {tol:e}; with the listed finding {})", listed[d].0);
        }
    }
    fail!("{what}: amounts mix two values of the forwards: {got:?}")
}
/// the coupons of a leg paying on or after the pricing day
#[allow(clippy::too_many_arguments)]
pub fn coupons(pers: &[Per], pricing: &OffsetDateTime, dc: Dc, cal: &JointCalendar, fixed: Option<f64>, m: Option<&Cpn>, scale: f64, listed: bool) -> Option<Flows> {
    let mut f = Flows::new();
    for p in pers {
        if p.pay.date() < pricing.date() {
            continue;
        }
        match (fixed, m) {
            (Some(r), _) => {
                let fr = cal.year_fraction(&p.start, &p.end, &dc).ok()? as f64;
                add(&mut f, p.pay, r * fr * scale, (r * scale).abs() * 2e-7 + 1e-9);
            }
            (_, Some(m)) => {
                let (a, tol) = m.amount(p.fix, p.start, p.end, listed)?;
                add(&mut f, p.pay, a * scale, tol * scale.abs() * 1.1);
            }
            _ => unreachable!(),
        }
    }
    Some(f)
}
fn pricing_day(s: &mut Src, pers: &[Per], t: &Terms) -> OffsetDateTime {
    let d = match s.draw(5) {
        0 => t.eff - Duration::days(s.int(0, 200)),
        1 => t.mat + Duration::days(s.int(0, 9) - 4),
        2 | 3 => pers[s.usize(0, pers.len() - 1)].pay + Duration::days(s.int(0, 4) - 2),
        _ => t.eff + Duration::days(s.int(0, (t.mat - t.eff).whole_days())),
    };
    if s.chance(1, 3) { d.replace_time(any_time(s)) } else { d }
}
// ---------------------------------------------------------------- T01
pub fn any_credit(s: &mut Src) -> (IssuerType, CreditRating, RankType) {
    use CreditRating::*;
    (
        *s.pick(&[IssuerType::Government, IssuerType::Public, IssuerType::CorporateGuaranteed, IssuerType::CorporateUnguaranteed, IssuerType::Financial, IssuerType::Undefined, IssuerType::None]),
        *s.pick(&[None, AAA, AAp, AA, AAm, Ap, A, Am, BBBp, BBB, BBBm, BBp, BB, BBm, Bp, B, C, D, Undefined]),
        *s.pick(&[RankType::Senior, RankType::Subordinated, RankType::Junior, RankType::Mezzanine, RankType::Equity, RankType::Undefined, RankType::None]),
    )
}
/// the terms of a bond
pub struct BondCase {
    pub t: Terms,
    pub o: UtcOffset,
    pub dc: Dc,
    pub strip: bool,
    pub floating: bool,
    pub rate: f32,
    pub fl: Floating,
    pub credit: (IssuerType, CreditRating, RankType),
    pub issue: OffsetDateTime,
    pub notional: f32,
    /// periods, with the amounts the schedule gives
    pub pers: Vec<Per>,
    pub given: Vec<Option<f32>>,
    pub by_hand: bool,
}
impl BondCase {
    /// a bond and the day it is looked at
    pub fn any(s: &mut Src, max: i64, floats: bool) -> Option<(BondCase, OffsetDateTime)> {
        let (ks, o) = home(s);
        let t = Terms::any(s, o, ks, max);
        let mut pers = t.model()?;
        let dc = *s.pick(&DCS);
        let strip = s.chance(1, 5);
        let floating = floats && s.bool();
        let rate = s.f(-0.01, 0.12, 130) as f32;
        let pricing = pricing_day(s, &pers, &t);
        let fl = Floating::any(s, &pricing, if floating { 400 } else { 0 }, &t.ks);
        let credit = any_credit(s);
        let issue = t.eff - Duration::days(s.int(0, 3));
        let notional = s.f(1.0, 1e6, 10) as f32;
        let by_hand = s.chance(1, 3);
        // a hand-written schedule may give some amounts, and pay several coupons on one day
        let mut given: Vec<Option<f32>> = vec![None; pers.len()];
        if by_hand {
            for i in 0..pers.len() {
                if s.chance(1, 4) {
                    given[i] = Some(s.f(-0.02, 0.1, 120) as f32);
                }
                if i > 0 && s.chance(1, 6) {
                    pers[i].pay = pers[i - 1].pay;
                }
            }
        }
        Some((BondCase { t, o, dc, strip, floating, rate, fl, credit, issue, notional, pers, given, by_hand }, pricing))
    }
    pub fn note(&self) -> String {
        let fl = &self.fl;
        format!(
            "{}; {:?} {} strip {} {}",
            self.t.note(),
            self.dc,
            if self.floating { format!("index {} overnight {:?} spread {:?}", fl.tenor, fl.overnight, fl.spread) } else { format!("coupon {}", self.rate) },
            self.strip,
            if self.by_hand { format!("written schedule, given amounts {:?}", self.given) } else { "from conventions".into() }
        )
    }
    pub fn make(&self, own_pricing: Option<OffsetDateTime>, fixed: Option<f32>, index: Option<RateIndex>) -> Result<anyhow::Result<Bond>, Stop> {
        let (t, fl) = (&self.t, &self.fl);
        let (it, cr, rk) = self.credit;
        let cal = t.joint()?;
        Ok(if self.by_hand {
            let sch = Schedule::new(self.pers.iter().zip(&self.given).map(|(p, a)| BaseSchedule::new(p.fix, p.start, p.end, p.pay, *a)).collect());
            Bond::new(
                it, cr, "issuer".into(), rk, Currency::KRW, self.notional, self.strip, sch, fixed, fl.spread, index, fl.overnight.clone(), self.issue, t.eff, own_pricing, t.mat,
                cal, self.dc, t.conv, t.freq.0, t.pay_gap, t.fix_gap, "bond".into(), "code".into(),
            )
        } else {
            Bond::new_from_conventions(
                it, cr, "issuer".into(), rk, Currency::KRW, self.notional, self.strip, self.issue, t.eff, own_pricing, t.mat, fixed, fl.spread, index, fl.overnight.clone(), cal,
                t.forward, self.dc, t.conv, t.freq.0, t.fix_gap, t.pay_gap, "bond".into(), "code".into(),
            )
        })
    }
    pub fn index(&self) -> Option<RateIndex> {
        self.floating.then(|| self.fl.index(Currency::KRW, "CD91"))
    }
    pub fn bond(&self, own_pricing: Option<OffsetDateTime>) -> Result<Bond, Stop> {
        self.make(own_pricing, (!self.floating).then_some(self.rate), self.index())?.must("bond")
    }
    /// cash flows on or after the day `now`, forwards from the curve `cv` of the day `eval`
    pub fn flows(&self, cv: &Cv, eval: OffsetDateTime, now: OffsetDateTime, listed: bool) -> Result<Option<Flows>, Stop> {
        let (t, fl) = (&self.t, &self.fl);
        let cal = t.joint()?;
        let cpn = Cpn {
            cv,
            eval,
            now,
            tenor: fl.tenor,
            overnight: fl.overnight.as_deref(),
            spread: fl.spread.unwrap_or(0.0) as f64,
            fixing_days: t.fix_gap,
            hist: &fl.hist,
            dc: self.dc,
            cal: &cal,
            ks: &t.ks,
        };
        let mut f = Flows::new();
        for (p, a) in self.pers.iter().zip(&self.given) {
            if p.pay.date() < now.date() {
                continue;
            }
            match a {
                Some(a) => add(&mut f, p.pay, *a as f64, 0.0),
                None => match coupons(&[*p], &now, self.dc, &cal, (!self.floating).then_some(self.rate as f64), Some(&cpn), 1.0, listed) {
                    Some(m) => m.into_iter().for_each(|(d, (a, tol))| add(&mut f, d, a, tol)),
                    None => return Ok(None),
                },
            }
        }
        if !self.strip && t.mat.date() >= now.date() {
            add(&mut f, t.mat, 1.0, 0.0);
        }
        Ok(Some(f))
    }
}
fn bond(s: &mut Src, c: &mut Ctx) -> R {
    let most = if s.chance(1, 40) { 300 } else { 24 };
    let Some((b, pricing)) = BondCase::any(s, most, true) else { return discard() };
    let own_pricing = s.chance(1, 3).then(|| pricing + Duration::days(s.int(0, 30)));
    let ed = ev(pricing);
    let (z, cv) = b.fl.rates.build(&ed, "curve")?;
    let close = b.fl.close(&b.t.ks, b.o);
    c.note(format!("{} pricing {pricing} forwards {}", b.note(), b.fl.rates.note()));
    ensure!(b.make(own_pricing, None, None)?.is_err(), "a bond without any coupon was accepted");
    ensure!(b.make(own_pricing, Some(b.rate), Some(b.fl.index(Currency::KRW, "CD91")))?.is_err(), "a bond with two coupons was accepted");
    let (t, case, (it, cr, rk)) = (&b.t, &b, b.credit);
    let mut b = case.bond(own_pricing)?;
    // what identifies it
    ensure_eq!((b.get_name().as_str(), b.get_code().as_str(), b.get_type_name()), ("bond", "code", "Bond"), "names");
    ensure_eq!((*b.get_currency(), b.get_unit_notional()), (Currency::KRW, case.notional), "currency and notional");
    ensure_eq!((*b.get_issuer_type().must("issuer type")?, *b.get_credit_rating().must("rating")?), (it, cr), "issuer");
    ensure_eq!(b.get_issuer_name().must("issuer")?, "issuer", "issuer name");
    ensure_eq!(b.get_maturity(), Some(&t.mat), "maturity");
    ensure_eq!(*b.get_rank_type().must("rank")?, rk, "rank");
    ensure_eq!(b.get_issue_date().must("issue")?, &case.issue, "issue date");
    ensure_eq!(b.get_pricing_date().must("pricing")?, own_pricing.as_ref(), "pricing date");
    ensure_eq!(b.get_coupon_frequency().must("freq")?, t.freq.0, "frequency");
    ensure_eq!(b.is_coupon_strip().must("strip")?, case.strip, "strip");
    ensure_eq!(b.get_rate_index().must("index")?.map(|x| x.get_code().clone()), case.index().map(|x| x.get_code().clone()), "index");
    b.set_pricing_date(pricing);
    ensure_eq!(b.get_pricing_date().must("pricing")?, Some(&pricing), "pricing date after setting it");
    // cash flows, as of the pricing date or of a later day than the curve's
    let now = if s.chance(1, 4) { pricing + Duration::days(s.int(0, 200)) } else { pricing };
    let got = b.get_cashflows(&now, case.floating.then(|| z.clone()), case.floating.then(|| close.clone()));
    match (got, case.flows(&cv, pricing, now, false)?, case.flows(&cv, pricing, now, true)?) {
        (Err(_), None, _) => Ok(()),
        (Ok(g), Some(w), Some(l)) => {
            c.nontrivial(case.pers.iter().any(|p| p.pay.date() < now.date()) && w.len() > 1);
            same_flows(&g, &w, &l, "bond")
        }
        (g, w, _) => fail!("cash flows: observed {g:?}, expected {w:?}"),
    }
}
// ---------------------------------------------------------------- T02
pub struct SwapCase {
    /// fixed leg, floating leg
    pub t: Terms,
    pub u: Terms,
    pub o: UtcOffset,
    pub fixed_pers: Vec<Per>,
    pub float_pers: Vec<Per>,
    pub kind: usize,
    pub by_hand: bool,
    /// issue: fixed, floating; last: fixed, floating
    pub ex: [Option<f32>; 4],
    pub has_rate: bool,
    pub has_index: bool,
    pub fixed_empty: bool,
    pub float_empty: bool,
    pub two: bool,
    pub ca: Currency,
    pub cb: Currency,
    pub issue: OffsetDateTime,
    pub dc: (Dc, Dc),
    pub rate: f32,
    pub notional: f32,
    pub fl: Floating,
}
impl SwapCase {
    /// with `sane`, one of the four kinds of swap
    pub fn any(s: &mut Src, max: i64, sane: bool) -> Option<(SwapCase, OffsetDateTime)> {
        let (ks, o) = home(s);
        let t = Terms::any(s, o, ks, max);
        // the second leg has its own convention and frequency
        let mut u = t.clone();
        u.conv = *s.pick(&BDCS);
        u.freq = FREQS[s.weighted(&[6, 5, 4, 3, 1, 1])];
        let (fixed_pers, float_pers) = (t.model()?, u.model()?);
        let kind = s.weighted(&[3, 4, 2, 2, if sane { 0 } else { 1 }]); // IRS CRS FxSwap FxForward anything
        let by_hand = kind >= 2 || s.chance(1, 3);
        let some = |s: &mut Src, p: bool| p.then(|| s.f(0.5, 1500.0, 200) as f32);
        let ex: [Option<f32>; 4] = match kind {
            0 => [None; 4],
            1 | 2 => [some(s, true), some(s, true), some(s, true), some(s, true)],
            3 => [None, None, some(s, true), some(s, true)],
            _ => {
                let m = s.int(0, 15);
                [some(s, m & 1 > 0), some(s, m & 2 > 0), some(s, m & 4 > 0), some(s, m & 8 > 0)]
            }
        };
        let (mut has_rate, mut has_index) = (kind < 2, kind < 2);
        let (mut fixed_empty, mut float_empty) = (kind >= 2, kind >= 2);
        let mut two = kind != 0;
        if kind == 4 {
            has_rate = s.bool();
            has_index = s.bool();
            fixed_empty = s.bool();
            float_empty = s.bool();
            two = s.bool();
        }
        if !sane && s.chance(1, 20) {
            two = !two;
        }
        let (ca, cb) = (Currency::KRW, if two { *s.pick(&[Currency::USD, Currency::EUR]) } else { Currency::KRW });
        let issue = if kind == 3 && s.bool() { t.mat - Duration::days(s.int(0, 4)) } else { t.eff - Duration::days(s.int(0, 3)) };
        let issue = if s.chance(1, 4) { issue.replace_time(any_time(s)) } else { issue };
        let dc = (*s.pick(&DCS), *s.pick(&DCS));
        let rate = s.f(-0.01, 0.12, 130) as f32;
        let pricing = pricing_day(s, &fixed_pers, &t);
        let fl = Floating::any(s, &pricing, 400, &t.ks);
        let notional = s.f(1.0, 1e6, 10) as f32;
        Some((SwapCase { t, u, o, fixed_pers, float_pers, kind, by_hand, ex, has_rate, has_index, fixed_empty, float_empty, two, ca, cb, issue, dc, rate, notional, fl }, pricing))
    }
    pub fn note(&self) -> String {
        format!(
            "{}; floating leg {:?} {:?}; exchanges {:?} rate {} index {} empty legs {}/{} {:?}/{:?} issued {} {:?} index {} {:?} {} {}",
            self.t.note(),
            self.u.freq.0,
            self.u.conv,
            self.ex,
            if self.has_rate { self.rate.to_string() } else { "none".into() },
            self.has_index,
            self.fixed_empty,
            self.float_empty,
            self.ca,
            self.cb,
            self.issue,
            self.dc,
            self.fl.tenor,
            self.fl.overnight,
            self.fl.rates.note(),
            if self.by_hand { "written schedules" } else { "from conventions" }
        )
    }
    /// what the specification is
    pub fn ty(&self) -> Option<PlainSwapType> {
        let ex = &self.ex;
        let (i, l) = ((ex[0].is_some(), ex[1].is_some()), (ex[2].is_some(), ex[3].is_some()));
        let all = i == (true, true) && l == (true, true);
        let bare = self.by_hand && self.fixed_empty && self.float_empty && !self.has_rate && !self.has_index;
        if i == (false, false) && l == (false, false) && self.has_rate && self.has_index && !self.two {
            Some(PlainSwapType::IRS)
        } else if all && self.has_rate && self.has_index && self.two {
            Some(PlainSwapType::CRS)
        } else if all && bare && self.two {
            Some(PlainSwapType::FxSwap)
        } else if i == (false, false) && l == (true, true) && bare && self.two {
            Some(if (self.t.mat.date() - self.issue.date()).whole_days() <= 2 { PlainSwapType::FxSpot } else { PlainSwapType::FxForward })
        } else {
            None
        }
    }
    pub fn make(&self) -> Result<anyhow::Result<PlainSwap>, Stop> {
        let (t, u, ex, fl) = (&self.t, &self.u, &self.ex, &self.fl);
        let cal = t.joint()?;
        let sch = |p: &[Per], e: bool| Schedule::new(if e { vec![] } else { p.iter().map(|p| BaseSchedule::new(p.fix, p.start, p.end, p.pay, None)).collect() });
        let index = self.has_index.then(|| fl.index(self.cb, "IX"));
        let fixed_rate = self.has_rate.then_some(self.rate);
        let (dc1, dc2) = self.dc;
        Ok(if self.by_hand {
            PlainSwap::new(
                sch(&self.fixed_pers, self.fixed_empty), sch(&self.float_pers, self.float_empty), fixed_rate, index, fl.overnight.clone(), cal, self.notional, self.issue, t.eff, t.mat,
                self.ca, self.cb, ex[0], ex[1], ex[2], ex[3], dc1, dc2, t.conv, u.conv, t.freq.0, u.freq.0, t.fix_gap, t.pay_gap, "swap".into(), "code".into(),
            )
        } else {
            PlainSwap::new_from_conventions(
                self.ca, self.cb, ex[0], ex[1], ex[2], ex[3], self.notional, self.issue, t.eff, t.mat, fixed_rate, index, fl.overnight.clone(), t.forward, dc1, dc2, t.conv, u.conv,
                t.freq.0, u.freq.0, t.fix_gap, t.pay_gap, cal, "swap".into(), "code".into(),
            )
        })
    }
    /// fixed side on or after the pricing day
    pub fn fixed(&self, pricing: &OffsetDateTime) -> Result<Flows, Stop> {
        let (t, ex, pd) = (&self.t, &self.ex, pricing.date());
        let n0 = ex[0].unwrap_or(1.0) as f64;
        let mut f = Flows::new();
        if self.has_rate && !(self.fixed_empty && self.by_hand) {
            f = coupons(&self.fixed_pers, pricing, self.dc.0, &t.joint()?, Some(self.rate as f64), None, -n0, false).unwrap();
        }
        if let (Some(a), true) = (ex[0], t.eff.date() >= pd) {
            add(&mut f, t.eff, a as f64, 0.0);
        }
        if let (Some(a), true) = (ex[2], t.mat.date() >= pd) {
            add(&mut f, t.mat, -(a as f64), 0.0);
        }
        for v in f.values_mut() {
            v.1 += n0 * 3e-7; // exchange and coupon are added in single precision
        }
        Ok(f)
    }
    pub fn floating(&self, cv: &Cv, pricing: &OffsetDateTime, listed: bool) -> Result<Option<Flows>, Stop> {
        let (t, ex, fl, pd) = (&self.t, &self.ex, &self.fl, pricing.date());
        let n1 = ex[1].unwrap_or(1.0) as f64;
        let cal = t.joint()?;
        let cpn = Cpn {
            cv,
            eval: *pricing,
            now: *pricing,
            tenor: fl.tenor,
            overnight: fl.overnight.as_deref(),
            spread: 0.0,
            fixing_days: t.fix_gap,
            hist: &fl.hist,
            dc: self.dc.1,
            cal: &cal,
            ks: &t.ks,
        };
        let mut f = Flows::new();
        if self.has_index && !(self.by_hand && self.float_empty) {
            match coupons(&self.float_pers, pricing, self.dc.1, &cal, None, Some(&cpn), n1, listed) {
                Some(x) => f = x,
                None => return Ok(None),
            }
        }
        if let (Some(a), true) = (ex[1], t.eff.date() >= pd) {
            add(&mut f, t.eff, -(a as f64), 0.0);
        }
        if let (Some(a), true) = (ex[3], t.mat.date() >= pd) {
            add(&mut f, t.mat, a as f64, 0.0);
        }
        for v in f.values_mut() {
            v.1 += n1 * 3e-7 + ex[3].unwrap_or(0.0) as f64 * 2e-7;
        }
        Ok(Some(f))
    }
}
fn swap(s: &mut Src, c: &mut Ctx) -> R {
    let most = if s.chance(1, 40) { 300 } else { 16 };
    let Some((k, pricing)) = SwapCase::any(s, most, false) else { return discard() };
    let ed = ev(pricing);
    let (z, cv) = k.fl.rates.build(&ed, "curve")?;
    let close = k.fl.close(&k.t.ks, k.o);
    c.note(format!("{} pricing {pricing}", k.note()));
    let (w, ty) = match (k.make()?, k.ty()) {
        (Err(_), None) => return Ok(()),
        (Ok(w), Some(ty)) => (w, ty),
        (Ok(w), None) => fail!("an inconsistent specification was accepted as {:?}", w.get_type_name()),
        (Err(e), Some(ty)) => fail!("a {ty:?} was refused: {e}"),
    };
    let (ca, cb) = (k.ca, k.cb);
    ensure_eq!(w.get_specific_plain_swap_type().must("type")?, ty, "type");
    ensure_eq!(w.get_type_name(), ["IRS", "CRS", "FxSwap", "FxSpot", "FxForward"][[PlainSwapType::IRS, PlainSwapType::CRS, PlainSwapType::FxSwap, PlainSwapType::FxSpot, PlainSwapType::FxForward].iter().position(|x| *x == ty).unwrap()], "type name");
    ensure_eq!((*w.get_currency(), *w.get_fixed_leg_currency().must("fixed")?, *w.get_floating_leg_currency().must("floating")?), (ca, ca, cb), "currencies");
    let fx = w.get_floating_to_fixed_fxcode().must("fx code")?.copied();
    ensure_eq!(fx.map(|f| (*f.get_currency1(), *f.get_currency2())), k.two.then_some((cb, ca)), "floating to fixed currency pair");
    ensure_eq!(w.get_all_fxcodes_for_pricing(), fx.into_iter().collect::<Vec<_>>(), "pairs needed for pricing");
    ensure_eq!((w.get_unit_notional(), w.get_maturity()), (k.notional, Some(&k.t.mat)), "notional and maturity");
    let f = k.fixed(&pricing)?;
    same_flows(&w.get_fixed_cashflows(&pricing).must("fixed cash flows")?, &f, &f, "fixed side")?;
    let got = w.get_floating_cashflows(&pricing, Some(z.clone()), Some(close));
    match (got, k.floating(&cv, &pricing, false)?, k.floating(&cv, &pricing, true)?) {
        (Err(_), None, _) => Ok(()),
        (Ok(g), Some(w), Some(l)) => {
            c.nontrivial(k.t.eff.date() < pricing.date() && (w.len() > 1 || k.kind >= 2) && k.t.mat.date() >= pricing.date());
            same_flows(&g, &w, &l, "floating side")
        }
        (g, w, _) => fail!("floating cash flows: observed {g:?}, expected {w:?}"),
    }
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "S01",
            facets: vec![facet("schedule", "three or more periods, with a stub or adjusted dates", 500000, 15000000, schedule)],
            assumptions: &["the calendars' closed days are those of properties C01-C03"],
        },
        Property {
            id: "T01",
            facets: vec![facet("bond", "coupons both before and after the pricing date", 125000, 3750000, bond)],
            assumptions: &["all dates of a bond are in one time zone", "day counts and fixings are those of D01 and P06"],
        },
        Property {
            id: "T02",
            facets: vec![facet("swap", "priced between the effective date and maturity with cash flows left", 100000, 3000000, swap)],
            assumptions: &["all dates of a swap are in one time zone", "day counts and fixings are those of D01 and P06"],
        },
    ]
}
