//! shared market objects: zero curves with a double precision model of them
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use std::cell::RefCell;
use std::rc::Rc;
use time::{Duration, OffsetDateTime};
use vf::*;

pub type Ev = Rc<RefCell<EvaluationDate>>;
pub type Zc = Rc<RefCell<ZeroCurve>>;
pub fn ev(d: OffsetDateTime) -> Ev {
    Rc::new(RefCell::new(EvaluationDate::new(d)))
}
/// elapsed time, decided by property D02
pub fn yf(a: &OffsetDateTime, b: &OffsetDateTime) -> f32 {
    thread_local! { static CAL: NullCalendar = NullCalendar::default(); }
    CAL.with(|c| c.get_time_difference(a, b))
}
/// adding a tenor (years, months clamped to the month end, weeks, days), decided by property D03
pub fn addp(d: &OffsetDateTime, tenor: &str) -> OffsetDateTime {
    let mut r = *d;
    let mut k = 0i64;
    for ch in tenor.chars() {
        match ch {
            '0'..='9' => k = k * 10 + ch as i64 - '0' as i64,
            'D' | 'W' => {
                r += Duration::days(if ch == 'W' { 7 * k } else { k });
                k = 0;
            }
            _ => {
                let m = r.year() as i64 * 12 + r.month() as i64 - 1 + if ch == 'Y' { 12 * k } else { k };
                let (y, mo) = (m.div_euclid(12) as i32, (m.rem_euclid(12) + 1) as u8);
                let date = crate::cal::ymd(y, mo, r.day().min(crate::dates::mlen(y, mo)));
                r = r.replace_date(date);
                k = 0;
            }
        }
    }
    r
}
pub const NODES: [&str; 29] = [
    "0D", "1D", "1W", "2W", "1M", "2M", "3M", "4M", "5M", "6M", "9M", "1Y", "1Y6M", "2Y", "2Y6M", "3Y", "4Y", "5Y", "6Y", "7Y",
    "8Y", "9Y", "10Y", "12Y", "15Y", "20Y", "30Y", "50Y", "100Y",
];
/// model of a zero curve
#[derive(Clone, Debug)]
pub struct Cv {
    pub t: Vec<f64>,
    pub r: Vec<f64>,
}
pub fn line(g: &[f64], v: &[f64], x: f64) -> f64 {
    let n = g.len();
    if x <= g[0] {
        return v[0];
    }
    if x >= g[n - 1] {
        return v[n - 1];
    }
    let i = (0..n - 1).rev().find(|&i| g[i] <= x).unwrap();
    v[i] + (v[i + 1] - v[i]) * (x - g[i]) / (g[i + 1] - g[i])
}
impl Cv {
    pub fn new(eval: &OffsetDateTime, times: &[f32], rates: &[f32]) -> Cv {
        let g: Vec<f64> = times.iter().map(|x| *x as f64).collect();
        let v: Vec<f64> = rates.iter().map(|x| *x as f64).collect();
        let t: Vec<f64> = NODES.iter().map(|p| yf(eval, &addp(eval, p)) as f64).collect();
        let r = t.iter().map(|t| line(&g, &v, *t)).collect();
        Cv { t, r }
    }
    pub fn bump(&mut self, t1: f64, t2: f64, b: f64) {
        for i in 0..self.t.len() {
            if self.t[i] > t1 && self.t[i] <= t2 {
                self.r[i] += b;
            }
        }
    }
    pub fn node_df(&self) -> Vec<f64> {
        self.t.iter().zip(&self.r).map(|(t, r)| (-t * r).exp()).collect()
    }
    pub fn df(&self, t: f64) -> Option<f64> {
        (t >= self.t[0] && t <= self.t[28]).then(|| line(&self.t, &self.node_df(), t))
    }
    /// size of the exponents around t, for rounding bounds
    pub fn size(&self, t: f64) -> f64 {
        let i = self.t.iter().position(|x| *x >= t).unwrap_or(28);
        (self.t[i] * self.r[i]).abs()
    }
    pub fn df_tol(&self, t: f64) -> f64 {
        let i = self.t.iter().position(|x| *x >= t).unwrap_or(28);
        let n = (-self.t[i] * self.r[i]).exp();
        let m = if i > 0 { (-self.t[i - 1] * self.r[i - 1]).exp() } else { 1.0 };
        4e-7 * (2.0 + self.size(t)) * n.max(m)
    }
}
/// market zero rates: tenor days and rates, as dates or times
#[derive(Clone)]
pub struct Rates {
    pub days: Vec<i64>,
    pub rates: Vec<f32>,
    pub by_date: bool,
}
pub fn any_rates(s: &mut Src, long: bool) -> Rates {
    let n = crate::maths::size(s, 1, 8, 60);
    let base = s.f(-0.02, 0.09, 110);
    let spread = *s.pick(&[0.0, 0.002, 0.02]);
    let mut d = s.int(1, 200);
    let mut days = vec![];
    let mut rates = vec![];
    for _ in 0..n {
        days.push(d);
        rates.push((base + spread * s.f(-1.0, 1.0, 200)) as f32);
        d += if n > 8 { *s.pick(&[7i64, 31, 91]) } else { *s.pick(&[7i64, 31, 91, 182, 365, 730, 3650]) } + s.int(0, 20);
        if !long && d > 20000 {
            break;
        }
    }
    Rates { days, rates, by_date: s.bool() }
}
impl Rates {
    pub fn note(&self) -> String {
        format!("days {:?} rates {:?} {}", self.days, self.rates, if self.by_date { "dates" } else { "times" })
    }
    pub fn data(&self, eval: &OffsetDateTime, name: &str) -> Result<(VectorData, Vec<f32>), Stop> {
        let dates: Vec<OffsetDateTime> = self.days.iter().map(|d| *eval + Duration::days(*d)).collect();
        let times: Vec<f32> = if self.by_date {
            dates.iter().map(|d| yf(eval, d)).collect()
        } else {
            self.days.iter().map(|d| *d as f32 / 365.0).collect()
        };
        let v = VectorData::new(
            self.rates.clone().into(),
            self.by_date.then_some(dates),
            (!self.by_date).then(|| times.clone().into()),
            Some(*eval),
            Currency::KRW,
            name.to_string(),
            name.to_string(),
        )
        .must("vector data")?;
        Ok((v, times))
    }
    pub fn build(&self, ed: &Ev, name: &str) -> Result<(Zc, Cv), Stop> {
        let eval = ed.borrow().get_date_clone();
        let (data, times) = self.data(&eval, name)?;
        let z = ZeroCurve::new(ed.clone(), &data, name.to_string(), name.to_string()).must("zero curve")?;
        Ok((Rc::new(RefCell::new(z)), Cv::new(&eval, &times, &self.rates)))
    }
}
