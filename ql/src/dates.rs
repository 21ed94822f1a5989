//! D01 day counts, D02 elapsed time, D03 tenors.
use crate::cal::{any_offset, any_time, calendar_of, ymd};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::conventions::DayCountConvention as Dc;
use quantlib::time::jointcalendar::JointCalendar;
use quantlib::utils::string_arithmetic::{
    add_period, add_period_date, from_period_string_to_float, sub_period, sub_period_date,
};
use time::{Date, Duration, OffsetDateTime, Time};
use vf::*;

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn yl(y: i32) -> f64 {
    if leap(y) { 366.0 } else { 365.0 }
}
pub fn mlen(y: i32, m: u8) -> u8 {
    match m {
        2 => 28 + leap(y) as u8,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// dates biased to month ends, leap days and year ends
pub fn any_date(s: &mut Src, y0: i64, y1: i64) -> Date {
    let mut y = s.int(y0, y1) as i32;
    if s.chance(1, 3) {
        y -= y.rem_euclid(4);
        y = y.max(y0 as i32);
    }
    let m = match s.draw(4) {
        0 => 2,
        1 => *s.pick(&[12u8, 1]),
        _ => s.int(1, 12) as u8,
    };
    let l = mlen(y, m);
    let d = match s.draw(3) {
        0 => l - s.int(0, 2) as u8,
        1 => s.int(1, 3) as u8,
        _ => s.int(1, l as i64) as u8,
    };
    ymd(y, m, d)
}
fn near(s: &mut Src, d: Date, y1: i64) -> Date {
    match s.draw(4) {
        0 => d + Duration::days(s.int(0, 40)),
        1 => d + Duration::days(s.int(0, 800)),
        2 => d + Duration::days(s.int(0, 2)),
        _ => {
            let e = any_date(s, d.year() as i64, y1);
            e.max(d)
        }
    }
}
// ---------------------------------------------------------------- D01
fn oracle_dc(dc: Dc, a: Date, b: Date, whole_days: i64) -> f64 {
    let (ya, ma, da) = (a.year(), a.month() as i32, a.day() as i32);
    let (yb, mb, db) = (b.year(), b.month() as i32, b.day() as i32);
    match dc {
        Dc::Actual365Fixed => whole_days as f64 / 365.0,
        Dc::Actual360 => whole_days as f64 / 360.0,
        Dc::Actual364 => whole_days as f64 / 364.0,
        Dc::Thirty360 => (360 * (yb - ya) + 30 * (mb - ma) + (db - da)) as f64 / 360.0,
        Dc::StreetConvention => {
            let d1 = if da == 31 { 30 } else { da };
            let d2 = if db == 31 && d1 == 30 { 30 } else { db };
            (360 * (yb - ya) + 30 * (mb - ma) + (d2 - d1)) as f64 / 360.0
        }
        Dc::ActActIsda => {
            // every day weighs one over the length of its own year
            let mut x = 0.0;
            let mut d = a;
            while d < b {
                let end = ymd(d.year() + 1, 1, 1).min(b);
                x += (end - d).whole_days() as f64 / yl(d.year());
                d = end;
            }
            x
        }
        Dc::Dummy => unreachable!(),
    }
}
pub const DCS: [Dc; 6] = [Dc::Actual365Fixed, Dc::Actual360, Dc::Actual364, Dc::Thirty360, Dc::ActActIsda, Dc::StreetConvention];
fn close(a: f32, b: f64) -> bool {
    (a as f64 - b).abs() <= 1e-6 * b.abs().max(0.2)
}
fn day_counts(s: &mut Src, c: &mut Ctx) -> R {
    let a = any_date(s, 1990, 2099);
    let b = near(s, a, 2100);
    let (t, o) = (any_time(s), any_offset(s));
    let same_time = s.chance(2, 3);
    let t2 = if same_time { t } else { any_time(s) };
    let (ia, ib) = (OffsetDateTime::new_in_offset(a, t, o), OffsetDateTime::new_in_offset(b, t2, o));
    if ia > ib {
        discard()?;
    }
    let k = s.usize(0, 7);
    let (cal, name, _) = calendar_of(k);
    let joint = JointCalendar::new(vec![cal.clone(), calendar_of(1).0]).must("joint")?;
    c.note(format!("{ia} to {ib}, calendar {name}"));
    c.nontrivial(a.year() != b.year() || a.day() >= 30 || b.day() >= 30);
    for dc in DCS {
        if dc == Dc::ActActIsda && !same_time {
            continue; // days are only defined for equal times of day there
        }
        let want = oracle_dc(dc, a, b, (ib - ia).whole_days());
        let got = cal.year_fraction(&ia, &ib, &dc).must("year_fraction")?;
        ensure!(close(got, want), "{dc:?} from {ia} to {ib}: observed {got}, expected {want}");
        let got = joint.year_fraction(&ia, &ib, &dc).must("joint year_fraction")?;
        ensure!(close(got, want), "joint {dc:?} from {ia} to {ib}: observed {got}, expected {want}");
        let zero = cal.year_fraction(&ia, &ia, &dc).must("year_fraction")?;
        ensure!(zero == 0.0, "{dc:?} from {ia} to itself: observed {zero}");
        if ia < ib {
            ensure!(cal.year_fraction(&ib, &ia, &dc).is_err(), "{dc:?}: reversed pair {ib} to {ia} was accepted");
        }
        if same_time && !matches!(dc, Dc::Thirty360) {
            let later = ib + Duration::days(s.int(1, 3));
            let g2 = cal.year_fraction(&ia, &later, &dc).must("year_fraction")?;
            ensure!(g2 >= got, "{dc:?}: from {ia} to {ib} is {got} but to the later {later} only {g2}");
        }
    }
    ensure!(cal.year_fraction(&ia, &ib, &Dc::Dummy).is_err(), "the dummy convention was accepted");
    // helpers every convention builds on
    for d in [a, b] {
        let l = cal.last_day_of_month(d.year(), d.month());
        ensure_eq!(l, ymd(d.year(), d.month() as u8, mlen(d.year(), d.month() as u8)), "last day of month");
        ensure_eq!(cal.is_leap_year(d.year()), leap(d.year()), "leap year {}", d.year());
    }
    Ok(())
}
// ---------------------------------------------------------------- D02
/// years since 2000, every instant weighing one over the length of its year (in the given zone)
fn potential(i: OffsetDateTime) -> f64 {
    let y = i.year();
    let start = OffsetDateTime::new_in_offset(ymd(y, 1, 1), Time::MIDNIGHT, i.offset());
    (y - 2000) as f64 + (i - start).as_seconds_f64() / 86400.0 / yl(y)
}
/// the code counts the last day of a year with the length of the following one (known finding), which
/// moves a time by at most this much
const LEAP_SLACK: f64 = 1.0 / 365.0 - 1.0 / 366.0 + 1e-7;
fn tol(a: &OffsetDateTime, b: &OffsetDateTime, years: f64) -> f64 {
    let f32err = 3e-7 * years.abs().max(0.05) * if years.abs() > 1.0 { 2.0 } else { 1.0 };
    let differ = (a.year().min(b.year())..=a.year().max(b.year())).any(|y| yl(y) != yl(a.year()));
    f32err + if differ { LEAP_SLACK } else { 0.0 }
}
fn elapsed(s: &mut Src, c: &mut Ctx) -> R {
    let o = any_offset(s);
    let d1 = any_date(s, 1990, 2098);
    let mut v: Vec<OffsetDateTime> = vec![OffsetDateTime::new_in_offset(d1, any_time(s), o)];
    for _ in 0..2 {
        let d = near(s, d1, 2100);
        v.push(OffsetDateTime::new_in_offset(d, any_time(s), o));
    }
    v.sort();
    let k = s.usize(0, 7);
    let (cal, name, _) = calendar_of(k);
    c.note(format!("{:?} calendar {name}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    c.nontrivial(v[0].year() != v[2].year());
    let t = |a: &OffsetDateTime, b: &OffsetDateTime| cal.get_time_difference(a, b) as f64;
    for i in 0..3 {
        ensure!(t(&v[i], &v[i]) == 0.0, "time from {} to itself is {}", v[i], t(&v[i], &v[i]));
        let view = any_offset(s);
        let same = v[i].to_offset(view);
        ensure!(t(&v[i], &same).abs() < 1e-9, "time from {} to the same instant {} is {}", v[i], same, t(&v[i], &same));
        for j in 0..3 {
            let want = potential(v[j]) - potential(v[i]);
            let got = t(&v[i], &v[j]);
            let tl = tol(&v[i], &v[j], want);
            ensure!((got - want).abs() <= tl, "time from {} to {}: observed {got}, expected {want}", v[i], v[j]);
            ensure!(t(&v[j], &v[i]) == -got, "time from {} to {} is {got} but swapped {}", v[i], v[j], t(&v[j], &v[i]));
            // the zone the end is written in does not matter
            let other = t(&v[i], &v[j].to_offset(view));
            if i <= j {
                ensure!(other == got, "time from {} to {} is {got}, but written as {} it is {other}", v[i], v[j], v[j].to_offset(view));
            }
        }
    }
    let (ab, bc, ac) = (t(&v[0], &v[1]), t(&v[1], &v[2]), t(&v[0], &v[2]));
    ensure!(
        (ab + bc - ac).abs() <= tol(&v[0], &v[2], ac) + tol(&v[0], &v[1], ab),
        "additivity: {} -> {} -> {}: {ab} + {bc} != {ac}",
        v[0], v[1], v[2]
    );
    let grow = t(&v[0], &(v[2] + Duration::days(1)));
    ensure!(grow > ac, "time does not grow with the end: to {} is {ac}, one day later {grow}", v[2]);
    // whole years
    let n = s.int(1, 12) as i32;
    let (y0, m, d) = (d1.year(), d1.month() as u8, d1.day().min(28));
    let (a, b) = (
        OffsetDateTime::new_in_offset(ymd(y0, m, d), v[0].time(), o),
        OffsetDateTime::new_in_offset(ymd(y0 + n, m, d), v[0].time(), o),
    );
    let whole = t(&a, &b);
    let frac = potential(b) - potential(a);
    ensure!((whole - frac).abs() <= LEAP_SLACK + 1e-6 * n as f64, "{n} calendar years from {a}: {whole}");
    let (ja, jb) = (
        OffsetDateTime::new_in_offset(ymd(y0, 1, 1), Time::MIDNIGHT, o),
        OffsetDateTime::new_in_offset(ymd(y0 + n, 1, 1), Time::MIDNIGHT, o),
    );
    let cy = t(&ja, &jb);
    ensure!((cy - n as f64).abs() <= LEAP_SLACK + 4e-7 * n as f64, "{n} calendar years from {ja}: {cy}");
    Ok(())
}
fn year_end_jump(_s: &mut Src, _c: &mut Ctx) -> R {
    let (cal, _, _) = calendar_of(0);
    let o = crate::cal::off(0, 0);
    let a = OffsetDateTime::new_in_offset(ymd(2019, 12, 31), Time::MIDNIGHT, o);
    let b = OffsetDateTime::new_in_offset(ymd(2019, 12, 31), Time::from_hms(23, 59, 59).unwrap(), o);
    let e = OffsetDateTime::new_in_offset(ymd(2020, 1, 1), Time::MIDNIGHT, o);
    let (x, y) = (cal.get_time_difference(&a, &b), cal.get_time_difference(&a, &e));
    ensure!(y >= x, "time from {a} to {b} is {x}, but to the later {e} only {y}");
    Ok(())
}
// ---------------------------------------------------------------- D03
#[derive(Clone, Copy, PartialEq, Debug)]
enum U { Y, M, W, D, H, Min, Sec }
const UNITS: [(U, &str); 7] = [(U::Y, "Y"), (U::M, "M"), (U::W, "W"), (U::D, "D"), (U::H, "h"), (U::Min, "min"), (U::Sec, "sec")];
fn month_step(d: Date, months: i64) -> Date {
    let k = d.year() as i64 * 12 + (d.month() as i64 - 1) + months;
    let (y, m) = (k.div_euclid(12) as i32, (k.rem_euclid(12) + 1) as u8);
    ymd(y, m, d.day().min(mlen(y, m)))
}
fn step_date(d: Date, u: U, v: i64) -> Date {
    match u {
        U::Y => month_step(d, 12 * v),
        U::M => month_step(d, v),
        U::W => d + Duration::days(7 * v),
        U::D => d + Duration::days(v),
        _ => unreachable!(),
    }
}
fn step(i: OffsetDateTime, u: U, v: i64) -> OffsetDateTime {
    match u {
        U::H => i + Duration::seconds(3600 * v),
        U::Min => i + Duration::seconds(60 * v),
        U::Sec => i + Duration::seconds(v),
        _ => OffsetDateTime::new_in_offset(step_date(i.date(), u, v), i.time(), i.offset()),
    }
}
fn tenor(s: &mut Src, date_only: bool) -> Vec<(U, i64, &'static str)> {
    let mut v = vec![];
    let mut n = 0;
    loop {
        let k = s.usize(0, if date_only { 3 } else { 6 });
        let (u, name) = UNITS[k];
        let far = if s.chance(1, 12) { 6 } else { 1 };
        let hi = far * match u { U::Y => 60, U::M => 400, U::W => 300, U::D => 3000, _ => 100_000 };
        v.push((u, if s.bool() { s.int(0, 25) } else { s.int(0, hi) }, name));
        if !s.more(&mut n, 2, 4) {
            return v;
        }
    }
}
fn text(t: &[(U, i64, &'static str)]) -> String {
    t.iter().map(|(_, v, n)| format!("{v}{n}")).collect()
}
fn tenors(s: &mut Src, c: &mut Ctx) -> R {
    let d = any_date(s, 1900, 2200);
    let i = OffsetDateTime::new_in_offset(d, any_time(s), any_offset(s));
    let t = tenor(s, false);
    let p = text(&t);
    c.note(format!("{i} +/- {p}"));
    let up = t.iter().fold(i, |x, &(u, v, _)| step(x, u, v));
    let down = t.iter().fold(i, |x, &(u, v, _)| step(x, u, -v));
    c.nontrivial(t.iter().any(|x| matches!(x.0, U::Y | U::M) && x.1 > 0));
    ensure_eq!(add_period(&i, &p), up, "{i} plus {p}");
    ensure_eq!(sub_period(&i, &p), down, "{i} minus {p}");
    // an evaluation date moves the same way and compares as its instant, to a date as its own local date
    let mut e = EvaluationDate::new(i);
    ensure_eq!((e.clone() + p.as_str(), e.clone() - p.as_str()), (up, down), "the evaluation date {i} plus and minus {p}");
    let other = match s.draw(3) {
        0 => i,
        1 => i + Duration::seconds(s.int(-90000, 90000)),
        _ => up,
    };
    let o2 = any_offset(s);
    let other = other.checked_to_offset(o2).unwrap_or(other);
    ensure_eq!((e == other, e.partial_cmp(&other)), (i == other, i.partial_cmp(&other)), "the evaluation date {i} compared with {other}");
    let od = other.date();
    ensure_eq!((e == od, e.partial_cmp(&od)), (d == od, d.partial_cmp(&od)), "the evaluation date {i} compared with {od}");
    if s.bool() {
        e += p.as_str();
        ensure_eq!(*e.get_date(), up, "the evaluation date {i} moved by {p}");
    } else {
        e -= p.as_str();
        ensure_eq!(*e.get_date(), down, "the evaluation date {i} moved back by {p}");
    }
    ensure_eq!((e.date(), e.get_date_clone()), (e.get_date().date(), *e.get_date()), "parts of the evaluation date");
    let td = tenor(s, true);
    let pd = text(&td);
    let up = td.iter().fold(d, |x, &(u, v, _)| step_date(x, u, v));
    c.note(format!("{d} +/- {pd}"));
    ensure_eq!(add_period_date(&d, &pd), up, "{d} plus {pd}");
    // known finding: month steps that cross more than one year boundary backwards
    let mut listed = false;
    let down = td.iter().fold(d, |x, &(u, v, _)| {
        let m0 = x.month() as i64 - 1;
        listed |= u == U::M && v > m0 + 12 && (m0 - v) % 12 != 0;
        step_date(x, u, -v)
    });
    if !listed {
        ensure_eq!(sub_period_date(&d, &pd), down, "{d} minus {pd}");
    }
    // rough length in years
    let weight = |u: U| match u {
        U::Y => 1.0,
        U::M => 30.5 / 365.25,
        U::W => 7.0 / 365.25,
        U::D => 1.0 / 365.25,
        U::H => 1.0 / 365.25 / 24.0,
        U::Min => 1.0 / 365.25 / 1440.0,
        U::Sec => 1.0 / 365.25 / 86400.0,
    };
    let want: f64 = t.iter().map(|&(u, v, _)| weight(u) * v as f64).sum();
    let got = from_period_string_to_float(&p).must("from_period_string_to_float")? as f64;
    ensure!((got - want).abs() <= 2e-6 * want.abs() + 1e-9, "{p} in years: observed {got}, expected {want}");
    {
        let bad = *s.pick(&["", "Y", "12", "1y", "M1"]);
        ensure!(from_period_string_to_float(bad).is_err(), "the tenor {bad:?} was accepted");
        ensure!(no_panic(|| add_period(&i, bad)).is_err(), "the tenor {bad:?} was accepted by add_period");
        ensure!(no_panic(|| sub_period(&i, bad)).is_err(), "the tenor {bad:?} was accepted by sub_period");
    }
    Ok(())
}
fn sub_18m(_s: &mut Src, _c: &mut Ctx) -> R {
    let d = ymd(2020, 1, 31);
    ensure_eq!(sub_period_date(&d, "18M"), ymd(2018, 7, 31), "2020-01-31 minus 18M");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "D01",
            facets: vec![facet("day-counts", "the dates lie in different years or one of them is the 30th or 31st", 240000, 7200000, day_counts)],
            assumptions: &["fractions are single precision: relative error 1e-6"],
        },
        Property {
            id: "D02",
            facets: vec![
                facet("elapsed", "the instants lie in different calendar years", 1200000, 36000000, elapsed),
                probe("year-end-jump", "2019-12-31 to the following midnight", year_end_jump),
            ],
            assumptions: &["times are single precision"],
        },
        Property {
            id: "D03",
            facets: vec![
                facet("tenors", "the tenor has a year or month step", 480000, 14400000, tenors),
                probe("sub-18m", "2020-01-31 minus 18 months as a date", sub_18m),
            ],
            assumptions: &[],
        },
    ]
}
