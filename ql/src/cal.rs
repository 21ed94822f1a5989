//! C01 US calendars, C02 Korean calendars, C03 edits and joint calendars, C04 business-day adjustment.
use korean_lunar_calendar::{lunar_to_gregorian, LunarDate};
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::calendars::southkorea::{SouthKorea, SouthKoreaType};
use quantlib::time::calendars::unitedstates::{UnitedStates, UnitedStatesType};
use quantlib::time::conventions::BusinessDayConvention as Bdc;
use quantlib::time::jointcalendar::JointCalendar;
use std::collections::BTreeSet;
use time::{Date, Duration, Month, OffsetDateTime, Time, UtcOffset, Weekday};
use vf::*;

pub fn ymd(y: i32, m: u8, d: u8) -> Date {
    Date::from_calendar_date(y, Month::try_from(m).unwrap(), d).unwrap()
}
pub fn wkend(d: Date) -> bool {
    matches!(d.weekday(), Weekday::Saturday | Weekday::Sunday)
}
pub fn off(h: i8, m: i8) -> UtcOffset {
    UtcOffset::from_hms(h, m, 0).unwrap()
}
pub const OFFSETS: [(i8, i8); 8] = [(0, 0), (9, 0), (-5, 0), (1, 0), (5, 30), (-12, 0), (14, 0), (-3, -30)];
pub fn any_offset(s: &mut Src) -> UtcOffset {
    let (h, m) = *s.pick(&OFFSETS);
    off(h, m)
}
pub fn any_time(s: &mut Src) -> Time {
    match s.draw(6) {
        0 => Time::MIDNIGHT,
        1 => Time::from_hms(23, 59, 59).unwrap(),
        2 => Time::from_hms(16, 30, 0).unwrap(),
        _ => Time::from_hms(s.int(0, 23) as u8, s.int(0, 59) as u8, s.int(0, 59) as u8).unwrap(),
    }
}
/// days of a year
fn days_of(y: i32) -> impl Iterator<Item = Date> {
    let n = if time::util::is_leap_year(y) { 366 } else { 365 };
    (1..=n).map(move |k| Date::from_ordinal_date(y, k).unwrap())
}
fn nth(y: i32, m: u8, w: Weekday, n: u8) -> Date {
    let mut d = ymd(y, m, 1);
    while d.weekday() != w {
        d = d.next_day().unwrap();
    }
    d + Duration::days(7 * (n as i64 - 1))
}
fn last_mon(y: i32, m: u8) -> Date {
    let mut d = if m == 12 { ymd(y, 12, 31) } else { ymd(y, m + 1, 1) - Duration::days(1) };
    while d.weekday() != Weekday::Monday {
        d -= Duration::days(1);
    }
    d
}
/// Gregorian Easter Sunday (anonymous algorithm)
pub fn easter(y: i32) -> Date {
    let a = y % 19;
    let (b, c) = (y / 100, y % 100);
    let (d, e) = (b / 4, b % 4);
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let (i, k) = (c / 4, c % 4);
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let n = h + l - 7 * m + 114;
    ymd(y, (n / 31) as u8, (n % 31 + 1) as u8)
}

// ---------------------------------------------------------------- C01
fn us_types() -> [UnitedStatesType; 5] {
    use UnitedStatesType::*;
    [Nyse, Settlement, GovernmentBond, FederalReserve, Sofr]
}
/// weekday closures of one year, from the published rules
fn us_holidays(t: UnitedStatesType, y: i32) -> BTreeSet<Date> {
    use UnitedStatesType::*;
    let mut h = BTreeSet::new();
    // a fixed date observed on Monday when it is a Sunday and (not the Federal Reserve) on Friday when a Saturday
    let shift = |d: Date, sat: bool| match d.weekday() {
        Weekday::Sunday => Some(d + Duration::days(1)),
        Weekday::Saturday => sat.then(|| d - Duration::days(1)),
        _ => Some(d),
    };
    let fed = matches!(t, FederalReserve);
    let nyse = matches!(t, Nyse);
    h.extend(shift(ymd(y, 1, 1), false));
    if matches!(t, Settlement) && ymd(y, 12, 31).weekday() == Weekday::Friday {
        h.insert(ymd(y, 12, 31));
    }
    if y >= if nyse { 1998 } else { 1983 } {
        h.insert(nth(y, 1, Weekday::Monday, 3));
    }
    if y >= 1971 {
        h.insert(nth(y, 2, Weekday::Monday, 3));
        h.insert(last_mon(y, 5));
    } else {
        h.extend(shift(ymd(y, 2, 22), true));
        h.extend(shift(ymd(y, 5, 30), true));
    }
    let good_friday = easter(y) - Duration::days(2);
    match t {
        Nyse | Sofr => drop(h.insert(good_friday)),
        GovernmentBond if ![2015, 2021, 2023].contains(&y) => drop(h.insert(good_friday)),
        _ => {}
    }
    if y >= 2022 {
        h.extend(shift(ymd(y, 6, 19), !fed));
    }
    h.extend(shift(ymd(y, 7, 4), !fed));
    h.insert(nth(y, 9, Weekday::Monday, 1));
    if !nyse {
        if y >= 1971 {
            h.insert(nth(y, 10, Weekday::Monday, 2));
        }
        if (1971..1978).contains(&y) {
            h.insert(nth(y, 10, Weekday::Monday, 4));
        } else {
            h.extend(shift(ymd(y, 11, 11), false));
        }
    }
    h.insert(nth(y, 11, Weekday::Thursday, 4));
    h.extend(shift(ymd(y, 12, 25), !fed));
    let one_off: &[(i32, u8, u8)] = match t {
        Nyse => &[
            (2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11), (2001, 9, 11), (2001, 9, 12),
            (2001, 9, 13), (2001, 9, 14), (1994, 4, 27), (1985, 9, 27), (1977, 7, 14), (1973, 1, 25), (1972, 12, 28),
            (1969, 7, 21), (1969, 3, 31), (1969, 2, 10), (1968, 7, 5), (1968, 4, 9), (1963, 11, 25), (1961, 5, 29),
            (1958, 12, 26), (1954, 12, 24), (1956, 12, 24), (1965, 12, 24),
        ],
        GovernmentBond | Sofr => &[(2018, 12, 5), (2012, 10, 30), (2004, 6, 11)],
        _ => &[],
    };
    h.extend(one_off.iter().filter(|x| x.0 == y).map(|x| ymd(x.0, x.1, x.2)));
    if nyse {
        if y <= 1968 || (y <= 1980 && y % 4 == 0) {
            h.insert(nth(y, 11, Weekday::Tuesday, 1));
        }
        if y == 1968 {
            h.extend(days_of(y).filter(|d| d.ordinal() >= 163 && d.weekday() == Weekday::Wednesday));
        }
    }
    h.retain(|d| !wkend(*d));
    h
}

fn check_year(cal: &Calendar, name: &str, holidays: &BTreeSet<Date>, y: i32, local: UtcOffset, s: &mut Src) -> R {
    let t = any_time(s);
    let view = any_offset(s);
    for d in days_of(y) {
        let inst = OffsetDateTime::new_in_offset(d, t, local).to_offset(view);
        let closed = wkend(d) || holidays.contains(&d);
        ensure_eq!(cal.is_holiday(&inst), closed, "{name} holiday on local date {d} ({}), instant {inst}", d.weekday());
        ensure_eq!(cal.is_business_day(&inst), !closed, "{name} business day on local date {d}, instant {inst}");
        ensure_eq!(cal.is_weekend(&inst), wkend(d), "{name} weekend on local date {d}, instant {inst}");
    }
    Ok(())
}
fn us_year(s: &mut Src, c: &mut Ctx) -> R {
    let t = *s.pick(&us_types());
    let y = match s.draw(4) {
        0 => s.int(2000, 2050) as i32,
        1 => s.int(1951, 1999) as i32,
        _ => s.int(1951, 2199) as i32,
    };
    let h = us_holidays(t, y);
    c.note(format!("{t:?} {y}: {} weekday closures {:?}", h.len(), h.iter().map(|d| format!("{:02}-{:02}", d.month() as u8, d.day())).collect::<Vec<_>>()));
    c.nontrivial(h.len() >= 8);
    let cal = Calendar::UnitedStates(UnitedStates::new(t));
    check_year(&cal, &format!("US {t:?}"), &h, y, off(-5, 0), s)
}

// ---------------------------------------------------------------- C02
fn solar(y: i32, m: u8, d: u8) -> Date {
    use chrono::Datelike;
    let g = lunar_to_gregorian(&LunarDate { year: y, month: (m, false), day: d }).unwrap();
    ymd(g.year(), g.month() as u8, g.day() as u8)
}
fn kr_holidays(t: SouthKoreaType, y: i32) -> BTreeSet<Date> {
    let mut h: BTreeSet<Date> = [(1, 1), (3, 1), (5, 1), (5, 5), (6, 6), (8, 15), (10, 3), (10, 9), (12, 25)]
        .iter()
        .map(|&(m, d)| ymd(y, m, d))
        .collect();
    for (d, around) in [(solar(y, 1, 1), 1), (solar(y, 4, 8), 0), (solar(y, 8, 15), 1)] {
        for k in -around..=around {
            h.insert(d + Duration::days(k));
        }
    }
    for (yy, m, d) in [(2023, 1, 24), (2023, 5, 1), (2023, 5, 29), (2023, 10, 2), (2024, 2, 12), (2024, 5, 6)] {
        if yy == y {
            h.insert(ymd(yy, m, d));
        }
    }
    if t == SouthKoreaType::Krx {
        let mut d = ymd(y, 12, 31);
        while wkend(d) || h.contains(&d) {
            d -= Duration::days(1);
        }
        h.insert(d);
    }
    h.retain(|d| !wkend(*d));
    h
}
fn kr_year(s: &mut Src, c: &mut Ctx) -> R {
    let t = *s.pick(&[SouthKoreaType::Krx, SouthKoreaType::Settlement]);
    let y = if s.bool() { s.int(2000, 2050) } else { s.int(1951, 2050) } as i32;
    let h = kr_holidays(t, y);
    c.note(format!("{t:?} {y}: {} weekday closures {:?}", h.len(), h.iter().map(|d| format!("{:02}-{:02}", d.month() as u8, d.day())).collect::<Vec<_>>()));
    c.nontrivial(h.len() >= 8);
    let cal = Calendar::SouthKorea(SouthKorea::new(t));
    check_year(&cal, &format!("Korea {t:?}"), &h, y, off(9, 0), s)
}

// ---------------------------------------------------------------- C03
pub fn calendar_of(k: usize) -> (Calendar, &'static str, Option<UtcOffset>) {
    use UnitedStatesType::*;
    let us = |t| Calendar::UnitedStates(UnitedStates::new(t));
    match k {
        0 => (Calendar::NullCalendar(NullCalendar::new()), "Null", None),
        1 => (Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Krx)), "Krx", Some(off(9, 0))),
        2 => (Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Settlement)), "KrSettle", Some(off(9, 0))),
        3 => (us(Nyse), "Nyse", Some(off(-5, 0))),
        4 => (us(Settlement), "UsSettle", Some(off(-5, 0))),
        5 => (us(GovernmentBond), "UsGov", Some(off(-5, 0))),
        6 => (us(FederalReserve), "Fed", Some(off(-5, 0))),
        _ => (us(Sofr), "Sofr", Some(off(-5, 0))),
    }
}
/// the calendar's own rule closures (Some(false) when the calendar has no rule holidays)
pub fn rule_closed(k: usize, d: Date) -> bool {
    use UnitedStatesType::*;
    thread_local! {
        static MEMO: std::cell::RefCell<std::collections::HashMap<(usize, i32), BTreeSet<Date>>> = Default::default();
    }
    if wkend(d) {
        return true;
    }
    let y = d.year();
    MEMO.with(|m| {
        m.borrow_mut()
            .entry((k, y))
            .or_insert_with(|| match k {
                0 => BTreeSet::new(),
                1 => kr_holidays(SouthKoreaType::Krx, y),
                2 => kr_holidays(SouthKoreaType::Settlement, y),
                3 => us_holidays(Nyse, y),
                4 => us_holidays(Settlement, y),
                5 => us_holidays(GovernmentBond, y),
                6 => us_holidays(FederalReserve, y),
                _ => us_holidays(Sofr, y),
            })
            .contains(&d)
    })
}
/// closed on the calendar's own local date of this instant
pub fn closed_at(k: usize, i: &OffsetDateTime) -> bool {
    thread_local! { static OFF: Vec<Option<UtcOffset>> = (0..8).map(|k| calendar_of(k).2).collect(); }
    let d = OFF.with(|o| o[k].map(|o| i.to_offset(o)).unwrap_or(*i).date());
    rule_closed(k, d)
}
#[derive(Clone)]
struct Model {
    k: usize,
    added: BTreeSet<Date>,
    removed: BTreeSet<Date>,
}
impl Model {
    fn closed(&self, inst: &OffsetDateTime) -> bool {
        let (_, _, local) = calendar_of(self.k);
        let d = local.map(|o| inst.to_offset(o)).unwrap_or(*inst).date();
        if wkend(d) {
            return true;
        }
        if self.k == 0 {
            return false; // a calendar without rules ignores edits
        }
        !self.removed.contains(&d) && (rule_closed(self.k, d) || self.added.contains(&d))
    }
    fn weekend(&self, inst: &OffsetDateTime) -> bool {
        let (_, _, local) = calendar_of(self.k);
        wkend(local.map(|o| inst.to_offset(o)).unwrap_or(*inst).date())
    }
}
fn interesting_date(s: &mut Src, k: usize) -> Date {
    let y = s.int(1990, 2049) as i32;
    let d = ymd(y, s.int(1, 12) as u8, s.int(1, 28) as u8);
    match s.draw(4) {
        0 => d,
        1 => ymd(y, 12, 31) - Duration::days(s.int(0, 4)),
        _ => {
            // walk to a rule holiday on a weekday, then maybe next to it
            let mut x = d;
            for _ in 0..200 {
                if !wkend(x) && rule_closed(k, x) {
                    break;
                }
                x += Duration::days(1);
            }
            x + Duration::days(s.int(0, 2) - 1)
        }
    }
}
fn edited(s: &mut Src, c: &mut Ctx) -> R<(Calendar, Model, Vec<Date>)> {
    let k = s.weighted(&[1, 3, 2, 3, 2, 2, 2, 2]);
    let (mut cal, name, _) = calendar_of(k);
    let mut m = Model { k, added: BTreeSet::new(), removed: BTreeSet::new() };
    let mut touched = vec![];
    let mut n = 0;
    let mut log = vec![];
    let (avg, most) = if s.chance(1, 40) { (60, 90) } else { (6, 14) };
    while s.more(&mut n, avg, most) {
        let d = if !touched.is_empty() && s.chance(1, 3) { *s.pick(&touched) } else { interesting_date(s, k) };
        touched.push(d);
        if s.bool() {
            cal.remove_holidays(&d).must("remove_holidays")?;
            m.removed.insert(d);
            log.push(format!("-{d}"));
        } else {
            cal.add_holidays(&d).must("add_holidays")?;
            m.added.insert(d);
            log.push(format!("+{d}"));
        }
    }
    c.note(format!("{name} edits [{}]", log.join(" ")));
    Ok((cal, m, touched))
}
fn probe_dates(s: &mut Src, touched: &[Date], k: usize) -> Vec<OffsetDateTime> {
    let mut v = vec![];
    let mut ds: Vec<Date> = touched.to_vec();
    for _ in 0..6 {
        ds.push(interesting_date(s, k));
    }
    for d in ds {
        let base = d + Duration::days(s.int(0, 2) - 1);
        let o = any_offset(s);
        v.push(OffsetDateTime::new_in_offset(base, any_time(s), o));
        v.push(OffsetDateTime::new_in_offset(d, any_time(s), o));
    }
    v
}
fn edits(s: &mut Src, c: &mut Ctx) -> R {
    let (cal, m, touched) = edited(s, c)?;
    c.nontrivial(!touched.is_empty() && m.k != 0);
    let copy = cal.clone();
    for inst in probe_dates(s, &touched, m.k) {
        let want = m.closed(&inst);
        ensure_eq!(cal.is_holiday(&inst), want, "holiday at {inst}");
        ensure_eq!(cal.is_business_day(&inst), !want, "business day at {inst}");
        ensure_eq!(copy.is_holiday(&inst), want, "holiday of a copy at {inst}");
        ensure_eq!(cal.is_weekend(&inst), m.weekend(&inst), "weekend at {inst}");
        // asked about the local date of an instant, written in the calendar's own zone
        let local = calendar_of(m.k).2.map(|o| inst.to_offset(o)).unwrap_or(inst);
        let has = |x: &BTreeSet<Date>| m.k != 0 && x.contains(&local.date());
        ensure_eq!((cal.is_added_holiday(&local), cal.is_removed_holiday(&local)), (has(&m.added), has(&m.removed)), "added, removed at {local}");
        if !wkend(local.date()) {
            ensure_eq!(cal.is_base_holiday(&local), rule_closed(m.k, local.date()), "rule holiday at {local}");
        }
    }
    Ok(())
}
/// what `f` prints
fn printed_by(f: impl FnOnce()) -> Result<String, Stop> {
    use std::io::{Read, Seek, Write};
    use std::os::fd::AsRawFd;
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    let path = std::env::temp_dir().join(format!("vf-print-{}", std::process::id()));
    let mut file = std::fs::File::options().create(true).truncate(true).read(true).write(true).open(&path).must("scratch file")?;
    let _ = std::fs::remove_file(&path);
    let _ = std::io::stdout().flush();
    let old = unsafe { dup(1) };
    unsafe { dup2(file.as_raw_fd(), 1) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(old, 1);
        close(old);
    }
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
    let mut text = String::new();
    file.rewind().must("scratch file")?;
    file.read_to_string(&mut text).must("scratch file")?;
    Ok(text)
}
fn listed(s: &mut Src, c: &mut Ctx) -> R {
    let n = if s.chance(1, 3) { s.usize(1, 3) } else { 0 };
    let (mut cals, mut ms, mut touched) = (vec![], vec![], vec![]);
    for _ in 0..n.max(1) {
        let (cal, m, t) = edited(s, c)?;
        cals.push(cal);
        ms.push(m);
        touched.extend(t);
    }
    let d = if !touched.is_empty() && s.bool() { *s.pick(&touched) } else { interesting_date(s, ms[0].k) };
    let from = OffsetDateTime::new_in_offset(d - Duration::days(s.int(0, 20)), any_time(s), any_offset(s));
    // the last day counts from its very instant on
    let to = from + Duration::days(s.int(0, 60) - 1) + Duration::seconds(*s.pick(&[0, 0, 1, -1, 3600]));
    let weekends = s.bool();
    c.note(format!("from {from} to {to} {}", if weekends { "with weekends" } else { "without weekends" }));
    let mut want = vec![];
    let mut x = from;
    while x <= to {
        if ms.iter().any(|m| m.closed(&x)) && (weekends || !ms.iter().any(|m| m.weekend(&x))) {
            // the day may be named in the zone it was asked for or in a calendar's own
            let mut names = vec![x.date().to_string()];
            names.extend(ms.iter().filter_map(|m| calendar_of(m.k).2).map(|o| x.to_offset(o).date().to_string()));
            want.push(names);
        }
        x += Duration::days(1);
    }
    c.nontrivial(want.len() >= 2);
    let text = if n == 0 {
        printed_by(|| cals[0].display_holidays(&from, &to, weekends))?
    } else {
        let j = JointCalendar::new(cals).must("JointCalendar::new")?;
        printed_by(|| j.display_holidays(&from, &to, weekends))?
    };
    let got: Vec<String> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| l.to_string()).collect();
    // whatever else a line says, it names the day
    ensure_eq!(got.len(), want.len(), "days listed: {got:?}, expected {want:?}");
    for (g, w) in got.iter().zip(&want) {
        ensure!(w.iter().any(|d| g.contains(d)), "listed {g:?}, expected {w:?}");
    }
    Ok(())
}
fn joint(s: &mut Src, c: &mut Ctx) -> R {
    let n = crate::maths::size(s, 1, 4, 9);
    let mut cals = vec![];
    let mut ms = vec![];
    let mut touched = vec![];
    for _ in 0..n {
        let (cal, m, t) = edited(s, c)?;
        cals.push(cal);
        ms.push(m);
        touched.extend(t);
    }
    ensure!(JointCalendar::new(vec![]).is_err(), "a joint calendar without members was accepted");
    let each_of = cals.clone();
    let mut j = JointCalendar::new(cals).must("JointCalendar::new")?;
    ensure_eq!(j.calendars().len(), n, "members");
    if !touched.is_empty() && s.chance(1, 4) {
        ensure!(j.add_holidays(&touched[0]).is_err(), "joint calendar accepted an added holiday");
        ensure!(j.remove_holidays(&touched[0]).is_err(), "joint calendar accepted a removed holiday");
    }
    let mut open = 0;
    let mut mixed = 0;
    for inst in probe_dates(s, &touched, ms[0].k) {
        let each: Vec<bool> = ms.iter().map(|m| m.closed(&inst)).collect();
        let want = each.iter().any(|x| *x);
        open += !want as u32;
        mixed += (want && each.iter().any(|x| !*x)) as u32;
        ensure_eq!(j.is_holiday(&inst), want, "joint holiday at {inst}, members closed {each:?}");
        ensure_eq!(JointCalendar::is_business_day(&j, &inst), !want, "joint business day at {inst}, members closed {each:?}");
        ensure_eq!(CalendarTrait::is_business_day(&j, &inst), !want, "joint business day (trait) at {inst}, members closed {each:?}");
        ensure_eq!(j.is_weekend(&inst), ms.iter().any(|m| m.weekend(&inst)), "joint weekend at {inst}");
        let any = |f: &dyn Fn(&Calendar) -> bool| each_of.iter().any(f);
        ensure_eq!(
            (j.is_added_holiday(&inst), j.is_removed_holiday(&inst), j.is_base_holiday(&inst)),
            (any(&|x| x.is_added_holiday(&inst)), any(&|x| x.is_removed_holiday(&inst)), any(&|x| x.is_base_holiday(&inst))),
            "added, removed, rule holiday for any member at {inst}"
        );
    }
    c.nontrivial(n >= 2 && open > 0 && mixed > 0);
    Ok(())
}

// ---------------------------------------------------------------- C04
fn adjust(s: &mut Src, c: &mut Ctx) -> R {
    let joint = s.chance(1, 3);
    let n = if joint { crate::maths::size(s, 2, 3, 8) } else { 1 };
    let mut cals = vec![];
    let mut ms: Vec<Model> = vec![];
    let mut y = s.int(1991, 2049) as i32;
    for _ in 0..n {
        let k = s.weighted(&[2, 3, 2, 3, 2, 2, 2, 2]);
        let (cal, name, _) = calendar_of(k);
        c.note(name);
        cals.push(cal);
        ms.push(Model { k, added: BTreeSet::new(), removed: BTreeSet::new() });
    }
    // a date near a month end or near a holiday
    let d = match s.draw(4) {
        0 => interesting_date(s, ms[0].k),
        1 => {
            let m = s.int(1, 12) as u8;
            let first = ymd(y, m, 1);
            first + Duration::days(s.int(0, 6) - 3)
        }
        2 => ymd(y, 12, 31) + Duration::days(s.int(0, 5) - 3),
        _ => Date::from_ordinal_date(y, s.int(1, 365) as u16).unwrap(),
    };
    y = d.year();
    let _ = y;
    // extra closures around the date make long clusters
    let mut extra = 0;
    while s.more(&mut extra, 3, 12) {
        let x = d + Duration::days(s.int(0, 12) - 6);
        let i = s.usize(0, n - 1);
        if s.chance(1, 4) {
            cals[i].remove_holidays(&x).must("remove_holidays")?;
            ms[i].removed.insert(x);
        } else {
            cals[i].add_holidays(&x).must("add_holidays")?;
            ms[i].added.insert(x);
        }
    }
    let inst = OffsetDateTime::new_in_offset(d, any_time(s), any_offset(s));
    c.note(format!("{inst}, {extra} edits nearby"));
    let closed = |i: &OffsetDateTime| ms.iter().any(|m| m.closed(i));
    let scan = |step: i64| {
        let mut x = inst;
        let mut k = 0;
        while closed(&x) {
            x += Duration::days(step);
            k += 1;
            assert!(k < 400);
        }
        x
    };
    let (f, p) = (scan(1), scan(-1));
    let mf = if f.month() != inst.month() { p } else { f };
    let mp = if p.month() != inst.month() { f } else { p };
    c.nontrivial(closed(&inst));
    let got: Vec<(&str, OffsetDateTime, OffsetDateTime)> = if joint {
        let j = JointCalendar::new(cals).must("JointCalendar::new")?;
        ensure!(j.adjust(&inst, &Bdc::Dummy).is_err(), "the dummy convention was accepted");
        vec![
            ("following", j.adjust(&inst, &Bdc::Following).must("adjust")?, f),
            ("preceding", j.adjust(&inst, &Bdc::Preceding).must("adjust")?, p),
            ("modified following", j.adjust(&inst, &Bdc::ModifiedFollowing).must("adjust")?, mf),
            ("modified preceding", j.adjust(&inst, &Bdc::ModifiedPreceding).must("adjust")?, mp),
            ("unadjusted", j.adjust(&inst, &Bdc::Unadjusted).must("adjust")?, inst),
        ]
    } else {
        let j = &cals[0];
        ensure!(j.adjust(&inst, &Bdc::Dummy).is_err(), "the dummy convention was accepted");
        vec![
            ("following", j.adjust(&inst, &Bdc::Following).must("adjust")?, f),
            ("preceding", j.adjust(&inst, &Bdc::Preceding).must("adjust")?, p),
            ("modified following", j.adjust(&inst, &Bdc::ModifiedFollowing).must("adjust")?, mf),
            ("modified preceding", j.adjust(&inst, &Bdc::ModifiedPreceding).must("adjust")?, mp),
            ("unadjusted", j.adjust(&inst, &Bdc::Unadjusted).must("adjust")?, inst),
        ]
    };
    for (what, g, w) in got {
        ensure_eq!(g, w, "{what} of {inst}");
        ensure_eq!((g.time(), g.offset()), (inst.time(), inst.offset()), "time of day after {what} of {inst}");
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            facets: vec![facet("us-year", "a year with at least 8 weekday closures; all its days are compared", 50000, 1500000, us_year)],
            assumptions: &["the rules and one-off closures in the oracle are the ones published for 1951-2199"],
        },
        Property {
            id: "C02",
            facets: vec![facet("korea-year", "a year with at least 8 weekday closures; all its days are compared", 30000, 900000, kr_year)],
            assumptions: &["korean-lunar-calendar converts lunar dates correctly"],
        },
        Property {
            id: "C03",
            facets: vec![
                facet("edits", "at least one edit on a calendar with rules", 180000, 5400000, edits),
                facet("joint", "two or more members, with days on which some but not all are closed and days on which all are open", 120000, 3600000, joint),
                facet("listed", "two or more days listed", 30000, 900000, listed).serial(),
            ],
            assumptions: &[],
        },
        Property { id: "C04", facets: vec![facet("adjust", "the date is not a business day", 800000, 24000000, adjust)], assumptions: &[] },
    ]
}
