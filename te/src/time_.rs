//! N01: wire clock, epoch and calendar forms against an independent civil calendar.
use trading_engine::data::krx::krx_converter::get_krx_timestamp_converter;
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp};
use trading_engine::utils::timer::{convert_unix_nano_to_date_and_time, time_components_from_unix_nano};
use vf::*;

const S: u64 = 1_000_000_000;
const H: u64 = 3600 * S;
const D: u64 = 24 * H;

/// days since 1970-01-01 to (y, m, d); H. Hinnant's era algorithm, independent of the code under test
pub fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
pub fn date(d: i64) -> time::Date {
    time::Date::from_julian_day(2_440_588 + d as i32).unwrap()
}
fn nano(src: &mut Src) -> u64 {
    let d = if src.chance(1, 3) {
        // around month and year ends, leap days
        let y = src.int(1970, 2200);
        let md = *src.pick(&[(1u8, 1u8), (2, 28), (3, 1), (12, 31), (4, 30), (5, 1), (2, 27), (7, 31)]);
        let x = time::Date::from_calendar_date(y as i32, time::Month::try_from(md.0).unwrap(), md.1).unwrap();
        (x.to_julian_day() - 2_440_588) as i64 + src.int(0, 2)
    } else {
        src.edgy(0, 84_000)
    };
    let t = if src.chance(1, 4) { *src.pick(&[0, D - 1, H, 12 * H, 9 * H, 15 * H - 1, 60 * S - 1]) } else { src.edgy(0, D as i64 - 1) as u64 };
    d as u64 * D + t
}

fn calendar(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = nano(src);
    let off = src.int(-12, 14);
    ctx.note(format!("{n} ns, offset {off} h"));
    let (h, m, s, ms) = time_components_from_unix_nano(n);
    let t = n % D;
    ensure_eq!(
        (h as u64, m as u64, s as u64, ms as u64),
        (t / H, t / (60 * S) % 60, t / S % 60, t / 1_000_000 % 1000),
        "time_components_from_unix_nano"
    );
    let ts = TimeStamp::new(n);
    let (y, mo, da) = civil((n / D) as i64);
    let du = ts.to_date_utc().must("to_date_utc")?;
    ensure_eq!((du.year() as i64, du.month() as u8 as u32, du.day() as u32), (y, mo, da), "to_date_utc");
    let dt = ts.to_datetime().must("to_datetime")?;
    ensure_eq!(dt.unix_timestamp_nanos(), n as i128, "to_datetime");
    let g = DateUnixNanoGenerator::from_unixnano(n);
    ensure_eq!(g.get_utcdate_unix_nano(), n / D * D, "date of an instant");
    ensure_eq!(DateUnixNanoGenerator::from(du).get_utcdate_unix_nano(), n / D * D, "date generator from a calendar date");
    let mut g2 = DateUnixNanoGenerator::from(date(5));
    g2.set_timestamp(ts);
    ensure_eq!((g2.get_utcdate_unix_nano(), g2.get_update_stamp()), (n / D * D, n), "date generator set to an instant");
    let local = n as i128 + off as i128 * H as i128;
    if local < 0 {
        return Ok(());
    }
    let local = local as u64;
    let (y, mo, da) = civil((local / D) as i64);
    let t = local % D;
    let e = (
        format!("{y:04}{mo:02}{da:02}"),
        format!("{:02}:{:02}:{:02}.{:03}:{:03}:{:03}", t / H, t / (60 * S) % 60, t / S % 60, t / 1_000_000 % 1000, t / 1000 % 1000, t % 1000),
    );
    ensure_eq!(convert_unix_nano_to_date_and_time(n, off as i32), e, "convert_unix_nano_to_date_and_time");
    ctx.nontrivial((local / D) != (n / D) || da == 1 || da >= 28);
    Ok(())
}

fn differences(src: &mut Src, ctx: &mut Ctx) -> R {
    let b = nano(src);
    let d = src.edgy(0, 400 * D as i64) as u64;
    let a = TimeStamp::new(b + d);
    let b = TimeStamp::new(b);
    ctx.note(format!("{} - {}", a.stamp, b.stamp));
    ctx.nontrivial(d > 0);
    let x = d as f64;
    for (o, scale, n) in [
        (a.diff_in_nanos(b), 1.0, "nanos"),
        (a.diff_in_micros(b), 1e3, "micros"),
        (a.diff_in_millis(b), 1e6, "millis"),
        (a.diff_in_secs(b), 1e9, "secs"),
        (a.diff_in_mins(b), 60e9, "mins"),
        (a.diff_in_hours(b), 3600e9, "hours"),
        (a.diff_in_days(b), 86400e9, "days"),
    ] {
        let e = x / scale;
        ensure!((o - e).abs() <= 1e-14 * e.abs(), "diff_in_{n}: observed {o}, expected {e}");
    }
    Ok(())
}

/// a clock that moves by at most nine hours between messages, backwards only within a day, observed as wall-clock times of day
fn wire(src: &mut Src, ctx: &mut Ctx) -> R {
    let day0 = src.edgy(0, 60_000) as u64;
    let conv = get_krx_timestamp_converter();
    let mut g = match src.draw(3) {
        0 => DateUnixNanoGenerator::from(date(day0 as i64)),
        1 => DateUnixNanoGenerator::from_unixnano(day0 * D + src.draw(D)),
        _ => {
            let mut g = DateUnixNanoGenerator::from(date(3));
            g.set_timestamp(TimeStamp::new(day0 * D + src.draw(D)));
            g
        }
    };
    // true local instant in microseconds
    let mut t = day0 * D / 1000 + src.edgy(0, (D / 1000) as i64 - 1) as u64;
    let mut n = 0;
    let mut days = 0;
    let mut last = 0;
    let late = src.chance(1, 3);
    while src.more(&mut n, 9, 24) {
        let tod = t * 1000 % D;
        let w = format!("{:02}{:02}{:02}{:06}", tod / H, tod / (60 * S) % 60, tod / S % 60, tod / 1000 % 1_000_000);
        ctx.note(&w);
        let mut b = w.clone().into_bytes();
        b.extend_from_slice(&[b'7'; 12]);
        let sys = src.chance(1, 2).then(|| TimeStamp::new(77_000_000 + n as u64));
        let before = g.get_utcdate_unix_nano();
        let o = conv.parse_hhmmssuuuuuu(&b, sys, &mut g).must("parse")?;
        let e = t * 1000 + 9 * H;
        ensure_eq!(o.stamp, e, "message {n} at {w}: instant");
        ensure!(late || o.stamp >= last, "message {n}: instants move backwards");
        last = o.stamp;
        let date_now = t * 1000 / D * D;
        ensure_eq!(g.get_utcdate_unix_nano(), date_now, "message {n}: current date");
        ensure_eq!(g.get_prev_timestamp(), e, "message {n}: last instant");
        if date_now != before {
            days += 1;
            if let Some(s) = sys {
                ensure_eq!(g.get_update_stamp(), s.stamp, "message {n}: date change stamp");
            }
        }
        let gap = 9 * H / 1000;
        if late && src.bool() {
            // late: the same day, up to nine hours before the message before it
            let back = (t % (D / 1000)).min(gap);
            t -= if src.bool() { back } else { src.draw(back + 1) };
            continue;
        }
        t += match src.draw(5) {
            0 => src.draw(1000),
            1 => gap - src.draw(1000),
            2 => {
                // to just around the next midnight when within reach
                let to = D / 1000 - t % (D / 1000);
                if to <= gap { (to - 1 + src.draw(3)).min(gap) } else { src.draw(gap) }
            }
            _ => src.draw(gap + 1),
        };
    }
    ctx.nontrivial(days > 0);
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "N01",
        facets: vec![
            facet("calendar", "the offset moves the date, or the local date is near a month end", 2250000, 67500000, calendar),
            facet("differences", "the instants differ", 900000, 27000000, differences),
            facet("wire", "the wire clock crosses midnight at least once", 1200000, 36000000, wire),
        ],
        assumptions: &["local dates on or after 1970-01-01", "consecutive messages are at most nine hours apart, and one that comes late is of the same day as the one before it", "wire time of day counts from the configured date's midnight plus the nine-hour exchange offset"],
    }]
}
