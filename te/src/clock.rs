//! N02 (and I05) with a system clock of the test's own: this program's clock_gettime stands before the C library's, so
//! that a child process can show the code under test any date and set the clock while it runs. Nothing outside the
//! child sees it.
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp};
use trading_engine::utils::timer::get_thread_local_unix_nano;
use vf::*;

static OFFSET: AtomicI64 = AtomicI64::new(0);
static REAL: AtomicUsize = AtomicUsize::new(0);

/// # Safety
/// as the C library's function of this name
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let mut p = REAL.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, c"clock_gettime".as_ptr()) as usize;
        REAL.store(if p == 0 { 1 } else { p }, Ordering::Relaxed);
    }
    let r = if p <= 1 {
        libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
    } else {
        let f: unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> libc::c_int = std::mem::transmute(p);
        f(clk, ts)
    };
    let o = OFFSET.load(Ordering::Relaxed);
    if r == 0 && o != 0 && clk == libc::CLOCK_REALTIME {
        let n = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128 + o as i128;
        (*ts).tv_sec = n.div_euclid(1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = n.rem_euclid(1_000_000_000) as libc::c_long;
    }
    r
}
pub fn system() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0)
}
/// makes the system's clock show this instant now
pub fn set(n: u64) {
    let d = n as i128 - system() as i128;
    OFFSET.fetch_add(d as i64, Ordering::Relaxed);
}

const D: u64 = 86_400_000_000_000;
const SLACK: u64 = 20_000_000_000;
const FINE: u64 = 5_000_000;

/// an instant worth being at: just before or after a midnight here or in Korea, any other
pub fn instant(src: &mut Src) -> u64 {
    let day = match src.draw(4) {
        0 => *src.pick(&[59u64, 364, 365, 789, 10956, 11015, 11016, 19782, 24836, 47540]),
        _ => 1 + src.draw(47_500),
    };
    let tod = match src.draw(5) {
        0 => src.draw(3_000_000),
        1 => D - 1 - src.draw(3_000_000),
        2 => 15 * D / 24 + src.draw(3_000_000_000),
        3 => 15 * D / 24 - 1 - src.draw(3_000_000_000),
        _ => src.draw(D),
    };
    day * D + tod
}

/// one clock of the code under test, as it was first read, and what may be read from it later
#[derive(Clone, Copy, Default)]
struct Seen {
    first: Option<(u64, Instant, Instant)>,
    last: u64,
    stepped: bool,
}
impl Seen {
    fn read(&mut self, what: &str, f: impl Fn() -> u64) -> Result<u64, String> {
        let (s0, m0) = (system(), Instant::now());
        let t = f();
        let (s1, m1) = (system(), Instant::now());
        if t < self.last {
            return Err(format!("{what} went back from {} to {t}", self.last));
        }
        self.last = t;
        let near = |t: u64| t + SLACK >= s0 && t <= s1 + SLACK;
        let Some((f, a0, a1)) = self.first else {
            self.first = Some((t, m0, m1));
            return if near(t) { Ok(t) } else { Err(format!("{what} first shows {t} between {s0} and {s1} of the system")) };
        };
        let lo = (m0 - a1).as_nanos() as u64;
        let hi = (m1 - a0).as_nanos() as u64;
        let (lo, hi) = (f + lo - lo / 10, f + hi + hi / 10);
        if self.stepped {
            // it may follow the system's clock or not, and may not leave what lies between
            if t + FINE + SLACK < lo.min(s0) || t > hi.max(s1) + FINE + SLACK {
                return Err(format!("{what} shows {t}, {f} at first; the system's clock was set and shows {s0}"));
            }
        } else if t + FINE < lo || t > hi + FINE || !near(t) {
            return Err(format!("{what} shows {t} between {s0} and {s1} of the system, {f} at first, {lo} to {hi} by the time passed"));
        }
        Ok(t)
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
enum Op {
    Common,
    Local,
    Thread,
    Now,
    FromToday,
    SetToday(i64),
    FromDate(i64),
    Step(i64),
    Pause(u64),
}

pub fn child(plan: &str) {
    let Ok((at, ops)) = serde_json::from_str::<(u64, Vec<Op>)>(plan) else {
        println!("CHILD no plan");
        std::process::exit(9);
    };
    set(at);
    match std::thread::spawn(move || script(&ops)).join() {
        Ok(Ok(())) => println!("CHILD fine"),
        Ok(Err(m)) => println!("CHILD wrong {m}"),
        Err(_) => println!("CHILD wrong panicked"),
    }
}
fn script(ops: &[Op]) -> Result<(), String> {
    let common = || trading_engine::get_unix_nano();
    let (mut c, mut l) = (Seen::default(), Seen::default());
    for op in ops {
        match op {
            Op::Common => drop(c.read("the common clock", common)?),
            Op::Local => drop(l.read("the thread's clock", get_thread_local_unix_nano)?),
            Op::Now => drop(c.read("TimeStamp::utc_now", || TimeStamp::utc_now().stamp)?),
            Op::Thread => {
                let mut c2 = c;
                c2 = std::thread::spawn(move || -> Result<Seen, String> {
                    let mut l = Seen::default();
                    for _ in 0..2 {
                        l.read("a new thread's clock", get_thread_local_unix_nano)?;
                        c2.read("the common clock in a new thread", common)?;
                    }
                    Ok(c2)
                })
                .join()
                .map_err(|_| "panicked".to_string())??;
                c = c2;
            }
            Op::FromToday | Op::SetToday(_) | Op::FromDate(_) => {
                let a = c.read("the common clock", common)?;
                let day = |d: &i64| crate::time_::date(*d);
                let (g, what) = match op {
                    Op::SetToday(d) => {
                        let mut g = DateUnixNanoGenerator::from(day(d));
                        g.cache_timestamp(77);
                        g.set_today();
                        if g.get_prev_timestamp() != 77 {
                            return Err("set_today changes the cached time stamp".into());
                        }
                        (g, "set_today")
                    }
                    Op::FromDate(d) => {
                        let g = DateUnixNanoGenerator::from(day(d));
                        if g.get_utcdate_unix_nano() != *d as u64 * D || g.get_prev_timestamp() != 0 {
                            return Err(format!("a generator from a date: {g:?}"));
                        }
                        (g, "a generator from a date")
                    }
                    _ => {
                        let g = DateUnixNanoGenerator::from_today().map_err(|e| e.to_string())?;
                        if g.get_prev_timestamp() != 0 {
                            return Err(format!("from_today caches a time stamp: {g:?}"));
                        }
                        (g, "from_today")
                    }
                };
                let b = c.read("the common clock", common)?;
                let (d, u) = (g.get_utcdate_unix_nano(), g.get_update_stamp());
                if !matches!(op, Op::FromDate(_)) && d != a / D * D && d != b / D * D {
                    return Err(format!("{what} dates {d}, at {a}"));
                }
                if u < a || u > b {
                    return Err(format!("{what} is updated at {u}, not between {a} and {b}"));
                }
            }
            Op::Step(d) => {
                let n = system() as i64 + d;
                if n > 0 {
                    OFFSET.fetch_add(*d, Ordering::Relaxed);
                    c.stepped = true;
                    l.stepped = true;
                    c.stepped &= c.first.is_some();
                    l.stepped &= l.first.is_some();
                }
            }
            Op::Pause(n) => std::thread::sleep(Duration::from_micros(*n)),
        }
    }
    Ok(())
}

pub const RULE: &str = "a clock is read before and after the system's clock is set, or the day changes at a reading";
pub fn case(src: &mut Src, ctx: &mut Ctx) -> R {
    let at = instant(src);
    let mut ops = vec![];
    let mut n = 0;
    while src.more(&mut n, 9, 30) {
        let day = src.edgy(0, 60_000);
        ops.push(match src.draw(9) {
            0 => Op::Common,
            1 => Op::Local,
            2 => Op::Thread,
            3 => Op::Now,
            4 => Op::FromToday,
            5 => Op::SetToday(day),
            6 => Op::FromDate(day),
            7 => {
                let d = *src.pick(&[1i64, 60, 3600, 86_400, 40 * 86_400, 3_000 * 86_400]) * 1_000_000_000 + src.draw(1_000_000_000) as i64;
                Op::Step(if src.bool() { d } else { -d })
            }
            // long enough for a clock that looks at the system's again only now and then
            _ => Op::Pause(match src.draw(60) {
                0 => 1_050_000,
                1..=15 => 50_000 + src.draw(200_000),
                _ => src.draw(3000),
            }),
        });
    }
    ctx.note(format!("{at} {ops:?}"));
    let read = |o: &Op| !matches!(o, Op::Step(_) | Op::Pause(_));
    let step = ops.iter().position(|o| matches!(o, Op::Step(_)));
    ctx.nontrivial(step.is_some_and(|i| ops[..i].iter().any(read) && ops[i..].iter().any(read)) || (at % D > D - 3_000_001 && ops.iter().any(read)));
    let Ok(exe) = std::env::current_exe() else { return discard() };
    let plan = serde_json::to_string(&(at, &ops)).must("a plan")?;
    let Ok(out) = std::process::Command::new(exe).arg("--clock-child").arg(plan).output() else { return discard() };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    match text.lines().find_map(|l| l.strip_prefix("CHILD ")) {
        Some("fine") => Ok(()),
        Some(m) if m.starts_with("wrong") => fail!("{}", &m[6..]),
        _ if std::os::unix::process::ExitStatusExt::signal(&out.status) == Some(9) => discard(), // ended from outside
        _ => fail!("reading the clocks ended the process: {}", String::from_utf8_lossy(&out.stderr).lines().next().unwrap_or("")),
    }
}
