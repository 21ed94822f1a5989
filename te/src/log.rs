//! I05: the logger, one child process per case (its state is global), its files read back by the parent.
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use trading_engine::logger::{Logger, LoggerGuard, TimeZone};
use trading_engine::{LogLevel, LogMessage, LOG_SENDER};
use vf::*;

#[derive(Clone, Debug)]
struct Msg {
    kind: u64, // 0 plain text, 1 key/values, 2 struct, 3 flushing key/values, 4 flushing struct, 5 a line of the caller's
    level: usize,
    payload: String,
    pause: u64,
}
#[derive(Clone, Debug)]
struct Phase {
    level: Option<usize>,
    new_file: bool,
    threads: Vec<Vec<Msg>>,
}
#[derive(Clone, Debug)]
struct Plan {
    tz: u64,
    with_file: bool,
    early: Vec<Msg>,
    /// short messages logged in one go before there is a file
    burst: usize,
    phases: Vec<Phase>,
    max: usize,
    console: bool,
    late: Vec<Msg>,
    /// the instant the process takes it to be
    clock: Option<u64>,
    /// minutes the local zone is ahead of UTC
    local: i64,
}
fn msg(src: &mut Src, big: bool) -> Msg {
    let kind = if src.chance(1, 12) { 5 } else { src.draw(5) };
    let level = src.usize(1, 5);
    let payload = match src.draw(8) {
        0 => String::new(),
        1 => "line\nbreak \"quoted\" \\ back\tslash".into(),
        2 => "한국거래소 ☂ {} {{}}".into(),
        3 if big => "x".repeat(src.usize(10_000, 200_000)),
        4 => "\u{0}\u{1}control\r\n".into(),
        _ => format!("p{}", src.draw(1000)),
    };
    let pause = if src.chance(1, 20) { src.draw(3000) } else { 0 };
    Msg { kind, level, payload, pause }
}
fn plan(src: &mut Src) -> Plan {
    let big = src.chance(1, 6);
    let max = src.usize(0, 5);
    let tz = src.draw(4);
    let console = src.chance(1, 4);
    let early = (0..src.draw(4)).map(|_| msg(src, false)).collect();
    let mut phases = vec![];
    for k in 0..src.usize(1, 3) {
        let level = if k > 0 && src.bool() { Some(src.usize(0, 5)) } else { None };
        let new_file = k > 0 && src.chance(1, 3);
        let nt = src.usize(1, 4);
        let avg = *src.pick(&[3u64, 20, 80]);
        let mut threads = vec![];
        for _ in 0..nt {
            let mut n = 0;
            let mut v = vec![];
            while src.more(&mut n, avg, 400) {
                v.push(msg(src, big));
            }
            threads.push(v);
        }
        phases.push(Phase { level, new_file, threads });
    }
    // messages logged once shutdown is complete: neither recorded nor harmful to the caller
    let burst = if src.chance(1, 150) { src.usize(20_000, 150_000) } else { 0 };
    let late = if src.chance(1, 3) { (0..src.usize(1, 4)).map(|_| msg(src, false)).collect() } else { vec![] };
    let clock = if src.bool() { Some(crate::clock::instant(src)) } else { None };
    let local = match src.draw(3) {
        0 => 0,
        1 => src.int(-12, 14) * 60,
        _ => *src.pick(&[-570, -210, 210, 330, 345, 570, 825]),
    };
    Plan { tz, with_file: true, early, burst, phases, max, console, late, clock, local }
}
fn level(l: usize) -> LogLevel {
    LogLevel::from_usize(l).unwrap()
}
#[derive(Clone, serde::Serialize)]
struct Rec {
    who: String,
    seq: usize,
    payload: String,
}

fn emit(who: &str, seq: usize, m: &Msg) {
    use trading_engine::*;
    if m.pause > 0 {
        std::thread::sleep(std::time::Duration::from_micros(m.pause));
    }
    let p = m.payload.clone();
    let w = who.to_string();
    let r = Rec { who: w.clone(), seq, payload: p.clone() };
    match (m.kind, m.level) {
        (0, 1) => error!("{}|{}|{}", w, seq, p),
        (0, 2) => warn!("{}|{}|{}", w, seq, p),
        (0, 3) => info!("{}|{}|{}", w, seq, p),
        (0, 4) => debug!("{}|{}|{}", w, seq, p),
        (0, _) => trace!("{}|{}|{}", w, seq, p),
        (1, 1) => log_error!("topic", who = w, seq = seq, payload = p),
        (1, 2) => log_warn!("topic", who = w, seq = seq, payload = p),
        (1, 3) => log_info!("topic", who = w, seq = seq, payload = p),
        (1, 4) => log_debug!("topic", who = w, seq = seq, payload = p),
        (1, _) => log_trace!("topic", who = w, seq = seq, payload = p),
        (2, 1) => log_error!("topic", r.clone()),
        (2, 2) => log_warn!("topic", r.clone()),
        (2, 3) => log_info!("topic", r.clone()),
        (2, 4) => log_debug!("topic", r.clone()),
        (2, _) => log_trace!("topic", r.clone()),
        (3, 1) => flushing_log_error!("topic", who = w, seq = seq, payload = p),
        (3, 2) => log_warn!("topic", who = w, seq = seq, payload = p),
        (3, 3) => flushing_log_info!("topic", who = w, seq = seq, payload = p),
        (3, 4) => flushing_log_debug!("topic", who = w, seq = seq, payload = p),
        (5, _) => drop(LOG_SENDER.send(LogMessage::StaticString(Box::leak(format!("{}\n", serde_json::json!({"topic": "line", "level": NAMES[m.level], "data": r})).into_boxed_str())))),
        (3, _) => flushing_log_trace!("topic", who = w, seq = seq, payload = p),
        (_, 1) => flushing_log_error!("topic", r.clone()),
        (_, 2) => log_warn!("topic", r.clone()),
        (_, 3) => flushing_log_info!("topic", r.clone()),
        (_, 4) => flushing_log_debug!("topic", r.clone()),
        (_, _) => flushing_log_trace!("topic", r.clone()),
    }
}

/// te --i05-child <dir>: dir/draws holds the case
pub fn child(dir: &str) {
    let d = std::fs::read_to_string(format!("{dir}/draws")).expect("draws");
    let p = plan(&mut Src::replay(d.split_whitespace().map(|x| x.parse().unwrap()).collect()));
    // the zone first: nothing else runs in this process yet
    std::env::set_var("TZ", format!("VFZ{}{}:{:02}", if p.local > 0 { "-" } else { "+" }, p.local.abs() / 60, p.local.abs() % 60));
    if let Some(n) = p.clock {
        crate::clock::set(n);
    }
    let tz = match p.tz {
        0 => TimeZone::Local,
        1 => TimeZone::Seoul,
        2 => TimeZone::Japan,
        _ => TimeZone::NewYork,
    };
    let logger = Logger::initialize()
        .with_max_log_level(level(p.max))
        .with_timezone(tz)
        .with_console_report(p.console);
    for (i, m) in p.early.iter().enumerate() {
        emit("early", i, m);
    }
    let short = Msg { kind: 0, level: 1, payload: String::new(), pause: 0 };
    for i in 0..p.burst {
        emit("burst", i, &short);
    }
    let guard: LoggerGuard = logger.with_file(&format!("{dir}/logs"), "case").unwrap().launch();
    for (k, ph) in p.phases.iter().enumerate() {
        if let Some(l) = ph.level {
            let _ = Logger::initialize().with_max_log_level(level(l));
        }
        if ph.new_file {
            LOG_SENDER.send(LogMessage::SetFile(format!("{dir}/logs/{k}.log").into())).unwrap();
        }
        let bar = Arc::new(Barrier::new(ph.threads.len()));
        let hs: Vec<_> = ph
            .threads
            .iter()
            .cloned()
            .enumerate()
            .map(|(t, v)| {
                let bar = bar.clone();
                std::thread::spawn(move || {
                    bar.wait();
                    for (i, m) in v.iter().enumerate() {
                        emit(&format!("{k}.{t}"), i, m);
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
    }
    drop(guard);
    for (i, m) in p.late.iter().enumerate() {
        emit("late", i, m);
    }
}

static N: AtomicU64 = AtomicU64::new(0);
struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// the messages of one thread that pass the severity in force, in order
fn expected(p: &Plan) -> (HashMap<String, Vec<(usize, Msg)>>, usize) {
    let mut m: HashMap<String, Vec<(usize, Msg)>> = HashMap::new();
    let mut lv = p.max;
    let mut put = |who: String, v: &Vec<Msg>, lv: usize| {
        let e: Vec<(usize, Msg)> = v.iter().cloned().enumerate().filter(|(_, x)| x.level <= lv || x.kind == 5).collect();
        if !e.is_empty() {
            m.insert(who, e);
        }
    };
    put("early".into(), &p.early, lv);
    put("burst".into(), &vec![Msg { kind: 0, level: 1, payload: String::new(), pause: 0 }; p.burst], lv);
    for (k, ph) in p.phases.iter().enumerate() {
        lv = ph.level.unwrap_or(lv);
        for (t, v) in ph.threads.iter().enumerate() {
            put(format!("{k}.{t}"), v, lv);
        }
    }
    (m, lv)
}
const NAMES: [&str; 6] = ["Nil", "Error", "Warn", "Info", "Debug", "Trace"];

fn now() -> f64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64()
}
/// seconds since the epoch of a "YYYY-MM-DD"/"HH:MM:SS.frac" pair (digits only are looked at)
fn instant(date: &str, time: &str) -> Option<f64> {
    let d: String = date.chars().filter(|c| c.is_ascii_digit()).collect();
    let (y, m, dd) = (d.get(0..4)?.parse::<i32>().ok()?, d.get(4..6)?.parse::<u8>().ok()?, d.get(6..8)?.parse::<u8>().ok()?);
    let date = time::Date::from_calendar_date(y, time::Month::try_from(m).ok()?, dd).ok()?;
    let days = (date - time::macros::date!(1970 - 01 - 01)).whole_days();
    let t: String = time.chars().filter(|c| c.is_ascii_digit()).collect();
    let (h, mi, s) = (t.get(0..2)?.parse::<f64>().ok()?, t.get(2..4)?.parse::<f64>().ok()?, t.get(4..6)?.parse::<f64>().ok()?);
    let frac = if t.len() > 6 { format!("0.{}", &t[6..]).parse::<f64>().ok()? } else { 0.0 };
    Some(days as f64 * 86400.0 + h * 3600.0 + mi * 60.0 + s + frac)
}

fn logger(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = plan(src);
    let dir = format!("{}/i05-{}-{}", std::env::temp_dir().display(), std::process::id(), N.fetch_add(1, Ordering::SeqCst));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let _s = Scratch(dir.clone());
    let mut f = std::fs::File::create(format!("{dir}/draws")).expect("scratch");
    f.write_all(src.draws.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ").as_bytes()).expect("scratch");
    drop(f);
    let (exp, last_level) = expected(&p);
    let total: usize = exp.values().map(|v| v.len()).sum();
    let sent: usize = p.early.len() + p.burst + p.phases.iter().map(|x| x.threads.iter().map(|t| t.len()).sum::<usize>()).sum::<usize>();
    let brief = |m: &Msg| (m.kind, m.level, m.payload.chars().take(12).collect::<String>());
    ctx.note(format!(
        "severity {} zone {} local {:+} min clock {:?} {} messages sent, {} pass; early {:?} and {} short ones; {}; late {:?}",
        NAMES[p.max],
        p.tz,
        p.local,
        p.clock,
        sent,
        total,
        p.early.iter().map(brief).collect::<Vec<_>>(),
        p.burst,
        p.phases
            .iter()
            .map(|x| format!("[severity {:?} new file {} threads {:?}]", x.level, x.new_file, x.threads.iter().map(|t| t.iter().take(6).map(brief).collect::<Vec<_>>()).collect::<Vec<_>>()))
            .collect::<Vec<_>>()
            .join(" "),
        p.late.iter().map(brief).collect::<Vec<_>>()
    ));
    let t0 = now();
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--i05-child", &dir])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("spawn");
    let st = loop {
        match ch.try_wait().expect("wait") {
            Some(st) => break st,
            None if now() - t0 > 60.0 => {
                let _ = ch.kill();
                let _ = ch.wait();
                fail!("the logging process did not shut down within 60 s");
            }
            None => std::thread::sleep(std::time::Duration::from_micros(500)),
        }
    };
    let t1 = now();
    let (t0, t1) = match p.clock {
        Some(n) => (n as f64 / 1e9, n as f64 / 1e9 + (t1 - t0)),
        None => (t0, t1),
    };
    if !st.success() {
        let mut e = String::new();
        use std::io::Read;
        let _ = ch.stderr.take().unwrap().read_to_string(&mut e);
        fail!("the logging process failed ({st}): {}", e.chars().take(400).collect::<String>());
    }
    // main file first, switched files in order
    let mut files: Vec<String> = vec![];
    for e in std::fs::read_dir(format!("{dir}/logs")).expect("log directory") {
        files.push(e.unwrap().file_name().into_string().unwrap());
    }
    files.sort_by_key(|n| if n.starts_with("case-") { (0, n.clone()) } else { (1, n.clone()) });
    let nfiles = 1 + p.phases.iter().filter(|x| x.new_file).count();
    ensure_eq!(files.len(), nfiles, "log files {files:?}");
    // the first file is named after the local time of its opening
    let stamp: String = files[0].trim_start_matches("case-").trim_end_matches(".log").to_string();
    let Some(named) = stamp.split_once('-').and_then(|(d, h)| instant(d, h)) else { fail!("log file {}", files[0]) };
    let named = named - p.local as f64 * 60.0;
    ensure!(named >= t0 - 1.01 && named <= t1 + 0.01, "the file {} is opened between {t0} and {t1}, {:+} minutes from UTC", files[0], p.local);
    let mut got: HashMap<String, Vec<(usize, String, String)>> = HashMap::new();
    let mut guards = 0;
    let mut lines = 0;
    let off = match p.tz {
        0 => p.local as i32 / 60,
        1 | 2 => 9,
        _ => -4,
    };
    for fname in &files {
        let txt = std::fs::read(format!("{dir}/logs/{fname}")).expect("log file");
        let Ok(txt) = String::from_utf8(txt) else { fail!("{fname} is not text") };
        ensure!(txt.is_empty() || txt.ends_with('\n'), "{fname} ends in the middle of a record");
        for line in txt.split_terminator('\n') {
            lines += 1;
            let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { fail!("not a well-formed record: {:?}", line.chars().take(200).collect::<String>()) };
            ensure_eq!(guards, 0, "records after the last one of the logger itself");
            let s = |k: &str| v[k].as_str().map(|x| x.to_string()).ok_or_else(|| Stop::Fail(format!("record without {k}: {line}")));
            let (lv, topic) = (s("level")?, s("topic")?);
            if topic == "line" {
                let d = &v["data"];
                let (Some(w), Some(q), Some(y)) = (d["who"].as_str(), d["seq"].as_u64(), d["payload"].as_str()) else { fail!("record {line}") };
                got.entry(w.into()).or_default().push((q as usize, lv, y.into()));
                continue;
            }
            ensure_eq!(v["offset"].as_i64(), Some(off as i64), "offset of {}", line.chars().take(200).collect::<String>());
            let Some(t) = instant(&s("date")?, &s("time")?) else { fail!("date or time unreadable: {line}") };
            let t = t - off as f64 * 3600.0;
            ensure!(t >= t0 - 0.01 && t <= t1 + 0.01, "time {t} of a record is not between {t0} and {t1}");
            ensure!(s("src")?.contains(".rs:"), "no source position in {line}");
            let d = &v["data"];
            if topic == "logger" {
                ensure!(lv == "Trace" && d["message"] == "LoggerGuard is dropped", "unexpected record {line}");
                guards += 1;
                continue;
            }
            let (who, seq, payload) = if topic == "not given" {
                let t = d["text"].as_str().must("text of a plain message")?;
                let mut it = t.splitn(3, '|');
                let (Some(a), Some(b), Some(c)) = (it.next(), it.next(), it.next()) else { fail!("text {t:?}") };
                (a.to_string(), b.parse::<usize>().must("number")?, c.to_string())
            } else {
                ensure_eq!(topic, "topic", "topic");
                (
                    d["who"].as_str().must("who")?.to_string(),
                    d["seq"].as_u64().must("seq")? as usize,
                    d["payload"].as_str().must("payload")?.to_string(),
                )
            };
            got.entry(who).or_default().push((seq, lv, payload));
        }
    }
    for (who, e) in &exp {
        let g = got.remove(who).unwrap_or_default();
        let gs: Vec<(usize, &str)> = g.iter().map(|x| (x.0, x.1.as_str())).collect();
        let es: Vec<(usize, &str)> = e.iter().map(|x| (x.0, NAMES[x.1.level])).collect();
        ensure_eq!(gs, es, "messages (number, severity) of thread {who}");
        for (a, b) in g.iter().zip(e) {
            ensure!(a.2 == b.1.payload, "payload of message {} of {who}: observed {:?}, sent {:?}", a.0, a.2.chars().take(80).collect::<String>(), b.1.payload.chars().take(80).collect::<String>());
        }
    }
    ensure!(got.is_empty(), "records never sent or below the severity: {:?}", got.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>());
    ensure_eq!(guards, (last_level == 5) as usize, "shutdown records");
    ensure_eq!(lines, total + guards, "records in all files");
    ctx.nontrivial(total > 0 && total < sent);
    Ok(())
}

/// severities order and convert as numbered
fn levels(src: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b) = (src.usize(0, 7), src.usize(0, 5));
    ctx.note(format!("{a} {b}"));
    ctx.nontrivial(a != b);
    ensure_eq!(LogLevel::from_usize(a).is_ok(), a <= 5, "severity number {a} accepted");
    if a <= 5 {
        ensure_eq!(level(a).as_usize(), a, "severity number");
        ensure_eq!(level(a) <= level(b), a <= b, "order of {a} and {b}");
        ensure_eq!(level(a).to_string(), NAMES[a], "name of {a}");
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "I05",
        facets: vec![
            facet("logger", "some but not all messages pass the severity", 1200, 36000, logger),
            facet("levels", "two different severities", 500, 15000, levels),
        ],
        assumptions: &["messages are sent before the logger is shut down", "thread schedules are those the operating system happens to produce", "the log directory is writable"],
    }]
}
