//! I01, I03, I04 under the language's memory model: /verif/mir runs generated scripts inside the Miri interpreter, which
//! draws the thread schedule and the values the atomics may show from its seed and reports every data race it meets.
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};
use vf::*;

pub const RULE: &str = "one interpreter run over 32 generated scripts, each under a schedule and memory choices of its own, half of which or more ran to their end";
const BLOCK: u64 = 32;
static ABSENT: AtomicBool = AtomicBool::new(false);

/// well below the time after which a case counts as not ending
fn run(mode: &str, from: u64) -> Option<(bool, String)> {
    let root = std::env::var("VF_ROOT").unwrap_or_else(|_| "/verif".into());
    let log = std::env::temp_dir().join(format!("vf-mem-{}-{mode}-{from}.log", std::process::id()));
    let out = std::fs::File::create(&log).ok()?;
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "-q", "--offline", "--manifest-path", &format!("{root}/mir/Cargo.toml"), "--", mode])
        .env("CARGO_TARGET_DIR", format!("{root}/mir/target"))
        .env("MIRIFLAGS", format!("-Zmiri-many-seeds={from}..{} -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.1", from + BLOCK))
        .env_remove("RUSTFLAGS")
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("RUSTC_WRAPPER")
        .stdin(Stdio::null())
        .stdout(out.try_clone().ok()?)
        .stderr(out);
    std::os::unix::process::CommandExt::process_group(&mut c, 0);
    let mut child = c.spawn().ok()?;
    let started = Instant::now();
    let ok = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s.success(),
            Ok(None) if started.elapsed() < Duration::from_secs(60) => std::thread::sleep(Duration::from_millis(20)),
            _ => {
                let _ = Command::new("kill").args(["-9", "--", &format!("-{}", child.id())]).status();
                let _ = child.wait();
                let _ = std::fs::remove_file(&log);
                return None;
            }
        }
    };
    let text = std::fs::read(&log).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    Some((ok, text))
}

fn block(mode: &str, src: &mut Src, ctx: &mut Ctx) -> R {
    let from = src.draw(1 << 25) * BLOCK;
    if ABSENT.load(Ordering::Relaxed) {
        return discard();
    }
    let Some((ok, text)) = run(mode, from) else {
        // no interpreter, or no end within the time: nothing is said either way
        ABSENT.store(true, Ordering::Relaxed);
        return discard();
    };
    let scripts: Vec<&str> = text.lines().filter(|l| l.starts_with("script ")).collect();
    ctx.note(format!("seeds {from} to {}: {} scripts ran to their end, such as {}", from + BLOCK - 1, scripts.len(), scripts.first().unwrap_or(&"none")));
    if ok {
        ctx.nontrivial(scripts.len() as u64 * 2 >= BLOCK);
        return Ok(());
    }
    let lines: Vec<&str> = text.lines().collect();
    let bad = lines.iter().position(|l| (l.contains("Undefined Behavior:") && l.contains("Data race")) || l.contains("panicked at") || l.contains("deadlock"));
    match bad {
        Some(i) => {
            let said: Vec<&str> = lines[i..].iter().take(2).map(|l| l.trim()).collect();
            let at = lines[i..].iter().find(|l| l.trim_start().starts_with("--> ")).map(|l| l.trim()).unwrap_or("");
            fail!("{} {at}", said.join(" "))
        }
        // the interpreter itself could not run it (it does not build there, or calls what it does not support)
        None => {
            ABSENT.store(true, Ordering::Relaxed);
            discard()
        }
    }
}
pub fn queue(src: &mut Src, ctx: &mut Ctx) -> R {
    block("spin", src, ctx)
}
pub fn ids(src: &mut Src, ctx: &mut Ctx) -> R {
    block("ids", src, ctx)
}
pub fn counters(src: &mut Src, ctx: &mut Ctx) -> R {
    block("counters", src, ctx)
}
