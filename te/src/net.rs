//! X01 UDP messages, N02 clocks.
use std::net::{SocketAddr, UdpSocket};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use trading_engine::communication::udp_client::UdpClient;
use vf::*;

fn text(src: &mut Src, max: usize) -> String {
    let n = match src.draw(6) {
        0 => 0,
        1 => max,
        2 => max - src.usize(0, 3),
        3 => src.usize(0, max),
        _ => src.usize(0, 40),
    };
    let k = src.draw(4);
    let mut x = src.u64();
    let mut s = String::new();
    loop {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (x >> 40) as u32;
        let c = match k {
            0 => char::from_u32(32 + r % 95).unwrap(),
            1 => char::from_u32(r % 128).unwrap(),
            2 => char::from_u32(0xac00 + r % 11000).unwrap(),
            _ => char::from_u32(r % 0x10ffff).unwrap_or('x'),
        };
        if s.len() + c.len_utf8() > n {
            break;
        }
        s.push(c);
    }
    while s.len() < n {
        s.push('.');
    }
    s
}
/// a client on a port nobody else has
fn client() -> Option<(UdpClient, SocketAddr)> {
    for _ in 0..20 {
        let a = UdpSocket::bind("127.0.0.1:0").ok()?.local_addr().ok()?;
        if let Ok(c) = UdpClient::new(a) {
            return Some((c, a));
        }
    }
    None
}
thread_local! {
    static CLIENT: std::cell::RefCell<Option<(UdpClient, SocketAddr)>> = const { std::cell::RefCell::new(None) };
}
fn udp(src: &mut Src, ctx: &mut Ctx) -> R {
    let Ok(server) = UdpSocket::bind("127.0.0.1:0") else { return discard() };
    server.set_read_timeout(Some(Duration::from_secs(20))).ok();
    let Ok(addr) = server.local_addr() else { return discard() };
    let kept = CLIENT.with(|c| c.borrow_mut().take());
    let Some((c, ca)) = kept.or_else(client) else { return discard() };
    // a response that never comes back is replaced after a while, so that the case ends
    let (_alive, gone) = std::sync::mpsc::channel::<()>();
    std::thread::spawn(move || {
        while let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = gone.recv_timeout(Duration::from_secs(10)) {
            if let Ok(s) = UdpSocket::bind("127.0.0.1:0") {
                s.send_to(b"\0nothing arrived for ten seconds", ca).ok();
            }
        }
    });
    let n = src.usize(1, 6);
    let (mut sent, mut got) = (0, 0);
    let mut waiting: Vec<String> = vec![];
    for _ in 0..n {
        if src.bool() {
            let m = text(src, 8000);
            ctx.note(format!("> {} bytes", m.len()));
            c.send_message(addr, &m).must("send a message")?;
            let mut b = vec![0u8; 65536];
            let (k, from) = server.recv_from(&mut b).must("the message arrives")?;
            ensure!(&b[..k] == m.as_bytes(), "sent {} bytes, {k} other bytes arrived", m.len());
            ensure_eq!(from, ca, "sender of a message");
            sent += (m.len() > 0) as usize;
        } else {
            for _ in 0..src.usize(1, 3) {
                let m = text(src, 1024);
                ctx.note(format!("< {} bytes", m.len()));
                server.send_to(m.as_bytes(), ca).must("server sends")?;
                waiting.push(m);
            }
            for m in waiting.drain(..) {
                let r = c.receive_response().must("receive a response")?;
                ensure!(r == m, "a response of {} bytes arrives as {} bytes{}", m.len(), r.len(), if r.len() == m.len() { " with another content" } else { "" });
                got += (m.len() > 0) as usize;
            }
        }
    }
    ctx.nontrivial(sent > 0 && got > 0);
    CLIENT.with(|k| *k.borrow_mut() = Some((c, ca)));
    Ok(())
}

const SLACK: u64 = 20_000_000_000;
fn system() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0)
}
fn clocks(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.usize(1, 4);
    let scripts: Vec<Vec<(bool, u64)>> = (0..n).map(|_| (0..src.usize(2, 12)).map(|_| (src.bool(), src.draw(4))).collect()).collect();
    ctx.note(format!("{scripts:?}"));
    ctx.nontrivial(n > 1);
    let hs: Vec<_> = scripts
        .into_iter()
        .map(|s| {
            std::thread::spawn(move || -> Result<Vec<u64>, String> {
                let mut last = [0u64; 2];
                let mut seen = vec![];
                for (local, pause) in s {
                    match pause {
                        0 => {}
                        1 => std::thread::yield_now(),
                        k => std::thread::sleep(Duration::from_micros(k * 30)),
                    }
                    let before = system();
                    let t = if local { trading_engine::utils::timer::get_thread_local_unix_nano() } else { trading_engine::get_unix_nano() };
                    let after = system();
                    if t < last[local as usize] {
                        return Err(format!("the {} clock went back from {} to {t}", if local { "thread's" } else { "common" }, last[local as usize]));
                    }
                    last[local as usize] = t;
                    if t + SLACK < before || t > after + SLACK {
                        return Err(format!("the {} clock shows {t} between {before} and {after} of the system", if local { "thread's" } else { "common" }));
                    }
                    if !local {
                        seen.push(t);
                    }
                }
                Ok(seen)
            })
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        match h.join() {
            Ok(Ok(v)) => all.extend(v),
            Ok(Err(m)) => fail!("{m}"),
            Err(_) => fail!("reading a clock panicked"),
        }
    }
    // everything the threads read lies before what is read now
    let now = trading_engine::get_unix_nano();
    let max = all.iter().max().copied().unwrap_or(0);
    ensure!(max <= now + 1_000_000, "a thread read {max} before {now} was read here");
    // elapsed time agrees with the system's
    let (a, i) = (trading_engine::get_unix_nano(), std::time::Instant::now());
    std::thread::sleep(Duration::from_millis(if src.chance(1, 20) { 15 } else { 0 }));
    let (e, b) = (i.elapsed().as_nanos() as u64, trading_engine::get_unix_nano());
    ensure!(b >= a && b - a + 1_000_000 + e / 10 >= e, "{} ns elapsed on the clock while {e} ns passed", b.wrapping_sub(a));
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property { id: "X01", facets: vec![facet("udp", "non-empty messages in both directions", 20_000, 600_000, udp)], assumptions: &["loopback; messages up to 8000 bytes, responses up to 1024 bytes"] },
        Property { id: "N02", facets: vec![facet("clocks", "two or more threads", 3_000, 90_000, clocks), facet("set clocks", crate::clock::RULE, 1_500, 45_000, crate::clock::case)], assumptions: &["clocks: the sandbox's clock is not set during a run; set clocks: a child process whose system clock is the test's"] },
    ]
}
