//! I03, I04: the shared queue and the counters, step by step against a model and under real threads.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};
use trading_engine::utils::counter::*;
use vf::*;

#[derive(Clone, Debug, Default, PartialEq)]
struct Val {
    a: [u64; 8],
    text: Vec<u64>,
}
impl Val {
    fn new(x: u64) -> Val {
        Val { a: [x; 8], text: vec![x; (x % 5) as usize] }
    }
}

/// single-threaded interleavings of the public steps against a model
fn steps(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.usize(0, 6);
    let mut ids: Vec<u16> = (0..n).map(|_| src.draw(16) as u16).collect();
    let dup = ids.iter().collect::<HashSet<_>>().len() != ids.len();
    if src.chance(2, 3) {
        ids.sort();
        ids.dedup();
    }
    ctx.note(format!("workers {ids:?}"));
    let bad = src.int(16, 1000) as u16;
    ensure!(WorkerId::new(bad).is_err(), "worker number {bad} accepted");
    let mut ws = vec![];
    for &i in &ids {
        let w = WorkerId::new(i).must("worker number")?;
        ensure_eq!(w.id, i, "worker number");
        ws.push(w);
    }
    let q = DataSpinQueue::new(Val::new(0), ws.clone());
    let still_dup = ids.iter().collect::<HashSet<_>>().len() != ids.len();
    ensure_eq!(q.is_err(), still_dup, "queue with workers {ids:?} refused");
    let Ok(q) = q else {
        ctx.nontrivial(dup);
        return Ok(());
    };
    let stranger = (0..16u16).find(|i| !ids.contains(i)).map(|i| WorkerId::new(i).unwrap());
    let mut val = 0u64; // content of the buffer
    let mut todo: Vec<bool> = vec![false; ids.len()];
    let mut k = 0;
    let mut published = 0;
    let mut blocked = 0;
    while src.more(&mut k, 40, 200) {
        let pending = todo.iter().any(|&x| x);
        ensure_eq!(q.ready_to_update(), !pending, "ready to update with pending workers {todo:?} of {ids:?}");
        let p = q.get_mut();
        ensure_eq!(p.is_some(), !pending, "write access with pending workers {todo:?} of {ids:?}");
        for (i, w) in ws.iter().enumerate() {
            ensure_eq!(q.ready_to_work(w), todo[i], "worker {} is offered work ({todo:?} of {ids:?})", w.id);
            match q.get(w) {
                Some(p) => {
                    ensure!(todo[i], "worker {} gets data it has already finished", w.id);
                    ensure_eq!(unsafe { (*p).clone() }, Val::new(val), "value seen by worker {}", w.id);
                }
                None => ensure!(!todo[i], "worker {} does not get the published value", w.id),
            }
        }
        if let Some(s) = &stranger {
            ensure!(!q.ready_to_work(s) && q.get(s).is_none(), "unregistered worker {} is offered work", s.id);
        }
        match src.weighted(&[3, 5, 1]) {
            0 => {
                if let Some(p) = p {
                    val += 1;
                    unsafe { *p = Val::new(val) };
                    if src.chance(7, 8) {
                        q.notify_all_workers();
                        published += 1;
                        todo.iter_mut().for_each(|x| *x = true);
                    }
                } else {
                    blocked += 1;
                }
            }
            1 if !ws.is_empty() => {
                let i = src.usize(0, ws.len() - 1);
                // also a second report by the same worker, which changes nothing
                q.work_done(&ws[i]);
                todo[i] = false;
            }
            _ => {
                if let Some(s) = &stranger {
                    q.work_done(s);
                }
            }
        }
    }
    ctx.note(format!("workers {ids:?}, {published} published, {blocked} refused accesses"));
    ctx.nontrivial(ids.len() > 1 && published > 1 && blocked > 0);
    Ok(())
}

fn spin_wait(n: &mut u32, kind: u64) {
    *n = n.wrapping_add(1);
    match kind {
        0 => std::hint::spin_loop(),
        1 => std::thread::yield_now(),
        _ => {
            if *n % 64 == 0 {
                std::thread::yield_now()
            } else {
                std::hint::spin_loop()
            }
        }
    }
}
/// one publisher thread, one thread per worker
fn threads(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut ids: Vec<u16> = (0..src.usize(1, 5)).map(|_| src.draw(16) as u16).collect();
    ids.sort();
    ids.dedup();
    let n = src.int(1, if ctx.thorough { 400 } else { 120 }) as u64;
    let kinds: Vec<u64> = ids.iter().map(|_| src.draw(3)).collect();
    let pk = src.draw(3);
    let slow: Vec<u64> = ids.iter().map(|_| src.draw(40)).collect();
    ctx.note(format!("workers {ids:?}, {n} values, waiting {kinds:?}/{pk}, delays {slow:?}"));
    let ws: Vec<WorkerId> = ids.iter().map(|&i| WorkerId::new(i).unwrap()).collect();
    let q = Arc::new(DataSpinQueue::new(Val::new(0), ws.clone()).must("queue")?);
    let bar = Arc::new(Barrier::new(ids.len() + 1));
    let dead = Instant::now() + Duration::from_secs(20);
    let giveup = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for (t, w) in ws.iter().enumerate() {
        let (q, w, bar, kind, slow, giveup) = (q.clone(), w.clone(), bar.clone(), kinds[t], slow[t], giveup.clone());
        hs.push(std::thread::spawn(move || -> Result<Vec<u64>, String> {
            bar.wait();
            let mut seen = vec![];
            let mut c = 0;
            while (seen.len() as u64) < n {
                if let Some(p) = q.get(&w) {
                    let v1 = unsafe { (*p).clone() };
                    for _ in 0..slow {
                        std::hint::spin_loop();
                    }
                    let v2 = unsafe { (*p).clone() };
                    if v1 != v2 {
                        giveup.store(true, Ordering::SeqCst);
                        return Err(format!("worker {}: the value changed while being worked on: {v1:?} then {v2:?}", w.id));
                    }
                    if v1 != Val::new(v1.a[0]) {
                        giveup.store(true, Ordering::SeqCst);
                        return Err(format!("worker {}: torn value {v1:?}", w.id));
                    }
                    seen.push(v1.a[0]);
                    q.work_done(&w);
                } else {
                    spin_wait(&mut c, kind);
                    if c % 4096 == 0 && (Instant::now() > dead || giveup.load(Ordering::SeqCst)) {
                        return Err(format!("worker {} stuck after {} of {n} values", w.id, seen.len()));
                    }
                }
            }
            if q.get(&w).is_some() {
                return Err(format!("worker {}: more values than were published", w.id));
            }
            Ok(seen)
        }));
    }
    let publisher = {
        let (q, bar, giveup) = (q.clone(), bar.clone(), giveup.clone());
        std::thread::spawn(move || -> Result<(), String> {
            bar.wait();
            let mut c = 0;
            let mut x = 0;
            while x < n {
                if let Some(p) = q.get_mut() {
                    x += 1;
                    unsafe { *p = Val::new(x) };
                    q.notify_all_workers();
                } else {
                    spin_wait(&mut c, pk);
                    if c % 4096 == 0 && (Instant::now() > dead || giveup.load(Ordering::SeqCst)) {
                        return Err(format!("publisher stuck after {x} of {n} values"));
                    }
                }
            }
            Ok(())
        })
    };
    let want: Vec<u64> = (1..=n).collect();
    let mut err = None;
    for (h, w) in hs.into_iter().zip(&ws) {
        match h.join() {
            Ok(Ok(v)) => {
                if v != want {
                    err.get_or_insert(format!("worker {} saw {v:?}", w.id));
                }
            }
            Ok(Err(m)) => {
                if !m.contains("stuck") {
                    err = Some(m);
                } else {
                    err.get_or_insert(m);
                }
            }
            Err(_) => {
                err.get_or_insert("a worker panicked".into());
            }
        }
    }
    match publisher.join() {
        Ok(Ok(())) => {}
        Ok(Err(m)) => {
            err.get_or_insert(m);
        }
        Err(_) => {
            err.get_or_insert("the publisher panicked".into());
        }
    }
    if let Some(m) = err {
        fail!("{m}");
    }
    ensure!(q.ready_to_update(), "not ready after every worker finished");
    ctx.nontrivial(ids.len() > 1 && n > 10);
    Ok(())
}

static DROPS: AtomicU64 = AtomicU64::new(0);
#[derive(Clone, Debug, Default)]
struct Counted(#[allow(dead_code)] u8);
impl Drop for Counted {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Ordering::SeqCst);
    }
}
/// the queue owns exactly one copy of its data
fn ownership(src: &mut Src, ctx: &mut Ctx) -> R {
    let with = src.bool();
    ctx.note(format!("data given: {with}"));
    ctx.nontrivial(true);
    let before = DROPS.load(Ordering::SeqCst);
    if with {
        let d = Counted(1);
        let q = DataSpinQueue::new(d.clone(), vec![]).must("queue")?;
        drop(d);
        let mid = DROPS.load(Ordering::SeqCst);
        drop(q);
        ensure_eq!(DROPS.load(Ordering::SeqCst), mid + 1, "copies dropped with the queue");
    } else {
        let q: DataSpinQueue<Counted> = DataSpinQueue::default();
        ensure!(q.get(&WorkerId::new(0).unwrap()).is_none(), "work offered by an empty queue");
        drop(q);
        ensure_eq!(DROPS.load(Ordering::SeqCst), before, "drops of an empty queue");
    }
    Ok(())
}

enum C {
    Us(CounterUsize),
    U64(CounterU64),
    FreeUs(UnboundedCounterUsize),
    Free64(UnboundedCounterU64),
}
impl C {
    fn next(&self) -> Option<u64> {
        match self {
            C::Us(c) => c.next().ok().map(|x| x as u64),
            C::U64(c) => c.next().ok(),
            C::FreeUs(c) => Some(c.next() as u64),
            C::Free64(c) => Some(c.next()),
        }
    }
}
fn counter(src: &mut Src, ctx: &mut Ctx) -> R {
    let start = match src.draw(5) {
        0 => src.draw(3),
        1 => u64::MAX - 1 - src.draw(300),
        2 => (1u64 << src.draw(63)) - 1,
        _ => src.u64() >> 1,
    };
    let span = match src.draw(4) {
        0 => src.draw(4),
        _ => src.draw(400),
    };
    let end = start.saturating_add(span);
    let kind = src.draw(4);
    let c = Arc::new(match kind {
        0 => C::Us(CounterUsize::new(start as usize, end as usize)),
        1 => C::U64(CounterU64::new(start, end)),
        2 => C::FreeUs(UnboundedCounterUsize::new(start as usize)),
        _ => C::Free64(UnboundedCounterU64::new(start)),
    });
    let bounded = kind < 2;
    let start = if bounded { start } else { start.min(u64::MAX - 10_000) };
    let c = if bounded {
        c
    } else {
        Arc::new(if kind == 2 { C::FreeUs(UnboundedCounterUsize::new(start as usize)) } else { C::Free64(UnboundedCounterU64::new(start)) })
    };
    let threads = src.usize(1, 4);
    let draws: Vec<u64> = (0..threads).map(|_| src.draw(200)).collect();
    let rests: Vec<u64> = (0..threads).map(|_| src.draw(4)).collect();
    ctx.note(format!("kind {kind} from {start} to {end}, {draws:?} draws per thread"));
    let total: u64 = draws.iter().sum();
    let bar = Arc::new(Barrier::new(threads));
    let mut got: Vec<u64> = vec![];
    let mut refused = 0u64;
    let run = |c: &C, n: u64, rest: u64| {
        let mut v = vec![];
        for i in 0..n {
            v.push(c.next());
            if rest > 1 && i % rest == 0 {
                std::thread::yield_now();
            }
        }
        v
    };
    let mut per: Vec<Vec<Option<u64>>> = vec![];
    if threads == 1 {
        per.push(run(&c, draws[0], 0));
    } else {
        let mut hs = vec![];
        for t in 0..threads {
            let (c, bar, n, rest) = (c.clone(), bar.clone(), draws[t], rests[t]);
            hs.push(std::thread::spawn(move || {
                bar.wait();
                run(&c, n, rest)
            }));
        }
        for h in hs {
            match h.join() {
                Ok(v) => per.push(v),
                Err(_) => fail!("a drawing thread panicked"),
            }
        }
    }
    for v in &per {
        let mut last = None;
        for x in v {
            match x {
                Some(x) => {
                    ensure!(last.is_none_or(|l| l < *x), "a thread drew {x} after {last:?}");
                    last = Some(*x);
                    got.push(*x);
                }
                None => refused += 1,
            }
        }
        if let Some(i) = v.iter().position(|x| x.is_none()) {
            ensure!(v[i..].iter().all(|x| x.is_none()), "a number was handed out after the counter had refused");
        }
    }
    got.sort();
    let expect = if bounded { total.min((end - start).saturating_add(1)) } else { total };
    // the largest number of the type itself may be withheld
    let expect = if bounded && end == u64::MAX && expect == end - start + 1 && (got.len() as u64) + 1 == expect { expect - 1 } else { expect };
    let want: Vec<u64> = (0..expect).map(|i| start + i).collect();
    ensure_eq!(got, want, "numbers drawn ({total} draws)");
    ensure_eq!(refused, total - expect, "draws refused");
    if bounded && total > end - start {
        for _ in 0..4 {
            ensure_eq!(c.next(), None, "draw after exhaustion");
        }
    }
    ctx.nontrivial(threads > 1 && total > 10);
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "I03",
            facets: vec![
                facet("steps", "two or more workers, two or more published values, at least one refused access", 300000, 9000000, steps),
                facet("threads", "two or more worker threads and more than ten values", 4500, 135000, threads).serial(),
                facet("ownership", "all", 400, 12000, ownership).serial(),
                facet("memory model", crate::mem::RULE, 8, 240, crate::mem::queue).serial(),
            ],
            assumptions: &["thread schedules are those the operating system happens to produce, on this machine's memory model", "a worker stops using the value once it reports it is done, and one thread publishes"],
        },
        Property {
            id: "I04",
            facets: vec![
                facet("draws", "several threads and more than ten draws", 16000, 480000, counter),
                facet("memory model", crate::mem::RULE, 16, 480, crate::mem::counters).serial(),
            ],
            assumptions: &["the largest number of the type may be withheld", "thread schedules are those the operating system happens to produce"],
        },
    ]
}
