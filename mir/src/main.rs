//! Run under Miri (by te's I01, I03 and I04): one generated script per run. The script is drawn from the hasher keys,
//! which Miri derives from its own seed, as it does the schedule and the stale values atomics may show.
use std::hash::{BuildHasher, Hasher};
use std::sync::Arc;
use std::thread;
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};
use trading_engine::types::id::{isin_code::IsinCode, ticker::Ticker, IdData, InstId, Symbol};
use trading_engine::types::venue::Venue;
use trading_engine::utils::counter::{CounterU64, CounterUsize, UnboundedCounterU64, UnboundedCounterUsize};

struct Rng(u64);
impl Rng {
    fn new() -> Rng {
        Rng(std::collections::hash_map::RandomState::new().build_hasher().finish())
    }
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        (z ^ (z >> 31)) % n
    }
    fn fork(&mut self) -> Rng {
        Rng(self.below(u64::MAX))
    }
}

/// a value no part of which may be seen half written
#[derive(Clone, Debug, Default)]
struct Val {
    n: u64,
    text: String,
    m: u64,
}
fn spin(r: &mut Rng) {
    let rounds = 1 + r.below(4);
    let workers = 1 + r.below(3) as usize;
    let mut ids: Vec<u16> = vec![];
    while ids.len() < workers {
        let i = r.below(16) as u16;
        if !ids.contains(&i) {
            ids.push(i);
        }
    }
    let ws: Vec<WorkerId> = ids.iter().map(|i| WorkerId::new(*i).unwrap()).collect();
    let q = Arc::new(DataSpinQueue::new(Val::default(), ws.clone()).unwrap());
    let hs: Vec<_> = ws
        .into_iter()
        .map(|w| {
            let (q, mut r) = (q.clone(), r.fork());
            thread::spawn(move || {
                let mut seen = 0;
                while seen < rounds {
                    if r.below(3) == 0 && !q.ready_to_work(&w) {
                        thread::yield_now();
                        continue;
                    }
                    match q.get(&w) {
                        Some(p) => {
                            let v = unsafe { &*p };
                            seen += 1;
                            assert!(v.n == seen && v.m == seen && v.text == format!("value {seen}"), "worker {} saw {v:?} as value {seen}", w.id);
                            if r.below(2) == 0 {
                                thread::yield_now();
                            }
                            assert!(v.n == seen && v.m == seen, "the value changed while worker {} used it", w.id);
                            q.work_done(&w);
                        }
                        None => thread::yield_now(),
                    }
                }
            })
        })
        .collect();
    for k in 1..=rounds {
        loop {
            if r.below(3) == 0 && !q.ready_to_update() {
                thread::yield_now();
                continue;
            }
            if let Some(p) = q.get_mut() {
                let v = unsafe { &mut *p };
                assert!(v.n == k - 1 && v.m == k - 1, "the publisher found {v:?} before value {k}");
                v.n = k;
                v.text = format!("value {k}");
                v.m = k;
                q.notify_all_workers();
                break;
            }
            thread::yield_now();
        }
    }
    for h in hs {
        h.join().unwrap();
    }
    assert!(q.ready_to_update(), "not ready although every worker is done");
    println!("script workers {ids:?} values {rounds}");
}

fn ids(r: &mut Rng) {
    let threads = 2 + r.below(2) as usize;
    let texts = ["AAPL", "KOSPI200", "", "KR4101V30005", "KR7005930003"];
    let plans: Vec<Vec<(usize, bool, u64)>> = (0..threads).map(|_| (0..1 + r.below(3)).map(|_| (r.below(6) as usize, r.below(2) == 0, r.below(3))).collect()).collect();
    let hs: Vec<_> = plans
        .iter()
        .cloned()
        .map(|p| {
            thread::spawn(move || {
                p.iter()
                    .map(|(t, krx, how)| {
                        let symbol = match *t {
                            5 => Symbol::default(),
                            3 | 4 => Symbol::Isin(IsinCode::new(texts[*t].as_bytes()).unwrap()),
                            t => Symbol::Ticker(Ticker::new(texts[t].as_bytes()).unwrap()),
                        };
                        let venue = if *krx { Venue::KRX } else { Venue::KIS };
                        match *how {
                            0 if *t == 5 && *krx => InstId::default(),
                            1 => serde_json::from_value(serde_json::to_value(IdData { symbol, venue }).unwrap()).unwrap(),
                            _ => InstId::new(symbol, venue),
                        }
                    })
                    .collect::<Vec<InstId>>()
            })
        })
        .collect();
    let got: Vec<Vec<InstId>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let all: Vec<((usize, bool, u64), InstId)> = plans.iter().flatten().cloned().zip(got.into_iter().flatten()).collect();
    for (a, x) in &all {
        for (b, y) in &all {
            assert!(((a.0, a.1) == (b.0, b.1)) == (x == y), "{a:?} and {b:?}: equality of the identifiers");
        }
    }
    println!("script {plans:?}");
}

fn counters(r: &mut Rng) {
    let threads = 2 + r.below(2);
    let each = 1 + r.below(3);
    let (start, span, kind) = (r.below(100), r.below(8), r.below(4));
    let (a, b, c, d) = (
        Arc::new(CounterUsize::new(start as usize, (start + span) as usize)),
        Arc::new(CounterU64::new(start, start + span)),
        Arc::new(UnboundedCounterUsize::new(start as usize)),
        Arc::new(UnboundedCounterU64::new(start)),
    );
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (a, b, c, d) = (a.clone(), b.clone(), c.clone(), d.clone());
            thread::spawn(move || {
                (0..each)
                    .map(|_| match kind {
                        0 => a.next().ok().map(|x| x as u64),
                        1 => b.next().ok(),
                        2 => Some(c.next() as u64),
                        _ => Some(d.next()),
                    })
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    let mut got: Vec<u64> = hs.into_iter().flat_map(|h| h.join().unwrap()).flatten().collect();
    got.sort();
    let n = if kind < 2 { (threads * each).min(span + 1) } else { threads * each };
    assert_eq!(got, (start..start + n).collect::<Vec<_>>(), "numbers drawn by {threads} threads, {each} each");
    println!("script kind {kind} threads {threads} draws {each} from {start} span {span}");
}

fn main() {
    let mut r = Rng::new();
    match std::env::args().nth(1).as_deref() {
        Some("spin") => spin(&mut r),
        Some("ids") => ids(&mut r),
        Some("counters") => counters(&mut r),
        x => panic!("mode {x:?}"),
    }
}
