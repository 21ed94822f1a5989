//! I01, I02: identifiers against the plain texts they were made from.
use std::collections::HashMap;
use std::sync::{Arc, Barrier};
use trading_engine::types::id::isin_code::IsinCode;
use trading_engine::types::id::ticker::Ticker;
use trading_engine::types::id::{IdData, InstId, Symbol};
use trading_engine::types::venue::Venue;
use vf::*;

const VENUES: [Venue; 5] = [Venue::KRX, Venue::Undefined, Venue::CCP, Venue::KIS, Venue::SI];

/// (is_isin, text, venue)
type Spec = (bool, String, usize);

fn spec(src: &mut Src) -> Spec {
    let isin = src.bool();
    // a small family of near-identical texts, now and then a rarely seen one
    let base = *src.pick(&["KR7005930003", "KR7005930004", "KR4101V30008", "KR7005930003"]);
    let mut t = match src.draw(8) {
        0 => String::from_utf8(base.bytes().rev().collect()).unwrap(),
        1 => base.to_lowercase(),
        2 => format!("KR70{:08}", src.draw(300)),
        3 => format!("US0{:09}", src.draw(100)),
        _ => base.to_string(),
    };
    if !isin {
        let n = src.usize(0, 12);
        match src.draw(5) {
            // tickers that agree in all but the last of their places
            4 => {
                let k = src.usize(20, 31);
                t = format!("{:Z<k$}{}", t, *src.pick(&["1", "2", ""]));
            }
            0 => t.truncate(n),
            1 => t.push_str(&"XYZ0"[..src.usize(0, 4)]),
            _ => {}
        }
    }
    (isin, t, src.draw(5) as usize)
}
fn symbol(s: &Spec) -> R<Symbol> {
    Ok(if s.0 { Symbol::Isin(IsinCode::new(s.1.as_bytes()).must("valid isin")?) } else { Symbol::Ticker(Ticker::new(s.1.as_bytes()).must("valid ticker")?) })
}
fn json_of(s: &Spec) -> String {
    let v = VENUES[s.2].as_str();
    if s.0 {
        format!("{{\"symbol\":{{\"Isin\":{{\"isin\":{:?}}}}},\"venue\":\"{v}\"}}", s.1.as_bytes())
    } else {
        let mut b = s.1.as_bytes().to_vec();
        b.resize(32, 0);
        format!("{{\"symbol\":{{\"Ticker\":{{\"ticker\":{b:?}}}}},\"venue\":\"{v}\"}}")
    }
}

/// threads create identifiers (directly or by reading them back) in their own orders
fn interning(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.usize(2, 10);
    let specs: Vec<Spec> = (0..n).map(|_| spec(src)).collect();
    let threads = src.usize(1, 4);
    let mut plans: Vec<Vec<(usize, bool)>> = vec![];
    for _ in 0..threads {
        let mut p: Vec<(usize, bool)> = (0..n).map(|i| (i, src.chance(1, 3))).collect();
        src.shuffle(&mut p);
        plans.push(p);
    }
    ctx.note(format!("{specs:?} plans {plans:?}"));
    let bar = Arc::new(Barrier::new(threads));
    let specs = Arc::new(specs);
    let mut hs = vec![];
    for p in plans {
        let (bar, specs) = (bar.clone(), specs.clone());
        hs.push(std::thread::spawn(move || -> Result<Vec<(usize, InstId)>, String> {
            let syms: Vec<Symbol> = p.iter().map(|&(i, _)| symbol(&specs[i]).map_err(|_| "symbol refused".to_string())).collect::<Result<_, _>>()?;
            bar.wait();
            let mut out = vec![];
            for (&(i, read), sym) in p.iter().zip(syms) {
                let id = if read {
                    serde_json::from_str(&json_of(&specs[i])).map_err(|e| format!("deserialising {}: {e}", json_of(&specs[i])))?
                } else {
                    InstId::new(sym, VENUES[specs[i].2])
                };
                out.push((i, id));
            }
            Ok(out)
        }));
    }
    let mut all: Vec<(usize, InstId)> = vec![];
    for h in hs {
        match h.join() {
            Ok(Ok(v)) => all.extend(v),
            Ok(Err(m)) => fail!("{m}"),
            Err(_) => fail!("a creating thread panicked"),
        }
    }
    let mut map: HashMap<InstId, usize> = HashMap::new();
    let first = |s: &Spec| specs.iter().position(|x| x == s).unwrap();
    for (i, id) in &all {
        let s = &specs[*i];
        ensure_eq!(id.symbol_str(), s.1.as_str(), "text of {s:?}");
        ensure_eq!(id.venue(), VENUES[s.2], "venue of {s:?}");
        let data = IdData { symbol: symbol(s)?, venue: VENUES[s.2] };
        ensure_eq!(*id.get_id(), data, "content of {s:?}");
        ensure_eq!(id.get_id_clone(), data, "copied content of {s:?}");
        ensure_eq!(hash_of(id), hash_of(&data), "hash of {s:?} against its content");
        let f = first(s);
        let e = *map.entry(*id).or_insert(f);
        ensure_eq!(e, f, "map entry found under {s:?}");
    }
    let mut distinct: Vec<&Spec> = specs.iter().collect();
    distinct.sort();
    distinct.dedup();
    ensure_eq!(map.len(), distinct.len(), "number of distinct identifiers");
    for (i, a) in &all {
        for (j, b) in &all {
            let same = specs[*i] == specs[*j];
            ensure!((a == b) == same, "{:?} and {:?}: equality is {}", specs[*i], specs[*j], a == b);
            if same {
                ensure_eq!(hash_of(a), hash_of(b), "hashes of equal identifiers {:?}", specs[*i]);
            }
        }
    }
    for (i, a) in all.iter().take(4) {
        let js = serde_json::to_string(a).must("serialise")?;
        let back: InstId = serde_json::from_str(&js).must("deserialise")?;
        ensure!(back == *a, "{:?} is a different identifier after a round trip", specs[*i]);
        ensure_eq!(back.symbol_str(), specs[*i].1.as_str(), "text after a round trip");
    }
    let d = InstId::default();
    ensure!(d == InstId::new(Symbol::default(), Venue::default()), "default identifier is not the one of the default symbol and venue");
    ctx.nontrivial(threads > 1 && distinct.len() > 1 && distinct.len() < all.len());
    Ok(())
}

fn text(src: &mut Src, around: usize) -> Vec<u8> {
    let n = match src.draw(6) {
        0 => src.usize(0, 40),
        1 => around + 1,
        2 => around.saturating_sub(1),
        _ => around,
    };
    let mut b: Vec<u8> = (0..n).map(|_| *src.pick(b"KR7005930A1Zaz")).collect();
    let mut k = 0;
    while src.more(&mut k, 2, 3) {
        if b.is_empty() {
            break;
        }
        let i = src.usize(0, b.len() - 1);
        match src.draw(8) {
            0 => b[i] = b' ',
            1 => b[i] = b'\t',
            2 => b[i] = src.draw(256) as u8,
            3 => b[i] = 0x80 | src.draw(128) as u8,
            4 => b[i] = *src.pick(b"-_.#@/0"),
            5 if i + 1 < b.len() => b[i..i + 2].copy_from_slice("é".as_bytes()),
            6 if i + 2 < b.len() => b[i..i + 3].copy_from_slice("삼".as_bytes()),
            _ => b[i] = src.draw(127) as u8 + 1,
        }
    }
    b
}
fn isin(src: &mut Src, ctx: &mut Ctx) -> R {
    let b = text(src, 12);
    ctx.note(format!("{:?}", String::from_utf8_lossy(&b)));
    let valid = b.len() == 12 && b.iter().all(|&c| c < 128 && c != b' ' && c != b'\t');
    let got = IsinCode::new(&b);
    ensure_eq!(got.is_ok(), valid, "accepts {b:?}");
    // the same rule applies to codes read back
    let js = format!("{{\"isin\":{b:?}}}");
    let read: Result<IsinCode, _> = serde_json::from_str(&js);
    ensure_eq!(read.is_ok(), valid, "reads {js}");
    ctx.nontrivial(b.len() == 12 || valid);
    let Ok(c) = got else { return Ok(()) };
    let s = std::str::from_utf8(&b).unwrap();
    ensure_eq!(c.as_str(), s, "text");
    ensure_eq!(c.as_bytes(), &b[..], "bytes");
    ensure!(c == s && s == c && c == b && b == c && c == &b[..], "comparison with its own text {s:?}");
    ensure!(c == read.unwrap(), "{s:?} read back differs");
    // a shorter or a longer text is another one, however it begins
    let mut l = b.clone();
    match src.draw(3) {
        0 => l.truncate(src.usize(0, 11)),
        _ => l.extend_from_slice(&b"3 0Z"[..src.usize(1, 4)]),
    }
    ensure!(c != l && l != c && c != &l[..], "{s:?} equals {l:?}");
    if let Ok(t) = std::str::from_utf8(&l) {
        ensure!(c != t && t != c, "{s:?} equals {t:?}");
    }
    let k = src.usize(0, 13).min(b.len());
    ensure!(c.starts_with(&b[..k]), "prefix of length {k}");
    let mut o = b.clone();
    o[src.usize(0, 11)] ^= 1 << src.draw(4);
    if o != b {
        ensure!(c != o && o != c && c != &o[..], "{s:?} equals {o:?}");
        if let Ok(t) = std::str::from_utf8(&o) {
            ensure!(c != t && t != c, "{s:?} equals {t:?}");
        }
        if let Ok(d) = IsinCode::new(&o) {
            ensure!(c != d, "{c:?} equals {d:?}");
        }
        if let Some(p) = o.iter().zip(&b).position(|(x, y)| x != y) {
            ensure!(!c.starts_with(&o[..p + 1]), "{s:?} starts with {:?}", &o[..p + 1]);
        }
    }
    let d = IsinCode::new(s.as_bytes()).must("same code again")?;
    ensure!(c == d && hash_of(&c) == hash_of(&d), "equal codes hash differently");
    let back: IsinCode = serde_json::from_str(&serde_json::to_string(&c).must("write")?).must("read back")?;
    ensure_eq!(back.as_str(), s, "text after round trip");
    Ok(())
}
fn ticker(src: &mut Src, ctx: &mut Ctx) -> R {
    let around = if src.bool() { 32 } else { src.usize(0, 32) };
    let mut b = text(src, around);
    // the zero byte is the padding, not a character of a code
    for x in b.iter_mut() {
        if *x == 0 {
            *x = b'0';
        }
    }
    ctx.note(format!("{:?}", String::from_utf8_lossy(&b)));
    let valid = b.len() <= 32 && std::str::from_utf8(&b).is_ok();
    let got = Ticker::new(&b);
    ensure_eq!(got.is_ok(), valid, "accepts {b:?}");
    if b.len() <= 32 {
        let mut p = b.clone();
        p.resize(32, 0);
        let js = format!("{{\"ticker\":{p:?}}}");
        let read: Result<Ticker, _> = serde_json::from_str(&js);
        ensure_eq!(read.is_ok(), valid, "reads {js}");
        if let Ok(t) = &read {
            ensure_eq!(t.as_str().as_bytes(), &b[..], "text read back");
        }
    }
    ctx.nontrivial(!b.is_empty() && b.len() <= 33);
    let Ok(t) = got else { return Ok(()) };
    let s = std::str::from_utf8(&b).unwrap();
    ensure_eq!(t.as_str(), s, "text");
    let u = Ticker::new(s.as_bytes()).must("same again")?;
    ensure!(t == u && hash_of(&t) == hash_of(&u), "equal tickers differ");
    let back: Ticker = serde_json::from_str(&serde_json::to_string(&t).must("write")?).must("read back")?;
    ensure!(back == t && hash_of(&back) == hash_of(&t) && back.as_str() == s, "{s:?} differs after a round trip");
    // a different text is a different ticker
    let mut o = b.clone();
    match src.draw(3) {
        0 if !o.is_empty() => {
            o.pop();
        }
        1 if o.len() < 32 => o.push(b'Q'),
        _ if !o.is_empty() => {
            let i = src.usize(0, o.len() - 1);
            o[i] ^= 1;
        }
        _ => {}
    }
    if o != b && !o.contains(&0) {
        if let Ok(d) = Ticker::new(&o) {
            ensure!(t != d, "{t:?} equals {d:?}");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "I01",
            facets: vec![
                facet("interning", "at least two threads and both equal and different identifiers", 24000, 720000, interning),
                facet("memory model", crate::mem::RULE, 16, 480, crate::mem::ids).serial(),
            ],
            assumptions: &["thread schedules are those the operating system happens to produce"],
        },
        Property {
            id: "I02",
            facets: vec![
                facet("isin", "twelve bytes long", 360000, 10800000, isin),
                facet("ticker", "1 to 33 bytes long", 360000, 10800000, ticker),
            ],
            assumptions: &["ticker texts contain no NUL characters (they are the padding)"],
        },
    ]
}
