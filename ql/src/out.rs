//! E06: results as text and JSON, and what a value per unit consists of.
use crate::cal::any_time;
use crate::dates::any_date;
use crate::eng::{amount, filled, Filled};
use quantlib::pricing_engines::calculation_result::CalculationResult;
use quantlib::pricing_engines::npv_result::NpvResult;
use std::collections::{BTreeMap, HashMap};
use time::OffsetDateTime;
use vf::*;

/// a printed number: digits in groups of three, an optional fraction
fn number(t: &str) -> Option<f64> {
    let t = t.trim();
    let d = t.strip_prefix('-').unwrap_or(t);
    let (whole, part) = d.split_once('.').unwrap_or((d, ""));
    let groups: Vec<&str> = whole.split(',').collect();
    let ok = groups.iter().enumerate().all(|(i, g)| {
        (1..=3).contains(&g.len()) && (i == 0 || g.len() == 3) && g.chars().all(|c| c.is_ascii_digit())
    });
    if !ok || !part.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    t.replace(',', "").parse().ok()
}
fn shows(what: &str, t: &str, x: f32, decimals: i32) -> R {
    let n = match number(t) {
        Some(n) => n,
        None => fail!("{what}: {t:?} is not a number with thousands separated"),
    };
    let e = 0.5001 * 10f64.powi(-decimals);
    ensure!((n - x as f64).abs() <= e, "{what}: {t:?} is shown for {x}");
    Ok(())
}
/// the sections of a printed result: name, what follows on the line, the lines below
fn sections(t: &str) -> Vec<(String, String, Vec<String>)> {
    let mut v: Vec<(String, String, Vec<String>)> = vec![];
    for l in t.lines() {
        if let Some(x) = l.strip_prefix(" * ") {
            let (a, b) = x.split_once(':').unwrap_or((x, ""));
            v.push((a.trim().into(), b.trim().into(), vec![]));
        } else if let Some(x) = v.last_mut() {
            let l = l.trim();
            if !l.is_empty() && !l.chars().all(|c| c == '-' || c == '=') {
                x.2.push(l.into());
            }
        }
    }
    v
}
fn row(what: &str, t: &str, x: &[f32], decimals: i32) -> R {
    let mut v: Vec<&str> = t.split('|').map(|x| x.trim()).collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    ensure_eq!(v.len(), x.len(), "{what}: number of figures shown in {t:?}");
    for (t, x) in v.into_iter().zip(x) {
        shows(what, t, *x, decimals)?;
    }
    Ok(())
}
fn total(what: &str, t: &str, x: &[f32]) -> R {
    let n = match number(t) {
        Some(n) => n,
        None => fail!("{what}: sum {t:?} is not a number"),
    };
    let sum: f64 = x.iter().map(|x| *x as f64).sum();
    let size: f64 = x.iter().map(|x| x.abs() as f64).sum();
    ensure!((n - sum).abs() <= 0.0501 + (1e-6 + 6e-8 * x.len() as f64) * size, "{what}: sum {t:?} is shown for {x:?}");
    Ok(())
}
fn printed(s: &mut Src, c: &mut Ctx) -> R {
    let Filled { r, mut t, eval, home, unit, log, .. } = filled(s)?;
    // a matrix of several rows and columns
    let mut r = r;
    let mut matrices: BTreeMap<String, Vec<Vec<f32>>> = BTreeMap::new();
    for (k, v) in t.matrix.iter().flatten() {
        // the builder makes one row or one column
        let m = &r.get_vega_matrix().unwrap()[k];
        matrices.insert(k.clone(), if m.nrows() == v.len() { v.iter().map(|x| vec![*x]).collect() } else { vec![v.clone()] });
    }
    if s.bool() {
        let (a, b) = (crate::maths::size(s, 1, 4, 15), crate::maths::size(s, 1, 4, 15));
        let v: Vec<Vec<f32>> = (0..a).map(|_| (0..b).map(|_| amount(s)).collect()).collect();
        let m = ndarray::Array2::from_shape_vec((a, b), v.concat()).unwrap();
        r.set_single_vega_matrix(&"KOSPI2".to_string(), m);
        t.matrix.get_or_insert_default().insert("KOSPI2".into(), v.concat());
        matrices.insert("KOSPI2".into(), v);
    }
    c.note(format!("{home:?} unit {unit} set [{}] matrices {matrices:?}", log.join("; ")));
    let text = no_panic(|| format!("{r:?}")).must("printing")?;
    let sec = sections(&text);
    let find = |n: &str| -> R<Option<&(String, String, Vec<String>)>> {
        let v: Vec<_> = sec.iter().filter(|x| x.0 == n).collect();
        ensure!(v.len() <= 1, "{n} is shown {} times in {text}", v.len());
        Ok(v.into_iter().next())
    };
    let mut shown = 0;
    macro_rules! sect {
        ($n:expr, $there:expr) => {{
            let x = find($n)?;
            ensure_eq!(x.is_some(), $there, "{} is shown in {text}", $n);
            shown += x.is_some() as u32;
            x
        }};
    }
    if let (Some(x), Some(v)) = (sect!("value", t.value.is_some()), t.value) {
        shows("value", &x.1, v, 1)?;
    }
    if let (Some(x), Some(v)) = (sect!("theta", t.theta.is_some()), t.theta) {
        shows("theta", &x.1, v, 1)?;
    }
    if let (Some(x), Some(v)) = (sect!("npv_result", t.npv.is_some()), t.npv) {
        let l = x.2.iter().find_map(|l| l.strip_prefix("npv:"));
        match l {
            Some(l) => shows("npv", l, v, 1)?,
            None => fail!("no npv in {text}"),
        }
    }
    if let Some(x) = sect!("evaluation_date", true) {
        ensure!(x.1.starts_with(&eval.date().to_string()), "evaluation date {eval} is shown as {:?}", x.1);
    }
    if let (Some(x), Some(v)) = (sect!("representation_currency", t.ccy.is_some()), t.ccy) {
        ensure_eq!(x.1, v.as_str(), "representation currency");
    }
    let mut lines: BTreeMap<String, BTreeMap<String, f32>> = BTreeMap::new();
    let exp: Option<HashMap<String, f32>> = t.exposure.as_ref().map(|m| m.iter().map(|(k, v)| (k.as_str().to_string(), *v)).collect());
    let names = ["delta", "gamma", "vega", "rho", "div_delta"];
    for (n, m) in names.iter().zip(t.one.iter()).chain([(&"fx_exposure", &exp)]) {
        if let (Some(x), Some(m)) = (sect!(n, m.is_some()), m) {
            ensure_eq!(x.2.len(), m.len(), "entries of {n} in {text}");
            for l in &x.2 {
                let (k, v) = l.split_once(": ").must("an entry")?;
                match m.get(k) {
                    Some(f) => shows(&format!("{n} of {k}"), v, *f, 1)?,
                    None => fail!("{n} of {k}, which it has not, in {text}"),
                }
                lines.entry(n.to_string()).or_default().insert(k.into(), 0.0);
            }
            ensure_eq!(lines.get(*n).map_or(0, |x| x.len()), m.len(), "{n} in {text}");
        }
    }
    for (n, m) in ["vega_structure", "rho_structure", "div_structure"].iter().zip(&t.many) {
        if let (Some(x), Some(m)) = (sect!(n, m.is_some()), m) {
            ensure_eq!(x.2.len(), m.len(), "entries of {n} in {text}");
            for (k, f) in m {
                let p = format!("{k} (sum = ");
                let l = match x.2.iter().find_map(|l| l.strip_prefix(&p)) {
                    Some(l) => l,
                    None => fail!("no {n} of {k} in {text}"),
                };
                let (a, b) = l.split_once("):").must("a sum")?;
                total(&format!("{n} of {k}"), a, f)?;
                row(&format!("{n} of {k}"), b, f, 1)?;
            }
        }
    }
    if let (Some(x), true) = (sect!("vega_matrix", t.matrix.is_some()), t.matrix.is_some()) {
        let mut at: BTreeMap<String, (String, Vec<&str>)> = BTreeMap::new();
        let mut key = String::new();
        for l in &x.2 {
            if let Some((k, v)) = l.split_once(" (sum = ") {
                key = k.into();
                at.insert(key.clone(), (v.trim_end_matches(':').trim_end_matches(')').into(), vec![]));
            } else if let Some(x) = at.get_mut(&key) {
                x.1.push(l);
            }
        }
        ensure_eq!(at.len(), matrices.len(), "matrices in {text}");
        for (k, m) in &matrices {
            let (sum, rows) = at.get(k).must("its matrix")?;
            let what = format!("vega_matrix of {k}");
            total(&what, sum, &m.concat())?;
            let m: Vec<&Vec<f32>> = m.iter().filter(|r| !r.is_empty()).collect();
            ensure_eq!(rows.len(), m.len(), "rows of {what} in {text}");
            for (l, r) in rows.iter().zip(m) {
                row(&what, l, r, 0)?;
            }
        }
    }
    c.nontrivial(shown >= 7 && text.contains(','));
    // as JSON and back: everything but the dated cashflows
    let j = serde_json::to_string(&r).must("as JSON")?;
    let mut b: CalculationResult = serde_json::from_str(&j).must("from JSON")?;
    if let Some(f) = r.get_cashflows() {
        b.set_cashflows(f.clone());
    }
    ensure!(b == r, "after a round trip through JSON {b:?} is left of {r:?}");
    Ok(())
}
fn per_unit(s: &mut Src, c: &mut Ctx) -> R {
    let base = OffsetDateTime::new_in_offset(any_date(s, 2005, 2030), any_time(s), *s.pick(&[time::macros::offset!(UTC), time::macros::offset!(+9)]));
    let npv = amount(s);
    let mut amounts: HashMap<usize, (OffsetDateTime, f32)> = HashMap::new();
    let mut probs = HashMap::new();
    let mut dates = vec![base];
    let (mut shared, mut part) = (false, false);
    for i in 0..crate::maths::size(s, 0, 6, 100) {
        let d = if s.chance(1, 3) {
            shared = true;
            *s.pick(&dates)
        } else {
            let d = base + time::Duration::days(s.int(0, 900));
            dates.push(d);
            d
        };
        let id = if s.bool() { i } else { i * 7 + 3 };
        let p = *s.pick(&[0.0f32, 1.0, 0.5, 0.25, 0.875]);
        part |= p > 0.0 && p < 1.0;
        amounts.insert(id, (d, amount(s)));
        if !s.chance(1, 12) {
            probs.insert(id, (d, p));
        }
    }
    if s.chance(1, 6) {
        probs.insert(99, (base, 1.0));
    }
    let missing = amounts.keys().any(|k| !probs.contains_key(k));
    let n = NpvResult::new(npv, amounts.clone(), probs.clone());
    let y = *s.pick(&[2.0f32, -0.5, 1310.0, 1e-3]);
    let o = NpvResult::new_from_npv(y);
    let mut show: Vec<(usize, OffsetDateTime, f32, Option<f32>)> = amounts.iter().map(|(k, v)| (*k, v.0, v.1, probs.get(k).map(|x| x.1))).collect();
    show.sort_by_key(|x| x.0);
    c.note(format!("{npv} {show:?}, with {y}"));
    c.nontrivial((shared || part) && amounts.len() >= 2);
    ensure_eq!(n.get_npv(), npv, "value");
    ensure!(NpvResult::default() == NpvResult::new(0.0, HashMap::new(), HashMap::new()), "an empty value is not zero without coupons");
    ensure_eq!(*n.get_cashflow_amounts(), amounts, "amounts");
    match n.get_expected_coupon_amount() {
        Err(_) if missing => {}
        Err(e) => fail!("expected coupons are refused: {e:#}"),
        Ok(_) if missing => fail!("expected coupons although a probability is missing"),
        Ok(m) => {
            let mut want: HashMap<OffsetDateTime, (f64, f64)> = HashMap::new();
            for (_, d, a, p) in &show {
                let x = *a as f64 * p.unwrap() as f64;
                let e = want.entry(*d).or_default();
                e.0 += x;
                e.1 += x.abs();
            }
            ensure_eq!(m.len(), want.len(), "dates of expected coupons {m:?}");
            for (d, (x, size)) in want {
                let got = match m.get(&d) {
                    Some(g) => *g as f64,
                    None => fail!("no expected coupon on {d} in {m:?}"),
                };
                ensure!((got - x).abs() <= (2e-6f64).max(1.2e-7 * show.len() as f64) * size, "expected coupon on {d}: {got}, not {x}");
            }
        }
    }
    ensure_eq!([n.clone() + &o, n.clone() + y], [npv + y; 2], "sum");
    ensure_eq!([n.clone() - &o, n.clone() - y], [npv - y; 2], "difference");
    ensure_eq!([n.clone() * &o, n.clone() * y], [npv * y; 2], "product");
    ensure_eq!([n.clone() / &o, n.clone() / y], [npv / y; 2], "quotient");
    let b: NpvResult = serde_json::from_str(&serde_json::to_string(&n).must("as JSON")?).must("from JSON")?;
    ensure!(b == n, "after a round trip through JSON {b:?} is left of {n:?}");
    let text = no_panic(|| format!("{n:?}")).must("printing")?;
    let mut lists: [Vec<(usize, String, f64)>; 2] = [vec![], vec![]];
    let mut at = None;
    for l in text.lines().map(|l| l.trim()) {
        if let Some(x) = l.strip_prefix("npv:") {
            shows("npv", x, npv, 1)?;
        } else if l.starts_with("cashflow_amounts") {
            at = Some(0);
        } else if l.starts_with("cashflow_probabilities") {
            at = Some(1);
        } else if let (Some(i), Some((k, v))) = (at, l.split_once(": (")) {
            let (d, x) = v.trim_end_matches(')').split_once(", ").must("a dated figure")?;
            match (k.parse(), number(x)) {
                (Ok(k), Some(x)) => lists[i].push((k, d.into(), x)),
                _ => fail!("{l:?} in {text}"),
            }
        }
    }
    for (i, m) in [&amounts, &probs].into_iter().enumerate() {
        let mut want: Vec<(usize, String, f32)> = m.iter().map(|(k, v)| (*k, v.0.date().to_string(), v.1)).collect();
        want.sort_by_key(|x| x.0);
        let got: Vec<(usize, &String)> = lists[i].iter().map(|x| (x.0, &x.1)).collect();
        ensure_eq!(got, want.iter().map(|x| (x.0, &x.1)).collect::<Vec<_>>(), "dates shown in {text}");
        for (g, w) in lists[i].iter().zip(&want) {
            ensure!((g.2 - w.2 as f64).abs() <= 0.0501, "{} is shown for {w:?}", g.2);
        }
    }
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "E06",
        facets: vec![
            facet("printed", "seven or more sections, one with a thousands separator", 150000, 4500000, printed),
            facet("per unit", "two or more amounts, on one date or partly probable", 400000, 12000000, per_unit),
        ],
        assumptions: &[],
    }]
}
