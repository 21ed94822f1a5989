//! M01 interpolators, M02 sorted search and distribution, M03 Cholesky.
use ndarray::{Array1, Array2};
use quantlib::math::cholescky_factorization::cholesky_decomposition;
use quantlib::math::interpolator::{ExtraPolationType as Ex, Interpolator1D, InterpolatorReal1D};
use quantlib::math::interpolators::bilinear_interpolator::BilinearInterpolator;
use quantlib::math::interpolators::linear_interpolator::LinearInterpolator1D;
use quantlib::math::interpolators::stepwise_interpolatior::{ConstantInterpolator1D, StepwiseInterpolator1D};
use quantlib::utils::distribute_value::distribute_value_on_vector;
use quantlib::utils::find_index::{binary_search_index, vectorized_search_index_for_sorted_vector};
use quantlib::utils::find_index_ndarray::{binary_search_index_ndarray, vectorized_search_index_for_sorted_ndarray};
use vf::*;

/// a size up to this, now and then one far beyond it
pub fn size(s: &mut Src, lo: usize, usual: usize, large: usize) -> usize {
    if s.chance(1, 40) { s.usize(usual, large) } else { s.usize(lo, usual) }
}
/// strictly increasing grid of exactly representable points
pub fn grid(s: &mut Src, n: usize) -> Vec<f32> {
    let scale = *s.pick(&[0.0625f32, 1.0, 0.5, 64.0]);
    let mut x = s.int(-40, 40) as f32;
    let gap = *s.pick(&[1i64, 3, 30]);
    (0..n)
        .map(|i| {
            if i > 0 {
                x += s.int(1, gap) as f32;
            }
            x * scale
        })
        .collect()
}
fn values(s: &mut Src, n: usize) -> Vec<f32> {
    (0..n).map(|_| s.f(-8.0, 8.0, 4096) as f32).collect()
}
fn queries(s: &mut Src, g: &[f32], max: usize) -> Vec<f32> {
    let n = g.len();
    let width = (g[n - 1] - g[0]).max(1.0);
    let mut q = vec![];
    let mut k = 0;
    loop {
        let x = match s.draw(6) {
            0 => *s.pick(g),
            1 => g[0] - width * s.f(0.0, 1.0, 16) as f32,
            2 => g[n - 1] + width * s.f(0.0, 1.0, 16) as f32,
            3 => *s.pick(&[g[0], g[n - 1]]),
            _ => g[0] + (g[n - 1] - g[0]) * s.f(0.0, 1.0, 977) as f32,
        };
        q.push(x);
        if s.chance(1, 8) {
            q.push(x);
        }
        if !s.more(&mut k, if max > 64 { 150 } else { 5 }, max) {
            break;
        }
    }
    q.sort_by(|a, b| a.partial_cmp(b).unwrap());
    q
}
/// piecewise linear value and the size of the numbers entering it; None outside without extrapolation
fn lin(g: &[f32], v: &[f32], ex: Ex, allow: bool, x: f32) -> Option<(f64, f64)> {
    let n = g.len();
    let line = |i: usize| {
        let (a, b, p, q) = (g[i] as f64, g[i + 1] as f64, v[i] as f64, v[i + 1] as f64);
        let slope = (q - p) / (b - a);
        let r = p + slope * (x as f64 - a);
        (r, p.abs() + q.abs() + slope.abs() * (x as f64 - a).abs())
    };
    if x < g[0] || x > g[n - 1] {
        if !allow {
            return None;
        }
        let left = x < g[0];
        return match ex {
            Ex::None => None,
            Ex::Flat => Some((if left { v[0] } else { v[n - 1] } as f64, 0.0)),
            Ex::Linear if left => Some(line(0)),
            Ex::Linear => {
                let (a, b, p, q) = (g[n - 2] as f64, g[n - 1] as f64, v[n - 2] as f64, v[n - 1] as f64);
                let slope = (q - p) / (b - a);
                Some((q + slope * (x as f64 - b), p.abs() + q.abs() + slope.abs() * (x as f64 - b).abs()))
            }
        };
    }
    if let Some(i) = g.iter().position(|a| *a == x) {
        return Some((v[i] as f64, 0.0));
    }
    let i = (0..n - 1).rev().find(|&i| g[i] <= x).unwrap();
    Some(line(i))
}
fn near(a: f32, (b, size): (f64, f64)) -> bool {
    (a as f64 - b).abs() <= 1e-6 * (size + b.abs())
}
fn any_ex(s: &mut Src) -> (Ex, bool) {
    match s.draw(6) {
        0 => (*s.pick(&[Ex::None, Ex::Flat, Ex::Linear]), false),
        1 => (Ex::None, true),
        2 | 3 => (Ex::Flat, true),
        _ => (Ex::Linear, true),
    }
}
fn unsorted(s: &mut Src, g: &[f32]) -> Vec<f32> {
    let mut u = g.to_vec();
    let i = s.usize(0, g.len() - 2);
    u.swap(i, i + 1);
    u
}
fn linear(s: &mut Src, c: &mut Ctx) -> R {
    let n = size(s, 1, 12, 200);
    let g = grid(s, n);
    let v = values(s, n);
    let (ex, allow) = any_ex(s);
    c.note(format!("x {g:?} y {v:?} {ex:?} allowed {allow}"));
    let mk = |g: &[f32], v: &[f32]| LinearInterpolator1D::new(Array1::from(g.to_vec()), Array1::from(v.to_vec()), ex, allow);
    ensure!(mk(&[], &[]).is_err(), "an empty node set was accepted");
    ensure!(mk(&g, &v[1..]).is_err(), "different numbers of nodes and values were accepted");
    if n > 1 {
        let u = unsorted(s, &g);
        ensure!(mk(&u, &v).is_err(), "unsorted nodes {u:?} were accepted");
    }
    if n == 1 && ex == Ex::Linear && allow {
        ensure!(mk(&g, &v).is_err(), "linear extrapolation of a single node was accepted");
        return Ok(());
    }
    let f = mk(&g, &v).must("new")?;
    for i in 0..n {
        ensure_eq!(f.interpolate(g[i]).ok(), Some(v[i]), "value at node {}", g[i]);
    }
    let m = if n > 12 { 300 } else { 12 };
    let q = queries(s, &g, m);
    c.nontrivial(n >= 2 && q.iter().any(|x| *x > g[0] && *x < g[n - 1] && !g.contains(x)));
    let mut any_err = false;
    let mut single = vec![];
    for &x in &q {
        let got = f.interpolate(x);
        match lin(&g, &v, ex, allow, x) {
            None => {
                any_err = true;
                ensure!(got.is_err(), "{x} is outside the nodes but gave {got:?}");
            }
            Some(w) => {
                let got = got.must("interpolate")?;
                ensure!(near(got, w), "at {x}: observed {got}, expected {}", w.0);
                single.push(got);
            }
        }
    }
    let all = f.vectorized_interpolate_for_sorted_ndarray(&Array1::from(q.clone()));
    match all {
        Err(_) => ensure!(any_err, "vector call refused {q:?}, single calls do not"),
        Ok(a) => {
            ensure!(!any_err, "vector call accepted {q:?}, single calls do not");
            ensure_eq!(a.len(), q.len(), "length");
            for (i, &x) in q.iter().enumerate() {
                ensure!((a[i] - single[i]).abs() <= 1e-6 * single[i].abs(), "vector call at {x}: {} but alone {}", a[i], single[i]);
            }
        }
    }
    Ok(())
}
fn stepwise(s: &mut Src, c: &mut Ctx) -> R {
    let n = size(s, 1, 12, 200);
    let ints = s.bool();
    let g = if ints {
        let mut x = s.int(-50, 50) as f32;
        (0..n).map(|i| { if i > 0 { x += s.int(1, 9) as f32; } x }).collect()
    } else {
        grid(s, n)
    };
    let v = values(s, n);
    let allow = s.chance(3, 4);
    let l = s.bool().then(|| s.f(-3.0, 3.0, 600) as f32);
    let r = s.bool().then(|| s.f(-3.0, 3.0, 600) as f32);
    c.note(format!("x {g:?} y {v:?} allowed {allow} left {l:?} right {r:?}"));
    let mut q = queries(s, &g, if n > 12 { 300 } else { 12 });
    if ints {
        q.iter_mut().for_each(|x| *x = x.round());
    }
    c.nontrivial(n >= 2 && q.len() >= 3);
    let want = |x: f32| -> Option<f32> {
        if x < g[0] {
            allow.then(|| l.unwrap_or(v[0]))
        } else if x > g[n - 1] {
            allow.then(|| r.unwrap_or(v[n - 1]))
        } else {
            Some(v[g.iter().rposition(|a| *a <= x).unwrap()])
        }
    };
    macro_rules! go {
        ($t:ty) => {{
            let dom = |g: &[f32]| Array1::from(g.iter().map(|x| *x as $t).collect::<Vec<_>>());
            let mk = |g: &[f32], v: &[f32]| StepwiseInterpolator1D::<$t>::new(dom(g), Array1::from(v.to_vec()), allow, l, r);
            ensure!(mk(&[], &[]).is_err(), "an empty node set was accepted");
            ensure!(mk(&g, &v[1..]).is_err(), "different numbers of nodes and values were accepted");
            if n > 1 {
                let u = unsorted(s, &g);
                ensure!(mk(&u, &v).is_err(), "unsorted nodes {u:?} were accepted");
            }
            let f = mk(&g, &v).must("new")?;
            for &x in &q {
                ensure_eq!(f.interpolate(x as $t).ok(), want(x), "at {x}");
            }
            let all = f.vectorized_interpolate_for_sorted_ndarray(&dom(&q)).ok().map(|a| a.to_vec());
            let w: Option<Vec<f32>> = q.iter().map(|x| want(*x)).collect();
            ensure_eq!(all, w, "vector call at {q:?}");
        }};
    }
    if ints { go!(i32) } else { go!(f32) }
    let k = ConstantInterpolator1D::new(v[0]).must("constant")?;
    for &x in &q {
        ensure_eq!(k.interpolate(x).ok(), Some(v[0]), "constant at {x}");
    }
    ensure_eq!(k.vectorized_interpolate_for_sorted_ndarray(&Array1::from(q.clone())).ok(), Some(Array1::from_elem(q.len(), v[0])), "constant vector call");
    Ok(())
}
fn bilinear(s: &mut Src, c: &mut Ctx) -> R {
    let (n, m) = (size(s, 2, 6, 40), size(s, 2, 6, 40));
    let (tg, xg) = (grid(s, n), grid(s, m));
    let v: Vec<Vec<f32>> = (0..n).map(|_| values(s, m)).collect();
    let (xe, xa) = any_ex(s);
    let (te, ta) = any_ex(s);
    c.note(format!("t {tg:?} x {xg:?} v {v:?} x-rule {xe:?}/{xa} t-rule {te:?}/{ta}"));
    let flat = Array2::from_shape_vec((n, m), v.concat()).unwrap();
    let (ta1, xa1) = (Array1::from(tg.clone()), Array1::from(xg.clone()));
    let f = BilinearInterpolator::new_from_rectangle_data(ta1.clone(), xa1.clone(), flat.clone(), xa, xe, ta, te).must("new")?;
    let rows = v.iter().map(|r| LinearInterpolator1D::new(xa1.clone(), Array1::from(r.clone()), xe, xa).unwrap()).collect::<Vec<_>>();
    let f2 = BilinearInterpolator::new(ta1.clone(), rows.clone(), ta, te).must("new")?;
    ensure!(BilinearInterpolator::new(ta1.clone(), rows[1..].to_vec(), ta, te).is_err(), "different numbers of rows were accepted");
    let bad = Array2::from_shape_vec((m, n), v.concat()).unwrap();
    // nodes out of order in either direction, none at all, or too few
    let (i, k) = (s.usize(0, n - 2), s.usize(0, m - 2));
    let (mut tu, mut xu) = (tg.clone(), xg.clone());
    tu.swap(i, i + 1);
    xu.swap(k, k + 1);
    let (tu, xu) = (Array1::from(tu), Array1::from(xu));
    let made = |t: &Array1<f32>, x: &Array1<f32>, v: &Array2<f32>| no_panic(|| BilinearInterpolator::new_from_rectangle_data(t.clone(), x.clone(), v.clone(), xa, xe, ta, te).is_err());
    ensure!(made(&tu, &xa1, &flat).must("unsorted rows")?, "unsorted rows {tu:?} were accepted");
    ensure!(made(&ta1, &xu, &flat).must("unsorted columns")?, "unsorted columns {xu:?} were accepted");
    let one = |v: &Array1<f32>| v.slice(ndarray::s![..1]).to_owned();
    ensure!(made(&one(&ta1), &xa1, &flat.slice(ndarray::s![..1, ..]).to_owned()).must("one row")?, "a single row was accepted");
    ensure!(made(&ta1, &one(&xa1), &flat.slice(ndarray::s![.., ..1]).to_owned()).must("one column")?, "a single column was accepted");
    let from_rows = |t: &Array1<f32>, r: &[LinearInterpolator1D]| no_panic(|| BilinearInterpolator::new(t.clone(), r.to_vec(), ta, te));
    ensure!(from_rows(&tu, &rows).must("unsorted rows")?.is_err(), "unsorted rows {tu:?} were accepted");
    ensure!(from_rows(&Array1::from(vec![]), &[]).must("no rows")?.is_err(), "no rows were accepted");
    let single = from_rows(&one(&ta1), &rows[..1]).must("one row")?;
    ensure_eq!(single.is_err(), ta && te == Ex::Linear, "linear extrapolation of a single row refused");
    if let Ok(f) = single {
        for t in queries(s, &tg[..1], 3) {
            for &x in &xg {
                let got = no_panic(|| f.interpolate(t, x)).must("a single row")?;
                let want = if (ta && te == Ex::Flat) || t == tg[0] { lin(&xg, &v[0], xe, xa, x) } else { None };
                match (got, want) {
                    (Ok(g), Some(w)) => ensure!(near(g, w), "a single row at ({t}, {x}): observed {g}, expected {}", w.0),
                    (Err(_), None) => {}
                    (g, w) => fail!("a single row at ({t}, {x}): observed {g:?}, expected {w:?}"),
                }
            }
        }
    }
    if n != m {
        ensure!(BilinearInterpolator::new_from_rectangle_data(ta1, xa1, bad, xa, xe, ta, te).is_err(), "a transposed table was accepted");
    }
    for i in 0..n {
        for j in 0..m {
            let got = f.interpolate(tg[i], xg[j]).must("node")?;
            ensure!((got - v[i][j]).abs() <= 1e-6 * v[i][j].abs().max(1.0), "node ({}, {}): observed {got}, expected {}", tg[i], xg[j], v[i][j]);
        }
    }
    let (tq, xq) = (queries(s, &tg, 4), queries(s, &xg, 4));
    c.nontrivial(tq.iter().any(|t| *t > tg[0] && *t < tg[n - 1]) && xq.iter().any(|x| *x > xg[0] && *x < xg[m - 1]));
    for &t in &tq {
        for &x in &xq {
            let col: Option<Vec<(f64, f64)>> = v.iter().map(|r| lin(&xg, r, xe, xa, x)).collect();
            let want = col.and_then(|col| {
                let size: f64 = col.iter().map(|k| k.0.abs() + k.1).fold(0.0, f64::max);
                // interpolate the column values in t (f64 nodes scaled through lin64)
                let vals: Vec<f64> = col.iter().map(|k| k.0).collect();
                lin64(&tg, &vals, te, ta, t).map(|(r, sz)| (r, sz + 3.0 * size * amp(&tg, te, ta, t)))
            });
            for (what, g) in [("rectangle", f.interpolate(t, x)), ("rows", f2.interpolate(t, x))] {
                match want {
                    None => ensure!(g.is_err(), "{what} ({t}, {x}) is outside but gave {g:?}"),
                    Some(w) => {
                        let got = g.must("interpolate")?;
                        ensure!(near(got, w), "{what} ({t}, {x}): observed {got}, expected {}", w.0);
                    }
                }
            }
        }
    }
    Ok(())
}
/// how much a linear extrapolation in t magnifies errors of the row values
fn amp(g: &[f32], ex: Ex, allow: bool, t: f32) -> f64 {
    let n = g.len();
    if !allow || ex != Ex::Linear {
        return 1.0;
    }
    if t < g[0] {
        1.0 + 2.0 * ((g[0] - t) / (g[1] - g[0])) as f64
    } else if t > g[n - 1] {
        1.0 + 2.0 * ((t - g[n - 1]) / (g[n - 1] - g[n - 2])) as f64
    } else {
        1.0
    }
}
fn lin64(g: &[f32], v: &[f64], ex: Ex, allow: bool, x: f32) -> Option<(f64, f64)> {
    let n = g.len();
    let seg = |i: usize| {
        let (a, b) = (g[i] as f64, g[i + 1] as f64);
        let slope = (v[i + 1] - v[i]) / (b - a);
        (v[i] + slope * (x as f64 - a), v[i].abs() + v[i + 1].abs() + slope.abs() * (x as f64 - a).abs())
    };
    if x < g[0] || x > g[n - 1] {
        if !allow || ex == Ex::None {
            return None;
        }
        let left = x < g[0];
        return Some(match (ex, left) {
            (Ex::Flat, true) => (v[0], 0.0),
            (Ex::Flat, false) => (v[n - 1], 0.0),
            (_, true) => seg(0),
            (_, false) => seg(n - 2),
        });
    }
    let i = (0..n - 1).rev().find(|&i| g[i] <= x).unwrap();
    Some(seg(i))
}

// ---------------------------------------------------------------- M02
/// the same drawing at another scale, without rounding
fn zoom(s: &mut Src, v: [&mut [f32]; 2]) -> f32 {
    let f = *s.pick(&[1.0f32, 1.0, 1.0, 1.0 / 1024.0, 1.0 / 262144.0, 65536.0]);
    for x in v {
        x.iter_mut().for_each(|x| *x *= f);
    }
    f
}
fn search(s: &mut Src, c: &mut Ctx) -> R {
    let n = size(s, 1, 40, 700);
    let mut g = grid(s, n);
    let mut q = queries(s, &g, if n > 40 { 400 } else { 40 });
    let f = zoom(s, [&mut g, &mut q]);
    c.note(format!("grid {g:?} queries {q:?}"));
    c.nontrivial(n >= 3 && q.len() >= 3);
    let want: Vec<usize> = q.iter().map(|x| g.iter().rposition(|a| a <= x).unwrap_or(0)).collect();
    let ga = Array1::from(g.clone());
    for (i, &x) in q.iter().enumerate() {
        ensure_eq!(binary_search_index(&g, x), want[i], "index of {x}");
        ensure_eq!(binary_search_index_ndarray(&ga, x), want[i], "index of {x} (ndarray)");
    }
    ensure_eq!(vectorized_search_index_for_sorted_vector(&g, &q), want, "indices of all");
    ensure_eq!(vectorized_search_index_for_sorted_ndarray(&ga, &Array1::from(q.clone())), want, "indices of all (ndarray)");
    // integer grids
    let gi: Vec<i64> = g.iter().map(|x| (*x / f * 16.0) as i64).collect();
    let qi: Vec<i64> = q.iter().map(|x| (*x / f * 16.0).floor() as i64).collect();
    let wi: Vec<usize> = qi.iter().map(|x| gi.iter().rposition(|a| a <= x).unwrap_or(0)).collect();
    ensure_eq!(vectorized_search_index_for_sorted_vector(&gi, &qi), wi, "indices on an integer grid");
    for (i, x) in qi.iter().enumerate() {
        ensure_eq!(binary_search_index(&gi, *x), wi[i], "index of {x} on an integer grid");
    }
    Ok(())
}
fn distribute(s: &mut Src, c: &mut Ctx) -> R {
    let n = size(s, 1, 15, 150);
    let mut g = grid(s, n);
    let mut v = vec![0.0f32; n];
    let before: Vec<f32> = if s.bool() { values(s, n) } else { v.clone() };
    v.clone_from(&before);
    let mut x = [queries(s, &g, 1)[0]];
    let f = zoom(s, [&mut g, &mut x]);
    let x = x[0];
    let amount = s.f(-10.0, 10.0, 2000) as f32;
    c.note(format!("grid {g:?} holds {before:?}, {amount} at {x}"));
    let mut short = v.clone();
    short.pop();
    let keep = short.clone();
    ensure!(distribute_value_on_vector(&mut short, amount, x, &g).is_err(), "different lengths were accepted");
    ensure_eq!(short, keep, "a refused call changed the vector");
    ensure!(distribute_value_on_vector(&mut [], amount, x, &[]).is_ok(), "an empty grid was refused");
    distribute_value_on_vector(&mut v, amount, x, &g).must("distribute")?;
    let put: Vec<f64> = v.iter().zip(&before).map(|(a, b)| *a as f64 - *b as f64).collect();
    let t = 2e-5;
    let sum: f64 = put.iter().sum();
    ensure!((sum - amount as f64).abs() <= t, "distributed {put:?}: total {sum}, expected {amount}");
    let xc = x.clamp(g[0], g[n - 1]) as f64;
    let moment: f64 = put.iter().zip(&g).map(|(a, b)| a * (*b as f64 - xc)).sum();
    let width = (g[n - 1] - g[0]).max(f) as f64;
    ensure!(moment.abs() <= t * width, "distributed {put:?}: first moment about {xc} is {moment}");
    c.nontrivial(n >= 2 && x > g[0] && x < g[n - 1] && amount != 0.0);
    for i in 0..n {
        let neighbour = (i + 1 >= n || g[i + 1] as f64 > xc) && (i == 0 || (g[i - 1] as f64) < xc);
        ensure!(neighbour || v[i] == before[i], "the amount at {x} reached the node {}", g[i]);
        ensure!(put[i] * amount as f64 >= -1e-5, "node {} received {} of {amount}", g[i], put[i]);
    }
    Ok(())
}

// ---------------------------------------------------------------- M03
fn cholesky(s: &mut Src, c: &mut Ctx) -> R {
    let n = size(s, 1, 8, 40);
    // large factors stay well conditioned, so that rounding cannot hide a pivot
    let off = if n > 8 { 2.0 / n as f64 } else { 1.0 };
    let mut l = vec![vec![0.0f64; n]; n];
    let scale = *s.pick(&[1.0, 0.01, 30.0]);
    for i in 0..n {
        for j in 0..i {
            l[i][j] = s.f(-1.0, 1.0, 200) * off * scale;
        }
        l[i][i] = s.f(0.3, 2.0, 100) * scale;
    }
    let product = |sign: &dyn Fn(usize) -> f64| {
        let mut a = Array2::<f32>::zeros((n, n));
        for i in 0..n {
            for j in 0..n {
                a[[i, j]] = (0..n).map(|k| l[i][k] * l[j][k] * sign(k)).sum::<f64>() as f32;
            }
        }
        a
    };
    let a = product(&|_| 1.0);
    c.note(format!("factor {l:?}"));
    c.nontrivial(n >= 2);
    let f = cholesky_decomposition(&a).must("cholesky of a positive definite matrix")?;
    ensure_eq!(f.shape(), &[n, n], "shape");
    let big = a.iter().fold(0.0f32, |m, x| m.max(x.abs())) as f64;
    for i in 0..n {
        ensure!(f[[i, i]] > 0.0, "diagonal {i} is {}", f[[i, i]]);
        for j in 0..n {
            if j > i {
                ensure!(f[[i, j]] == 0.0, "upper entry ({i}, {j}) is {}", f[[i, j]]);
            }
            let p: f64 = (0..n).map(|k| f[[i, k]] as f64 * f[[j, k]] as f64).sum();
            ensure!((p - a[[i, j]] as f64).abs() <= 4e-6 * big, "product entry ({i}, {j}): observed {p}, expected {}", a[[i, j]]);
        }
    }
    // one non-positive pivot makes it indefinite
    let k = s.usize(0, n - 1);
    let bad = product(&|j| if j == k { -1.0 } else { 1.0 });
    ensure!(cholesky_decomposition(&bad).is_err(), "a matrix with a negative direction was factored (pivot {k})");
    let rect = Array2::<f32>::ones((n, n + 1));
    ensure!(cholesky_decomposition(&rect).is_err(), "a non-square matrix was factored");
    ensure!(cholesky_decomposition(&Array2::<f32>::zeros((n, n))).is_err(), "the zero matrix was factored");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "M01",
            facets: vec![
                facet("linear", "two or more nodes and a query strictly between nodes", 120000, 3600000, linear),
                facet("stepwise", "two or more nodes and at least three queries in one call", 120000, 3600000, stepwise),
                facet("bilinear", "queries strictly inside both axes", 40000, 1200000, bilinear),
            ],
            assumptions: &["single precision: relative error 1e-6 of the numbers entering the formula"],
        },
        Property {
            id: "M02",
            facets: vec![
                facet("search", "three or more nodes and queries", 800000, 24000000, search),
                facet("distribute", "a non-zero amount strictly inside the grid", 800000, 24000000, distribute),
            ],
            assumptions: &["single precision: absolute error 2e-5 on amounts up to 10"],
        },
        Property { id: "M03", facets: vec![facet("cholesky", "dimension two or more", 1800000, 54000000, cholesky)], assumptions: &["condition numbers for which single precision decides the sign of a pivot"] },
    ]
}
