//! M04: correlated normal paths, by sample statistics whose bounds no correct sampler exceeds in practice (7.5 standard errors).
use ndarray::{s, Array2};
use quantlib::pricing_engines::montecarlo::rand_generator::correlated_path;
use vf::*;

const WIDE: f64 = 7.5;
fn paths(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.usize(1, 5);
    let steps = *s.pick(&[3000usize, 4096, 5001]);
    // rows of a unit lower triangular factor: any correlation matrix
    let mut l = vec![vec![0f64; n]; n];
    for i in 0..n {
        for j in 0..i {
            l[i][j] = s.f(-1.0, 1.0, 20);
        }
        l[i][i] = 0.4 + s.f(0.0, 1.0, 10);
        let z = l[i].iter().map(|x| x * x).sum::<f64>().sqrt();
        l[i].iter_mut().for_each(|x| *x /= z);
    }
    let corr = |i: usize, j: usize| l[i].iter().zip(&l[j]).map(|(a, b)| a * b).sum::<f64>();
    let m = Array2::from_shape_fn((n, n), |(i, j)| if i == j { 1.0 } else { corr(i, j) as f32 });
    // a long path, or many short ones end to end
    let each = if s.chance(1, 3) { *s.pick(&[1usize, 2, 3, 8, 50, 365]) } else { steps };
    let steps = steps / each * each;
    let lags = [2, s.usize(3, 40), s.usize(41, steps / 2 - 1), steps / 2];
    c.note(format!("{steps} steps of {m:?} in paths of {each}"));
    c.nontrivial(n >= 2 && (0..n).any(|i| (0..i).any(|j| corr(i, j).abs() > 0.2)));
    let draw = || -> R<Array2<f32>> {
        let mut all = Array2::zeros((n, steps));
        for k in 0..steps / each {
            let p = correlated_path(each, &m);
            ensure_eq!(p.shape(), &[n, each], "shape");
            all.slice_mut(s![.., k * each..(k + 1) * each]).assign(&p);
        }
        Ok(all)
    };
    let p = draw()?;
    ensure!(p.iter().all(|x| x.is_finite()), "a number that is not finite");
    let q = draw()?;
    let eq = p.iter().zip(q.iter()).filter(|(a, b)| a == b).count();
    ensure!(eq <= 20 * n, "two calls agree in {eq} numbers");
    let x: Vec<Vec<f64>> = p.rows().into_iter().map(|r| r.iter().map(|v| *v as f64).collect()).collect();
    let y: Vec<Vec<f64>> = q.rows().into_iter().map(|r| r.iter().map(|v| *v as f64).collect()).collect();
    let nn = steps as f64;
    let near = |what: String, got: f64, want: f64, sd: f64| -> R {
        ensure!((got - want).abs() <= WIDE * sd / nn.sqrt() + 1e-5, "{what} of {steps} steps is {got}, not {want}");
        Ok(())
    };
    let mean = |it: &mut dyn Iterator<Item = f64>| -> f64 {
        let (mut a, mut k) = (0.0, 0);
        for v in it {
            a += v;
            k += 1;
        }
        a / k as f64
    };
    for i in 0..n {
        near(format!("mean of path {i}"), mean(&mut x[i].iter().copied()), 0.0, 1.0)?;
        near(format!("share of path {i} within one"), mean(&mut x[i].iter().map(|v| (v.abs() < 1.0) as u8 as f64)), 0.682689, 0.4655)?;
        near(format!("share of path {i} within two"), mean(&mut x[i].iter().map(|v| (v.abs() < 2.0) as u8 as f64)), 0.954500, 0.2084)?;
        near(format!("share of path {i} above zero"), mean(&mut x[i].iter().map(|v| (*v > 0.0) as u8 as f64)), 0.5, 0.5)?;
        for j in 0..n {
            let r = corr(i, j);
            near(format!("correlation of paths {i} and {j}"), mean(&mut x[i].iter().zip(&x[j]).map(|(a, b)| a * b)), r, (1.0 + r * r).sqrt())?;
            near(format!("correlation of path {i} and the next step of path {j}"), mean(&mut x[i].iter().zip(&x[j][1..]).map(|(a, b)| a * b)), 0.0, 1.0)?;
            for lag in lags {
                let few = (nn / (nn - lag as f64)).sqrt();
                near(format!("correlation of path {i} and path {j} {lag} steps later"), mean(&mut x[i].iter().zip(&x[j][lag..]).map(|(a, b)| a * b)), 0.0, few)?;
            }
            // every pair of steps is met twice; the middle one meets itself
            near(format!("correlation of path {i} and path {j} backwards"), mean(&mut x[i].iter().zip(x[j].iter().rev()).map(|(a, b)| a * b)), 0.0, (1.0 + r * r).sqrt() * 2f64.sqrt())?;
            near(format!("correlation of path {i} and path {j} of another call"), mean(&mut x[i].iter().zip(&y[j]).map(|(a, b)| a * b)), 0.0, 1.0)?;
        }
    }
    Ok(())
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "M04",
        facets: vec![facet("paths", "two or more paths, some correlation above 0.2", 12000, 150000, paths)],
        assumptions: &["the sampler takes its numbers from the thread's generator, so a replayed case draws other numbers", "correlation matrices well inside the positive definite ones"],
    }]
}
