//! C23 which inputs are refused.

use super::independence::labels_kept;
use super::search::carrier_large;
use crate::core::*;
use crate::ensure;
use crate::model::*;
use ndarray::{Array1, Array2};
use reCTBN::parameter_learning::{BayesianApproach, MLE};
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;

/// `f` fails exactly when `refused`.
fn judge<R>(what: &str, refused: bool, f: impl FnOnce() -> R) -> Result<Option<R>, String> {
    match guard(f) {
        Ok(_) if refused => Err(format!("{} is accepted", what)),
        Ok(r) => Ok(Some(r)),
        Err(_) if refused => Ok(None),
        Err(e) => Err(format!("{} is refused: {}", what, e)),
    }
}

fn time(n: usize, c: usize) -> Vec<f64> {
    (0..n).map(|i| [0.0, -1.5, 1e300, 0.25, -0.0][(i * 3 + c) % 5] + i as f64).collect()
}
fn events(rows: usize, cols: usize, c: usize) -> Array2<usize> {
    Array2::from_shape_fn((rows, cols), |(i, j)| (i * 7 + j * 3 + c) % 11 + 100 * (i + j) % 1000)
}
fn kept(t: &Trajectory, time: &[f64], e: &Array2<usize>) -> bool {
    bits(&t.get_time().to_vec()) == bits(time) && t.get_events() == e
}

pub fn c23(ctx: &mut Ctx) {
    ctx.assume("a refusal is a panic, as documented; NaN arguments, empty intervals, datasets without trajectories and trajectories without rows are not used for learning");
    let m = ctx.pick(12, 40);
    ctx.family("trajectories", "all numbers of times, of rows and of columns up to 11 (39)", m * m * m, |c, l| {
        let d = digits(c, &[m, m, m]);
        let (t, e) = (time(d[0], c), events(d[1], d[2], c));
        let what = format!("a trajectory of {} times and {} events", d[0], d[1]);
        if let Some(x) = judge(&what, d[0] != d[1], || Trajectory::new(Array1::from_vec(t.clone()), e.clone()))? {
            ensure!(kept(&x, &t, &e), "{}: holds {:?} and {:?}", what, x.get_time(), x.get_events());
        }
        // an array that is not in standard order, and one with a stride
        if d[0] == d[1] {
            let f = e.t().to_owned().reversed_axes();
            let x = Trajectory::new(Array1::from_vec(t.clone()), f);
            ensure!(kept(&x, &t, &e), "{}: holds {:?} and {:?}", what, x.get_time(), x.get_events());
        }
        l.step(1);
        l.trace();
        l.state(&d);
        l.outcome(&(d[0] == d[1]));
        Ok(())
    });
    // datasets: widths of up to 5 trajectories
    let (w, len) = (ctx.pick(4, 5), ctx.pick(5, 7));
    for k in 0..=len {
        ctx.family(&format!("datasets of {} trajectories", k), &format!("all widths 0..{} of each trajectory, lengths 0..3 in turn", w - 1), usize::pow(w, k as u32), |c, l| {
            let widths = digits(c, &vec![w; k]);
            let parts: Vec<(Vec<f64>, Array2<usize>)> = widths.iter().enumerate().map(|(i, w)| (time((i + c) % 4, i), events((i + c) % 4, *w, i + c))).collect();
            let bad = widths.windows(2).any(|x| x[0] != x[1]);
            let what = format!("a dataset of widths {:?}", widths);
            let ts: Vec<Trajectory> = parts.iter().map(|(t, e)| Trajectory::new(Array1::from_vec(t.clone()), e.clone())).collect();
            if let Some(ds) = judge(&what, bad, || Dataset::new(ts))? {
                ensure!(ds.get_trajectories().len() == k, "{}: {} trajectories", what, ds.get_trajectories().len());
                for (x, (t, e)) in ds.get_trajectories().iter().zip(&parts) {
                    ensure!(kept(x, t, e), "{}: holds {:?} and {:?} instead of {:?} and {:?}", what, x.get_time(), x.get_events(), t, e);
                }
            }
            l.step(k as u64);
            l.trace();
            l.state(&widths);
            l.outcome(&bad);
            Ok(())
        });
    }
    ctx.family("long datasets", "20 trajectories: one of them, each in turn, with another width; or none", 21 * 4, |c, l| {
        let (at, wide) = (c % 21, [0, 2, 4, 9][c / 21]);
        let ts: Vec<Trajectory> = (0..20).map(|i| Trajectory::new(Array1::from_vec(time(3, i)), events(3, if i == at { wide } else { 3 }, i))).collect();
        let what = format!("a dataset of width 3 but {} at {}", wide, at);
        judge(&what, at < 20, || Dataset::new(ts))?;
        l.step(20);
        l.trace();
        l.state(&c);
        l.outcome(&(at < 20));
        Ok(())
    });

    // numbers which differ in their high bits only
    let far: Vec<(usize, usize)> = [1usize, 255, 256, 257, 512, 65_535, 65_536, 65_537, 131_072].iter().flat_map(|d| [0, 1, 2, 3, 255, 256].iter().map(move |a| (*a, a + d))).collect();
    let far = &far;
    ctx.family("sizes far apart", "numbers of times and rows, and widths of two of three trajectories, which differ by 1, 255..257, 512, 65535..65537 and 131072; and equal ones of these sizes", far.len() * 6, |c, l| {
        let (a, b) = far[c % far.len()];
        match c / far.len() {
            k @ (0..=2) => {
                let (x, y) = [(a, b), (b, a), (b, b)][k];
                judge(&format!("a trajectory of {} times and {} events", x, y), x != y, || Trajectory::new(Array1::from_vec(time(x, 0)), Array2::zeros((y, 1))))?;
            }
            k => {
                let widths = [[a, b, a], [b, b, a], [b, b, b]][k - 3];
                let ts: Vec<Trajectory> = widths.iter().map(|w| Trajectory::new(Array1::from_vec(time(2, 0)), Array2::zeros((2, *w)))).collect();
                judge(&format!("a dataset of widths {:?}", widths), k < 5, || Dataset::new(ts))?;
            }
        }
        l.step(1);
        l.trace();
        l.state(&c);
        l.outcome(&(c / far.len()));
        Ok(())
    });
    let at = [0usize, 1, 2, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 254, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9999, 10_000, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 69_999, usize::MAX];
    ctx.family("many trajectories", "70000 trajectories, one of another width at each of 35 positions, wider or narrower; or none", at.len() * 2, |c, l| {
        let (at, other) = (at[c / 2], [2, 4][c % 2]);
        let ts: Vec<Trajectory> = (0..70_000).map(|i| Trajectory::new(Array1::from_vec(vec![0.0]), Array2::zeros((1, if i == at { other } else { 3 })))).collect();
        let what = format!("a dataset of 70000 trajectories of width 3 but {} at {}", other, at);
        if let Some(d) = judge(&what, at < 70_000, || Dataset::new(ts))? {
            ensure!(d.get_trajectories().len() == 70_000, "{}: {} trajectories", what, d.get_trajectories().len());
        }
        l.step(70_000);
        l.trace();
        l.state(&c);
        l.outcome(&(at < 70_000));
        Ok(())
    });

    // numbers: around the limits, ordered
    let tiny = f64::MIN_POSITIVE;
    let mut xs = vec![f64::NEG_INFINITY, -1e300, -2.0, -1.0 - f64::EPSILON, -1.0, -0.5, -1e-9, -tiny, -5e-324, -0.0, 0.0, 5e-324, tiny, 1e-9, 0.5, 1.0 - f64::EPSILON / 2.0, 1.0, 1.0 + f64::EPSILON, 1.5, 2.0, 100.0, 1e300, f64::INFINITY];
    for i in 0..ctx.pick(100, 10_000) {
        xs.push((i as f64 - 20.0) / ctx.pick(50.0, 5000.0));
    }
    let xs = &xs;
    let seeds = [Some(0), Some(4164901764658873), None];
    ctx.family("densities", "numbers around 0 and 1, a grid from -0.4 to 1.6 and what is no number, with and without seed; an accepted one is used", (xs.len() + 1) * 3, |c, l| {
        let (x, seed) = (xs.get(c / 3).copied().unwrap_or(f64::NAN), seeds[c % 3]);
        let bad = !(0.0..=1.0).contains(&x);
        if let Some(mut g) = judge(&format!("density {:e}", x), bad, || UniformGraphGenerator::new(x, seed))? {
            let mut net = carrier_large(&[2, 3, 2], c);
            judge(&format!("a graph of density {:e}", x), false, || g.generate_graph(&mut net))?;
        }
        l.step(1);
        l.trace();
        l.state(&c);
        l.outcome(&bad);
        Ok(())
    });
    let n = xs.len();
    ctx.family("intervals", "all pairs of the same numbers as limits (in either order), with a seed", n * n, |c, l| {
        let (a, b) = (xs[c / n], xs[c % n]);
        let bad = a < 0.0 || b < 0.0;
        let g = judge(&format!("the interval {:e}..{:e}", a, b), bad, || UniformParametersGenerator::new(a..b, seeds[c % 2]))?;
        if let Some(mut g) = g {
            if a < b && b < 1e100 && b > 1e-100 && a > 1e-100 {
                let mut net = carrier_large(&[2, 3, 2], c);
                judge(&format!("parameters within {:e}..{:e}", a, b), false, || g.generate_parameters(&mut net))?;
            }
        }
        l.step(1);
        l.trace();
        l.state(&c);
        l.outcome(&(bad, a < b));
        Ok(())
    });
    ctx.family("pseudo residence times", "the same numbers for both scores, prior counts 0..3 and more", n * 7, |c, l| {
        let (x, alpha) = (xs[c / 7], [0, 1, 2, 3, 10, 1000, 1 << 40][c % 7]);
        judge(&format!("the log-likelihood with {} and {:e}", alpha, x), x < 0.0, || LogLikelihood::new(alpha, x))?;
        judge(&format!("the BIC with {} and {:e}", alpha, x), x < 0.0, || BIC::new(alpha, x))?;
        l.step(2);
        l.trace();
        l.state(&c);
        l.outcome(&(x < 0.0));
        Ok(())
    });

    // networks and datasets of all sizes
    let m = ctx.pick(6, 9);
    ctx.family("sizes for learning", "networks and datasets of 1..6 (9) variables each, four learners, cardinalities 2..3, 3 datasets (1 and 3 trajectories)", m * m * 4 * 3 * 2, |c, l| {
        let d = digits(c, &[m, m, 4, 3, 2]);
        let (vn, vd) = (d[0] + 1, d[1] + 1);
        let cards: Vec<usize> = (0..vn.max(vd)).map(|v| 2 + (v + d[4]) % 2).collect();
        // long enough for the tests of independence to be defined (see C15), where they are used:
        // each variable moves around in each configuration of all others
        let rows = if d[2] < 2 { 5 } else { 0 };
        let data: Vec<Traj> = (0..[1, 3, 2][d[3]])
            .map(|i| if rows > 0 { walk(&cards[..vd], rows + i, (c + i) as u64) } else { tour(&cards[..vd]) })
            .collect();
        let ds = dataset(&data);
        let net = carrier_large(&cards[..vn], c);
        let what = format!("learner {} with {} variables for data of {}", d[2], vn, vd);
        let net = judge(&what, vn != vd, || match d[2] {
            0 => HillClimbing::new(LogLikelihood::new(1, 1.0), Some(2)).fit_transform(net, &ds),
            1 => HillClimbing::new(BIC::new(1, 1.0), None).fit_transform(net, &ds),
            2 => CTPC::new(MLE {}, F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, &ds),
            _ => CTPC::new(BayesianApproach { alpha: 1, tau: 1.0 }, F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, &ds),
        })?;
        if let Some(net) = net {
            labels_kept(&net, &cards[..vn])?;
        }
        l.step(1);
        l.trace();
        l.state(&d);
        l.outcome(&(vn == vd, d[2]));
        Ok(())
    });
    ctx.sample("a dataset of widths [3,3,3,2]; a density of 1+2^-52; CTPC with 3 variables for data of 4".into());
}

/// A trajectory in which every variable enters and leaves each of its states in every
/// configuration of the others.
fn tour(cards: &[usize]) -> Traj {
    let mut tr = Traj { t: vec![], e: vec![] };
    let all: usize = cards.iter().product();
    let mut push = |s: &[usize]| {
        if tr.e.last().map(|x: &Vec<usize>| &x[..]) != Some(s) {
            let k = tr.t.len();
            tr.t.push(k as f64 + (k % 3) as f64 * 0.1);
            tr.e.push(s.to_vec());
        }
    };
    let mut at = vec![0; cards.len()];
    push(&at);
    for c in 0..all {
        // go there, one variable at a time
        let s = decode(cards, c);
        for v in 0..cards.len() {
            at[v] = s[v];
            push(&at);
        }
        for v in 0..cards.len() {
            for to in 0..cards[v] {
                at[v] = to;
                push(&at);
                at[v] = s[v];
                push(&at);
            }
        }
    }
    tr
}
