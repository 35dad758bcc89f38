//! C12 sufficient statistics, C13 estimates, C14 scores.

use crate::core::*;
use crate::ensure;
use crate::model::*;
use ndarray::{Array2, Array3};
use reCTBN::parameter_learning::*;
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::score_function::*;
use reCTBN::tools::Dataset;

/// A space of datasets: event sequences over all joint states, with given time steps.
pub struct Space {
    pub cards: Vec<usize>,
    /// rows of each trajectory
    pub rows: Vec<usize>,
}
impl Space {
    pub fn size(&self) -> usize {
        self.cards.iter().product::<usize>().pow(self.rows.iter().sum::<usize>() as u32)
    }
    /// Dataset number `c`: every joint state at every row; time steps are distinct powers of two
    /// (so that every sum of them identifies its terms and is exact), some of them zero in some
    /// datasets.
    pub fn data(&self, mut c: usize) -> Vec<Traj> {
        let k: usize = self.cards.iter().product();
        let zero = c % 7;
        let mut step = 0;
        let mut out = vec![];
        for (i, r) in self.rows.iter().enumerate() {
            let mut tr = Traj { t: vec![], e: vec![] };
            let mut t = [0.0, 3.5, -2.0][i % 3];
            for _ in 0..*r {
                tr.t.push(t);
                tr.e.push(decode(&self.cards, c % k));
                c /= k;
                t += if zero == 3 && step % 3 == 1 { 0.0 } else { (1u64 << (step % 20)) as f64 / 64.0 };
                step += 1;
            }
            out.push(tr);
        }
        out
    }
}

/// The sets of variables that may be parents of `v`.
pub fn parent_sets(n: usize, v: usize) -> Vec<Set> {
    (0..1 << n).filter(|m| m >> v & 1 == 0).map(mask).collect()
}

/// A network over these variables, with some edges that must not matter.
pub fn carrier(cards: &[usize], g: usize) -> CtbnNetwork {
    let n = cards.len();
    Net { cards: cards.to_vec(), parents: graph(n, g % n_graphs(n)), cims: vec![] }.build_structure()
}

/// Bounds common to C12, C13 and C14: the spaces of short datasets.
fn spaces(cap: usize) -> Vec<Space> {
    let mut v = vec![];
    for cards in [vec![2], vec![3], vec![2, 2], vec![2, 3], vec![3, 2], vec![2, 3, 2], vec![3, 2, 4], vec![2, 2, 2, 2]] {
        for rows in [vec![1], vec![2], vec![3], vec![4], vec![5], vec![6], vec![1, 1], vec![2, 2], vec![3, 2], vec![2, 1, 2], vec![3, 3], vec![4, 3], vec![2, 2, 2], vec![0], vec![0, 0], vec![0, 3], vec![3, 0], vec![2, 0, 2], vec![0, 1, 0, 2]] {
            let s = Space { cards: cards.clone(), rows };
            if s.cards.iter().product::<usize>().checked_pow(s.rows.iter().sum::<usize>() as u32).is_some_and(|x| x <= cap) {
                v.push(s);
            }
        }
    }
    v
}

/// Longer data on larger networks: deterministic walks.
fn long_data(c: usize) -> (Vec<usize>, Vec<Traj>) {
    let cards = [vec![2, 3, 4, 2, 3], vec![4, 3, 2], vec![2, 2, 2, 2, 2, 2], vec![5, 2], vec![3, 3, 3, 3], vec![7], vec![12, 2]][c % 7].clone();
    let n = [1, 2, 3, 12][c / 7 % 4];
    let mut d: Vec<Traj> = (0..n).map(|i| walk(&cards, [300, 0, 40, 1, 2, 7, 0][i % 7] + if i == 1 { 0 } else { c % 5 }, (c * 31 + i) as u64)).collect();
    if c / 28 % 3 == 1 {
        // one without rows
        d.insert(c % (n + 1), Traj { t: vec![], e: vec![] });
    }
    (cards, d)
}

pub const WIDE: usize = 20;
pub const WIDE_DOC: &str = "40, 130 and 300 variables with parents far apart, up to 9 parents (512 configurations), 10000 and 67600 configurations, variables of 17, 64 and 300 states, parents of 300 states and of 256 configurations, 70000 rows, 3000 and 70000 trajectories, times up to 2^40 and steps down to 2^-20, steps which no sum of powers of two within 24 bits gives, steps of 1e-14 and of 1e14";

/// Wide and long data: many variables, states, configurations, rows, trajectories; with the nodes
/// and parent sets to consider.
pub fn wide_data(c: usize) -> (Vec<usize>, Vec<Traj>, Vec<(usize, Set)>) {
    let many = |n: usize| -> Vec<(usize, Set)> {
        let mut q = vec![];
        for v in [0, 1, n / 2, n - 2, n - 1] {
            for ps in [vec![], vec![0], vec![n - 1], vec![0, n - 1], vec![31, 32], vec![n / 2 - 1, n / 2, n / 2 + 1], vec![n - 4, n - 3, n - 2], vec![1, n / 3, n - 5]] {
                q.push((v, ps.into_iter().filter(|x| *x != v).collect::<Set>()));
            }
        }
        q
    };
    let all = |cards: &[usize]| -> Vec<(usize, Set)> { (0..cards.len()).flat_map(|v| parent_sets(cards.len(), v).into_iter().map(move |p| (v, p))).collect() };
    let seed = (c / WIDE * 100 + 7) as u64;
    let mixed = |n: usize| (0..n).map(|i| 2 + i % 3).collect::<Vec<_>>();
    let walks = |cards: &[usize], lens: &[usize]| -> Vec<Traj> { lens.iter().enumerate().map(|(i, l)| walk(cards, *l, seed + i as u64)).collect() };
    let (cards, d, q) = match c % WIDE {
        0 => (mixed(40), walks(&mixed(40), &[1500, 400]), many(40)),
        1 => (mixed(130), walks(&mixed(130), &[2500, 700]), many(130)),
        2 => (vec![2; 300], walks(&[2; 300], &[4000]), many(300)),
        3 => (vec![300], walks(&[300], &[3000, 10]), all(&[300])),
        4 => (vec![300, 2], walks(&[300, 2], &[3000]), all(&[300, 2])),
        5 => (vec![2, 300, 3], walks(&[2, 300, 3], &[5000]), all(&[2, 300, 3])),
        6 => (vec![17, 16, 3], walks(&[17, 16, 3], &[5000, 500]), all(&[17, 16, 3])),
        7 => (vec![64, 65], walks(&[64, 65], &[3000]), all(&[64, 65])),
        8 => (vec![2; 10], walks(&[2; 10], &[6000]), (0..10).flat_map(|v| [Set::new(), mask(0x3ff & !(1 << v)), mask(0x155 & !(1 << v)), mask(0x3e0 & !(1 << v))].map(|p| (v, p))).collect()),
        9 => (vec![2, 2], walks(&[2, 2], &[70_000]), all(&[2, 2])),
        10 => {
            let mut d = walks(&[2, 3], &(0..3000).map(|i| i % 4).collect::<Vec<_>>());
            for i in [1, 77, 78, 2999] {
                d[i] = Traj { t: vec![], e: vec![] };
            }
            (vec![2, 3], d, all(&[2, 3]))
        }
        11 => (vec![2], walks(&[2], &[66_000, 140_000]), all(&[2])),
        12 | 13 => {
            // times far from 0, and large and small steps
            let cards = vec![3, 2, 2];
            let mut d = walks(&cards, &[500, 100, 3]);
            for (i, x) in d.iter_mut().enumerate() {
                for t in x.t.iter_mut() {
                    *t = if c % WIDE == 12 { *t * 65536.0 + [0.0, -1048576.0, 1099511627776.0][i] } else { *t / 65536.0 };
                }
            }
            (cards.clone(), d, all(&cards))
        }
        14 | 15 | 16 => {
            // steps with full mantissas, tiny and huge ones
            let cards = vec![2, 3, 2];
            let mut d = walks(&cards, &[400, 60, 2]);
            for (i, x) in d.iter_mut().enumerate() {
                for t in x.t.iter_mut() {
                    *t = match c % WIDE {
                        14 => *t * 0.123456789012345 + [0.0, -1.0 / 3.0, 2.0 / 7.0][i],
                        15 => *t * 1.1e-13,
                        _ => *t * 1.3e14,
                    };
                }
            }
            (cards.clone(), d, all(&cards))
        }
        17 => (vec![2, 3], walks(&[2, 3], &(0..70_000).map(|i| i % 3).collect::<Vec<_>>()), vec![(0, mask(2)), (1, Set::new())]),
        18 | 19 => {
            // the later configurations are seen for sure
            let (cards, k, v, ps) = if c % WIDE == 18 { (vec![2, 260, 260], 260, 0, mask(6)) } else { (vec![100, 3, 100], 100, 1, mask(5)) };
            let mut d = walks(&cards, &[3000, 50]);
            for u in 0..k {
                let e = (0..6).map(|i| (0..3).map(|x| if x == v { (i / 2 + u) % cards[v] } else { (k - 1 - u + if i % 2 == 1 { x } else { 0 }) % k }).collect()).collect();
                d.push(Traj { t: (0..6).map(|i| (i * (i + 3)) as f64 / 8.0).collect(), e });
            }
            (cards.clone(), d, vec![(v, ps)])
        }
        _ => unreachable!(),
    };
    (cards, d, q)
}

/// Data of a Markov process: all sequences of events of one variable, then walks over many states.
fn process_data(c: usize) -> (usize, Vec<Traj>) {
    let one = [Space { cards: vec![2], rows: vec![5] }, Space { cards: vec![3], rows: vec![4] }, Space { cards: vec![4], rows: vec![2, 2] }];
    let mut i = c;
    for s in &one {
        if i < s.size() {
            return (s.cards[0], s.data(i));
        }
        i -= s.size();
    }
    let k = 2 + i * 3;
    (k, (0..3).map(|j| walk(&[k], 200 + 10 * j, (c + j) as u64)).collect())
}
const PROCESS: usize = 32 + 81 + 256 + 40;
const PROCESS_DOC: &str = "the node of a Markov process: all event sequences of 2..4 states in 4 and 5 rows, walks over up to 119 states";
fn process(k: usize) -> CtmpProcess {
    let mut p = CtmpProcess::new();
    p.add_node(node(&label(0), k)).unwrap();
    p
}

/// Short data whose steps and hyperparameters are of every size: dataset, pseudo-count, pseudo-time.
fn scaled(c: usize) -> (Vec<usize>, Vec<Traj>, (usize, f64)) {
    let (alpha, c) = (ALPHAS[c % ALPHAS.len()], c / ALPHAS.len());
    let (tau, c) = (TAUS[c % TAUS.len()], c / TAUS.len());
    let (unit, c) = (UNITS[c % UNITS.len()], c / UNITS.len());
    let cards = [vec![2, 3], vec![3, 2, 2], vec![4], vec![2, 2, 2, 2]][c % 4].clone();
    let mut d: Vec<Traj> = [12, 5, 30, 1].iter().take(1 + c / 4 % 4).enumerate().map(|(i, n)| walk(&cards, *n, (c * 5 + i) as u64)).collect();
    for x in d.iter_mut() {
        let mut t = 0.0;
        let old = x.t.clone();
        for i in 0..x.t.len() {
            if i > 0 {
                // some data hold steps of contrasting sizes
                t += (old[i] - old[i - 1]) * unit * if c / 16 % 2 == 1 { [1.0, 1e5, 1e-5, 1e-9][i % 4] } else { 1.0 };
            }
            x.t[i] = t;
        }
    }
    (cards, d, (alpha, tau))
}
const ALPHAS: [usize; 9] = [1, 2, 10, 255, 1000, 65_537, 1_000_000, 4_294_967_301, 1_000_000_000_000];
const TAUS: [f64; 12] = [1e-200, 1e-30, 1e-16, 1e-12, 1e-7, 0.01, 5.0, 1e4, 1e9, 1e16, 1e30, 1e200];
const UNITS: [f64; 7] = [1e-150, 1e-20, 1e-9, 1.0, 1e9, 1e20, 1e150];
const SCALED: usize = 9 * 12 * 7 * 32;
const SCALED_DOC: &str = "short data on 1..4 variables, 1..4 trajectories: steps of 1e-150 to 1e150, equal or contrasting, pseudo-counts of 1 to 1e12, pseudo-times of 1e-200 to 1e200: all combinations";

/// All orders, or some of many.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 4 {
        return permutations(n);
    }
    vec![(0..n).rev().collect(), (0..n).map(|i| (i + 1) % n).collect(), (0..n).map(|i| (i * 5 + 2) % n).collect()]
}

fn clip(e: String) -> String {
    e.chars().take(600).collect()
}

fn dims(m: &Array3<usize>) -> Vec<usize> {
    m.shape().to_vec()
}

fn check_stats<N: NetworkProcess>(net: &N, ds: &Dataset, cards: &[usize], d: &[Traj], v: usize, ps: &Set, l: &mut Loc) -> Res {
    let (m, t) = sufficient_statistics(net, ds, v, ps);
    let (wm, wt) = stats(cards, d, v, ps);
    ensure!(dims(&m) == dims(&wm) && t.shape() == wt.shape(), "node {} parents {:?}: shapes {:?} and {:?} instead of {:?}", v, ps, m.shape(), t.shape(), wm.shape());
    ensure!(m == wm, "node {} parents {:?} of {:?}: transitions {:?} instead of {:?} on {:?}", v, ps, cards, m, wm, d.iter().take(3).collect::<Vec<_>>());
    for (a, b) in t.iter().zip(wt.iter()) {
        ensure!((a - b).abs() <= 1e-11 * b.abs(), "node {} parents {:?} of {:?}: residence times {:?} instead of {:?}", v, ps, cards, t, wt);
    }
    // the totals, from the data
    let total: f64 = d.iter().map(|x| x.t.last().map_or(0.0, |t| t - x.t[0])).sum();
    let changes: usize = d.iter().map(|x| x.e.windows(2).filter(|w| w[0][v] != w[1][v]).count()).sum();
    ensure!((t.sum() - total).abs() <= 1e-9 * total &&  m.sum() == changes, "node {} parents {:?}: total time {} of {}, {} changes of {}", v, ps, t.sum(), total, m.sum(), changes);
    for u in 0..m.shape()[0] {
        for x in 0..m.shape()[1] {
            ensure!(m[[u, x, x]] == 0, "node {} parents {:?}: {} transitions from {} to itself", v, ps, m[[u, x, x]], x);
        }
    }
    l.step(d.iter().map(|x| x.t.len() as u64).sum());
    l.trace();
    l.outcome(&m.iter().copied().collect::<Vec<usize>>());
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.assume("time steps are dyadic, so that sums are exact (except in three of the families of wide data, judged within 1e-11)");
    for s in spaces(ctx.pick(1_000_000, 20_000_000)) {
        let name = format!("{:?} variables, {:?} rows", s.cards, s.rows);
        let s = &s;
        ctx.family(&name, "all event sequences (every joint state at every row), every node, every parent set, edges in the network irrelevant", s.size(), |c, l| {
            let d = s.data(c);
            let ds = dataset_of(&d, s.cards.len());
            let net = carrier(&s.cards, c.wrapping_mul(2654435761));
            for v in 0..s.cards.len() {
                for ps in parent_sets(s.cards.len(), v) {
                    check_stats(&net, &ds, &s.cards, &d, v, &ps, l)?;
                }
            }
            l.state(&c);
            Ok(())
        });
    }
    ctx.family("long walks", "walks of 300 events, 1, 2, 3 and 12 trajectories, some without rows, 1..6 variables of 2..12 states: every node and parent set; sums over trajectories in every order", ctx.pick(420, 20_000), |c, l| {
        let (cards, d) = long_data(c);
        let net = carrier(&cards, c.wrapping_mul(40503));
        let ds = dataset_of(&d, cards.len());
        l.state(&c);
        for v in 0..cards.len() {
            for ps in parent_sets(cards.len(), v) {
                check_stats(&net, &ds, &cards, &d, v, &ps, l)?;
                let whole = sufficient_statistics(&net, &ds, v, &ps);
                let mut m = Array3::<usize>::zeros((whole.0.shape()[0], cards[v], cards[v]));
                let mut t = Array2::<f64>::zeros((whole.1.shape()[0], cards[v]));
                for x in &d {
                    let one = sufficient_statistics(&net, &dataset_of(&[x.clone()], cards.len()), v, &ps);
                    m = m + one.0;
                    t = t + one.1;
                }
                ensure!(m == whole.0 && t == whole.1, "node {} parents {:?}: the statistics of {} trajectories are not the sum of those of each", v, ps, d.len());
                for perm in orders(d.len()) {
                    let p: Vec<Traj> = perm.iter().map(|i| d[*i].clone()).collect();
                    let r = sufficient_statistics(&net, &dataset_of(&p, cards.len()), v, &ps);
                    ensure!(r.0 == whole.0 && r.1 == whole.1, "node {} parents {:?}: the statistics depend on the order {:?} of the trajectories", v, ps, perm);
                }
            }
        }
        Ok(())
    });
    ctx.family("wide and long data", WIDE_DOC, WIDE * ctx.pick(1, 12), |c, l| {
        let (cards, d, q) = wide_data(c);
        let net = Net { cards: cards.clone(), parents: vec![Set::new(); cards.len()], cims: vec![] }.build_structure();
        let ds = dataset_of(&d, cards.len());
        l.state(&c);
        for (v, ps) in q {
            check_stats(&net, &ds, &cards, &d, v, &ps, l).map_err(clip)?;
        }
        Ok(())
    });
    ctx.family("Markov processes", PROCESS_DOC, PROCESS, |c, l| {
        let (k, d) = process_data(c);
        l.state(&c);
        check_stats(&process(k), &dataset_of(&d, 1), &[k], &d, 0, &Set::new(), l)
    });
    ctx.family("steps of every size", SCALED_DOC, UNITS.len() * 32, |c, l| {
        let (cards, d, _) = scaled(c * ALPHAS.len() * TAUS.len());
        let net = carrier(&cards, c.wrapping_mul(40503));
        let ds = dataset_of(&d, cards.len());
        l.state(&c);
        for v in 0..cards.len() {
            for ps in parent_sets(cards.len(), v) {
                check_stats(&net, &ds, &cards, &d, v, &ps, l)?;
            }
        }
        Ok(())
    });
    ctx.sample("[2,3] variables, rows (0,2) (1,2) (1,0) at 0, 1/64, 3/64: node 1 given {0} leaves 2 for 0 once under configuration 1, with times 1/64 and 2/64".into());
}

// ------------------------------------------------------------------------------------------ C13

struct Before {
    cims: Vec<Option<Array3<f64>>>,
    edges: Vec<Set>,
    data: Vec<Traj>,
}
fn before(net: &CtbnNetwork, ds: &Dataset) -> Before {
    Before {
        cims: net.get_node_indices().map(|v| inner(net.get_node(v)).get_cim().clone()).collect(),
        edges: net.get_node_indices().map(|v| net.get_parent_set(v)).collect(),
        data: undataset(ds),
    }
}
impl Before {
    fn check(&self, net: &CtbnNetwork, ds: &Dataset) -> Res {
        let now = before(net, ds);
        ensure!(self.edges == now.edges, "the edges of the network changed");
        ensure!(self.cims == now.cims, "the parameters of the network changed");
        ensure!(self.data == now.data, "the dataset changed");
        Ok(())
    }
}

/// `bayes`: both hyperparameters, or maximum likelihood.
fn check_estimate(p: &Params, bayes: Option<(usize, f64)>, cards: &[usize], d: &[Traj], v: usize, ps: &Set, l: &mut Loc) -> Res {
    let (m, t) = stats(cards, d, v, ps);
    let p2 = inner(p);
    let what = format!("{:?} node {} parents {:?}", bayes, v, ps);
    ensure!(*p2.get_label() == label(v) && p.get_reserved_space_as_parent() == cards[v], "{}: label or states changed", what);
    ensure!(p2.get_transitions().as_ref() == Some(&m), "{}: carries the transitions {:?} instead of {:?}", what, p2.get_transitions(), m);
    let rt = p2.get_residence_time().as_ref().ok_or(format!("{}: no residence times", what))?;
    ensure!(rt.shape() == t.shape() && rt.iter().zip(t.iter()).all(|(a, b)| (a - b).abs() <= 1e-11 * b.abs()), "{}: carries the residence times {:?} instead of {:?}", what, rt, t);
    let c = p2.get_cim().as_ref().ok_or(format!("{}: no CIM", what))?;
    ensure!(c.shape() == m.shape(), "{}: CIM of shape {:?}", what, c.shape());
    let (u, k) = (m.shape()[0], cards[v]);
    let (a, tau) = bayes.map_or((0.0, 0.0), |(a, tau)| (a as f64 / u as f64, tau / u as f64));
    let mut all = true;
    for cfg in 0..u {
        for x in 0..k {
            if t[[cfg, x]] + tau <= 0.0 {
                all = false;
                continue;
            }
            let mut sum = 0.0;
            for y in 0..k {
                if x != y {
                    let w = (m[[cfg, x, y]] as f64 + a) / (t[[cfg, x]] + tau);
                    let g = c[[cfg, x, y]];
                    ensure!((g - w).abs() <= 1e-11 * w.abs(), "{}: rate {} -> {} under configuration {} is {} instead of {}", what, x, y, cfg, g, w);
                    sum += w;
                }
            }
            let g = -c[[cfg, x, x]];
            ensure!((g - sum).abs() <= 1e-11 * sum.abs(), "{}: diagonal {} under configuration {} is {} instead of {}", what, x, cfg, -g, -sum);
        }
    }
    if bayes.is_some_and(|(a, tau)| a > 0 && tau > 0.0) {
        ensure!(all && p.validate_params().is_ok(), "{}: the estimate does not pass validation: {:?}", what, c);
    }
    l.step(d.iter().map(|x| x.t.len() as u64).sum());
    l.trace();
    l.outcome(&bits(&c.iter().copied().collect::<Vec<_>>()));
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    ctx.assume("rows of the maximum likelihood estimate without observed time are not judged; hyperparameters of the Bayesian estimate are positive");
    let hyper = [(1usize, 1.0), (3, 0.5), (7, 1e-3), (2, 250.0)];
    let estimates = |c: usize, cards: &[usize], d: &[Traj], l: &mut Loc| -> Res {
        let ds = dataset_of(d, cards.len());
        let n = cards.len();
        let g = graph(n, c.wrapping_mul(2654435761) % n_graphs(n));
        // some of the networks carry parameters, which must neither matter nor change
        let net = if c % 4 == 0 { Net::distinct(cards, &g).build() } else { Net { cards: cards.to_vec(), parents: g.clone(), cims: vec![] }.build_structure() };
        let b = before(&net, &ds);
        for v in 0..n {
            for ps in parent_sets(n, v) {
                check_estimate(&MLE {}.fit(&net, &ds, v, Some(ps.clone())), None, cards, d, v, &ps, l)?;
                let h = hyper[(c + v + ps.len()) % hyper.len()];
                check_estimate(&BayesianApproach { alpha: h.0, tau: h.1 }.fit(&net, &ds, v, Some(ps.clone())), Some(h), cards, d, v, &ps, l)?;
            }
            check_estimate(&MLE {}.fit(&net, &ds, v, None), None, cards, d, v, &g[v], l).map_err(|e| format!("parents of the network: {}", e))?;
            check_estimate(&BayesianApproach { alpha: 2, tau: 0.3 }.fit(&net, &ds, v, None), Some((2, 0.3)), cards, d, v, &g[v], l).map_err(|e| format!("parents of the network: {}", e))?;
        }
        b.check(&net, &ds)?;
        l.state(&c);
        Ok(())
    };
    ctx.family("long walks", "walks of 300 events, 1, 2, 3 and 12 trajectories, some without rows, 1..6 variables of 2..12 states: every node, every parent set and that of the network", ctx.pick(280, 10_000), |c, l| {
        let (cards, d) = long_data(c);
        estimates(c, &cards, &d, l)
    });
    ctx.family("wide and long data", WIDE_DOC, WIDE * ctx.pick(1, 12), |c, l| {
        let (cards, d, q) = wide_data(c);
        let ds = dataset_of(&d, cards.len());
        let mut parents = vec![Set::new(); cards.len()];
        for (v, ps) in &q {
            parents[*v] = ps.clone();
        }
        let net = Net { cards: cards.clone(), parents: parents.clone(), cims: vec![] }.build_structure();
        let b = before(&net, &ds);
        let mut run = |v: usize, ps: &Set, own: bool, h: (usize, f64)| -> Res {
            let given = (!own).then(|| ps.clone());
            check_estimate(&MLE {}.fit(&net, &ds, v, given.clone()), None, &cards, &d, v, ps, l).map_err(clip)?;
            check_estimate(&BayesianApproach { alpha: h.0, tau: h.1 }.fit(&net, &ds, v, given), Some(h), &cards, &d, v, ps, l).map_err(clip)
        };
        for (i, (v, ps)) in q.iter().enumerate() {
            run(*v, ps, false, [(1, 1.0), (3, 0.5), (1000, 1e-3), (70_000, 1e6)][i % 4])?;
        }
        for (v, ps) in parents.iter().enumerate().filter(|(v, _)| q.iter().any(|x| x.0 == *v)) {
            run(v, ps, true, (2, 0.3))?;
        }
        l.state(&c);
        b.check(&net, &ds)
    });
    ctx.family("Markov processes", PROCESS_DOC, PROCESS, |c, l| {
        let (k, d) = process_data(c);
        let (p, ds) = (process(k), dataset_of(&d, 1));
        for given in [None, Some(Set::new())] {
            check_estimate(&MLE {}.fit(&p, &ds, 0, given.clone()), None, &[k], &d, 0, &Set::new(), l)?;
            let h = hyper[c % 4];
            check_estimate(&BayesianApproach { alpha: h.0, tau: h.1 }.fit(&p, &ds, 0, given), Some(h), &[k], &d, 0, &Set::new(), l)?;
        }
        l.state(&c);
        ensure!(inner(p.get_node(0)).get_cim().is_none() && undataset(&ds) == d, "the process or the dataset changed");
        Ok(())
    });
    ctx.family("hyperparameters and steps of every size", &format!("{}, and 0", SCALED_DOC), SCALED, |c, l| {
        let (cards, d, h) = scaled(c);
        let net = carrier(&cards, c.wrapping_mul(40503));
        let ds = dataset_of(&d, cards.len());
        l.state(&c);
        for v in 0..cards.len() {
            for (i, ps) in parent_sets(cards.len(), v).into_iter().enumerate() {
                // without pseudo-counts or pseudo-times in some
                let h = (if (c + i) % 11 == 0 { 0 } else { h.0 }, if (c + i) % 13 == 0 { 0.0 } else { h.1 });
                check_estimate(&BayesianApproach { alpha: h.0, tau: h.1 }.fit(&net, &ds, v, Some(ps.clone())), Some(h), &cards, &d, v, &ps, l)?;
                if c % (ALPHAS.len() * TAUS.len()) == 0 {
                    check_estimate(&MLE {}.fit(&net, &ds, v, Some(ps.clone())), None, &cards, &d, v, &ps, l)?;
                }
            }
        }
        Ok(())
    });
    for s in spaces(ctx.pick(70_000, 5_000_000)) {
        let name = format!("{:?} variables, {:?} rows", s.cards, s.rows);
        ctx.family(&name, "all event sequences (every joint state at every row), every node, every parent set and that of the network, both estimators", s.size(), |c, l| estimates(c, &s.cards, &s.data(c), l));
    }
    ctx.sample("[2,3] variables, node 1 given {0}, alpha 3, tau 0.5: every rate (count + 1.5) / (time + 0.25)".into());
}

// ------------------------------------------------------------------------------------------ C14

/// ln Gamma(a + m) - ln Gamma(a), as a sum.
fn rising(a: f64, m: usize) -> f64 {
    (0..m).map(|i| (a + i as f64).ln()).sum()
}

/// The marginal likelihood, and the magnitude of its terms.
fn log_likelihood(cards: &[usize], d: &[Traj], v: usize, ps: &Set, alpha: usize, tau: f64) -> (f64, f64) {
    let (m, t) = stats(cards, d, v, ps);
    let (u, k) = (m.shape()[0], cards[v]);
    let (a, tau) = (alpha as f64 / u as f64, tau / u as f64);
    let (mut sum, mut size) = (0.0, 1.0);
    let mut add = |x: f64| {
        sum += x;
        size += x.abs();
    };
    for c in 0..u {
        for x in 0..k {
            let n: usize = (0..k).filter(|y| *y != x).map(|y| m[[c, x, y]]).sum();
            add(rising(a + 1.0, n));
            add((a + 1.0) * tau.ln());
            add(-(a + 1.0 + n as f64) * (tau + t[[c, x]]).ln());
            add(-rising(a, n));
            for y in 0..k {
                if x != y {
                    add(rising(a, m[[c, x, y]]));
                }
            }
        }
    }
    // ratios of Gamma functions of large arguments have the error of their logarithms
    size += 1e-3 * (a + 1.0) * (a + 1.0).ln() * (u * k * k) as f64;
    (sum, size)
}

fn check_scores<N: NetworkProcess>(net: &N, ds: &Dataset, cards: &[usize], d: &[Traj], v: usize, ps: &Set, h: (usize, f64), l: &mut Loc) -> Res {
    let (ll, bic) = (LogLikelihood::new(h.0, h.1), BIC::new(h.0, h.1));
    let g = ll.call(net, v, ps, ds);
    let (w, size) = log_likelihood(cards, d, v, ps, h.0, h.1);
    ensure!((g - w).abs() <= 1e-10 * size, "log-likelihood of {} given {:?} of {:?} with {:?}: {} instead of {}", v, ps, cards, h, g, w);
    let again = ll.call(net, v, ps, ds);
    ensure!(g.to_bits() == again.to_bits(), "the log-likelihood of {} given {:?} changes from {} to {}", v, ps, g, again);
    let rows: usize = d.iter().map(|x| x.t.len().saturating_sub(1)).sum();
    if rows > 0 {
        let free = joint(cards, ps) * cards[v] * (cards[v] - 1);
        let pen = (rows as f64).ln() / 2.0 * free as f64;
        let b = bic.call(net, v, ps, ds);
        ensure!((b - (w - pen)).abs() <= 1e-10 * (size + pen), "BIC of {} given {:?} of {:?} with {:?}: {} instead of {}", v, ps, cards, h, b, w - pen);
    }
    l.step(d.iter().map(|x| x.t.len() as u64).sum());
    l.trace();
    l.outcome(&g.to_bits());
    Ok(())
}

pub fn c14(ctx: &mut Ctx) {
    ctx.assume("positive hyperparameters; ln Gamma ratios are computed as sums of logarithms, agreement within 1e-10 of the size of the terms; BIC is judged on at least one observed interval");
    let hyper = [(1usize, 1.0), (3, 0.5), (7, 1e-3), (2, 250.0)];
    for s in spaces(ctx.pick(70_000, 5_000_000)) {
        let name = format!("{:?} variables, {:?} rows", s.cards, s.rows);
        let s = &s;
        ctx.family(&name, "all event sequences (every joint state at every row), every node, every parent set, 4 pairs of hyperparameters in turn, edges in the network irrelevant", s.size(), |c, l| {
            let d = s.data(c);
            let ds = dataset_of(&d, s.cards.len());
            let net = carrier(&s.cards, c.wrapping_mul(2654435761));
            for v in 0..s.cards.len() {
                for ps in parent_sets(s.cards.len(), v) {
                    check_scores(&net, &ds, &s.cards, &d, v, &ps, hyper[(c + v + ps.len()) % 4], l)?;
                }
            }
            l.state(&c);
            Ok(())
        });
    }
    ctx.family("long walks", "walks of 300 events, 1, 2, 3 and 12 trajectories, some without rows, 1..6 variables of 2..12 states: every node, parent set and pair of hyperparameters; orders of the trajectories, data of the other variables and edges changed", ctx.pick(210, 10_000), |c, l| {
        let (cards, d) = long_data(c);
        let n = cards.len();
        let net = carrier(&cards, c.wrapping_mul(40503));
        let other_net = Net::distinct(&cards, &graph(n, c.wrapping_mul(2654435761) % n_graphs(n))).build();
        let ds = dataset_of(&d, cards.len());
        l.state(&c);
        for v in 0..n {
            for ps in parent_sets(n, v) {
                for h in hyper {
                    check_scores(&net, &ds, &cards, &d, v, &ps, h, l)?;
                }
                let h = hyper[(c + v) % 4];
                let (ll, bic) = (LogLikelihood::new(h.0, h.1), BIC::new(h.0, h.1));
                let want = (ll.call(&net, v, &ps, &ds).to_bits(), bic.call(&net, v, &ps, &ds).to_bits());
                let same = |what: &str, net: &CtbnNetwork, ds: &Dataset| -> Res {
                    let got = (ll.call(net, v, &ps, ds).to_bits(), bic.call(net, v, &ps, ds).to_bits());
                    ensure!(got == want, "the scores of {} given {:?} change with {}: {} instead of {}", v, ps, what, f64::from_bits(got.0), f64::from_bits(want.0));
                    Ok(())
                };
                for perm in orders(d.len()) {
                    let p: Vec<Traj> = perm.iter().map(|i| d[*i].clone()).collect();
                    same("the order of the trajectories", &net, &dataset_of(&p, cards.len()))?;
                }
                same("the edges and parameters of the network", &other_net, &ds)?;
                if ps.len() + 1 < n {
                    let mut e = d.clone();
                    for (r, row) in e.iter_mut().flat_map(|x| x.e.iter_mut()).enumerate() {
                        for o in 0..n {
                            if o != v && !ps.contains(&o) {
                                row[o] = (row[o] + r * r + 1) % cards[o];
                            }
                        }
                    }
                    same("the data of other variables", &net, &dataset_of(&e, cards.len()))?;
                }
                l.step(8);
            }
        }
        Ok(())
    });
    ctx.family("wide and long data", WIDE_DOC, WIDE * ctx.pick(1, 12), |c, l| {
        let (cards, d, q) = wide_data(c);
        let net = Net { cards: cards.clone(), parents: vec![Set::new(); cards.len()], cims: vec![] }.build_structure();
        let ds = dataset_of(&d, cards.len());
        l.state(&c);
        for (i, (v, ps)) in q.iter().enumerate() {
            let h = [(1, 1.0), (3, 0.5), (7, 1e-3), (2, 250.0), (1000, 1e5)][i % 5];
            check_scores(&net, &ds, &cards, &d, *v, ps, h, l).map_err(clip)?;
        }
        Ok(())
    });
    ctx.family("Markov processes", PROCESS_DOC, PROCESS, |c, l| {
        let (k, d) = process_data(c);
        l.state(&c);
        for h in hyper {
            check_scores(&process(k), &dataset_of(&d, 1), &[k], &d, 0, &Set::new(), h, l)?;
        }
        Ok(())
    });
    ctx.family("hyperparameters and steps of every size", SCALED_DOC, SCALED, |c, l| {
        let (cards, d, h) = scaled(c);
        let net = carrier(&cards, c.wrapping_mul(40503));
        let ds = dataset_of(&d, cards.len());
        l.state(&c);
        for v in 0..cards.len() {
            for ps in parent_sets(cards.len(), v) {
                check_scores(&net, &ds, &cards, &d, v, &ps, h, l)?;
            }
        }
        Ok(())
    });
    ctx.sample("[2,3] variables, node 0 given {1}, alpha 2, tau 250: pseudo-count 2/3 and pseudo-time 250/3 for each configuration".into());
}
