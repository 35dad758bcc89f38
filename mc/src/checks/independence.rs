//! C15 independence tests, C16 CTPC.

use crate::core::*;
use crate::ensure;
use crate::model::*;
use ndarray::{Array2, Array3};
use reCTBN::parameter_learning::{ParameterLearning, MLE};
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::constraint_based_algorithm::{Cache, CTPC};
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, HypothesisTest, F};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::{trajectory_generator, Dataset};
use statrs::distribution::{ChiSquared, ContinuousCDF, FisherSnedecor};
use std::collections::BTreeSet;

// ------------------------------------------------------------------- The tests, by definition

/// Independent, dependent, or too close to call.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Independent,
    Dependent,
    Close,
}
use Verdict::*;

fn and(a: Verdict, b: Verdict) -> Verdict {
    match (a, b) {
        (Dependent, _) | (_, Dependent) => Dependent,
        (Close, _) | (_, Close) => Close,
        _ => Independent,
    }
}
fn below(x: f64, limit: f64) -> Verdict {
    if (x - limit).abs() < 1e-9 {
        Close
    } else if x < limit {
        Independent
    } else {
        Dependent
    }
}

/// Two samples of the destinations of one state: statistic of the two-sample chi-squared test
/// with unequal totals.
fn chi2_row(a: &[usize], b: &[usize], alpha: f64) -> Verdict {
    let (ra, rb) = (a.iter().sum::<usize>() as f64, b.iter().sum::<usize>() as f64);
    if ra == 0.0 || rb == 0.0 {
        return Independent;
    }
    let x: f64 = a
        .iter()
        .zip(b)
        .filter(|(x, y)| **x + **y > 0)
        .map(|(x, y)| ((ra / rb).sqrt() * *y as f64 - (rb / ra).sqrt() * *x as f64).powi(2) / (x + y) as f64)
        .sum();
    // k states, k - 1 destinations, k - 1 degrees of freedom
    let p = ChiSquared::new(a.len() as f64).unwrap().cdf(x);
    below(p, 1.0 - alpha)
}
fn f_row(ra: usize, qa: f64, rb: usize, qb: f64, alpha: f64) -> Verdict {
    if ra == 0 || rb == 0 {
        return Independent;
    }
    let p = FisherSnedecor::new(ra as f64, rb as f64).unwrap().cdf(qb / qa);
    and(below(p, 1.0 - alpha / 2.0), below(alpha / 2.0, p))
}

/// The counts of the destinations of state `x` (all other states).
fn row(m: &Array3<usize>, c: usize, x: usize) -> Vec<usize> {
    (0..m.shape()[2]).filter(|y| *y != x).map(|y| m[[c, x, y]]).collect()
}

fn chi2(m1: &Array3<usize>, i: usize, m2: &Array3<usize>, j: usize, alpha: f64) -> Verdict {
    (0..m1.shape()[1]).map(|x| chi2_row(&row(m1, i, x), &row(m2, j, x), alpha)).fold(Independent, and)
}
fn f(m1: &Array3<usize>, q1: &Array3<f64>, i: usize, m2: &Array3<usize>, q2: &Array3<f64>, j: usize, alpha: f64) -> Verdict {
    (0..m1.shape()[1])
        .map(|x| f_row(row(m1, i, x).iter().sum(), q1[[i, x, x]], row(m2, j, x).iter().sum(), q2[[j, x, x]], alpha))
        .fold(Independent, and)
}

#[derive(Clone)]
pub struct Table {
    m: Array3<usize>,
    q: Array3<f64>,
}
/// Maximum likelihood rates of counts and times.
fn table(m: Array3<usize>, t: &Array2<f64>) -> Table {
    let mut q = m.mapv(|x| x as f64);
    for c in 0..m.shape()[0] {
        for x in 0..m.shape()[1] {
            let mut s = 0.0;
            for y in 0..m.shape()[1] {
                q[[c, x, y]] /= t[[c, x]];
                if x != y {
                    s += q[[c, x, y]];
                }
            }
            q[[c, x, x]] = -s;
        }
    }
    Table { m, q }
}

/// The pairs of a configuration without the parent and one with it that agree.
fn matching(cards: &[usize], parent: usize, sep: &Set) -> Vec<(usize, usize)> {
    let mut ext = sep.clone();
    ext.insert(parent);
    (0..joint(cards, &ext))
        .map(|n| {
            let mut s = vec![0; cards.len()];
            let mut k = n;
            for v in &ext {
                s[*v] = k % cards[*v];
                k /= cards[*v];
            }
            (config(cards, sep, &s), config(cards, &ext, &s))
        })
        .collect()
}

/// Both verdicts for every configuration with the parent against the matching one without.
fn test(cards: &[usize], parent: usize, sep: &Set, small: &Table, big: &Table, alphas: (f64, f64)) -> (Verdict, Verdict) {
    let mut out = (Independent, Independent);
    for (i, j) in matching(cards, parent, sep) {
        out.0 = and(out.0, f(&small.m, &small.q, i, &big.m, &big.q, j, alphas.0));
        out.1 = and(out.1, chi2(&small.m, i, &big.m, j, alphas.1));
    }
    out
}

/// A parameter learner with given tables.
pub struct Given<G: Fn(usize, &Set) -> Table + Sync>(pub G);
impl<G: Fn(usize, &Set) -> Table + Sync> ParameterLearning for Given<G> {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, ps: Option<BTreeSet<usize>>) -> Params {
        let ps = ps.unwrap_or_else(|| net.get_parent_set(node));
        let t = (self.0)(node, &ps);
        let mut p = net.get_node(node).clone();
        let d = inner_mut(&mut p);
        d.set_residence_time(Array2::ones((t.m.shape()[0], t.m.shape()[1])));
        d.set_cim_unchecked(t.q);
        d.set_transitions(t.m);
        p
    }
}

pub fn dummy(n: usize) -> Dataset {
    dataset(&[Traj { t: vec![0.0, 1.0], e: vec![vec![0; n], vec![0; n]] }])
}
fn says(v: Verdict, got: bool) -> bool {
    v == Close || (v == Independent) == got
}

// ------------------------------------------------------------------------------------------ C15

/// Does the answer of the F comparison agree? `rows` are the pairs of rows compared.
fn f_says(w: Verdict, got: &Result<bool, String>, empty_row: bool, l: &mut Loc) -> bool {
    match got {
        Ok(g) => says(w, *g),
        Err(_) => empty_row && l.finding("F-EMPTY-ROW"),
    }
}
fn chi2_says(w: Verdict, got: bool, empty_cell: bool, l: &mut Loc) -> bool {
    says(w, got) || (!got && empty_cell && l.finding("CHI2-EMPTY-CELL"))
}
/// A state is never left in one of the two configurations.
fn empty_row(a: &Array3<usize>, i: usize, b: &Array3<usize>, j: usize) -> bool {
    (0..a.shape()[1]).any(|x| row(a, i, x).iter().sum::<usize>() == 0 || row(b, j, x).iter().sum::<usize>() == 0)
}
/// ... or a transition is observed in neither.
fn empty_cell(a: &Array3<usize>, i: usize, b: &Array3<usize>, j: usize) -> bool {
    empty_row(a, i, b, j) || (0..a.shape()[1]).any(|x| row(a, i, x).iter().zip(row(b, j, x)).any(|(p, q)| p + q == 0))
}
/// Some compared pair of configurations satisfies the predicate.
fn any_pair(cards: &[usize], parent: usize, sep: &Set, small: &Table, big: &Table, p: fn(&Array3<usize>, usize, &Array3<usize>, usize) -> bool) -> bool {
    matching(cards, parent, sep).into_iter().any(|(i, j)| p(&small.m, i, &big.m, j))
}

/// One row of interest: the counts `a` and `b` of the destinations of state `x`, all other rows
/// from a fixed background that agrees in both.
fn one_row(k: usize, x: usize, a: &[usize], background: usize) -> Array3<usize> {
    let mut m = Array3::zeros((1, k, k));
    for s in 0..k {
        let mut i = 0;
        for y in 0..k {
            if s != y {
                m[[0, s, y]] = if s == x { a[i] } else { background * (1 + s + 2 * y) };
                i += 1;
            }
        }
    }
    m
}

pub fn c15(ctx: &mut Ctx) {
    ctx.assume("the distribution functions are those of statrs; a statistic within 1e-9 of the limit (in probability) accepts both answers; rates of observed transitions are finite and positive");
    let alphas = [1e-4, 0.01, 0.05, 0.1, 0.3, 0.5, 0.9];
    let big: Vec<usize> = vec![0, 1, 2, 3, 5, 8, 13, 40, 100, 1000, 1_000_000];
    // --- chi-squared, one row at a time
    for k in [2usize, 3, 4, 5] {
        let al: Vec<usize> = match k {
            2 => big.clone(),
            3 => ctx.pick(big[..10].to_vec(), big.clone()),
            4 => ctx.pick(vec![0, 1, 4, 10, 100], vec![0, 1, 2, 4, 10, 30, 100]),
            _ => ctx.pick(vec![0, 2, 30], vec![0, 2, 9, 30]),
        };
        let n = al.len().pow(2 * (k as u32 - 1));
        let al = &al;
        ctx.family(&format!("chi-squared, a row of {} states", k), &format!("all pairs of rows over the counts {:?}, in each position, with an empty or an agreeing background, 7 significance levels", al), n, |c, l| {
            let d: Vec<usize> = digits(c, &vec![al.len(); 2 * (k - 1)]).iter().map(|i| al[*i]).collect();
            let (a, b) = d.split_at(k - 1);
            let x = c % k;
            for background in [0, 1] {
                let (m1, m2) = (one_row(k, x, a, background), one_row(k, x, b, background));
                for alpha in alphas {
                    let t = ChiSquare::new(alpha);
                    let w = chi2(&m1, 0, &m2, 0, alpha);
                    let g = t.compare_matrices(0, &m1, 0, &m2);
                    ensure!(chi2_says(w, g, empty_cell(&m1, 0, &m2, 0), l), "chi-squared at {}: row {:?} against {:?} answers {}, expected {:?}", alpha, a, b, g, w);
                    ensure!(chi2_says(Independent, t.compare_matrices(0, &m1, 0, &m1), empty_cell(&m1, 0, &m1, 0), l), "chi-squared at {}: {:?} is not independent of itself", alpha, m1);
                    l.step(2);
                    l.outcome(&(g, w == Close));
                }
            }
            l.trace();
            l.state(&c);
            Ok(())
        });
    }
    // --- chi-squared, whole tables, and several configurations
    let al: Vec<usize> = ctx.pick(vec![0, 2, 30], vec![0, 1, 30]);
    let al3 = &al;
    ctx.family("chi-squared, tables of 3 states", "all pairs of tables over three counts, as configuration 1 of 3 against 2 of 4 (the others being different), two significance levels", al.len().pow(12), |c, l| {
        let d: Vec<usize> = digits(c, &[3; 12]).iter().map(|i| al3[*i]).collect();
        let fill = |n: usize, at: usize, d: &[usize]| {
            let mut m = Array3::from_shape_fn((n, 3, 3), |(u, x, y)| if x == y { 0 } else { 1000 * ((u + y) % 3) });
            let mut i = 0;
            for x in 0..3 {
                for y in 0..3 {
                    if x != y {
                        m[[at, x, y]] = d[i];
                        i += 1;
                    }
                }
            }
            m
        };
        let (m1, m2) = (fill(3, 1, &d[..6]), fill(4, 2, &d[6..]));
        for alpha in [0.05, 0.3] {
            let w = chi2(&m1, 1, &m2, 2, alpha);
            let g = ChiSquare::new(alpha).compare_matrices(1, &m1, 2, &m2);
            ensure!(chi2_says(w, g, empty_cell(&m1, 1, &m2, 2), l), "chi-squared at {}: {:?} against {:?} answers {}, expected {:?}", alpha, &d[..6], &d[6..], g, w);
            l.outcome(&g);
        }
        l.step(2);
        l.trace();
        if c % 64 == 0 {
            l.state(&c);
        }
        Ok(())
    });
    // --- F, counts and rates
    let counts: Vec<usize> = vec![0, 1, 2, 3, 5, 10, 30, 100, 1000, 20_000];
    let times: Vec<f64> = vec![1e-3, 0.1, 0.5, 0.8, 1.0, 1.1, 1.5, 2.0, 10.0, 1e3];
    let (counts, times) = (&counts, &times);
    ctx.family("F, one row", "2 and 3 states; all pairs of 10 counts and 10 ratios of times, in each position, background empty or agreeing, 7 significance levels; rates that are undefined where nothing was observed", 2 * 10 * 10 * 10 * 3, |c, l| {
        let d = digits(c, &[2, 10, 10, 10, 3]);
        let k = 2 + d[0];
        let x = d[4] % k;
        let split = |n: usize| if k == 2 { vec![n] } else { vec![n / 3, n - n / 3] };
        for background in [0, 1] {
            let (m1, m2) = (one_row(k, x, &split(counts[d[1]]), background), one_row(k, x, &split(counts[d[2]]), background));
            let (mut t1, mut t2) = (Array2::from_elem((1, k), 2.0), Array2::from_elem((1, k), 2.0));
            t1[[0, x]] = 3.0 * counts[d[1]].max(1) as f64;
            t2[[0, x]] = 3.0 * counts[d[2]].max(1) as f64 * times[d[3]];
            if background == 0 && d[3] % 2 == 0 {
                // no time at all in the empty rows: 0/0
                for y in 0..k {
                    if y != x {
                        t1[[0, y]] = 0.0;
                        t2[[0, y]] = 0.0;
                    }
                }
                if counts[d[1]] == 0 {
                    t1[[0, x]] = 0.0;
                }
                if counts[d[2]] == 0 {
                    t2[[0, x]] = 0.0;
                }
            }
            let (a, b) = (table(m1, &t1), table(m2, &t2));
            for alpha in alphas {
                let w = f(&a.m, &a.q, 0, &b.m, &b.q, 0, alpha);
                let t = F::new(alpha);
                let g = guard(|| t.compare_matrices(0, &a.m, &a.q, 0, &b.m, &b.q));
                ensure!(f_says(w, &g, empty_row(&a.m, 0, &b.m, 0), l), "F at {}: counts {} and {}, ratio of times {}: answers {:?}, expected {:?}", alpha, counts[d[1]], counts[d[2]], times[d[3]], g, w);
                let same = guard(|| t.compare_matrices(0, &a.m, &a.q, 0, &a.m, &a.q));
                ensure!(f_says(Independent, &same, empty_row(&a.m, 0, &a.m, 0), l), "F at {}: {:?} is not independent of itself", alpha, a.m);
                l.step(2);
                l.outcome(&(g, w == Close));
            }
        }
        l.trace();
        l.state(&c);
        Ok(())
    });
    ctx.family("F, tables of 3 states", "all assignments of count 0, 4, 50 and time ratio 1/2, 1, 3 to the rows of two tables, as configuration 1 of 3 against 2 of 4", 3usize.pow(9), |c, l| {
        let d = digits(c, &[3; 9]);
        let build = |n: usize, at: usize, counts: &[usize], ratio: Option<&[usize]>| {
            let mut m = Array3::from_shape_fn((n, 3, 3), |(u, x, y)| if x == y { 0 } else { 100 * (1 + (u + y) % 3) });
            let mut t = Array2::from_shape_fn((n, 3), |(u, x)| 1.0 + (u * 7 + x) as f64);
            for x in 0..3 {
                let r = [0, 4, 50][counts[x]];
                for y in 0..3 {
                    m[[at, x, y]] = if x == y { 0 } else if y == (x + 1) % 3 { r / 2 } else { r - r / 2 };
                }
                t[[at, x]] = r.max(1) as f64 * ratio.map_or(1.0, |q| [0.5, 1.0, 3.0][q[x]]);
            }
            table(m, &t)
        };
        let (a, b) = (build(3, 1, &d[..3], None), build(4, 2, &d[3..6], Some(&d[6..])));
        for alpha in [0.01, 0.2] {
            let w = f(&a.m, &a.q, 1, &b.m, &b.q, 2, alpha);
            let g = guard(|| F::new(alpha).compare_matrices(1, &a.m, &a.q, 2, &b.m, &b.q));
            ensure!(f_says(w, &g, empty_row(&a.m, 1, &b.m, 2), l), "F at {}: {:?} answers {:?}, expected {:?}", alpha, d, g, w);
            l.outcome(&g);
        }
        l.step(2);
        l.trace();
        l.state(&c);
        Ok(())
    });

    // --- every (child, parent, separating set), every single difference
    let mut card_sets: Vec<Vec<usize>> = vec![vec![3, 2, 4, 3], vec![2, 3, 3, 2], vec![4, 3, 2, 2], vec![2, 2, 2, 2], vec![3, 3, 3], vec![2, 4, 3, 2, 3]];
    let mut cases = vec![];
    for (i, cards) in card_sets.iter().enumerate() {
        let n = cards.len();
        for child in 0..n {
            for parent in 0..n {
                for m in 0..1usize << n {
                    if child != parent && m >> child & 1 == 0 && m >> parent & 1 == 0 {
                        cases.push((i, child, parent, mask(m)));
                    }
                }
            }
        }
    }
    // many variables, states and configurations
    for (cards, list) in [
        (vec![2, 65], vec![(0, 1, vec![]), (1, 0, vec![])]),
        (vec![3, 300], vec![(0, 1, vec![])]),
        (vec![17, 2, 5], vec![(1, 0, vec![2]), (1, 2, vec![0]), (2, 0, vec![1]), (0, 1, vec![2])]),
        (vec![2; 8], vec![(7, 0, (1..7).collect()), (0, 7, (1..7).collect()), (3, 4, vec![0, 1, 2, 5, 6, 7])]),
        ((0..130).map(|i| 2 + i % 3).collect(), vec![(0, 129, vec![64, 65]), (129, 0, vec![63, 127, 128]), (64, 128, vec![0, 32, 66]), (70, 69, vec![71]), (31, 32, vec![33, 97])]),
        (vec![2; 300], vec![(256, 255, vec![257, 299]), (299, 0, vec![256, 44])]),
    ] {
        cases.extend(list.into_iter().map(|(c, p, s): (usize, usize, Vec<usize>)| (card_sets.len(), c, p, s.into_iter().collect::<Set>())));
        card_sets.push(cards);
    }
    let card_sets = &card_sets;
    ctx.family("matching of configurations", "networks of 3..5 variables of mixed cardinality, and 16 cases of 8, 130 and 300 variables, up to 300 states and 340 configurations: every child, candidate parent and separating set; all configurations agree, or exactly one row of exactly one of them (each in turn) differs in its rate or in its destinations", cases.len(), |ci, l| {
        let (i, child, parent, sep) = &cases[ci];
        let cards = &card_sets[*i];
        let (child, parent) = (*child, *parent);
        let k = cards[child];
        let net = if cards.len() <= 5 { super::learning::carrier(cards, ci * 7919) } else { super::search::carrier_large(cards, ci * 7919) };
        let ds = dummy(cards.len());
        let mut ext = sep.clone();
        ext.insert(parent);
        // counts and times of configuration u without the parent, all of them different
        let counts = |u: usize, x: usize, y: usize| 1000 * (5 + (u * (y + 1) + 3 * x + y * y) % 17);
        let time = |u: usize, x: usize| (0..k).filter(|y| *y != x).map(|y| counts(u, x, y)).sum::<usize>() as f64 / (1.0 + u as f64 * 0.3);
        let nu = joint(cards, sep);
        let small = table(Array3::from_shape_fn((nu, k, k), |(u, x, y)| if x == y { 0 } else { counts(u, x, y) }), &Array2::from_shape_fn((nu, k), |(u, x)| time(u, x)));
        let nb = joint(cards, &ext);
        let base = |b: usize| {
            // configuration of the separating set within configuration b of the extended one
            let mut s = vec![0; cards.len()];
            let mut r = b;
            for v in &ext {
                s[*v] = r % cards[*v];
                r /= cards[*v];
            }
            config(cards, sep, &s)
        };
        // differences: none, or (configuration, row, kind)
        let mut diffs: Vec<Option<(usize, usize, usize)>> = vec![None];
        for b in 0..nb {
            for x in 0..k {
                diffs.push(Some((b, x, 0)));
                if k > 2 {
                    diffs.push(Some((b, x, 1)));
                }
            }
        }
        for diff in diffs {
            let mut m = Array3::from_shape_fn((nb, k, k), |(b, x, y)| if x == y { 0 } else { counts(base(b), x, y) / 10 });
            let mut t = Array2::from_shape_fn((nb, k), |(b, x)| time(base(b), x) / 10.0);
            match diff {
                Some((b, x, 0)) => t[[b, x]] *= 2.0,
                Some((b, x, _)) => {
                    // same total, other destinations
                    let (y, z) = ((x + 1) % k, (x + 2) % k);
                    let move_ = m[[b, x, y]] / 2;
                    m[[b, x, y]] -= move_;
                    m[[b, x, z]] += move_;
                }
                None => (),
            }
            let big = table(m, &t);
            let pl = Given(|node: usize, ps: &Set| {
                assert!(node == child, "asked for node {} instead of {}", node, child);
                if *ps == *sep {
                    small.clone()
                } else {
                    assert!(*ps == ext, "asked for parents {:?}", ps);
                    big.clone()
                }
            });
            let w = test(cards, parent, sep, &small, &big, (0.01, 0.01));
            // the reference itself must see exactly the difference planted
            let plan = (if diff.is_some_and(|d| d.2 == 0) { Dependent } else { Independent }, if diff.is_some_and(|d| d.2 == 1) { Dependent } else { Independent });
            ensure!(w == plan, "internal: {:?} instead of {:?} for {:?}", w, plan, diff);
            let g = (
                F::new(0.01).call(&net, child, parent, sep, &ds, &mut Cache::new(&pl)),
                ChiSquare::new(0.01).call(&net, child, parent, sep, &ds, &mut Cache::new(&pl)),
            );
            ensure!(says(w.0, g.0), "F test of {} given {:?} for child {} of {:?}, difference {:?}: answers {}", parent, sep, child, cards, diff, g.0);
            ensure!(says(w.1, g.1), "chi-squared test of {} given {:?} for child {} of {:?}, difference {:?}: answers {}", parent, sep, child, cards, diff, g.1);
            // both tests on one cache
            let mut cache = Cache::new(&pl);
            let h = (F::new(0.01).call(&net, child, parent, sep, &ds, &mut cache), ChiSquare::new(0.01).call(&net, child, parent, sep, &ds, &mut cache));
            ensure!(g == h, "the answers depend on the cache: {:?} and {:?}", g, h);
            l.step(4);
            l.trace();
            l.state(&(ci, diff));
            l.outcome(&(ci, g));
        }
        Ok(())
    });

    // --- on data, through maximum likelihood
    ctx.family("on data", "sampled data of 5 networks of 3..4 variables and short walks: every child, candidate parent and separating set, on maximum likelihood estimates, 3 significance levels", ctx.pick(60, 3000), |c, l| {
        let (cards, d) = sampled(c);
        let net = super::learning::carrier(&cards, c);
        let ds = dataset(&d);
        let n = cards.len();
        for child in 0..n {
            for parent in (0..n).filter(|p| *p != child) {
                for sep in super::learning::parent_sets(n, child).into_iter().filter(|s| !s.contains(&parent)) {
                    let mut ext = sep.clone();
                    ext.insert(parent);
                    let (small, big) = (estimate(&cards, &d, child, &sep), estimate(&cards, &d, child, &ext));
                    for alpha in [0.001, 0.05, 0.4] {
                        let w = test(&cards, parent, &sep, &small, &big, (alpha, alpha));
                        let pl = MLE {};
                        let mut cache = Cache::new(&pl);
                        let g = (
                            guard(|| F::new(alpha).call(&net, child, parent, &sep, &ds, &mut cache)),
                            ChiSquare::new(alpha).call(&net, child, parent, &sep, &ds, &mut cache),
                        );
                        let empty = (any_pair(&cards, parent, &sep, &small, &big, empty_row), any_pair(&cards, parent, &sep, &small, &big, empty_cell));
                        ensure!(f_says(w.0, &g.0, empty.0, l) && chi2_says(w.1, g.1, empty.1, l), "data {}: {} for child {} given {:?} at {}: (F, chi-squared) = {:?}, expected {:?}", c, parent, child, sep, alpha, g, w);
                        l.step(2);
                        l.trace();
                        l.outcome(&(g, child, parent));
                    }
                }
            }
        }
        l.state(&c);
        Ok(())
    });
    ctx.sample("cards [3,2,4,3], child 2, candidate 1, given {0,3}: 18 configurations against 9, one row of one of them with twice the time".into());
}

fn estimate(cards: &[usize], d: &[Traj], v: usize, ps: &Set) -> Table {
    let (m, t) = stats(cards, d, v, ps);
    table(m, &t)
}

/// Data with dependences of various strength.
pub fn sampled(c: usize) -> (Vec<usize>, Vec<Traj>) {
    let shapes: Vec<(Vec<usize>, Vec<(usize, usize)>)> = vec![
        (vec![3, 2, 3], vec![(0, 1), (1, 2)]),
        (vec![2, 2, 2], vec![(0, 2), (1, 2)]),
        (vec![2, 3, 2, 3], vec![(0, 1), (0, 2), (1, 3), (2, 3)]),
        (vec![3, 3, 2, 2], vec![(0, 1), (1, 0), (3, 2)]),
        (vec![2, 2, 3], vec![(0, 1), (1, 2), (2, 0)]),
    ];
    let (cards, edges) = shapes[c % 5].clone();
    let r = c / 5;
    if r % 4 == 3 {
        let d = (0..1 + r % 3).map(|i| walk(&cards, 5 + r * 3 % 60, (c + 17 * i) as u64)).collect();
        return (cards, d);
    }
    let mut p = vec![Set::new(); cards.len()];
    for (a, b) in edges {
        p[b].insert(a);
    }
    let net = Net::distinct(&cards, &p).build();
    let (n, t) = [(2, 3.0), (5, 20.0), (20, 50.0)][r % 4];
    (cards, undataset(&trajectory_generator(&net, n, t, Some(c as u64))))
}

// ------------------------------------------------------------------------------------------ C16

/// The level-wise PC procedure for one variable; `None` if a decision is too close to call.
pub fn reference_pc(n: usize, child: usize, mut independent: impl FnMut(usize, &Set) -> Option<bool>) -> Option<Set> {
    let mut cand: Set = (0..n).filter(|v| *v != child).collect();
    for size in 0..n {
        let mut keep = cand.clone();
        for p in &cand {
            let others: Vec<usize> = cand.iter().copied().filter(|o| o != p).collect();
            for m in 0..1usize << others.len() {
                if m.count_ones() as usize == size {
                    let sep: Set = others.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
                    if independent(*p, &sep)? {
                        keep.remove(p);
                        break;
                    }
                }
            }
        }
        cand = keep;
    }
    Some(cand)
}

pub fn labels_kept(net: &CtbnNetwork, cards: &[usize]) -> Res {
    ensure!(net.get_number_of_nodes() == cards.len(), "{} nodes", net.get_number_of_nodes());
    for v in 0..cards.len() {
        ensure!(*inner(net.get_node(v)).get_label() == label(v) && net.get_node(v).get_reserved_space_as_parent() == cards[v], "the label or the states of node {} changed", v);
        let want: Set = (0..cards.len()).filter(|c| net.get_parent_set(*c).contains(&v)).collect();
        ensure!(net.get_children_set(v) == want && !want.contains(&v), "children of {}: {:?} and {:?}", v, net.get_children_set(v), want);
    }
    Ok(())
}

/// Counts and rates of a level, the same for every configuration: the first digit decides the
/// rates, the second one the destinations.
pub fn level_table(cards: &[usize], child: usize, ps: &Set, rate: f64, shift: usize, total: usize) -> Table {
    let (u, k) = (joint(cards, ps), cards[child]);
    let m = Array3::from_shape_fn((u, k, k), |(_, x, y)| {
        if x == y {
            0
        } else if k == 2 {
            total
        } else {
            // destination number of y from x
            let d = (y + k - x) % k - 1;
            let w = [[5, 1], [3, 3], [1, 5]][shift.min(2)];
            match d {
                0 => total * w[0] / 6,
                1 => total * w[1] / 6,
                _ => total / 6,
            }
        }
    });
    let t = Array2::from_shape_fn((u, k), |(c, x)| (0..k).map(|y| m[[c, x, y]]).sum::<usize>() as f64 / rate);
    table(m, &t)
}

pub struct Pattern<'a> {
    cards: &'a [usize],
    /// levels of (variable, mask of the parent set)
    rate: Box<dyn Fn(usize, usize) -> f64 + Sync + 'a>,
    shift: Box<dyn Fn(usize, usize) -> usize + Sync + 'a>,
    total: usize,
}
pub fn mask_of(s: &Set) -> usize {
    s.iter().map(|v| 1 << v).sum()
}
impl Pattern<'_> {
    fn table(&self, node: usize, ps: &Set) -> Table {
        let m = mask_of(ps);
        level_table(self.cards, node, ps, (self.rate)(node, m), (self.shift)(node, m), self.total)
    }
    fn check(&self, g: usize, alphas: (f64, f64), l: &mut Loc) -> Res {
        let n = self.cards.len();
        let net = if n > 7 { super::search::carrier_large(self.cards, g) } else { super::learning::carrier(self.cards, g) };
        let pl = Given(|node, ps: &Set| self.table(node, ps));
        let learned = CTPC::new(pl, F::new(alphas.0), ChiSquare::new(alphas.1)).fit_transform(net, &dummy(n));
        labels_kept(&learned, self.cards)?;
        let mut all = vec![];
        for child in 0..n {
            let want = reference_pc(n, child, |p, sep| {
                let mut ext = sep.clone();
                ext.insert(p);
                let (small, big) = (self.table(child, sep), self.table(child, &ext));
                let w = test(self.cards, p, sep, &small, &big, alphas);
                match and(w.0, w.1) {
                    Independent => Some(true),
                    Dependent => Some(false),
                    Close => None,
                }
            });
            let got = learned.get_parent_set(child);
            if let Some(want) = want {
                ensure!(got == want, "parents of {} of {:?}: {:?} instead of {:?}", child, self.cards, got, want);
            }
            all.push(mask_of(&got));
        }
        l.step(n as u64);
        l.trace();
        l.outcome(&all);
        Ok(())
    }
}

/// The position of `m` among the subsets of the variables other than `v`.
pub fn squeeze(v: usize, m: usize) -> usize {
    (m & ((1 << v) - 1)) | (m >> (v + 1) << v)
}

pub fn c16(ctx: &mut Ctx) {
    ctx.assume("the outcomes of the tests are produced by parameter learners whose tables are far from, or well inside, the acceptance regions (decided by C15); decisions within 1e-9 of a limit are not judged");
    let a = (0.01, 0.01);
    // rate levels: equal levels are independent, different ones are not
    let cards3 = [vec![2, 2, 2], vec![3, 2, 4], vec![2, 3, 2]];
    let cards3 = &cards3;
    ctx.family("3 variables, rates", "all assignments of 3 levels of rates to the 4 possible parent sets of each variable (81 for each variable, all combinations for one cardinality), 64 graphs before learning in turn", ctx.pick(81 * 81, 81 * 81 * 81), |c, l| {
        let d = [c % 81, c / 81 % 81, if c >= 81 * 81 { c / 81 / 81 } else { (c * 31 + c / 81) % 81 }];
        let p = Pattern {
            cards: &cards3[c % 3],
            rate: Box::new(move |v, m| [1.0, 3.0, 9.0][d[v] / 3usize.pow(squeeze(v, m) as u32) % 3]),
            shift: Box::new(|_, _| 1),
            total: 600,
        };
        l.state(&d);
        p.check(c * 7 + 3, a, l)
    });
    let cards3b = [vec![3, 3, 3], vec![3, 4, 3], vec![4, 3, 3]];
    let cards3b = &cards3b;
    ctx.family("3 variables, rates and destinations", "all assignments of 2 levels of rates and 2 patterns of destinations to the 4 possible parent sets of a variable (256), the variables running through them differently", 256 * ctx.pick(4, 256), |c, l| {
        let d = [c % 256, (c / 256 * 83 + c * 7) % 256, (c * 31 + c / 256 * 101) % 256];
        let p = Pattern {
            cards: &cards3b[c % 3],
            rate: Box::new(move |v, m| [1.0, 3.0][d[v] >> (2 * squeeze(v, m)) & 1]),
            shift: Box::new(move |v, m| 2 * (d[v] >> (2 * squeeze(v, m) + 1) & 1)),
            total: 600,
        };
        l.state(&d);
        p.check(c * 5, a, l)
    });
    // four variables: 8 parent sets of each one
    let cards4 = [vec![2, 2, 2, 2], vec![2, 3, 2, 2], vec![3, 2, 2, 4]];
    let cards4 = &cards4;
    ctx.family("4 variables, 3 levels of rates", "all 6561 assignments of 3 levels to the 8 possible parent sets of a variable, the four variables running through them differently", ctx.pick(6561, 6561 * 12), |c, l| {
        let r = c / 6561;
        let d: Vec<usize> = (0..4).map(|v| (c * [1, 2, 4, 5][(v + r) % 4] + 1000 * v * (r + 1)) % 6561).collect();
        let d2 = d.clone();
        let p = Pattern {
            cards: &cards4[c % 3],
            rate: Box::new(move |v, m| [1.0, 3.0, 9.0][d2[v] / 3usize.pow(squeeze(v, m) as u32) % 3]),
            shift: Box::new(|_, _| 1),
            total: 600,
        };
        l.state(&d);
        p.check(c * 2654435761, a, l)
    });
    ctx.family("4 variables, near and far levels", "as above, neighbouring levels being compatible and the extreme ones not (independence is not transitive)", ctx.pick(6561, 6561 * 12), |c, l| {
        let r = c / 6561;
        let d: Vec<usize> = (0..4).map(|v| (c * [2, 1, 5, 4][(v + r) % 4] + 500 * v * (r + 1)) % 6561).collect();
        let d2 = d.clone();
        let p = Pattern {
            cards: &cards4[c % 3],
            rate: Box::new(move |v, m| [1.0, 1.45, 2.1][d2[v] / 3usize.pow(squeeze(v, m) as u32) % 3]),
            shift: Box::new(|_, _| 1),
            total: 60,
        };
        l.state(&d);
        p.check(c * 2654435761, a, l)
    });
    let cards4b = [vec![3, 3, 3, 3], vec![3, 4, 3, 3]];
    let cards4b = &cards4b;
    ctx.family("4 variables, rates and destinations", "all 65536 assignments of 2 levels of rates and 2 patterns of destinations to the 8 possible parent sets of a variable (one in 8 in the quick tier, for the four variables together)", ctx.pick(8192, 65536 * 2), |c, l| {
        let d: Vec<usize> = (0..4).map(|v| ctx_mix(c, v, 65536)).collect();
        let (d1, d2) = (d.clone(), d.clone());
        let p = Pattern {
            cards: &cards4b[c % 2],
            rate: Box::new(move |v, m| [1.0, 3.0][d1[v] >> (2 * squeeze(v, m)) & 1]),
            shift: Box::new(move |v, m| 2 * (d2[v] >> (2 * squeeze(v, m) + 1) & 1)),
            total: 600,
        };
        l.state(&d);
        p.check(c * 2654435761, a, l)
    });
    ctx.family("5 variables, 2 levels of rates", "all 65536 assignments of 2 levels to the 16 possible parent sets of a variable (one in 4 of the assignments per variable in the quick tier, five variables at once)", ctx.pick(16384 / 4, 65536), |c, l| {
        let d: Vec<usize> = (0..5).map(|v| ctx_mix(c, v, 65536)).collect();
        let d2 = d.clone();
        let cards = [2, 2, 2, 2, 2];
        let p = Pattern {
            cards: &cards,
            rate: Box::new(move |v, m| [1.0, 3.0][d2[v] >> squeeze(v, m) & 1]),
            shift: Box::new(|_, _| 1),
            total: 600,
        };
        l.state(&d);
        p.check(c * 2654435761, a, l)
    });
    // A parent set survives exactly: every choice of true parents.
    ctx.family("additive parents", "2..6 variables, every set of true parents of every variable: the learned parents are the true ones", ctx.pick(5 * 32 * 4, 5 * 32 * 32), |c, l| {
        let n = 2 + c % 5;
        let r = c / 5;
        let cards: Vec<usize> = (0..n).map(|v| if (r + v) % 4 == 3 { 3 } else { 2 }).collect();
        let truth: Vec<usize> = (0..n).map(|v| (r * (2 * v + 1) + r / 32 * 11 * v) & ((1 << n) - 1) & !(1 << v)).collect();
        let t2 = truth.clone();
        let p = Pattern {
            cards: &cards,
            // the rate depends on the true parents present only
            rate: Box::new(move |v, m| 2.5f64.powi((m & t2[v]).count_ones() as i32)),
            shift: Box::new(|_, _| 1),
            total: 600,
        };
        l.state(&(n, &truth));
        let net = super::learning::carrier(&cards, r);
        let pl = Given(|node, ps: &Set| p.table(node, ps));
        let learned = CTPC::new(pl, F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, &dummy(n));
        for v in 0..n {
            ensure!(mask_of(&learned.get_parent_set(v)) == truth[v], "{} variables: parents of {} are {:?} instead of {:?}", n, v, learned.get_parent_set(v), mask(truth[v]));
        }
        p.check(r, a, l)
    });
    // Candidates which only a large separating set removes.
    let top = ctx.pick(8, 10);
    let mut late = vec![];
    for n in 3..=top {
        for a in 2..n {
            for k in 0..a {
                for at in [0, n / 2, n - 1] {
                    late.push((n, a, k, at));
                }
            }
        }
    }
    // sets larger than that
    for n in top + 1..=ctx.pick(11, 12) {
        late.push((n, n - 1, n - 2, n / 2));
        late.push((n, n - 1, n - 3, 0));
    }
    let lr = &late;
    ctx.family("late removals", "3..8 (10) variables, 2 to all of the candidates which are removed by separating sets of k of the others only, every k from 0 to all of them; up to 11 (12) variables with k all but one or two of them", lr.len(), |c, l| {
        let (n, a, k, at) = lr[c];
        let cards: Vec<usize> = (0..n).map(|v| if (v + c) % 5 == 4 { 3 } else { 2 }).collect();
        // the group, for variable `at`; smaller ones for the others
        let groups: Vec<(usize, usize)> = (0..n).map(|v| {
            let (a, k) = if v == at { (a, k) } else { (2, v % 3) };
            (mask_of(&(0..n).map(|i| (i * 5 + v + c) % n).filter(|p| *p != v).collect::<Vec<_>>().into_iter().fold(Set::new(), |mut s, p| { if s.len() < a { s.insert(p); } s })), k)
        }).collect();
        let g2 = groups.clone();
        let p = Pattern {
            cards: &cards,
            rate: Box::new(move |v, m| 2.5f64.powi((m & g2[v].0).count_ones().min(g2[v].1 as u32) as i32)),
            shift: Box::new(|_, _| 1),
            total: 600,
        };
        l.state(&(n, a, k, at));
        p.check(c, (0.01, 0.01), l)
    });
    // Candidates which only one of many sets of that size removes.
    let mut needle = vec![];
    for n in [4, 6, 9, ctx.pick(10, 11)] {
        for k in 1..=(n - 3).min(5) {
            for place in 0..4 {
                for at in [0, n - 1] {
                    needle.push((n, k, place, at, false));
                    needle.push((n, k, place, at, true));
                }
            }
        }
    }
    let nr = &needle;
    ctx.family("one separating set", "4, 6, 9 and 10 (11) variables: all candidates but one are parents; that one, first, last or in the middle, is removed by a single set of 1..5 others, the first, the last or others in the order of the variables, or by the sets which include it", nr.len(), |c, l| {
        let (n, k, place, at, exactly) = nr[c];
        let cards = vec![2; n];
        let others: Vec<usize> = (0..n).filter(|p| *p != at).collect();
        let out = others[[0, n / 2, n - 2][c % 3]];
        let rest: Vec<usize> = others.iter().copied().filter(|p| *p != out).collect();
        let set: Set = match place {
            0 => rest[..k].iter().copied().collect(),
            1 => rest[rest.len() - k..].iter().copied().collect(),
            2 => (0..k).map(|i| rest[i * (rest.len() - 1) / k.max(2)]).collect(),
            _ => rest.iter().copied().rev().step_by(2).chain(rest.iter().copied()).fold(Set::new(), |mut s, p| { if s.len() < k { s.insert(p); } s }),
        };
        ensure!(set.len() == k, "the set {:?} has not {} members", set, k);
        let rate = |v: usize, ps: &Set| if v != at { 1.0 } else { 3f64.powi(ps.iter().filter(|x| **x != out).count() as i32) * if ps.contains(&out) && (!set.is_subset(ps) || exactly && ps.len() > k + 1) { 1.7 } else { 1.0 } };
        let pl = Given(|node, ps: &Set| level_table(&cards, node, ps, rate(node, ps), 1, 600));
        let learned = CTPC::new(pl, F::new(0.01), ChiSquare::new(0.01)).fit_transform(super::search::carrier_large(&cards, c), &dummy(n));
        for v in 0..n {
            let want: Set = if v == at { rest.iter().copied().collect() } else { Set::new() };
            ensure!(learned.get_parent_set(v) == want, "{} variables, {} removed given {:?} only: parents of {} are {:?} instead of {:?}", n, out, set, v, learned.get_parent_set(v), want);
        }
        l.state(&(n, k, place, at, exactly));
        l.step(n as u64);
        l.trace();
        l.outcome(&set);
        Ok(())
    });
    // Many variables, many parents, parents of many states.
    let mut cases: Vec<(Vec<usize>, Vec<Set>)> = vec![];
    let spread = |n: usize, r: usize, most: usize| -> Vec<Set> {
        (0..n).map(|v| (0..(v + r) % (most + 1)).map(|i| [v + 1, v + n / 2, v + n - 2, v + 33, v + 64, v + 10 * n - 31][(i * 5 + v + r) % 6] % n).filter(|p| *p != v).collect()).collect()
    };
    let sizes: &[usize] = ctx.pick(&[9, 17, 33, 40, 65, 70, 130, 257][..], &[9, 16, 17, 32, 33, 40, 63, 64, 65, 66, 70, 100, 128, 129, 130, 256, 257, 300][..]);
    for &n in sizes {
        for r in 0..ctx.pick(2, 12) {
            cases.push(((0..n).map(|v| 2 + (v + r) % 2).collect(), spread(n, r, if n < 100 { 5 } else { 4 })));
        }
    }
    for k in 6..=ctx.pick(9, 11) {
        // one variable with k parents among k + 3, first, last or in the middle
        for at in [0, (k + 2) / 2, k + 2] {
            let mut parents = vec![Set::new(); k + 3];
            parents[at] = (0..k + 3).filter(|p| *p != at).skip(1).take(k).collect();
            cases.push((vec![2; k + 3], parents));
        }
    }
    for cards in [vec![2, 17, 2], vec![3, 64, 2], vec![300, 2, 2], vec![2, 16, 17], vec![2, 2, 130]] {
        for g in [0b010101, 0b101010, 0b111111, 0b000110, 0b110000, 0] {
            // no large child with a large parent
            cases.push((cards.clone(), graph(3, g).into_iter().enumerate().map(|(v, p)| p.into_iter().filter(|p| cards[v] * cards[*p] <= 1000).collect()).collect()));
        }
    }
    let cases = &cases;
    ctx.family("many variables, parents and states", "9 to 257 (300) variables with up to 5 parents far apart, variables with 6 to 9 (11) parents, parents and children of up to 300 states: the learned parents are the true ones", cases.len(), |c, l| {
        let (cards, truth) = &cases[c];
        let n = cards.len();
        let net = super::search::carrier_large(cards, c);
        let pl = Given(|node, ps: &Set| level_table(cards, node, ps, 2.5f64.powi(ps.intersection(&truth[node]).count() as i32), 1, 600));
        let learned = CTPC::new(pl, F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, &dummy(n));
        labels_kept(&learned, cards)?;
        for v in 0..n {
            ensure!(learned.get_parent_set(v) == truth[v], "{} variables: parents of {} are {:?} instead of {:?}", n, v, learned.get_parent_set(v), truth[v]);
        }
        l.step(n as u64);
        l.trace();
        l.state(&c);
        l.outcome(&truth);
        Ok(())
    });
    // Renaming the variables renames the result.
    ctx.family("order of the variables", "every permutation of 3 and 4 variables, on tables with a collider, a chain, a common cause and all patterns of one variable", 24 * ctx.pick(60, 2000), |c, l| {
        let perm = permutation(4, c % 24);
        let r = c / 24;
        let cards = [2, 3, 2, 2];
        let rate = move |v: usize, m: usize| [1.0, 3.0, 9.0][(ctx_mix(r, v, 6561)) / 3usize.pow(squeeze(v, m) as u32) % 3];
        let learn = |cards: &[usize], rate: &(dyn Fn(usize, usize) -> f64 + Sync)| {
            let pl = Given(|node, ps: &Set| level_table(cards, node, ps, rate(node, mask_of(ps)), 1, 600));
            let net = CTPC::new(pl, F::new(0.01), ChiSquare::new(0.01)).fit_transform(super::learning::carrier(cards, c), &dummy(4));
            (0..4).map(|v| net.get_parent_set(v)).collect::<Vec<Set>>()
        };
        let base = learn(&cards, &rate);
        // variable v is called perm[v]
        let mut cards2 = [0; 4];
        let mut inv = [0; 4];
        for v in 0..4 {
            cards2[perm[v]] = cards[v];
            inv[perm[v]] = v;
        }
        let renamed = learn(&cards2, &|v, m| rate(inv[v], mask(m).iter().map(|x| 1 << inv[*x]).sum()));
        for v in 0..4 {
            let want: Set = base[v].iter().map(|p| perm[*p]).collect();
            ensure!(renamed[perm[v]] == want, "renaming by {:?}: parents of {} are {:?} instead of {:?}", perm, perm[v], renamed[perm[v]], want);
        }
        l.step(2);
        l.trace();
        l.state(&(c % 24, r));
        l.outcome(&base.iter().map(mask_of).collect::<Vec<_>>());
        Ok(())
    });
    ctx.family("on data", "sampled data of 5 networks of 3..4 variables and short walks, maximum likelihood, 3 pairs of significance levels", ctx.pick(300, 5000), |c, l| {
        let (cards, d) = sampled(c);
        let n = cards.len();
        let ds = dataset(&d);
        for alphas in [(1e-4, 1e-4), (0.05, 0.01), (0.2, 0.4)] {
            let net = super::learning::carrier(&cards, c);
            // The outcome of the tests; on sparse data (see C15) the one they give.
            let outcome = |child: usize, p: usize, sep: &Set| {
                let mut ext = sep.clone();
                ext.insert(p);
                let (small, big) = (estimate(&cards, &d, child, sep), estimate(&cards, &d, child, &ext));
                if any_pair(&cards, p, sep, &small, &big, empty_cell) {
                    let pl = MLE {};
                    let mut cache = Cache::new(&pl);
                    return guard(|| F::new(alphas.0).call(&net, child, p, sep, &ds, &mut cache) && ChiSquare::new(alphas.1).call(&net, child, p, sep, &ds, &mut cache)).ok();
                }
                let w = test(&cards, p, sep, &small, &big, alphas);
                match and(w.0, w.1) {
                    Independent => Some(true),
                    Dependent => Some(false),
                    Close => None,
                }
            };
            // Data on which some test fails (see C15) are not judged.
            let queries = |child: usize| super::learning::parent_sets(n, child).into_iter().flat_map(move |sep| (0..n).filter(|p| *p != child && !sep.contains(p)).map(|p| (p, sep.clone())).collect::<Vec<_>>());
            if (0..n).any(|child| queries(child).any(|(p, sep)| outcome(child, p, &sep).is_none())) {
                continue;
            }
            let want: Vec<Option<Set>> = (0..n).map(|child| reference_pc(n, child, |p, sep| outcome(child, p, sep))).collect();
            if want.iter().any(|w| w.is_none()) {
                continue;
            }
            let learned = CTPC::new(MLE {}, F::new(alphas.0), ChiSquare::new(alphas.1)).fit_transform(super::learning::carrier(&cards, c), &ds);
            labels_kept(&learned, &cards)?;
            for child in 0..n {
                let got = learned.get_parent_set(child);
                ensure!(Some(&got) == want[child].as_ref(), "data {} at {:?}: parents of {} are {:?} instead of {:?}", c, alphas, child, got, want[child]);
                l.outcome(&(c % 5, child, mask_of(&got)));
            }
            l.step(n as u64);
            l.trace();
        }
        l.state(&c);
        Ok(())
    });
    ctx.sample("4 variables, variable 2: rates 1,3,9,1,3,3,1,9 for the parent sets {},{0},{1},{0,1},{3},...".into());
}

/// A different walk through `0..n` (a power of two or three) for each variable.
fn ctx_mix(c: usize, v: usize, n: usize) -> usize {
    if v == 0 && n == 65536 {
        return (c * 8 + c / 8192) % n;
    }
    (c.wrapping_mul([5, 7, 11, 13, 17, 19][v]).wrapping_add(v * 1234567).wrapping_mul(2654435761) >> 7) % n
}
