//! C19 the cache of estimates, C24 independence of what was learned before.

use super::independence::{dummy, labels_kept, mask_of, sampled};
use super::learning::{carrier, parent_sets};
use super::search::carrier_large;
use crate::core::*;
use crate::ensure;
use crate::model::*;
use ndarray::{Array2, Array3};
use reCTBN::parameter_learning::{BayesianApproach, ParameterLearning, MLE};
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::constraint_based_algorithm::{Cache, CTPC};
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::Dataset;
use std::sync::atomic::{AtomicU64, Ordering};

/// Everything a user can read from the parameters of a node.
fn contents(p: &Params) -> String {
    let p = inner(p);
    let f = |x: Option<&Array3<f64>>| x.map(|a| (a.shape().to_vec(), a.iter().map(|v| v.to_bits()).collect::<Vec<u64>>()));
    format!(
        "{} {:?} {:?} {:?} {:?}",
        p.get_label(),
        p.get_reserved_space_as_parent(),
        f(p.get_cim().as_ref()),
        p.get_transitions().as_ref().map(|a| (a.shape().to_vec(), a.iter().copied().collect::<Vec<usize>>())),
        p.get_residence_time().as_ref().map(|a| (a.shape().to_vec(), a.iter().map(|v| v.to_bits()).collect::<Vec<u64>>()))
    )
}

// ------------------------------------------------------------------------------------------ C19

/// Estimates that tell the variable and the parent set they are of.
#[derive(Default)]
struct Token {
    calls: AtomicU64,
}
fn token(node: usize, m: usize) -> (Array3<f64>, Array3<usize>, Array2<f64>) {
    let q = 1.0 + node as f64 + m as f64 / 4096.0;
    let cim = Array3::from_shape_fn((1, 2, 2), |(_, x, y)| if x == y { -q } else { q });
    let tr = Array3::from_shape_fn((1, 2, 2), |(_, x, y)| if x == y { 0 } else { 1 + node * 4096 + m + x });
    let time = Array2::from_shape_fn((1, 2), |(_, x)| 0.5 + node as f64 * 4096.0 + m as f64 + x as f64);
    (cim, tr, time)
}
impl ParameterLearning for Token {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, ps: Option<Set>) -> Params {
        self.calls.fetch_add(1, Ordering::Relaxed);
        let (cim, tr, time) = token(node, mask_of(&ps.unwrap()));
        let mut p = net.get_node(node).clone();
        let d = inner_mut(&mut p);
        d.set_cim_unchecked(cim);
        d.set_transitions(tr);
        d.set_residence_time(time);
        p
    }
}

/// The same for variables and parents of any number.
#[derive(Default)]
struct Wide {
    calls: AtomicU64,
}
fn wide(node: usize, ps: &Set) -> Vec<f64> {
    std::iter::once(node).chain(ps.iter().copied()).map(|x| x as f64).collect()
}
impl ParameterLearning for Wide {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, ps: Option<Set>) -> Params {
        self.calls.fetch_add(1, Ordering::Relaxed);
        let w = wide(node, &ps.unwrap());
        let mut p = net.get_node(node).clone();
        inner_mut(&mut p).set_residence_time(Array2::from_shape_vec((1, w.len()), w).unwrap());
        p
    }
}

/// Runs the requests (variable, mask of the parents) on one cache.
fn requests(net: &CtbnNetwork, ds: &Dataset, seq: &[(usize, usize)], l: &mut Loc) -> Res {
    let pl = Token::default();
    let mut cache = Cache::new(&pl);
    let mut last = None;
    for (i, (node, m)) in seq.iter().enumerate() {
        let before = pl.calls.load(Ordering::Relaxed);
        let p = cache.fit(net, ds, *node, Some(mask(*m)));
        let (cim, tr, time) = token(*node, *m);
        let d = inner(&p);
        ensure!(
            d.get_cim().as_ref() == Some(&cim) && d.get_transitions().as_ref() == Some(&tr) && d.get_residence_time().as_ref() == Some(&time) && *d.get_label() == label(*node),
            "request {} of {:?}: the answer for variable {} and parents {:?} is {:?}", i, seq, node, mask(*m), contents(&p)
        );
        let made = pl.calls.load(Ordering::Relaxed) - before;
        if last == Some((*node, *m)) {
            ensure!(made == 0, "request {} of {:?}, made the moment before, is computed again", i, seq);
        }
        last = Some((*node, *m));
        l.outcome(&(m.count_ones(), made));
    }
    l.step(seq.len() as u64);
    l.trace();
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    ctx.assume("a cache is used with one network and one dataset, as the type's owner CTPC does");
    let wide_triples = !ctx.quick();
    // (variables, requests from which nodes, sequence length)
    for (n, nodes, len) in [(1, 1, 6), (2, 2, ctx.pick(10, 12)), (3, 1, ctx.pick(10, 12)), (3, 3, ctx.pick(6, 7)), (4, 1, ctx.pick(7, 8)), (4, 2, ctx.pick(5, 6)), (4, 4, ctx.pick(4, 5)), (5, 1, ctx.pick(5, 6)), (5, 2, ctx.pick(4, 5)), (6, 1, ctx.pick(4, 5)), (6, 3, ctx.pick(3, 4))] {
        let mut alphabet = vec![];
        for v in 0..nodes {
            for ps in parent_sets(n, v) {
                alphabet.push((v, mask_of(&ps)));
            }
        }
        let k: usize = alphabet.len();
        let alphabet = &alphabet;
        let cards = vec![2; n];
        let nets = by_names(|| carrier_large(&cards, n));
        let ds = dummy(n);
        let (nets, ds) = (&nets, &ds);
        ctx.family(&format!("{} variables, {} requests of {} of them", n, len, nodes), &format!("all {}^{} sequences of requests, all parent sets in any order of sizes (every prefix is checked)", k, len), k.pow(len as u32), |c, l| {
            let seq: Vec<(usize, usize)> = digits(c, &vec![k; len]).iter().map(|i| alphabet[*i]).collect();
            if c % 16 == 0 {
                let mut s = seq.clone();
                s.pop();
                l.state(&s);
            }
            requests(&nets[names_now()], ds, &seq, l)
        });
    }
    // Jumps between far sizes, every request made twice.
    ctx.family("sizes 0..10", "12 variables: all sequences of 4 sizes of parent sets out of 0..10, two different sets of each size, each request made twice, from two variables", 11usize.pow(4), |c, l| {
        let d = digits(c, &[11; 4]);
        let net = carrier_large(&[2; 12], 3);
        let ds = dummy(12);
        let mut seq = vec![];
        for (i, size) in d.iter().enumerate() {
            for (node, m) in [(0, ((1 << size) - 1) << 1), (11, (1 << size) - 1), (0, ((1 << size) - 1) << (11 - size) << 1), ([0, 11][i % 2], ((1 << size) - 1) << (11 - size) << (1 - i % 2))] {
                seq.push((node, m));
                seq.push((node, m));
            }
        }
        l.state(&d);
        requests(&net, &ds, &seq, l)
    });
    // Indices across all word sizes.
    let marks: Vec<usize> = (0..10).map(|b| 1usize << b).flat_map(|x| [x - 1, x, x + 1]).chain([200, 300, 600, 999]).collect::<Set>().into_iter().filter(|x| *x < 1000).collect();
    let marks = &marks;
    ctx.family("1000 variables", "requests from 5 of 1000 variables: all single parents, all pairs and (thorough) all triples out of 0..140, all pairs and triples of 2^k-1, 2^k, 2^k+1; one cache for all sizes, ascending and descending", 5 * 2, |c, l| {
        let d = digits(c, &[5, 2]);
        let net = Net::distinct(&vec![2; 1000], &vec![Set::new(); 1000]).build_structure();
        let ds = dummy(2);
        let node = [0, 1, 64, 256, 999][d[0]];
        let mut sets: Vec<Vec<usize>> = (0..1000).map(|x| vec![x]).collect();
        for i in 0..140usize {
            for j in 0..i {
                sets.push(vec![j, i]);
                if wide_triples {
                    for k in 0..j {
                        sets.push(vec![k, j, i]);
                    }
                }
            }
        }
        for i in 0..marks.len() {
            for j in 0..i {
                sets.push(vec![marks[j], marks[i]]);
                for k in 0..j {
                    sets.push(vec![marks[k], marks[j], marks[i]]);
                }
            }
        }
        sets.sort_by_key(|s| s.len());
        if d[1] == 1 {
            sets.reverse();
        }
        let pl = Wide::default();
        let mut cache = Cache::new(&pl);
        for s in sets.iter().filter(|s| !s.contains(&node)) {
            let mut last = None;
            // the same set from another variable, in between
            for v in [node, (node + 1 + c) % 1000, node, node] {
                if s.contains(&v) {
                    continue;
                }
                let before = pl.calls.load(Ordering::Relaxed);
                let p = cache.fit(&net, &ds, v, Some(set(s)));
                let got = inner(&p).get_residence_time().as_ref().map(|x| x.to_owned().into_raw_vec());
                ensure!(got == Some(wide(v, &set(s))), "for variable {} and parents {:?} the answer is {:?}", v, s, got);
                let made = pl.calls.load(Ordering::Relaxed) - before;
                ensure!(last != Some(v) || made == 0, "variable {} and parents {:?}: a request made the moment before is computed again", v, s);
                last = Some(v);
                l.step(1);
            }
            l.state(&(node, s));
        }
        l.trace();
        l.outcome(&d);
        Ok(())
    });
    // Sets of many members which differ in one.
    ctx.family("large sets", "300 variables: parent sets of 1..298 members which differ in one member, each in turn, requested twice from the first and the last variable; one set of every size from 0 to 298; both orders", 2 * (6 * 2 + 1), |c, l| {
        let (back, c) = (c % 2 == 1, c / 2);
        let net = carrier_large(&vec![2; 300], c);
        let ds = dummy(2);
        let pl = Wide::default();
        let mut cache = Cache::new(&pl);
        let node = [0, 299][c % 2];
        let others: Vec<usize> = (0..300).filter(|p| *p != node).collect();
        let mut sets: Vec<Set> = vec![];
        if c == 12 {
            sets.extend((0..=298).map(|k| others.iter().copied().take(k).collect::<Set>()));
        } else {
            // the members at `from` onwards, one at a time replaced by another one, or taken out
            let k = [1, 11, 33, 70, 150, 298][c / 2];
            let base: Set = others.iter().copied().skip((299 - k) / 2).take(k).collect();
            sets.push(base.clone());
            for x in &base {
                let mut s = base.clone();
                s.remove(x);
                s.insert(*others.iter().find(|o| !base.contains(o)).unwrap());
                sets.push(s);
            }
            let spare = *others.iter().rev().find(|o| !base.contains(o)).unwrap();
            for x in &base {
                let mut s = base.clone();
                s.remove(x);
                s.insert(spare);
                sets.push(s);
            }
        }
        if back {
            sets.reverse();
        }
        for s in &sets {
            for i in 0..2 {
                let before = pl.calls.load(Ordering::Relaxed);
                let p = cache.fit(&net, &ds, node, Some(s.clone()));
                let made = pl.calls.load(Ordering::Relaxed) - before;
                ensure!(i == 0 || made == 0, "variable {} and {} parents: a request made the moment before is computed again", node, s.len());
                let got = inner(&p).get_residence_time().as_ref().map(|x| x.to_owned().into_raw_vec());
                ensure!(got == Some(wide(node, s)), "for variable {} and parents {:?} the answer is {:?}", node, s, got);
                l.step(1);
            }
            l.state(&(node, s));
        }
        l.trace();
        Ok(())
    });
    // The learners of the library.
    ctx.family("on data", "sampled data: all sequences of 3 requests on 3 variables and all pairs on 4, maximum likelihood and Bayesian, the answers being bitwise those of the learner itself", 2 * ctx.pick(1728 + 1024, 40 * 2752), |c, l| {
        let (bayes, c) = (c % 2 == 1, c / 2);
        let (r, i) = (c / 2752, c % 2752);
        let (cards, d) = sampled(if i < 1728 { [0, 1, 5, 6, 9][r % 5] } else { 2 } + 10 * (r / 5));
        let n = cards.len();
        let mut alphabet = vec![];
        for v in 0..n {
            for ps in parent_sets(n, v) {
                alphabet.push((v, ps));
            }
        }
        let seq: Vec<&(usize, Set)> = if i < 1728 { digits(i, &[12; 3]) } else { digits(i - 1728, &[32; 2]) }.iter().map(|i| &alphabet[*i]).collect();
        let (net, ds) = (carrier(&cards, c), dataset(&d));
        fn run<P: ParameterLearning>(pl: P, net: &CtbnNetwork, ds: &Dataset, seq: &[&(usize, Set)], l: &mut Loc) -> Res {
            let mut cache = Cache::new(&pl);
            for (v, ps) in seq {
                let got = contents(&cache.fit(net, ds, *v, Some(ps.clone())));
                let want = contents(&pl.fit(net, ds, *v, Some(ps.clone())));
                ensure!(got == want, "requests {:?}: for variable {} and parents {:?} the answer is {} instead of {}", seq, v, ps, got, want);
                l.outcome(&got);
            }
            l.step(seq.len() as u64);
            l.trace();
            Ok(())
        }
        l.state(&(i, r));
        if bayes {
            run(BayesianApproach { alpha: 1, tau: 1.0 }, &net, &ds, &seq, l)
        } else {
            run(MLE {}, &net, &ds, &seq, l)
        }
    });
    ctx.sample("1:{} 0:{} 0:{1,2} 0:{1,2} 1:{0,2}: five requests, the fourth one not reaching the learner".into());
}

// ------------------------------------------------------------------------------------------ C24

/// The learners; one object of each is used for a whole history.
struct Learners {
    ll: HillClimbing<LogLikelihood>,
    bic: HillClimbing<BIC>,
    mle: CTPC<MLE>,
    bayes: CTPC<BayesianApproach>,
    bic_all: HillClimbing<BIC>,
    ll_two: HillClimbing<LogLikelihood>,
}
impl Learners {
    fn new() -> Learners {
        Learners {
            ll: HillClimbing::new(LogLikelihood::new(1, 1.0), None),
            bic: HillClimbing::new(BIC::new(1, 1.0), Some(1)),
            mle: CTPC::new(MLE {}, F::new(0.01), ChiSquare::new(0.01)),
            bayes: CTPC::new(BayesianApproach { alpha: 2, tau: 0.5 }, F::new(1e-4), ChiSquare::new(1e-4)),
            bic_all: HillClimbing::new(BIC::new(1, 1.0), None),
            ll_two: HillClimbing::new(LogLikelihood::new(1, 1.0), Some(2)),
        }
    }
}
/// Learners 6 and 7 are used on the networks of other sizes only.
const KINDS: usize = 6;

/// Two networks with the same shape and a larger one, two datasets each.
/// Datasets for each kind of network.
const DATASETS: usize = 4;

struct World {
    cards: Vec<Vec<usize>>,
    data: Vec<[Vec<Traj>; DATASETS]>,
    /// networks of other sizes and structures
    others: Vec<(Vec<usize>, Vec<Traj>)>,
}
impl World {
    fn new() -> World {
        let shapes: [(Vec<usize>, Vec<(usize, usize)>, Vec<(usize, usize)>); 3] = [
            (vec![2, 3, 2], vec![(0, 1), (1, 2)], vec![(2, 0), (0, 1), (2, 1)]),
            (vec![3, 2, 2], vec![(2, 1), (1, 0)], vec![(0, 2), (1, 2)]),
            (vec![2, 2, 2, 2], vec![(0, 1), (1, 2), (2, 3)], vec![(3, 2), (3, 0), (1, 0)]),
        ];
        let mut w = World { cards: vec![], data: vec![], others: vec![] };
        for (i, (cards, e1, e2)) in shapes.into_iter().enumerate() {
            let make = |e: &[(usize, usize)], seed: u64| {
                let mut p = vec![Set::new(); cards.len()];
                for (a, b) in e {
                    p[*b].insert(*a);
                }
                let net = Net::distinct(&cards, &p);
                // long walks of equal shape for both datasets: 3 trajectories of 400 rows
                (0..3).map(|k| simulate(&net, 400, seed + k)).collect::<Vec<_>>()
            };
            let (a, b) = (make(&e1, 10 * i as u64), make(&e2, 100 + 10 * i as u64));
            // the times of the first one with other events, and its events with other times (of the same sum)
            let (mut c, mut d) = (a.clone(), a.clone());
            for (x, y) in c.iter_mut().zip(&b) {
                x.e = y.e.clone();
            }
            for x in &mut d {
                for j in (1..x.t.len() - 2).step_by(2) {
                    let e = grid((x.t[j + 1] - x.t[j]) * 0.45);
                    x.t[j] += e;
                    x.t[j + 1] -= e;
                }
            }
            w.data.push([a, b, c, d]);
            w.cards.push(cards);
        }
        // number of variables, parents of each one, rows, does the parity of the parents decide
        for (i, (n, d, rows, parity)) in [(1, 0, 50, false), (2, 1, 400, false), (3, 2, 1000, false), (4, 3, 2000, false), (5, 4, 4000, false), (6, 3, 60, false), (5, 2, 400, true), (6, 3, 2000, true), (8, 5, 600, false), (8, 1, 120, true)].into_iter().enumerate() {
            let cards = vec![2; n];
            let parents: Vec<Set> = (0..n).map(|v| (1..=d).map(|k| (v + k) % n).collect()).collect();
            let net = if parity {
                Net::with(&cards, &parents, |_, c, x, _| if (c.count_ones() as usize + x) % 2 == 1 { 3.0 } else { 0.3 })
            } else {
                Net::distinct(&cards, &parents)
            };
            let data = (0..2).map(|k| simulate(&net, rows / 2, 1000 + 10 * i as u64 + k)).collect();
            w.others.push((cards, data));
        }
        w
    }
    fn input(&self, i: usize) -> (&Vec<usize>, &Vec<Traj>) {
        if i < self.inputs() {
            (&self.cards[i / DATASETS], &self.data[i / DATASETS][i % DATASETS])
        } else {
            let o = &self.others[i - self.inputs()];
            (&o.0, &o.1)
        }
    }
    fn inputs(&self) -> usize {
        DATASETS * self.cards.len()
    }
}

/// Times on a grid, so that sums are exact.
fn grid(x: f64) -> f64 {
    let k = (1u64 << 24) as f64;
    (x * k).floor() / k
}

/// A trajectory of the network with pseudo random but portable draws.
fn simulate(net: &Net, rows: usize, seed: u64) -> Traj {
    let mut i = 0u64;
    let mut u = || {
        i += 1;
        ((fnv(&(seed, i)) >> 11) as f64 + 0.5) / (1u64 << 53) as f64
    };
    let n = net.n();
    let mut s = vec![0; n];
    let mut t = 0.0;
    let mut out = Traj { t: vec![], e: vec![] };
    for _ in 0..rows {
        out.t.push(t);
        out.e.push(s.clone());
        let mut best = (f64::INFINITY, 0);
        for v in 0..n {
            let d = -u().ln() / net.exit(v, &s);
            if d < best.0 {
                best = (d, v);
            }
        }
        t += grid(best.0);
        let v = best.1;
        let mut r = u() * net.exit(v, &s);
        let others: Vec<usize> = (0..net.cards[v]).filter(|x| *x != s[v]).collect();
        let mut to = *others.last().unwrap();
        for x in &others {
            r -= net.rate(v, &s, *x);
            if r < 0.0 {
                to = *x;
                break;
            }
        }
        s[v] = to;
    }
    out
}

/// The network a learner is given: edges, parameters and statistics of number `g` (0: none).
fn start(cards: &[usize], g: usize) -> CtbnNetwork {
    let n = cards.len();
    let parents = graph(n, g / 3 * 2654435761 % n_graphs(n));
    let net = Net::distinct(cards, &parents);
    if g % 3 == 0 {
        return net.build_structure();
    }
    let mut real = net.build();
    if g % 3 == 2 {
        for v in 0..n {
            let (u, k) = (joint(cards, &parents[v]), cards[v]);
            let p = inner_mut(real.get_node_mut(v));
            p.set_transitions(Array3::from_elem((u, k, k), 7));
            p.set_residence_time(Array2::from_elem((u, k), 3.0));
        }
    }
    real
}

/// One operation: the kind of learner, the input, the network given. Returns a description of
/// everything learned.
fn operate(w: &World, ls: &Learners, kind: usize, input: usize, g: usize) -> Result<String, String> {
    let (cards, data) = w.input(input);
    // a new dataset, at the same address as the ones before
    let ds = &dataset(data);
    let n = cards.len();
    let net = start(cards, g);
    if kind == 4 || kind == 5 {
        // parameters of every variable for every parent set
        let mut out = String::new();
        for v in 0..n {
            for ps in parent_sets(n, v) {
                let p = if kind == 4 { MLE {}.fit(&net, ds, v, Some(ps)) } else { BayesianApproach { alpha: 3, tau: 2.0 }.fit(&net, ds, v, Some(ps)) };
                ensure!(*inner(&p).get_label() == label(v), "the estimate of {} is labelled {:?}", v, inner(&p).get_label());
                out += contents(&p).strip_prefix(&label(v)).unwrap();
                out += "\n";
            }
        }
        return Ok(format!("{:016x}", fnv(&out)));
    }
    let before: Vec<(Set, String)> = (0..n).map(|v| (net.get_parent_set(v), contents(net.get_node(v)))).collect();
    let net = match kind {
        0 => ls.ll.fit_transform(net, ds),
        1 => ls.bic.fit_transform(net, ds),
        2 => ls.mle.fit_transform(net, ds),
        3 => ls.bayes.fit_transform(net, ds),
        6 => ls.bic_all.fit_transform(net, ds),
        _ => ls.ll_two.fit_transform(net, ds),
    };
    labels_kept(&net, cards)?;
    let mut out = String::new();
    for v in 0..n {
        let ps = net.get_parent_set(v);
        out += &format!("{:?} ", ps);
        let p = inner(net.get_node(v));
        if ps != before[v].0 {
            ensure!(
                p.get_cim().is_none() && p.get_transitions().is_none() && p.get_residence_time().is_none(),
                "the parents of {} changed from {:?} to {:?}, its parameters are {}", v, before[v].0, ps, contents(net.get_node(v))
            );
        } else {
            // kept or reset, but nothing else
            let kept = contents(net.get_node(v)) == before[v].1;
            let reset = p.get_cim().is_none() && p.get_transitions().is_none() && p.get_residence_time().is_none();
            ensure!(kept || reset, "the parameters of {}, whose parents are the same, changed to {}", v, contents(net.get_node(v)));
        }
    }
    Ok(out)
}

/// A score or an estimate of the user which panics at its `at`-th call.
struct Fails {
    at: u64,
    calls: AtomicU64,
}
impl Fails {
    fn new(at: u64) -> Fails {
        Fails { at, calls: AtomicU64::new(0) }
    }
    fn call(&self) {
        if self.calls.fetch_add(1, Ordering::SeqCst) + 1 >= self.at {
            panic!("a failure of the user's code");
        }
    }
}
impl ScoreFunction for Fails {
    fn call<T: NetworkProcess>(&self, net: &T, node: usize, parent_set: &Set, dataset: &Dataset) -> f64 {
        Fails::call(self);
        LogLikelihood::new(1, 1.0).call(net, node, parent_set, dataset)
    }
}
impl ParameterLearning for Fails {
    fn fit<T: NetworkProcess>(&self, net: &T, dataset: &Dataset, node: usize, parent_set: Option<Set>) -> Params {
        self.call();
        MLE {}.fit(net, dataset, node, parent_set)
    }
}
const FAILURES: usize = 13;
/// An operation which fails (or not: nothing is claimed about it), on the first dataset of network `i`.
fn fail(w: &World, ls: &Learners, kind: usize, i: usize) {
    let (cards, data) = w.input(i * DATASETS);
    let net = start(cards, i);
    let v = kind % cards.len();
    let mut bad = data[..2].to_vec();
    // the last variable leaves its domain after many changes; and a dataset with a variable less
    let last = bad[1].e.len() - 40;
    bad[1].e[last][cards.len() - 1 - v] = cards[cards.len() - 1 - v];
    let mut narrow = data[..1].to_vec();
    narrow[0].e.iter_mut().for_each(|r| { r.pop(); });
    let (good, bad, narrow) = (&dataset(data), &dataset(&bad), &dataset(&narrow));
    match kind {
        0 => drop(ls.ll.fit_transform(net, bad)),
        1 => drop(ls.bic.fit_transform(net, bad)),
        2 => drop(ls.mle.fit_transform(net, bad)),
        3 => drop(ls.bayes.fit_transform(net, bad)),
        4 => drop(MLE {}.fit(&net, bad, cards.len() - 1 - v, Some(Set::new()))),
        5 => drop(BayesianApproach { alpha: 3, tau: 2.0 }.fit(&net, bad, 0, Some(set(&[1])))),
        6 => drop(MLE {}.fit(&net, good, 0, Some(set(&[1, cards.len() + 3])))),
        7 => drop(ls.ll.fit_transform(net, narrow)),
        8 => drop(ls.mle.fit_transform(net, narrow)),
        9 => drop(HillClimbing::new(Fails::new(4), None).fit_transform(net, good)),
        10 => drop(HillClimbing::new(Fails::new(12), None).fit_transform(net, good)),
        11 => drop(CTPC::new(Fails::new(1), F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, good)),
        _ => drop(CTPC::new(Fails::new(12), F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, good)),
    }
}

/// `mc C24-op KIND INPUT NETWORK ...`: operations alone in a process; the result of the last one.
pub fn alone(args: &[String]) {
    let x: Vec<usize> = args.iter().map(|a| a.parse().unwrap()).collect();
    set_names(std::env::var("MC_NAMES").ok().and_then(|x| x.parse().ok()).unwrap_or(0));
    let w = World::new();
    let mut last = String::new();
    for op in x.chunks(3) {
        last = operate(&w, &Learners::new(), op[0], op[1], op[2]).unwrap();
    }
    println!("{}", last);
}
fn process(exe: &std::path::Path, ops: &[(usize, usize, usize)]) -> String {
    let mut c = std::process::Command::new(exe);
    c.arg("C24-op").env("MC_NAMES", names_now().to_string());
    for (k, i, g) in ops {
        c.args([k.to_string(), i.to_string(), g.to_string()]);
    }
    let o = c.output().unwrap();
    String::from_utf8_lossy(&o.stdout).trim_end().to_string()
}

pub fn c24(ctx: &mut Ctx) {
    ctx.assume("the history starts with the process: the expected result of each operation is computed by a process that does nothing else");
    let w = World::new();
    let ops: Vec<(usize, usize)> = (0..KINDS).flat_map(|k| (0..w.inputs()).map(move |i| (k, i))).collect();
    let exe = std::env::current_exe().unwrap();
    let want: Vec<String> = ops
        .iter()
        .map(|(k, i)| process(&exe, &[(*k, *i, 0)]))
        .collect();
    // the constraint based learners are left out where their tests panic for want of data (see C15)
    let sizes: Vec<(usize, usize, String)> = (0..w.others.len())
        .flat_map(|i| [0, 1, 6, 7, 3, 2].map(|k| (k, w.inputs() + i)))
        .map(|(k, i)| (k, i, process(&exe, &[(k, i, 0)])))
        .filter(|(k, _, r)| !r.is_empty() || ![2, 3].contains(k))
        .collect();
    let (sizes, exe) = (&sizes, &exe);
    let (w, ops, want) = (&w, &ops, &want);
    let n = ops.len();
    ctx.family("alone", "each of the 6 learners on each of the 12 inputs, alone in a process", n, |c, l| {
        ensure!(!want[c].is_empty(), "learner {} on input {} fails", ops[c].0, ops[c].1);
        l.outcome(&want[c]);
        l.trace();
        l.state(&c);
        Ok(())
    });
    let go = |ls: &Learners, o: usize, g: usize, l: &mut Loc| -> Res {
        let (k, i) = ops[o];
        let got = guard(|| operate(w, ls, k, i, g)).and_then(|r| r).map_err(|e| format!("learner {} on input {} from network {}: {}", k, i, g, e))?;
        ensure!(got.trim_end() == want[o], "learner {} on input {} from network {} learns {:?}, alone in a process {:?}", k, i, g, got, want[o]);
        l.step(1);
        Ok(())
    };
    let go = &go;
    let pairs = n * n;
    ctx.family("histories of 2", "all pairs of operations (learner, network, dataset), the same or new learner objects, networks with edges, parameters and statistics of 4 (12) kinds", pairs * ctx.pick(4, 12), |c, l| {
        let d = digits(c, &[n, n, 12]);
        let ls = Learners::new();
        go(&ls, d[0], d[2] * 5, l)?;
        if d[2] % 2 == 0 {
            go(&ls, d[1], d[2] * 7 + 1, l)?;
        } else {
            go(&Learners::new(), d[1], d[2] * 7 + 1, l)?;
        }
        l.trace();
        l.state(&d);
        l.outcome(&(d[0], d[1]));
        Ok(())
    });
    ctx.family("histories of 3", "all triples of operations on the first network (four datasets of equal shape) and the second one, one set of learners", 30usize.pow(3) * ctx.pick(1, 8), |c, l| {
        let d = digits(c, &[30, 30, 30, 8]);
        let ls = Learners::new();
        for (k, x) in d[..3].iter().enumerate() {
            // operations on inputs 0..4
            let o = x / 5 * w.inputs() + x % 5;
            go(&ls, o, d[3] * 11 + k * (1 + c % 5), l)?;
        }
        l.trace();
        l.state(&d);
        Ok(())
    });
    ctx.family("all networks", "each structure learner from all 64 graphs on 3 variables, without parameters, with them, and with statistics as well", 4 * 4 * 192, |c, l| {
        let d = digits(c, &[4, 4, 192]);
        go(&Learners::new(), d[0] * w.inputs() + d[1], d[2], l)?;
        l.trace();
        l.state(&d);
        l.outcome(&d[..2].to_vec());
        Ok(())
    });
    ctx.family("on other threads", "all pairs of operations, both at once on new threads sharing the learners, and the second again afterwards", pairs, |c, l| {
        let d = digits(c, &[n, n]);
        let ls = Learners::new();
        let (a, b) = std::thread::scope(|s| {
            let run = |o: usize, g: usize| {
                let (ls, names) = (&ls, names_now());
                s.spawn(move || {
                    set_names(names);
                    guard(|| operate(w, ls, ops[o].0, ops[o].1, g)).and_then(|r| r)
                })
            };
            let (a, b) = (run(d[0], c % 7), run(d[1], c % 5));
            (a.join().unwrap(), b.join().unwrap())
        });
        for (o, got) in [(d[0], a?), (d[1], b?)] {
            ensure!(got.trim_end() == want[o], "learner {} on input {}, another one running, learns {:?}, alone in a process {:?}", ops[o].0, ops[o].1, got, want[o]);
        }
        go(&ls, d[1], 4, l)?;
        l.step(2);
        l.trace();
        l.state(&d);
        Ok(())
    });
    // Learning again from what was learned.
    ctx.family("learning again", "each structure learner on the network learned by each other one, from the same and from another dataset", 4 * 4 * 12 * 4, |c, l| {
        let d = digits(c, &[4, 4, 12, 4]);
        let ls = Learners::new();
        let learn = |k: usize, net: CtbnNetwork, i: usize| {
            let ds = &dataset(&w.data[i / DATASETS][i % DATASETS]);
            match k {
                0 => ls.ll.fit_transform(net, ds),
                1 => ls.bic.fit_transform(net, ds),
                2 => ls.mle.fit_transform(net, ds),
                _ => ls.bayes.fit_transform(net, ds),
            }
        };
        let first = d[2] ^ d[3];
        let mut net = learn(d[0], start(&w.cards[d[2] / DATASETS], 0), first);
        // parameters in between
        for v in 0..net.get_number_of_nodes() {
            let p = MLE {}.fit(&net, &dataset(&w.data[first / DATASETS][first % DATASETS]), v, None);
            *net.get_node_mut(v) = p;
        }
        let net = learn(d[1], net, d[2]);
        labels_kept(&net, &w.cards[d[2] / DATASETS])?;
        let got: String = (0..net.get_number_of_nodes()).map(|v| format!("{:?} ", net.get_parent_set(v))).collect();
        let o = d[1] * w.inputs() + d[2];
        ensure!(got.trim_end() == want[o], "learner {} on input {} after learner {} on input {}: {:?}, alone in a process {:?}", d[1], d[2], d[0], first, got, want[o]);
        l.step(2);
        l.trace();
        l.state(&d);
        l.outcome(&got);
        Ok(())
    });
    // What fails leaves nothing behind: invalid data, refused data, and scores or estimates of the user which panic.
    let fr = FAILURES * 3 * 3;
    ctx.family("after failures", "each operation after a failed one: data with a state out of the domain (5 learners), a parent out of the network, refused data, a score or an estimate of the user which panics at its 1st, 4th or 12th call; three networks, the failures once, twice, or with other operations before; on the same thread", fr * n, |c, l| {
        let d = digits(c, &[FAILURES, 3, 3, n]);
        let ls = Learners::new();
        if d[2] == 2 {
            go(&ls, (d[3] * 7 + 5) % n, d[0], l)?;
        }
        for _ in 0..1 + d[2] % 2 {
            let _ = guard(|| fail(w, &ls, d[0], d[1]));
            l.step(1);
        }
        go(&ls, d[3], c % 5, l).map_err(|e| format!("after failure {} on input {}: {}", d[0], d[1] * DATASETS, e))?;
        l.trace();
        l.state(&d);
        l.outcome(&(d[0], d[3]));
        Ok(())
    });
    ctx.family("sizes, alone", "the structure learners on networks of 1..8 variables with up to 5 parents, and where parities decide, alone in a process", sizes.len(), |c, l| {
        let (k, i, r) = &sizes[c];
        ensure!(!r.is_empty(), "learner {} on input {} fails", k, i);
        l.outcome(&(i, r));
        l.trace();
        l.state(&c);
        Ok(())
    });
    ctx.family("sizes", "all pairs of structure learners on networks of 1..8 variables, each pair in a process of its own", sizes.len() * sizes.len(), |c, l| {
        let d = digits(c, &[sizes.len(), sizes.len()]);
        let ((a, i, _), (b, j, r)) = (&sizes[d[0]], &sizes[d[1]]);
        let got = process(exe, &[(*a, *i, c % 7), (*b, *j, c % 11)]);
        ensure!(&got == r, "learner {} on input {} after learner {} on input {}: {:?}, alone in a process {:?}", b, j, a, i, got, r);
        l.step(2);
        l.trace();
        l.state(&d);
        l.outcome(&got);
        Ok(())
    });
    let starts = ctx.pick(64, 1024);
    ctx.family("sizes, networks given", "the structure learners on networks of 1..8 variables from 64 (1024) networks with edges, parameters and statistics", sizes.len() * starts, |c, l| {
        let d = digits(c, &[starts, sizes.len()]);
        let (k, i, r) = &sizes[d[1]];
        let got = operate(w, &Learners::new(), *k, *i, d[0] * 7 + 3)?;
        ensure!(got.trim_end() == r, "learner {} on input {} from network {} learns {:?}, from an empty network {:?}", k, i, d[0] * 7 + 3, got, r);
        l.step(1);
        l.trace();
        l.state(&d);
        l.outcome(&got);
        Ok(())
    });
    ctx.sample("CTPC(MLE) on data 0; hill climbing (BIC, at most 1 parent) on data 1 of equal shape; CTPC(MLE) on data 1".into());
}
