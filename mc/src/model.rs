//! The reference network: plain data, no shortcuts.

use ndarray::{Array, Array1, Array2, Array3, Axis, ShapeBuilder};
use reCTBN::params::{DiscreteStatesContinousTimeParams, Params, StateType};
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::{NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::RewardFunction;
use reCTBN::tools::{Dataset, Trajectory};
use std::collections::BTreeSet;

pub type Set = BTreeSet<usize>;

pub fn set(x: &[usize]) -> Set {
    x.iter().copied().collect()
}
/// The members of bit mask `m`.
pub fn mask(m: usize) -> Set {
    (0..usize::BITS as usize).filter(|b| m >> b & 1 == 1).collect()
}

thread_local! {
    static NAMES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static LAYOUT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static LOGGING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PAST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// What must not matter is chosen by the number of the case.
/// Names: half of the cases have the usual ones, a quarter has nodes with one and the same label, a
/// quarter has labels in another order and states named after the node.
/// Memory layout of the arrays given (see `layout`), order in which edges are added.
/// Whether a logger at the most detailed level is installed: an eighth of the cases.
/// What a node and a network went through before they got their parameters (see `give`, `build`).
pub fn surroundings(case: usize) {
    let h = case.wrapping_mul(0x9E3779B97F4A7C15) >> 40;
    set_names([0, 1, 0, 2][h % 4]);
    LAYOUT.with(|n| n.set(h / 4 % 4));
    LOGGING.with(|n| n.set(h / 16 % 8 == 5));
    PAST.with(|n| n.set(h / 128 % 8));
}
/// Gives the node its CIM: checked or not, after other parameters, together with statistics (which
/// are not those of the CIM), or by replacing the node.
pub fn give(p: &mut Params, cim: Array3<f64>) {
    let (u, k) = (cim.shape()[0], cim.shape()[1]);
    let stats = |p: &mut Params| {
        let d = inner_mut(p);
        d.set_transitions(layout(Array3::from_shape_fn((u, k, k), |(c, x, y)| if x == y { 0 } else { (c * 7 + x * 5 + y * 11) % 9 })));
        d.set_residence_time(layout(Array2::from_shape_fn((u, k), |(c, x)| 0.25 + ((c * 3 + x * 2) % 7) as f64)));
    };
    let checked = |p: &mut Params, cim| inner_mut(p).set_cim(layout(cim)).expect("the reference network has valid parameters");
    match PAST.with(|n| n.get()) {
        1 | 5 => {
            inner_mut(p).set_cim_unchecked(layout(cim));
            stats(p);
        }
        2 | 6 => {
            inner_mut(p).set_cim_unchecked(&cim * 3.0);
            stats(p);
            checked(p, cim);
        }
        3 => {
            let mut q = p.clone();
            checked(&mut q, cim);
            stats(&mut q);
            *p = q;
        }
        7 => {
            stats(p);
            checked(p, cim);
        }
        _ => checked(p, cim),
    }
}
/// The same array in another memory layout: row-major, column-major, rows from last to first in
/// memory, with gaps.
pub fn layout<D: ndarray::Dimension, T: Clone + Default>(a: Array<T, D>) -> Array<T, D> {
    match LAYOUT.with(|n| n.get()) {
        1 => {
            let mut b = Array::from_elem(a.raw_dim().f(), T::default());
            b.assign(&a);
            b
        }
        2 => {
            let mut b = a;
            b.invert_axis(Axis(0));
            let mut b = b.as_standard_layout().into_owned();
            b.invert_axis(Axis(0));
            b
        }
        3 => {
            let mut shape = a.raw_dim();
            let last = a.ndim() - 1;
            shape[last] *= 2;
            let mut b = Array::from_elem(shape, T::default());
            let mut i = 0;
            b.slice_each_axis_inplace(|_| {
                i += 1;
                ndarray::Slice::new(0, None, if i == last + 1 { 2 } else { 1 })
            });
            b.assign(&a);
            b
        }
        _ => a,
    }
}
/// The reward tables of variable `v` in another memory layout.
pub fn relayout(f: &mut FactoredRewardFunction, v: usize) {
    let a = f.get_instantaneous_reward_mut(v);
    *a = layout(a.clone());
    let a = f.get_transition_reward_mut(v);
    *a = layout(a.clone());
}
/// Formats everything that is logged, and drops it.
pub struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|n| n.get())
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            struct Null;
            impl std::fmt::Write for Null {
                fn write_str(&mut self, _: &str) -> std::fmt::Result {
                    Ok(())
                }
            }
            std::fmt::write(&mut Null, *r.args()).unwrap();
        }
    }
    fn flush(&self) {}
}
pub fn names_now() -> usize {
    NAMES.with(|n| n.get())
}
pub fn set_names(kind: usize) {
    NAMES.with(|n| n.set(kind));
}
/// One for each kind of names.
pub fn by_names<T>(f: impl Fn() -> T) -> Vec<T> {
    let now = names_now();
    let all = (0..3)
        .map(|k| {
            set_names(k);
            f()
        })
        .collect();
    set_names(now);
    all
}
/// The label of node `v`.
pub fn label(v: usize) -> String {
    match names_now() {
        0 => format!("n{}", v),
        1 => String::new(),
        _ => format!("{} n\u{e9}{}", 9 - v % 10, 100_000 - v),
    }
}
fn domain(label: &str, card: usize) -> BTreeSet<String> {
    match names_now() {
        2 => (0..card).map(|x| if x == 1 { String::new() } else { format!("{}{}", x, label) }).collect(),
        _ => (0..card).map(|x| format!("s{:02}", x)).collect(),
    }
}

pub fn node(label: &str, card: usize) -> Params {
    Params::DiscreteStatesContinousTime(dsct(label, card))
}
pub fn dsct(label: &str, card: usize) -> DiscreteStatesContinousTimeParams {
    DiscreteStatesContinousTimeParams::new(label.to_string(), domain(label, card))
}
pub fn inner(p: &Params) -> &DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
pub fn inner_mut(p: &mut Params) -> &mut DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
pub fn into_inner(p: Params) -> DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}

pub fn st(s: &[usize]) -> NetworkProcessState {
    s.iter().map(|x| StateType::Discrete(*x)).collect()
}
pub fn unst(s: &NetworkProcessState) -> Vec<usize> {
    s.iter()
        .map(|x| match x {
            StateType::Discrete(x) => *x,
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Net {
    pub cards: Vec<usize>,
    pub parents: Vec<Set>,
    pub cims: Vec<Array3<f64>>,
}

/// Number of joint states of `vars`.
pub fn joint(cards: &[usize], vars: &Set) -> usize {
    vars.iter().map(|v| cards[*v]).product()
}
/// The configuration of `vars` in state `s`: smallest index fastest.
pub fn config(cards: &[usize], vars: &Set, s: &[usize]) -> usize {
    let (mut idx, mut stride) = (0, 1);
    for v in vars {
        idx += s[*v] * stride;
        stride *= cards[*v];
    }
    idx
}
pub fn decode(cards: &[usize], mut n: usize) -> Vec<usize> {
    cards
        .iter()
        .map(|c| {
            let d = n % c;
            n /= c;
            d
        })
        .collect()
}
pub fn encode(cards: &[usize], s: &[usize]) -> usize {
    let (mut idx, mut stride) = (0, 1);
    for (x, c) in s.iter().zip(cards) {
        idx += x * stride;
        stride *= c;
    }
    idx
}

impl Net {
    /// A network whose rates are given by `rate(node, configuration, from, to)`.
    pub fn with<F: Fn(usize, usize, usize, usize) -> f64>(
        cards: &[usize],
        parents: &[Set],
        rate: F,
    ) -> Net {
        let cims = (0..cards.len())
            .map(|v| {
                let (u, k) = (joint(cards, &parents[v]), cards[v]);
                let mut m = Array3::zeros((u, k, k));
                for c in 0..u {
                    for x in 0..k {
                        let mut exit = 0.0;
                        for y in 0..k {
                            if x != y {
                                let r = rate(v, c, x, y);
                                m[[c, x, y]] = r;
                                exit += r;
                            }
                        }
                        m[[c, x, x]] = -exit;
                    }
                }
                m
            })
            .collect();
        Net { cards: cards.to_vec(), parents: parents.to_vec(), cims }
    }

    /// Pairwise distinct rates.
    pub fn distinct(cards: &[usize], parents: &[Set]) -> Net {
        Net::with(cards, parents, |v, c, x, y| {
            let k = 1 + y + 7 * (x + 7 * (c + 61 * v));
            // irrational-looking, distinct, in [0.3, 4.3]
            0.3 + 4.0 * ((k as f64 * 0.6180339887498949).fract())
        })
    }

    pub fn n(&self) -> usize {
        self.cards.len()
    }
    pub fn nstates(&self) -> usize {
        self.cards.iter().product()
    }
    pub fn edges(&self) -> Vec<(usize, usize)> {
        let mut e = vec![];
        for (c, p) in self.parents.iter().enumerate() {
            for x in p {
                e.push((*x, c));
            }
        }
        e
    }
    pub fn children(&self, v: usize) -> Set {
        (0..self.n()).filter(|c| self.parents[*c].contains(&v)).collect()
    }
    pub fn cfg(&self, v: usize, s: &[usize]) -> usize {
        config(&self.cards, &self.parents[v], s)
    }
    /// Rate at which `v` moves to `to` in joint state `s`.
    pub fn rate(&self, v: usize, s: &[usize], to: usize) -> f64 {
        self.cims[v][[self.cfg(v, s), s[v], to]]
    }
    pub fn exit(&self, v: usize, s: &[usize]) -> f64 {
        -self.cims[v][[self.cfg(v, s), s[v], s[v]]]
    }

    pub fn build_structure(&self) -> CtbnNetwork {
        let mut net = CtbnNetwork::new();
        for (i, c) in self.cards.iter().enumerate() {
            net.add_node(node(&label(i), *c)).unwrap();
        }
        net.initialize_adj_matrix();
        let mut edges = self.edges();
        if LAYOUT.with(|n| n.get()) > 1 {
            edges.reverse();
        }
        for (p, c) in edges {
            net.add_edge(p, c);
        }
        net
    }
    pub fn build(&self) -> CtbnNetwork {
        let mut net = self.build_structure();
        if PAST.with(|n| n.get()) > 4 && self.nstates_below(64) {
            // used with other parameters before
            for v in 0..self.n() {
                let cim = Array3::from_shape_fn(self.cims[v].raw_dim(), |(c, x, y)| {
                    let k = self.cards[v] as f64;
                    if x == y { (1.0 - k) * (1 + c + x + v) as f64 } else { (1 + c + x + v) as f64 }
                });
                inner_mut(net.get_node_mut(v)).set_cim(cim).unwrap();
            }
            net.amalgamation();
            reCTBN::tools::trajectory_generator(&net, 1, 0.5, Some(3));
            FactoredRewardFunction::initialize_from_network_process(&net);
        }
        for v in 0..self.n() {
            give(net.get_node_mut(v), self.cims[v].clone());
        }
        net
    }
    fn nstates_below(&self, max: usize) -> bool {
        self.n() > 0 && self.n() < 12 && self.cards.iter().all(|c| *c > 1) && self.nstates() <= max
    }
    /// The joint generator, computed from the definition.
    pub fn generator(&self) -> Array2<f64> {
        let n = self.nstates();
        let mut q = Array2::zeros((n, n));
        for i in 0..n {
            let s = decode(&self.cards, i);
            for j in 0..n {
                let t = decode(&self.cards, j);
                let diff: Vec<usize> = (0..self.n()).filter(|v| s[*v] != t[*v]).collect();
                q[[i, j]] = match diff.len() {
                    0 => (0..self.n()).map(|v| self.rate(v, &s, s[v])).sum(),
                    1 => self.rate(diff[0], &s, t[diff[0]]),
                    _ => 0.0,
                };
            }
        }
        q
    }
    pub fn describe(&self) -> String {
        format!("cards={:?} edges={:?}", self.cards, self.edges())
    }
    pub fn ctmp(&self) -> CtmpProcess {
        self.build().amalgamation()
    }
}

/// All graphs on `n` nodes: parent sets of graph number `g` in 0..2^(n(n-1)).
pub fn graph(n: usize, mut g: usize) -> Vec<Set> {
    let mut p = vec![Set::new(); n];
    for child in 0..n {
        for parent in 0..n {
            if parent != child {
                if g & 1 == 1 {
                    p[child].insert(parent);
                }
                g >>= 1;
            }
        }
    }
    p
}
pub fn n_graphs(n: usize) -> usize {
    1 << (n * (n - 1))
}

pub fn trajectory(times: &[f64], events: &[Vec<usize>], n: usize) -> Trajectory {
    let n = events.first().map_or(n, |e| e.len());
    let flat: Vec<usize> = events.iter().flatten().copied().collect();
    Trajectory::new(
        layout(Array1::from_vec(times.to_vec())),
        layout(Array2::from_shape_vec((events.len(), n), flat).unwrap()),
    )
}

/// Plain data of a dataset.
#[derive(Clone, Debug, PartialEq)]
pub struct Traj {
    pub t: Vec<f64>,
    pub e: Vec<Vec<usize>>,
}
pub fn dataset(d: &[Traj]) -> Dataset {
    // trajectories without rows have as many variables as the others
    let n = d.iter().find_map(|x| x.e.first()).map_or(0, |e| e.len());
    dataset_of(d, n)
}
/// A dataset of `n` variables, of which the rows need not tell.
pub fn dataset_of(d: &[Traj], n: usize) -> Dataset {
    Dataset::new(d.iter().map(|x| trajectory(&x.t, &x.e, n)).collect())
}
pub fn undataset(d: &Dataset) -> Vec<Traj> {
    d.get_trajectories()
        .iter()
        .map(|x| Traj {
            t: x.get_time().to_vec(),
            e: x.get_events().rows().into_iter().map(|r| r.to_vec()).collect(),
        })
        .collect()
}

/// Reference sufficient statistics.
pub fn stats(
    cards: &[usize],
    d: &[Traj],
    v: usize,
    ps: &Set,
) -> (Array3<usize>, Array2<f64>) {
    let (u, k) = (joint(cards, ps), cards[v]);
    let mut m = Array3::zeros((u, k, k));
    let mut t = Array2::zeros((u, k));
    for tr in d {
        for i in 1..tr.t.len() {
            let c = config(cards, ps, &tr.e[i - 1]);
            let (a, b) = (tr.e[i - 1][v], tr.e[i][v]);
            t[[c, a]] += tr.t[i] - tr.t[i - 1];
            if a != b {
                m[[c, a, b]] += 1;
            }
        }
    }
    (m, t)
}

/// A deterministic path of the reference network, long enough to visit many configurations:
/// xorshift choices, exact dyadic times.
pub fn walk(cards: &[usize], len: usize, seed: u64) -> Traj {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = |n: usize| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        ((x >> 33) as usize) % n
    };
    let mut s: Vec<usize> = cards.iter().map(|c| rnd(*c)).collect();
    let mut t = 0.0;
    let mut tr = Traj { t: vec![0.0], e: vec![s.clone()] };
    for _ in 0..len {
        t += (1 + rnd(16)) as f64 / 16.0;
        let v = rnd(cards.len());
        s[v] = (s[v] + 1 + rnd(cards[v] - 1)) % cards[v];
        tr.t.push(t);
        tr.e.push(s.clone());
    }
    tr.t.push(t + 0.5);
    tr.e.push(s);
    tr
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![false; n], &mut out);
    out
}
/// Permutation number `k` of 0..n (factorial base).
pub fn permutation(n: usize, mut k: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        out.push(pool.remove(k % i));
        k /= i;
    }
    out
}
