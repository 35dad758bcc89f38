//! C07 forward sampling, C08 trajectory generation, C09 seeds, C25 Markov processes.

use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::rng::*;
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{RewardEvaluation, RewardFunction};
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::tools::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------ C07

/// Networks with strongly contrasting rates: forgetting to redraw a clock, redrawing one too
/// many with the wrong rate, or using a stale configuration changes the law by a wide margin.
pub fn contrast_nets() -> Vec<(&'static str, Net)> {
    let c = |cards: &[usize], edges: &[(usize, usize)]| -> Net {
        let mut p = vec![Set::new(); cards.len()];
        for (a, b) in edges {
            p[*b].insert(*a);
        }
        Net::with(cards, &p, |v, c, x, y| {
            // configuration parity decides fast or slow; state and variable modulate
            let fast = (c + v) % 2 == 0;
            let base = if fast { 4.0 } else { 0.35 };
            let exit = base * [1.0, 1.6, 0.7][x % 3] * (1.0 + 0.2 * v as f64);
            // ternary variables split 1/4 : 3/4, which the grids hit exactly
            exit * if cards[v] == 2 { 1.0 } else if (x + 1 + (c + v) % 2) % 3 == y { 0.25 } else { 0.75 }
        })
    };
    vec![
        ("single ternary", c(&[3], &[])),
        ("independent", c(&[2, 2], &[])),
        ("chain", c(&[2, 2], &[(0, 1)])),
        ("chain, reversed indices", c(&[2, 2], &[(1, 0)])),
        ("cycle", c(&[2, 2], &[(0, 1), (1, 0)])),
        ("chain, ternary child", c(&[2, 3], &[(0, 1)])),
        ("chain, ternary parent", c(&[3, 2], &[(0, 1)])),
        ("cycle, mixed", c(&[2, 3], &[(0, 1), (1, 0)])),
        ("fork", c(&[2, 2, 2], &[(0, 1), (0, 2)])),
        ("collider", c(&[2, 2, 2], &[(0, 2), (1, 2)])),
        ("3-cycle", c(&[2, 2, 2], &[(0, 1), (1, 2), (2, 0)])),
        ("chain of 3, middle first", c(&[2, 2, 2], &[(1, 0), (0, 2)])),
        ("collider in the middle, mixed", c(&[2, 2, 3], &[(0, 1), (2, 1)])),
    ]
}

/// Analytic E[ 1(first jumps are `path`) exp(-theta_1 dt_1 - theta_2 dt_2 ...) ].
fn analytic(net: &Net, s0: &[usize], path: &[(usize, usize)], theta: &[f64]) -> f64 {
    let mut s = s0.to_vec();
    let mut p = 1.0;
    for ((v, y), th) in path.iter().zip(theta) {
        let exit: f64 = (0..net.n()).map(|v| net.exit(v, &s)).sum();
        p *= net.rate(*v, &s, *y) / (exit + th);
        s[*v] = *y;
    }
    p
}

/// The jumps between consecutive samples, checked for well-formedness.
fn jumps(net: &Net, path: &[(f64, Vec<usize>)]) -> Result<Vec<(usize, usize)>, String> {
    let mut out = vec![];
    for w in path.windows(2) {
        let (t0, a) = &w[0];
        let (t1, b) = &w[1];
        ensure!(t1.is_finite() && t1 >= t0, "time goes from {} to {}", t0, t1);
        ensure!(b.len() == net.n(), "a state of {} variables", b.len());
        let diff: Vec<usize> = (0..net.n()).filter(|v| a[*v] != b[*v]).collect();
        ensure!(diff.len() == 1, "{} variables change from {:?} to {:?}", diff.len(), a, b);
        let v = diff[0];
        ensure!(b[v] < net.cards[v], "variable {} takes state {} of {}", v, b[v], net.cards[v]);
        ensure!(net.rate(v, a, b[v]) > 0.0, "variable {} moves from {:?} to {} at rate 0", v, a, b[v]);
        out.push((v, b[v]));
    }
    Ok(out)
}

fn take<N: NetworkProcess>(s: &mut ForwardSampler<N>, n: usize) -> Vec<(f64, Vec<usize>)> {
    (0..n)
        .map(|_| {
            let x = s.next().unwrap();
            (x.t, unst(&x.state))
        })
        .collect()
}

/// Networks of many variables, states, parents.
pub fn wide_nets() -> Vec<Net> {
    let e = |cards: Vec<usize>, edges: Vec<(usize, usize)>| -> Net {
        let mut p = vec![Set::new(); cards.len()];
        for (a, b) in edges {
            p[b].insert(a);
        }
        Net::distinct(&cards, &p)
    };
    vec![
        e(vec![2; 40], (0..40).map(|i| (i, (i + 1) % 40)).collect()),
        e((0..70).map(|i| 2 + i % 3).collect(), (0..70).map(|i| ((i + 1) % 70, i)).collect()),
        e((0..130).map(|i| 2 + i % 3).collect(), (0..130).flat_map(|i| [(i, (i + 1) % 130), (i, (i + 65) % 130)]).collect()),
        e(vec![2; 260], (1..260).map(|i| (0, i)).collect()),
        e(vec![3; 300], (0..299).map(|i| (299, i)).collect()),
        e(vec![300], vec![]),
        e(vec![300, 2], vec![(0, 1), (1, 0)]),
        e(vec![2, 17, 16], vec![(1, 0), (2, 0)]),
        e(vec![2; 11], (0..10).map(|i| (i, 10)).chain([(10, 0)]).collect()),
        e(vec![3; 7], (1..7).map(|i| (i, 0)).collect()),
    ]
}

const FAST: f64 = 1e6;
const SLOW: f64 = 1e-9;

/// A network with one fast transition in each state of a given path, all the others being slower
/// by 15 orders of magnitude: the path is taken, whatever the outcomes.
struct Forced {
    name: String,
    net: Net,
    start: Vec<usize>,
    path: Vec<(usize, usize)>,
}
fn forced(name: String, cards: Vec<usize>, parents: Vec<Set>, start: Vec<usize>, path: Vec<(usize, usize)>) -> Forced {
    let mut fast: std::collections::HashSet<(usize, usize, usize, usize)> = Default::default();
    let mut s = start.clone();
    for (v, y) in &path {
        fast.insert((*v, config(&cards, &parents[*v], &s), s[*v], *y));
        s[*v] = *y;
    }
    let net = Net::with(&cards, &parents, |v, c, x, y| if fast.contains(&(v, c, x, y)) { FAST } else { SLOW });
    // the path must be what the network forces
    let mut s = start.clone();
    for (i, (v, y)) in path.iter().enumerate() {
        let f: Vec<(usize, usize)> = (0..cards.len()).flat_map(|v| (0..cards[v]).map(move |y| (v, y))).filter(|(v, y)| s[*v] != *y && net.rate(*v, &s, *y) == FAST).collect();
        assert_eq!(f, [(*v, *y)], "{} step {}", name, i);
        s[*v] = *y;
    }
    Forced { name, net, start, path }
}
/// A cyclic Gray code over all the joint states (reflected, mixed radix), closed where it can be.
fn gray(cards: &[usize]) -> Vec<(usize, usize)> {
    let n: usize = cards.iter().product();
    let at = |i: usize| -> Vec<usize> {
        let mut out = vec![0; cards.len()];
        let mut block = n;
        let mut i = i;
        for v in (0..cards.len()).rev() {
            block /= cards[v];
            let d = i / block;
            out[v] = d;
            i %= block;
            if d % 2 == 1 {
                i = block - 1 - i;
            }
        }
        out
    };
    (1..n)
        .map(|i| {
            let (a, b) = (at(i - 1), at(i));
            let v = (0..cards.len()).find(|v| a[*v] != b[*v]).unwrap();
            (v, b[v])
        })
        .collect()
}
/// `c`: which family and size.
fn forced_nets(thorough: bool) -> Vec<Forced> {
    let mut out = vec![];
    let others = |n: usize| -> Vec<Set> { (0..n).map(|v| (0..n).filter(|p| *p != v).collect()).collect() };
    // Cascades: each variable copies its parent; along the indices, against them, and scattered.
    let sizes: &[usize] = if thorough { &[2, 3, 5, 8, 16, 17, 33, 64, 65, 66, 128, 129, 130, 256, 257, 300] } else { &[2, 5, 17, 65, 130, 257] };
    for &n in sizes {
        for stride in [1, n - 1, n / 2 + 1, 7] {
            // the order of the variables
            let mut order = vec![];
            let mut x = n / 3;
            let mut seen = vec![false; n];
            while order.len() < n {
                while seen[x] {
                    x = (x + 1) % n;
                }
                seen[x] = true;
                order.push(x);
                x = (x + stride) % n;
            }
            let cards: Vec<usize> = (0..n).map(|v| 2 + v % 2).collect();
            let mut parents = vec![Set::new(); n];
            for w in order.windows(2) {
                parents[w[1]].insert(w[0]);
            }
            let mut start = vec![0; n];
            start[order[0]] = 1;
            let path: Vec<(usize, usize)> = order[1..].iter().map(|v| (*v, 1)).collect();
            out.push(forced(format!("cascade of {} by steps of {}", n, stride), cards, parents, start, path));
        }
        // A token around a ring, twice: parents and children on both sides of the end.
        let cards = vec![3; n];
        if n > 2 {
            let parents: Vec<Set> = (0..n).map(|v| [(v + n - 1) % n].into_iter().collect()).collect();
            let mut start = vec![0; n];
            start[0] = 1;
            let mut path: Vec<(usize, usize)> = (1..n).map(|v| (v, 1)).collect();
            path.extend((0..n).map(|v| (v, 2)));
            // 0 moves on when the last has 1, the others follow their predecessor
            out.push(forced(format!("ring of {}", n), cards, parents, start, path));
        }
    }
    // All the joint states, each variable depending on all the others.
    let mut cs = vec![vec![2; 3], vec![2, 3, 4], vec![4, 3, 2], vec![2; 7], vec![2; 10], vec![3; 5], vec![17, 16], vec![2, 17, 5], vec![65, 3]];
    if thorough {
        cs.extend([vec![2; 11], vec![3; 6], vec![4; 5], vec![16, 17, 3], vec![257, 2], vec![2, 3, 2, 3, 2, 3]]);
    }
    for cards in cs {
        let n = cards.len();
        out.push(forced(format!("Gray code over {:?}", cards), cards.clone(), others(n), vec![0; n], gray(&cards)));
    }
    // One variable of many states, alone and with a variable it does not depend on.
    for k in [3, 16, 17, 64, 255, 256, 257, 300] {
        let jump = |step: usize| -> Vec<(usize, usize)> { (1..k).map(|i| (0, i * step % k)).collect() };
        for step in [1, k - 1, 7] {
            if (k % 7 != 0) || step != 7 {
                out.push(forced(format!("{} states by steps of {}", k, step), vec![k, 2], vec![Set::new(), Set::new()], vec![0, 1], jump(step)));
            }
        }
    }
    out
}

const THETAS: [f64; 3] = [0.0, 1.0, 6.0];

struct Law {
    /// (initial state, path) -> Laplace values for every combination of thetas
    acc: BTreeMap<(Vec<usize>, Vec<(usize, usize)>), Vec<f64>>,
    n: usize,
    mass: f64,
}
impl Law {
    fn new(n: usize) -> Law {
        Law { acc: BTreeMap::new(), n, mass: 0.0 }
    }
    fn combos(&self) -> Vec<Vec<f64>> {
        (0..3usize.pow(self.n as u32))
            .map(|c| digits(c, &vec![3; self.n]).iter().map(|i| THETAS[*i]).collect())
            .collect()
    }
    fn add(&mut self, path: &[(f64, Vec<usize>)], js: Vec<(usize, usize)>, p: f64) {
        self.mass += p;
        let n = self.n;
        let e = self.acc.entry((path[0].1.clone(), js)).or_insert_with(|| vec![0.0; 3usize.pow(n as u32)]);
        let mut f = [[1.0; 3]; 4];
        for i in 0..n {
            let dt = path[i + 1].0 - path[i].0;
            f[i] = [1.0, (-dt).exp(), (-6.0 * dt).exp()];
        }
        for (c, e) in e.iter_mut().enumerate() {
            let mut w = p;
            let mut c = c;
            for fi in f.iter().take(n) {
                w *= fi[c % 3];
                c /= 3;
            }
            *e += w;
        }
    }
    /// Largest deviation from the analytic law; `inits` with their probabilities.
    fn deviation(&self, net: &Net, inits: &[(Vec<usize>, f64)]) -> (f64, String) {
        let combos = self.combos();
        let mut worst = (0.0, String::new());
        // every possible path
        for (s0, p0) in inits {
            let mut paths: Vec<Vec<(usize, usize)>> = vec![vec![]];
            for _ in 0..self.n {
                let mut next = vec![];
                for p in &paths {
                    let mut s = s0.clone();
                    p.iter().for_each(|(v, y)| s[*v] = *y);
                    for v in 0..net.n() {
                        for y in 0..net.cards[v] {
                            if y != s[v] && net.rate(v, &s, y) > 0.0 {
                                let mut q = p.clone();
                                q.push((v, y));
                                next.push(q);
                            }
                        }
                    }
                }
                paths = next;
            }
            for p in paths {
                let got = self.acc.get(&(s0.clone(), p.clone()));
                for (c, th) in combos.iter().enumerate() {
                    let w = p0 * analytic(net, s0, &p, th);
                    let g = got.map_or(0.0, |g| g[c]);
                    if (g - w).abs() > worst.0 {
                        worst = (
                            (g - w).abs(),
                            format!("from {:?} the jumps {:?}: E[1 exp(-theta dt)] with theta {:?} is {:.4}, the Markov process gives {:.4}", s0, p, th, g, w),
                        );
                    }
                }
            }
        }
        worst
    }
}

/// Grids of slightly different sizes, so that no two draws coincide systematically.
fn grids(sizes: &[usize]) -> Vec<Vec<u64>> {
    sizes.iter().map(|k| grid(*k)).collect()
}

/// The values of the first draws, the first `given` of which are as stated (in `alphabet`), those of
/// them which decide states only, and the tolerance. How many draws a sampler makes for a jump, and
/// which of them have an influence, is up to it: if draws after the stated ones, or draws which are
/// divided coarsely, have an influence on the first `k` jumps, the executions are divided among those which have.
fn adapt(alphabet: Vec<Vec<u64>>, given: usize, k: usize, tol: f64, mut run: impl FnMut() -> Vec<(f64, Vec<usize>)>) -> (Vec<Vec<u64>>, Vec<usize>, f64) {
    const BASES: u64 = 24;
    let n = alphabet.len();
    let value = |i: usize, x: u64| if i < n { alphabet[i][x as usize % alphabet[i].len()] } else { x };
    let mut scripts: Vec<Vec<u64>> = (0..BASES).map(|b| (0..n + 24).map(|i| value(i, fnv(&(b, i)))).collect()).collect();
    let usual: Vec<(Vec<(f64, Vec<usize>)>, usize)> = scripts.iter().map(|s| scripted(s, &mut run)).collect();
    // for each draw: whether it decides a time, or a state
    let roles: Vec<(bool, bool)> = (0..n + 24)
        .map(|i| {
            let mut role = (false, false);
            for (s, (o, draws)) in scripts.iter_mut().zip(&usual) {
                if i < given || i >= *draws {
                    continue;
                }
                let old = s[i];
                for x in [1u64 << 34, 1 << 60, 3 << 61, 1 << 63, 7 << 61, u64::MAX - (1 << 34)] {
                    s[i] = x;
                    let new = scripted(s, &mut run).0;
                    match (0..=k).find(|j| new[*j] != o[*j]) {
                        Some(j) if new[j].0 != o[j].0 => role.0 = true,
                        Some(_) => role.1 = true,
                        None => {}
                    }
                }
                s[i] = old;
            }
            role
        })
        .collect();
    let last = roles.iter().rposition(|r| r.0 || r.1).unwrap_or(0);
    let states: Vec<usize> = (given..=last).filter(|i| roles[*i] == (false, true)).collect();
    // (a draw of little influence in the usual case may be a different one)
    if last < n && (given..=last).all(|i| alphabet[i].len() >= if roles[i].0 { 3 } else if roles[i].1 { 2 } else { 0 }) {
        return (alphabet, states, tol);
    }
    let m = roles.iter().filter(|r| r.0 || r.1).count();
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("adapt: roles {:?} sizes {:?}", &roles[..=last], alphabet.iter().map(|a| a.len()).collect::<Vec<_>>());
    }
    let budget: usize = alphabet[given..].iter().map(|a| a.len()).product::<usize>().max(40_000);
    let size = (budget as f64).powf(1.0 / m as f64).floor().max(4.0) as usize;
    let mut seen = 0;
    let out = (0..=last)
        .map(|i| {
            if i < given {
                return alphabet[i].clone();
            }
            let has = roles[i].0 || roles[i].1;
            seen += has as usize;
            // slightly different sizes, as in the usual case
            grid(if has { size + [1, 0][seen % 2] } else { 1 })
        })
        .collect();
    (out, states, tol.max(0.6 / size as f64))
}

pub fn c07(ctx: &mut Ctx) {
    ctx.assume("the generator is a stream of independent uniform 64-bit draws; the law is integrated on a midpoint grid of each draw, so deviations below the stated tolerance (0.02 to 0.09 in probability, depending on the grid) are not seen");
    let nets = contrast_nets();
    let verbose = std::env::var("MC_VERBOSE").is_ok();

    // First jump and first two jumps, from every initial state.
    let mut cases: Vec<(usize, usize, usize, Vec<usize>, f64)> = vec![]; // net, init, jumps, grid, tol
    for (i, (_, net)) in nets.iter().enumerate() {
        for s in 0..net.nstates() {
            let tern = net.cards.iter().any(|c| *c == 3);
            let g1: Vec<usize> = match net.n() {
                1 => vec![200, 100],
                2 => vec![64, 60, 32],
                _ => ctx.pick(vec![28, 24, 32, 16], vec![48, 44, 40, 32]),
            };
            cases.push((i, s, 1, g1, 0.02));
            let (g2, tol) = match net.n() {
                1 => (vec![48, 32, 44, 32], 0.02),
                2 if tern => (ctx.pick(vec![12, 12, 8, 12, 12, 8], vec![24, 20, 16, 16, 20, 16]), 0.05),
                2 => (ctx.pick(vec![15, 14, 8, 13, 12, 8], vec![24, 23, 12, 22, 21, 12]), 0.04),
                _ if tern => (vec![12, 12, 8, 8, 8, 8, 12, 8], 0.06),
                _ => (ctx.pick(vec![9, 8, 10, 2, 7, 7, 6, 2], vec![12, 11, 10, 6, 9, 9, 8, 6]), 0.06),
            };
            if net.n() < 3 || ctx.pick(!tern && (s % 3 == 0 || s == 7), true) {
                cases.push((i, s, 2, g2, tol));
            }
            if net.n() == 2 && (net.nstates() == 4 || !ctx.quick()) {
                cases.push((i, s, 3, ctx.pick(vec![9, 8, 2, 7, 6, 2, 7, 6, 2], vec![12, 11, 3, 10, 9, 3, 9, 8, 3]), ctx.pick(0.06, 0.04)));
            }
        }
    }
    // longest first
    cases.sort_by_key(|c| std::cmp::Reverse(c.3.iter().product::<usize>()));
    let nets_ref = &nets;
    ctx.family("law of the first jumps", "13 networks of 1..3 variables (independent, chain, fork, collider, cycles, ternary), initial states, first 1, 2 and 3 jumps; complete tree of the draws on a grid; joint Laplace transform at theta in {0,1,6} against the amalgamated process", cases.len(), |ci, l| {
        let (i, s, k, g, tol) = &cases[ci];
        let (name, net) = &nets_ref[*i];
        let real = net.build();
        let s0 = decode(&net.cards, *s);
        let init = st(&s0);
        let mut law = Law::new(*k);
        let mut n = 0u64;
        let run = || {
            let mut sm = ForwardSampler::new(&real, Some(11), Some(init.clone()));
            take(&mut sm, *k + 1)
        };
        let (alphabet, states, tol) = adapt(grids(g), 0, *k, *tol, run);
        tree_moved(&alphabet, &states, run, |path, p, _| {
            ensure!(path[0].0 == 0.0 && path[0].1 == s0, "{}: the first sample is {:?}", name, path[0]);
            let js = jumps(net, &path).map_err(|e| format!("{}: {}", name, e))?;
            law.add(&path, js, p);
            n += 1;
            if n % 1024 == 0 {
                l.step(0);
            }
            Ok(())
        })?;
        l.step(n * (*k as u64 + 1));
        l.traces += n;
        for p in law.acc.keys() {
            l.outcome(&(i, p));
            l.state(&(i, s, k, p));
        }
        let (d, why) = law.deviation(net, &[(s0.clone(), 1.0)]);
        if verbose {
            eprintln!("{:30} {:?} jumps {} mass {:.6} deviation {:.4} (tol {})", name, s0, k, law.mass, d, tol);
        }
        ensure!(d <= tol, "{} ({}): {}", name, net.describe(), why);
        Ok(())
    });

    // Resets: whatever was consumed before, the run after the reset has the law of a first run.
    let mut cases = vec![];
    for (i, (_, net)) in nets.iter().enumerate() {
        if net.n() <= 2 || i == 8 || i == 10 {
            for used in 0..ctx.pick(3, 8) {
                for with_init in [true, false] {
                    for resets in 1..=(if used == 0 { 1 } else { 2 }) {
                        cases.push((i, used, with_init, resets));
                    }
                }
            }
        }
    }
    ctx.family("law after a reset", "10 networks, reset after 0..2 (7) samples, once or twice, with and without an initial state: initial state, first and second jump after the reset", cases.len(), |ci, l| {
        let (i, used, with_init, resets) = cases[ci];
        let (name, net) = &nets_ref[i];
        let real = net.build();
        let s0 = decode(&net.cards, (ci * 5) % net.nstates());
        let nv = net.n();
        let g: Vec<usize> = if with_init {
            if net.cards.contains(&3) { vec![16, 12, 8, 12, 8, 4] } else if nv < 3 { vec![12, 11, 4, 10, 9, 4] } else { vec![9, 8, 10, 2, 6, 5, 4, 2] }
        } else {
            if nv == 1 { vec![48, 24] } else if net.cards.contains(&3) { vec![20, 24, 12] } else if nv == 2 { vec![20, 24, 12] } else { vec![13, 12, 14, 4] }
        };
        let k = if with_init { 2 } else { 1 };
        let mut law = Law::new(k);
        let mut n = 0u64;
        // Unscripted prefix, scripted from the reset on.
        let mut alphabet = grids(&g);
        if !with_init {
            // one draw per state for the initial states, chosen not to be rejected
            for c in net.cards.iter().rev() {
                alphabet.insert(0, (0..*c as u128).map(|x| (((4 * x + 1) << 62) / *c as u128) as u64).collect());
            }
        }
        let given = alphabet.len() - g.len();
        let run = || {
            rand_chacha::script::stop();
            let mut sm = ForwardSampler::new(&real, Some(used as u64 * 7 + 3), with_init.then(|| st(&s0)));
            for _ in 0..resets {
                take(&mut sm, used);
                if resets == 2 {
                    sm.reset();
                }
            }
            take(&mut sm, used);
            rand_chacha::script::start(DRAW_CAP);
            sm.reset();
            take(&mut sm, k + 1)
        };
        let tol = if nv == 3 { 0.09 } else if with_init { 0.06 } else { 0.04 };
        let (alphabet, states, tol) = adapt(alphabet, given, k, tol, run);
        tree_moved(&alphabet, &states, run, |path, p, _| {
            ensure!(path[0].0 == 0.0, "{}: after a reset the first sample is at {}", name, path[0].0);
            if with_init {
                ensure!(path[0].1 == s0, "{}: after a reset the first sample is {:?}, expected {:?}", name, path[0].1, s0);
            }
            let js = jumps(net, &path).map_err(|e| format!("{}: {}", name, e))?;
            law.add(&path, js, p);
            n += 1;
            if n % 1024 == 0 {
                l.step(0);
            }
            Ok(())
        })?;
        l.step(n * (k as u64 + 2 + used as u64));
        l.traces += n;
        for p in law.acc.keys() {
            l.outcome(&(i, p));
            l.state(&(i, used, with_init, resets, p));
        }
        let inits: Vec<(Vec<usize>, f64)> = if with_init {
            vec![(s0.clone(), 1.0)]
        } else {
            (0..net.nstates()).map(|s| (decode(&net.cards, s), 1.0 / net.nstates() as f64)).collect()
        };
        // conditional on the initial state, whose own law is checked below
        let mut masses: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
        for ((s, _), v) in &law.acc {
            *masses.entry(s.clone()).or_insert(0.0) += v[0];
        }
        for (s, p) in &inits {
            let m = *masses.get(s).ok_or(format!("{}: the initial state {:?} is never drawn", name, s))?;
            for ((s2, _), v) in law.acc.iter_mut() {
                if s2 == s {
                    v.iter_mut().for_each(|x| *x *= p / m);
                }
            }
        }
        let (d, why) = law.deviation(net, &inits);
        if verbose {
            eprintln!("reset {:30} used {} init {} deviation {:.4}", name, used, with_init, d);
        }
        ensure!(d <= tol, "{} reset after {} samples ({} times, initial state {}): {}", name, used, resets, with_init, why);
        Ok(())
    });

    // Late in a path: after a first jump which takes very long, and after many jumps.
    let mut late: Vec<(String, Net, Vec<usize>, usize)> = vec![];
    for slow in [1e-3, 1e-5, 1e-7, 1e-8, 1e-9] {
        for first in 0..3 {
            // `first` moves once; the other two only move after it did
            let cards = vec![2; 3];
            let parents: Vec<Set> = (0..3).map(|v| if v == first { Set::new() } else { set(&[first]) }).collect();
            let net = Net::with(&cards, &parents, |v, c, x, _| {
                if v == first { if x == 0 { slow } else { 1e-30 } } else if c == 0 { 1e-30 } else { [0.5, 1.1, 2.3][v] * if x == 0 { 1.0 } else { 1.5 } }
            });
            late.push((format!("{} moves at rate {}, then the others", first, slow), net, vec![0; 3], 0));
        }
    }
    // rates which differ between all configurations, so that no clock need be kept
    let mixed = Net::with(&[2, 3], &[set(&[1]), set(&[0])], |v, c, x, y| {
        if v == 0 { [4.0, 0.35, 1.3][c] * [1.0, 1.6][x] } else { [0.5, 4.0][c] * [1.0, 1.6, 0.7][x] * if (x + 1 + c) % 3 == y { 0.25 } else { 0.75 } }
    });
    for after in [1usize, 2, 3, 7, 16, 31, 100, 255, 256, 1000, 1024, 4096].into_iter().chain(ctx.pick(vec![], vec![65535, 65536, 100000, 1 << 20])) {
        // every jump redraws all the clocks, so that what follows has the law of a first jump
        late.push((format!("cycle after {} samples", after), nets_ref[4].1.clone(), vec![0; 2], after));
        late.push((format!("mixed cycle after {} samples", after), mixed.clone(), vec![1; 2], after));
    }
    let lr = &late;
    ctx.family("law late in the path", "a first jump after a time of 1e3 to 1e9 followed by the competition of two variables; the next jump after 1 to 4096 (2^20) samples", lr.len(), |ci, l| {
        let (name, net, s0, after) = &lr[ci];
        let real = net.build();
        let k = if *after == 0 { 2 } else { 1 };
        let mut law = Law::new(k);
        let mut n = 0u64;
        // the samples before are those of the real generator, the same in every execution
        let run = || {
            rand_chacha::script::stop();
            if *after == 0 {
                rand_chacha::script::start(DRAW_CAP);
            }
            let mut sm = ForwardSampler::new(&real, Some(5), Some(st(s0)));
            if *after > 0 {
                take(&mut sm, *after);
                rand_chacha::script::start(DRAW_CAP);
            }
            take(&mut sm, k + 1)
        };
        let g: Vec<usize> = if *after == 0 {
            // the clock of the variable that moves first, and those of the others, drawn again
            let first = (0..3).find(|v| net.parents[*v].is_empty()).unwrap();
            (0..3).map(|v| if v == first { 3 } else { 2 }).chain([1, 25, 24, 23, 1]).collect()
        } else {
            // how far ahead the sampler has drawn is up to it: find out which of the draws that are
            // left decide the time of the next jump, and which ones only states
            let (low, high) = (0x5eb851eb851eb851u64, 0xe666666666666666u64);
            let (_, draws) = scripted(&[low; 8], run);
            let draws = draws.min(6);
            let (mut fine, coarse) = if net.cards[1] == 3 { (vec![20, 24], 8) } else { (vec![39, 40], 2) };
            let roles: Vec<(bool, bool)> = (0..draws)
                .map(|i| {
                    let (mut time, mut state) = (false, false);
                    for others in 0..1 << draws {
                        let mut v: Vec<u64> = (0..8).map(|j| if others >> j & 1 == 0 { low } else { high }).collect();
                        let (usual, _) = scripted(&v, run);
                        for x in [1u64 << 34, 1 << 60, 1 << 63, 7 << 61, u64::MAX - (1 << 34)] {
                            v[i] = x;
                            let (o, _) = scripted(&v, run);
                            time |= o[1].0 - o[0].0 != usual[1].0 - usual[0].0;
                            state |= o != usual;
                        }
                        if time {
                            break;
                        }
                    }
                    (time, state)
                })
                .collect();
            // a clock for each variable, or draws of states which decide more than targets
            let clocks = roles.iter().filter(|r| r.0).count() >= net.n();
            roles.iter().map(|r| if r.0 { fine.pop().unwrap_or(19) } else if r.1 { if clocks { coarse } else { 40 } } else { 1 }).collect()
        };
        let (alphabet, states, tol) = if *after == 0 { adapt(grids(&g), 0, k, 0.06, run) } else { (grids(&g), vec![], 0.06) };
        tree_moved(&alphabet, &states, run, |path, p, _| {
            let js = jumps(net, &path).map_err(|e| format!("{}: {}", name, e))?;
            law.add(&path, js, p);
            n += 1;
            if n % 1024 == 0 {
                l.step(0);
            }
            Ok(())
        })?;
        l.step(n * (after + 3) as u64);
        l.traces += n;
        for p in law.acc.keys() {
            l.outcome(&(ci, p));
            l.state(&(ci, p));
        }
        // conditional on the state from which the jump is made
        let mut masses: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
        for ((s, _), v) in &law.acc {
            *masses.entry(s.clone()).or_insert(0.0) += v[0];
        }
        if *after == 0 {
            masses = [(s0.clone(), 1.0)].into();
        }
        let (mut d, mut why) = law.deviation(net, &masses.into_iter().collect::<Vec<_>>());
        let mut tol = tol;
        if d > tol && *after > 0 {
            // A sampler may keep clocks for longer than a jump: then the next jump has the law of a first one
            // over the outcomes of all the draws before only.
            let seeds = if *after < 5000 { 4000 } else { 1000 };
            let mut law = Law::new(2);
            let mut masses: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
            for seed in 0..seeds {
                rand_chacha::script::stop();
                let mut sm = ForwardSampler::new(&real, Some(seed), Some(st(s0)));
                for _ in 0..*after {
                    sm.next();
                }
                let path = take(&mut sm, 3);
                let js = jumps(net, &path).map_err(|e| format!("{}: {}", name, e))?;
                law.add(&path, js, 1.0 / seeds as f64);
                *masses.entry(path[0].1.clone()).or_default() += 1.0 / seeds as f64;
            }
            l.step(seeds * *after as u64);
            tol = if seeds == 4000 { 0.06 } else { 0.1 };
            let (d2, why2) = law.deviation(net, &masses.into_iter().collect::<Vec<_>>());
            if verbose {
                eprintln!("late {:40} given the past {:.4}, over all pasts {:.4}", name, d, d2);
            }
            if d2 <= tol {
                (d, why) = (d2, why2);
            }
        }
        if verbose {
            eprintln!("late {:40} mass {:.6} deviation {:.4}", name, law.mass, d);
        }
        ensure!(d <= tol, "{}: {}", name, why);
        Ok(())
    });

    // The times between jumps at all scales, where one clock alone decides.
    let mut single: Vec<(String, Net, Vec<usize>)> = vec![];
    for scale in [1.0, 1e-6, 1e6] {
        for (n, v) in [(1, 0), (2, 0), (2, 1), (3, 1), (4, 3)] {
            for card in [2, 3] {
                // only `v` moves, through its states in turn; the others depend on it
                let cards: Vec<usize> = (0..n).map(|w| if w == v { card } else { 2 }).collect();
                let parents: Vec<Set> = (0..n).map(|w| if w == v { Set::new() } else { set(&[v]) }).collect();
                let net = Net::with(&cards, &parents, |w, _, x, y| if w != v { 1e-30 * scale } else if y == (x + 1) % card { [1.0, 2.5, 0.4][x] * scale } else { 0.0 });
                single.push((format!("variable {} of {} with {} states, scale {}", v, n, card, scale), net, vec![0; n]));
            }
        }
    }
    // One move of the parent of the variable that moves next, whose rate changes little.
    let mut changed: Vec<(f64, usize, usize)> = vec![];
    for change in [1e-4, 1e-3, 0.01, 0.03, 0.1, 0.5] {
        for sign in [-1.0, 1.0] {
            for parent in 0..2 {
                for card in [2, 3] {
                    changed.push((change * sign, parent, card));
                }
            }
        }
    }
    let cr = &changed;
    ctx.family("small changes of a rate", "a parent moves, and the rate of its child changes by 0.01% to 50%: the probabilities that the child moves within the quantiles 1-2^-j and 2^-j after that, j = 1..20, measured down to the resolution of a float, to 0.002% of them", cr.len(), |ci, l| {
        let (change, parent, card) = cr[ci];
        let child = 1 - parent;
        let mut cards = vec![2; 2];
        cards[child] = card;
        let mut parents = vec![Set::new(); 2];
        parents[child].insert(parent);
        let lambda = 0.01 * (1.0 + change);
        let net = Net::with(&cards, &parents, |v, c, x, y| {
            if v == parent { if x == 0 { 1.0 } else { 1e-30 } } else if x > 0 { 1e-30 } else if y == 1 { if c == 0 { 0.01 } else { lambda } } else { 0.0 }
        });
        let real = net.build();
        let base = vec![1u64 << 63; 32];
        let run = |values: &[u64]| {
            scripted(values, || {
                let mut sm = ForwardSampler::new(&real, Some(5), Some(st(&[0, 0])));
                take(&mut sm, 3)
            })
        };
        let (path, draws) = run(&base);
        let js = jumps(&net, &path)?;
        ensure!(js == [(parent, 1), (child, 1)], "the jumps are {:?}", js);
        // which draws decide the second time alone
        let mut which = vec![];
        for i in 0..draws.min(base.len()) {
            let mut values = base.clone();
            let mut some = false;
            for u in [1 << 60, 3 << 61, u64::MAX - (1 << 58)] {
                values[i] = u;
                let p = run(&values).0;
                some |= p[1] == path[1] && p[2].0 != path[2].0;
            }
            if some {
                which.push(i);
            }
        }
        ensure!(!which.is_empty(), "no draw decides when the child moves");
        if which.len() > 1 {
            // not the law of one draw
            return Ok(());
        }
        let mut values = base.clone();
        for j in 1..=20 {
            for upper in [true, false] {
                let want = 0.5f64.powi(j);
                let t = if upper { -want.ln() } else { -(-want).ln_1p() } / lambda;
                let got = measure(&refined(), |u| {
                    values[which[0]] = u;
                    l.step(1);
                    let p = run(&values).0;
                    Ok((p[1] == path[1]).then(|| (p[2].0 - p[1].0 > t) == upper))
                })?;
                // given the move of the parent
                let of = |x: bool| got.get(&Some(x)).copied().unwrap_or(0.0);
                let got = of(true) / (of(true) + of(false));
                l.outcome(&got.to_bits());
                l.state(&(ci, j, upper));
                ensure!(
                    (got - want).abs() <= 2e-5 * want + 1e-9,
                    "a rate of 0.01 becomes {} with a move of {}: the probability of a time {} {} after it is {:e} instead of {:e}",
                    lambda, parent, if upper { "above" } else { "below" }, t, got, want
                );
            }
        }
        l.trace();
        Ok(())
    });
    let sr = &single;
    ctx.family("tails", "30 networks where one variable moves: the probabilities of times between the first 5 jumps above the quantiles 1-2^-j (j = 1..44) and below 2^-j (j = 1..30), measured down to the resolution of a float", single.len(), |ci, l| {
        let (name, net, s0) = &sr[ci];
        let real = net.build();
        let base = vec![1u64 << 63; 64];
        let run = |values: &[u64]| -> Result<(Vec<f64>, usize), String> {
            let (path, draws) = scripted(values, || {
                let mut sm = ForwardSampler::new(&real, Some(5), Some(st(s0)));
                take(&mut sm, 6)
            });
            jumps(net, &path)?;
            Ok((path.windows(2).map(|w| w[1].0 - w[0].0).collect(), draws))
        };
        let (dts, draws) = run(&base)?;
        let mut one = 0;
        for k in 0..5 {
            let v = (0..net.n()).find(|v| net.cards[*v] > 1 && net.exit(*v, s0) > 1e-20).unwrap();
            let mut at = s0.clone();
            at[v] = k % net.cards[v];
            let lambda = net.exit(v, &at);
            // which draws have an influence
            let mut which = vec![];
            for i in 0..draws.min(base.len()) {
                let mut values = base.clone();
                let mut some = false;
                for u in [1 << 60, 3 << 61, u64::MAX - (1 << 58)] {
                    values[i] = u;
                    let (d, _) = run(&values)?;
                    some |= (d[k] - dts[k]).abs() > 1e-6 / lambda;
                }
                if some {
                    which.push(i);
                }
            }
            ensure!(!which.is_empty(), "{}: no draw decides the time before jump {}", name, k + 1);
            if which.len() > 1 {
                continue;
            }
            one += 1;
            let mut values = base.clone();
            for j in 1..=44 {
                for upper in [true, false] {
                    if !upper && j > 30 {
                        continue;
                    }
                    let want = 0.5f64.powi(j);
                    let t = if upper { -want.ln() } else { -(-want).ln_1p() } / lambda;
                    let got = measure(&refined(), |u| {
                        values[which[0]] = u;
                        l.step(1);
                        Ok((run(&values)?.0[k] > t) == upper)
                    })?;
                    let got = got.get(&true).copied().unwrap_or(0.0);
                    l.outcome(&got.to_bits());
                    l.state(&(ci, k, j, upper));
                    ensure!(
                        (got - want).abs() <= 1e-3 * want + 0.5f64.powi(48),
                        "{}: jump {}: the probability of a time {} {} is {:e} instead of {:e}",
                        name, k + 1, if upper { "above" } else { "below" }, t, got, want
                    );
                }
            }
        }
        l.outcome(&one);
        l.trace();
        Ok(())
    });

    // The initial state drawn by the constructor and by resets is uniform over the joint states.
    let mut cases = vec![];
    for (i, (_, net)) in nets.iter().enumerate() {
        if net.nstates() <= 6 || i == 8 {
            for used in 0..3 {
                cases.push((i, used));
            }
        }
    }
    let depth = ctx.pick(9, 11);
    ctx.family("initial state", "joint law of the initial state without a requested one, by the constructor and by resets after 1 and 2 samples; rejected draws followed to depth 9 (11)", cases.len(), |ci, l| {
        let (i, used) = cases[ci];
        let (name, net) = &nets_ref[i];
        let real = net.build();
        let tern = net.cards.contains(&3);
        let d = if tern { depth * 2 / 3 } else { depth };
        let alphabet: Vec<Vec<u64>> = (0..d).map(|_| if tern { grid(12) } else { grid(4) }).collect();
        let mut got = vec![0.0; net.nstates()];
        tree(&alphabet, || {
            rand_chacha::script::stop();
            if used == 0 {
                rand_chacha::script::start(DRAW_CAP);
            }
            let mut sm = ForwardSampler::new(&real, Some(99), None);
            if used > 0 {
                take(&mut sm, used);
                rand_chacha::script::start(DRAW_CAP);
                sm.reset();
            }
            // Up to here only the initial state has been drawn; the rest is not scripted.
            let n = rand_chacha::script::stop();
            let s = sm.next().unwrap();
            rand_chacha::script::resume(n);
            (s.t, unst(&s.state))
        }, |(t, s), p, _| {
            ensure!(t == 0.0 && (0..net.n()).all(|v| s[v] < net.cards[v]), "{}: starts at {} in {:?}", name, t, s);
            got[encode(&net.cards, &s)] += p;
            l.step(1);
            l.traces += 1;
            Ok(())
        })?;
        for s in 0..net.nstates() {
            l.state(&(i, used, s));
            l.outcome(&(i, s));
            let w = 1.0 / net.nstates() as f64;
            ensure!((got[s] - w).abs() < 0.35 * w + 0.01, "{}: the initial state {:?} has probability {:.3}, expected {:.3}", name, decode(&net.cards, s), got[s], w);
        }
        Ok(())
    });

    // Well-formedness under extreme draws, then 60 further jumps from the real generator.
    let d = ctx.pick(5, 6);
    let mut cases = vec![];
    for (i, (_, net)) in nets.iter().enumerate() {
        for s in 0..net.nstates() {
            for z in 0..2 {
                cases.push((i, s, z));
            }
        }
    }
    let ext: Vec<u64> = vec![0, 1, (1 << 12) - 1, 1 << 63, u64::MAX - (1 << 12), u64::MAX - 1, u64::MAX];
    ctx.family("extreme draws", "every network and initial state, also with zero rates: 7 extreme values for each of the first 5 (6) draws, 12 jumps in all", cases.len(), |ci, l| {
        let (i, s, z) = cases[ci];
        let base = &nets_ref[i].1;
        let net = if z == 0 {
            base.clone()
        } else {
            Net::with(&base.cards, &base.parents, |v, c, x, y| {
                if base.cards[v] > 2 && (x + c + 1) % base.cards[v] == y { 0.0 } else { base.cims[v][[c, x, y]] * [1e-6, 1e6, 1.0][(v + c) % 3] }
            })
        };
        let real = net.build();
        let s0 = decode(&net.cards, s);
        let al = vec![ext.clone(); d];
        tree(&al, || {
            let mut sm = ForwardSampler::new(&real, Some(11), Some(st(&s0)));
            take(&mut sm, 13)
        }, |path, _, _| {
            ensure!(path[0].0 == 0.0 && path[0].1 == s0, "the first sample is {:?}", path[0]);
            let js = jumps(&net, &path)?;
            l.step(13);
            l.trace();
            l.outcome(&js);
            Ok(())
        })?;
        l.state(&(i, s, z));
        Ok(())
    });

    // Long paths: the invariants on every step, larger networks.
    let nl = ctx.pick(400, 6000);
    let len = ctx.pick(400, 1500);
    ctx.family("long paths", "paths of 400 (1500) jumps of networks of 2..6 variables with 2..4 states, generator seeds 0..399 (5999)", nl, |c, l| {
        let n = 2 + c % 5;
        let cards: Vec<usize> = (0..n).map(|v| 2 + (c / 5 + v) % 3).collect();
        let g = (c.wrapping_mul(0x9E3779B97F4A7C15)) >> 11;
        let parents: Vec<Set> = graph(n, g & ((1 << (n * (n - 1)).min(62)) - 1)).into_iter().map(|p| p.into_iter().take(3).collect()).collect();
        let net = Net::distinct(&cards, &parents);
        let real = net.build();
        let init = (c % 3 > 0).then(|| decode(&cards, c % net.nstates()));
        let mut sm = ForwardSampler::new(&real, Some(c as u64), init.as_ref().map(|s| st(s)));
        for round in 0..2 {
            let path = take(&mut sm, len);
            ensure!(path[0].0 == 0.0, "the first sample is at {}", path[0].0);
            if let Some(s) = &init {
                ensure!(path[0].1 == *s, "round {}: starts in {:?} instead of {:?}", round, path[0].1, s);
            } else {
                ensure!((0..n).all(|v| path[0].1[v] < cards[v]), "starts in {:?}", path[0].1);
            }
            jumps(&net, &path)?;
            l.step(len as u64);
            for p in &path {
                l.state(&(c % 64, &p.1));
            }
            l.trace();
            sm.reset();
        }
        Ok(())
    });
    // The unit of time.
    let units = ctx.pick(vec![-900, -300, -80, 80, 300, 900], (-990..=990).step_by(30).filter(|e| *e != 0).collect::<Vec<i32>>());
    let useeds = ctx.pick(8usize, 100);
    let mut unit_nets: Vec<Net> = contrast_nets().into_iter().map(|n| n.1).collect();
    unit_nets.extend(wide_nets().into_iter().take(3));
    let un = &unit_nets;
    ctx.family("units of time", "13 small and 3 large networks, all rates multiplied by the same power of two from 2^-900 to 2^900 (2^-990 to 2^990): the path of 300 samples is that of the network itself, in that unit; generator seeds 0..7 (99), a reset in between", un.len() * units.len(), |c, l| {
        let (net, e) = (&un[c % un.len()], units[c / un.len()]);
        let f = 2f64.powi(e);
        let scaled = Net { cards: net.cards.clone(), parents: net.parents.clone(), cims: net.cims.iter().map(|q| q.mapv(|x| x * f)).collect() };
        let (one, other) = (net.build(), scaled.build());
        for seed in 0..useeds as u64 {
            let (mut a, mut b) = (ForwardSampler::new(&one, Some(seed), None), ForwardSampler::new(&other, Some(seed), None));
            for round in 0..2 {
                let (pa, pb) = (take(&mut a, 300), take(&mut b, 300));
                for (i, (x, y)) in pa.iter().zip(&pb).enumerate() {
                    ensure!(x.1 == y.1 && (y.0 * f - x.0).abs() <= 1e-9 * x.0, "{}: seed {} round {} sample {} with rates 2^{} times as high is {:?} at {:e} instead of {:?} at {:e}", net.describe(), seed, round, i, e, y.1, y.0, x.1, x.0 / f);
                }
                l.step(300);
                l.outcome(&(seed, round, e));
                a.reset();
                b.reset();
            }
        }
        l.state(&c);
        l.trace();
        Ok(())
    });
    // So many samples that a counter of 16 or 20 bits comes round.
    let many = ctx.pick(1usize << 21, 1 << 25) + (1 << 16);
    ctx.family("millions of samples", "paths of 2^21 (2^25) and some jumps of one and three variables: no four waiting times in a row come twice", 2, |c, l| {
        let net = if c == 0 { Net::distinct(&[2], &graph(1, 0)) } else { Net::distinct(&[2, 3, 2], &graph(3, 0b000101)) };
        let real = net.build();
        let mut sm = ForwardSampler::new(&real, Some(3 + c as u64), None);
        let mut last = 0.0;
        let mut seen = Vec::with_capacity(many);
        let (mut prev, mut row) = (sm.next().unwrap(), [0u64; 4]);
        for i in 0..many {
            let s = sm.next().unwrap();
            ensure!(s.t > last, "sample {} is at {} after {}", i + 1, s.t, last);
            let d: usize = s.state.iter().zip(&prev.state).filter(|(a, b)| a != b).count();
            ensure!(d == 1, "{} variables move with sample {}", d, i + 1);
            row = [row[1], row[2], row[3], (s.t - last).to_bits()];
            last = s.t;
            prev = s;
            if i >= 3 {
                let h = row.iter().fold(0u64, |h, x| (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29) ^ (h >> 7));
                seen.push((h, i as u32));
            }
            l.step(1);
        }
        seen.sort_unstable();
        // A pair of equal hashes now and then is expected of some 2^50 pairs.
        let twice: Vec<_> = seen.windows(2).filter(|w| w[0].0 == w[1].0).take(64).collect();
        ensure!(twice.len() < 16, "the waiting times after {} samples are those after {} samples", twice[0][1].1, twice[0][0].1);
        l.trace();
        l.outcome(&many);
        Ok(())
    });
    // Paths which the rates force, on many variables, states and parents.
    let forced = forced_nets(!ctx.quick());
    let fr = &forced;
    let fseeds = ctx.pick(4usize, 60);
    ctx.family("forced paths", "networks of 2 to 257 (300) variables in cascades and rings, variables depending on all the others with up to 512 (1024) configurations, variables of up to 300 states; one transition 15 orders of magnitude faster than the others in each state: the path is taken in order and in time, generator seeds 0..3 (59), twice with a reset between", fr.len() * fseeds, |c, l| {
        let (f, seed) = (&fr[c / fseeds], (c % fseeds) as u64);
        let real = f.net.build();
        let mut sm = ForwardSampler::new(&real, Some(seed), Some(st(&f.start)));
        for round in 0..2 {
            let path = take(&mut sm, f.path.len() + 1);
            ensure!(path[0].0 == 0.0 && path[0].1 == f.start, "{} round {}: the first sample is {:?}", f.name, round, path[0]);
            let js = jumps(&f.net, &path).map_err(|e| format!("{} round {}: {}", f.name, round, e.chars().take(400).collect::<String>()))?;
            for (i, (g, w)) in js.iter().zip(&f.path).enumerate() {
                ensure!(g == w, "{} round {}: jump {} takes variable {} to {} instead of {} to {}", f.name, round, i, g.0, g.1, w.0, w.1);
                let dt = path[i + 1].0 - path[i].0;
                ensure!(dt < 100.0 / FAST, "{} round {}: jump {} after a time of {} at rate {}", f.name, round, i, dt, FAST);
                l.state(&(c / fseeds, i));
            }
            l.step(js.len() as u64);
            l.trace();
            l.outcome(&js);
            sm.reset();
        }
        Ok(())
    });
    let wide = wide_nets();
    let wr = &wide;
    let wseeds = ctx.pick(6usize, 200);
    ctx.family("large networks", "10 networks of up to 300 variables, 300 states, 1024 configurations: paths of 3000 jumps, generator seeds 0..5 (199)", wr.len() * wseeds, |c, l| {
        let (net, seed) = (&wr[c % wr.len()], (c / wr.len()) as u64);
        let real = net.build();
        let init = (seed % 2 == 1).then(|| (0..net.n()).map(|v| (seed as usize * 7 + v * 3) % net.cards[v]).collect::<Vec<_>>());
        let mut sm = ForwardSampler::new(&real, Some(seed), init.as_ref().map(|s| st(s)));
        for _ in 0..2 {
            let path = take(&mut sm, 3000);
            ensure!(path[0].0 == 0.0 && (0..net.n()).all(|v| path[0].1[v] < net.cards[v]) && init.as_ref().is_none_or(|s| *s == path[0].1), "{} variables: the first sample is {:?}", net.n(), path[0]);
            let js = jumps(net, &path).map_err(|e| format!("{} variables: {}", net.n(), e.chars().take(400).collect::<String>()))?;
            // all rates are within a factor of 20 of each other
            for v in 0..net.n() {
                ensure!(js.iter().any(|j| j.0 == v) || net.n() > 200, "{} variables: variable {} does not move in 3000 jumps", net.n(), v);
            }
            l.step(3000);
            l.trace();
            l.outcome(&js);
            sm.reset();
        }
        l.state(&c);
        Ok(())
    });
    // Initial state of many variables: which draw decides which variable.
    ctx.family("initial state, many variables", "3, 40, 65, 130, 257 binary variables: the draw of each identified by as many samplers as its position has bits, and their complements", 5 * 2, |c, l| {
        let n = [3, 40, 65, 130, 257][c / 2];
        let after = c % 2 == 1;
        let net = Net::distinct(&vec![2; n], &(0..n).map(|v| if v == 0 { Set::new() } else { [v - 1].into_iter().collect() }).collect::<Vec<_>>());
        let real = net.build();
        let bits = usize::BITS - n.leading_zeros();
        let mut owner = vec![0usize; n];
        for b in 0..bits {
            for flip in [false, true] {
                let script: Vec<u64> = (0..2 * n).map(|d| if (d >> b & 1 == 1) != flip { 5 << 61 } else { 1 << 61 }).collect();
                let (s, _) = scripted(&script, || {
                    rand_chacha::script::stop();
                    if !after {
                        rand_chacha::script::resume(0);
                    }
                    let mut sm = ForwardSampler::new(&real, Some(99), None);
                    if after {
                        take(&mut sm, 5);
                        rand_chacha::script::resume(0);
                        sm.reset();
                    }
                    let k = rand_chacha::script::stop();
                    let s = take(&mut sm, 1).remove(0).1;
                    rand_chacha::script::resume(k);
                    (s, k)
                });
                ensure!(s.1 >= n && s.1 <= 2 * n, "{} variables: {} draws for the initial state", n, s.1);
                for v in 0..n {
                    if !flip {
                        owner[v] |= (s.0[v] & 1) << b;
                    } else {
                        ensure!((s.0[v] == 1) != (owner[v] >> b & 1 == 1), "{} variables: variable {} does not follow its draw", n, v);
                    }
                }
                l.step(n as u64);
                l.trace();
            }
            l.state(&(c, b));
        }
        ensure!(owner.iter().collect::<std::collections::BTreeSet<_>>().len() == n, "{} variables: two variables follow the same draw: {:?}", n, owner);
        l.outcome(&owner);
        Ok(())
    });
    ctx.sample("chain 0->1, first two jumps from [0,0]: 15*14*8*13*12*8 generator outcomes; P(0 jumps first, then 1) compared with the closed form, with and without time weights".into());
}

// ------------------------------------------------------------------------------------------ C08

/// What the generator must return, from the path of a fresh sampler under the same outcomes.
fn reference_trajectories<N: NetworkProcess>(net: &N, n: u64, t_end: f64, seed: u64) -> Vec<Traj> {
    let mut sm = ForwardSampler::new(net, Some(seed), None);
    (0..n)
        .map(|_| {
            let mut tr = Traj { t: vec![], e: vec![] };
            loop {
                let x = sm.next().unwrap();
                if x.t >= t_end {
                    break;
                }
                tr.t.push(x.t);
                tr.e.push(unst(&x.state));
            }
            tr.t.push(t_end);
            tr.e.push(tr.e.last().unwrap().clone());
            sm.reset();
            tr
        })
        .collect()
}

/// The invariants of a generated trajectory.
fn well_formed(net: &Net, tr: &Traj, t_end: f64) -> Res {
    let n = tr.t.len();
    ensure!(n == tr.e.len() && n >= 2, "{} times, {} events", n, tr.e.len());
    ensure!(tr.t[0] == 0.0, "starts at {}", tr.t[0]);
    ensure!(tr.t[n - 1].to_bits() == t_end.to_bits(), "ends at {} instead of {}", tr.t[n - 1], t_end);
    ensure!(tr.e[n - 1] == tr.e[n - 2], "the last row {:?} does not repeat {:?}", tr.e[n - 1], tr.e[n - 2]);
    ensure!(tr.t[n - 2] < t_end, "a jump at {} for end time {}", tr.t[n - 2], t_end);
    ensure!(tr.e[0].len() == net.n() && (0..net.n()).all(|v| tr.e[0][v] < net.cards[v]), "starts in {:?}", tr.e[0]);
    let path: Vec<(f64, Vec<usize>)> = tr.t[..n - 1].iter().copied().zip(tr.e[..n - 1].iter().cloned()).collect();
    jumps(net, &path)?;
    Ok(())
}

fn check_trajectories<N: NetworkProcess>(net: &Net, real: &N, n: u64, t_end: f64, seed: u64, script: &[u64], l: &mut Loc) -> Res {
    let cap = DRAW_CAP.max(n as usize * 200);
    let (got, _) = scripted_to(cap, script, || undataset(&trajectory_generator(real, n, t_end, Some(seed))));
    let (want, _) = scripted_to(cap, script, || reference_trajectories(real, n, t_end, seed));
    ensure!(got.len() == n as usize, "{} trajectories instead of {}", got.len(), n);
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        well_formed(net, g, t_end).map_err(|e| format!("trajectory {}: {}", i, e))?;
        ensure!(
            bits(&g.t) == bits(&w.t) && g.e == w.e,
            "trajectory {} of {} (seed {}, end {}) is not the path of the sampler: {} rows against {}; first difference at row {:?}",
            i, n, seed, t_end, g.t.len(), w.t.len(),
            (0..g.t.len().min(w.t.len())).find(|k| g.t[*k].to_bits() != w.t[*k].to_bits() || g.e[*k] != w.e[*k])
        );
        l.step(g.t.len() as u64);
        l.state(&(&g.e, bits(&g.t)));
    }
    l.trace();
    l.outcome(&got.iter().map(|g| g.t.len()).collect::<Vec<_>>());
    Ok(())
}

/// The networks of C07, with zero rates, with very different scales, and some larger ones.
pub fn path_nets() -> Vec<Net> {
    let mut v: Vec<Net> = contrast_nets().into_iter().map(|x| x.1).collect();
    let more: Vec<Net> = v
        .iter()
        .map(|b| {
            Net::with(&b.cards, &b.parents, |v, c, x, y| {
                if b.cards[v] > 2 && (x + c + 1) % b.cards[v] == y {
                    0.0
                } else {
                    b.cims[v][[c, x, y]] * [1e-6, 50.0, 1.0][(v + c) % 3]
                }
            })
        })
        .collect();
    v.extend(more);
    v.push(Net::distinct(&[2, 3, 4, 2], &graph(4, 0b1010_0110_0101)));
    v.push(Net::distinct(&[5], &graph(1, 0)));
    v.push(Net::distinct(&[2, 2, 2, 3, 2], &graph(5, 0x8A2A4)));
    v
}

pub fn c08(ctx: &mut Ctx) {
    ctx.assume("the law of the sampler itself is decided by C07; here the generator is compared with it under equal outcomes");
    let nets = path_nets();
    let nets = &nets;
    let seeds = ctx.pick(24u64, 2000);
    let ends = [1e-300, 1e-9, 0.01, 0.37, 1.0, 5.0, 40.0];
    let cases = nets.len() * seeds as usize;
    ctx.family("seeds and end times", "29 networks, generator seeds 0..23 (1999), 7 end times from 1e-300 to 40, 0..4 trajectories", cases, |c, l| {
        let (net, seed) = (&nets[c % nets.len()], (c / nets.len()) as u64);
        let real = net.build();
        for (k, t_end) in ends.iter().enumerate() {
            for n in [(seed + k as u64) % 5, 3] {
                check_trajectories(net, &real, n, *t_end, seed, &[], l)?;
            }
        }
        Ok(())
    });
    ctx.family("end time on a jump", "as above, the end time being exactly, or one ulp around, each of the first 8 jump times of the first trajectory", cases, |c, l| {
        let (net, seed) = (&nets[c % nets.len()], (c / nets.len()) as u64);
        let real = net.build();
        let mut sm = ForwardSampler::new(&real, Some(seed), None);
        for (t, _) in take(&mut sm, 9).into_iter().skip(1) {
            if t > 0.0 && t < 1e4 {
                for t_end in [t, f64::from_bits(t.to_bits() - 1), f64::from_bits(t.to_bits() + 1)] {
                    check_trajectories(net, &real, 2, t_end, seed, &[], l)?;
                }
            }
        }
        Ok(())
    });
    // Initial state draws, residence times and targets at their extremes, at every position.
    let ext: Vec<u64> = vec![0, 1 << 40, 1 << 63, u64::MAX - (1 << 12), u64::MAX];
    let d = ctx.pick(5, 7);
    let small: Vec<usize> = (0..nets.len()).filter(|i| nets[*i].n() <= 3).collect();
    let offs = ctx.pick(4, 12);
    let small = &small;
    ctx.family("extreme outcomes", "26 networks; 5 (7) consecutive draws at 5 extreme values each, after 0..3 (11) ordinary draws; 2 trajectories to time 3", small.len() * offs, |c, l| {
        let net = &nets[small[c % small.len()]];
        let off = c / small.len();
        let real = net.build();
        let mut script = vec![];
        for k in 0..off {
            script.push(grid(16)[(k * 7 + 3) % 16]);
        }
        for e in 0..ext.len().pow(d) {
            script.truncate(off);
            script.extend(digits(e, &vec![ext.len(); d as usize]).iter().map(|x| ext[*x]));
            // all-rejected initial draws are left to the real generator
            check_trajectories(net, &real, 2, 3.0, 5, &script, l)?;
        }
        Ok(())
    });
    let wide = wide_nets();
    let wr = &wide;
    let wseeds = ctx.pick(4usize, 100);
    ctx.family("large networks", "10 networks of up to 300 variables, 300 states, 1024 configurations, seeds 0..3 (99), 3 end times, 3 trajectories", wr.len() * wseeds, |c, l| {
        let (net, seed) = (&wr[c % wr.len()], (c / wr.len()) as u64);
        let real = net.build();
        for t_end in [0.01, 1.0, 9.0] {
            check_trajectories(net, &real, 3, t_end, seed, &[], l).map_err(|e| e.chars().take(600).collect::<String>())?;
        }
        Ok(())
    });
    ctx.family("many rows", "2 variables to time 12000, 3 to 1500: tens of thousands of rows; 2000, 70000 and 140000 short trajectories", 5, |c, l| {
        let net = &nets[[1, 8, 4, 1, 0][c]];
        let (n, t_end) = [(1, 12_000.0), (2, 1_500.0), (2000, 0.5), (70_000, 0.1), (140_000, 0.01)][c];
        check_trajectories(net, &net.build(), n, t_end, 3, &[], l)
    });
    // The unit of time.
    let units = ctx.pick(vec![-900, -80, -30, 30, 80, 900], (-990..=990).step_by(30).filter(|e| *e != 0).collect::<Vec<i32>>());
    ctx.family("units of time", "the networks with all rates multiplied by the same power of two from 2^-900 to 2^900 (2^-990 to 2^990), the end times divided by it: 0 to 40 and on the third jump", nets.len() * units.len(), |c, l| {
        let (net, e) = (&nets[c % nets.len()], units[c / nets.len()]);
        let f = 2f64.powi(e);
        let scaled = Net { cards: net.cards.clone(), parents: net.parents.clone(), cims: net.cims.iter().map(|q| q.mapv(|x| x * f)).collect() };
        let real = scaled.build();
        for seed in 0..4 {
            let third = take(&mut ForwardSampler::new(&real, Some(seed), None), 4)[3].0;
            for t_end in [0.3 / f, 2.5 / f, 40.0 / f, third] {
                if t_end * f > 1e4 {
                    continue;
                }
                check_trajectories(&scaled, &real, 2, t_end, seed, &[], l)?;
            }
        }
        Ok(())
    });
    let many = ctx.pick(40u64, 4000);
    ctx.family("many trajectories", "50 trajectories each, seeds 0..39 (3999)", nets.len() * many as usize, |c, l| {
        let net = &nets[c % nets.len()];
        check_trajectories(net, &net.build(), 50, 1.5, (c / nets.len()) as u64, &[], l)
    });
    ctx.sample("3-cycle of binary variables, seed 5, end time = second jump time: rows (0, s0), (t1, s1), (t2, s1)".into());
}

// ------------------------------------------------------------------------------------------ C09

/// A network without edges and parameters for the generators.
fn bare(cards: &[usize]) -> reCTBN::process::ctbn::CtbnNetwork {
    Net { cards: cards.to_vec(), parents: vec![Set::new(); cards.len()], cims: vec![] }.build_structure()
}
fn graph_bits<N: NetworkProcess>(net: &N) -> Vec<u64> {
    net.get_node_indices().map(|v| net.get_parent_set(v).iter().map(|p| 1u64 << p).sum()).collect()
}
fn param_bits<N: NetworkProcess>(net: &N) -> Vec<u64> {
    net.get_node_indices()
        .flat_map(|v| bits(&inner(net.get_node(v)).get_cim().as_ref().map(|c| c.iter().copied().collect::<Vec<_>>()).unwrap_or_default()))
        .collect()
}
fn traj_bits(d: &Dataset) -> Vec<u64> {
    undataset(d)
        .iter()
        .flat_map(|t| {
            let mut b = bits(&t.t);
            b.extend(t.e.iter().flatten().map(|x| *x as u64));
            b
        })
        .collect()
}
fn sample_bits(p: &[(f64, Vec<usize>)]) -> Vec<u64> {
    p.iter().flat_map(|(t, s)| std::iter::once(t.to_bits()).chain(s.iter().map(|x| *x as u64))).collect()
}
/// A reward that separates paths.
pub fn reward(net: &Net) -> FactoredRewardFunction {
    let real = net.build_structure();
    let mut r = FactoredRewardFunction::initialize_from_network_process(&real);
    for v in 0..net.n() {
        for x in 0..net.cards[v] {
            r.get_instantaneous_reward_mut(v)[x] = super::structure::inst(v, x, 0);
            for y in 0..net.cards[v] {
                r.get_transition_reward_mut(v)[[x, y]] = super::structure::tran(v, x, y, 0);
            }
        }
        relayout(&mut r, v);
    }
    r
}

const KINDS: usize = 7;
const KIND_NAMES: [&str; KINDS] = [
    "sampler", "sampler with initial state", "trajectories", "graphs", "parameters", "reward of a state", "reward of the state space",
];
/// Everything one seed yields, by one kind of seeded computation.
fn fingerprint(kind: usize, net: &Net, seed: u64) -> Vec<u64> {
    let real = net.build();
    match kind {
        0 | 1 => {
            let init = (kind == 1).then(|| st(&vec![0; net.n()]));
            let mut sm = ForwardSampler::new(&real, Some(seed), init);
            let mut p = take(&mut sm, 6);
            sm.reset();
            p.extend(take(&mut sm, 6));
            sample_bits(&p)
        }
        2 => traj_bits(&trajectory_generator(&real, 2, 3.0, Some(seed))),
        3 => {
            let mut g = UniformGraphGenerator::new(0.5, Some(seed));
            let mut n = bare(&[2; 9]);
            g.generate_graph(&mut n);
            let mut b = graph_bits(&n);
            g.generate_graph(&mut n);
            b.extend(graph_bits(&n));
            b
        }
        4 => {
            let mut g = UniformParametersGenerator::new(0.5..4.0, Some(seed));
            let mut n = net.build_structure();
            g.generate_parameters(&mut n);
            let mut b = param_bits(&n);
            g.generate_parameters(&mut n);
            b.extend(param_bits(&n));
            b
        }
        _ => {
            let crit = if seed % 2 == 0 { RewardCriteria::FiniteHorizon } else { RewardCriteria::InfiniteHorizon { discount_factor: 0.7 } };
            let mc = MonteCarloReward::new(9, 1e-3, 1e-3, 2.0, crit, Some(seed));
            let rf = reward(net);
            if kind == 5 {
                vec![mc.evaluate_state(&real, &rf, &st(&vec![0; net.n()])).to_bits()]
            } else {
                let mut v: Vec<(Vec<usize>, u64)> = mc.evaluate_state_space(&real, &rf).iter().map(|(k, x)| (unst(k), x.to_bits())).collect();
                v.sort();
                v.into_iter().map(|x| x.1).collect()
            }
        }
    }
}

/// A reward of the user which panics at its `at`-th call.
struct Fails {
    at: u64,
    calls: std::sync::atomic::AtomicU64,
}
impl RewardFunction for Fails {
    fn call(&self, _: &reCTBN::process::NetworkProcessState, _: Option<&reCTBN::process::NetworkProcessState>) -> reCTBN::reward::Reward {
        if self.calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1 >= self.at {
            panic!("a failure of the user's code");
        }
        reCTBN::reward::Reward { transition_reward: 1.0, instantaneous_reward: 2.0 }
    }
    fn initialize_from_network_process<T: NetworkProcess>(_: &T) -> Self {
        Fails { at: 1, calls: Default::default() }
    }
}
const FAILURES: usize = 10;
/// A computation which fails (or not: nothing is claimed about it).
fn fail(kind: usize, net: &Net, seed: u64) {
    let (real, unset) = (net.build(), net.build_structure());
    let mc = || MonteCarloReward::new(9, 1e-3, 1e-3, 2.0, RewardCriteria::FiniteHorizon, Some(seed));
    let s0 = st(&vec![0; net.n()]);
    let fails = |at| Fails { at, calls: Default::default() };
    match kind {
        0 => drop(take(&mut ForwardSampler::new(&unset, Some(seed), None), 3)),
        1 => drop(trajectory_generator(&unset, 2, 3.0, Some(seed))),
        2 => drop(mc().evaluate_state(&unset, &reward(net), &s0)),
        3 => drop(mc().evaluate_state_space(&unset, &reward(net))),
        4 => drop(mc().evaluate_state(&real, &fails(1), &s0)),
        5 => drop(mc().evaluate_state(&real, &fails(9), &s0)),
        6 => drop(mc().evaluate_state_space(&real, &fails(4))),
        7 => drop(UniformGraphGenerator::new(1.5, Some(seed))),
        8 => drop(UniformParametersGenerator::new(-3.0..-2.0, Some(seed))),
        // a state which the variables do not have
        _ => drop(take(&mut ForwardSampler::new(&real, Some(seed), Some(st(&vec![9; net.n()]))), 3)),
    }
}

/// Operations on several live instances.
#[derive(Clone, Copy, Debug)]
enum Use {
    Next(usize),
    Reset(usize),
    Graph,
    Params,
    Trajectories,
    Reward,
    Entropy,
    NewSampler,
}
const USES: [Use; 11] = [
    Use::Next(0), Use::Reset(0), Use::Next(1), Use::Reset(1), Use::Next(2), Use::Graph, Use::Params, Use::Trajectories, Use::Reward, Use::Entropy, Use::NewSampler,
];

pub fn c09(ctx: &mut Ctx) {
    ctx.assume("different results for different seeds are required of the enumerated pairs of seeds, with results of at least 60 random bits");
    let nets: Vec<Net> = contrast_nets().into_iter().map(|x| x.1).collect();
    let nets = &nets;
    // Seeds: small ones, every single bit, every bit flipped in two base seeds.
    let mut seeds: Vec<u64> = (0..ctx.pick(64, 512)).collect();
    for b in 0..64 {
        seeds.push(1 << b);
        seeds.push(0x5DEE_CE66_D0B5_A1F3 ^ (1 << b));
        seeds.push(!0 ^ (1 << b));
    }
    seeds.push(u64::MAX);
    seeds.push(0x5DEE_CE66_D0B5_A1F3);
    seeds.sort();
    seeds.dedup();
    let seeds = &seeds;
    ctx.family("repeatable, on any thread", "7 kinds of seeded computation, 13 networks, 256 (704) seeds: twice here, on a fresh thread, and inside thread pools of 1 and 3 threads", KINDS * nets.len(), |c, l| {
        let (kind, i) = (c % KINDS, c / KINDS);
        let net = &nets[i];
        let pool1 = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
        let pool3 = rayon::ThreadPoolBuilder::new().num_threads(3).build().unwrap();
        let a: Vec<Vec<u64>> = seeds.iter().map(|s| fingerprint(kind, net, *s)).collect();
        let b: Vec<Vec<u64>> = seeds.iter().rev().map(|s| fingerprint(kind, net, *s)).collect();
        let t: Vec<Vec<u64>> = std::thread::scope(|sc| sc.spawn(|| seeds.iter().map(|s| fingerprint(kind, net, *s)).collect()).join().unwrap());
        let p1: Vec<Vec<u64>> = pool1.install(|| seeds.iter().map(|s| fingerprint(kind, net, *s)).collect());
        let p3: Vec<Vec<u64>> = pool3.install(|| seeds.iter().map(|s| fingerprint(kind, net, *s)).collect());
        let mut seen: BTreeMap<&Vec<u64>, u64> = BTreeMap::new();
        for (k, s) in seeds.iter().enumerate() {
            for (what, o) in [("a second run", &b[seeds.len() - 1 - k]), ("another thread", &t[k]), ("a pool of one thread", &p1[k]), ("a pool of three threads", &p3[k])] {
                ensure!(a[k] == *o, "{} on {} with seed {}: {} gives another result", KIND_NAMES[kind], net.describe(), s, what);
            }
            if let Some(o) = seen.insert(&a[k], *s) {
                return Err(format!("{} on {}: seeds {} and {} give the same result", KIND_NAMES[kind], net.describe(), o, s));
            }
            l.step(5);
            l.traces += 5;
            l.state(&(c, k));
            l.outcome(&a[k]);
        }
        Ok(())
    });

    // Interleaved use: whatever is done elsewhere, each instance yields its own stream.
    let net = Net::distinct(&[2, 3], &[set(&[1]), set(&[0])]);
    let other = Net::distinct(&[2, 2, 2], &graph(3, 0b101001));
    let depth = ctx.pick(5u32, 6);
    let n = USES.len().pow(depth);
    // The streams of the instances alone: number of nexts since creation and resets decide.
    let (net, other) = (&net, &other);
    ctx.family("interleaved instances", "all sequences of 5 (6) operations over: next and reset of two samplers with equal seeds, next of a third one with another network, graph, parameter and trajectory generation, reward evaluation, unseeded generators, creation of further samplers", n, |c, l| {
        let ops: Vec<Use> = digits(c, &vec![USES.len(); depth as usize]).iter().map(|i| USES[*i]).collect();
        let (ra, rb) = (net.build(), other.build());
        let mut sm = [
            ForwardSampler::new(&ra, Some(42), None),
            ForwardSampler::new(&ra, Some(42), Some(st(&[1, 2]))),
        ];
        let mut third = ForwardSampler::new(&rb, Some(42), None);
        let mut graphs = UniformGraphGenerator::new(0.5, Some(42));
        let mut params = UniformParametersGenerator::new(0.1..2.0, Some(42));
        let mut target = other.build_structure();
        let mut out: Vec<Vec<u64>> = vec![vec![]; 7];
        let mut log: [Vec<bool>; 3] = [vec![], vec![], vec![]]; // true: next, false: reset
        let (mut ng, mut np) = (0, 0);
        let push = |s: &reCTBN::sampling::Sample, o: &mut Vec<u64>| {
            o.push(s.t.to_bits());
            o.extend(unst(&s.state).iter().map(|x| *x as u64));
        };
        for op in &ops {
            match op {
                Use::Next(2) => {
                    push(&third.next().unwrap(), &mut out[2]);
                    log[2].push(true);
                }
                Use::Next(k) => {
                    push(&sm[*k].next().unwrap(), &mut out[*k]);
                    log[*k].push(true);
                }
                Use::Reset(k) => {
                    sm[*k].reset();
                    log[*k].push(false);
                }
                Use::Graph => {
                    graphs.generate_graph(&mut target);
                    out[3].extend(graph_bits(&target));
                    ng += 1;
                }
                Use::Params => {
                    // the shape of the parameters depends on the graph: use a fixed one
                    let mut t = other.build_structure();
                    params.generate_parameters(&mut t);
                    out[4].extend(param_bits(&t));
                    np += 1;
                }
                Use::Trajectories => {
                    let d = traj_bits(&trajectory_generator(&ra, 1, 1.0, Some(42)));
                    ensure!(out[5].is_empty() || out[5] == d, "{:?}: trajectory generation is not repeatable", ops);
                    out[5] = d;
                }
                Use::Reward => {
                    let d = fingerprint(5, net, 42);
                    ensure!(out[6].is_empty() || out[6] == d, "{:?}: reward evaluation is not repeatable", ops);
                    out[6] = d;
                }
                Use::Entropy => {
                    let mut s = ForwardSampler::new(&ra, None, None);
                    s.next();
                    UniformGraphGenerator::new(0.5, None).generate_graph(&mut other.build_structure());
                    trajectory_generator(&rb, 1, 0.5, None);
                }
                Use::NewSampler => {
                    let mut s = ForwardSampler::new(&ra, Some(42), None);
                    s.next();
                    s.reset();
                    s.next();
                }
            }
            l.step(1);
        }
        // alone
        for k in 0..3 {
            let mut alone = vec![];
            if k == 2 {
                let mut s = ForwardSampler::new(&rb, Some(42), None);
                log[k].iter().for_each(|_| push(&s.next().unwrap(), &mut alone));
            } else {
                let mut s = ForwardSampler::new(&ra, Some(42), (k == 1).then(|| st(&[1, 2])));
                for x in &log[k] {
                    if *x { push(&s.next().unwrap(), &mut alone) } else { s.reset() }
                }
            }
            ensure!(alone == out[k], "sampler {} depends on what is done elsewhere: {:?}", k, ops);
        }
        let mut g = UniformGraphGenerator::new(0.5, Some(42));
        let mut alone = vec![];
        for _ in 0..ng {
            g.generate_graph(&mut target);
            alone.extend(graph_bits(&target));
        }
        ensure!(alone == out[3], "the graph generator depends on what is done elsewhere: {:?}", ops);
        let mut g = UniformParametersGenerator::new(0.1..2.0, Some(42));
        let mut alone = vec![];
        for _ in 0..np {
            let mut t = other.build_structure();
            g.generate_parameters(&mut t);
            alone.extend(param_bits(&t));
        }
        ensure!(alone == out[4], "the parameter generator depends on what is done elsewhere: {:?}", ops);
        if !out[5].is_empty() {
            ensure!(out[5] == traj_bits(&trajectory_generator(&ra, 1, 1.0, Some(42))), "trajectory generation depends on what is done elsewhere: {:?}", ops);
        }
        if !out[6].is_empty() {
            ensure!(out[6] == fingerprint(5, net, 42), "reward evaluation depends on what is done elsewhere: {:?}", ops);
        }
        l.trace();
        l.state(&out);
        l.outcome(&out[0]);
        Ok(())
    });
    // What fails leaves nothing behind.
    ctx.family("after a failure", "each kind of computation, 13 networks, after one that fails on the same thread: sampling, trajectories and rewards without parameters, a reward of the user which panics at its 1st to 9th call, generators that are refused", KINDS * nets.len() * FAILURES, |c, l| {
        let d = digits(c, &[KINDS, nets.len(), FAILURES]);
        let net = &nets[d[1]];
        for seed in [3u64, 1 << 40] {
            let want = fingerprint(d[0], net, seed);
            for _ in 0..2 {
                let _ = guard(|| fail(d[2], net, seed));
                let got = guard(|| fingerprint(d[0], net, seed)).map_err(|e| format!("{} after failure {}: {}", KIND_NAMES[d[0]], d[2], e))?;
                ensure!(got == want, "{} on {}, seed {}: other results after failure {}", KIND_NAMES[d[0]], net.describe(), seed, d[2]);
                l.step(2);
            }
            l.outcome(&want);
        }
        l.trace();
        l.state(&c);
        Ok(())
    });
    ctx.sample("A.next, B.next, A.reset, reward evaluation, A.next: A's stream equals next, reset, next alone".into());
}

// ------------------------------------------------------------------------------------------ C25

pub fn c25(ctx: &mut Ctx) {
    ctx.assume("as for C07: deviations of the law below 0.03 to 0.05 are not seen");
    let nets: Vec<(&str, Net)> = contrast_nets();
    // the amalgamated process, as a reference network of one variable
    let joints: Vec<Net> = nets
        .iter()
        .map(|(_, n)| {
            let g = n.generator();
            let k = n.nstates();
            Net { cards: vec![k], parents: vec![Set::new()], cims: vec![g.into_shape((1, k, k)).unwrap()] }
        })
        .collect();
    let (nets, joints) = (&nets, &joints);
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let mut cases = vec![];
    for (i, j) in joints.iter().enumerate() {
        for s in 0..j.cards[0] {
            cases.push((i, s, 1, ctx.pick(vec![200, 400], vec![1000, 1000]), 0.012));
            cases.push((i, s, 2, ctx.pick(vec![24, 40, 23, 40], vec![48, 80, 47, 80]), 0.035));
        }
    }
    ctx.family("law of the first jumps", "amalgamated process of 13 networks of 1..3 variables, from every joint state, first 1 and 2 jumps: complete tree of the draws on a grid against the law of the network", cases.len(), |ci, l| {
        let (i, s, k, g, tol) = &cases[ci];
        let (name, net) = &nets[*i];
        let joint = &joints[*i];
        let real = net.ctmp();
        let mut law = Law::new(*k);
        let mut n = 0u64;
        let run = || {
            let mut sm = ForwardSampler::new(&real, Some(11), Some(st(&[*s])));
            take(&mut sm, *k + 1)
        };
        let (alphabet, states, tol) = adapt(grids(g), 0, *k, *tol, run);
        tree_moved(&alphabet, &states, run, |path, p, _| {
            ensure!(path[0].0 == 0.0 && path[0].1 == [*s], "{}: the first sample is {:?}", name, path[0]);
            let js = jumps(joint, &path).map_err(|e| format!("{}: {}", name, e))?;
            law.add(&path, js, p);
            n += 1;
            if n % 1024 == 0 {
                l.step(0);
            }
            Ok(())
        })?;
        l.step(n * (*k as u64 + 1));
        l.traces += n;
        for p in law.acc.keys() {
            l.outcome(&(i, p));
            l.state(&(i, s, k, p));
        }
        let (d, why) = law.deviation(joint, &[(vec![*s], 1.0)]);
        if verbose {
            eprintln!("{:30} {:?} jumps {} mass {:.6} deviation {:.4} (tol {})", name, s, k, law.mass, d, tol);
        }
        ensure!(d <= tol, "amalgamation of {} ({}): {}", name, net.describe(), why);
        Ok(())
    });

    // Initial states without a requested one: uniform over the joint states.
    ctx.family("initial state", "uniform over the joint states, by the constructor and after a reset", joints.len() * 2, |c, l| {
        let (i, again) = (c / 2, c % 2 == 1);
        let k = joints[i].cards[0];
        let real = nets[i].1.ctmp();
        let mut got = vec![0.0; k];
        let mut alphabet = vec![grid(16); 5];
        alphabet[0] = grid(16 * k);
        tree(&alphabet, || {
            rand_chacha::script::stop();
            if !again {
                rand_chacha::script::start(DRAW_CAP);
            }
            let mut sm = ForwardSampler::new(&real, Some(7), None);
            if again {
                take(&mut sm, 3);
                rand_chacha::script::start(DRAW_CAP);
                sm.reset();
            }
            let n = rand_chacha::script::stop();
            let s = take(&mut sm, 1).pop().unwrap();
            rand_chacha::script::resume(n);
            s
        }, |s, p, _| {
            ensure!(s.0 == 0.0 && s.1.len() == 1 && s.1[0] < k, "starts with {:?}", s);
            got[s.1[0]] += p;
            l.step(1);
            l.traces += 1;
            l.state(&(i, s.1[0]));
            l.outcome(&(i, s.1[0]));
            Ok(())
        })?;
        let w = 1.0 / k as f64;
        for s in 0..k {
            ensure!((got[s] - w).abs() <= 0.3 * w, "joint state {} is initial with probability {:.3}, expected {:.3}", s, got[s], w);
        }
        Ok(())
    });

    let seeds = ctx.pick(40u64, 1500);
    let more: Vec<Net> = path_nets();
    let more = &more;
    ctx.family("trajectories", "amalgamated process of 29 networks of 1..5 variables with zero rates and contrasting scales, seeds 0..39 (1499): long paths from every kind of start, trajectory generation", more.len() * seeds as usize, |c, l| {
        let (net, seed) = (&more[c % more.len()], (c / more.len()) as u64);
        let k = net.nstates();
        let joint = Net { cards: vec![k], parents: vec![Set::new()], cims: vec![net.generator().into_shape((1, k, k)).unwrap()] };
        let real = net.ctmp();
        let start = (seed as usize * 7 + 1) % k;
        let mut sm = ForwardSampler::new(&real, Some(seed), Some(st(&[start])));
        let p = take(&mut sm, 100);
        ensure!(p[0].1 == [start], "starts in {:?} instead of {}", p[0].1, start);
        jumps(&joint, &p)?;
        l.step(100);
        for t_end in [0.01, 0.7, 6.0] {
            check_trajectories(&joint, &real, 3, t_end, seed, &[], l)?;
        }
        Ok(())
    });

    let forced: Vec<Forced> = forced_nets(!ctx.quick()).into_iter().filter(|f| f.net.cards.iter().try_fold(1usize, |a, c| a.checked_mul(*c).filter(|x| *x <= 2100)).is_some()).collect();
    let fr = &forced;
    let fseeds = ctx.pick(2usize, 12);
    ctx.family("forced paths", "amalgamated process of the networks of C07 with forced paths and up to 1024 (2048) joint states: the path of joint states is taken in order and in time, twice", fr.len(), |c, l| {
        let f = &fr[c];
        let real = f.net.ctmp();
        let code = |s: &[usize]| encode(&f.net.cards, s);
        for seed in 0..fseeds as u64 {
            let mut sm = ForwardSampler::new(&real, Some(seed), Some(st(&[code(&f.start)])));
            for round in 0..2 {
                let path = take(&mut sm, f.path.len() + 1);
                let mut s = f.start.clone();
                ensure!(path[0].0 == 0.0 && path[0].1 == [code(&s)], "{} round {}: the first sample is {:?}", f.name, round, path[0]);
                for (i, (v, y)) in f.path.iter().enumerate() {
                    s[*v] = *y;
                    let dt = path[i + 1].0 - path[i].0;
                    ensure!(path[i + 1].1 == [code(&s)], "{} round {}: jump {} leads to {:?} instead of {} ({:?})", f.name, round, i, path[i + 1].1, code(&s), s);
                    ensure!((0.0..100.0 / FAST).contains(&dt), "{} round {}: jump {} after a time of {} at rate {}", f.name, round, i, dt, FAST);
                    l.state(&(c, i));
                }
                l.step(f.path.len() as u64);
                l.trace();
                sm.reset();
            }
        }
        l.outcome(&c);
        Ok(())
    });
    let wide: Vec<Net> = wide_nets().into_iter().filter(|n| n.cards.iter().try_fold(1usize, |a, c| a.checked_mul(*c).filter(|x| *x <= 3000)).is_some()).collect();
    let wr = &wide;
    ctx.family("trajectories, many states", "amalgamated process of 5 networks with 300 to 2187 joint states: paths of 1500 jumps, trajectory generation", wr.len() * ctx.pick(1, 12), |c, l| {
        let (net, seed) = (&wr[c % wr.len()], (c / wr.len()) as u64);
        let k = net.nstates();
        let joint = Net { cards: vec![k], parents: vec![Set::new()], cims: vec![net.generator().into_shape((1, k, k)).unwrap()] };
        let real = net.ctmp();
        let start = k - 1 - seed as usize;
        let mut sm = ForwardSampler::new(&real, Some(seed), Some(st(&[start])));
        let p = take(&mut sm, 1500);
        ensure!(p[0].1 == [start], "starts in {:?} instead of {}", p[0].1, start);
        jumps(&joint, &p)?;
        l.step(1500);
        for t_end in [0.01, 3.0] {
            check_trajectories(&joint, &real, 3, t_end, seed, &[], l)?;
        }
        Ok(())
    });

    ctx.family("rewards", "reward of every joint state, one by one and as a whole, on the amalgamated process of 13 networks: equal to the integral over the sampled paths", nets.len() * ctx.pick(6, 200), |c, l| {
        let (i, seed) = (c % nets.len(), (c / nets.len()) as u64);
        let (real, joint) = (nets[i].1.ctmp(), &joints[i]);
        super::reward::check_monte_carlo(joint, &real, seed, 1 + (seed as usize % 6), 1.5, if seed % 2 == 0 { None } else { Some(0.8) }, 1e-6, 1e-6, l)
    });
    ctx.sample("chain 0->1 amalgamated to 4 joint states: first two jumps from each of them".into());
}
