//! C21 Monte Carlo evaluation, C22 evaluation of the state space.

use super::sampling::{contrast_nets, path_nets, wide_nets};
use super::structure::{inst, tran};
use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::rng::*;
use crate::sched::schedules;
use rayon_core::control;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::{NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::{MonteCarloReward, NeighborhoodRelativeReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{Reward, RewardEvaluation, RewardFunction};
use reCTBN::sampling::{ForwardSampler, Sampler};
use statrs::distribution::{ContinuousCDF, Normal};
use std::collections::HashMap;

/// The two reward functions used: tables by variable, and an arbitrary function of the states.
#[derive(Clone, Copy)]
enum Kind {
    Factored(u64),
    Joint,
}

fn instantaneous(k: Kind, s: &[usize]) -> f64 {
    match k {
        Kind::Factored(k) => s.iter().enumerate().map(|(v, x)| inst(v, *x, k)).sum(),
        Kind::Joint => s.iter().enumerate().map(|(v, x)| (v + 2) as f64 * *x as f64).product::<f64>() - 0.75 + s.iter().sum::<usize>() as f64,
    }
}
fn transition(k: Kind, a: &[usize], b: &[usize]) -> f64 {
    match k {
        Kind::Factored(k) => {
            let v = (0..a.len()).find(|v| a[*v] != b[*v]).unwrap();
            tran(v, a[v], b[v], k)
        }
        Kind::Joint => {
            let code = |s: &[usize]| s.iter().fold(0, |acc, x| acc * 5 + x) as f64;
            1.0 + code(a) - 0.37 * code(b)
        }
    }
}

struct JointReward;
impl RewardFunction for JointReward {
    fn call(&self, current: &NetworkProcessState, previous: Option<&NetworkProcessState>) -> Reward {
        let c = unst(current);
        Reward {
            transition_reward: match previous.map(unst) {
                Some(p) if p != c => transition(Kind::Joint, &p, &c),
                _ => 0.0,
            },
            instantaneous_reward: instantaneous(Kind::Joint, &c),
        }
    }
    fn initialize_from_network_process<T: NetworkProcess>(_: &T) -> Self {
        JointReward
    }
}

fn factored<N: NetworkProcess>(net: &Net, real: &N, k: u64) -> FactoredRewardFunction {
    let mut r = FactoredRewardFunction::initialize_from_network_process(real);
    for v in 0..net.n() {
        for x in 0..net.cards[v] {
            r.get_instantaneous_reward_mut(v)[x] = inst(v, x, k);
            for y in 0..net.cards[v] {
                r.get_transition_reward_mut(v)[[x, y]] = tran(v, x, y, k);
            }
        }
        relayout(&mut r, v);
    }
    r
}

#[derive(Clone, Copy, Debug)]
struct Config {
    seed: u64,
    max_iter: usize,
    end: f64,
    discount: Option<f64>,
    max_err: f64,
    alpha: f64,
}
impl Config {
    fn build(&self) -> MonteCarloReward {
        MonteCarloReward::new(
            self.max_iter,
            self.max_err,
            self.alpha,
            self.end,
            match self.discount {
                None => RewardCriteria::FiniteHorizon,
                Some(d) => RewardCriteria::InfiniteHorizon { discount_factor: d },
            },
            Some(self.seed),
        )
    }
}

/// Whether the confidence test stops after these returns; `None` if rounding decides. Each return
/// is a sum of terms of at most the given total size.
fn stops(rets: &[f64], size: f64, terms: usize, cfg: Config) -> Option<bool> {
    let normal = Normal::new(0.0, 1.0).unwrap();
    let n = rets.len() as f64;
    // shifted by the first return, so that equal returns have no variance
    let mean = rets.iter().map(|r| r - rets[0]).sum::<f64>() / n;
    let sd = (rets.iter().map(|r| (r - rets[0] - mean).powi(2)).sum::<f64>() / (n - 1.0)).sqrt();
    let noise = size * 1e-15 * (20.0 + n + terms as f64);
    let p = |sd: f64| 2.0 * normal.cdf(-n.sqrt() * cfg.max_err / sd);
    let (low, high) = (p((sd - noise).max(0.0)) - 1e-9, p(sd + noise) + 1e-9);
    if cfg.alpha > high {
        Some(true)
    } else if cfg.alpha < low {
        Some(false)
    } else {
        None
    }
}

/// The returns of the first trajectories, until `done`; the size of their terms and the number of
/// them in a trajectory.
fn returns_until<N: NetworkProcess>(real: &N, instantaneous: &dyn Fn(&[usize]) -> f64, transition: &dyn Fn(&[usize], &[usize]) -> f64, cfg: Config, s: &[usize], mut done: impl FnMut(&[f64], f64, usize) -> bool) -> (Vec<f64>, f64, usize) {
    let mut sm = ForwardSampler::new(real, Some(cfg.seed), Some(st(s)));
    let mut rets: Vec<f64> = vec![];
    let (mut size, mut terms) = (0.0f64, 0);
    for _ in 0..cfg.max_iter {
        sm.reset();
        let mut path: Vec<(f64, Vec<usize>)> = vec![];
        loop {
            let x = sm.next().unwrap();
            let t = x.t;
            path.push((t, unst(&x.state)));
            if t >= cfg.end {
                break;
            }
        }
        let mut ret = 0.0;
        let mut here = 0.0;
        for w in path.windows(2) {
            let (a, b) = (w[0].0, w[1].0.min(cfg.end));
            let i = instantaneous(&w[0].1);
            let x = i * match cfg.discount {
                None => b - a,
                Some(d) => (-d * a).exp() * -(-d * (b - a)).exp_m1() / d,
            };
            ret += x;
            // the factor is a difference
            here += x.abs() + i.abs() * cfg.discount.map_or(b, |d| (-d * a).exp() / d);
            if w[1].0 <= cfg.end {
                let x = transition(&w[0].1, &w[1].1) * cfg.discount.map_or(1.0, |d| (-d * w[1].0).exp());
                ret += x;
                here += x.abs();
            }
        }
        size = size.max(here);
        terms = terms.max(path.len());
        rets.push(ret);
        if done(&rets, size, terms) {
            break;
        }
    }
    (rets, size, terms)
}
fn returns_of<N: NetworkProcess>(real: &N, instantaneous: &dyn Fn(&[usize]) -> f64, transition: &dyn Fn(&[usize], &[usize]) -> f64, cfg: Config, s: &[usize]) -> (Vec<f64>, f64, usize) {
    returns_until(real, instantaneous, transition, cfg, s, |_, _, _| false)
}

/// The acceptable values of a state (more than one only if the stopping test is too close to call)
/// and the number of trajectories of the last one.
fn reference_of<N: NetworkProcess>(real: &N, instantaneous: &dyn Fn(&[usize]) -> f64, transition: &dyn Fn(&[usize], &[usize]) -> f64, cfg: Config, s: &[usize]) -> (Vec<f64>, usize) {
    let mut acceptable = vec![];
    let mut stopped = false;
    let rets = returns_until(real, instantaneous, transition, cfg, s, |rets, size, terms| {
        if rets.len() > 3 {
            let mean = rets.iter().sum::<f64>() / rets.len() as f64;
            match stops(rets, size, terms, cfg) {
                Some(true) => {
                    acceptable.push(mean);
                    stopped = true;
                }
                None => acceptable.push(mean),
                Some(false) => {}
            }
        }
        stopped
    })
    .0;
    if !stopped {
        acceptable.push(if rets.is_empty() { 0.0 } else { rets.iter().sum::<f64>() / rets.len() as f64 });
    }
    (acceptable, rets.len())
}
fn reference<N: NetworkProcess>(real: &N, k: Kind, cfg: Config, s: &[usize]) -> (Vec<f64>, usize) {
    reference_of(real, &|s| instantaneous(k, s), &|a, b| transition(k, a, b), cfg, s)
}

fn check_state<N: NetworkProcess>(net: &Net, real: &N, k: Kind, cfg: Config, s: &[usize], got: f64, l: &mut Loc) -> Res {
    let (acceptable, n) = reference(real, k, cfg, s);
    l.step(n as u64);
    l.trace();
    l.outcome(&(n, got.to_bits()));
    let big = net.cards.iter().enumerate().map(|(v, c)| (0..*c).map(|x| inst(v, x, 0).abs() + 100.0).fold(0.0, f64::max)).sum::<f64>();
    ensure!(
        acceptable.iter().any(|w| (got - w).abs() <= 1e-9 * w.abs() + 1e-11 * big),
        "value of {:?} on {} with {:?}: {} instead of {:?} (mean of {} trajectories)",
        s, net.describe(), cfg, got, acceptable, n
    );
    Ok(())
}

/// Every joint state, one by one and as a whole (used by C25 too).
#[allow(clippy::too_many_arguments)]
pub fn check_monte_carlo<N: NetworkProcess>(net: &Net, real: &N, seed: u64, max_iter: usize, end: f64, discount: Option<f64>, max_err: f64, alpha: f64, l: &mut Loc) -> Res {
    let cfg = Config { seed, max_iter, end, discount, max_err, alpha };
    let rf = factored(net, real, 0);
    let mc = cfg.build();
    let all = mc.evaluate_state_space(real, &rf);
    ensure!(all.len() == net.nstates(), "{} values for {} joint states", all.len(), net.nstates());
    for s in 0..net.nstates() {
        let s = decode(&net.cards, s);
        let one = mc.evaluate_state(real, &rf, &st(&s));
        check_state(net, real, Kind::Factored(0), cfg, &s, one, l)?;
        ensure!(all.get(&st(&s)).map(|x| x.to_bits()) == Some(one.to_bits()), "state {:?}: {:?} in the state space, {} alone", s, all.get(&st(&s)), one);
        l.state(&(&net.cards, &net.parents, &s));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C21

pub fn c21(ctx: &mut Ctx) {
    ctx.assume("the paths are those of the real sampler under the same generator outcomes (their law is decided by C07); stopping tests within 1e-9 of the threshold accept both outcomes; the normal distribution function is that of statrs");
    let nets = path_nets();
    let nets = &nets;
    let seeds = ctx.pick(30usize, 3000);
    let criteria = [None, Some(0.05), Some(1.0), Some(7.0)];
    let ends = [1e-3, 0.4, 2.0, 11.0];
    ctx.family("criteria, end times, numbers of trajectories", "29 networks of 1..5 variables, seeds 0..29 (2999), every initial state (up to 24), finite horizon and 3 discount factors, 4 end times, at most 1..6, 25 trajectories without early stop, 3 reward functions", nets.len() * seeds, |c, l| {
        let (net, seed) = (&nets[c % nets.len()], (c / nets.len()) as u64);
        let real = net.build();
        let tables = [factored(net, &real, 0), factored(net, &real, 1)];
        for s in 0..net.nstates().min(24) {
            let s = decode(&net.cards, s);
            l.state(&(c % nets.len(), &s));
            for (a, discount) in criteria.iter().enumerate() {
                for (b, end) in ends.iter().enumerate() {
                    let which = (a + b + seed as usize) % 3;
                    let cfg = Config { seed, max_iter: [1, 2, 3, 4, 5, 6, 25][(a * 4 + b + seed as usize) % 7], end: *end, discount: *discount, max_err: 1e-12, alpha: 1e-12 };
                    let mc = cfg.build();
                    let (got, k) = if which == 2 { (mc.evaluate_state(&real, &JointReward, &st(&s)), Kind::Joint) } else { (mc.evaluate_state(&real, &tables[which], &st(&s)), Kind::Factored(which as u64)) };
                    check_state(net, &real, k, cfg, &s, got, l)?;
                }
            }
        }
        Ok(())
    });
    let nets1 = contrast_nets();
    let nets1 = &nets1;
    let stops: Vec<(f64, f64)> = [1e-3, 0.1, 1.0, 5.0, 20.0, 100.0, 1e6].iter().flat_map(|e| [1e-6, 0.05, 0.3, 0.9, 1.0].iter().map(move |a| (*e, *a))).collect();
    let stops = &stops;
    ctx.family("early stopping", "13 networks, seeds 0..14 (999), 35 pairs of error and significance, at most 3, 4, 5, 40 (200) trajectories", nets1.len() * ctx.pick(15, 1000), |c, l| {
        let (net, seed) = (&nets1[c % nets1.len()].1, (c / nets1.len()) as u64);
        let real = net.build();
        let rf = factored(net, &real, 0);
        let s = decode(&net.cards, seed as usize % net.nstates());
        for (i, (e, a)) in stops.iter().enumerate() {
            for m in [3, 4, 5, 40, if seed % 50 == 7 { 200 } else { 0 }] {
                let cfg = Config { seed, max_iter: m, end: [0.5, 3.0][i % 2], discount: [None, Some(0.6)][(i / 2) % 2], max_err: *e, alpha: *a };
                let got = cfg.build().evaluate_state(&real, &rf, &st(&s));
                check_state(net, &real, Kind::Factored(0), cfg, &s, got, l)?;
            }
        }
        Ok(())
    });
    let wide = wide_nets();
    let wr = &wide;
    ctx.family("large networks, many trajectories", "10 networks of up to 300 variables, 300 states, 1024 configurations; 3 to 50 trajectories, with and without early stop; 3 small networks with 1000 and 5000 trajectories, end times up to 2000, discount factors 1e-3 to 50", (wr.len() + 3) * ctx.pick(8, 160), |c, l| {
        let (i, r) = (c % (wr.len() + 3), c / (wr.len() + 3));
        let net = if i < wr.len() { &wr[i] } else { &nets1[[0, 4, 7][i - wr.len()]].1 };
        let real = net.build();
        let s: Vec<usize> = (0..net.n()).map(|v| (r * 7 + v * 3) % net.cards[v]).collect();
        let discount = [None, Some(1e-3), Some(1.0), Some(50.0)][r % 4];
        let (max_iter, end) = if i < wr.len() { ([3, 7, 50][r % 3], [0.02, 0.5, 3.0][r / 2 % 3]) } else { ([1000, 5000, 2, 1][r % 4], [0.3, 0.1, 500.0, 2000.0][r % 4]) };
        let (max_err, alpha) = if r % 2 == 0 { (1e-12, 1e-12) } else { (5.0, 0.2) };
        let cfg = Config { seed: r as u64, max_iter, end, discount, max_err, alpha };
        let got = cfg.build().evaluate_state(&real, &factored(net, &real, 1), &st(&s));
        l.state(&(i, &s));
        check_state(net, &real, Kind::Factored(1), cfg, &s, got, l).map_err(|e| e.chars().take(600).collect::<String>())
    });
    // From the fastest to the slowest processes, horizons and discounts.
    let scales = [1e-12, 1e-6, 1e-3, 1.0, 1e3, 1e9];
    let horizons = [1e-7, 0.03, 1.3, 9.0];
    let discounts = [1e-18, 1e-14, 1e-10, 1e-7, 1e-4, 0.01, 0.6, 4.0, 90.0, 1e5];
    let sd = ctx.pick(3usize, 100);
    ctx.family("scales", "13 networks with their rates times 1e-12 to 1e9; end times of 1e-7 to 9 and 10 discount factors of 1e-18 to 1e5 in proportion; seeds 0..2 (99), 1 and 4 trajectories", nets1.len() * scales.len() * sd, |c, l| {
        let d = digits(c, &[nets1.len(), scales.len(), sd]);
        let (base, scale, seed) = (&nets1[d[0]].1, scales[d[1]], d[2] as u64);
        let net = Net { cards: base.cards.clone(), parents: base.parents.clone(), cims: base.cims.iter().map(|m| m * scale).collect() };
        let real = net.build();
        let tables = [factored(&net, &real, 0), factored(&net, &real, 1)];
        let s = decode(&net.cards, (seed as usize * 5 + d[0]) % net.nstates());
        for (i, h) in horizons.iter().enumerate() {
            for (j, x) in discounts.iter().enumerate() {
                let k = (i + j + d[2]) % 2;
                let cfg = Config { seed, max_iter: [1, 4][(i + j / 2) % 2], end: h / scale, discount: Some(x * scale), max_err: 1e-300, alpha: 1e-12 };
                let got = cfg.build().evaluate_state(&real, &tables[k], &st(&s));
                check_state(&net, &real, Kind::Factored(k as u64), cfg, &s, got, l)?;
            }
            let cfg = Config { seed, max_iter: 4, end: h / scale, discount: None, max_err: 1e-300, alpha: 1e-12 };
            let got = cfg.build().evaluate_state(&real, &tables[0], &st(&s));
            check_state(&net, &real, Kind::Factored(0), cfg, &s, got, l)?;
        }
        l.state(&d);
        Ok(())
    });
    // One evaluator for several networks and rewards, held at the same places.
    ctx.family("one evaluator, several uses", "all sequences of 3 requests for one evaluator: 4 networks (equal and other domains, written into the same place) x 3 reward functions (the tables edited in place) x a state or the whole space; finite and discounted, 1 and 5 trajectories", 24usize.pow(3), |c, l| {
        let nets: Vec<Net> = vec![
            Net::distinct(&[2, 2], &graph(2, 1)),
            { let n = Net::distinct(&[2, 2], &graph(2, 1)); Net { cims: n.cims.iter().map(|m| m * 0.3).collect(), ..n } },
            Net::distinct(&[2, 2], &graph(2, 2)),
            Net::distinct(&[3, 2], &graph(2, 3)),
        ];
        let cfg = Config { seed: 11, max_iter: [1, 5][c % 2], end: 1.1, discount: [None, Some(0.7)][(c / 2) % 2], max_err: 1e-12, alpha: 1e-12 };
        let mc = cfg.build();
        let mut real = nets[0].build();
        let mut rf = factored(&nets[0], &real, 0);
        for (i, r) in digits(c, &[24; 3]).into_iter().enumerate() {
            let d = digits(r, &[4, 3, 2]);
            let net = &nets[d[0]];
            real = net.build();
            if d[0] == 3 || rf.get_instantaneous_reward(0).len() != net.cards[0] {
                rf = factored(net, &real, d[1] as u64);
            } else {
                for v in 0..net.n() {
                    for x in 0..net.cards[v] {
                        rf.get_instantaneous_reward_mut(v)[x] = inst(v, x, d[1] as u64);
                        for y in 0..net.cards[v] {
                            rf.get_transition_reward_mut(v)[[x, y]] = tran(v, x, y, d[1] as u64);
                        }
                    }
                }
            }
            let k = if d[1] == 2 { Kind::Joint } else { Kind::Factored(d[1] as u64) };
            if d[2] == 0 {
                let s = decode(&net.cards, (c + i) % net.nstates());
                let got = if d[1] == 2 { mc.evaluate_state(&real, &JointReward, &st(&s)) } else { mc.evaluate_state(&real, &rf, &st(&s)) };
                check_state(net, &real, k, cfg, &s, got, l).map_err(|e| format!("use {} of one evaluator: {}", i, e))?;
            } else {
                let all = if d[1] == 2 { mc.evaluate_state_space(&real, &JointReward) } else { mc.evaluate_state_space(&real, &rf) };
                ensure!(all.len() == net.nstates(), "use {} of one evaluator: {} values for {} joint states", i, all.len(), net.nstates());
                for s in 0..net.nstates() {
                    let s = decode(&net.cards, s);
                    let got = *all.get(&st(&s)).ok_or(format!("use {} of one evaluator: no value for {:?}", i, s))?;
                    check_state(net, &real, k, cfg, &s, got, l).map_err(|e| format!("use {} of one evaluator: {}", i, e))?;
                }
            }
        }
        l.state(&c);
        Ok(())
    });
    ctx.family("very many trajectories", "two binary processes with 70000 and 140000 trajectories, and with one of up to 200000 jumps, both criteria, no early stop", 6, |c, l| {
        let net = &nets1[[0, 1][c % 2]].1;
        let cfg = Config { seed: 3, max_iter: [70_000, 140_000, 1][c / 2], end: [0.2, 0.2, 1e5][c / 2], discount: [None, Some([0.9, 0.9, 1e-5][c / 2])][c % 2], max_err: 1e-300, alpha: 1e-12 };
        let real = net.build();
        let s = decode(&net.cards, c % 2);
        let got = cfg.build().evaluate_state(&real, &factored(net, &real, 0), &st(&s));
        l.state(&c);
        check_state(net, &real, Kind::Factored(0), cfg, &s, got, l)
    });
    // The first number of trajectories that is enough, among hundreds and thousands.
    let targets = ctx.pick(vec![255, 257, 400, 511, 520, 650, 777, 1000, 1023, 1030, 1500, 2047, 2051, 3000, 4100, 5001], vec![255, 256, 257, 400, 511, 512, 513, 520, 650, 777, 900, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4097, 5001, 8200, 10_001, 16_390, 20_000]);
    let tg = &targets;
    ctx.family("late stops", "13 networks, errors at which 255 to 5001 (20000) trajectories are just enough, finite and discounted", nets1.len() * tg.len(), |c, l| {
        let net = &nets1[c % nets1.len()].1;
        let target = tg[c / nets1.len()];
        let real = net.build();
        let rf = factored(net, &real, 0);
        let s = decode(&net.cards, c % net.nstates());
        let mut cfg = Config { seed: 2 + c as u64, max_iter: target, end: 0.4, discount: [None, Some(0.6)][c % 2], max_err: 1e-300, alpha: 0.1 };
        let returns = returns_of(&real, &|s| instantaneous(Kind::Factored(0), s), &|a, b| transition(Kind::Factored(0), a, b), cfg, &s).0;
        let mean = returns.iter().sum::<f64>() / target as f64;
        let var = returns.iter().map(|r| (r - mean).powi(2)).sum::<f64>() / (target - 1) as f64;
        // two-sided significance 0.1
        cfg.max_err = 1.6448536269514722 * (var / target as f64).sqrt();
        cfg.max_iter = 2 * target + 100;
        let got = cfg.build().evaluate_state(&real, &rf, &st(&s));
        l.state(&(c % nets1.len(), &s, target));
        check_state(net, &real, Kind::Factored(0), cfg, &s, got, l).map_err(|e| e.chars().take(600).collect::<String>())
    });
    // A reward that does not vary, and rewards of either sign: the stopping test at its limits.
    ctx.family("degenerate rewards", "zero, constant, purely instantaneous and purely transitional rewards, positive and negative", nets1.len() * 4 * 4, |c, l| {
        let d = digits(c, &[nets1.len(), 4, 4]);
        let net = &nets1[d[0]].1;
        let real = net.build();
        let mut rf = FactoredRewardFunction::initialize_from_network_process(&real);
        let z = [1.0, -2.5, 1e6, 0.0][d[2]];
        for v in 0..net.n() {
            for x in 0..net.cards[v] {
                if d[1] == 0 || d[1] == 1 {
                    rf.get_instantaneous_reward_mut(v)[x] = z * if d[1] == 1 { (x + 1) as f64 } else { 1.0 };
                }
                for y in 0..net.cards[v] {
                    if d[1] == 2 || d[1] == 3 && x < y {
                        rf.get_transition_reward_mut(v)[[x, y]] = z;
                    }
                }
            }
        }
        let inst = |s: &[usize]| (0..net.n()).map(|v| rf.get_instantaneous_reward(v)[s[v]]).sum::<f64>();
        let tran = |a: &[usize], b: &[usize]| (0..net.n()).map(|v| if a[v] == b[v] { 0.0 } else { rf.get_transition_reward(v)[[a[v], b[v]]] }).sum::<f64>();
        for s in 0..net.nstates() {
            let s = decode(&net.cards, s);
            for discount in [None, Some(0.5)] {
                for m in [1, 5, 30] {
                    let cfg = Config { seed: c as u64, max_iter: m, end: 1.7, discount, max_err: 0.1, alpha: 0.1 };
                    let got = cfg.build().evaluate_state(&real, &rf, &st(&s));
                    let (acceptable, n) = reference_of(&real, &inst, &tran, cfg, &s);
                    ensure!(acceptable.iter().any(|a| (a - got).abs() <= 1e-8 * (1e-3 + a.abs())), "{} reward {} of kind {} from {:?}, {:?}: {} instead of {:?}", net.describe(), z, d[1], s, cfg, got, acceptable);
                    l.step(n as u64);
                    l.trace();
                    l.state(&(d[0], &s));
                    l.outcome(&got.to_bits());
                }
            }
        }
        Ok(())
    });
    // Rewards far from 0 compared with their variation.
    ctx.family("offset rewards", "13 networks, rewards of 1e3, 1e6, 1e8 and 1e10 plus the usual ones, positive and negative, instantaneous or of transitions: the stopping test must see their variation", nets1.len() * 8 * 4, |c, l| {
        let d = digits(c, &[nets1.len(), 8, 4]);
        let net = &nets1[d[0]].1;
        let real = net.build();
        let mut rf = factored(net, &real, 0);
        let z = [1e3, 1e6, 1e8, 1e10][d[2]] * if d[1] % 2 == 0 { 1.0 } else { -1.0 };
        for v in 0..if d[1] < 4 { 1 } else { net.n() } {
            rf.get_instantaneous_reward_mut(v).iter_mut().for_each(|x| *x += z);
        }
        let inst = |s: &[usize]| (0..net.n()).map(|v| rf.get_instantaneous_reward(v)[s[v]]).sum::<f64>();
        let tran = |a: &[usize], b: &[usize]| (0..net.n()).map(|v| if a[v] == b[v] { 0.0 } else { rf.get_transition_reward(v)[[a[v], b[v]]] }).sum::<f64>();
        for s in 0..net.nstates() {
            let s = decode(&net.cards, s);
            for (i, max_err) in [0.03, 0.3, 1.0, 3.0, 10.0].into_iter().enumerate() {
                let cfg = Config { seed: (c * 5 + i) as u64, max_iter: 60, end: 1.7, discount: [None, Some(0.5)][(d[1] / 2 + i) % 2], max_err, alpha: [0.05, 0.3][i % 2] };
                let got = cfg.build().evaluate_state(&real, &rf, &st(&s));
                let (acceptable, n) = reference_of(&real, &inst, &tran, cfg, &s);
                ensure!(acceptable.iter().any(|a| (a - got).abs() <= 1e-12 * a.abs() + 1e-9), "{} offset {} from {:?}, {:?}: {} instead of {:?} (mean of {} trajectories)", net.describe(), z, s, cfg, got, acceptable, n);
                l.step(n as u64);
                l.trace();
                l.state(&(d[0], &s));
                l.outcome(&(n, acceptable.len()));
            }
        }
        Ok(())
    });
    // Extreme outcomes of the generator.
    let ext: Vec<u64> = vec![0, 1 << 40, 1 << 63, u64::MAX - (1 << 12), u64::MAX];
    let d = ctx.pick(4u32, 6);
    let offs = ctx.pick(5, 12);
    ctx.family("extreme outcomes", "26 networks, 4 (6) consecutive draws at 5 extreme values after 0..4 (11) ordinary draws; 1, 2 and 5 trajectories", 26 * offs, |c, l| {
        let net = &nets[c % 26];
        let real = net.build();
        let rf = factored(net, &real, 0);
        let off = c / 26;
        let s = decode(&net.cards, off % net.nstates());
        let mut script: Vec<u64> = (0..off).map(|k| grid(16)[(k * 7 + 3) % 16]).collect();
        for e in 0..ext.len().pow(d) {
            script.truncate(off);
            script.extend(digits(e, &vec![ext.len(); d as usize]).iter().map(|x| ext[*x]));
            for (max_iter, discount) in [(1, None), (2, Some(0.4)), (5, None)] {
                let cfg = Config { seed: 3, max_iter, end: 1.5, discount, max_err: 1e-12, alpha: 1e-12 };
                let (got, _) = scripted(&script, || cfg.build().evaluate_state(&real, &rf, &st(&s)));
                rand_chacha::script::load(&script);
                rand_chacha::script::start(DRAW_CAP);
                let r = check_state(net, &real, Kind::Factored(0), cfg, &s, got, l);
                rand_chacha::script::stop();
                r?;
            }
        }
        l.state(&(c % 26, &s));
        Ok(())
    });
    ctx.sample("cycle of a binary and a ternary variable from [0,2], discount 1, end 2, 5 trajectories with seed 3: mean of the 5 integrals".into());
}

// ------------------------------------------------------------------------------------------ C22

/// A reward function with a scheduling point at each call.
struct Scheduled(FactoredRewardFunction);
impl RewardFunction for Scheduled {
    fn call(&self, c: &NetworkProcessState, p: Option<&NetworkProcessState>) -> Reward {
        control::point();
        self.0.call(c, p)
    }
    fn initialize_from_network_process<T: NetworkProcess>(p: &T) -> Self {
        Scheduled(FactoredRewardFunction::initialize_from_network_process(p))
    }
}

/// An evaluation with given values.
struct Table {
    cards: Vec<usize>,
    values: Vec<f64>,
}
impl RewardEvaluation for Table {
    fn evaluate_state_space<N: NetworkProcess, R: RewardFunction>(&self, _: &N, _: &R) -> HashMap<NetworkProcessState, f64> {
        self.values.iter().enumerate().map(|(i, v)| (st(&decode(&self.cards, i)), *v)).collect()
    }
    fn evaluate_state<N: NetworkProcess, R: RewardFunction>(&self, _: &N, _: &R, s: &NetworkProcessState) -> f64 {
        self.values[encode(&self.cards, &unst(s))]
    }
}

fn same_space(got: &HashMap<NetworkProcessState, f64>, cards: &[usize], want: &[f64]) -> Res {
    ensure!(got.len() == want.len(), "{} values for {} joint states", got.len(), want.len());
    for (i, w) in want.iter().enumerate() {
        let s = decode(cards, i);
        match got.get(&st(&s)) {
            None => return Err(format!("no value for {:?}", s)),
            Some(g) => ensure!(g.to_bits() == w.to_bits(), "{:?} has value {} in the state space, {} alone", s, g, w),
        }
    }
    Ok(())
}

pub fn c22(ctx: &mut Ctx) {
    ctx.assume("scheduling points are the joins of the thread pool and the calls of the reward function; the relative evaluation is judged for positive values");
    // Completeness and agreement, in pools of several sizes.
    let mut shapes: Vec<Vec<usize>> = vec![];
    for n in 1..=ctx.pick(4usize, 5) {
        let m = if n <= 3 { 4 } else { 3 };
        for c in 0..(m - 1usize).pow(n as u32) {
            let s: Vec<usize> = digits(c, &vec![m - 1; n]).iter().map(|x| x + 2).collect();
            if s.iter().product::<usize>() <= 128 {
                shapes.push(s);
            }
        }
    }
    let shapes = &shapes;
    ctx.family_hang("all joint states", "networks of 1..4 (5) variables with 2..4 states, on pools of 1, 2, 3, 8 and 13 threads, finite and discounted, with and without early stop", shapes.len() * ctx.pick(4, 40), 120, |c, l| {
        let cards = &shapes[c % shapes.len()];
        let r = (c / shapes.len()) as u64;
        let n = cards.len();
        let net = Net::distinct(cards, &graph(n, (c * 2654435761) % n_graphs(n)).into_iter().map(|p| p.into_iter().take(2).collect()).collect::<Vec<_>>());
        let real = net.build();
        let rf = factored(&net, &real, r % 2);
        let cfg = Config { seed: r + 5, max_iter: 2 + (c % 7), end: 0.8, discount: [None, Some(0.5)][(c / 2) % 2], max_err: [1e-9, 3.0][c % 2], alpha: 0.2 };
        let mc = cfg.build();
        let want: Vec<f64> = (0..net.nstates()).map(|s| mc.evaluate_state(&real, &rf, &st(&decode(cards, s)))).collect();
        // states without common outcomes would hide a mix-up: all values differ
        let mut distinct: Vec<u64> = bits(&want);
        distinct.sort();
        distinct.dedup();
        for threads in [1, 2, 3, 8, 13] {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            let got = pool.install(|| mc.evaluate_state_space(&real, &rf));
            same_space(&got, cards, &want).map_err(|e| format!("{} with {} threads: {}", net.describe(), threads, e))?;
            l.step(net.nstates() as u64);
            l.trace();
        }
        let got = mc.evaluate_state_space(&real, &rf);
        same_space(&got, cards, &want).map_err(|e| format!("{}: {}", net.describe(), e))?;
        for s in 0..net.nstates() {
            l.state(&(cards, s));
        }
        l.outcome(&(distinct.len(), cards));
        Ok(())
    });

    // Many joint states.
    let big: Vec<Vec<usize>> = ctx.pick(vec![vec![300], vec![2; 9], vec![17, 16], vec![2, 130]], vec![vec![300], vec![2; 10], vec![17, 16], vec![2, 130], vec![257, 2], vec![3; 6], vec![5, 4, 3, 2, 5]]);
    let bg = &big;
    ctx.family_hang("many joint states", "272 to 512 (1024) joint states: Monte Carlo on pools of 1, 3 and 8 threads against the values one by one; relative evaluation of given values, and of the Monte Carlo ones", bg.len() * ctx.pick(2, 20), 120, |c, l| {
        let (cards, r) = (&bg[c % bg.len()], c / bg.len());
        let n = cards.len();
        let net = Net::distinct(cards, &(0..n).map(|v| (0..n).filter(|p| *p != v && (p + 1) % n == v && cards[*p] < 100).collect()).collect::<Vec<Set>>());
        let real = net.build();
        let rf = factored(&net, &real, 0);
        let cfg = Config { seed: r as u64 + 5, max_iter: 2, end: 0.4, discount: [None, Some(0.5)][r % 2], max_err: 1e-9, alpha: 0.2 };
        let mc = cfg.build();
        let k = net.nstates();
        let want: Vec<f64> = (0..k).map(|s| mc.evaluate_state(&real, &rf, &st(&decode(cards, s)))).collect();
        for threads in [1, 3, 8] {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            let got = pool.install(|| mc.evaluate_state_space(&real, &rf));
            same_space(&got, cards, &want).map_err(|e| format!("{:?} with {} threads: {}", cards, threads, e))?;
            l.step(k as u64);
            l.trace();
        }
        let given: Vec<f64> = (0..k).map(|i| 0.5 + ((i * 7919 + r * 31) % 1009) as f64).collect();
        for (values, got) in [
            (&given, NeighborhoodRelativeReward::new(Table { cards: cards.clone(), values: given.clone() }).evaluate_state_space(&real, &rf)),
            (&want, NeighborhoodRelativeReward::new(cfg.build()).evaluate_state_space(&real, &rf)),
        ] {
            ensure!(got.len() == k, "{} relative values for {} joint states", got.len(), k);
            for i in 0..k {
                let s = decode(cards, i);
                let mut low = values[i];
                for v in 0..n {
                    for x in 0..cards[v] {
                        let mut o = s.clone();
                        o[v] = x;
                        low = low.min(values[encode(cards, &o)]);
                    }
                }
                let w = values[i] / low;
                let g = *got.get(&st(&s)).ok_or(format!("no relative value for {:?}", s))?;
                ensure!(low > 0.0 && close(g, w, 1e-12), "{:?}: relative value of {:?} is {} instead of {}", cards, s, g, w);
                l.state(&(c % bg.len(), i));
            }
            l.step(k as u64);
            l.trace();
        }
        l.outcome(&(c, bits(&want)));
        Ok(())
    });

    // More of them than 16 bits count.
    let huge: [&[usize]; 3] = [&[2; 17], &[257, 256], &[16, 16, 16, 17]];
    ctx.family_hang("more than 65536 joint states", "65792 to 131072 joint states of 2, 4 and 17 variables: Monte Carlo on pools of 1 and 8 threads, 4096 of the values against those computed alone; relative evaluation of given values of 4096 to 4608 joint states", huge.len() * 2, 200, |c, l| {
        let (cards, r) = (huge[c % huge.len()], c / huge.len());
        let n = cards.len();
        let net = Net::distinct(cards, &vec![Set::new(); n]);
        let real = net.build();
        let rf = factored(&net, &real, 0);
        let cfg = Config { seed: r as u64 + 5, max_iter: 1, end: 0.02, discount: [None, Some(0.5)][r % 2], max_err: 1e-9, alpha: 0.2 };
        let mc = cfg.build();
        let k = net.nstates();
        let pool = rayon::ThreadPoolBuilder::new().num_threads([1, 8][r % 2]).build().unwrap();
        let got = pool.install(|| mc.evaluate_state_space(&real, &rf));
        ensure!(got.len() == k, "{} values for {} joint states", got.len(), k);
        for i in (0..k).filter(|i| i % (k / 2048) < 2 || *i > 65_000 && *i < 66_000 || i + 100 > k) {
            let s = decode(cards, i);
            let want = mc.evaluate_state(&real, &rf, &st(&s));
            let g = *got.get(&st(&s)).ok_or(format!("no value for {:?}", s))?;
            ensure!(g.to_bits() == want.to_bits(), "{:?}: the value of {:?} is {} instead of {}", cards, s, g, want);
            l.step(1);
        }
        l.trace();
        // the relative evaluation takes time quadratic in the number of joint states
        let cards: &[usize] = [&[2; 12][..], &[64, 65], &[8, 8, 8, 9]][c % huge.len()];
        let n = cards.len();
        let k: usize = cards.iter().product();
        let values: Vec<f64> = (0..k).map(|i| 0.5 + ((i * 7919 + r * 31) % 1_000_003) as f64).collect();
        let got = NeighborhoodRelativeReward::new(Table { cards: cards.to_vec(), values: values.clone() }).evaluate_state_space(&real, &rf);
        ensure!(got.len() == k, "{} relative values for {} joint states", got.len(), k);
        for i in 0..k {
            let s = decode(cards, i);
            let mut low = values[i];
            for v in 0..n {
                for x in 0..cards[v] {
                    let mut o = s.clone();
                    o[v] = x;
                    low = low.min(values[encode(cards, &o)]);
                }
            }
            let g = *got.get(&st(&s)).ok_or(format!("no relative value for {:?}", s))?;
            ensure!(close(g, values[i] / low, 1e-12), "{:?}: the relative value of {:?} is {} instead of {}", cards, s, g, values[i] / low);
        }
        l.step(k as u64);
        l.trace();
        l.state(&c);
        Ok(())
    });

    // All schedules.
    let cases: Vec<(Vec<usize>, usize, usize)> = {
        let mut v = vec![];
        for (cards, bound) in [(vec![2], 2), (vec![3], 2), (vec![2, 2], 2), (vec![5], 1), (vec![2, 3], 0)] {
            for threads in [1, 2, 3, 8] {
                for p in 0..=bound + ctx.pick(0, 1) {
                    v.push((cards.clone(), threads, p));
                }
            }
        }
        v
    };
    let max = ctx.pick(40_000, 5_000_000);
    ctx.family("schedules", "2..6 joint states, 1, 2, 3 and 8 threads, every subset of stolen joins, at any call of the reward function at most 2 (3) preemptions for up to 4 states, 1 (2) for 5, none (1) for 6", cases.len(), |c, l| {
        let (cards, threads, preemptions) = &cases[c];
        let n = cards.len();
        let net = Net::distinct(cards, &graph(n, n_graphs(n) - 1));
        let real = net.build();
        let rf = Scheduled(factored(&net, &real, 0));
        let cfg = Config { seed: 9, max_iter: 1, end: 0.15, discount: None, max_err: 1e-9, alpha: 0.2 };
        let mc = cfg.build();
        let want: Vec<f64> = (0..net.nstates()).map(|s| mc.evaluate_state(&real, &rf, &st(&decode(cards, s)))).collect();
        let stats = schedules(l, *threads, *preemptions, max, || mc.evaluate_state_space(&real, &rf), |r, t, l| {
            let got = r?;
            l.outcome(&(c, t.stolen, t.preemptions));
            same_space(&got, cards, &want).map_err(|e| format!("{} with {} threads: {}", net.describe(), threads, e))
        })?;
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:?} threads {} preemptions {}: {} schedules, {} stolen, {} preemptions, capped {}", cards, threads, preemptions, stats.schedules, stats.stolen, stats.preemptions, stats.capped);
        }
        Ok(())
    });

    // The relative evaluation, for all small tables.
    let spaces: Vec<(Vec<usize>, Vec<f64>)> = vec![
        (vec![2], vec![0.5, 1.0, 2.0, 3.0, 1e-3, 1e6]),
        (vec![3], vec![0.5, 1.0, 2.0, 3.0, 7.0]),
        (vec![4], vec![0.5, 1.0, 2.0, 3.0, 7.0]),
        (vec![2, 2], vec![0.5, 1.0, 2.0, 3.0, 7.0]),
        (vec![2, 3], ctx.pick(vec![0.5, 1.0, 3.0], vec![0.5, 1.0, 3.0, 7.0, 40.0])),
        (vec![3, 3], ctx.pick(vec![0.5, 3.0], vec![0.5, 1.0, 3.0])),
        (vec![2, 2, 2], ctx.pick(vec![0.5, 1.0, 3.0], vec![0.5, 1.0, 3.0, 8.0])),
        (vec![2, 3, 2], vec![0.5, 3.0]),
    ];
    for (cards, values) in spaces {
        let k: usize = cards.iter().product();
        let net = Net::distinct(&cards, &vec![Set::new(); cards.len()]);
        let real = net.build();
        let rf = factored(&net, &real, 0);
        let (cards, values, real, rf) = (&cards, &values, &real, &rf);
        ctx.family(&format!("relative evaluation, {:?}", cards), &format!("all {}^{} tables of values {:?}", values.len(), k, values), values.len().pow(k as u32), |c, l| {
            let t: Vec<f64> = digits(c, &vec![values.len(); k]).iter().map(|i| values[*i]).collect();
            let got = NeighborhoodRelativeReward::new(Table { cards: cards.clone(), values: t.clone() }).evaluate_state_space(real, rf);
            ensure!(got.len() == k, "{} values for {} joint states", got.len(), k);
            for i in 0..k {
                let s = decode(cards, i);
                let mut w: f64 = 0.0;
                for j in 0..k {
                    let o = decode(cards, j);
                    if (0..s.len()).filter(|v| s[*v] != o[*v]).count() < 2 {
                        w = w.max(t[i] / t[j]);
                    }
                }
                let g = *got.get(&st(&s)).ok_or(format!("no value for {:?}", s))?;
                ensure!(close(g, w, 1e-12), "values {:?}: relative value of {:?} is {} instead of {}", t, s, g, w);
            }
            l.step(k as u64);
            l.trace();
            l.state(&bits(&t));
            l.outcome(&(0..k).map(|i| got[&st(&decode(cards, i))].to_bits()).collect::<Vec<_>>());
            Ok(())
        });
    }
    // It depends on nothing but these values.
    let arcs = [(0usize, 1usize), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)];
    let extreme = [1e-300, 1e-9, 1.0, 3.0, 1e150];
    ctx.family("relative evaluation, other networks", "processes of three states with every set of zero rates, alone, as a network, as a parent and as a child of a binary variable, with and without parameters; 125 tables of values of 1e-300 to 1e150", 64 * 5, |c, l| {
        let d = digits(c, &[64, 5]);
        let rate = |x: usize, y: usize| if arcs.iter().position(|a| *a == (x, y)).map_or(false, |i| d[0] >> i & 1 == 1) { 0.0 } else { 1.0 + (x * 3 + y) as f64 };
        let (cards, parents): (Vec<usize>, Vec<Set>) = match d[1] {
            0 | 1 | 4 => (vec![3], vec![Set::new()]),
            2 => (vec![3, 2], vec![Set::new(), [0].into_iter().collect()]),
            _ => (vec![3, 2], vec![[1].into_iter().collect(), Set::new()]),
        };
        let net = Net::with(&cards, &parents, |v, _, x, y| if v == 0 { rate(x, y) } else { 2.0 });
        let k = net.nstates();
        let mut real = net.build_structure();
        let mut process = CtmpProcess::new();
        process.add_node(node(&label(0), 3)).unwrap();
        if d[1] != 4 {
            for v in 0..net.n() {
                inner_mut(real.get_node_mut(v)).set_cim_unchecked(net.cims[v].clone());
            }
            inner_mut(process.get_node_mut(0)).set_cim_unchecked(net.cims[0].clone());
        }
        for i in 0..125 {
            let mut t: Vec<f64> = digits(i, &[5, 5, 5]).iter().map(|i| extreme[*i]).collect();
            if k == 6 {
                t.extend([t[2], t[0] * 2.0, t[1]]);
            }
            let table = || NeighborhoodRelativeReward::new(Table { cards: net.cards.clone(), values: t.clone() });
            let got = if d[1] == 0 { table().evaluate_state_space(&process, &factored(&net, &process, i as u64 % 2)) } else { table().evaluate_state_space(&real, &factored(&net, &real, i as u64 % 2)) };
            ensure!(got.len() == k, "{} values for {} joint states", got.len(), k);
            for a in 0..k {
                let s = decode(&net.cards, a);
                let w = (0..k).filter(|b| {
                    let o = decode(&net.cards, *b);
                    (0..s.len()).filter(|v| s[*v] != o[*v]).count() < 2
                }).map(|b| t[a] / t[b]).fold(0.0, f64::max);
                let g = *got.get(&st(&s)).ok_or(format!("no value for {:?}", s))?;
                ensure!(g == w || close(g, w, 1e-12) || (g / w - 1.0).abs() < 1e-12, "{}, values {:?}: relative value of {:?} is {} instead of {}", net.describe(), t, s, g, w);
            }
            l.trace();
        }
        l.step(125 * k as u64);
        l.state(&d);
        Ok(())
    });
    // The relative evaluation on top of the real one.
    ctx.family("relative Monte Carlo", "networks of 1..4 (5) variables: the ratios of the values evaluated one by one", shapes.len(), |c, l| {
        let cards = &shapes[c];
        let net = Net::distinct(cards, &vec![Set::new(); cards.len()]);
        let real = net.build();
        let rf = factored(&net, &real, 0);
        let cfg = Config { seed: c as u64, max_iter: 3, end: 0.8, discount: None, max_err: 1e-9, alpha: 0.2 };
        let t: Vec<f64> = (0..net.nstates()).map(|s| cfg.build().evaluate_state(&real, &rf, &st(&decode(cards, s)))).collect();
        let got = NeighborhoodRelativeReward::new(cfg.build()).evaluate_state_space(&real, &rf);
        ensure!(got.len() == t.len(), "{} values for {} joint states", got.len(), t.len());
        for i in 0..t.len() {
            let s = decode(cards, i);
            let w = (0..t.len()).filter(|j| {
                let o = decode(cards, *j);
                (0..s.len()).filter(|v| s[*v] != o[*v]).count() < 2
            }).map(|j| t[i] / t[j]).fold(0.0, f64::max);
            ensure!(t[i] > 0.0 && close(got[&st(&s)], w, 1e-12), "{}: relative value of {:?} is {} instead of {}", net.describe(), s, got[&st(&s)], w);
            l.state(&(c, i));
        }
        l.step(t.len() as u64);
        l.trace();
        Ok(())
    });
    // One relative evaluator for several networks and rewards, held at the same places.
    ctx.family("one relative evaluator, several uses", "all sequences of 3 requests for one evaluator: 5 networks (equal and other domains, written into the same place) x 2 rewards (the tables edited in place)", 1000, |c, l| {
        let nets: Vec<Net> = vec![
            Net::distinct(&[2, 2], &graph(2, 1)),
            { let n = Net::distinct(&[2, 2], &graph(2, 1)); Net { cims: n.cims.iter().map(|m| m * 0.3).collect(), ..n } },
            Net::distinct(&[2, 2], &graph(2, 2)),
            Net::distinct(&[3, 2], &graph(2, 3)),
            Net::distinct(&[4], &graph(1, 0)),
        ];
        let cfg = Config { seed: 11, max_iter: [1, 4][c % 2], end: 1.1, discount: [None, Some(0.7)][(c / 2) % 2], max_err: 1e-12, alpha: 1e-12 };
        let rel = NeighborhoodRelativeReward::new(cfg.build());
        let mut real = nets[0].build();
        let mut rf = factored(&nets[0], &real, 0);
        for (i, r) in digits(c, &[10; 3]).into_iter().enumerate() {
            let (net, k) = (&nets[r / 2], (r % 2) as u64);
            real = net.build();
            rf = factored(net, &real, k);
            let got = rel.evaluate_state_space(&real, &rf);
            let t: Vec<f64> = (0..net.nstates()).map(|s| cfg.build().evaluate_state(&real, &rf, &st(&decode(&net.cards, s)))).collect();
            ensure!(got.len() == t.len(), "use {} of one evaluator: {} values for {} joint states", i, got.len(), t.len());
            if t.iter().any(|x| *x <= 0.0) {
                continue;
            }
            for a in 0..t.len() {
                let s = decode(&net.cards, a);
                let w = (0..t.len()).filter(|j| {
                    let o = decode(&net.cards, *j);
                    (0..s.len()).filter(|v| s[*v] != o[*v]).count() < 2
                }).map(|j| t[a] / t[j]).fold(0.0, f64::max);
                let g = *got.get(&st(&s)).ok_or(format!("use {} of one evaluator: no value for {:?}", i, s))?;
                ensure!(close(g, w, 1e-12), "use {} of one evaluator, {}: relative value of {:?} is {} instead of {}", i, net.describe(), s, g, w);
                l.outcome(&g.to_bits());
            }
            l.step(t.len() as u64);
            l.trace();
        }
        let _ = &mut rf;
        l.state(&c);
        Ok(())
    });
    ctx.sample("values [0.5, 3, 1, 1] over two binary variables: relative values [1, 6, 2, 1]".into());
}
