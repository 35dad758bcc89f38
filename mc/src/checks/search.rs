//! C17 hill climbing.

use super::independence::{dummy, labels_kept, mask_of, sampled, squeeze};
use super::learning::carrier;
use crate::core::*;
use crate::ensure;
use crate::model::*;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::Dataset;
use std::sync::atomic::{AtomicU64, Ordering};

/// More calls than any search of these sizes needs (each accepted change raises the score).
const ENDLESS: u64 = 10_000_000;

/// A score given by a function of the variable and the parent set.
pub struct Scores<S: Fn(usize, &Set) -> f64 + Sync> {
    pub score: S,
    calls: AtomicU64,
}
impl<S: Fn(usize, &Set) -> f64 + Sync> Scores<S> {
    pub fn new(score: S) -> Self {
        Scores { score, calls: AtomicU64::new(0) }
    }
}
impl<S: Fn(usize, &Set) -> f64 + Sync> ScoreFunction for Scores<S> {
    fn call<T: NetworkProcess>(&self, _: &T, node: usize, ps: &Set, _: &Dataset) -> f64 {
        if self.calls.fetch_add(1, Ordering::Relaxed) > ENDLESS {
            panic!("the search does not end");
        }
        (self.score)(node, ps)
    }
}

fn all_parents(net: &CtbnNetwork) -> Vec<usize> {
    (0..net.get_number_of_nodes()).map(|v| mask_of(&net.get_parent_set(v))).collect()
}

/// The parent set of every variable, after the checks that hold for every score.
fn climb(cards: &[usize], g: usize, limit: Option<usize>, score: &(dyn Fn(usize, &Set) -> f64 + Sync), l: &mut Loc) -> Result<Vec<usize>, String> {
    let n = cards.len();
    let s = Scores::new(|v, ps: &Set| score(v, ps));
    let before = if n > 7 { carrier_large(cards, g) } else { carrier(cards, g) };
    let net = HillClimbing::new(s, limit).fit_transform(before, &dummy(n));
    labels_kept(&net, cards)?;
    let all = all_parents(&net);
    for v in 0..n {
        ensure!(all[v] >> v & 1 == 0, "{} is its own parent", v);
        if let Some(k) = limit {
            ensure!(all[v].count_ones() as usize <= k, "{} has the parents {:?}, the limit being {}", v, mask(all[v]), k);
        }
        let (got, empty) = (score(v, &mask(all[v])), score(v, &Set::new()));
        ensure!(got >= empty, "the parents {:?} of {} score {:?}, none {:?}", mask(all[v]), v, got, empty);
    }
    l.step(n as u64);
    l.trace();
    Ok(all)
}

/// No single addition or removal is better.
fn local_optimum(n: usize, v: usize, m: usize, limit: Option<usize>, score: &(dyn Fn(usize, &Set) -> f64 + Sync)) -> Res {
    let s = score(v, &mask(m));
    for p in (0..n).filter(|p| *p != v) {
        let o = m ^ 1 << p;
        if limit.is_some_and(|k| o.count_ones() as usize > k) {
            continue;
        }
        let t = score(v, &mask(o));
        ensure!(!(t > s), "the parents {:?} of {} ({:?}) are not a local optimum with the limit {:?}: {:?} scores {:?}", mask(m), v, s, limit, mask(o), t);
    }
    Ok(())
}

/// Everything, for a score without ties; from two graphs.
fn strict(cards: &[usize], g: usize, limit: Option<usize>, score: &(dyn Fn(usize, &Set) -> f64 + Sync), l: &mut Loc) -> Res {
    let all = climb(cards, g, limit, score, l)?;
    for v in 0..cards.len() {
        local_optimum(cards.len(), v, all[v], limit, score)?;
    }
    l.outcome(&(limit, &all));
    if g % 3 == 0 {
        let again = climb(cards, g / 3, limit, score, l)?;
        ensure!(again == all, "from graph {} the parents are {:?}, from graph {} {:?}", g, all, g / 3, again);
    }
    Ok(())
}

fn limits(n: usize) -> Vec<Option<usize>> {
    (0..=n).map(Some).chain([None]).collect()
}

/// Values increasing with the rank.
fn scaled(scale: usize, rank: usize) -> f64 {
    let r = rank as f64;
    match scale {
        0 => r,
        1 => -1e6 + r,
        2 => 1e9 * (r - 3.5),
        3 => 1e-9 * r,
        4 => -250000.0 + 1e-7 * r,
        // neighbouring numbers
        5 => f64::from_bits(1.5f64.to_bits() + rank as u64),
        6 => f64::from_bits((-1.5f64).to_bits() - rank as u64),
        7 => -(10f64.powi(8 - 4 * rank as i32)),
        8 => 1e300 * (r - 3.5),
        _ => -1e-300 * (8.0 - r),
    }
}

pub fn c17(ctx: &mut Ctx) {
    ctx.assume("scores are finite and deterministic, as functions of the variable and the parent set");
    let quick = ctx.quick();
    let orders4 = permutations(4);
    let orders4 = &orders4;
    ctx.family("1 and 2 variables", "both orders of the two parent sets of each of 2 variables, limits 0..2 and none, both graphs", 4 * 4 * 4 + 2, |c, l| {
        if c >= 64 {
            return strict(&[3], 0, [None, Some(0)][c - 64], &|_, _| -3.0, l);
        }
        l.state(&c);
        strict(&[2, 3], c / 16, limits(2)[c / 4 % 4], &|v, ps: &Set| if (c >> v & 1 == 1) == ps.is_empty() { -1.0 } else { -2.0 }, l)
    });
    ctx.family("3 variables, all orders", "all 24 strict orders of the 4 parent sets for each of the 3 variables (13824), limits 0..3 and none; the 64 graphs before learning in turn", 13824 * 5, |c, l| {
        let o = digits(c % 13824, &[24, 24, 24]);
        let limit = limits(3)[c / 13824];
        l.state(&(&o, limit));
        strict(&[[2, 2, 2], [2, 3, 4]][c % 2], c * 7, limit, &|v, ps| orders4[o[v]][squeeze(v, mask_of(ps))] as f64, l)
    });
    ctx.family("3 variables, scales", "all 24 strict orders, the values on 10 scales (large offsets, neighbouring numbers, tiny and huge differences), limits 0..3 and none", 24 * 24 * 10 * 5, |c, l| {
        let d = digits(c, &[24, 24, 10, 5]);
        l.state(&d);
        strict(&[2, 2, 2], c, limits(3)[d[3]], &|v, ps| scaled(d[2], orders4[[d[0], d[1], (d[0] * 5 + d[1]) % 24][v]][squeeze(v, mask_of(ps))]), l)
    });
    ctx.family("4 variables, all orders", "all 40320 strict orders of the 8 parent sets of a variable, the four variables running through them differently, limits 0..4 and none; the 4096 graphs before learning in turn", 40320 * ctx.pick(12, 36), |c, l| {
        let (o, r) = (c % 40320, c / 40320);
        let k: Vec<Vec<usize>> = (0..4).map(|v| permutation(8, (o * [1, 11, 13, 17][(v + r / 6) % 4] + v * 7919 * (1 + r / 6)) % 40320)).collect();
        let limit = limits(4)[r % 6];
        l.state(&(o, r));
        strict(&[2, 2, 3, 2], c * 5, limit, &|v, ps| scaled(r / 6, k[v][squeeze(v, mask_of(ps))]), l)
    });
    // More variables: main effects and interactions of pairs.
    ctx.family("5 variables, interactions", "all main effects in {-2,1,3} of the 4 candidates and all interactions in {-4,0,4} of their 6 pairs (one in 5 of them in the quick tier), limits 0..5 and none in turn", ctx.pick(81 * 729 / 5, 81 * 729 * 7), |c, l| {
        let (x, r) = if quick { (c * 5 + c % 5, c % 7) } else { (c % (81 * 729), c / (81 * 729)) };
        let limit = limits(5)[(x + r) % 7];
        let score = |v: usize, ps: &Set| {
            let d = digits(x * (2 * v + 1) % (81 * 729), &[3; 10]);
            let m = squeeze(v, mask_of(ps));
            let mut s = 1e-6 * (((m * 7 + v * 3) % 16) as f64 - 8.0);
            let mut k = 4;
            for i in 0..4 {
                if m >> i & 1 == 1 {
                    s += [-2.0, 1.0, 3.0][d[i]];
                }
                for j in 0..i {
                    if m >> i & 1 == 1 && m >> j & 1 == 1 {
                        s += [-4.0, 0.0, 4.0][d[k]];
                    }
                    k += 1;
                }
            }
            s
        };
        l.state(&(x, limit));
        strict(&[2, 2, 2, 2, 2], c, limit, &score, l)
    });
    ctx.family("6..12 variables", "scores of the number of true parents, of their parity, and hashed scores, limits none and 0..11", 7 * 13 * ctx.pick(6, 200), |c, l| {
        let d = digits(c, &[7, 13, 1 << 20]);
        let n = 6 + d[0];
        let limit = if d[1] == 12 { None } else { Some(d[1]) };
        let cards: Vec<usize> = (0..n).map(|v| 2 + (v + c) % 2).collect();
        let truth: Vec<usize> = (0..n).map(|v| (fnv(&(v, d[2])) as usize) & ((1 << n) - 1) & !(1 << v)).collect();
        let score = |v: usize, ps: &Set| {
            let m = mask_of(ps);
            let tie = (fnv(&(m, v, d[2])) >> 12) as f64 / (1u64 << 52) as f64;
            match d[2] % 3 {
                0 => 2.0 * (m & truth[v]).count_ones() as f64 - 3.0 * (m & !truth[v]).count_ones() as f64 + tie,
                1 => 5.0 * (m.count_ones() % 2) as f64 + tie,
                _ => tie,
            }
        };
        l.state(&d);
        // (graphs on that many variables are not numbered: 3 of the nodes suffice)
        let s = Scores::new(&score);
        let net = HillClimbing::new(s, limit).fit_transform(carrier_large(&cards, c), &dummy(n));
        labels_kept(&net, &cards)?;
        let all = all_parents(&net);
        for v in 0..n {
            ensure!(all[v] >> v & 1 == 0, "{} is its own parent", v);
            ensure!(limit.is_none_or(|k| all[v].count_ones() as usize <= k), "{} has the parents {:?}, the limit being {:?}", v, mask(all[v]), limit);
            local_optimum(n, v, all[v], limit, &score)?;
            if d[2] % 3 == 0 && limit.is_none() {
                ensure!(all[v] == truth[v], "the parents of {} are {:?} instead of {:?}", v, mask(all[v]), mask(truth[v]));
            }
        }
        l.step(n as u64);
        l.trace();
        l.outcome(&all);
        Ok(())
    });
    let sizes: &[usize] = ctx.pick(&[13, 17, 33, 40, 65, 70, 130, 257][..], &[13, 16, 17, 31, 32, 33, 40, 63, 64, 65, 66, 70, 100, 128, 129, 130, 256, 257, 300][..]);
    let reps = ctx.pick(3, 30);
    ctx.family("many variables", "13 to 257 (300) variables with up to 6 true parents far apart, limits none, 0, 2, 4 and 300: gains of true and losses of false parents of different sizes: all the true parents, or as many as fit", sizes.len() * reps * 5, |c, l| {
        let d = digits(c, &[sizes.len(), reps, 5]);
        let (n, r) = (sizes[d[0]], d[1]);
        let limit = [None, Some(0), Some(2), Some(4), Some(300)][d[2]];
        let cards: Vec<usize> = (0..n).map(|v| 2 + (v + c) % 2).collect();
        let truth: Vec<Set> = (0..n).map(|v| (0..(v + r) % 7).map(|i| [v + 1, v + n / 2, v + n - 2, v + 33, v + 64, v + 10 * n - 31, v + 128][(i * 3 + v + r) % 7] % n).filter(|p| *p != v).collect()).collect();
        let gain = |v: usize, p: usize| if truth[v].contains(&p) { 1.0 + ((p * 37 + v) % n) as f64 / n as f64 } else { -0.5 - ((p * 31 + v) % n) as f64 / n as f64 };
        let score = |v: usize, ps: &Set| -1000.0 + ps.iter().map(|p| gain(v, *p)).sum::<f64>();
        let s = Scores::new(&score);
        let net = HillClimbing::new(s, limit).fit_transform(carrier_large(&cards, c), &dummy(n));
        labels_kept(&net, &cards)?;
        for v in 0..n {
            let got = net.get_parent_set(v);
            let most = truth[v].len().min(limit.unwrap_or(n));
            ensure!(got.is_subset(&truth[v]) && got.len() == most, "{} variables, limit {:?}: parents of {} are {:?} instead of {} of {:?}", n, limit, v, got, most, truth[v]);
        }
        l.state(&d);
        l.step(n as u64);
        l.trace();
        l.outcome(&(d[2], truth.iter().map(|t| t.len()).sum::<usize>()));
        Ok(())
    });
    // Limits of every size: those which no set reaches are none.
    const LARGE: [usize; 14] = [127, 128, 254, 255, 256, 257, 258, 65_535, 65_536, 65_537, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX];
    let lw: Vec<(usize, usize)> = ctx.pick(&[(130, 127), (130, 128), (260, 255), (260, 256), (260, 257)][..], &[(130, 127), (130, 128), (130, 129), (260, 254), (260, 255), (260, 256), (260, 257), (260, 258), (520, 511), (520, 513)][..]).to_vec();
    let lw = &lw;
    ctx.family("limits of every size", "limits of 127, 128, 254 to 258, 65535 to 65537, 2^32 to the largest number: on 2..7 variables with scores of the number of parents, of true parents and hashed ones, the parents are those found without a limit; on 130 and 260 (520) variables as many as the limit says", LARGE.len() * 6 * 9 + lw.len(), |c, l| {
        if c >= LARGE.len() * 54 {
            let (n, k) = lw[c - LARGE.len() * 54];
            let cards = vec![2; n];
            let at = [0, n / 2, n - 1];
            let gain = |v: usize, p: usize| 1.0 + ((p * 37 + v) % n) as f64 / 1024.0;
            let score = |v: usize, ps: &Set| if at.contains(&v) { ps.iter().map(|p| gain(v, *p)).sum::<f64>() } else { -(ps.len() as f64) };
            let s = Scores::new(&score);
            let net = HillClimbing::new(s, Some(k)).fit_transform(carrier_large(&cards, c), &dummy(n));
            for v in 0..n {
                let (got, want) = (net.get_parent_set(v).len(), if at.contains(&v) { k.min(n - 1) } else { 0 });
                ensure!(got == want, "{} variables, limit {}: {} has {} parents instead of {}", n, k, v, got, want);
            }
            l.state(&(n, k));
            l.step((n * k) as u64);
            l.trace();
            return Ok(());
        }
        let d = digits(c, &[LARGE.len(), 6, 9]);
        let (limit, n, r) = (LARGE[d[0]], 2 + d[1], d[2]);
        let cards: Vec<usize> = (0..n).map(|v| 2 + (v + c) % 2).collect();
        let score = |v: usize, ps: &Set| {
            let m = mask_of(ps);
            let tie = (fnv(&(m, v, r)) >> 12) as f64 / (1u64 << 52) as f64;
            match r % 3 {
                0 => m.count_ones() as f64,
                1 => 2.0 * (m & (r * 11 + v * 5)).count_ones() as f64 - m.count_ones() as f64 + 0.1 * tie,
                _ => tie,
            }
        };
        l.state(&d);
        let parents = |limit: Option<usize>| {
            let s = Scores::new(&score);
            let net = HillClimbing::new(s, limit).fit_transform(carrier_large(&cards, c), &dummy(n));
            (0..n).map(|v| net.get_parent_set(v)).collect::<Vec<Set>>()
        };
        let (got, want) = (parents(Some(limit)), parents(None));
        ensure!(got == want, "{} variables: with the limit {} the parents are {:?}, without {:?}", n, limit, got, want);
        if r % 3 == 0 {
            ensure!(got.iter().all(|p| p.len() == n - 1), "{} variables, limit {}: parents {:?}, more being better", n, limit, got);
        }
        l.step(2 * n as u64);
        l.trace();
        l.outcome(&(n, r, got.iter().map(|p| p.len()).collect::<Vec<_>>()));
        Ok(())
    });
    // Climbs of many steps: only one change is ever better.
    let snakes: Vec<(usize, Vec<usize>)> = (0..60).map(|c| (3 + c / 4 % 7 + c / 28 * 2, c % 4)).map(|(bits, order)| (bits, snake(bits, order))).collect();
    let sr = &snakes;
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    ctx.family("long climbs", "4 to 12 variables, the score rising along an induced path of the hypercube of parent sets (up to hundreds of additions and removals), below it elsewhere: the end of the path, or the last set before the limit; chains of up to 130 (one of 1100) additions against the order of the variables", snakes.len() * 4 + 7, |c, l| {
        if c >= sr.len() * 4 {
            // parent i counts if all the later ones are there
            let x = c - sr.len() * 4;
            let (k, rev) = if x == 6 { (1100, true) } else { ([16, 64, 130][x % 3], c % 2 == 0) };
            let n = k + 2;
            let cards = vec![2; n];
            let climbs = |v: usize| if k > 1000 { v == 3 } else { v % 16 == 3 };
            let score = |v: usize, ps: &Set| {
                if !climbs(v) {
                    return -(ps.len() as f64);
                }
                let chain = if rev {
                    (0..n).rev().filter(|p| *p != v).take_while(|p| ps.contains(p)).count()
                } else {
                    (0..n).filter(|p| *p != v).take_while(|p| ps.contains(p)).count()
                };
                chain as f64 - 2.0 * (ps.len() - chain) as f64
            };
            let s = Scores::new(&score);
            let net = HillClimbing::new(s, None).fit_transform(carrier_large(&cards, c), &dummy(n));
            labels_kept(&net, &cards)?;
            for v in 0..n {
                let want: Set = if climbs(v) { (0..n).filter(|p| *p != v).collect() } else { Set::new() };
                ensure!(net.get_parent_set(v) == want, "{} variables: parents of {} are {:?} instead of {:?}", n, v, net.get_parent_set(v), want);
            }
            l.state(&(k, rev));
            l.step((k * k) as u64);
            l.trace();
            return Ok(());
        }
        let ((bits, path), r) = (&sr[c / 4], c % 4);
        let n = bits + 1;
        let cards = vec![2; n];
        let top = path.iter().map(|m| m.count_ones() as usize).max().unwrap();
        let limit = [None, Some(top), Some(top - 1), Some(1)][r];
        let at: std::collections::HashMap<usize, usize> = path.iter().enumerate().map(|(i, m)| (*m, i)).collect();
        let end = path.iter().take_while(|m| limit.is_none_or(|k| m.count_ones() as usize <= k)).last().unwrap();
        let score = |v: usize, ps: &Set| {
            let m = squeeze(v, mask_of(ps));
            match at.get(&m) {
                Some(i) => 0.001 * *i as f64 - 5.0,
                None => -6.0 - (fnv(&m) % 1000) as f64,
            }
        };
        let all = climb(&cards, 0, limit, &score, l)?;
        if verbose && r == 0 {
            eprintln!("climb of {} steps on {} variables", path.len() - 1, n);
        }
        for v in 0..n {
            ensure!(squeeze(v, all[v]) == *end, "{} variables, limit {:?}: the search of {} stops at step {:?} of {}", n, limit, v, at.get(&squeeze(v, all[v])), path.iter().position(|m| m == end).unwrap());
        }
        l.state(&(c, end));
        l.step((path.len() * n) as u64);
        l.outcome(&all);
        Ok(())
    });
    // The scores of one variable do not matter to another one.
    ctx.family("own score", "all 24 orders for one variable of 3, those of the others replaced by 24 x 24 other ones: the same parents", 3 * 24 * 24, |c, l| {
        let d = digits(c, &[3, 24, 24]);
        let run = |o: [usize; 3], l: &mut Loc| climb(&[2, 2, 2], c, Some(2), &|v, ps: &Set| orders4[o[v]][squeeze(v, mask_of(ps))] as f64, l);
        let mut o = [d[2]; 3];
        o[d[0]] = d[1];
        let base = run([d[1]; 3], l)?;
        let got = run(o, l)?;
        ensure!(got[d[0]] == base[d[0]], "the parents of {} are {:?} or {:?} depending on the scores of the other variables", d[0], mask(base[d[0]]), mask(got[d[0]]));
        l.state(&d);
        Ok(())
    });
    // Ties.
    ctx.family("ties, 3 variables", "all scores with values 0..2 of the 4 parent sets of each variable (81, all triples in the thorough tier), limits 0..3 and none", 5 * ctx.pick(81 * 81, 81 * 81 * 81), |c, l| {
        let (k, x) = (c % 5, c / 5);
        let o = [x % 81, x / 81 % 81, if x < 81 * 81 { (x * 5 + x / 81 * 3) % 81 } else { x / 81 / 81 }];
        l.state(&(k, o));
        let all = climb(&[2, 3, 2], c, limits(3)[k], &|v, ps: &Set| (o[v] / 3usize.pow(squeeze(v, mask_of(ps)) as u32) % 3) as f64, l)?;
        l.outcome(&(k, all));
        Ok(())
    });
    ctx.family("ties, 4 variables", "all scores with values 0..2 of the 8 parent sets of a variable (6561), the variables running through them differently, limits 0..4 and none", 6561 * 6, |c, l| {
        let (k, x) = (c % 6, c / 6);
        l.state(&(k, x));
        let all = climb(&[2, 2, 2, 2], c, limits(4)[k], &|v, ps: &Set| (x * [1, 5, 7, 11][v] % 6561 / 3usize.pow(squeeze(v, mask_of(ps)) as u32) % 3) as f64 * 1e3 - 1e5, l)?;
        l.outcome(&(k, all));
        Ok(())
    });
    ctx.family("ties, 5 variables", "all 65536 scores with values 0..1 of the 16 parent sets of a variable (one in 8 in the quick tier), limits 0..5 and none in turn", ctx.pick(8192, 65536 * 7), |c, l| {
        let x = if quick { c * 8 + c % 8 } else { c % 65536 };
        let limit = limits(5)[(c + c / 65536) % 7];
        l.state(&(x, limit));
        let all = climb(&[2; 5], c, limit, &|v, ps: &Set| (x * (2 * v + 1) % 65536 >> squeeze(v, mask_of(ps)) & 1) as f64, l)?;
        l.outcome(&(limit, all));
        Ok(())
    });
    // The scores of the library.
    ctx.family("scores of data", "sampled data of 5 networks of 3..4 variables and short walks; log-likelihood and BIC with 3 pairs of pseudo counts and times, limits 0..4 and none", ctx.pick(60, 3000), |c, l| {
        let (cards, d) = sampled(c);
        let n = cards.len();
        let ds = dataset(&d);
        for (alpha, tau) in [(1, 1.0), (1, 0.01), (5, 10.0)] {
            for limit in limits(n) {
                for bic in [false, true] {
                    let base = carrier(&cards, 0);
                    let score = |v: usize, ps: &Set| if bic { BIC::new(alpha, tau).call(&base, v, ps, &ds) } else { LogLikelihood::new(alpha, tau).call(&base, v, ps, &ds) };
                    let net = if bic {
                        HillClimbing::new(BIC::new(alpha, tau), limit).fit_transform(carrier(&cards, c), &ds)
                    } else {
                        HillClimbing::new(LogLikelihood::new(alpha, tau), limit).fit_transform(carrier(&cards, c), &ds)
                    };
                    labels_kept(&net, &cards)?;
                    let all = all_parents(&net);
                    for v in 0..n {
                        ensure!(limit.is_none_or(|k| all[v].count_ones() as usize <= k), "{} has the parents {:?}, the limit being {:?}", v, mask(all[v]), limit);
                        let values: Vec<f64> = super::learning::parent_sets(n, v).iter().map(|s| score(v, s)).collect();
                        let got = score(v, &mask(all[v]));
                        ensure!(got >= values[0] - 1e-9 * values[0].abs(), "data {}: the parents {:?} of {} score {} , none {}", c, mask(all[v]), v, got, values[0]);
                        let ties = values.iter().enumerate().any(|(i, a)| values[..i].iter().any(|b| close(*a, *b, 1e-9)));
                        if !ties {
                            local_optimum(n, v, all[v], limit, &score).map_err(|e| format!("data {}, alpha {} tau {} BIC {}: {}", c, alpha, tau, bic, e))?;
                        }
                    }
                    l.outcome(&(bic, limit, &all));
                    l.step(n as u64);
                    l.trace();
                }
            }
        }
        l.state(&c);
        Ok(())
    });
    ctx.sample("3 variables, variable 1 ranks {} < {0,2} < {0} < {2}; limit 1".into());
}


/// An induced path from the empty set, extended by the first bit that keeps it so.
fn snake(bits: usize, order: usize) -> Vec<usize> {
    let mut path = vec![0usize];
    let mut near = vec![0u32; 1 << bits];
    let touch = |near: &mut Vec<u32>, m: usize| (0..bits).for_each(|b| near[m ^ 1 << b] += 1);
    touch(&mut near, 0);
    loop {
        let m = *path.last().unwrap();
        let i = path.len();
        let next = (0..bits)
            .map(|b| match order {
                0 => b,
                1 => bits - 1 - b,
                2 => (b + i) % bits,
                _ => (b * 3 + i * 5) % bits,
            })
            .map(|b| m ^ 1 << b)
            .find(|x| near[*x] == 1 && !path.contains(x));
        match next {
            Some(x) => {
                path.push(x);
                touch(&mut near, x);
            }
            None => return path,
        }
    }
}

pub fn carrier_large(cards: &[usize], g: usize) -> CtbnNetwork {
    let n = cards.len();
    let parents = (0..n).map(|v| (0..n).filter(|p| p != &v && fnv(&(g, v, p)) % 3 == 0).collect()).collect();
    Net { cards: cards.to_vec(), parents, cims: vec![] }.build_structure()
}
