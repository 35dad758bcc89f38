//! C18 the schedules of structure learning.

use super::independence::{dummy, labels_kept, level_table, mask_of, sampled, squeeze, Table};
use super::learning::carrier;
use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::sched::schedules;
use rayon_core::control;
use reCTBN::parameter_learning::{BayesianApproach, ParameterLearning, MLE};
use reCTBN::params::Params;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::NetworkProcess;
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::Dataset;
use std::sync::Mutex;

/// The requests made.
#[derive(Default)]
struct Log(Mutex<Vec<(usize, usize)>>);
impl Log {
    /// A scheduling point before and after the request is registered.
    fn request(&self, node: usize, ps: &Set) {
        control::point();
        self.0.lock().unwrap().push((node, mask_of(ps)));
    }
    /// Per variable, whatever the interleaving.
    fn of(&self, n: usize) -> Vec<Vec<usize>> {
        let log = self.0.lock().unwrap();
        (0..n)
            .map(|v| {
                let mut r: Vec<usize> = log.iter().filter(|x| x.0 == v).map(|x| x.1).collect();
                r.sort();
                r
            })
            .collect()
    }
}

/// A table of scores, or an inner score, with a scheduling point at every call.
struct Scored<'a, S> {
    inner: S,
    log: &'a Log,
    /// yield after the computation as well
    after: bool,
}
impl<S: ScoreFunction> ScoreFunction for Scored<'_, S> {
    fn call<T: NetworkProcess>(&self, net: &T, node: usize, ps: &Set, ds: &Dataset) -> f64 {
        self.log.request(node, ps);
        let x = self.inner.call(net, node, ps, ds);
        if self.after {
            control::point();
        }
        x
    }
}
struct Fitted<'a, P> {
    inner: P,
    log: &'a Log,
    after: bool,
}
impl<P: ParameterLearning> ParameterLearning for Fitted<'_, P> {
    fn fit<T: NetworkProcess>(&self, net: &T, ds: &Dataset, node: usize, ps: Option<Set>) -> Params {
        self.log.request(node, ps.as_ref().unwrap());
        let x = self.inner.fit(net, ds, node, ps);
        if self.after {
            control::point();
        }
        x
    }
}
struct TableScore<G: Fn(usize, &Set) -> f64 + Sync>(G);
impl<G: Fn(usize, &Set) -> f64 + Sync> ScoreFunction for TableScore<G> {
    fn call<T: NetworkProcess>(&self, _: &T, node: usize, ps: &Set, _: &Dataset) -> f64 {
        (self.0)(node, ps)
    }
}

/// What is learned.
#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    /// Hill climbing on a score with its maximum at a different parent set for each variable.
    Score(usize),
    /// Hill climbing on a score with additions and removals.
    Rough(usize),
    Ll,
    Bic,
    /// CTPC with estimates given by a pattern of dependences.
    Pattern(usize),
    Mle,
    Bayes,
}

/// The parent sets and requests of one run.
type Learned = (Vec<usize>, Vec<Vec<usize>>);

fn learn(what: What, n: usize, cards: &[usize], ds: &Dataset, g: usize, after: bool) -> Result<Learned, String> {
    let log = Log::default();
    let net = carrier(cards, g);
    // the true parents of each variable: different ones, of different sizes
    let truth = |v: usize, r: usize| (0b1010_1101usize.rotate_left((r + 3 * v) as u32) ^ v) & ((1 << n) - 1) & !(1 << v);
    let (f, chi) = (F::new(0.01), ChiSquare::new(0.01));
    let net: CtbnNetwork = match what {
        What::Score(r) => {
            let s = TableScore(move |v: usize, ps: &Set| {
                let m = mask_of(ps);
                let t = (0b1010_1101usize.rotate_left((r + 3 * v) as u32) ^ v) & ((1 << n) - 1) & !(1 << v);
                (m & t).count_ones() as f64 - 1.5 * (m & !t).count_ones() as f64
            });
            HillClimbing::new(Scored { inner: s, log: &log, after }, None).fit_transform(net, ds)
        }
        What::Rough(r) => {
            let s = TableScore(move |v: usize, ps: &Set| (fnv(&(r, v, squeeze(v, mask_of(ps)))) >> 40) as f64);
            HillClimbing::new(Scored { inner: s, log: &log, after }, Some(1 + r % 3)).fit_transform(net, ds)
        }
        What::Ll => HillClimbing::new(Scored { inner: LogLikelihood::new(1, 1.0), log: &log, after }, None).fit_transform(net, ds),
        What::Bic => HillClimbing::new(Scored { inner: BIC::new(1, 1.0), log: &log, after }, Some(2)).fit_transform(net, ds),
        What::Pattern(r) => {
            let pl = super::independence::Given(|v: usize, ps: &Set| -> Table { level_table(cards, v, ps, 2.5f64.powi((mask_of(ps) & truth(v, r)).count_ones() as i32), 1, 600) });
            CTPC::new(Fitted { inner: pl, log: &log, after }, f, chi).fit_transform(net, ds)
        }
        What::Mle => CTPC::new(Fitted { inner: MLE {}, log: &log, after }, f, chi).fit_transform(net, ds),
        What::Bayes => CTPC::new(Fitted { inner: BayesianApproach { alpha: 1, tau: 1.0 }, log: &log, after }, f, chi).fit_transform(net, ds),
    };
    labels_kept(&net, cards)?;
    let sets: Vec<usize> = (0..n).map(|v| mask_of(&net.get_parent_set(v))).collect();
    if let What::Score(r) | What::Pattern(r) = what {
        for v in 0..n {
            ensure!(sets[v] == truth(v, r), "the parents of {} are {:?} instead of {:?}", v, mask(sets[v]), mask(truth(v, r)));
        }
    }
    Ok((sets, log.of(n)))
}

/// Cardinalities and data for the learners that use them.
fn input(what: What, n: usize) -> (Vec<usize>, Dataset) {
    if matches!(what, What::Ll | What::Bic | What::Mle | What::Bayes) {
        // sampled data 1, 6, 11... is of 3 variables, 2, 7, 12... of 4
        let (cards, d) = sampled(if n == 3 { 11 } else { 12 });
        return (cards, dataset(&d));
    }
    ([2, 3, 2, 3, 2, 2].iter().cycle().take(n).copied().collect(), dummy(n))
}

fn same(got: &Learned, want: &Learned) -> Res {
    ensure!(got.0 == want.0, "the parent sets are {:?} instead of {:?} in the sequential run", got.0.iter().map(|m| mask(*m)).collect::<Vec<_>>(), want.0.iter().map(|m| mask(*m)).collect::<Vec<_>>());
    ensure!(got.1 == want.1, "the requests for each variable are {:?} instead of {:?} in the sequential run", got.1, want.1);
    Ok(())
}

pub fn c18(ctx: &mut Ctx) {
    ctx.assume("the interleavings explored switch at the calls of the score or of the parameter learner, when a part of the work is handed to another thread, when one ends and when one is waited for; between these points the code under test takes part in no communication unless through std or the allocator");
    ctx.assume("rayon-core is replaced by a copy whose join is controlled; the division of the work is the one made by rayon for the stated number of threads");
    let mut cases: Vec<(What, usize, usize, usize, bool)> = vec![];
    let t = ctx.pick(0, 1);
    for threads in ctx.pick(vec![1, 2, 8], vec![1, 2, 3, 8, 64]) {
        let kinds = |r: usize| [What::Score(r), What::Rough(r), What::Pattern(r)];
        // one variable; two variables: every interleaving
        for what in kinds(0) {
            cases.push((what, 1, threads, 9, true));
            cases.push((what, 2, threads, 4 + t, true));
        }
        for r in 0..ctx.pick(2, 6) {
            for what in kinds(r) {
                cases.push((what, 3, threads, if matches!(what, What::Score(_)) { 2 + t } else { 2 }, r % 2 == 1));
            }
        }
        for what in [What::Ll, What::Bic, What::Mle, What::Bayes] {
            cases.push((what, 3, threads, 1 + t, false));
            cases.push((what, 4, threads, 1, false));
        }
        for r in 0..ctx.pick(1, 4) {
            for what in kinds(r) {
                cases.push((what, 4, threads, 1 + t * (r % 2), false));
                cases.push((what, 5, threads, 1, false));
                cases.push((what, 6, threads, 0, false));
            }
        }
    }
    let cases = &cases;
    let max = ctx.pick(100_000, 20_000_000);
    ctx.family_hang("schedules", "both learners on given scores and estimates and on data; 1..6 variables, 1, 2 and 8 (3 and 64) threads; every division of the work (each join stolen or not); at the calls of the score or the parameter learner every preemption, at most 4 (5) for 2 variables, 2 (3) for 3, 1 (2) for 4, 1 for 5, 0 for 6 (thorough tier in parentheses)", cases.len(), 120, |c, l| {
        let (what, n, threads, preemptions, after) = cases[c];
        let (cards, ds) = input(what, n);
        let n = cards.len();
        // the sequential run
        let (want, _) = control::run(1, false, 0, &[], || learn(what, n, &cards, &ds, 0, after));
        let want = want.map_err(|e| format!("{:?}: {}", what, panic_text(&e)))??;
        let stats = schedules(l, threads, preemptions, max, || learn(what, n, &cards, &ds, c, after), |r, t, l| {
            l.outcome(&(c, t.stolen, t.preemptions));
            r.and_then(|r| r).and_then(|got| same(&got, &want)).map_err(|e| format!("{:?} with {} variables and {} threads: {}", what, n, threads, e))
        })?;
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:?} {} variables {} threads {} preemptions: {} schedules, {} stolen, {} preemptions {}", what, n, threads, preemptions, stats.schedules, stats.stolen, stats.preemptions, stats.capped);
        }
        Ok(())
    });
    let ctx_sizes: &[usize] = ctx.pick(&[16, 17, 40, 65, 130][..], &[16, 17, 40, 64, 65, 130, 257, 300][..]);
    // Real pools as well: the scheduler of rayon itself.
    ctx.family("pools of rayon", "as above on real thread pools of 1, 2, 3, 5, 8 and 13 threads, alone and 4 learners at a time in one pool (supplement, not exhaustive)", 6 * 7 * ctx.pick(4, 100), |c, l| {
        let d = digits(c, &[6, 7, 1000]);
        let what = [What::Score(d[2]), What::Rough(d[2]), What::Ll, What::Bic, What::Pattern(d[2]), What::Mle, What::Bayes][d[1]];
        let (cards, ds) = input(what, 3 + d[2] % 2);
        let n = cards.len();
        let (want, _) = control::run(1, false, 0, &[], || learn(what, n, &cards, &ds, 0, false));
        let want = want.map_err(|e| panic_text(&e))??;
        let pool = rayon_core::ThreadPoolBuilder::new().num_threads([1, 2, 3, 5, 8, 13][d[0]]).build().map_err(|e| e.to_string())?;
        same(&pool.install(|| learn(what, n, &cards, &ds, c, false))?, &want)?;
        let results: Vec<Mutex<Option<Result<Learned, String>>>> = (0..4).map(|_| Mutex::new(None)).collect();
        pool.scope(|s| {
            for (i, r) in results.iter().enumerate() {
                let (cards, ds) = (&cards, &ds);
                s.spawn(move |_| *r.lock().unwrap() = Some(learn(what, n, cards, ds, c + i, false)));
            }
        });
        for r in results {
            same(&r.into_inner().unwrap().unwrap()?, &want)?;
        }
        l.step(5);
        l.trace();
        l.state(&d);
        l.outcome(&want.0);
        Ok(())
    });
    ctx.family("many variables in pools", "both learners on 16 to 130 (300) variables with up to 4 true parents each, on thread pools of 1, 2, 3, 8 and 13 threads: the true parents (supplement, not exhaustive)", 5 * ctx.pick(5, 8) * 2, |c, l| {
        let d = digits(c, &[5, ctx_sizes.len(), 2]);
        let n = ctx_sizes[d[1]];
        let cards: Vec<usize> = (0..n).map(|v| 2 + v % 2).collect();
        let truth: Vec<Set> = (0..n).map(|v| (0..v % 5).map(|i| [v + 1, v + n / 2, v + n - 2, v + 33, v + 64][(i * 3 + v) % 5] % n).filter(|p| *p != v).collect()).collect();
        let pool = rayon_core::ThreadPoolBuilder::new().num_threads([1, 2, 3, 8, 13][d[0]]).build().map_err(|e| e.to_string())?;
        let net = super::search::carrier_large(&cards, c);
        let ds = dummy(n);
        let net = pool.install(|| {
            if d[2] == 0 {
                let s = TableScore(|v: usize, ps: &Set| ps.iter().map(|p| if truth[v].contains(p) { 1.0 } else { -1.5 }).sum());
                HillClimbing::new(s, None).fit_transform(net, &ds)
            } else {
                let pl = super::independence::Given(|v: usize, ps: &Set| level_table(&cards, v, ps, 2.5f64.powi(ps.intersection(&truth[v]).count() as i32), 1, 600));
                CTPC::new(pl, F::new(0.01), ChiSquare::new(0.01)).fit_transform(net, &ds)
            }
        });
        labels_kept(&net, &cards)?;
        for v in 0..n {
            ensure!(net.get_parent_set(v) == truth[v], "{} variables: parents of {} are {:?} instead of {:?}", n, v, net.get_parent_set(v), truth[v]);
        }
        l.step(n as u64);
        l.trace();
        l.state(&d);
        l.outcome(&(n, d[2]));
        Ok(())
    });
    ctx.sample("CTPC on 3 variables, 2 threads: variables 0 | 1,2 divided, the second half stolen, preempted at its third request".into());
}
