//! C10 random graphs, C11 random parameters.

use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::rng::*;
use ndarray::Array3;
use reCTBN::params::ParamsTrait;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use reCTBN::tools::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------------------------------ C10

/// The edges of the network as seen from every side.
fn edges(net: &CtbnNetwork) -> Result<BTreeSet<(usize, usize)>, String> {
    let mut e = BTreeSet::new();
    for v in net.get_node_indices() {
        for p in net.get_parent_set(v) {
            e.insert((p, v));
        }
    }
    let mut c = BTreeSet::new();
    for v in net.get_node_indices() {
        for x in net.get_children_set(v) {
            c.insert((v, x));
        }
    }
    ensure!(e == c, "parents say {:?}, children say {:?}", e, c);
    ensure!(e.iter().all(|(a, b)| a != b), "self-loop in {:?}", e);
    Ok(e)
}

fn empty_net(n: usize) -> CtbnNetwork {
    Net { cards: (0..n).map(|i| 2 + i % 3).collect(), parents: vec![Set::new(); n], cims: vec![] }.build_structure()
}

fn code(n: usize, e: &BTreeSet<(usize, usize)>) -> u64 {
    e.iter().map(|(a, b)| 1u64 << (a * n + b)).sum()
}
fn all_pairs(n: usize) -> Vec<(usize, usize)> {
    (0..n).flat_map(|a| (0..n).filter(move |b| a != *b).map(move |b| (a, b))).collect()
}

pub fn c10(ctx: &mut Ctx) {
    ctx.assume("the generator is a stream of independent uniform 64-bit draws; the density is a multiple of the grid step, which makes the enumerated law exact");
    // Joint law of all the edges.
    let mut cases: Vec<(usize, usize, usize)> = vec![]; // nodes, cells, numerator
    for k in 0..=16 {
        cases.push((2, 16, k));
    }
    for k in 0..=ctx.pick(8, 12) {
        cases.push((3, ctx.pick(8, 12), k));
    }
    for k in 0..=ctx.pick(3, 4) {
        cases.push((4, ctx.pick(3, 4), k));
    }
    for k in 0..=2 {
        cases.push((5, 2, k));
    }
    for n in 0..=1 {
        for k in 0..=2 {
            cases.push((n, 2, k));
        }
    }
    ctx.family("joint law of the edges", "0..5 nodes; densities k/16 (2 nodes), k/8 (k/12) (3 nodes), k/3 (k/4) (4 nodes), k/2 (5 nodes); complete tree of one draw per ordered pair", cases.len(), |c, l| {
        let (n, cells, k) = cases[c];
        let density = k as f64 / cells as f64;
        let pairs = all_pairs(n);
        let alphabet = vec![grid(cells); pairs.len()];
        let mut law: BTreeMap<u64, f64> = BTreeMap::new();
        let mut net = empty_net(n);
        tree(&alphabet, || {
            let mut g = UniformGraphGenerator::new(density, Some(3));
            g.generate_graph(&mut net);
            edges(&net)
        }, |e, p, _| {
            let e = e?;
            *law.entry(code(n, &e)).or_insert(0.0) += p;
            l.step(pairs.len() as u64);
            l.trace();
            Ok(())
        })?;
        for m in 0..1u64 << pairs.len() {
            let e: BTreeSet<(usize, usize)> = pairs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| *x).collect();
            let w = density.powi(e.len() as i32) * (1.0 - density).powi((pairs.len() - e.len()) as i32);
            let g = law.get(&code(n, &e)).copied().unwrap_or(0.0);
            ensure!((g - w).abs() < 1e-9, "{} nodes, density {}: the graph {:?} has probability {:.6} instead of {:.6}", n, density, e, g, w);
        }
        for x in law.keys() {
            l.state(&(n, x));
            l.outcome(&(n, x));
        }
        Ok(())
    });

    // The threshold itself, at a fine resolution, for every pair of larger graphs.
    let densities: Vec<f64> = vec![0.0, 1e-9, 0.001, 0.01, 0.1, 0.25, 1.0 / 3.0, 0.499, 0.5, 0.501, 0.75, 0.9, 0.99, 0.999, 1.0 - 1e-9, 1.0];
    let cells = ctx.pick(1 << 10, 1 << 15);
    let densities = &densities;
    ctx.family("threshold", "16 densities, 1024 (32768) outcomes of the draw of one pair, for 2, 3 and 5 nodes and every pair; the edge is drawn with the given density, the others are unaffected", 3 * densities.len(), |c, l| {
        let (n, density) = ([2, 3, 5][c % 3], densities[c / 3]);
        let pairs = all_pairs(n);
        let mut net = empty_net(n);
        let lo = 0u64; // draws an edge unless the density is 0
        let hi = u64::MAX;
        for (bg, with) in [(lo, density > 0.0), (hi, density >= 1.0)] {
            let mut seen: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            for i in 0..pairs.len() {
                let mut count = vec![0usize; pairs.len()];
                for v in grid(cells) {
                    let mut script = vec![bg; pairs.len()];
                    script[i] = v;
                    let (e, draws) = scripted(&script, || {
                        let mut g = UniformGraphGenerator::new(density, Some(3));
                        g.generate_graph(&mut net);
                        edges(&net)
                    });
                    let e = e?;
                    ensure!(draws <= pairs.len(), "{} draws for {} pairs", draws, pairs.len());
                    for (j, p) in pairs.iter().enumerate() {
                        count[j] += e.contains(p) as usize;
                    }
                    l.step(1);
                    l.traces += 1;
                }
                // exactly one pair follows the draw
                let want = (density * cells as f64).round() as i64;
                let follow: Vec<usize> = (0..pairs.len()).filter(|j| count[*j] != if with { cells } else { 0 }).collect();
                ensure!(follow.len() <= 1, "density {}: one draw decides the pairs {:?}", density, follow.iter().map(|j| pairs[*j]).collect::<Vec<_>>());
                if let Some(j) = follow.first() {
                    *seen.entry(pairs[*j]).or_insert(0) += 1;
                    ensure!((count[*j] as i64 - want).abs() <= 1, "density {}: the edge {:?} is drawn in {} of {} outcomes", density, pairs[*j], count[*j], cells);
                }
                l.state(&(n, c / 3, bg, i));
            }
            if density >= 0.001 && density <= 0.999 {
                ensure!(seen.len() == pairs.len(), "density {}: only the pairs {:?} depend on their draw", density, seen.keys().collect::<Vec<_>>());
            }
            l.outcome(&(c, bg, seen.len()));
        }
        Ok(())
    });

    // Densities near the ends.
    let rare: Vec<f64> = (1..=12).flat_map(|j| [10f64.powi(-j), 1.0 - 10f64.powi(-j), 0.3 * 10f64.powi(-j)]).chain([1.0 / 3.0, 0.7, 0.123456789]).collect();
    let rare = &rare;
    ctx.family("rare edges", "39 densities from 3e-13 to 1-1e-12, 2 and 3 nodes: the probability of each edge, the other draws being the smallest or the largest ones, measured to the resolution of a float", 4 * rare.len(), |c, l| {
        let (n, bg, density) = ([2, 3][c % 2], [0, u64::MAX][c / 2 % 2], rare[c / 4]);
        let pairs = all_pairs(n);
        let mut net = empty_net(n);
        for i in 0..pairs.len() {
            let mut several = false;
            let got = measure(&refined(), |u| {
                let mut script = vec![bg; pairs.len()];
                script[i] = u;
                let (e, draws) = scripted(&script, || {
                    let mut g = UniformGraphGenerator::new(density, Some(3));
                    g.generate_graph(&mut net);
                    edges(&net)
                });
                several |= draws > pairs.len();
                l.step(1);
                e
            })?;
            for p in &pairs {
                let q: f64 = got.iter().filter(|(e, _)| e.contains(p)).map(|x| x.1).sum();
                let own = [density, 1.0].iter().any(|w| (q - w).abs() <= 1e-6 * density.min(1.0 - density) + 0.5f64.powi(47)) || q == 0.0;
                ensure!(several || own, "density {}, {} nodes: the edge {:?} is drawn with probability {:e} in draw {}", density, n, p, q, i);
                l.outcome(&q.to_bits());
            }
            let varies = pairs.iter().filter(|p| got.keys().any(|e| e.contains(p)) && got.keys().any(|e| !e.contains(p))).count();
            ensure!(several || varies == 1, "density {}: draw {} decides {} pairs", density, i, varies);
        }
        l.trace();
        l.state(&c);
        Ok(())
    });

    // Larger graphs: every draw decides one pair, and each two of them together.
    let top = ctx.pick(9usize, 16);
    ctx.family("one draw per pair", "2..8 (15) nodes: every set of at most two draws different from the others; as many edges, always the same ones", (top - 2) * 2, |c, l| {
        let n = 2 + c / 2;
        let k = n * (n - 1);
        let base = c % 2 == 1;
        let mut net = empty_net(n);
        let mut run = |flip: &[usize]| -> Result<BTreeSet<(usize, usize)>, String> {
            let mut script = vec![if base { 0 } else { u64::MAX }; k];
            for f in flip {
                script[*f] = if base { u64::MAX } else { 0 };
            }
            let (e, _) = scripted(&script, || {
                let mut g = UniformGraphGenerator::new(0.5, Some(3));
                g.generate_graph(&mut net);
                edges(&net)
            });
            e
        };
        let none = run(&[])?;
        ensure!(none.len() == if base { k } else { 0 }, "{} nodes: {} edges from uniform draws", n, none.len());
        let mut owner = vec![];
        for i in 0..k {
            let e = run(&[i])?;
            let d: Vec<_> = e.symmetric_difference(&none).copied().collect();
            ensure!(d.len() == 1, "{} nodes: draw {} decides the pairs {:?}", n, i, d);
            owner.push(d[0]);
        }
        ensure!(owner.iter().collect::<BTreeSet<_>>().len() == k, "{} nodes: two draws decide the same pair", n);
        for i in 0..k {
            for j in 0..i {
                let e = run(&[i, j])?;
                let d: BTreeSet<_> = e.symmetric_difference(&none).copied().collect();
                ensure!(d == [owner[i], owner[j]].into_iter().collect(), "{} nodes: draws {} and {} decide {:?}", n, i, j, d);
                l.step(1);
                l.trace();
                l.state(&(n, base, i, j));
                l.outcome(&(n, &d));
            }
        }
        Ok(())
    });

    // Many nodes: which draw decides which pair, read off the bits of its position.
    let wide: &[usize] = ctx.pick(&[17, 33, 40, 65, 70, 129, 257][..], &[16, 17, 31, 32, 33, 40, 63, 64, 65, 66, 70, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 400][..]);
    ctx.family("many nodes", "17 to 257 (400) nodes: no edge at density 0, every edge at density 1; at density 1/2 the draw of each pair identified by as many generations as its position has bits, and their complements: a draw of its own for each pair", wide.len(), |c, l| {
        let n = wide[c];
        let k = n * (n - 1);
        let mut net = empty_net(n);
        for (density, want) in [(1.0, k), (0.0, 0)] {
            for seed in 0..3 {
                let mut g = UniformGraphGenerator::new(density, Some(seed));
                g.generate_graph(&mut net);
                let e = edges(&net)?;
                ensure!(e.len() == want, "{} nodes, density {}: {} edges instead of {}", n, density, e.len(), want);
                l.step(1);
                l.trace();
            }
        }
        let bits = usize::BITS - (k - 1).leading_zeros();
        let mut owner: BTreeMap<(usize, usize), u64> = all_pairs(n).into_iter().map(|p| (p, 0)).collect();
        for b in 0..bits {
            for flip in [false, true] {
                let script: Vec<u64> = (0..k).map(|d| if (d >> b & 1 == 1) != flip { 0 } else { u64::MAX }).collect();
                let (e, draws) = scripted(&script, || {
                    let mut g = UniformGraphGenerator::new(0.5, Some(3));
                    g.generate_graph(&mut net);
                    edges(&net)
                });
                let e = e?;
                ensure!(draws <= k, "{} draws for {} pairs", draws, k);
                if !flip {
                    for p in e {
                        *owner.get_mut(&p).ok_or(format!("edge {:?}", p))? |= 1 << b;
                    }
                } else {
                    for (p, o) in &owner {
                        ensure!(e.contains(p) != (o >> b & 1 == 1), "{} nodes: the edge {:?} does not follow its draw", n, p);
                    }
                }
                l.step(k as u64);
                l.trace();
            }
            l.state(&(n, b));
        }
        ensure!(owner.values().collect::<BTreeSet<_>>().len() == k, "{} nodes: two pairs follow the same draw", n);
        l.outcome(&(n, &owner));
        Ok(())
    });

    // Long runs of one generator.
    let runs = ctx.pick(140_000usize, 2_000_000);
    ctx.family("many graphs", "140000 (2000000) successive graphs of one generator, 12 nodes at density 1/2, on one or several networks, 5 seeds: no graph appears twice; the graphs after 255..257, 65535..65537 and 131072 others have as many edges as the draws say", 5, |c, l| {
        let mut nets: Vec<CtbnNetwork> = (0..1 + c % 3).map(|_| empty_net(12)).collect();
        let mut g = UniformGraphGenerator::new(0.5, Some(c as u64 * 77));
        let mut seen: std::collections::HashSet<Vec<u16>> = Default::default();
        for i in 0..runs {
            let k = nets.len();
            let net = &mut nets[i % k];
            let script = [254usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 131_072].contains(&i);
            if script {
                let values: Vec<u64> = (0..132).map(|d| if d % 3 == 0 { 0 } else { u64::MAX }).collect();
                let (e, draws) = scripted(&values, || {
                    g.generate_graph(net);
                    edges(net)
                });
                let e = e?;
                ensure!(draws != 132 || e.len() == 44, "graph {} of a generator: {} edges, 44 of the draws being small", i, e.len());
                continue;
            }
            g.generate_graph(net);
            let rows: Vec<u16> = (0..12).map(|v| net.get_parent_set(v).iter().map(|p| 1u16 << p).sum()).collect();
            ensure!(seen.insert(rows), "graph {} of a generator is one of those before", i);
            l.step(1);
        }
        l.state(&c);
        l.trace();
        l.outcome(&seen.len());
        Ok(())
    });

    // Successive generations, and what was there before.
    ctx.family("successive generations", "two generations on 2 and 3 nodes, densities 1/4..3/4: joint law of both graphs", 4 + 1, |c, l| {
        let (n, cells, k) = [(2, 4, 1), (2, 4, 2), (2, 4, 3), (2, 8, 3), (3, 2, 1)][c];
        let density = k as f64 / cells as f64;
        let pairs = all_pairs(n);
        let mut law: BTreeMap<(u64, u64), f64> = BTreeMap::new();
        let mut net = empty_net(n);
        tree(&vec![grid(cells); 2 * pairs.len()], || {
            let mut g = UniformGraphGenerator::new(density, Some(3));
            g.generate_graph(&mut net);
            let a = edges(&net)?;
            g.generate_graph(&mut net);
            Ok::<_, String>((a, edges(&net)?))
        }, |r, p, _| {
            let (a, b) = r?;
            *law.entry((code(n, &a), code(n, &b))).or_insert(0.0) += p;
            l.step(2 * pairs.len() as u64);
            l.trace();
            Ok(())
        })?;
        let single = |m: u64| density.powi(m.count_ones() as i32) * (1.0 - density).powi(pairs.len() as i32 - m.count_ones() as i32);
        ensure!(law.len() == 1 << (2 * pairs.len()), "{} of {} pairs of graphs", law.len(), 1 << (2 * pairs.len()));
        for ((a, b), g) in &law {
            ensure!((g - single(*a) * single(*b)).abs() < 1e-9, "density {}: graphs {:b} then {:b} with probability {:.6} instead of {:.6}", density, a, b, g, single(*a) * single(*b));
            l.state(&(c, a, b));
            l.outcome(&(c, a, b));
        }
        Ok(())
    });
    ctx.family("previous edges", "every graph on 3 and 4 nodes, with parameters, before the generation; every graph on 3, 64 on 4 nodes after it", n_graphs(3) + n_graphs(4), |c, l| {
        let (n, g) = if c < n_graphs(3) { (3, c) } else { (4, c - n_graphs(3)) };
        let k = n * (n - 1);
        let before = Net::distinct(&vec![2; n], &graph(n, g));
        for t in 0..64usize {
            let t = if n == 3 { t } else { (t * 2654435761) >> 3 };
            let script: Vec<u64> = (0..k).map(|i| if t >> i & 1 == 1 { 0 } else { u64::MAX }).collect();
            let mut net = before.build();
            let mut fresh = empty_net(n);
            let run = |net: &mut CtbnNetwork| {
                scripted(&script, || {
                    let mut g = UniformGraphGenerator::new(0.5, Some(3));
                    g.generate_graph(net);
                }).0
            };
            run(&mut net);
            run(&mut fresh);
            let (a, b) = (edges(&net)?, edges(&fresh)?);
            ensure!(a == b && a.len() == (0..k).filter(|i| t >> i & 1 == 1).count(), "onto the edges {:?}: {:?} instead of {:?}", before.edges(), a, b);
            l.step(1);
            l.trace();
            l.outcome(&(n, &a));
        }
        l.state(&(n, g));
        Ok(())
    });
    // One generator for several networks.
    let top = ctx.pick(5usize, 7);
    ctx.family("one generator, several networks", "all sequences of three networks of 0, 2..6 (2..8) nodes for one generator: each draw decides one pair of one of the networks, whatever the sizes of the others", (top + 1).pow(3) * 2, |c, l| {
        let sizes: Vec<usize> = digits(c / 2, &[top + 1; 3]).iter().map(|x| if *x == 0 { 0 } else { x + 1 }).collect();
        let base = c % 2 == 1;
        let ks: Vec<usize> = sizes.iter().map(|n| n * n.saturating_sub(1)).collect();
        let k: usize = ks.iter().sum();
        let run = |flip: Option<usize>| -> Result<BTreeSet<(usize, (usize, usize))>, String> {
            let mut script = vec![if base { 0 } else { u64::MAX }; k];
            if let Some(f) = flip {
                script[f] = if base { u64::MAX } else { 0 };
            }
            let mut nets: Vec<CtbnNetwork> = sizes.iter().map(|n| empty_net(*n)).collect();
            scripted(&script, || {
                let mut g = UniformGraphGenerator::new(0.5, Some(3));
                nets.iter_mut().for_each(|x| g.generate_graph(x));
            });
            let mut all = BTreeSet::new();
            for (i, x) in nets.iter().enumerate() {
                all.extend(edges(x)?.into_iter().map(|p| (i, p)));
            }
            Ok(all)
        };
        let none = run(None)?;
        ensure!(none.len() == if base { k } else { 0 }, "networks of {:?} nodes: {} edges from uniform draws", sizes, none.len());
        let mut owners = BTreeSet::new();
        for i in 0..k {
            let d: Vec<_> = run(Some(i))?.symmetric_difference(&none).copied().collect();
            ensure!(d.len() == 1, "networks of {:?} nodes for one generator: draw {} decides the pairs {:?}", sizes, i, d);
            ensure!(owners.insert(d[0]), "networks of {:?} nodes: two draws decide {:?}", sizes, d[0]);
            l.step(1);
            l.trace();
            l.outcome(&(&sizes, d[0]));
        }
        l.state(&c);
        Ok(())
    });
    ctx.sample("3 nodes, density 3/8: 8^6 outcomes, each of the 64 graphs with probability (3/8)^e (5/8)^(6-e)".into());
}

// ------------------------------------------------------------------------------------------ C11

fn cims<T: NetworkProcess>(net: &T) -> Result<Vec<Array3<f64>>, String> {
    net.get_node_indices()
        .map(|v| inner(net.get_node(v)).get_cim().clone().ok_or(format!("node {} has no CIM", v)))
        .collect()
}

/// Everything the property says about one outcome.
fn valid<T: NetworkProcess>(net: &T, want: &Net, lo: f64, hi: f64) -> Result<Vec<Array3<f64>>, String> {
    ensure!(net.get_number_of_nodes() == want.n(), "the number of nodes changed");
    let c = cims(net)?;
    for v in 0..want.n() {
        ensure!(net.get_parent_set(v) == want.parents[v] && net.get_children_set(v) == want.children(v), "the edges of node {} changed", v);
        let p = inner(net.get_node(v));
        ensure!(*p.get_label() == label(v), "the label of node {} changed", v);
        ensure!(net.get_node(v).get_reserved_space_as_parent() == want.cards[v], "the states of node {} changed", v);
        let (u, k) = (joint(&want.cards, &want.parents[v]), want.cards[v]);
        ensure!(c[v].shape() == [u, k, k], "node {}: shape {:?} instead of {:?}", v, c[v].shape(), [u, k, k]);
        ensure!(net.get_node(v).validate_params().is_ok(), "node {}: the parameters do not pass validation: {:?}", v, c[v]);
        for cfg in 0..u {
            for x in 0..k {
                let exit = -c[v][[cfg, x, x]];
                ensure!(exit >= lo * (1.0 - 1e-12) && exit <= hi * (1.0 + 1e-12) && exit > 0.0, "node {}: exit rate {} outside of {}..{}", v, exit, lo, hi);
                let mut sum = 0.0;
                for y in 0..k {
                    if x != y {
                        ensure!(c[v][[cfg, x, y]] > 0.0 && c[v][[cfg, x, y]].is_finite(), "node {}: rate {}", v, c[v][[cfg, x, y]]);
                        sum += c[v][[cfg, x, y]];
                    }
                }
                ensure!(close(sum, exit, 1e-9) || (sum - exit).abs() <= 1e-9 * exit, "node {}: row of sum {} and exit rate {}", v, sum, exit);
            }
        }
    }
    Ok(c)
}

/// The rows of all the CIMs: exit rate and the order of the other entries.
fn rows(c: &[Array3<f64>]) -> Vec<(f64, Vec<f64>)> {
    let mut out = vec![];
    for m in c {
        let (u, k) = (m.shape()[0], m.shape()[1]);
        for cfg in 0..u {
            for x in 0..k {
                let exit = -m[[cfg, x, x]];
                out.push((exit, (0..k).filter(|y| *y != x).map(|y| m[[cfg, x, y]] / exit).collect()));
            }
        }
    }
    out
}
/// Ranks, with ties.
fn ranks(r: &[f64]) -> Vec<u8> {
    r.iter().map(|a| r.iter().filter(|b| **b < *a * (1.0 - 1e-9)).count() as u8).collect()
}

pub fn c11(ctx: &mut Ctx) {
    ctx.assume("the generator is a stream of independent uniform 64-bit draws; the law is checked on a grid of 2 to 8 cells per draw, on exit rates by cell and on the order of the other entries of each row");
    let e = |n: usize, edges: &[(usize, usize)]| -> Vec<Set> {
        let mut p = vec![Set::new(); n];
        for (a, b) in edges {
            p[*b].insert(*a);
        }
        p
    };
    let mut cases: Vec<(Vec<usize>, Vec<Set>, usize, usize, f64, f64)> = vec![
        (vec![2], e(1, &[]), 6, ctx.pick(8, 12), 0.5, 4.5),
        (vec![3], e(1, &[]), 12, ctx.pick(3, 4), 0.5, 4.5),
        (vec![2, 2], e(2, &[]), 12, ctx.pick(3, 4), 0.5, 4.5),
        (vec![2, 2], e(2, &[(0, 1)]), 18, ctx.pick(2, 2), 0.5, 4.5),
        (vec![2, 2], e(2, &[(1, 0)]), 18, ctx.pick(2, 2), 0.5, 4.5),
        (vec![4], e(1, &[]), 20, 2, 0.5, 4.5),
        (vec![2, 3], e(2, &[]), 18, 2, 0.5, 4.5),
    ];
    // Intervals of every width and place.
    for (lo, hi) in [(0.0, 1.0), (0.0, 1e-6), (0.0, 1e9), (0.0, 1e-300), (1e-9, 2e-9), (1.0, 1.001), (2.0, 2.0005), (5.0, 5.000001), (1.0, 1.0 + 1e-9), (1e6, 1e6 + 0.001), (1e-9, 1e9), (100.0, 200.0), (3.0, 1e12)] {
        cases.push((vec![2], e(1, &[]), 6, ctx.pick(6, 8), lo, hi));
        cases.push((vec![3], e(1, &[]), 12, 2, lo, hi));
    }
    ctx.family("joint law", "one node of 2, 3, 4 states, two nodes with and without an edge; grid of 8, 3, 2 (12, 4, 2) cells on each draw; one node of 2 and 3 states with 13 intervals from 1e-300 to 1e12 wide: exit rates uniform and independent, rows exchangeable and independent", cases.len(), |c, l| {
        let (cards, parents, draws, cells, lo, hi) = &cases[c];
        let want = Net::distinct(cards, parents);
        let (lo, hi) = (*lo, *hi);
        let mut net = want.build_structure();
        let mut exits: BTreeMap<Vec<u8>, f64> = BTreeMap::new();
        let mut pairs: BTreeMap<(usize, usize, Vec<u8>, Vec<u8>, u8), f64> = BTreeMap::new();
        let mut single: BTreeMap<(usize, Vec<u8>), f64> = BTreeMap::new();
        let mut nrows = 0;
        let mut steps = 0u64;
        tree(&vec![grid(*cells); *draws], || {
            let mut g = UniformParametersGenerator::new(lo..hi, Some(1));
            g.generate_parameters(&mut net);
            valid(&net, &want, lo, hi)
        }, |r, p, _| {
            let r = rows(&r?);
            nrows = r.len();
            let cell: Vec<u8> = r.iter().map(|x| ((x.0 - lo) / (hi - lo) * *cells as f64) as u8).collect();
            let rk: Vec<Vec<u8>> = r.iter().map(|x| ranks(&x.1)).collect();
            *exits.entry(cell.clone()).or_insert(0.0) += p;
            for i in 0..r.len() {
                *single.entry((i, rk[i].clone())).or_insert(0.0) += p;
                for j in 0..r.len() {
                    *pairs.entry((i, j, rk[i].clone(), rk[j].clone(), cell[j])).or_insert(0.0) += p;
                }
            }
            steps += 1;
            if steps % 256 == 0 {
                l.step(0);
            }
            Ok(())
        })?;
        l.step(steps * *draws as u64);
        l.traces += steps;
        let n = (*cells as f64).powi(nrows as i32);
        ensure!(exits.len() as f64 == n, "{}: {} combinations of exit rates out of {}", want.describe(), exits.len(), n);
        for (k, p) in &exits {
            ensure!((p - 1.0 / n).abs() < 1e-9, "{}: the exit rates fall in the cells {:?} of {} with probability {:.6} instead of {:.6}", want.describe(), k, cells, p, 1.0 / n);
            l.state(&(c, k));
        }
        for ((i, r), p) in &single {
            for perm in permutations(r.len()) {
                let q: Vec<u8> = perm.iter().map(|x| r[*x]).collect();
                let o = single.get(&(*i, q.clone())).copied().unwrap_or(0.0);
                ensure!((p - o).abs() < 1e-9, "{}: the rates of row {} are ordered {:?} with probability {:.6}, {:?} with {:.6}", want.describe(), i, r, p, q, o);
            }
            l.outcome(&(c, i, r));
        }
        for ((i, j, a, b, x), p) in &pairs {
            if i == j && a != b {
                continue;
            }
            let w = if i == j { single[&(*i, a.clone())] } else { single[&(*i, a.clone())] * single[&(*j, b.clone())] } / *cells as f64;
            ensure!((p - w).abs() < 1e-9, "{}: row {} ordered {:?} with row {} ordered {:?} and exit rate cell {}: probability {:.6} instead of {:.6}", want.describe(), i, a, j, b, x, p, w);
        }
        Ok(())
    });

    // Extreme outcomes.
    let ext: Vec<u64> = vec![0, 1 << 63, u64::MAX];
    let more: Vec<u64> = vec![0, 1 << 11, u64::MAX];
    let intervals: Vec<(f64, f64)> = vec![(0.0, 1.0), (0.0, 1e-6), (0.0, 1e9), (5.0, 5.000001), (1e-9, 1e9), (3.0, 7.0)];
    let shapes: Vec<(Vec<usize>, Vec<Set>, usize)> = vec![
        (vec![2], e(1, &[]), 9),
        (vec![3], e(1, &[]), ctx.pick(10, 12)),
        (vec![2, 2], e(2, &[(0, 1)]), ctx.pick(9, 12)),
        (vec![2, 3], e(2, &[(1, 0)]), ctx.pick(9, 12)),
        (vec![4], e(1, &[]), ctx.pick(9, 11)),
    ];
    let (shapes, intervals) = (&shapes, &intervals);
    let offs = [0usize, 4, 9, 16];
    ctx.family("extreme outcomes", "5 networks, 6 intervals: 9 or 10 (11 or 12) consecutive draws at 3 extreme values, 2 alphabets, after 0, 4, 9, 16 ordinary draws: every outcome valid", shapes.len() * intervals.len() * 2 * offs.len(), |c, l| {
        let d = digits(c, &[shapes.len(), intervals.len(), 2, offs.len()]);
        let (cards, parents, depth) = &shapes[d[0]];
        let (lo, hi) = intervals[d[1]];
        let want = Net::distinct(cards, parents);
        let mut net = want.build_structure();
        let mut al: Vec<Vec<u64>> = (0..offs[d[3]]).map(|i| vec![grid(16)[(i * 5 + 2) % 16]]).collect();
        al.extend(vec![if d[2] == 0 { ext.clone() } else { more.clone() }; *depth]);
        let mut n = 0u64;
        tree(&al, || {
            let mut g = UniformParametersGenerator::new(lo..hi, Some(1));
            g.generate_parameters(&mut net);
            valid(&net, &want, lo, hi)
        }, |r, _, _| {
            r.map_err(|e| format!("{} interval {}..{}: {}", want.describe(), lo, hi, e))?;
            n += 1;
            if n % 256 == 0 {
                l.step(256);
            }
            Ok(())
        })?;
        l.traces += n;
        l.state(&d);
        Ok(())
    });

    // Many networks and seeds: valid, structure kept, no shared draws, fresh on each generation.
    let seeds = ctx.pick(6usize, 200);
    let ng = n_graphs(3);
    ctx.family("all networks of three nodes", "64 graphs x cardinalities 2..4, 2 of 4 and 5 nodes, seeds 0..5 (199): valid, structure unchanged, all exit rates and all ratios of two generations different", (ng * 27 + 50) * seeds, |c, l| {
        let (m, seed) = (c % (ng * 27 + 50), c / (ng * 27 + 50));
        let want = if m < ng * 27 {
            let cards: Vec<usize> = digits(m / ng, &[3, 3, 3]).iter().map(|x| x + 2).collect();
            Net::distinct(&cards, &graph(3, m % ng))
        } else {
            let m = m - ng * 27;
            let n = 4 + m % 2;
            let g = (m + 1).wrapping_mul(0x9E3779B97F4A7C15) >> 20;
            Net::distinct(&(0..n).map(|v| 2 + (v + m) % 3).collect::<Vec<_>>(), &graph(n, g % n_graphs(n)).into_iter().map(|p| p.into_iter().take(3).collect()).collect::<Vec<_>>())
        };
        let (lo, hi) = [(0.0, 7.0), (1.0, 1.5), (0.25, 100.0)][(m + seed) % 3];
        let mut g = UniformParametersGenerator::new(lo..hi, Some(seed as u64));
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let key = |x: f64| (x * (1u64 << 44) as f64).round() as u64;
        let mut total = 0;
        for r in 0..2 {
            // the second time onto the parameters of the first
            let mut net = if r == 0 { want.build_structure() } else { want.build() };
            g.generate_parameters(&mut net);
            let c = valid(&net, &want, lo, hi).map_err(|e| format!("{} interval {}..{} seed {}: {}", want.describe(), lo, hi, seed, e))?;
            for (exit, ratios) in rows(&c) {
                total += 1;
                ensure!(seen.insert(key((exit - lo) / (hi - lo)) | 1 << 60), "{} seed {}: two exit rates are equal", want.describe(), seed);
                for (i, a) in ratios.iter().enumerate() {
                    for b in &ratios[..i] {
                        total += 1;
                        ensure!(seen.insert(key(a / (a + b))), "{} seed {}: two ratios of rates are equal", want.describe(), seed);
                    }
                }
            }
            l.step(total);
            l.trace();
        }
        l.state(&m);
        l.outcome(&(m, total));
        Ok(())
    });
    // One generator for several networks.
    ctx.family("one generator, several networks", "one generator for all pairs of the 64 graphs on 3 nodes with cardinalities 2..4 in turn, and for sequences of 4 networks of 1..6 nodes: valid, structure unchanged, all exit rates and all ratios different", ng * ng + ctx.pick(256, 4096), |c, l| {
        let wants: Vec<Net> = if c < ng * ng {
            [c % ng, c / ng].iter().enumerate().map(|(i, g)| Net::distinct(&(0..3).map(|v| 2 + (v + (c % 7) * i) % 3).collect::<Vec<_>>(), &graph(3, *g))).collect()
        } else {
            (0..4)
                .map(|i| {
                    let m = ((c * 4 + i).wrapping_mul(0x9E3779B97F4A7C15)) >> 16;
                    let n = 1 + m % 6;
                    Net::distinct(&(0..n).map(|v| 2 + (v + m) % 4).collect::<Vec<_>>(), &graph(n, (m >> 4) % n_graphs(n).max(1)).into_iter().map(|p| p.into_iter().take(2).collect()).collect::<Vec<_>>())
                })
                .collect()
        };
        let (lo, hi) = [(0.0, 7.0), (1.0, 1.5), (0.25, 100.0)][c % 3];
        let mut g = UniformParametersGenerator::new(lo..hi, Some(c as u64));
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let key = |x: f64| (x * (1u64 << 44) as f64).round() as u64;
        for want in &wants {
            let mut net = want.build_structure();
            g.generate_parameters(&mut net);
            let c = valid(&net, want, lo, hi).map_err(|e| format!("{} after {} other networks, interval {}..{}: {}", want.describe(), wants.len() - 1, lo, hi, e))?;
            for (exit, ratios) in rows(&c) {
                ensure!(seen.insert(key((exit - lo) / (hi - lo)) | 1 << 60), "{}: two exit rates of one generator are equal", want.describe());
                for w in ratios.windows(2) {
                    ensure!(seen.insert(key(w[0] / (w[0] + w[1]))), "{}: two ratios of rates of one generator are equal", want.describe());
                }
            }
            l.step(1);
            l.trace();
        }
        l.state(&c);
        l.outcome(&seen.len());
        Ok(())
    });
    // Many states, many configurations, many nodes.
    let mut big: Vec<(Vec<usize>, Vec<Set>)> = vec![
        (vec![20], e(1, &[])),
        (vec![64], e(1, &[])),
        (vec![129], e(1, &[])),
        (vec![257], e(1, &[])),
        (vec![300], e(1, &[])),
        (vec![2, 257], e(2, &[(0, 1)])),
        (vec![300, 2], e(2, &[(0, 1)])),
        (vec![17, 16, 3], e(3, &[(0, 2), (1, 2)])),
        (vec![3, 17, 16], e(3, &[(0, 2), (1, 2), (2, 0)])),
        (vec![2; 11], e(11, &(0..10).map(|i| (i, 10)).collect::<Vec<_>>())),
        (vec![2; 11], e(11, &(1..11).map(|i| (i, 0)).collect::<Vec<_>>())),
        (vec![2; 40], e(40, &(0..40).map(|i| (i, (i + 1) % 40)).collect::<Vec<_>>())),
        ((0..130).map(|i| 2 + i % 4).collect(), e(130, &(0..130).flat_map(|i| [(i, (i + 1) % 130), (i, (i + 65) % 130)]).collect::<Vec<_>>())),
        (vec![2; 300], e(300, &(0..299).map(|i| (299, i)).collect::<Vec<_>>())),
        (vec![100, 100, 2], e(3, &[(0, 2), (1, 2)])),
        (vec![2; 15], e(15, &(1..15).map(|i| (i, 0)).collect::<Vec<_>>())),
        (vec![2, 260, 260], e(3, &[(1, 0), (2, 0)])),
        (vec![256, 257], e(2, &[(1, 0)])),
    ];
    if ctx.pick(true, false) {
        big.pop();
    }
    let last = big.iter().position(|b| b.0 == [256, 257]).unwrap_or(usize::MAX);
    let big = &big;
    let bigseeds = ctx.pick(2usize, 24);
    ctx.family("large networks", "nodes of 20 to 300 states, 16 to 67600 parent configurations, 40, 130 and 300 nodes: valid, structure unchanged, all exit rates and all ratios of consecutive rates of two generations different", big.len() * bigseeds, |c, l| {
        let (m, seed) = (c % big.len(), c / big.len());
        let want = Net { cards: big[m].0.clone(), parents: big[m].1.clone(), cims: vec![] };
        let (lo, hi) = [(0.0, 7.0), (1.0, 1.5), (0.25, 100.0)][(m + seed) % 3];
        let mut g = UniformParametersGenerator::new(lo..hi, Some(seed as u64));
        let mut seen: std::collections::HashSet<u64> = Default::default();
        let key = |x: f64| (x * (1u64 << 47) as f64).round() as u64;
        let mut total = 0u64;
        let mut net = want.build_structure();
        for _ in 0..if m == last { 1 } else { 2 } {
            g.generate_parameters(&mut net);
            let c = valid(&net, &want, lo, hi).map_err(|e| format!("{} nodes of {:?}.. states, interval {}..{} seed {}: {}", want.n(), &want.cards[..want.n().min(12)], lo, hi, seed, e.chars().take(300).collect::<String>()))?;
            for (exit, ratios) in rows(&c) {
                total += 1;
                ensure!(seen.insert(key((exit - lo) / (hi - lo)) | 1 << 60), "{} nodes seed {}: two exit rates are equal", want.n(), seed);
                for w in ratios.windows(2).step_by(if m == last { 300 } else { 1 }) {
                    total += 1;
                    ensure!(seen.insert(key(w[0] / (w[0] + w[1]))), "{} nodes seed {}: two ratios of rates are equal", want.n(), seed);
                }
            }
            l.trace();
        }
        l.step(total);
        l.state(&m);
        l.outcome(&(m, total));
        Ok(())
    });
    // Long runs of one generator.
    let runs = ctx.pick(140_000u64, 2_000_000);
    ctx.family("many generations", "140000 (2000000) successive generations of one generator, on one or several networks of a ternary variable, 4 seeds: valid, no exit rate and no ratio of rates appears twice in a place", 4, |ci, l| {
        let want = Net { cards: vec![3], parents: vec![Set::new()], cims: vec![] };
        let mut nets: Vec<CtbnNetwork> = (0..1 + ci % 2).map(|_| want.build_structure()).collect();
        let (lo, hi) = [(0.0, 7.0), (1.0, 1.5)][ci / 2];
        let mut g = UniformParametersGenerator::new(lo..hi, Some(ci as u64));
        let mut seen: Vec<std::collections::HashSet<u64>> = vec![Default::default(); 6];
        for i in 0..runs {
            let k = nets.len();
            let net = &mut nets[i as usize % k];
            g.generate_parameters(net);
            let c = valid(net, &want, lo, hi).map_err(|e| format!("generation {} interval {}..{}: {}", i, lo, hi, e))?;
            // (0, near where numbers are dense, and the resolution of a float)
            let mut twice = 0;
            for (p, (exit, ratios)) in rows(&c).into_iter().enumerate() {
                twice += !seen[p].insert(exit.to_bits()) as usize;
                for w in ratios.windows(2) {
                    twice += !seen[p + 3].insert((w[0] / (w[0] + w[1])).to_bits()) as usize;
                }
            }
            ensure!(twice < 4, "generation {} of a generator repeats {} rates of those before", i, twice);
            l.step(1);
        }
        l.state(&ci);
        l.trace();
        l.outcome(&seen.iter().map(|s| s.len()).collect::<Vec<_>>());
        Ok(())
    });
    // The same on a Markov process of its own.
    let sizes: &[usize] = &[2, 3, 4, 5, 7, 16, 17, 64, 257];
    let pseeds = ctx.pick(24usize, 200);
    ctx.family("Markov processes", "one process of 2..7, 16, 17, 64, 257 states, seeds 0..23 (199), after no parameters and after others: valid, the label and the states kept, all exit rates and ratios different, the parameters those of a network of that one node", sizes.len() * pseeds, |c, l| {
        let (k, seed) = (sizes[c % sizes.len()], (c / sizes.len()) as u64);
        let want = Net { cards: vec![k], parents: vec![Set::new()], cims: vec![] };
        let (lo, hi) = [(0.0, 7.0), (1.0, 1.5), (0.25, 100.0)][(c + c / sizes.len()) % 3];
        let mut g = UniformParametersGenerator::new(lo..hi, Some(seed));
        let mut process = CtmpProcess::new();
        process.add_node(node(&label(0), k)).unwrap();
        let mut net = want.build_structure();
        let mut h = UniformParametersGenerator::new(lo..hi, Some(seed));
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let key = |x: f64| (x * (1u64 << 47) as f64).round() as u64;
        let mut total = 0;
        for _ in 0..2 {
            g.generate_parameters(&mut process);
            h.generate_parameters(&mut net);
            let a = valid(&process, &want, lo, hi).map_err(|e| format!("process of {} states, interval {}..{} seed {}: {}", k, lo, hi, seed, e.chars().take(300).collect::<String>()))?;
            let b = valid(&net, &want, lo, hi)?;
            ensure!(a == b, "process of {} states, seed {}: other parameters than a network of one node", k, seed);
            for (exit, ratios) in rows(&a) {
                total += 1;
                ensure!(seen.insert(key((exit - lo) / (hi - lo)) | 1 << 60), "process of {} states, seed {}: two exit rates are equal", k, seed);
                for w in ratios.windows(2) {
                    total += 1;
                    ensure!(seen.insert(key(w[0] / (w[0] + w[1]))), "process of {} states, seed {}: two ratios of rates are equal", k, seed);
                }
            }
            l.trace();
        }
        l.step(total);
        l.state(&(k, seed));
        l.outcome(&(k, total));
        Ok(())
    });
    ctx.sample("one ternary node, interval 0.5..4.5: 3^12 outcomes, each of the 27 combinations of exit rate cells with probability 1/27".into());
}
