//! C02 structure edits, C03 configuration indices, C04 amalgamation, C20 factored rewards.

use crate::core::*;
use crate::ensure;
use crate::model::*;
use ndarray::{Array1, Array2, Array3};
use reCTBN::params::ParamsTrait;
use reCTBN::process::ctbn::CtbnNetwork;
use reCTBN::process::ctmp::CtmpProcess;
use reCTBN::process::NetworkProcess;
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::RewardFunction;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};

// ------------------------------------------------------------------------------------------ C02

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// cardinality, carries parameters already
    AddNode(usize, bool),
    AddEdge(usize, usize),
    SetCim(usize),
    SetStats(usize),
    Init,
    ResetParams(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct RefNode {
    card: usize,
    /// number of configurations of the CIM held, if any
    cim: Option<usize>,
    stats: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct RefNet {
    nodes: Vec<RefNode>,
    edges: BTreeSet<(usize, usize)>,
}

fn token_cim(v: usize, u: usize, k: usize) -> Array3<f64> {
    Array3::from_shape_fn((u, k, k), |(c, x, y)| {
        let r = |y: usize| 1.0 + (v * 100 + c * 10 + x * 3 + y) as f64;
        if x == y {
            -(0..k).filter(|o| *o != x).map(r).sum::<f64>()
        } else {
            r(y)
        }
    })
}

impl RefNet {
    fn configurations(&self, v: usize) -> usize {
        self.edges.iter().filter(|e| e.1 == v).map(|e| self.nodes[e.0].card).product()
    }
    fn clear(&mut self) {
        for v in 0..self.nodes.len() {
            if self.edges.iter().any(|e| e.1 == v) {
                self.nodes[v].cim = None;
                self.nodes[v].stats = false;
            }
        }
        self.edges.clear();
    }
    fn apply(&mut self, op: Op) {
        match op {
            Op::AddNode(card, _) => {
                self.clear();
                self.nodes.push(RefNode { card, cim: None, stats: false });
            }
            Op::AddEdge(p, c) => {
                self.edges.insert((p, c));
                self.nodes[c].cim = None;
                self.nodes[c].stats = false;
            }
            Op::SetCim(v) => self.nodes[v].cim = Some(self.configurations(v)),
            Op::SetStats(v) => self.nodes[v].stats = true,
            Op::Init => self.clear(),
            Op::ResetParams(v) => {
                self.nodes[v].cim = None;
                self.nodes[v].stats = false;
            }
        }
    }
    fn ops(&self, max_nodes: usize, cards: &[usize], rich: bool) -> Vec<Op> {
        let n = self.nodes.len();
        let mut o = vec![];
        if n < max_nodes {
            for c in cards {
                o.push(Op::AddNode(*c, false));
            }
            o.push(Op::AddNode(cards[0], true));
        }
        for p in 0..n {
            for c in 0..n {
                if p != c {
                    o.push(Op::AddEdge(p, c));
                }
            }
        }
        for v in 0..n {
            o.push(Op::SetCim(v));
            if rich {
                o.push(Op::SetStats(v));
                o.push(Op::ResetParams(v));
            }
        }
        if n > 0 {
            o.push(Op::Init);
        }
        o
    }
}

fn apply(net: &mut CtbnNetwork, r: &RefNet, op: Op) -> Res {
    match op {
        Op::AddNode(card, full) => {
            let i = r.nodes.len();
            let mut p = dsct(&label(i), card);
            if full {
                p.set_cim_unchecked(token_cim(90, 1, card));
                p.set_transitions(Array3::from_elem((1, card, card), 5));
                p.set_residence_time(Array2::from_elem((1, card), 5.0));
            }
            let got = net
                .add_node(reCTBN::params::Params::DiscreteStatesContinousTime(p))
                .map_err(|e| format!("{:?}", e))?;
            ensure!(got == i, "the new node got index {}, expected {}", got, i);
        }
        Op::AddEdge(p, c) => net.add_edge(p, c),
        Op::SetCim(v) => {
            let u = r.configurations(v);
            inner_mut(net.get_node_mut(v))
                .set_cim(layout(token_cim(v, u, r.nodes[v].card)))
                .map_err(|e| format!("{:?}", e))?;
        }
        Op::SetStats(v) => {
            let k = r.nodes[v].card;
            let p = inner_mut(net.get_node_mut(v));
            p.set_transitions(Array3::from_elem((1, k, k), v + 1));
            p.set_residence_time(Array2::from_elem((1, k), v as f64 + 0.5));
        }
        Op::Init => net.initialize_adj_matrix(),
        Op::ResetParams(v) => net.get_node_mut(v).reset_params(),
    }
    Ok(())
}

fn compare(net: &CtbnNetwork, r: &RefNet) -> Res {
    let n = r.nodes.len();
    ensure!(net.get_number_of_nodes() == n, "{} nodes, expected {}", net.get_number_of_nodes(), n);
    ensure!(net.get_node_indices() == (0..n), "node indices {:?}", net.get_node_indices());
    match net.get_adj_matrix() {
        Some(m) => {
            ensure!(m.shape() == [n, n], "adjacency matrix of shape {:?} for {} nodes", m.shape(), n);
            for p in 0..n {
                for c in 0..n {
                    ensure!(
                        (m[[p, c]] > 0) == r.edges.contains(&(p, c)),
                        "adjacency matrix says {} for edge ({},{}), edges are {:?}",
                        m[[p, c]], p, c, r.edges
                    );
                }
            }
            for v in 0..n {
                let ps: Set = r.edges.iter().filter(|e| e.1 == v).map(|e| e.0).collect();
                let cs: Set = r.edges.iter().filter(|e| e.0 == v).map(|e| e.1).collect();
                ensure!(net.get_parent_set(v) == ps, "parents of {}: {:?}, expected {:?}", v, net.get_parent_set(v), ps);
                ensure!(net.get_children_set(v) == cs, "children of {}: {:?}, expected {:?}", v, net.get_children_set(v), cs);
            }
        }
        None => ensure!(r.edges.is_empty(), "the edges {:?} are gone", r.edges),
    }
    for v in 0..n {
        let p = inner(net.get_node(v));
        ensure!(p.get_label() == &label(v), "label of node {} is {}", v, p.get_label());
        ensure!(p.get_reserved_space_as_parent() == r.nodes[v].card, "node {} has {} states", v, p.get_reserved_space_as_parent());
        match (p.get_cim(), r.nodes[v].cim) {
            (None, None) => {}
            (Some(c), Some(u)) => {
                ensure!(*c == token_cim(v, u, r.nodes[v].card), "node {} holds another CIM than the one set", v)
            }
            (Some(_), None) => return Err(format!("node {} keeps a CIM which is not valid for its parents any more", v)),
            (None, Some(_)) => return Err(format!("node {} lost its CIM", v)),
        }
        ensure!(p.get_transitions().is_some() == r.nodes[v].stats, "transition counts of node {}: present {}, expected {}", v, p.get_transitions().is_some(), r.nodes[v].stats);
        ensure!(p.get_residence_time().is_some() == r.nodes[v].stats, "residence times of node {}: present {}, expected {}", v, p.get_residence_time().is_some(), r.nodes[v].stats);
        if r.nodes[v].stats {
            ensure!(p.get_transitions().as_ref().unwrap()[[0, 0, 1]] == v + 1, "transition counts of node {} changed", v);
        }
    }
    Ok(())
}

fn run_ops(ops: &[Op], l: &mut Loc, every: bool) -> Res {
    let mut net = CtbnNetwork::new();
    let mut r = RefNet::default();
    compare(&net, &r)?;
    for (i, op) in ops.iter().enumerate() {
        apply(&mut net, &r, *op).map_err(|e| format!("{} in {:?}", e, &ops[..=i]))?;
        r.apply(*op);
        l.step(1);
        if every || i + 1 == ops.len() {
            compare(&net, &r).map_err(|e| format!("{} after {:?}", e, &ops[..=i]))?;
        }
    }
    l.trace();
    Ok(())
}

pub fn c02(ctx: &mut Ctx) {
    // All sequences, without merging states.
    let depth = ctx.pick(8, 9);
    fn expand(r: &RefNet, ops: &mut Vec<Op>, depth: usize, l: &mut Loc) -> Res {
        l.state(r);
        if depth == 0 {
            return run_ops(ops, l, true);
        }
        for op in r.ops(3, &[2, 3], false) {
            let mut r2 = r.clone();
            r2.apply(op);
            ops.push(op);
            expand(&r2, ops, depth - 1, l)?;
            ops.pop();
        }
        Ok(())
    }
    // Split on the first three operations.
    let mut starts: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..3 {
        let mut next = vec![];
        for s in &starts {
            let mut r = RefNet::default();
            s.iter().for_each(|o| r.apply(*o));
            for o in r.ops(3, &[2, 3], false) {
                let mut t = s.clone();
                t.push(o);
                next.push(t);
            }
        }
        starts = next;
    }
    ctx.family("sequences", "every sequence of 8 (9) operations on up to 3 nodes of 2 or 3 states (add node with or without parameters, add any edge, set parameters, re-initialise), all observables after every operation", starts.len(), |c, l| {
        let mut r = RefNet::default();
        let mut ops = starts[c].clone();
        ops.iter().for_each(|o| r.apply(*o));
        expand(&r, &mut ops, depth - 3, l)
    });
    // Breadth first over the distinct states, richer alphabet, 4 nodes.
    let depth = ctx.pick(11, 13);
    let max_nodes = 4;
    let mut seen: HashSet<RefNet> = HashSet::new();
    let mut queue = VecDeque::new();
    let mut todo: Vec<Vec<Op>> = vec![];
    let limit = ctx.pick(2_000_000, 12_000_000);
    seen.insert(RefNet::default());
    queue.push_back((RefNet::default(), Vec::<Op>::new()));
    let mut deepest = 0;
    while let Some((r, h)) = queue.pop_front() {
        for op in r.ops(max_nodes, &[2], true) {
            let mut r2 = r.clone();
            r2.apply(op);
            let mut h2 = h.clone();
            h2.push(op);
            todo.push(h2.clone());
            if seen.len() < limit && h2.len() < depth && seen.insert(r2.clone()) {
                deepest = deepest.max(h2.len());
                queue.push_back((r2, h2));
            }
        }
        if todo.len() > limit {
            break;
        }
    }
    let bound = format!("breadth first over the distinct states of up to 4 nodes with parameters and statistics: {} histories of up to {} operations, one per transition of the reference graph reached", todo.len(), deepest + 1);
    ctx.family("breadth first", &bound, todo.len(), |c, l| {
        let mut r = RefNet::default();
        todo[c].iter().for_each(|o| r.apply(*o));
        l.state(&r);
        run_ops(&todo[c], l, false)
    });
    // Many nodes: graphs given by a rule, built in three orders, two of them on one network one after the other.
    let sizes = ctx.pick(vec![5usize, 9, 33, 65, 130, 257], vec![5, 9, 33, 65, 130, 257, 300, 520]);
    ctx.family("many nodes", "5..257 (520) nodes, 8 kinds of graph, edges in 3 orders, every node carrying parameters; then re-initialised and another kind of graph: parents, children, matrix and parameters of all nodes", sizes.len() * 8 * 3, |c, l| {
        let d = digits(c, &[sizes.len(), 8, 3]);
        let n = sizes[d[0]];
        let rule = |k: usize, p: usize, v: usize| p != v && match k {
            0 => p + 1 == v,
            1 => p == n - 1,
            2 => v == n / 2,
            3 => (p * 31 + v * 17) % 11 == 0,
            4 => p > v && (p - v) % 32 == 0,
            5 => v > p && (v - p) % 64 == 1,
            6 => p & v == 0,
            _ => false,
        };
        let mut real = CtbnNetwork::new();
        for v in 0..n {
            real.add_node(node(&label(v), 2 + v % 2)).unwrap();
        }
        real.initialize_adj_matrix();
        let mut before = None;
        for k in [d[1], (d[1] + 3) % 8] {
            for v in 0..n {
                inner_mut(real.get_node_mut(v)).set_cim_unchecked(token_cim(v % 7, 1, 2 + v % 2));
            }
            if before.is_some() {
                real.initialize_adj_matrix();
            }
            let mut edges: Vec<(usize, usize)> = (0..n * n).map(|x| (x / n, x % n)).filter(|(p, v)| rule(k, *p, *v)).collect();
            match d[2] {
                0 => {}
                1 => edges.reverse(),
                _ => edges.sort_by_key(|e| fnv(e)),
            }
            for (p, v) in &edges {
                real.add_edge(*p, *v);
                l.step(1);
            }
            let m = real.get_adj_matrix().ok_or("no adjacency matrix")?.to_owned();
            for v in 0..n {
                let ps: Set = (0..n).filter(|p| rule(k, *p, v)).collect();
                let cs: Set = (0..n).filter(|x| rule(k, v, *x)).collect();
                ensure!(real.get_parent_set(v) == ps, "{} nodes, graph {}: parents of {} are {:?} instead of {:?}", n, k, v, real.get_parent_set(v), ps);
                ensure!(real.get_children_set(v) == cs, "{} nodes, graph {}: children of {} are {:?} instead of {:?}", n, k, v, real.get_children_set(v), cs);
                for x in 0..n {
                    ensure!((m[[x, v]] != 0) == ps.contains(&x), "{} nodes, graph {}: entry ({},{}) of the matrix is {}", n, k, x, v, m[[x, v]]);
                }
                let had = before.map_or(false, |b| (0..n).any(|p| rule(b, p, v)));
                let p = inner(real.get_node(v));
                ensure!(p.get_label() == &label(v) && p.get_reserved_space_as_parent() == 2 + v % 2, "node {} changed", v);
                if ps.is_empty() && !had {
                    ensure!(p.get_cim() == &Some(token_cim(v % 7, 1, 2 + v % 2)), "{} nodes, graph {}: node {} without parents lost its parameters", n, k, v);
                } else {
                    ensure!(p.get_cim().is_none(), "{} nodes, graph {}: node {} keeps parameters", n, k, v);
                }
            }
            l.state(&(n, k, before));
            before = Some(k);
        }
        l.trace();
        l.outcome(&d);
        Ok(())
    });
    // The same operation over and over.
    ctx.family("repeated operations", "the same edge added, the same parameters set and the network re-initialised again and again, up to 131072 times, on 2 and 3 nodes, with and without another edge: all observables on the way, and after another edge and a node", 3 * 2 * 2, |c, l| {
        let d = digits(c, &[3, 2, 2]);
        let op = [Op::AddEdge(0, 1), Op::Init, Op::SetCim(1)][d[0]];
        let mut net = CtbnNetwork::new();
        let mut r = RefNet::default();
        let mut go = |op: Op, look: bool, l: &mut Loc| -> Res {
            apply(&mut net, &r, op)?;
            r.apply(op);
            l.step(1);
            if look { compare(&net, &r) } else { Ok(()) }
        };
        for v in 0..2 + d[1] {
            go(Op::AddNode(2 + v, false), true, l)?;
        }
        if d[2] == 1 {
            go(Op::AddEdge(d[1], 1 - d[1]), true, l)?;
        }
        let last = 131_072;
        for i in 0..last {
            go(op, i < 3 || i & (i + 1) == 0 || i + 2 > last, l).map_err(|e| format!("{:?}, repeated {} times: {}", op, i + 1, e))?;
        }
        for op in [Op::SetCim(0), Op::AddEdge(1, 0), Op::SetCim(1), Op::SetStats(1), Op::Init, Op::AddEdge(0, 1), Op::AddNode(2, true), Op::AddEdge(0, 1)] {
            go(op, true, l).map_err(|e| format!("{:?} afterwards: {}", op, e))?;
        }
        l.state(&d);
        l.trace();
        Ok(())
    });
    // The single node process.
    ctx.family("ctmp", "all sequences of 5 operations: add node (3 kinds), set parameters, reset", 5usize.pow(5), |c, l| {
        let d = digits(c, &[5; 5]);
        let mut p = CtmpProcess::new();
        let mut r: Option<(usize, bool)> = None;
        for (i, op) in d.iter().enumerate() {
            match op {
                0..=2 => {
                    let k = op + 2;
                    let mut q = dsct(&format!("k{}", k), k);
                    if *op == 2 {
                        q.set_cim_unchecked(token_cim(k, 1, k));
                    }
                    let got = p.add_node(reCTBN::params::Params::DiscreteStatesContinousTime(q));
                    match r {
                        None => {
                            ensure!(matches!(got, Ok(0)), "first node refused: {:?}", got);
                            r = Some((k, *op == 2));
                        }
                        Some(_) => ensure!(got.is_err(), "a second node was accepted"),
                    }
                }
                3 => {
                    if let Some((k, _)) = r {
                        inner_mut(p.get_node_mut(0)).set_cim(layout(token_cim(k, 1, k))).map_err(|e| format!("{:?}", e))?;
                        r = Some((k, true));
                    }
                }
                _ => {
                    if let Some((k, _)) = r {
                        p.get_node_mut(0).reset_params();
                        r = Some((k, false));
                    }
                }
            }
            l.step(1);
            l.state(&r);
            let n = r.is_some() as usize;
            ensure!(p.get_number_of_nodes() == n && p.get_node_indices() == (0..n), "{} nodes after {:?}", p.get_number_of_nodes(), &d[..=i]);
            if let Some((k, has)) = r {
                let q = inner(p.get_node(0));
                ensure!(q.get_label() == &format!("k{}", k) && q.get_reserved_space_as_parent() == k, "the node changed after {:?}", &d[..=i]);
                ensure!(q.get_cim().as_ref() == has.then(|| token_cim(k, 1, k)).as_ref(), "the parameters changed after {:?}", &d[..=i]);
                ensure!(p.get_parent_set(0).is_empty() && p.get_children_set(0).is_empty(), "a Markov process has edges");
            }
        }
        l.trace();
        Ok(())
    });
    ctx.sample("AddNode(2) AddNode(3) AddEdge(0,1) SetCim(1) AddNode(2) -> no edges, node 1 without CIM, node 0 unchanged".into());
    ctx.sample("AddNode(2) AddNode(2) SetCim(0) AddEdge(0,1) Init -> node 0 keeps its CIM".into());
}

// ------------------------------------------------------------------------------------------ C03

pub fn c03(ctx: &mut Ctx) {
    let mut cases: Vec<(Vec<usize>, usize)> = vec![];
    for n in 1..=3usize {
        let r = vec![4usize; n];
        for cc in 0..prod(&r) {
            let cards: Vec<usize> = digits(cc, &r).iter().map(|x| x + 2).collect();
            for g in 0..n_graphs(n) {
                cases.push((cards.clone(), g));
            }
        }
    }
    let four: Vec<Vec<usize>> = ctx.pick(
        vec![vec![2, 3, 2, 4], vec![3, 2, 4, 2], vec![4, 3, 2, 3], vec![2, 2, 3, 3], vec![3, 3, 2, 2]],
        (0..256).map(|c| digits(c, &[4; 4]).iter().map(|x| x + 2).collect()).collect(),
    );
    for cards in &four {
        for g in 0..n_graphs(4) {
            cases.push((cards.clone(), g));
        }
    }
    ctx.family("network index", "all graphs on 1..3 nodes with all cardinalities 2..5 and on 4 nodes with 5 (256) cardinality vectors; every node and every joint state; edges inserted in both orders", cases.len(), |c, l| {
        let (cards, g) = &cases[c];
        let net = Net { cards: cards.clone(), parents: graph(cards.len(), *g), cims: vec![] };
        let mut real = CtbnNetwork::new();
        for (i, k) in cards.iter().enumerate() {
            real.add_node(node(&label(i), *k)).unwrap();
        }
        real.initialize_adj_matrix();
        let mut edges = net.edges();
        if c % 2 == 1 {
            edges.reverse();
        }
        for (p, ch) in edges {
            real.add_edge(p, ch);
        }
        l.state(&(cards, g));
        let n = cards.len();
        for v in 0..n {
            let ps = &net.parents[v];
            let mut reached: HashMap<Vec<usize>, usize> = HashMap::new();
            for i in 0..net.nstates() {
                let s = decode(cards, i);
                let want = config(cards, ps, &s);
                let got = real.get_param_index_network(v, &st(&s));
                let got2 = real.get_param_index_from_custom_parent_set(&st(&s), ps);
                l.step(2);
                ensure!(got == want, "{}: node {} in state {:?} uses configuration {}, expected {}", net.describe(), v, s, got, want);
                ensure!(got2 == want, "{}: explicit parent set {:?} in state {:?} gives {}, expected {}", net.describe(), ps, s, got2, want);
                reached.insert(ps.iter().map(|p| s[*p]).collect(), got);
            }
            let mut idx: Vec<usize> = reached.values().copied().collect();
            idx.sort();
            ensure!(idx == (0..joint(cards, ps)).collect::<Vec<_>>(), "{}: the configurations of node {} are not one-to-one: {:?}", net.describe(), v, reached);
            l.outcome(&(v, idx));
        }
        l.trace();
        Ok(())
    });
    let mut cases: Vec<(Vec<usize>, usize)> = vec![];
    for n in 1..=5usize {
        let r = vec![ctx.pick(if n < 5 { 3usize } else { 2 }, 3); n];
        for cc in 0..prod(&r) {
            let cards: Vec<usize> = digits(cc, &r).iter().map(|x| x + 2).collect();
            for m in 0..1usize << n {
                cases.push((cards.clone(), m));
            }
        }
    }
    ctx.family("explicit parent set", "all subsets of up to 5 nodes, cardinalities 2..4 (2..3 for 5 nodes in the quick tier), every joint state", cases.len(), |c, l| {
        let (cards, m) = &cases[c];
        let ps = mask(*m);
        let mut real = CtbnNetwork::new();
        for (i, k) in cards.iter().enumerate() {
            real.add_node(node(&label(i), *k)).unwrap();
        }
        if c % 2 == 0 {
            // edges unrelated to the explicit set
            for v in 1..cards.len() {
                real.add_edge(v - 1, v);
            }
        }
        l.state(&(cards, m));
        for i in 0..cards.iter().product::<usize>() {
            let s = decode(cards, i);
            let got = real.get_param_index_from_custom_parent_set(&st(&s), &ps);
            l.step(1);
            ensure!(got == config(cards, &ps, &s), "cards {:?}: parent set {:?} in state {:?} gives {}", cards, ps, s, got);
        }
        l.trace();
        Ok(())
    });
    let mut cases: Vec<Vec<usize>> = vec![];
    for n in 1..=5usize {
        let r = vec![if n < 5 { 5usize } else { 3 }; n];
        for cc in 0..prod(&r) {
            cases.push(digits(cc, &r).iter().map(|x| x + 1).collect());
        }
    }
    ctx.family("decoding", "every joint state of 1..5 variables with cardinalities 1..5 (1..3 for five)", cases.len(), |c, l| {
        let cards = &cases[c];
        let dom = Array1::from_vec(cards.clone());
        l.state(cards);
        for i in 0..cards.iter().product::<usize>() {
            let got = CtbnNetwork::idx_to_state(&dom, i).to_vec();
            l.step(1);
            ensure!(got == decode(cards, i), "state {} of {:?} decodes to {:?}", i, cards, got);
            ensure!(encode(cards, &got) == i, "decoding is not the inverse of the numbering");
        }
        l.trace();
        Ok(())
    });
    // Far apart indices, large cardinalities, products beyond 32 bits.
    let places: Vec<usize> = vec![0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 299];
    let big = [2usize, 3, 9, 10, 11, 16, 17, 255, 256, 257, 1000, 65536, 65537];
    let mut cases: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for (i, k) in big.iter().enumerate() {
        for (j, m) in big.iter().enumerate() {
            cases.push((vec![places[i], places[j + 1 + i.min(3)]], vec![*k, *m]));
        }
    }
    for n in 3..=13usize {
        for from in 0..=(places.len() - n) {
            cases.push((places[from..from + n].to_vec(), (0..n).map(|x| big[(x + from + n) % 5]).collect()));
            cases.push((places[from..from + n].to_vec(), vec![2; n]));
        }
    }
    for from in 0..8 {
        cases.push((places[from..from + 3].to_vec(), vec![1000, 257, 256]));
        cases.push((places[from..from + 3].to_vec(), vec![65536, 65537, 65536]));
    }
    ctx.family("300 variables", "parents at indices around the powers of two up to 256 with 2..65537 states, up to 13 parents, more than 2^32 configurations: the lowest and highest values of each parent in all combinations, one more step of each parent, all other variables moved", cases.len(), |c, l| {
        let (at, k) = &cases[c];
        let n = 300;
        let child = 150;
        let mut cards = vec![2; n];
        for (p, k) in at.iter().zip(k) {
            cards[if *p == child { 151 } else { *p }] = *k;
        }
        let ps = set(at);
        let mut real = CtbnNetwork::new();
        for (i, k) in cards.iter().enumerate() {
            real.add_node(node(&label(i), *k)).unwrap();
        }
        real.initialize_adj_matrix();
        for p in at.iter().rev() {
            real.add_edge(*p, child);
        }
        ensure!(real.get_parent_set(child) == ps, "parents {:?} instead of {:?}", real.get_parent_set(child), ps);
        let mut judge = |s: &[usize]| -> Res {
            let want = config(&cards, &ps, s);
            let got = real.get_param_index_network(child, &st(s));
            let got2 = real.get_param_index_from_custom_parent_set(&st(s), &ps);
            l.step(2);
            ensure!(got == want && got2 == want, "parents {:?} of {:?} states in {:?}: configurations {} (network) and {} (explicit), expected {}", at, k, at.iter().map(|p| s[*p]).collect::<Vec<_>>(), got, got2, want);
            l.state(&(at, k, want));
            Ok(())
        };
        for corner in 0..1usize << at.len().min(10) {
            for other in 0..2 {
                let mut s = vec![0; n];
                if other == 1 {
                    (0..n).filter(|v| !ps.contains(v)).for_each(|v| s[v] = cards[v] - 1);
                }
                for (i, p) in at.iter().enumerate() {
                    s[*p] = if corner >> (i % 10) & 1 == 1 { k[i] - 1 } else { 0 };
                }
                judge(&s)?;
                for (i, p) in at.iter().enumerate() {
                    let was = s[*p];
                    for x in [1, k[i] / 2, k[i] - 2] {
                        s[*p] = x;
                        judge(&s)?;
                    }
                    s[*p] = was;
                }
            }
        }
        l.trace();
        Ok(())
    });
    let lists: Vec<Vec<usize>> = vec![vec![300], vec![2; 12], vec![17, 16, 3], vec![3, 16, 17], vec![256, 2, 5], vec![2, 255, 2], vec![10; 4], vec![1, 300, 1, 2]];
    ctx.family("decoding, many states", "every joint state of 8 lists of up to 12 variables and 300 states", lists.len(), |c, l| {
        let cards = &lists[c];
        let dom = Array1::from_vec(cards.clone());
        for i in 0..cards.iter().product::<usize>() {
            let got = CtbnNetwork::idx_to_state(&dom, i).to_vec();
            l.step(1);
            ensure!(got == decode(cards, i), "state {} of {:?} decodes to {:?}", i, cards, got);
        }
        l.state(cards);
        l.trace();
        Ok(())
    });
    let dom = Array1::from_vec(vec![65536usize, 65537, 300, 2, 1000]);
    ctx.family("decoding, large numbers", "all combinations of 0, 1, the middle and the last two states of 5 variables with 65536, 65537, 300, 2 and 1000 states", 5usize.pow(5), |c, l| {
        let cards = dom.to_vec();
        let s: Vec<usize> = digits(c, &[5; 5]).iter().zip(&cards).map(|(d, k)| [0, 1, k / 2, k - 2, k - 1][*d]).collect();
        let got = CtbnNetwork::idx_to_state(&dom, encode(&cards, &s)).to_vec();
        ensure!(got == s, "state {} of {:?} decodes to {:?} instead of {:?}", encode(&cards, &s), cards, got, s);
        l.step(1);
        l.state(&s);
        l.trace();
        Ok(())
    });
    ctx.sample("cards [2,3,2,4], parents of 3 = {0,1,2}: state [1,2,1,0] -> 1 + 2*2 + 1*6 = 11".into());
}

// ------------------------------------------------------------------------------------------ C04

/// Graphs on many nodes: numbers from here on.
const SHAPE: usize = 1 << 40;

pub fn shape(n: usize, k: usize) -> Vec<Set> {
    let mut ps = vec![Set::new(); n];
    for v in 0..n {
        for p in 0..n {
            if p != v && match k {
                0 => p + 1 == v,
                1 => p == v + 1,
                2 => p == 0,
                3 => v == n - 1,
                4 => (p + 1) % n == v,
                5 => (p + 2) % n == v || (p * p + 3 * v) % 5 == 1,
                _ => n < 8 && p < 7,
            } {
                ps[v].insert(p);
            }
        }
    }
    ps
}

fn check_amalgamation(net: &Net, l: &mut Loc) -> Res {
    let real = net.build();
    let ctmp = real.amalgamation();
    l.step(1);
    ensure!(ctmp.get_number_of_nodes() == 1, "the result has {} nodes", ctmp.get_number_of_nodes());
    let p = inner(ctmp.get_node(0));
    let n = net.nstates();
    ensure!(p.get_reserved_space_as_parent() == n, "{} states, expected {}", p.get_reserved_space_as_parent(), n);
    let q = p.get_cim().as_ref().ok_or("the result has no generator")?;
    ensure!(q.shape() == [1, n, n], "generator of shape {:?}", q.shape());
    ensure!(p.validate_params().is_ok(), "the generator does not validate");
    let want = net.generator();
    // What the rows of the variables leave to rounding.
    let slack: Vec<f64> = (0..n)
        .map(|i| {
            let s = decode(&net.cards, i);
            (0..net.n()).map(|v| (0..net.cards[v]).map(|y| net.rate(v, &s, y)).sum::<f64>().abs()).sum()
        })
        .collect();
    for i in 0..n {
        let mag = (0..net.n()).map(|v| net.exit(v, &decode(&net.cards, i))).fold(0.0, f64::max);
        for j in 0..n {
            let tol = if i == j { 1e-12 * mag + slack[i] } else { 1e-13 * want[[i, j]].abs() };
            ensure!(
                (q[[0, i, j]] - want[[i, j]]).abs() <= tol,
                "{}: rate {:?} -> {:?} is {}, expected {}",
                net.describe(), decode(&net.cards, i), decode(&net.cards, j), q[[0, i, j]], want[[i, j]]
            );
            l.step(1);
        }
    }
    for v in 0..net.n() {
        ensure!(inner(real.get_node(v)).get_cim().as_ref() == Some(&net.cims[v]), "amalgamation changed node {}", v);
        ensure!(real.get_parent_set(v) == net.parents[v], "amalgamation changed the parents of {}", v);
    }
    let h: Vec<u64> = q.iter().map(|x| x.to_bits()).collect();
    l.state(&h);
    l.outcome(&h);
    l.trace();
    Ok(())
}

pub fn c04(ctx: &mut Ctx) {
    let mut cases: Vec<(Vec<usize>, usize, usize)> = vec![];
    let styles = 4;
    for n in 1..=3usize {
        let k = if n < 3 { ctx.pick(6, 9) } else { 3 };
        let r = vec![k; n];
        for cc in 0..prod(&r) {
            let cards: Vec<usize> = digits(cc, &r).iter().map(|x| x + 2).collect();
            for g in 0..n_graphs(n) {
                for s in 0..styles {
                    cases.push((cards.clone(), g, s));
                }
            }
        }
    }
    for cards in [vec![2usize, 2, 2, 2], vec![2, 3, 2, 2], vec![3, 2, 2, 3], vec![2, 2, 3, 2]] {
        for g in 0..n_graphs(4) {
            for s in 0..ctx.pick(1, styles) {
                cases.push((cards.clone(), g, (g + s) % styles));
            }
        }
    }
    if !ctx.quick() {
        for g in 0..n_graphs(5) {
            cases.push((vec![2; 5], g, g % styles));
        }
    }
    for g in [0, 1, 5, 0b111111, 37] {
        cases.push((vec![3, 2, 4], g, 3));
        cases.push((vec![5, 3, 2], g, 1));
        cases.push((vec![2, 4, 3], g, 2));
    }
    // Numbers of states and of joint states which differ in their numbers of digits, or from one power of two to the next.
    for (cards, graphs) in [(vec![12usize, 12], 4usize), (vec![11, 2], 4), (vec![2, 17], 4), (vec![101, 2], 2), (vec![2, 11, 3], 8), (vec![11, 2, 2], 8), (vec![2, 2, 12], 8)] {
        for g in 0..graphs {
            cases.push((cards.clone(), if cards.len() == 3 { g * 9 } else { g }, g % styles));
        }
    }
    cases.push((vec![300], 0, 0));
    // More than a thousand joint states.
    for (cards, shape, style) in [(vec![33usize, 32], 4, 0), (vec![2; 10], 4, 1), (vec![2; 11], 0, 0), (vec![2, 3, 2, 3, 2, 3, 2, 3], 4, 3), (vec![11, 10, 11], 4, 1)] {
        cases.push((cards, SHAPE + shape, style));
    }
    if !ctx.quick() {
        cases.push((vec![2; 12], SHAPE + 4, 3));
        cases.push((vec![1300, 2], SHAPE, 0));
    }
    // Many variables: chain, reversed chain, star, inverted star, cycle, complete (7 variables), empty.
    for n in ctx.pick(5..=8usize, 5..=9) {
        for shape in 0..7 {
            cases.push((vec![2; n], SHAPE + shape, shape % styles));
            if n == 5 {
                cases.push((vec![2, 3, 2, 4, 2], SHAPE + shape, (1 + shape) % styles));
            }
        }
    }
    ctx.family("generator", "all graphs (cycles included) on 1..3 nodes with cardinalities 2..7 (thorough 2..10; 2..4 for three), on 4 binary and mixed nodes, and (thorough) on 5 binary nodes; two and three nodes with up to 101 states, one of 300; chains, stars, cycles and complete graphs on 5..8 (9) nodes; 1024 to 2048 (4096) joint states; pairwise distinct rates, rates from 1e-6 to 1e12, rows with zero rates", cases.len(), |c, l| {
        let (cards, g, style) = &cases[c];
        let base = Net::distinct(cards, &if *g >= SHAPE { shape(cards.len(), *g - SHAPE) } else { graph(cards.len(), *g) });
        let style = *style;
        let net = Net::with(cards, &base.parents, |v, c, x, y| {
            let r = base.cims[v][[c, x, y]];
            match style {
                0 => r,
                1 => r * [1e-6, 1.0, 1e6, 1e12][(v + c) % 4],
                2 => if cards[v] > 2 && (x + 1) % cards[v] != y { 0.0 } else { r },
                _ => r * 10f64.powi(((v * 7 + c * 3 + x * 5 + y) % 19) as i32 - 6),
            }
        });
        check_amalgamation(&net, l)
    });
    // Rows which only sum to zero up to rounding.
    let mut cases = vec![];
    for cards in [vec![3], vec![2, 2], vec![3, 2], vec![3, 3], vec![2, 2, 2], vec![3, 2, 3], vec![2; 5], vec![2; 8]] {
        for k in [0, 4, 5] {
            for m in [1e-10, 1e-3, 0.1, 0.3, 1.0, 50.0, 1e6] {
                for e in [1e-12, 1e-10, 1e-9, 5e-9, 1e-8, 1.4e-8] {
                    for sign in 0..3 {
                        cases.push((cards.clone(), k, m, e, sign));
                    }
                }
            }
        }
    }
    ctx.family("rows within rounding", "1..8 variables in chains, cycles and scattered graphs, rates from 1e-10 to 1e6, row sums off by 1e-12 to 1.4e-8 of the rates, in the same and in different directions: those that every variable accepts", cases.len(), |c, l| {
        let (cards, k, m, e, sign) = &cases[c];
        let mut net = Net::with(cards, &shape(cards.len(), *k), |v, c, x, y| m * (0.2 + 0.1 * ((v * 7 + c * 5 + x * 3 + y) % 8) as f64));
        for (v, q) in net.cims.iter_mut().enumerate() {
            for mut row in q.rows_mut() {
                let (i, top) = row.iter().enumerate().fold((0, 0.0), |a: (usize, f64), x| if -x.1 > a.1 { (x.0, -x.1) } else { a });
                row[i] += e * top * match sign { 0 => 1.0, 1 => -1.0, _ => [1.0, -1.0, 0.5][v % 3] };
            }
        }
        let mut real = net.build_structure();
        if (0..net.n()).any(|v| inner_mut(real.get_node_mut(v)).set_cim(layout(net.cims[v].clone())).is_err()) {
            return Ok(());
        }
        check_amalgamation(&net, l)
    });
    ctx.sample("A <-> B cyclic, both ternary: 9x9 generator, rate ((0,1)->(2,1)) = A's rate 0->2 under B=1, ((0,1)->(2,2)) = 0".into());
}

// ------------------------------------------------------------------------------------------ C20

fn tables(f: &mut FactoredRewardFunction, cards: &[usize], k: u64) {
    for v in 0..cards.len() {
        for x in 0..cards[v] {
            f.get_instantaneous_reward_mut(v)[x] = inst(v, x, k);
            for y in 0..cards[v] {
                f.get_transition_reward_mut(v)[[x, y]] = tran(v, x, y, k);
            }
        }
        relayout(f, v);
    }
}
pub fn inst(v: usize, x: usize, k: u64) -> f64 {
    (1 + x) as f64 * 10f64.powi(v as i32) * if k == 1 { -1.5 } else { 1.0 } + k as f64
}
pub fn tran(v: usize, x: usize, y: usize, k: u64) -> f64 {
    0.5 + (100 * v + 10 * x + y) as f64 * if k == 1 && x < y { -1.0 } else { 1.0 }
}

pub fn c20(ctx: &mut Ctx) {
    let mut cases: Vec<(Vec<usize>, u64)> = vec![];
    for n in 1..=4usize {
        let r = vec![if n < 4 { 4usize } else { 3 }; n];
        for cc in 0..prod(&r) {
            for k in 0..3 {
                cases.push((digits(cc, &r).iter().map(|x| x + 2).collect(), k));
            }
        }
    }
    ctx.family("value", "1..4 variables with all cardinalities 2..5 (2..4 for four), 3 sets of pairwise distinct tables, every current state and every previous state differing in at most one variable", cases.len(), |c, l| {
        let (cards, k) = &cases[c];
        let mut net = CtbnNetwork::new();
        for (i, x) in cards.iter().enumerate() {
            net.add_node(node(&label(i), *x)).unwrap();
        }
        let mut f = FactoredRewardFunction::initialize_from_network_process(&net);
        for v in 0..cards.len() {
            ensure!(f.get_instantaneous_reward(v).len() == cards[v], "instantaneous table of {} has {} entries", v, f.get_instantaneous_reward(v).len());
            ensure!(f.get_transition_reward(v).shape() == [cards[v], cards[v]], "transition table of {} has shape {:?}", v, f.get_transition_reward(v).shape());
            ensure!(f.get_instantaneous_reward(v).iter().all(|x| *x == 0.0) && f.get_transition_reward(v).iter().all(|x| *x == 0.0), "tables of {} not zero", v);
        }
        l.state(&(cards, k));
        for pass in 0..2 {
            if pass == 1 {
                tables(&mut f, cards, *k);
            }
            for i in 0..cards.iter().product::<usize>() {
                let s = decode(cards, i);
                let want_i: f64 = if pass == 0 { 0.0 } else { (0..cards.len()).map(|v| inst(v, s[v], *k)).sum() };
                let r = f.call(&st(&s), None);
                ensure!(close(r.instantaneous_reward, want_i, 1e-12), "{:?}: instantaneous {} expected {}", s, r.instantaneous_reward, want_i);
                ensure!(r.transition_reward == 0.0, "transition reward {} without a previous state", r.transition_reward);
                let r = f.call(&st(&s), Some(&st(&s)));
                ensure!(close(r.instantaneous_reward, want_i, 1e-12) && r.transition_reward == 0.0, "{:?} from itself: {:?}", s, r);
                l.step(2);
                for v in 0..cards.len() {
                    for x in 0..cards[v] {
                        if x != s[v] {
                            let mut p = s.clone();
                            p[v] = x;
                            let want_t = if pass == 0 { 0.0 } else { tran(v, x, s[v], *k) };
                            let r = f.call(&st(&s), Some(&st(&p)));
                            l.step(1);
                            ensure!(close(r.instantaneous_reward, want_i, 1e-12), "{:?} from {:?}: instantaneous {} expected {}", s, p, r.instantaneous_reward, want_i);
                            ensure!(close(r.transition_reward, want_t, 1e-12), "{:?} from {:?}: transition {} expected {}", s, p, r.transition_reward, want_t);
                            l.outcome(&(pass, r.transition_reward.to_bits()));
                        }
                    }
                }
                l.trace();
            }
        }
        Ok(())
    });
    // Many variables and many states.
    let lists: Vec<Vec<usize>> = vec![vec![300], vec![2; 300], vec![257, 256, 2], vec![2, 255, 300], (0..70).map(|v| 2 + v % 3).collect(), (0..33).map(|v| 2 + v % 9).collect()];
    ctx.family("many variables and states", "6 networks of up to 300 variables or 300 states, 3 sets of tables: the state of all zeros, of all last ones and two mixed ones, from every state differing in one variable", lists.len() * 3 * 4, |c, l| {
        let d = digits(c, &[lists.len(), 3, 4]);
        let cards = &lists[d[0]];
        let n = cards.len();
        let mut net = CtbnNetwork::new();
        for (i, x) in cards.iter().enumerate() {
            net.add_node(node(&label(i), *x)).unwrap();
        }
        let value = |v: usize, x: usize, y: usize| ((v * 90_001 + x * 301 + y + 1) as f64) * if d[1] == 1 && (x + y) % 2 == 1 { -0.25 } else { 0.25 };
        let mut f = FactoredRewardFunction::initialize_from_network_process(&net);
        for v in 0..n {
            ensure!(f.get_instantaneous_reward(v).len() == cards[v] && f.get_transition_reward(v).shape() == [cards[v], cards[v]], "tables of {} for {} states", v, cards[v]);
            for x in 0..cards[v] {
                f.get_instantaneous_reward_mut(v)[x] = value(v, x, 300) * d[1] as f64;
                for y in 0..cards[v] {
                    f.get_transition_reward_mut(v)[[x, y]] = value(v, x, y);
                }
            }
            relayout(&mut f, v);
        }
        let s: Vec<usize> = (0..n).map(|v| match d[2] {
            0 => 0,
            1 => cards[v] - 1,
            2 => v % cards[v],
            _ => (7 * v + 200) % cards[v],
        }).collect();
        let want_i: f64 = (0..n).map(|v| value(v, s[v], 300) * d[1] as f64).sum();
        for v in 0..n {
            for x in 0..cards[v] {
                let mut p = s.clone();
                p[v] = x;
                let r = f.call(&st(&s), Some(&st(&p)));
                let want_t = if x == s[v] { 0.0 } else { value(v, x, s[v]) };
                l.step(1);
                ensure!(close(r.instantaneous_reward, want_i, 1e-9) && r.transition_reward == want_t, "{} variables: variable {} from {} to {}: {:?}, expected ({}, {})", n, v, x, s[v], r, want_t, want_i);
            }
            l.state(&(&d, v));
        }
        l.trace();
        l.outcome(&want_i.to_bits());
        Ok(())
    });
    // Editing one table affects nothing else.
    let cards = [2usize, 3, 2];
    let cells: usize = cards.iter().map(|c| c + c * c).sum();
    ctx.family("isolation", "all ordered pairs of single-cell edits of the tables of 3 variables (2,3,2 states): every other cell unchanged, then every reward", cells * cells, |c, l| {
        let d = digits(c, &[cells, cells]);
        let mut net = CtbnNetwork::new();
        for (i, x) in cards.iter().enumerate() {
            net.add_node(node(&label(i), *x)).unwrap();
        }
        let mut f = FactoredRewardFunction::initialize_from_network_process(&net);
        let g = FactoredRewardFunction::initialize_from_network_process(&net);
        let mut mi: Vec<Vec<f64>> = cards.iter().map(|c| vec![0.0; *c]).collect();
        let mut mt: Vec<Vec<f64>> = cards.iter().map(|c| vec![0.0; c * c]).collect();
        for (k, cell) in d.iter().enumerate() {
            let mut i = *cell;
            for v in 0..3 {
                let c = cards[v];
                if i < c {
                    f.get_instantaneous_reward_mut(v)[i] = 2.5 + k as f64;
                    mi[v][i] = 2.5 + k as f64;
                    break;
                }
                i -= c;
                if i < c * c {
                    f.get_transition_reward_mut(v)[[i / c, i % c]] = -1.5 - k as f64;
                    mt[v][i] = -1.5 - k as f64;
                    break;
                }
                i -= c * c;
            }
            l.step(1);
        }
        for v in 0..3 {
            ensure!(f.get_instantaneous_reward(v).to_vec() == mi[v], "instantaneous table of {} is {:?}, expected {:?}", v, f.get_instantaneous_reward(v), mi[v]);
            ensure!(f.get_transition_reward(v).iter().copied().collect::<Vec<_>>() == mt[v], "transition table of {} is {:?}", v, f.get_transition_reward(v));
            ensure!(g.get_instantaneous_reward(v).iter().chain(g.get_transition_reward(v).iter()).all(|x| *x == 0.0), "another reward function changed");
        }
        l.state(&d);
        for i in 0..12 {
            let s = decode(&cards, i);
            for v in 0..3 {
                for x in 0..cards[v] {
                    let mut p = s.clone();
                    p[v] = x;
                    let r = f.call(&st(&s), Some(&st(&p)));
                    let wi: f64 = (0..3).map(|v| mi[v][s[v]]).sum();
                    let wt = if x == s[v] { 0.0 } else { mt[v][x * cards[v] + s[v]] };
                    l.step(1);
                    ensure!(close(r.instantaneous_reward, wi, 1e-12) && close(r.transition_reward, wt, 1e-12), "{:?} from {:?}: {:?}, expected ({},{})", s, p, r, wt, wi);
                }
            }
        }
        l.trace();
        Ok(())
    });
    // Edits and calls in any order, on two functions.
    let depth = ctx.pick(5usize, 6);
    let shapes = [([2usize, 3], [2usize, 3]), ([2, 3], [3, 2])];
    // what: 0..6 the edits, 6..12 the calls; of the first function or of the second one
    let nops = 12usize;
    let total: usize = shapes.len() * nops.pow(depth as u32);
    ctx.family("histories", "two functions of two variables (2 and 3 states, in the same or the other order): all sequences of 5 (6) operations out of 6 edits (a cell, a whole table) and 6 calls, a call in full at the end", total / (nops * nops), |c, l| {
        let d = digits(c, &[shapes.len()]);
        let (a, b) = shapes[d[0]];
        let mut rest = c / shapes.len();
        let mut head = vec![];
        for _ in 0..depth - 2 {
            head.push(rest % nops);
            rest /= nops;
        }
        for tail in 0..nops * nops {
            let ops: Vec<usize> = head.iter().copied().chain([tail % nops, tail / nops]).collect();
            let cards = [a, b];
            let mut f: Vec<FactoredRewardFunction> = cards.iter().map(|k| {
                let mut net = CtbnNetwork::new();
                for (i, x) in k.iter().enumerate() {
                    net.add_node(node(&label(i), *x)).unwrap();
                }
                FactoredRewardFunction::initialize_from_network_process(&net)
            }).collect();
            let mut mi: Vec<Vec<Vec<f64>>> = cards.iter().map(|k| k.iter().map(|k| vec![0.0; *k]).collect()).collect();
            let mut mt: Vec<Vec<Vec<f64>>> = cards.iter().map(|k| k.iter().map(|k| vec![0.0; k * k]).collect()).collect();
            let query = |f: &[FactoredRewardFunction], mi: &Vec<Vec<Vec<f64>>>, mt: &Vec<Vec<Vec<f64>>>, w: usize, s: [usize; 2], p: Option<[usize; 2]>| -> Result<(), String> {
                let r = f[w].call(&st(&s), p.as_ref().map(|p| st(p)).as_ref());
                let wi = mi[w][0][s[0]] + mi[w][1][s[1]];
                let wt = match p {
                    Some(p) => match (0..2).find(|v| p[*v] != s[*v]) {
                        Some(v) => mt[w][v][p[v] * cards[w][v] + s[v]],
                        None => 0.0,
                    },
                    None => 0.0,
                };
                ensure!(r.instantaneous_reward == wi && r.transition_reward == wt, "after {:?}, function {}: {:?} from {:?}: {:?}, expected ({}, {})", ops, w, s, p, r, wt, wi);
                Ok(())
            };
            for (i, op) in ops.iter().enumerate() {
                let new = 0.25 + (1 << i) as f64;
                let w = op % 2;
                match op / 2 {
                    0 => {
                        f[w].get_instantaneous_reward_mut(0)[1] = new;
                        mi[w][0][1] = new;
                    }
                    1 => {
                        f[w].get_transition_reward_mut(1)[[0, 1]] = -new;
                        mt[w][1][1] = -new;
                    }
                    2 => {
                        f[w].get_instantaneous_reward_mut(1).fill(new);
                        mi[w][1].iter_mut().for_each(|x| *x = new);
                    }
                    3 => query(&f, &mi, &mt, w, [1, 1], Some([1, 0]))?,
                    4 => query(&f, &mi, &mt, w, [1, 1], Some([0, 1]))?,
                    _ => query(&f, &mi, &mt, w, [1, 1], None)?,
                }
            }
            for w in 0..2 {
                for s in [[0, 0], [1, 1]] {
                    for p in [[0, 0], [1, 0], [0, 1], [1, 1]] {
                        if (0..2).filter(|v| s[*v] != p[*v]).count() < 2 {
                            query(&f, &mi, &mt, w, s, Some(p))?;
                        }
                    }
                }
            }
            l.traces += 1;
        }
        l.step((nops * nops * depth) as u64);
        l.state(&c);
        Ok(())
    });
    // Rewards of every size.
    let sizes = [0.0, -0.0, 5e-324, 1e-300, 1e-9, -1e-9, 0.1, -3.0, 1e9, -1e9, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY];
    let m = sizes.len();
    ctx.family("sizes of the rewards", "1..3 variables, all triples of 14 rewards from the smallest to the infinite ones: sums and transitions", m * m * m, |c, l| {
        let d = digits(c, &[m, m, m]);
        let r: Vec<f64> = d.iter().map(|x| sizes[*x]).collect();
        for n in 1..=3usize {
            let mut net = CtbnNetwork::new();
            for i in 0..n {
                net.add_node(node(&label(i), 2 + i % 2)).unwrap();
            }
            let mut f = FactoredRewardFunction::initialize_from_network_process(&net);
            for v in 0..n {
                f.get_instantaneous_reward_mut(v)[1] = r[v];
                f.get_transition_reward_mut(v)[[0, 1]] = r[v];
            }
            let one = vec![1; n];
            let want: f64 = r[..n].iter().sum();
            let scale = r[..n].iter().fold(0.0, |a: f64, x| a.max(x.abs()));
            for v in 0..n {
                let mut p = one.clone();
                p[v] = 0;
                let got = f.call(&st(&one), Some(&st(&p)));
                let i = got.instantaneous_reward;
                ensure!(i == want || (want.is_nan() && i.is_nan()) || (want.is_finite() && (i - want).abs() <= 1e-12 * scale), "rewards {:?}: instantaneous {} expected {}", &r[..n], i, want);
                ensure!(got.transition_reward == r[v], "rewards {:?}: transition of {}: {}", &r[..n], v, got.transition_reward);
                let back = f.call(&st(&p), Some(&st(&one)));
                ensure!(back.transition_reward == 0.0, "rewards {:?}: transition back of {}: {}", &r[..n], v, back.transition_reward);
                l.step(2);
            }
            l.trace();
        }
        l.state(&c);
        Ok(())
    });
    // The single node process.
    ctx.family("ctmp", "single node processes of 2..9 states", 8, |c, l| {
        let k = c + 2;
        let mut p = CtmpProcess::new();
        p.add_node(node("x", k)).map_err(|e| format!("{:?}", e))?;
        let mut f = FactoredRewardFunction::initialize_from_network_process(&p);
        tables(&mut f, &[k], 2);
        for x in 0..k {
            for y in 0..k {
                let r = f.call(&st(&[y]), Some(&st(&[x])));
                ensure!(close(r.instantaneous_reward, inst(0, y, 2), 1e-12), "instantaneous {:?}", r);
                ensure!(close(r.transition_reward, if x == y { 0.0 } else { tran(0, x, y, 2) }, 1e-12), "transition {:?}", r);
                l.step(1);
                l.state(&(k, x, y));
            }
        }
        l.trace();
        Ok(())
    });
    ctx.sample("cards [2,3]: current [1,2], previous [1,0] -> instantaneous i0(1)+i1(2), transition t1(0,2)".into());
}
