//! C01 CIM validation, C05 next state, C06 residence time and uniform state.

use crate::core::*;
use crate::ensure;
use crate::model::*;
use crate::rng::*;
use ndarray::{Array2, Array3, ShapeBuilder};
use reCTBN::params::{DiscreteStatesContinousTimeParams, ParamsTrait, StateType};

// ------------------------------------------------------------------------------------------ C01

#[derive(PartialEq, Debug, Clone, Copy)]
enum Verdict {
    Accept,
    Reject,
    /// Within the margin left to the rounding tolerance.
    Either,
}

/// The definition of a valid CIM.
fn verdict(card: usize, cim: &Array3<f64>) -> Verdict {
    let sh = cim.shape();
    if sh[1] != card || sh[2] != card {
        return Verdict::Reject;
    }
    let mut v = Verdict::Accept;
    for c in 0..sh[0] {
        for x in 0..card {
            let (mut sum, mut mag) = (0.0, 0.0_f64);
            for y in 0..card {
                let r = cim[[c, x, y]];
                if !r.is_finite() {
                    return Verdict::Reject;
                }
                if x == y && r >= 0.0 {
                    return Verdict::Reject;
                }
                if x != y && r < 0.0 {
                    return Verdict::Reject;
                }
                sum += r;
                mag = mag.max(r.abs());
            }
            let sum = f64::abs(sum);
            if sum > 1e-6 * mag {
                return Verdict::Reject;
            }
            if sum > 8.0 * f64::EPSILON * card as f64 * mag {
                v = Verdict::Either;
            }
        }
    }
    v
}

fn same_bits(a: &Array3<f64>, b: &Array3<f64>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits())
}

fn check_insert(
    p: &mut DiscreteStatesContinousTimeParams,
    card: usize,
    cim: &Array3<f64>,
    l: &mut Loc,
) -> Res {
    let want = verdict(card, cim);
    let got = p.set_cim(layout(cim.clone()));
    l.step(1);
    l.outcome(&(want as u8, got.is_ok()));
    match (want, &got) {
        (Verdict::Accept, Err(e)) => {
            return Err(format!("valid CIM refused ({:?}): {:?}", e, cim));
        }
        (Verdict::Reject, Ok(())) => {
            return Err(format!("invalid CIM accepted: {:?}", cim));
        }
        _ => {}
    }
    match (&got, p.get_cim()) {
        (Ok(()), Some(c)) => ensure!(same_bits(c, cim), "stored CIM {:?} is not the given {:?}", c, cim),
        (Ok(()), None) => return Err(format!("accepted CIM not stored: {:?}", cim)),
        (Err(_), None) => {}
        (Err(_), Some(c)) => return Err(format!("node holds the CIM {:?} after refusing {:?}", c, cim)),
    }
    ensure!(
        p.validate_params().is_ok() == got.is_ok(),
        "validation after insertion differs from the insertion's verdict for {:?}",
        cim
    );
    l.step(1);
    // The same matrix stored without check gets the same verdict.
    let mut q = dsct("q", card);
    q.set_cim_unchecked(cim.clone());
    ensure!(
        q.validate_params().is_ok() == got.is_ok(),
        "validation of a stored CIM differs from its insertion: {:?}",
        cim
    );
    match q.get_cim() {
        Some(c) => ensure!(same_bits(c, cim), "unchecked insertion or validation altered the CIM"),
        None => return Err("unchecked insertion did not store the CIM".into()),
    }
    l.step(2);
    l.trace();
    Ok(())
}

fn valid_cim(u: usize, k: usize, scale: f64, zeros: usize) -> Array3<f64> {
    let mut m = Array3::zeros((u, k, k));
    let mut n = 0;
    for c in 0..u {
        for x in 0..k {
            let mut exit = 0.0;
            for y in 0..k {
                if x != y {
                    n += 1;
                    let zero = k > 2 && zeros > 0 && (n % (zeros + 1)) == 0 && (y + 1) % k != x;
                    let r = if zero { 0.0 } else { scale * (0.1 + (n as f64 * 0.37).fract()) };
                    m[[c, x, y]] = r;
                    exit += r;
                }
            }
            m[[c, x, x]] = -exit;
        }
    }
    m
}

pub fn c01(ctx: &mut Ctx) {
    ctx.assume("row sums between 8·eps·states·magnitude and 1e-6·magnitude are left to the implementation's rounding tolerance");

    // (a) every 2x2 matrix over an alphabet of values
    let alpha: Vec<f64> = vec![
        1.0, -1.0, 0.0, -0.0, 2.0, -2.0, 0.3, -0.3, 1e-9, -1e-9, 1e-3, -1e-3, 1e12, -1e12,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE,
    ];
    let a = alpha.len();
    ctx.family("2x2", "all 2x2 matrices over 20 values", a.pow(4), |c, l| {
        let d = digits(c, &[a; 4]);
        let m = Array3::from_shape_fn((1, 2, 2), |(_, x, y)| alpha[d[2 * x + y]]);
        l.state(&bits(m.as_slice().unwrap()));
        check_insert(&mut dsct("x", 2), 2, &m, l)
    });
    // (b) two configurations over a smaller alphabet
    let small = [1.0, -1.0, 0.0, 2.0, f64::NAN, f64::INFINITY];
    let quick = ctx.quick();
    let sm: Vec<f64> = small.to_vec();
    let b = sm.len();
    ctx.family("2x(2x2)", "all pairs of 2x2 matrices over 6 values", b.pow(8), |c, l| {
        let d = digits(c, &[b; 8]);
        let m = Array3::from_shape_fn((2, 2, 2), |(u, x, y)| sm[d[4 * u + 2 * x + y]]);
        l.state(&bits(m.as_slice().unwrap()));
        check_insert(&mut dsct("x", 2), 2, &m, l)
    });
    // (c) all 3x3 matrices over three/four values
    let tri = [0.0, 1.0, -1.0, -2.0, 2.0];
    let t: usize = if quick { 4 } else { 5 };
    let tri: Vec<f64> = tri[..t].to_vec();
    ctx.family("3x3", "all 3x3 matrices over 4 (5) values", t.pow(9), |c, l| {
        let d = digits(c, &vec![t; 9]);
        let m = Array3::from_shape_fn((1, 3, 3), |(_, x, y)| tri[d[3 * x + y]]);
        l.state(&bits(m.as_slice().unwrap()));
        check_insert(&mut dsct("x", 3), 3, &m, l)
    });
    // (d) valid matrices with one or two defects at every position
    let shapes: Vec<(usize, usize)> = ctx.pick(
        vec![(1, 2), (2, 2), (1, 3), (3, 3), (4, 2), (2, 4), (6, 5)],
        vec![(1, 2), (2, 2), (1, 3), (3, 3), (4, 2), (2, 4), (3, 4), (6, 5), (16, 2), (12, 3), (9, 6)],
    );
    let scales = [1.0, 1e-3, 50.0, 1e6, 1e12, 1e-10];
    let nd = 14;
    let mut list = vec![];
    for (si, (u, k)) in shapes.iter().enumerate() {
        for sc in 0..scales.len() {
            for z in 0..3 {
                for pos in 0..u * k * k {
                    for def in 0..nd {
                        list.push((si, sc, z, pos, def));
                    }
                }
            }
        }
    }
    // large ones: defects in the corners of the first, the last and some other configurations
    let small_shapes = shapes.len();
    let mut shapes = shapes;
    shapes.extend([(1, 20), (1, 70), (1, 257), (1, 300), (17, 12), (70, 2), (257, 3), (1000, 2), (66000, 2)]);
    for si in small_shapes..shapes.len() {
        let (u, k): (usize, usize) = shapes[si];
        for cu in [0, 1, 63, 64, 255, 256, 65535, 65536, u / 2, u - 2 % u, u - 1].into_iter().filter(|x| *x < u).collect::<Set>() {
            for x in [0, 15, 64, 255, 256, k - 1].into_iter().filter(|x| *x < k).collect::<Set>() {
                for y in [0, 1, 16, 65, 255, 256, k - 2, k - 1].into_iter().filter(|y| *y < k).collect::<Set>() {
                    for def in 0..nd {
                        list.push((si, [0, 3, 5][def % 3], def % 2, cu * k * k + x * k + y, def));
                    }
                }
            }
        }
    }
    ctx.family("defects", "valid CIMs of up to 6 (16) configurations and 5 (6) states at 6 scales, with every single defect of 14 kinds at every position; CIMs of up to 300 states or 66000 configurations, with the defects in corners and around powers of two", list.len(), |c, l| {
        let (si, sc, z, pos, def) = list[c];
        let (u, k) = shapes[si];
        let s = scales[sc];
        let mut m = valid_cim(u, k, s, z);
        let (cu, x, y) = (pos / (k * k), pos / k % k, pos % k);
        let big = m[[cu, x, x]].abs();
        match def {
            0 => {} // valid
            1 => m[[cu, x, y]] = f64::NAN,
            2 => m[[cu, x, y]] = f64::INFINITY,
            3 => m[[cu, x, y]] = f64::NEG_INFINITY,
            4 => m[[cu, x, y]] = -m[[cu, x, y]],
            5 => m[[cu, x, y]] += 1e-3 * big.max(1.0),
            6 => m[[cu, x, y]] -= 1e-3 * big.max(1.0),
            7 => m[[cu, x, y]] = 0.0,
            // negative rate with the row still summing to zero
            8 => {
                let d = 2.0 * m[[cu, x, y]];
                if x != y {
                    m[[cu, x, y]] -= d;
                    m[[cu, x, x]] += d;
                    if k > 2 && m[[cu, x, x]] >= 0.0 {
                        let o = (0..k).find(|o| *o != x && *o != y).unwrap();
                        let e = m[[cu, x, x]] + 1.0;
                        m[[cu, x, x]] -= e;
                        m[[cu, x, o]] += e;
                    }
                }
            }
            // absorbing state
            9 => (0..k).for_each(|w| m[[cu, x, w]] = 0.0),
            // two row errors that cancel in the column, in the matrix and in the CIM
            10 => {
                let o = (x + 1) % k;
                m[[cu, x, y]] += big.max(1.0);
                m[[cu, o, y]] -= big.max(1.0);
            }
            11 => {
                let o = (cu + 1) % u;
                let e = 0.01 * big.max(1.0);
                m[[cu, x, x]] -= e;
                m[[o, (x + 1) % k, (x + 1) % k]] += 0.5 * e;
            }
            // columns summing to zero instead of rows
            12 => {
                let mm = m.clone();
                for a in 0..k {
                    for b in 0..k {
                        m[[cu, a, b]] = mm[[cu, b, a]];
                    }
                }
            }
            // infinite rate with the opposite diagonal
            _ => {
                if x != y {
                    m[[cu, x, y]] = f64::INFINITY;
                    m[[cu, x, x]] = f64::NEG_INFINITY;
                }
            }
        }
        l.state(&bits(m.as_slice().unwrap()));
        check_insert(&mut dsct("x", k), k, &m, l)
    });
    // (e) shapes
    let mut list = vec![];
    for card in 2..=4 {
        for u in 1..=3 {
            for a in 0..=5 {
                for b in 0..=5 {
                    for fill in 0..3 {
                        list.push((card, u, a, b, fill));
                    }
                }
            }
        }
    }
    ctx.family("shapes", "all shapes (1..3)x(0..5)x(0..5) for domains of 2..4 states, row- and column-major", list.len(), |c, l| {
        let (card, u, a, b, fill) = list[c];
        let v = |(_, x, y): (usize, usize, usize)| match fill {
            0 => if x == y { -((b.max(1) - 1) as f64) } else { 1.0 },
            1 => if x == y { -1.0 } else if y == (x + 1) % b.max(1) { 1.0 } else { 0.0 },
            _ => 0.0,
        };
        let m = Array3::from_shape_fn((u, a, b), v);
        l.state(&(card, u, a, b, fill));
        check_insert(&mut dsct("x", card), card, &m, l)?;
        let f = Array3::from_shape_fn((u, a, b).f(), v);
        check_insert(&mut dsct("x", card), card, &f, l)
    });
    // (f) rounding: rows whose diagonal was summed in another order
    let ks = ctx.pick(6, 9);
    ctx.family("rounding", "rows of 2..(7|10) states at 24 magnitudes whose diagonal is the sum taken in another order", (ks) * 24 * 8, |c, l| {
        let d = digits(c, &[ks, 24, 8]);
        let k = d[0] + 2;
        let s = 10f64.powi(d[1] as i32 - 11);
        let m = Array3::from_shape_fn((2, k, k), |(u, x, y)| {
            let r = |y: usize| s * (0.1 + ((1 + d[2] + y + 13 * x + 101 * u) as f64 * 0.6180339887).fract());
            if x == y {
                let mut sum = 0.0;
                for o in (0..k).rev() {
                    if o != x {
                        sum += r(o);
                    }
                }
                -sum
            } else {
                r(y)
            }
        });
        l.state(&bits(m.as_slice().unwrap()));
        check_insert(&mut dsct("x", k), k, &m, l)
    });
    // Row sums off by a part of the rates, whatever their unit.
    let units: Vec<i32> = vec![-300, -250, -200, -150, -100, -60, -30, -20, -15, -12, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 3, 6, 9, 12, 15, 20, 30, 60, 100, 150, 200, 250, 300];
    let errors = [0.0, 1.0, -0.9, 0.1, -0.1, 1e-3, -1e-3, 1e-5, -1e-5, 2e-6, -2e-6];
    let shapes: Vec<(usize, usize)> = vec![(1, 2), (2, 2), (1, 3), (3, 3), (2, 4), (4, 5)];
    let mut list = vec![];
    for s in &shapes {
        for e in &units {
            for r in errors {
                for row in 0..s.0 * s.1 {
                    for y in 0..s.1 {
                        list.push((*s, *e, r, row, y));
                    }
                }
            }
        }
    }
    ctx.family("row sums", "CIMs of 2..5 states and 1..4 configurations with rates from 1e-300 to 1e300, one entry of one row off by 0, 2e-6 to 1 times the exit rate in both directions", list.len(), |c, l| {
        let ((u, k), e, r, row, y) = list[c];
        let mut m = valid_cim(u, k, 10f64.powi(e), 0);
        let exit = -m[[row / k, row % k, row % k]];
        m[[row / k, row % k, y]] += r * exit;
        l.state(&bits(m.as_slice().unwrap()));
        check_insert(&mut dsct("x", k), k, &m, l)
    });
    // (g) histories of one node
    let depth = ctx.pick(5, 7);
    let mats: Vec<Array3<f64>> = vec![
        valid_cim(1, 3, 1.0, 0),
        valid_cim(2, 3, 9.0, 1),
        {
            let mut m = valid_cim(2, 3, 1.0, 0);
            m[[1, 2, 0]] += 1.0;
            m
        },
        valid_cim(1, 2, 1.0, 0),
        {
            let mut m = valid_cim(1, 3, 1.0, 0);
            m[[0, 1, 1]] = f64::NAN;
            m
        },
    ];
    let nops = mats.len() + 4;
    ctx.family("histories", "all sequences of 5 (7) operations: 5 insertions, 2 unchecked insertions, reset, statistics", nops.pow(depth as u32), |c, l| {
        let d = digits(c, &vec![nops; depth]);
        let mut p = dsct("x", 3);
        let mut m: Option<usize> = None;
        let mut has_stats = false;
        ensure!(p.validate_params().is_err(), "a node without a CIM validates");
        for (i, op) in d.iter().enumerate() {
            match *op {
                o if o < mats.len() => {
                    let ok = verdict(3, &mats[o]) == Verdict::Accept;
                    let r = p.set_cim(layout(mats[o].clone()));
                    ensure!(r.is_ok() == ok, "operation {} of {:?}: verdict {:?}", i, d, r);
                    m = if ok { Some(o) } else { None };
                }
                o if o == mats.len() => {
                    p.set_cim_unchecked(mats[0].clone());
                    m = Some(0);
                }
                o if o == mats.len() + 1 => {
                    p.set_cim_unchecked(mats[2].clone());
                    m = Some(2);
                }
                o if o == mats.len() + 2 => {
                    p.reset_params();
                    m = None;
                    has_stats = false;
                }
                _ => {
                    p.set_transitions(Array3::from_elem((1, 3, 3), 7));
                    p.set_residence_time(Array2::from_elem((1, 3), 7.0));
                    has_stats = true;
                }
            }
            l.step(1);
            l.state(&(m, has_stats, p.get_cim().is_some()));
            match (m, p.get_cim()) {
                (None, None) => {}
                (Some(o), Some(c)) => ensure!(same_bits(c, &mats[o]), "wrong CIM stored after {:?}", &d[..=i]),
                _ => return Err(format!("CIM presence wrong after {:?}", &d[..=i])),
            }
            let ok = m.map_or(false, |o| verdict(3, &mats[o]) == Verdict::Accept);
            ensure!(p.validate_params().is_ok() == ok, "validation wrong after {:?}", &d[..=i]);
            ensure!(p.get_transitions().is_some() == has_stats, "statistics wrong after {:?}", &d[..=i]);
        }
        l.trace();
        Ok(())
    });
    ctx.sample("2x2 [[-1,1],[2,-2]] -> accepted, stored bit for bit; [[-1,1],[-2,2]] -> refused, no CIM left".into());
    ctx.sample("set_cim(valid) ; set_cim(NaN on the diagonal) -> Err, node without a CIM, validate -> Err".into());
}

// ------------------------------------------------------------------------------------------ C05

/// A node of `k` states and `u` configurations where row (`c`,`x`) has the given off-diagonal
/// rates and every other row is different and dense.
fn with_row(k: usize, u: usize, c: usize, x: usize, row: &[f64]) -> DiscreteStatesContinousTimeParams {
    let mut m = Array3::zeros((u, k, k));
    for cc in 0..u {
        for xx in 0..k {
            let mut exit = 0.0;
            let mut j = 0;
            for y in 0..k {
                if y != xx {
                    let r = if cc == c && xx == x {
                        row[j]
                    } else {
                        // decoy: rates concentrated elsewhere
                        0.05 + 7.0 * (((1 + y + 5 * xx + 31 * cc) as f64) * 0.7548776662).fract()
                    };
                    j += 1;
                    m[[cc, xx, y]] = r;
                    exit += r;
                }
            }
            m[[cc, xx, xx]] = -exit;
        }
    }
    let mut p = node("x", k);
    give(&mut p, m);
    into_inner(p)
}

pub fn c05(ctx: &mut Ctx) {
    ctx.assume("the generator is a stream of independent uniform 64-bit draws; the grid covers each draw with cells of equal probability");
    let rates = [0.0, 1.0, 3.0, 0.25];
    let rates5: Vec<f64> = ctx.pick(vec![0.0, 1.0, 3.0], vec![0.0, 1.0, 3.0, 0.25]);
    let mut rows: Vec<(usize, Vec<f64>)> = vec![];
    for k in 2..=ctx.pick(5, 6) {
        let al: &[f64] = if k < 5 { &rates } else { &rates5 };
        let n = al.len().pow(k as u32 - 1);
        for c in 0..n {
            let d = digits(c, &vec![al.len(); k - 1]);
            let row: Vec<f64> = d.iter().map(|i| al[*i]).collect();
            if row.iter().sum::<f64>() > 0.0 {
                rows.push((k, row));
            }
        }
    }
    // other magnitudes
    for s in [1e-300, 1e-150, 1e-30, 1e-9, 1e-4, 1e5, 1e11, 1e30, 1e150, 1e300] {
        for row in [vec![1.0, 2.0], vec![0.0, 2.0, 5.0], vec![3.0, 0.0, 0.0, 1.0], vec![0.1, 0.7, 0.2], vec![1.0; 9]] {
            rows.push((row.len() + 1, row.iter().map(|x| x * s).collect()));
        }
    }
    // large domain
    rows.push((12, (0..11).map(|i| if i % 3 == 1 { 0.0 } else { 1.0 + i as f64 }).collect()));
    let k_grid = ctx.pick(600, 2400);
    let mut cases = vec![];
    for (i, (k, _)) in rows.iter().enumerate() {
        for x in 0..*k {
            for (u, c) in [(1, 0), (3, 0), (3, 2), (2, 1)] {
                cases.push((i, x, u, c));
            }
        }
    }
    let alphabet = vec![grid(k_grid), grid(8), grid(8)];
    let ext = vec![extremes(), extremes(), extremes()];
    ctx.family("law", "all rows over {0,1,3,1/4} for 2..5 states at every position, 10 other magnitudes from 1e-300 to 1e300, up to 12 states; every cell of a 600 (2400)-cell draw", cases.len(), |ci, l| {
        let (i, x, u, c) = cases[ci];
        let (k, row) = &rows[i];
        let p = with_row(*k, u, c, x, row);
        let before = p.get_cim().clone().unwrap();
        let exit: f64 = row.iter().sum();
        let mut want = vec![0.0; *k];
        let mut j = 0;
        for y in 0..*k {
            if y != x {
                want[y] = row[j] / exit;
                j += 1;
            }
        }
        let mut rng = chacha(7);
        let mut got = vec![0.0; *k];
        for al in [&ext, &alphabet] {
            let law = std::ptr::eq(al, &alphabet);
            tree(al, || p.get_random_state(x, c, &mut rng), |r, pr, ch| {
                let StateType::Discrete(y) = r.map_err(|e| format!("error {:?}", e))?;
                l.step(1);
                l.outcome(&(k, x, y));
                if law {
                    l.state(&(ci, ch[0]));
                    got[y.min(*k - 1)] += pr;
                }
                ensure!(y < *k, "state {} drawn, the node has {}", y, k);
                ensure!(y != x, "state {} drawn from itself (row {:?})", y, row);
                ensure!(want[y] > 0.0, "state {} drawn from {} although its rate is 0 (row {:?})", y, x, row);
                Ok(())
            })?;
        }
        for y in 0..*k {
            ensure!(
                (got[y] - want[y]).abs() <= (*k as f64 + 1.0) / k_grid as f64 + 1e-9,
                "from state {} (configuration {} of {}) state {} is drawn with probability {:.4}, its share of the exit rate is {:.4}; row {:?}",
                x, c, u, y, got[y], want[y], row
            );
        }
        ensure!(same_bits(p.get_cim().as_ref().unwrap(), &before), "drawing changed the CIM");
        l.trace();
        Ok(())
    });
    // Rare transitions among frequent ones.
    let mut rare: Vec<Vec<f64>> = vec![];
    for e in [1e-3f64, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11] {
        for base in [vec![e, 1.0], vec![e, 1.0, 2.0], vec![e, e, 1.0], vec![e, 2.0 * e, 3.0 * e, 1.0], vec![e, 1.0, 0.0, 3.0], vec![e, 1.0, e.sqrt(), 1.0]] {
            for r in 0..base.len() {
                for s in [1.0, 1e-6, 1e6, 1e-290, 1e300] {
                    let mut row = base.clone();
                    row.rotate_left(r);
                    rare.push(row.iter().map(|x| x * s).collect());
                }
            }
        }
    }
    ctx.family("rare transitions", "rows of 2..4 rates with shares down to 1e-11 at every position, 5 magnitudes from 1e-290 to 1e300, at every position of the row: the probability of each next state measured down to the resolution of a float", rare.len(), |ci, l| {
        let row = &rare[ci];
        let k = row.len() + 1;
        let exit: f64 = row.iter().sum();
        for x in 0..k {
            let p = with_row(k, 2, 1, x, row);
            let mut rng = chacha(7);
            let mut several = false;
            let got = measure(&refined(), |u| {
                let (r, draws) = scripted(&[u], || p.get_random_state(x, 1, &mut rng));
                several |= draws != 1;
                l.step(1);
                let StateType::Discrete(y) = r.map_err(|e| format!("error {:?}", e))?;
                Ok(y)
            })?;
            for (y, rate) in (0..k).filter(|y| *y != x).zip(row) {
                let (want, got) = (rate / exit, got.get(&y).copied().unwrap_or(0.0));
                l.outcome(&got.to_bits());
                ensure!(
                    several || (got - want).abs() <= 1e-6 * want + 0.5f64.powi(47),
                    "from state {} of {} state {} is drawn with probability {:e} instead of {:e}; row {:?}",
                    x, k, y, got, want, row
                );
            }
            ensure!(got.get(&x).copied().unwrap_or(0.0) == 0.0 && got.keys().all(|y| *y < k), "from state {} of {} the states drawn are {:?}", x, k, got);
            l.state(&(ci, x));
        }
        l.trace();
        Ok(())
    });
    // Many states, many configurations.
    let mut cases = vec![];
    for k in [10usize, 11, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300] {
        for kind in 0..4 {
            for x in [0, k / 2, k - 1] {
                cases.push((k, 1usize, 0usize, kind, x));
            }
        }
    }
    for (k, u) in [(2usize, 300usize), (3, 257), (12, 70), (3, 66000)] {
        for c in [0, 63, 64, 255, 256, 65535, 65536, u - 1].into_iter().filter(|c| *c < u) {
            for x in 0..k.min(3) {
                cases.push((k, u, c, c % 4, x));
            }
        }
    }
    let big_grid = ctx.pick(20_000, 200_000);
    let all = vec![grid(big_grid), grid(8), grid(8)];
    ctx.family("many states", "2..300 states and up to 66000 configurations: equal, increasing, alternating zero and contrasting rates; every cell of a 20000 (200000)-cell draw; total variation and reachability of every state", cases.len(), |ci, l| {
        let (k, u, c, kind, x) = cases[ci];
        let row: Vec<f64> = (0..k - 1).map(|i| match kind {
            0 => 1.0,
            1 => 1.0 + i as f64,
            2 => if i % 2 == 1 && i + 2 < k { 0.0 } else { 2.0 },
            _ => [0.01, 30.0, 0.0, 1.0][(i + k) % 4],
        }).collect();
        let row = if row.iter().sum::<f64>() > 0.0 { row } else { vec![1.0; k - 1] };
        let p = with_row(k, u, c, x, &row);
        let exit: f64 = row.iter().sum();
        let mut want = vec![0.0; k];
        for (j, y) in (0..k).filter(|y| *y != x).enumerate() {
            want[y] = row[j] / exit;
        }
        let mut rng = chacha(7);
        let mut got = vec![0.0; k];
        for al in [&ext, &all] {
            let law = std::ptr::eq(al, &all);
            tree(al, || p.get_random_state(x, c, &mut rng), |r, pr, _| {
                let StateType::Discrete(y) = r.map_err(|e| format!("error {:?}", e))?;
                l.step(1);
                ensure!(y < k && y != x && want[y] > 0.0, "state {} drawn from {} of {}, its rate is 0", y, x, k);
                if law {
                    got[y] += pr;
                }
                Ok(())
            })?;
        }
        let tv: f64 = (0..k).map(|y| (got[y] - want[y]).abs()).sum::<f64>() / 2.0;
        ensure!(tv < 0.02, "from state {} of {} (configuration {} of {}), rates of kind {}: the law differs by {:.4}", x, k, c, u, kind, tv);
        for y in 0..k {
            ensure!(got[y] > 0.0 || want[y] * (big_grid as f64) < 4.0, "from state {} of {} (configuration {} of {}) state {} of probability {:.5} is never drawn", x, k, c, u, y, want[y]);
            l.outcome(&(k, y));
        }
        l.state(&ci);
        l.trace();
        Ok(())
    });
    ctx.family("no CIM", "domains of 2..6 states, every state, 3 configurations", 5, |c, l| {
        let k = c + 2;
        let p = dsct("x", k);
        for x in 0..k {
            for u in 0..3 {
                let mut rng = chacha(1);
                ensure!(p.get_random_state(x, u, &mut rng).is_err(), "draw without a CIM succeeded");
                l.state(&(k, x, u));
                l.step(1);
                l.trace();
            }
        }
        Ok(())
    });
    // Successive draws from one generator: pairs are independent.
    ctx.family("pairs", "two successive draws from one generator, all cells of a 48x48 grid, rows of 3 states", 9, |c, l| {
        let row = [[1.0, 3.0], [2.0, 2.0], [3.0, 1.0]][c % 3];
        let x = c / 3;
        let p = with_row(3, 2, 1, x, &row);
        let others: Vec<usize> = (0..3).filter(|y| *y != x).collect();
        let mut rng = chacha(3);
        let mut got = [[0.0; 3]; 3];
        tree(&[grid(48), grid(48)], || (p.get_random_state(x, 1, &mut rng), p.get_random_state(x, 1, &mut rng)), |r, pr, ch| {
            let (StateType::Discrete(a), StateType::Discrete(b)) = (r.0.map_err(|e| format!("{:?}", e))?, r.1.map_err(|e| format!("{:?}", e))?);
            got[a][b] += pr;
            l.step(2);
            l.state(ch);
            l.outcome(&(x, a, b));
            Ok(())
        })?;
        l.trace();
        for (i, a) in others.iter().enumerate() {
            for (j, b) in others.iter().enumerate() {
                let w = row[i] * row[j] / 16.0;
                ensure!((got[*a][*b] - w).abs() < 0.06, "the pair ({},{}) has probability {:.3}, expected {:.3}", a, b, got[*a][*b], w);
            }
        }
        Ok(())
    });
    // Other rates in the same place, or under the same name.
    let mut pairs: Vec<(Vec<f64>, Vec<f64>)> = vec![];
    for k in [2usize, 3] {
        let rows: Vec<Vec<f64>> = (0..5usize.pow(k as u32)).map(|c| digits(c, &vec![5; k]).into_iter().map(|x| x as f64).collect()).filter(|r: &Vec<f64>| r.iter().sum::<f64>() == 4.0).collect();
        for a in &rows {
            for b in &rows {
                pairs.push((a.clone(), b.clone()));
                pairs.push((a.iter().map(|x| x * 3.0).collect(), b.clone()));
            }
        }
    }
    let pr = &pairs;
    ctx.family("exchanged rates", "all pairs of rows of 3 and 4 states with rates 0..4 and the same exit rate or three times as much: a draw from one before each draw from the other, which is set in the same parameters (checked and unchecked), in parameters of the same name or in a clone; every cell of a 96-cell draw", pr.len() * 4, |c, l| {
        let ((a, b), how) = (&pr[c / 4], c % 4);
        let k = a.len() + 1;
        let exit: f64 = b.iter().sum();
        for x in 0..k {
            let cims = [with_row(k, 2, 1, x, a).get_cim().clone().unwrap(), with_row(k, 2, 1, x, b).get_cim().clone().unwrap()];
            let mut got = vec![0.0; k];
            let mut p = with_row(k, 2, 1, x, a);
            let mut q = with_row(k, 2, 1, x, b);
            let mut rng = chacha(7);
            for g in grid(96) {
                let (r, _) = scripted(&[g, g], || -> Result<StateType, reCTBN::params::ParamsError> {
                    match how {
                        0 => p.set_cim(cims[0].clone())?,
                        1 => p.set_cim_unchecked(cims[0].clone()),
                        2 => {}
                        _ => {
                            p = q.clone();
                            p.set_cim(cims[0].clone())?
                        }
                    }
                    p.get_random_state(x, 1, &mut rng)
                });
                let StateType::Discrete(y) = r.map_err(|e| format!("error {:?}", e))?;
                ensure!(y < k && y != x, "state {} drawn from {}", y, x);
                let (r, _) = scripted(&[g, g], || -> Result<StateType, reCTBN::params::ParamsError> {
                    match how {
                        0 => {
                            p.set_cim(cims[1].clone())?;
                            p.get_random_state(x, 1, &mut rng)
                        }
                        1 => {
                            p.set_cim_unchecked(cims[1].clone());
                            p.get_random_state(x, 1, &mut rng)
                        }
                        2 => q.get_random_state(x, 1, &mut rng),
                        _ => {
                            q = p.clone();
                            q.set_cim(cims[1].clone())?;
                            q.get_random_state(x, 1, &mut rng)
                        }
                    }
                });
                let StateType::Discrete(y) = r.map_err(|e| format!("error {:?}", e))?;
                ensure!(y < k, "state {} drawn, the node has {}", y, k);
                got[y] += 1.0 / 96.0;
                l.step(2);
            }
            let mut row = b.clone();
            row.insert(x, 0.0);
            for y in 0..k {
                ensure!((got[y] - row[y] / exit).abs() <= (k as f64 + 1.0) / 96.0, "row {:?} after a draw from row {:?} ({}): from state {} state {} is drawn with probability {:.3}", b, a, how, x, y, got[y]);
            }
            l.state(&(c, x));
            l.trace();
            l.outcome(&(b.len(), x, got.iter().map(|g| (g * 96.0).round() as usize).collect::<Vec<_>>()));
        }
        Ok(())
    });
    ctx.sample("row [-4, 0, 1, 3] from state 0: 600 cells -> state 2 in 150, state 3 in 450, state 1 never; draws 0 and 2^64-1 -> states with positive rate".into());
}

// ------------------------------------------------------------------------------------------ C06

pub fn c06(ctx: &mut Ctx) {
    ctx.assume("the generator is a stream of independent uniform 64-bit draws; the grid covers each draw with cells of equal probability");
    let mags = ctx.pick(vec![1.0, 0.01, 300.0, 1e-9, 1e9, 1e-25, 1e25, 1e-150, 1e150], vec![1.0, 0.01, 0.1, 7.0, 300.0, 1e-9, 1e-5, 1e5, 1e9, 1e12, 1e-18, 1e-25, 1e25, 1e-150, 1e150, 1e-300, 1e300]);
    let kg = ctx.pick(1000, 4000);
    let al = vec![grid(kg), grid(16), grid(16)];
    let ext = vec![extremes(), extremes(), extremes()];
    let mut cases = vec![];
    for k in 2..=ctx.pick(4, 6) {
        for u in [1, 2, 4] {
            for m in 0..mags.len() {
                for x in 0..k {
                    for c in 0..u {
                        for zero in 0..if k > 2 { 2 } else { 1 } {
                            cases.push((k, u, m, x, c, zero));
                        }
                    }
                }
            }
        }
    }
    for (k, u) in [(12, 1), (40, 1), (257, 1), (300, 1), (2, 300), (3, 66000)] {
        for m in [0, 2] {
            for x in [0, k / 2, k - 1] {
                for c in [0, u / 2, u - 1] {
                    cases.push((k, u, m, x, c, 0));
                }
            }
        }
    }
    ctx.family("residence law", "domains of 2..4 (6) states, 1..4 configurations, and corners of larger ones of up to 300 states or 66000 configurations, with distinct exit rates, 9 (17) magnitudes from 1e-150 to 1e150 (1e-300 to 1e300); every cell of a 1000 (4000)-cell draw and the extreme draws", cases.len(), |ci, l| {
        let (k, u, m, x, c, zero) = cases[ci];
        let mut cim = valid_cim(u, k, mags[m], 0);
        // exit rates far apart between rows and configurations
        for cc in 0..u {
            for xx in 0..k {
                let f = [1.0, 3.0, 9.0, 0.3, 27.0, 0.1][(cc * 2 + xx) % 6];
                for y in 0..k {
                    cim[[cc, xx, y]] *= f;
                }
            }
        }
        if zero == 1 {
            let y = (x + 1) % k;
            let r = cim[[c, x, y]];
            cim[[c, x, y]] = 0.0;
            cim[[c, x, x]] += r;
        }
        let lambda = -cim[[c, x, x]];
        let mut p = node("x", k);
        give(&mut p, cim);
        let mut rng = chacha(5);
        tree(&ext, || p.get_random_residence_time(x, c, &mut rng), |r, _, _| {
            let t = r.map_err(|e| format!("error {:?}", e))?;
            l.step(1);
            ensure!(t.is_finite() && t >= 0.0, "residence time {} (exit rate {})", t, lambda);
            ensure!(t * lambda < 1000.0, "residence time {} impossible for exit rate {}", t, lambda);
            Ok(())
        })?;
        let mut v: Vec<(f64, f64)> = vec![];
        tree(&al, || p.get_random_residence_time(x, c, &mut rng), |r, pr, ch| {
            let t = r.map_err(|e| format!("error {:?}", e))?;
            ensure!(t.is_finite() && t >= 0.0, "residence time {}", t);
            v.push((t, pr));
            l.step(1);
            l.state(&(ci, ch));
            l.outcome(&t.to_bits());
            Ok(())
        })?;
        v.sort_by(|a, b| a.0.total_cmp(&b.0));
        let mut cum = 0.0;
        for (t, pr) in &v {
            let f = 1.0 - (-lambda * t).exp();
            ensure!(
                (f - cum).abs() < 0.004 + pr && (f - cum - pr).abs() < 0.004 + pr,
                "state {} configuration {} of {} (exit rate {}): P(T <= {}) is {:.4}, exponential {:.4}",
                x, c, u, lambda, t, cum + pr, f
            );
            cum += pr;
        }
        l.trace();
        Ok(())
    });
    // The exponential law at all scales: residence times many times longer, and shorter, than the mean.
    let cases: Vec<(usize, usize)> = (0..mags.len()).flat_map(|m| (0..12).map(move |i| (m, i))).collect();
    ctx.family("tails", "domains of 2 and 3 states, 2 configurations, 9 (17) magnitudes: the probabilities of residence times above the quantiles 1-2^-j and below the quantiles 2^-j, j = 1..44, measured down to the resolution of a float", cases.len(), |ci, l| {
        let (m, i) = cases[ci];
        let (k, x, c) = (2 + i % 2, (i / 2) % 2 + (i % 2) * (i / 6), (i / 4) % 2);
        let cim = valid_cim(2, k, mags[m], 0);
        let lambda = -cim[[c, x, x]];
        let mut p = node("x", k);
        give(&mut p, cim);
        let mut rng = chacha(5);
        for j in 1..=44 {
            for upper in [true, false] {
                let want = 0.5f64.powi(j);
                let t = if upper { -want.ln() } else { -(-want).ln_1p() } / lambda;
                let mut several = false;
                let got = measure(&refined(), |u| {
                    let (r, draws) = scripted(&[u], || p.get_random_residence_time(x, c, &mut rng));
                    several |= draws != 1;
                    l.step(1);
                    Ok((r.map_err(|e| format!("error {:?}", e))? > t) == upper)
                })?;
                let got = got.get(&true).copied().unwrap_or(0.0);
                l.state(&(ci, j, upper));
                l.outcome(&got.to_bits());
                // the law of one draw is not the law of the residence time if it takes several
                ensure!(
                    several || (got - want).abs() <= 1e-6 * want + 0.5f64.powi(48),
                    "state {} configuration {} (exit rate {}): the probability of a residence time {} {} is {:e} instead of {:e}",
                    x, c, lambda, if upper { "above" } else { "below" }, t, got, want
                );
            }
        }
        l.trace();
        Ok(())
    });
    // Other rates in the same place, or under the same name.
    ctx.family("exchanged rates", "domains of 2..4 states, 2 configurations, all pairs of 7 exit rates of 1e-6 to 1e6: a draw with one before each draw with the other, which is set in the same parameters (checked and unchecked), in parameters of the same name or in a clone; the time is that of parameters used for nothing else", 3 * 49 * 4, |c, l| {
        let d = digits(c, &[3, 7, 7, 4]);
        let k = 2 + d[0];
        let rate = |i: usize| [1.0, 1.5, 2.0, 1e-6, 1e6, 0.3, 40.0][i];
        let cims = [valid_cim(2, k, rate(d[1]), 0), valid_cim(2, k, rate(d[2]), 0)];
        let fresh = |i: usize| -> DiscreteStatesContinousTimeParams {
            let mut p = dsct("x", k);
            p.set_cim_unchecked(cims[i].clone());
            p
        };
        let mut rng = chacha(5);
        for x in 0..k {
            for u in 0..2 {
                let lambda = -cims[1][[u, x, x]];
                let (mut p, mut q) = (fresh(0), fresh(1));
                let mut cum = 0.0f64;
                let mut times: Vec<f64> = vec![];
                for g in grid(100) {
                    let (r, _) = scripted(&[g, g], || -> Result<f64, reCTBN::params::ParamsError> {
                        match d[3] {
                            0 => p.set_cim(cims[0].clone())?,
                            1 => p.set_cim_unchecked(cims[0].clone()),
                            2 => {}
                            _ => {
                                p = q.clone();
                                p.set_cim(cims[0].clone())?
                            }
                        }
                        p.get_random_residence_time(x, u, &mut rng)?;
                        Ok(0.0)
                    });
                    r.map_err(|e| format!("error {:?}", e))?;
                    let (r, _) = scripted(&[g, g], || -> Result<f64, reCTBN::params::ParamsError> {
                        match d[3] {
                            0 => {
                                p.set_cim(cims[1].clone())?;
                                p.get_random_residence_time(x, u, &mut rng)
                            }
                            1 => {
                                p.set_cim_unchecked(cims[1].clone());
                                p.get_random_residence_time(x, u, &mut rng)
                            }
                            2 => q.get_random_residence_time(x, u, &mut rng),
                            _ => {
                                q = p.clone();
                                q.set_cim(cims[1].clone())?;
                                q.get_random_residence_time(x, u, &mut rng)
                            }
                        }
                    });
                    times.push(r.map_err(|e| format!("error {:?}", e))?);
                    l.step(2);
                }
                times.sort_by(f64::total_cmp);
                for t in &times {
                    let f = 1.0 - (-lambda * t).exp();
                    ensure!((f - cum).abs() < 0.03 && t.is_finite(), "exit rate {} after a draw with the exit rate {} ({}): P(T <= {}) is {:.3}, exponential {:.3}", lambda, -cims[0][[u, x, x]], d[3], t, cum + 0.01, f);
                    cum += 0.01;
                }
                l.trace();
                l.state(&(c, x, u));
                l.outcome(&(lambda.to_bits(), times[50].to_bits()));
            }
        }
        Ok(())
    });
    ctx.family("uniform law", "domains of 2..9 states; every cell of a 1000 (4000)-cell draw, rejected draws followed", 8, |c, l| {
        let k = c + 2;
        let mut p = dsct("x", k);
        for with_cim in [false, true] {
            if with_cim {
                p.set_cim(layout(valid_cim(1, k, 1.0, 0))).map_err(|e| format!("{:?}", e))?;
            }
            let mut rng = chacha(5);
            let mut got = vec![0.0; k];
            for al in [&ext, &al] {
                let law = al[0].len() > 100;
                tree(al, || p.get_random_state_uniform(&mut rng), |r, pr, ch| {
                    let StateType::Discrete(y) = r;
                    ensure!(y < k, "state {} of a node with {} states", y, k);
                    l.step(1);
                    l.outcome(&(k, y));
                    if law {
                        l.state(&(k, ch));
                        got[y] += pr;
                    }
                    Ok(())
                })?;
            }
            for y in 0..k {
                ensure!((got[y] - 1.0 / k as f64).abs() < 0.01, "state {} of {} has probability {:.4}", y, k, got[y]);
            }
            l.trace();
        }
        Ok(())
    });
    let sizes = [10usize, 11, 12, 15, 16, 17, 20, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000];
    let big_grid = ctx.pick(40_000, 400_000);
    let big = vec![grid(big_grid), grid(16), grid(16)];
    ctx.family("uniform law, many states", "domains of 10..1000 states; every cell of a 40000 (400000)-cell draw: total variation (up to the probability of a second draw) and reachability of every state", sizes.len(), |c, l| {
        let k = sizes[c];
        let p = dsct("x", k);
        let mut rng = chacha(5);
        let mut got = vec![0.0; k];
        // probability of the outcomes which took more than the one draw enumerated finely
        let mut more = 0.0;
        for al in [&ext, &big] {
            tree(al, || p.get_random_state_uniform(&mut rng), |r, pr, ch| {
                let StateType::Discrete(y) = r;
                ensure!(y < k, "state {} of a node with {} states", y, k);
                l.step(1);
                if al[0].len() > 100 {
                    got[y] += pr;
                    if ch.len() > 1 {
                        more += pr;
                    }
                }
                Ok(())
            })?;
        }
        let tv: f64 = got.iter().map(|g| (g - 1.0 / k as f64).abs()).sum::<f64>() / 2.0;
        ensure!(tv < 0.02 + more && got.iter().all(|g| *g > 0.0), "the uniform draw of {} states differs by {:.4} from the uniform law; least likely {:?}", k, tv, got.iter().copied().fold(1.0, f64::min));
        l.state(&k);
        l.trace();
        Ok(())
    });
    ctx.family("pairs", "two successive residence times of one generator on a 64x64 grid", 4, |c, l| {
        let p = with_row(3, 2, 1, c % 3, &[1.0, 2.5]);
        let x = c % 3;
        let mut rng = chacha(5);
        // P(T1 > m and T2 > m) with m the median
        let med = 2f64.ln() / 3.5;
        let mut got = [0.0; 4];
        tree(&[grid(64), grid(64)], || (p.get_random_residence_time(x, 1, &mut rng), p.get_random_residence_time(x, 1, &mut rng)), |r, pr, ch| {
            let (a, b) = (r.0.map_err(|e| format!("{:?}", e))?, r.1.map_err(|e| format!("{:?}", e))?);
            got[(a > med) as usize * 2 + (b > med) as usize] += pr;
            l.step(2);
            l.state(ch);
            l.outcome(&(a.to_bits(), b.to_bits()));
            Ok(())
        })?;
        l.trace();
        for g in got {
            ensure!((g - 0.25).abs() < 0.04, "successive residence times are not independent: {:?}", got);
        }
        Ok(())
    });
    ctx.family("no CIM", "domains of 2..6 states, every state, 3 configurations", 5, |c, l| {
        let k = c + 2;
        let p = dsct("x", k);
        for x in 0..k {
            for u in 0..3 {
                let mut rng = chacha(1);
                ensure!(p.get_random_residence_time(x, u, &mut rng).is_err(), "draw without a CIM succeeded");
                l.state(&(k, x, u));
                l.step(1);
                l.trace();
            }
        }
        Ok(())
    });
    ctx.sample("exit rate 3: 1000 cells -> empirical law within 0.005 of 1-exp(-3t); draws 0, 1, 2^64-1 -> finite times".into());
}
