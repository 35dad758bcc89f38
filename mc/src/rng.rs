//! Exhaustive exploration of the outcomes of the random generator.

use crate::core::Res;
use rand::SeedableRng;
use std::collections::BTreeMap;
use rand_chacha::{script, ChaCha8Rng};

/// The midpoints of `k` equal cells of the 64-bit draw.
pub fn grid(k: usize) -> Vec<u64> {
    (0..k as u128)
        .map(|c| (((2 * c + 1) << 64) / (2 * k as u128)) as u64)
        .collect()
}

/// The extreme draws: both ends, the middle, and the values just around the rounding of 52 and 53
/// bit mantissas.
pub fn extremes() -> Vec<u64> {
    vec![
        0,
        1,
        (1 << 11) - 1,
        1 << 11,
        1 << 12,
        (1 << 32) - 1,
        (1 << 63) - 1,
        1 << 63,
        u64::MAX - (1 << 32),
        u64::MAX - (1 << 12),
        u64::MAX - (1 << 11),
        u64::MAX - 1,
        u64::MAX,
    ]
}

pub const DRAW_CAP: usize = 200_000;

/// One execution under a fixed script.
pub fn scripted<R>(values: &[u64], f: impl FnOnce() -> R) -> (R, usize) {
    scripted_to(DRAW_CAP, values, f)
}
/// The same with another limit to the number of draws.
pub fn scripted_to<R>(cap: usize, values: &[u64], f: impl FnOnce() -> R) -> (R, usize) {
    script::load(values);
    script::start(cap);
    let r = f();
    let n = script::stop();
    (r, n)
}

/// All outcomes of the first draws of `f`: draw `i` takes every value of `alphabet[i]`, the later
/// draws come from the real generator. `leaf` gets the result, the probability of the outcome and
/// the choices made.
pub fn tree<R>(
    alphabet: &[Vec<u64>],
    f: impl FnMut() -> R,
    leaf: impl FnMut(R, f64, &[usize]) -> Res,
) -> Res {
    tree_moved(alphabet, &[], f, leaf)
}

/// The same, the values of the draws in `moved` lying at different places of their cells: at the
/// places of a sequence which fills the cell evenly, one for each choice of the draws before.
pub fn tree_moved<R>(
    alphabet: &[Vec<u64>],
    moved: &[usize],
    mut f: impl FnMut() -> R,
    mut leaf: impl FnMut(R, f64, &[usize]) -> Res,
) -> Res {
    let depth = alphabet.len();
    let mut choice = vec![0usize; depth];
    let mut values: Vec<u64> = alphabet.iter().map(|a| a[0]).collect();
    let mut moves: Vec<u64> = vec![0; depth];
    loop {
        for i in moved {
            let cell = u64::MAX / alphabet[*i].len() as u64;
            // the multiples of the golden section
            let place = (moves[*i].wrapping_mul(0x9E37_79B9_7F4A_7C15) as u128 * cell as u128 >> 64) as u64;
            values[*i] = alphabet[*i][choice[*i]].wrapping_sub(cell / 2).wrapping_add(place);
        }
        let (r, draws) = scripted(&values, &mut f);
        let used = draws.min(depth);
        let p: f64 = alphabet[..used].iter().map(|a| 1.0 / a.len() as f64).product();
        leaf(r, p, &choice[..used]).map_err(|e| {
            format!("{} [generator outcomes {:?}]", e, &values[..used])
        })?;
        // next
        let mut i = used;
        loop {
            if i == 0 {
                return Ok(());
            }
            i -= 1;
            choice[i] += 1;
            if choice[i] < alphabet[i].len() {
                for m in moved.iter().filter(|m| **m > i) {
                    moves[*m] += 1;
                }
                values[i] = alphabet[i][choice[i]];
                for j in i + 1..depth {
                    choice[j] = 0;
                    values[j] = alphabet[j][0];
                }
                break;
            }
        }
    }
}

/// Draws which divide the unit interval evenly and, towards both ends, geometrically.
pub fn refined() -> Vec<u64> {
    let mut v = grid(64);
    v.extend((8..63).flat_map(|j| [1u64 << j, u64::MAX - (1 << j)]));
    v.extend([0, u64::MAX]);
    v.sort();
    v.dedup();
    v
}

/// The probability of each outcome of `f` under a uniform draw: between two neighbours of `points`
/// with different outcomes the boundaries are looked for down to the resolution of a float.
pub fn measure<K: Ord + Clone>(points: &[u64], mut f: impl FnMut(u64) -> Result<K, String>) -> Result<BTreeMap<K, f64>, String> {
    let mut out: BTreeMap<K, f64> = BTreeMap::new();
    let mut stack: Vec<(u64, K, u64, K)> = vec![];
    let keys: Vec<K> = points.iter().map(|p| f(*p)).collect::<Result<_, _>>()?;
    for i in 1..points.len() {
        stack.push((points[i - 1], keys[i - 1].clone(), points[i], keys[i].clone()));
    }
    while let Some((a, ka, b, kb)) = stack.pop() {
        let w = (b - a) as f64 / 2f64.powi(64);
        if ka == kb {
            *out.entry(ka).or_default() += w;
        } else if b - a <= 1 << 8 {
            *out.entry(ka).or_default() += w / 2.0;
            *out.entry(kb).or_default() += w / 2.0;
        } else {
            let m = a + (b - a) / 2;
            let km = f(m)?;
            stack.push((a, ka, m, km.clone()));
            stack.push((m, km, b, kb));
        }
    }
    Ok(out)
}

/// A generator for the calls that take one as argument.
pub fn chacha(seed: u64) -> ChaCha8Rng {
    ChaCha8Rng::seed_from_u64(seed)
}
