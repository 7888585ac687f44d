//! Statistical oracles: shares decided by Chernoff's bound.

use crate::fits;
use crate::engine::*;
use crate::oracle::*;

/// Chernoff's bound for `k` hits in `n` independent trials of probability `p`
/// (known up to 1e-9): the exponent beyond which chance is out of the question.
pub fn excess(k: u64, n: u64, p: f64) -> f64 {
    let f = k as f64 / n as f64;
    let p = if f > p { (p + 1e-9).min(1.0) } else { (p - 1e-9).max(0.0) };
    if (f > p) != (f > p - 1e-15) || f == p {
        return 0.0;
    }
    let t = |x: f64, y: f64| if x == 0.0 { 0.0 } else if y <= 0.0 { f64::INFINITY } else { x * (x / y).ln() };
    n as f64 * (t(f, p) + t(1.0 - f, 1.0 - p))
}
pub const LIMIT: f64 = 40.0;

#[macro_export]
macro_rules! fits {
    ($k:expr, $n:expr, $p:expr, $($what:tt)*) => {{
        let (k, n, p) = ($k as u64, $n as u64, $p);
        if $crate::stats::excess(k, n, p) > $crate::stats::LIMIT {
            return Err(format!("{}: {k} of {n} samples, expected a share of {p:.6}", format!($($what)*)));
        }
    }};
}

/// Frequencies of a sample that should be uniform below `p`.
pub fn uniform_fit(g: &mut G, xs: &[u64], p: u64, what: &str) -> R {
    let n = xs.len() as u64;
    // ranges, at random cuts
    let cells = g.us(2, 24) as u64;
    let mut cut: Vec<u64> = (0..cells).map(|_| g.int(0, p - 1)).collect();
    cut.push(0);
    cut.sort();
    cut.dedup();
    for (i, &c) in cut.iter().enumerate() {
        let hi = cut.get(i + 1).copied().unwrap_or(p);
        let k = xs.iter().filter(|&&x| x >= c && x < hi).count();
        fits!(k, n, (hi - c) as f64 / p as f64, "{what}: values in {c}..{hi}");
    }
    // residues
    let m = g.int(2, 40.min(p));
    for r in 0..m {
        let size = (p - 1 - r) / m + 1;
        let k = xs.iter().filter(|&&x| x % m == r).count();
        fits!(k, n, size as f64 / p as f64, "{what}: values = {r} mod {m}");
    }
    // what a plain remainder or a plain multiply-shift of a word would favour
    for w in [8u32, 16, 32, 64] {
        let range = 1u128 << w;
        if (p as u128) < range {
            let over = (range % p as u128) as u64;
            let k = xs.iter().filter(|&&x| x < over).count();
            fits!(k, n, over as f64 / p as f64, "{what}: values below 2^{w} mod {p}");
            // values hit by floor(2^w/p)+1 words
            let start = |v: u64| (v as u128 * range).div_ceil(p as u128);
            let long = |v: u64| {
                let end = if v + 1 == p { range } else { start(v + 1) };
                end - start(v) > range / p as u128
            };
            if w < 64 || range / (p as u128) < 1000 {
                let k = xs.iter().filter(|&&x| (x as u128 + 1) * (range >> 1) < u128::MAX >> 1 && long(x)).count();
                fits!(k, n, over as f64 / p as f64, "{what}: values that own one word more of {w} bits");
            }
        }
    }
    // neighbours
    let h = p / 2;
    let q = (h as f64 / p as f64).powi(2);
    for lag in 1..=8usize {
        if xs.len() > 2 * lag {
            // disjoint pairs, so that they are independent
            let pairs = (0..xs.len() - lag).filter(|i| (i / lag) % 2 == 0);
            let (mut k, mut t) = (0, 0);
            for i in pairs {
                t += 1;
                k += (xs[i] < h && xs[i + lag] < h) as u64;
            }
            fits!(k, t, q, "{what}: both of two values {lag} apart in the lower half");
        }
    }
    Ok(())
}

/// Frequencies of many vectors of the same length whose entries should be
/// independent with the shares `pmf`.
pub fn vectors_fit(vs: &[Vec<i64>], pmf: &[(i64, f64)], what: &str) -> R {
    let (m, len) = (vs.len() as u64, vs[0].len());
    for (r, v) in vs.iter().enumerate() {
        if let Some(x) = v.iter().find(|x| !pmf.iter().any(|c| c.0 == **x)) {
            return Err(format!("{what}: value {x} in vector {r}"));
        }
    }
    if len == 0 {
        return Ok(());
    }
    let all: u64 = m * len as u64;
    for &(x, p) in pmf {
        let k: usize = vs.iter().map(|v| v.iter().filter(|y| **y == x).count()).sum();
        fits!(k, all, p, "{what}: value {x}");
        for i in 0..len {
            let k = vs.iter().filter(|v| v[i] == x).count();
            fits!(k, m, p, "{what}: value {x} at position {i} of {len}");
        }
    }
    let eq: f64 = pmf.iter().map(|c| c.1 * c.1).sum();
    for i in 0..len {
        for j in i + 1..len {
            let k = vs.iter().filter(|v| v[i] == v[j]).count();
            fits!(k, m, eq, "{what}: positions {i} and {j} of {len} agree");
        }
        // from one vector to the next
        let k = vs.chunks_exact(2).filter(|w| w[0][i] == w[1][i]).count();
        fits!(k, m / 2, eq, "{what}: position {i} of successive vectors agrees");
    }
    // joint shares of close positions
    if pmf.len() <= 3 {
        for i in 0..len {
            for j in i + 1..(i + 3).min(len) {
                for &(x, p) in pmf {
                    for &(y, q) in pmf {
                        let k = vs.iter().filter(|v| v[i] == x && v[j] == y).count();
                        fits!(k, m, p * q, "{what}: {x} and {y} at positions {i} and {j}");
                    }
                }
            }
        }
    }
    Ok(())
}

pub const BINARY: [(i64, f64); 2] = [(0, 0.5), (1, 0.5)];
pub const TERNARY: [(i64, f64); 3] = [(0, 0.5), (1, 0.25), (-1, 0.25)];

/// `xs`: rounded Gaussian values, signed
pub fn gauss_fit(g: &mut G, xs: &[i64], mean: f64, std: f64, max: f64, what: &str) -> R {
    let n = xs.len() as u64;
    // how far a rounded value may lie; f64 arithmetic on large values is inexact
    let slack = 0.5 + (mean.abs() + max) * 4e-16;
    if let Some(x) = xs.iter().find(|&&x| (x as f64 - mean).abs() > max + slack) {
        return Err(format!("{what}: {x} is further than {max} from the mean {mean} (standard deviation {std})"));
    }
    if std == 0.0 || n < 1000 {
        return Ok(());
    }
    // P(value below t), conditioned on the bound
    let norm = phi(max / std) - phi(-max / std);
    let below = |t: f64| ((phi((t.clamp(mean - max, mean + max) - mean) / std) - phi(-max / std)) / norm).clamp(0.0, 1.0);
    // only where the spacing of f64 numbers around the values is negligible
    if (mean.abs() + max) * 2.3e-16 > std * 1e-6 {
        return Ok(());
    }
    // cells between half-integers
    let cells = g.us(4, 40) as i64;
    let mut cuts: Vec<i64> = (-cells..=cells).map(|i| (mean + 4.5 * std * i as f64 / cells as f64).round() as i64).collect();
    cuts.dedup();
    let mut sorted = xs.to_vec();
    sorted.sort();
    let upto = |c: i64| sorted.partition_point(|&x| x < c) as u64;
    for w in cuts.windows(2) {
        let k = upto(w[1]) - upto(w[0]);
        let p = below(w[1] as f64 - 0.5) - below(w[0] as f64 - 0.5);
        fits!(k, n, p, "{what}({mean}, {std}, max {max}): values in {}..{}", w[0], w[1]);
    }
    for c in &cuts {
        fits!(upto(*c), n, below(*c as f64 - 0.5), "{what}({mean}, {std}, max {max}): values below {c}");
    }
    // neighbours on the same side of the mean
    let c = mean.round() as i64;
    let q = below(c as f64 - 0.5);
    for lag in [1usize, 2, 3, 8, 16] {
        let (mut k, mut t) = (0, 0);
        for i in (0..xs.len() - lag).filter(|i| (i / lag) % 2 == 0) {
            t += 1;
            k += (xs[i] < c && xs[i + lag] < c) as u64;
        }
        fits!(k, t, q * q, "{what}({mean}, {std}): two values {lag} apart below {c}");
    }
    Ok(())
}

/// Shares of a Gaussian rounded to integers and cut at six deviations.
pub fn pmf_gauss(sigma: f64) -> Vec<(i64, f64)> {
    if sigma == 0.0 {
        return vec![(0, 1.0)];
    }
    let max = 6.0 * sigma;
    let top = (max + 0.5).floor() as i64;
    let norm = phi(6.0) - phi(-6.0);
    let cdf = |t: f64| phi(t.clamp(-max, max) / sigma);
    (-top..=top).map(|k| (k, (cdf(k as f64 + 0.5) - cdf(k as f64 - 0.5)) / norm)).collect()
}
/// Shares of the difference of two sums of 21 bits.
pub fn pmf_cbd() -> Vec<(i64, f64)> {
    let mut v = vec![1.0f64];
    for _ in 0..42 {
        let mut w = vec![0.0; v.len() + 1];
        for (i, x) in v.iter().enumerate() {
            w[i] += x / 2.0;
            w[i + 1] += x / 2.0;
        }
        v = w;
    }
    v.iter().enumerate().map(|(i, &x)| (i as i64 - 21, x)).collect()
}
/// Shares of a sum.
pub fn convolve(x: &[(i64, f64)], y: &[(i64, f64)]) -> Vec<(i64, f64)> {
    let mut m = std::collections::BTreeMap::new();
    for &(a, p) in x {
        for &(b, q) in y {
            *m.entry(a + b).or_insert(0.0) += p * q;
        }
    }
    m.into_iter().collect()
}
/// Noise polynomials: the centred binomial stands in for exactly 3.2.
pub fn pmf_ring(sigma: f64) -> Vec<(i64, f64)> {
    if sigma.to_bits() == 3.2f64.to_bits() { pmf_cbd() } else { pmf_gauss(sigma) }
}

/// Independent values with the shares `pmf`: cumulated shares, first two
/// moments, neighbours.
pub fn pmf_fit(xs: &[i64], pmf: &[(i64, f64)], what: &str) -> R {
    let n = xs.len() as u64;
    if let Some(x) = xs.iter().find(|x| pmf.binary_search_by_key(*x, |c| c.0).is_err()) {
        return Err(format!("{what}: {x} is not among the possible values {}..={}", pmf[0].0, pmf[pmf.len() - 1].0));
    }
    let mut sorted = xs.to_vec();
    sorted.sort();
    let mut acc = 0.0;
    for &(v, p) in pmf {
        let k = sorted.partition_point(|&x| x <= v) - sorted.partition_point(|&x| x < v);
        fits!(k, n, p, "{what}: value {v}");
        acc = f64::min(acc + p, 1.0);
        fits!(sorted.partition_point(|&x| x <= v), n, acc, "{what}: values up to {v}");
    }
    let m = |f: &dyn Fn(f64) -> f64| pmf.iter().map(|c| c.1 * f(c.0 as f64)).sum::<f64>();
    if n >= 2000 {
        for (name, f) in [("mean", (&|x| x) as &dyn Fn(f64) -> f64), ("mean square", &|x| x * x)] {
            let (e, e2) = (m(f), m(&|x| f(x) * f(x)));
            let sd = ((e2 - e * e).max(0.0) / n as f64).sqrt();
            let got = xs.iter().map(|&x| f(x as f64)).sum::<f64>() / n as f64;
            if (got - e).abs() > 10.0 * sd + 1e-9 {
                return Err(format!("{what}: {name} {got:.4} of {n} values, expected {e:.4} with deviation {sd:.5}"));
            }
        }
    }
    let eq: f64 = pmf.iter().map(|c| c.1 * c.1).sum();
    for lag in [1usize, 2, 3, 4, 8, 16, 32] {
        if xs.len() > 2 * lag {
            let (mut k, mut s, mut t) = (0, 0, 0);
            for i in (0..xs.len() - lag).filter(|i| (i / lag) % 2 == 0) {
                t += 1;
                k += (xs[i] == xs[i + lag]) as u64;
                s += (xs[i] == -xs[i + lag]) as u64;
            }
            fits!(k, t, eq, "{what}: two values {lag} apart agree");
            // symmetric distributions only
            if pmf.iter().all(|c| (pmf[pmf.len() - 1].0 + pmf[0].0) == 0 || c.1 == 0.0) {
                fits!(s, t, eq, "{what}: two values {lag} apart are opposite");
            }
        }
    }
    Ok(())
}

/// Masks: distinct, uniform below `p`, position by position.
pub fn masks_fit(g: &mut G, vs: &[Vec<u64>], p: u64, what: &str) -> R {
    let len = vs[0].len();
    if len as f64 * (p as f64).log2() > 80.0 {
        let set: std::collections::HashSet<_> = vs.iter().collect();
        if set.len() != vs.len() {
            return Err(format!("{what}: {} different masks in {} samples", set.len(), vs.len()));
        }
    }
    let flat: Vec<u64> = vs.iter().flatten().copied().collect();
    if flat.is_empty() {
        return Ok(());
    }
    uniform_fit(g, &flat, p, what)?;
    // values (up to sign) that occur again, wherever: shifted, negated, re-used masks
    if p >= 1 << 20 {
        let mut all: Vec<u64> = flat.iter().map(|&x| x.min(p - x)).collect();
        let n = all.len() as f64;
        all.sort_unstable();
        let k = all.windows(2).filter(|w| w[0] == w[1]).count();
        let expected = n * n / p as f64;
        if k as f64 > 8.0 * expected + 60.0 {
            return Err(format!("{what}: {k} of {n} values occur again, up to sign; {expected:.1} would by chance"));
        }
    }
    let h = p / 2;
    let odd = (p / 2) as f64 / p as f64;
    // a few dozen positions of long masks
    let from = if len > 32 { g.us(0, len - 32) } else { 0 };
    let part = |f: &dyn Fn(u64) -> i64| -> Vec<Vec<i64>> { vs.iter().map(|v| v[from..len.min(from + 32)].iter().map(|&x| f(x)).collect()).collect() };
    let lower = h as f64 / p as f64;
    vectors_fit(&part(&|x| (x >= h) as i64), &[(0, lower), (1, 1.0 - lower)], &format!("{what}, upper half"))?;
    vectors_fit(&part(&|x| (x & 1) as i64), &[(0, 1.0 - odd), (1, odd)], &format!("{what}, parity"))
}

/// The noise of samples does not depend on their masks.
pub fn apart(masks: &[Vec<u64>], noise: &[i64], p: u64, pmf: &[(i64, f64)], what: &str) -> R {
    for at in [0, masks[0].len().saturating_sub(1)] {
        for (side, f) in [("in the upper half", (&|x| x >= p / 2) as &dyn Fn(u64) -> bool), ("odd", &|x| x & 1 == 1)] {
            for yes in [true, false] {
                let xs: Vec<i64> = masks.iter().zip(noise).filter(|(m, _)| m.get(at).is_some_and(|&x| f(x) == yes)).map(|(_, &e)| e).collect();
                if !xs.is_empty() {
                    pmf_fit(&xs, pmf, &format!("{what} whose mask entry {at} is {}{side}", if yes { "" } else { "not " }))?;
                }
            }
        }
    }
    Ok(())
}
