//! Reference implementations. Nothing here uses the code under test.

/// a * b mod m
pub fn mulm(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 * b as u128) % m as u128) as u64
}
pub fn addm(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 + b as u128) % m as u128) as u64
}
pub fn subm(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 + m as u128 - (b % m) as u128) % m as u128) as u64
}
pub fn negm(a: u64, m: u64) -> u64 {
    subm(0, a, m)
}
/// a^e mod m (1 mod m for e = 0), right-to-left
pub fn powm(a: u64, mut e: u128, m: u64) -> u64 {
    let mut r = 1 % m;
    let mut b = a % m;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b, m);
        }
        b = mulm(b, b, m);
        e >>= 1;
    }
    r
}
pub fn gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
/// The inverse of a modulo m, when there is one (Euclid, i128 coefficients).
pub fn invm(a: u64, m: u64) -> Option<u64> {
    let (mut r0, mut r1) = (m as i128, (a % m) as i128);
    let (mut t0, mut t1) = (0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    if r0 != 1 { None } else { Some(t0.rem_euclid(m as i128) as u64) }
}
/// Deterministic for every u64 (Jaeschke/Sorenson-Webster bases).
pub fn is_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n == p {
            return true;
        }
        if n % p == 0 {
            return false;
        }
    }
    [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37].iter().all(|&a| strong_probable_prime(n, a))
}
/// Does odd n > 2 pass the strong (Miller-Rabin) test to base a?
pub fn strong_probable_prime(n: u64, a: u64) -> bool {
    let a = a % n;
    if a == 0 {
        return true;
    }
    let s = (n - 1).trailing_zeros();
    let mut x = powm(a, ((n - 1) >> s) as u128, n);
    if x == 1 || x == n - 1 {
        return true;
    }
    for _ in 1..s {
        x = mulm(x, x, n);
        if x == n - 1 {
            return true;
        }
    }
    false
}
pub fn next_prime(mut n: u64) -> u64 {
    while !is_prime(n) {
        n += 1;
    }
    n
}
pub fn prev_prime(mut n: u64) -> u64 {
    while !is_prime(n) {
        n -= 1;
    }
    n
}
/// The prime factors of n by trial division (small n) or of p-1 for table primes.
pub fn prime_factors(mut n: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut d = 2;
    while d * d <= n && d < 1 << 22 {
        if n % d == 0 {
            v.push(d);
            while n % d == 0 {
                n /= d;
            }
        }
        d += if d == 2 { 1 } else { 2 };
    }
    if n > 1 {
        v.push(n);
    }
    v
}
/// x as a signed number of smallest magnitude modulo m
pub fn centered(x: u64, m: u64) -> i128 {
    let x = x as i128;
    if x > m as i128 / 2 { x - m as i128 } else { x }
}
pub fn wrap(x: i128, m: u64) -> u64 {
    x.rem_euclid(m as i128) as u64
}

/// a * b in Z_m[X]/(X^n + 1), schoolbook
pub fn negacyclic(a: &[u64], b: &[u64], m: u64) -> Vec<u64> {
    let n = a.len();
    assert_eq!(n, b.len());
    let mut r = vec![0u64; n];
    for (i, &x) in a.iter().enumerate() {
        if x == 0 {
            continue;
        }
        for (j, &y) in b.iter().enumerate() {
            if y == 0 {
                continue;
            }
            let p = mulm(x, y, m);
            let k = i + j;
            if k < n {
                r[k] = addm(r[k], p, m);
            } else {
                r[k - n] = subm(r[k - n], p, m);
            }
        }
    }
    r
}
/// a * X^k in Z_m[X]/(X^n + 1) for any k
pub fn mul_monomial(a: &[u64], k: usize, m: u64) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0; n];
    for (i, &x) in a.iter().enumerate() {
        let j = (i + k) % (2 * n);
        if j < n {
            r[j] = x;
        } else {
            r[j - n] = negm(x, m);
        }
    }
    r
}
/// Horner
pub fn eval(a: &[u64], x: u64, m: u64) -> u64 {
    a.iter().rev().fold(0, |acc, &c| addm(mulm(acc, x, m), c, m))
}
/// The smallest primitive `order`-th root of unity modulo the prime p, by
/// definition; `order` a power of two >= 2 dividing p-1.
pub fn smallest_primitive_root(order: u64, p: u64) -> Option<u64> {
    if order < 2 || (p - 1) % order != 0 {
        return None;
    }
    // some primitive root of this order
    let mut g = 2;
    let root = loop {
        let r = powm(g, ((p - 1) / order) as u128, p);
        if powm(r, (order / 2) as u128, p) == p - 1 {
            break r;
        }
        g += 1;
    };
    // all of them are its odd powers
    let sq = mulm(root, root, p);
    let (mut best, mut cur) = (root, root);
    for _ in 1..order / 2 {
        cur = mulm(cur, sq, p);
        best = best.min(cur);
    }
    Some(best)
}
pub fn rev_bits(x: usize, bits: u32) -> usize {
    (0..bits).fold(0, |r, i| (r << 1) | ((x >> i) & 1))
}

/// Compares an observed count with a binomial expectation: false when it is
/// `z` standard deviations off (plus one for rounding).
pub fn binomial_ok(count: u64, n: u64, p: f64, z: f64) -> bool {
    let mean = n as f64 * p;
    let sd = (n as f64 * p * (1.0 - p)).sqrt();
    (count as f64 - mean).abs() <= z * sd + 1.0
}
/// error function (Abramowitz-Stegun 7.1.26 is too coarse: series / continued fraction)
pub fn erf(x: f64) -> f64 {
    if x < 0.0 {
        return -erf(-x);
    }
    if x > 6.0 {
        return 1.0;
    }
    if x < 2.5 {
        // Maclaurin
        let mut term = x;
        let mut sum = x;
        let mut n = 0.0;
        while term.abs() > 1e-17 * sum.abs() {
            n += 1.0;
            term *= -x * x / n;
            sum += term / (2.0 * n + 1.0);
        }
        sum * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        // Lentz-free continued fraction of erfc, evaluated backwards
        let mut f = 0.0;
        for k in (1..=60).rev() {
            f = (k as f64 / 2.0) / (x + f);
        }
        1.0 - (-x * x).exp() / ((x + f) * std::f64::consts::PI.sqrt())
    }
}
pub fn phi(x: f64) -> f64 {
    0.5 * (1.0 + erf(x / std::f64::consts::SQRT_2))
}
