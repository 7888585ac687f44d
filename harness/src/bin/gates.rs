//! C25 gates, C26 circuits, C27 bootstrapping with any table.

use algebra::{Field, Polynomial};
use fhe_core::*;
use harness::ct::*;
use harness::engine::*;
use harness::fieldset::*;
use harness::oracle::*;
use harness::scheme::*;
use harness::{ensure, same};
use zkfhe::bfhe::{Evaluator, CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS};
use zkfhe::{Decryptor, Encryptor};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Not,
    And,
    Nand,
    Or,
    Nor,
    Xor,
    Xnor,
    Maj,
    Mux,
}
const OPS: [Op; 9] = [Op::Not, Op::And, Op::Nand, Op::Or, Op::Nor, Op::Xor, Op::Xnor, Op::Maj, Op::Mux];
impl Op {
    fn arity(self) -> usize {
        match self {
            Op::Not => 1,
            Op::Maj | Op::Mux => 3,
            _ => 2,
        }
    }
    /// bit i of the table: the result for the inputs whose bits make up i
    fn table(self) -> u8 {
        match self {
            Op::Not => 0b01,
            Op::And => 0b1000,
            Op::Nand => 0b0111,
            Op::Or => 0b1110,
            Op::Nor => 0b0001,
            Op::Xor => 0b0110,
            Op::Xnor => 0b1001,
            Op::Maj => 0b1110_1000,
            // a ? b : c with a the lowest bit
            Op::Mux => 0b1101_1000,
        }
    }
    fn truth(self, x: &[bool]) -> bool {
        let i = x.iter().enumerate().map(|(i, &b)| (b as u8) << i).sum::<u8>();
        self.table() >> i & 1 == 1
    }
    fn run<C: W, Q: Nx>(self, ev: &Evaluator<C, Q>, c: &[&LWECiphertext<C>]) -> LWECiphertext<C> {
        match self {
            Op::Not => ev.not(c[0]),
            Op::And => ev.and(c[0], c[1]),
            Op::Nand => ev.nand(c[0], c[1]),
            Op::Or => ev.or(c[0], c[1]),
            Op::Nor => ev.nor(c[0], c[1]),
            Op::Xor => ev.xor(c[0], c[1]),
            Op::Xnor => ev.xnor(c[0], c[1]),
            Op::Maj => ev.majority(c[0], c[1], c[2]),
            Op::Mux => ev.mux(c[0], c[1], c[2]),
        }
    }
}

/// keys, an evaluator and what is known about its noise
struct Set<C: W, Q: Nx> {
    s: Spec,
    pack: SecretKeyPack<C, Q>,
    ev: Evaluator<C, Q>,
    /// the LWE key modulo q
    key: Vec<u64>,
    /// a bound for the noise of an output that chance does not exceed
    out: f64,
    /// the noise that the sum of the inputs of a gate may have, and the
    /// difference of the inputs of xor and xnor
    sum: i128,
    dif: i128,
}

fn weight(z: &[u64], p: u64) -> f64 {
    z.iter().map(|&x| centered(x, p).unsigned_abs() as f64).sum()
}
fn weight2(z: &[u64], p: u64) -> f64 {
    z.iter().map(|&x| (centered(x, p) as f64).powi(2)).sum()
}
/// rounding every component of a ciphertext with a random mask
fn rounding(z: &[u64], p: u64, worst: bool) -> f64 {
    let w = (1.0 + weight(z, p)) / 2.0;
    if worst { w } else { w.min(0.5 + 10.0 * (weight2(z, p) / 12.0).sqrt()) }
}

/// (noise of the blind rotation modulo Q, noise of the key switch in its modulus)
fn noises<Q: Nx>(s: &Spec) -> (f64, f64) {
    let mb = (64 - Q::P.leading_zeros()) as usize;
    let sum = |count: f64, digit: f64, top: u64, sd: f64| (count * digit * top as f64).min(spread(count * digit * digit, sd) as f64);
    let len = mb.div_ceil(s.bb as usize);
    let digit = ((1u128 << s.bb) - 1).min(Q::P as u128 - 1) as f64;
    let twice = if s.lk == LWESecretKeyType::Ternary { 2.0 } else { 1.0 };
    let acc = sum(s.n as f64 * 2.0 * len as f64 * s.big as f64 * twice, digit, ring_top(s.rsd), s.rsd);
    let ks = match s.steps {
        Steps::BrMs => 0.0,
        Steps::BrMsKs => {
            let len = (s.q.ilog2() as usize).div_ceil(s.kb as usize);
            sum((s.big * len) as f64, 1.0, top(s.ksd), s.ksd)
        }
        Steps::BrKsMs => {
            let len = mb.div_ceil(s.kb as usize);
            sum((s.big * len) as f64, ((1u128 << s.kb) - 1).min(Q::P as u128 - 1) as f64, ring_top(s.ksd), s.ksd)
        }
    };
    (acc, ks)
}
/// the noise of an output, given both keys as small numbers modulo Q
fn output_noise<Q: Nx>(s: &Spec, key: &[u64], z: &[u64], worst: bool) -> f64 {
    let (acc, ks) = noises::<Q>(s);
    let f = s.q as f64 / Q::P as f64;
    // the eighth of Q is rounded down; modulus switching uses double precision
    let slack = 2.0 * f + 1e-3 + s.q as f64 * 2f64.powi(-51) * (1.0 + weight(z, Q::P).max(weight(key, Q::P)));
    match s.steps {
        Steps::BrMs => acc * f + rounding(z, Q::P, worst) + slack,
        Steps::BrMsKs => acc * f + rounding(z, Q::P, worst) + ks + slack,
        Steps::BrKsMs => (acc + ks) * f + rounding(key, Q::P, worst) + slack,
    }
}
/// the noise that the input of a bootstrapping may have, when a distance of
/// q/8 (twice: q/4) is too far
fn input_noise<Q: Nx>(s: &Spec, key: &[u64], worst: bool) -> (i128, i128) {
    let n = s.big as f64;
    let q = s.q as f64;
    let r = if s.q <= 2 * s.big as u64 { 0.0 } else { rounding(key, Q::P, worst) };
    let slack = (q * 2f64.powi(-48)).floor();
    let sum = ((n / 4.0 - r) * q / (2.0 * n)).ceil() - 1.0 - slack;
    let dif = ((n / 2.0 - r) * q / (4.0 * n)).ceil() - 1.0 - slack;
    (sum as i128, dif as i128)
}

fn build<C: W, Q: Nx>(s: Spec, pack: SecretKeyPack<C, Q>, mut rng: impl rand::Rng + rand::CryptoRng, worst: bool) -> Set<C, Q> {
    let key = lwe_key(&pack);
    let small = lwe_rekey(&key, s.q, Q::P);
    let z = ring_key(&pack);
    let out = output_noise::<Q>(&s, &small, &z, worst);
    let (sum, dif) = input_noise::<Q>(&s, &small, worst);
    let ev = Evaluator::new(&pack, &mut rng);
    Set { s, pack, ev, key, out, sum, dif }
}

/// a small parameter set whose noise stays below a third of what a gate takes,
/// whatever the random choices
fn small_set<C: W, Q: Nx>(g: &mut G) -> Result<Set<C, Q>, String> {
    let mb = (64 - Q::P.leading_zeros()) as usize;
    // log2 of N: 2N has to fit the word
    let top_n = (C::B - 2).min(Q::adicity() - 1).min(if g.one_in(12) { 9 } else { 7 });
    for turn in 0..40 {
        let mut s = spec::<C, Q>(g, 4);
        s.big = 1 << if turn < 20 { g.us(4, top_n as usize) as u32 } else { top_n };
        let two = 2 * s.big as u64;
        s.t = 4;
        s.q = match g.draw(4) {
            0 => two,
            1 => (two >> g.us(1, 4)).max(32),
            _ => 1 << g.us(5, C::B as usize - 1),
        };
        s.steps = *g.pick(&[Steps::BrKsMs, Steps::BrMsKs, Steps::BrMs]);
        let dims = if turn < 20 { 24 } else { 6 };
        s.n = g.us(2, dims);
        s.bb = match g.draw(3) {
            0 => *g.pick(&[1, mb, mb - 1, mb.div_ceil(2)]),
            _ => g.us(1, mb),
        } as u32;
        s.rsd = if g.one_in(3) || turn >= 20 { 0.0 } else { deviation(g, 64.min((Q::P - 1) / 2 - 1)) };
        s.ksd = if g.one_in(3) || turn >= 20 { 0.0 } else { deviation(g, 64.min((Q::P - 1) / 2 - 1).min(s.q / 4)) };
        s.sd = deviation(g, s.q / 100);
        if turn == 39 {
            // certainly quiet enough
            (s.n, s.q, s.steps) = (2, two, Steps::BrKsMs);
        }
        match s.steps {
            Steps::BrMs => {
                s.big = s.big.min(32);
                s.n = s.big;
            }
            Steps::BrMsKs => {
                let k = s.q.ilog2() as usize;
                let wide = (30_000 / (s.big * s.n.max(4))).max(2).ilog2() as usize;
                s.kb = g.us(1, k.min(wide)) as u32;
            }
            Steps::BrKsMs => {
                s.n = s.n.min(s.big);
                s.kb = g.us(1, mb) as u32;
                s.rk = *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]);
            }
        }
        let mut rng = key_rng(g, s.n);
        let pack = s.pack::<C, Q, _>(&mut rng)?;
        let small = lwe_rekey(&lwe_key(&pack), s.q, Q::P);
        // quiet sets are often those with few bits set in their keys
        if turn < 30 && small.iter().all(|&x| x == 0) && !g.one_in(6) {
            continue;
        }
        let worst = g.one_in(2);
        let out = output_noise::<Q>(&s, &small, &ring_key(&pack), worst);
        let (sum, dif) = input_noise::<Q>(&s, &small, worst);
        if 3.0 * out > sum as f64 || 2.0 * out > dif as f64 {
            continue;
        }
        g.note(|| format!("u{} {} {s:?} LWE key {small:?}", C::B, Q::NAME));
        g.label(match s.steps {
            Steps::BrKsMs => "BrKsMs",
            Steps::BrMsKs => "BrMsKs",
            Steps::BrMs => "BrMs",
        });
        g.label(if s.q > 2 * s.big as u64 {
            "q above 2N"
        } else if s.q < 2 * s.big as u64 {
            "q below 2N"
        } else {
            "q equals 2N"
        });
        g.label_if(noises::<Q>(&s).0 > 0.0, "noisy blind rotation key");
        g.label_if(noises::<Q>(&s).1 > 0.0, "noisy key switching key");
        return Ok(build(s, pack, rng, worst));
    }
    Err("no parameter set was found (harness)".into())
}

impl<C: W, Q: Nx> Set<C, Q> {
    /// the noise of a ciphertext of the bit
    fn noise(&self, c: &LWECiphertext<C>, bit: bool) -> Result<i128, String> {
        let ph = phase_of(&comp(c), &self.key, self.s.q as u128)?;
        Ok(centered(subm(ph, bit as u64 * (self.s.q / 4), self.s.q), self.s.q))
    }
    /// a ciphertext of the bit with the given noise and a random mask
    fn cipher(&self, g: &mut G, bit: bool, noise: i128) -> LWECiphertext<C> {
        let q = self.s.q;
        let r = g.draw(0) | 1;
        let a: Vec<u64> = match g.draw(8) {
            0 => vec![0; self.s.n],
            _ => {
                let mut x = r;
                (0..self.s.n).map(|_| { x = splitmix(&mut x); x & (q - 1) }).collect()
            }
        };
        let b = dot(&a, &self.key, q as u128);
        cipher(&(a, addm(b, addm(bit as u64 * (q / 4), wrap(noise, q), q), q)))
    }
    /// whether the noise of the inputs is tolerable, where the inner gates of
    /// a multiplexer count as well
    fn fine(&self, op: Op, e: &[i128]) -> bool {
        match op {
            Op::Not => true,
            Op::Xor | Op::Xnor => (e[0] - e[1]).abs() <= self.dif,
            Op::Mux => (e[0] + e[1]).abs() <= self.sum && (e[2] - e[0]).abs() <= self.sum,
            _ => e.iter().sum::<i128>().abs() <= self.sum,
        }
    }
    /// runs a gate on ciphertexts of known bits and checks its result
    fn gate(&self, op: Op, c: &[&LWECiphertext<C>], bits: &[bool]) -> Result<LWECiphertext<C>, String> {
        let want = op.truth(bits);
        let before: Vec<Comp> = c.iter().map(|c| comp(c)).collect();
        let e = c.iter().zip(bits).map(|(c, &b)| self.noise(c, b)).collect::<Result<Vec<_>, _>>()?;
        let out = op.run(&self.ev, c);
        let d = self.noise(&out, want)?;
        if op == Op::Not {
            same!(d, -e[0], "the noise of not({}) with noise {}", bits[0], e[0]);
        } else {
            let at = format!("q={} N={}", self.s.q, self.s.big);
            ensure!(d.unsigned_abs() as f64 <= self.out, "{op:?} of {bits:?} with noise {e:?} should be {want}, but differs by {d} (at most {:.1} expected), {at}: {before:?}", self.out);
            let got: bool = self.pack.decrypt(&out);
            same!(got, want, "decryption of {op:?} of {bits:?} with noise {e:?}, {at}");
        }
        for (c, b) in c.iter().zip(&before) {
            same!(comp(c), *b, "operand of {op:?}");
        }
        Ok(out)
    }
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------- C25

/// noise of the inputs that the gate has to tolerate, often the most
fn tolerable<C: W, Q: Nx>(g: &mut G, set: &Set<C, Q>, op: Op) -> Vec<i128> {
    let any = |g: &mut G, m: i128| -> i128 {
        let x = if g.one_in(3) { m } else { g.edge(0, m.max(0) as u64) as i128 };
        if g.one_in(2) { -x } else { x }
    };
    match op {
        Op::Not => vec![any(g, set.s.q as i128 / 2 - 1)],
        Op::Xor | Op::Xnor => {
            let a = any(g, set.dif);
            let b = any(g, set.dif - a.abs());
            if g.one_in(2) { vec![a, b] } else { vec![b, a] }
        }
        Op::Mux => {
            let a = any(g, set.sum);
            let (b, c) = (any(g, set.sum - a.abs()), any(g, set.sum - a.abs()));
            vec![a, b, c]
        }
        Op::Maj => {
            let a = any(g, set.sum);
            let b = any(g, set.sum - a.abs());
            let c = any(g, set.sum - a.abs() - b.abs());
            let k = g.us(0, 2);
            let mut v = vec![a, b, c];
            v.rotate_left(k);
            v
        }
        _ => {
            let a = any(g, set.sum);
            let b = any(g, set.sum - a.abs());
            if g.one_in(2) { vec![a, b] } else { vec![b, a] }
        }
    }
}

/// every gate on inputs with noise up to the limit, then on its own results
fn gates<C: W, Q: Nx>(g: &mut G) -> R {
    let set = small_set::<C, Q>(g)?;
    g.hit_if(set.key.iter().any(|&x| x != 0));
    let mut made: Vec<(LWECiphertext<C>, bool)> = vec![];
    for op in OPS {
        for i in 0..1 << op.arity() {
            let bits: Vec<bool> = (0..op.arity()).map(|j| i >> j & 1 == 1).collect();
            let e = tolerable(g, &set, op);
            let c: Vec<_> = bits.iter().zip(&e).map(|(&b, &e)| set.cipher(g, b, e)).collect();
            ensure!(set.fine(op, &e), "intolerable noise {e:?} (harness)");
            let out = set.gate(op, &c.iter().collect::<Vec<_>>(), &bits)?;
            if op != Op::Not {
                made.push((out, op.truth(&bits)));
            }
        }
    }
    // refreshed inputs, one ciphertext for several inputs
    for _ in 0..12 {
        let op = *g.pick(&OPS);
        let mut pick: Vec<usize> = (0..op.arity()).map(|_| g.us(0, made.len() - 1)).collect();
        if g.one_in(3) {
            let one = pick[0];
            pick.fill(one);
        }
        let bits: Vec<bool> = pick.iter().map(|&i| made[i].1).collect();
        let c: Vec<_> = pick.iter().map(|&i| &made[i].0).collect();
        let out = set.gate(op, &c, &bits)?;
        made.push((out, op.truth(&bits)));
    }
    Ok(())
}

/// fresh encryptions through the boolean crate's types
fn fresh<C: W, Q: Nx>(g: &mut G) -> R {
    let set = small_set::<C, Q>(g)?;
    g.hit();
    let mut rng = g.rng();
    let (enc, dec) = (Encryptor::new(set.pack.clone()), Decryptor::new(set.pack.clone()));
    for op in OPS {
        let bits: Vec<bool> = (0..op.arity()).map(|_| g.bool()).collect();
        let c: Vec<_> = bits.iter().map(|&b| enc.encrypt(b, &mut rng)).collect();
        let e = c.iter().zip(&bits).map(|(c, &b)| set.noise(c, b)).collect::<Result<Vec<_>, _>>()?;
        let most = top(set.s.sd) as i128;
        ensure!(e.iter().all(|e| e.abs() <= most), "fresh encryptions with noise {e:?}, at most {most} expected: {:?}", set.s);
        if !set.fine(op, &e) {
            continue;
        }
        let out = set.gate(op, &c.iter().collect::<Vec<_>>(), &bits)?;
        let (got, noise): (bool, C) = dec.decrypt_with_noise(&out);
        same!(got, op.truth(&bits), "decryption of {op:?} of {bits:?}");
        same!(noise.u() as u128, set.noise(&out, got)?.unsigned_abs(), "reported noise of {op:?}");
        // the same message as a number
        let n: u8 = dec.decrypt(&out);
        same!(n, got as u8, "decryption of {op:?} as a number");
    }
    Ok(())
}

/// the reference functions
fn tables(g: &mut G) -> R {
    g.hit();
    let i = g.turn(8);
    let (a, b, c) = (i & 1 == 1, i & 2 == 2, i & 4 == 4);
    g.note(|| format!("{a} {b} {c}"));
    for (f, op) in [(utils::and(a, b), Op::And), (utils::nand(a, b), Op::Nand), (utils::or(a, b), Op::Or), (utils::nor(a, b), Op::Nor), (utils::xor(a, b), Op::Xor), (utils::xnor(a, b), Op::Xnor)] {
        same!(f, op.truth(&[a, b]), "{op:?}({a}, {b})");
    }
    same!(utils::not(a), Op::Not.truth(&[a]), "not({a})");
    same!(utils::majority(a, b, c), Op::Maj.truth(&[a, b, c]), "majority({a}, {b}, {c})");
    // the tables above, spelled out
    same!(Op::Mux.truth(&[a, b, c]), if a { b } else { c }, "mux (harness)");
    same!(Op::Maj.truth(&[a, b, c]), (a as u8 + b as u8 + c as u8) >= 2, "majority (harness)");
    same!(Op::Xor.truth(&[a, b]), a != b, "xor (harness)");
    same!(Op::Nor.truth(&[a, b]), !(a || b), "nor (harness)");
    Ok(())
}

type Full = Set<u16, DefaultFieldU32>;

/// the parameters of a shipped set as a specification
fn shipped(which: u64) -> (Spec, Parameters<u16, DefaultFieldU32>) {
    let p = if which == 0 { *DEFAULT_TERNARY_128_BITS_PARAMETERS } else { *CUSTOM_TERNARY_128_BITS_PARAMETERS };
    let s = Spec {
        n: p.lwe_dimension(),
        t: p.lwe_plain_modulus(),
        q: p.lwe_cipher_modulus_value() as u64,
        sd: p.lwe_noise_standard_deviation(),
        lk: p.lwe_secret_key_type(),
        big: p.ring_dimension(),
        rsd: p.ring_noise_standard_deviation(),
        rk: p.ring_secret_key_type(),
        bb: p.blind_rotation_basis().bits(),
        kb: p.key_switching_basis_bits(),
        ksd: p.key_switching_noise_standard_deviation(),
        steps: p.steps(),
    };
    (s, p)
}
fn full(g: &mut G, which: u64) -> Full {
    let (s, p) = shipped(which);
    let mut rng = g.rng();
    let pack = SecretKeyPack::new(p, &mut rng);
    build(s, pack, rng, false)
}
/// the root mean square of the noise of an output of a set, for random digits
fn predicted<Q: Nx>(s: &Spec, key: &[u64], z: &[u64]) -> f64 {
    let mb = (64 - Q::P.leading_zeros()) as usize;
    let f = s.q as f64 / Q::P as f64;
    let square = |bits: u32| {
        let d = 2f64.powi(bits as i32) - 1.0;
        d * (2.0 * d + 1.0) / 6.0
    };
    let twice = if s.lk == LWESecretKeyType::Ternary { 2.0 } else { 1.0 };
    let acc = (s.n * 2 * mb.div_ceil(s.bb as usize) * s.big) as f64 * twice * square(s.bb) * s.rsd * s.rsd * f * f;
    let n = s.big as f64;
    (acc + match s.steps {
        Steps::BrMs => weight2(z, Q::P) / 12.0,
        Steps::BrMsKs => weight2(z, Q::P) / 12.0 + n * (s.q.ilog2() as usize).div_ceil(s.kb as usize) as f64 * s.ksd * s.ksd,
        Steps::BrKsMs => weight2(key, Q::P) / 12.0 + n * mb.div_ceil(s.kb as usize) as f64 * square(s.kb) * s.ksd * s.ksd * f * f,
    } + 1.0 / 12.0)
        .sqrt()
}

/// gates in sequence on a shipped set; those whose inputs happen to have more
/// noise than a gate tolerates are not judged
struct Chain {
    set: Full,
    rms: f64,
    noise: Vec<f64>,
}
impl Chain {
    fn new(g: &mut G, which: u64) -> Result<Chain, String> {
        let set = full(g, which);
        let rms = predicted::<DefaultFieldU32>(&set.s, &lwe_rekey(&set.key, set.s.q, DefaultFieldU32::P), &ring_key(&set.pack));
        ensure!(rms <= 0.36 * (set.s.q / 16) as f64, "the noise of shipped set {which} is {rms} per output, not tolerable");
        Ok(Chain { set, rms, noise: vec![] })
    }
    /// the result and the bit it is taken for
    fn gate(&mut self, g: &mut G, op: Op, c: &[&LWECiphertext<u16>], bits: &[bool]) -> Result<(LWECiphertext<u16>, bool), String> {
        let set = &self.set;
        let e = c.iter().zip(bits).map(|(c, &b)| set.noise(c, b)).collect::<Result<Vec<_>, _>>()?;
        let mut judged = set.fine(op, &e);
        if judged && op == Op::Mux {
            let (x, y) = (set.ev.and(c[0], c[1]), set.ev.and(&set.ev.not(c[0]), c[2]));
            let e = set.noise(&x, bits[0] && bits[1])? + set.noise(&y, !bits[0] && bits[2])?;
            judged = e.abs() <= set.sum;
        }
        let out = op.run(&set.ev, c);
        if op == Op::Not {
            let d = set.noise(&out, !bits[0])?;
            same!(d, -e[0], "the noise of not({}) with noise {}", bits[0], e[0]);
            return Ok((out, !bits[0]));
        }
        if !judged {
            g.label("inputs with too much noise");
            let m: bool = set.pack.decrypt(&out);
            return Ok((out, m));
        }
        let want = op.truth(bits);
        let d = set.noise(&out, want)?;
        ensure!(d.unsigned_abs() as f64 <= 8.0 * self.rms, "{op:?} of {bits:?} with noise {e:?} should be {want}, but differs by {d}, {:.1} is usual (q={})", self.rms, set.s.q);
        if d.unsigned_abs() < set.s.q as u128 / 8 {
            let got: bool = set.pack.decrypt(&out);
            same!(got, want, "decryption of {op:?} of {bits:?}");
        }
        self.noise.push(d as f64);
        Ok((out, want))
    }
    fn close(&self) -> R {
        let n = self.noise.len() as f64;
        let rms = (self.noise.iter().map(|x| x * x).sum::<f64>() / n).sqrt();
        let most = self.rms * (1.15 + 7.0 * (2.0 / n).sqrt()).sqrt();
        ensure!(rms <= most, "{n} outputs have noise {rms:.1} (root mean square), {:.1} is usual", self.rms);
        Ok(())
    }
}

fn shipped_gates(g: &mut G) -> R {
    g.hit();
    let which = g.turn(2);
    let mut ch = Chain::new(g, which)?;
    g.label(if which == 0 { "default" } else { "custom" });
    g.note(|| format!("set {which}"));
    let mut rng = g.rng();
    let mut made: Vec<(LWECiphertext<u16>, bool)> = vec![];
    for turn in 0..2 {
        for op in OPS {
            let i = g.us(0, (1 << op.arity()) - 1);
            let mut bits: Vec<bool> = (0..op.arity()).map(|j| i >> j & 1 == 1).collect();
            let c: Vec<LWECiphertext<u16>> = if turn == 0 {
                bits.iter().map(|&b| ch.set.pack.encrypt(b, &mut rng)).collect()
            } else {
                let mut pick: Vec<usize> = (0..op.arity()).map(|_| g.us(0, made.len() - 1)).collect();
                if g.one_in(4) {
                    let one = pick[0];
                    pick.fill(one);
                }
                bits = pick.iter().map(|&i| made[i].1).collect();
                pick.iter().map(|&i| made[i].0.clone()).collect()
            };
            let (out, bit) = ch.gate(g, op, &c.iter().collect::<Vec<_>>(), &bits)?;
            made.push((out, bit));
        }
    }
    ch.close()
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug)]
struct Step {
    op: Op,
    from: Vec<usize>,
}
/// gates whose operands are inputs or earlier results
fn circuit(g: &mut G, inputs: usize, most: usize) -> Vec<Step> {
    let len = g.us(1, most);
    let deep = g.one_in(2);
    (0..len)
        .map(|i| {
            let op = *g.pick(&OPS);
            let have = inputs + i;
            let mut from: Vec<usize> = (0..op.arity()).map(|_| if deep && i > 0 { have - 1 - g.us(0, 2.min(have - 1)) } else { g.us(0, have - 1) }).collect();
            if g.one_in(8) {
                let one = from[0];
                from.fill(one);
            }
            Step { op, from }
        })
        .collect()
}
fn depth(steps: &[Step], inputs: usize) -> usize {
    let mut d = vec![0; inputs];
    for s in steps {
        d.push(s.from.iter().map(|&i| d[i]).max().unwrap() + (s.op != Op::Not) as usize);
    }
    d.into_iter().max().unwrap()
}

fn circuits<C: W, Q: Nx>(g: &mut G) -> R {
    let set = small_set::<C, Q>(g)?;
    let inputs = g.us(1, 6);
    let most = if g.one_in(20) { 400 } else { 60 };
    let steps = circuit(g, inputs, most);
    let deep = depth(&steps, inputs);
    g.hit_if(deep >= 3);
    g.label_if(deep >= 10, "depth 10 or more");
    g.label_if(deep >= 100, "depth 100 or more");
    // fresh inputs have as much noise as an output
    let most = (set.out as i128).min(set.sum / 3).min(set.dif / 2);
    let mut bits: Vec<bool> = (0..inputs).map(|_| g.bool()).collect();
    let mut c: Vec<LWECiphertext<C>> = vec![];
    for &b in &bits {
        let e = g.edge(0, most as u64) as i128;
        let e = if g.one_in(2) { -e } else { e };
        c.push(set.cipher(g, b, e));
    }
    let first: Vec<Comp> = c.iter().map(comp).collect();
    let shown: Vec<(Op, &[usize])> = steps.iter().map(|s| (s.op, &s.from[..])).collect();
    for (i, s) in steps.iter().enumerate() {
        let b: Vec<bool> = s.from.iter().map(|&j| bits[j]).collect();
        let x: Vec<&LWECiphertext<C>> = s.from.iter().map(|&j| &c[j]).collect();
        let out = s.op.run(&set.ev, &x);
        let want = s.op.truth(&b);
        let d = set.noise(&out, want)?;
        ensure!(d.unsigned_abs() as f64 <= set.out.max(most as f64), "gate {i} of {shown:?} on {:?}: {:?} of {b:?} should be {want}, but differs by {d}, at most {:.1} expected, q={}", &bits[..inputs], s.op, set.out, set.s.q);
        bits.push(want);
        c.push(out);
    }
    // the same bits from decryption, untouched operands
    for (i, (x, &b)) in c.iter().zip(&bits).enumerate() {
        let got: bool = set.pack.decrypt(x);
        same!(got, b, "decryption of wire {i} of {shown:?}");
    }
    for (i, x) in first.iter().enumerate() {
        same!(comp(&c[i]), *x, "input {i} after the evaluation of {shown:?}");
    }
    // once more, from a copy of the evaluator
    let other = set.ev.clone();
    for _ in 0..4 {
        let i = g.us(0, steps.len() - 1);
        let s = &steps[i];
        let x: Vec<&LWECiphertext<C>> = s.from.iter().map(|&j| &c[j]).collect();
        ensure!(s.op.run(&set.ev, &x) == c[inputs + i], "gate {i} of {shown:?} gives another result the second time");
        ensure!(s.op.run(&other, &x) == c[inputs + i], "gate {i} of {shown:?} gives another result with a copy of the evaluator");
    }
    Ok(())
}

/// evaluates a circuit gate by gate, then with several threads at a time
fn parallel<C: W, Q: Nx>(g: &mut G) -> R {
    let set = small_set::<C, Q>(g)?;
    let inputs = g.us(2, 6);
    let steps = circuit(g, inputs, 40);
    let bits: Vec<bool> = (0..inputs).map(|_| g.bool()).collect();
    let fresh: Vec<LWECiphertext<C>> = bits.iter().map(|&b| set.cipher(g, b, 0)).collect();
    let threads = g.us(2, 8);
    let inside = g.bool();
    let mut all = fresh.clone();
    for s in &steps {
        let x: Vec<&LWECiphertext<C>> = s.from.iter().map(|&j| &all[j]).collect();
        all.push(s.op.run(&set.ev, &x));
    }
    // layer by layer: everything whose operands are ready, at the same time
    let mut done: Vec<Option<LWECiphertext<C>>> = fresh.into_iter().map(Some).chain(steps.iter().map(|_| None)).collect();
    let mut width = 0;
    while done.iter().any(|d| d.is_none()) {
        let ready: Vec<usize> = (0..steps.len()).filter(|&i| done[inputs + i].is_none() && steps[i].from.iter().all(|&j| done[j].is_some())).collect();
        width = width.max(ready.len());
        let share = ready.len().div_ceil(threads);
        let (ev, d) = (&set.ev, &done);
        let run = |part: &[usize]| -> Vec<(usize, LWECiphertext<C>)> {
            part.iter()
                .map(|&i| {
                    let x: Vec<&LWECiphertext<C>> = steps[i].from.iter().map(|&j| d[j].as_ref().unwrap()).collect();
                    (i, steps[i].op.run(ev, &x))
                })
                .collect()
        };
        let out: Vec<(usize, LWECiphertext<C>)> = if inside {
            // tasks of one thread pool, where multiplexers fork further
            use rayon::prelude::*;
            ready.par_chunks(share).flat_map_iter(run).collect()
        } else {
            std::thread::scope(|s| {
                let hands: Vec<_> = ready.chunks(share).map(|part| s.spawn(|| run(part))).collect();
                hands.into_iter().flat_map(|h| h.join().unwrap()).collect()
            })
        };
        for (i, c) in out {
            done[inputs + i] = Some(c);
        }
    }
    g.hit_if(width > 1);
    g.label(if inside { "in the thread pool" } else { "own threads" });
    for (i, (a, b)) in all.iter().zip(&done).enumerate() {
        ensure!(Some(a) == b.as_ref(), "wire {i} of {:?} differs when {threads} threads evaluate the circuit", steps.iter().map(|s| (s.op, &s.from[..])).collect::<Vec<_>>());
    }
    Ok(())
}

/// random circuits on the shipped sets
fn shipped_circuit(g: &mut G) -> R {
    let which = g.turn(2);
    let mut ch = Chain::new(g, which)?;
    g.label(if which == 0 { "default" } else { "custom" });
    let inputs = g.us(2, 4);
    let steps = circuit(g, inputs, 24);
    g.note(|| format!("set {which} {steps:?}"));
    g.hit_if(depth(&steps, inputs) >= 3);
    let mut rng = g.rng();
    let mut made: Vec<(LWECiphertext<u16>, bool)> = (0..inputs).map(|_| g.bool()).map(|b| (ch.set.pack.encrypt(b, &mut rng), b)).collect();
    for s in &steps {
        let bits: Vec<bool> = s.from.iter().map(|&i| made[i].1).collect();
        let c: Vec<LWECiphertext<u16>> = s.from.iter().map(|&i| made[i].0.clone()).collect();
        let (out, bit) = ch.gate(g, s.op, &c.iter().collect::<Vec<_>>(), &bits)?;
        made.push((out, bit));
    }
    // some of them again, at the same time
    let tail: Vec<usize> = (0..steps.len()).rev().take(4).collect();
    let ev = &ch.set.ev;
    let again: Vec<_> = std::thread::scope(|s| {
        let hands: Vec<_> = tail
            .iter()
            .map(|&i| {
                let x: Vec<_> = steps[i].from.iter().map(|&j| &made[j].0).collect();
                let op = steps[i].op;
                s.spawn(move || op.run(ev, &x))
            })
            .collect();
        hands.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (&i, c) in tail.iter().zip(&again) {
        ensure!(*c == made[inputs + i].0, "gate {i} of {steps:?} on set {which} gives another result when evaluated concurrently");
    }
    ch.close()
}

// ---------------------------------------------------------------- C27

/// bootstrapping with any table
fn bootstrap<C: W, Q: Nx>(g: &mut G) -> R {
    let set = small_set::<C, Q>(g)?;
    g.hit_if(set.key.iter().any(|&x| x != 0));
    let (p, q, n) = (Q::P, set.s.q, set.s.big);
    let two = 2 * n as u64;
    let key2 = lwe_rekey(&set.key, q, two);
    for _ in 0..12 {
        let lut = match g.draw(3) {
            0 => {
                let i = g.us(0, n - 1);
                let mut v = vec![0; n];
                v[i] = p / 2;
                v
            }
            _ => g.vec(n, p),
        };
        // components that do not lie half-way between two multiples of q/2N,
        // nor so close to it that double precision cannot tell
        let free = |x: u64| if q > two && (x % (q / two)).abs_diff(q / two / 2) <= q >> 50 { x - (q >> 49) - 1 } else { x };
        let mut c: Comp = match g.draw(4) {
            0 => (vec![0; set.s.n], g.int(0, q - 1)),
            _ => (g.vec(set.s.n, q), g.edge(0, q - 1)),
        };
        c = map(&c, free);
        let near = |x: u64| ((x as u128 * two as u128 + q as u128 / 2) / q as u128 % two as u128) as u64;
        let ph = phase(&map(&c, near), &key2, two as u128) as usize;
        let entry = if ph < n { lut[ph] } else { subm(0, lut[ph - n], p) };
        let v = addm(entry, p >> 3, p);
        let x = cipher::<C>(&c);
        let out = comp(&set.ev.bootstrap(x, Polynomial::new(fv(&lut))));
        let got = phase_of(&out, &set.key, q as u128)?;
        // got / q - v / p
        let all = p as i128 * q as i128;
        let mut d = (got as i128 * p as i128 - v as i128 * q as i128).rem_euclid(all);
        d = d.min(all - d);
        let d = d as f64 / p as f64;
        ensure!(d <= set.out, "bootstrapping {c:?} (phase {ph} modulo {two}) with {lut:?} should give {v}/{p}, gives {got}/{q}, off by {d:.2}, at most {:.2} expected, {:?}", set.out, set.s);
    }
    Ok(())
}

macro_rules! combos {
    ($v:ident, $name:literal, $f:ident, [$($c:ident $q:ident),*], $quick:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($c), "-", stringify!($q)), $quick, $th, $rule, $f::<$c, $q>)); )*
    };
}
fn main() {
    let mut c25 = vec![];
    c25.push(sub("tables", 8, 8, "the plaintext reference functions", tables));
    combos!(c25, "gates", gates, [u8 N257, u8 N27, u16 N12289, u16 N27, u32 N30, u64 N50, u64 N62], 1_500, 40_000, "all gates and inputs with noise up to the limit, 12 more on the results; non-trivial: the key is not zero");
    combos!(c25, "fresh", fresh, [u8 N257, u16 N12289, u16 N27, u32 N30, u64 N62], 1_500, 40_000, "one encryption, gate and decryption per kind of gate");
    c25.push(sub("shipped", 4, 64, "18 gates on a shipped parameter set", shipped_gates).shrink(0));

    let mut c26 = vec![];
    combos!(c26, "circuits", circuits, [u8 N257, u8 N27, u16 N12289, u16 N27, u32 N30, u64 N50, u64 N62], 1_500, 40_000, "circuits of up to 60, sometimes 400 gates; non-trivial: depth 3 or more");
    combos!(c26, "parallel", parallel, [u8 N27, u16 N27, u32 N30, u64 N62], 800, 20_000, "circuits of up to 40 gates with 2 to 8 threads; non-trivial: several gates at a time");
    c26.push(sub("shipped", 4, 64, "circuits of up to 24 gates on a shipped parameter set; non-trivial: depth 3 or more", shipped_circuit).shrink(0));

    let mut c27 = vec![];
    combos!(c27, "bootstrap", bootstrap, [u8 N257, u8 N27, u16 N12289, u16 N27, u32 N30, u64 N50, u64 N62], 4_000, 100_000, "12 ciphertexts and tables; non-trivial: the key is not zero");

    let some = ["LWE modulus and twice the ring dimension are powers of two that fit the word", "a failure needs a deviation that chance produces with probability below e^-40", "BrMsKs with binary and ternary ring keys, BrKsMs with LWE dimensions from 2 to N"];
    let some: &'static [&'static str] = Box::leak(Box::new(some));
    harness::engine::main(vec![Prop { id: "C25", subs: c25, assumptions: some }, Prop { id: "C26", subs: c26, assumptions: some }, Prop { id: "C27", subs: c27, assumptions: some }])
}
