//! C31: whatever a safe function is given, it returns or panics.
//!
//! The cases call the public API with arguments that do not fit together
//! (lengths, bases, spaces, values that are not reduced, dimensions, sizes of
//! scratch space, tables of roots) and from many threads. They look at nothing
//! but that the call comes back: this binary is built with the address, memory
//! and thread sanitizers (and runs under Miri), which end it at the first
//! access that is out of bounds, uninitialised or racing.

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

use algebra::modulus::*;
use algebra::reduce::*;
use algebra::transformation::{AbstractNTT, MonomialNTT, NTTTable};
use algebra::utils::{sample_binary_field_vec, sample_cbd_field_vec, sample_ternary_field_vec, Aes, Block, ExtendedGCD, Prg, Prime, ReverseLsbs};
use algebra::{as_cast, BorrowingSub, CarryingAdd, CarryingMul, PrimeField, WideningMul, WrappingAdd, WrappingMul, WrappingNeg, WrappingShl, WrappingShr, WrappingSub};
use algebra::{Basis, DecomposableField, FheField, Field, FieldBinarySampler, FieldDiscreteGaussianSampler, FieldTernarySampler, FieldUniformSampler, NTTField, NTTPolynomial, Polynomial};
use fhe_core::*;
use harness::engine::*;
use harness::fieldset::*;
use harness::scheme::*;
use lattice::*;
use num_traits::{Inv, Pow};
use rand::distributions::Distribution;
use rand::{Rng, RngCore, SeedableRng};
use zkfhe::bfhe::{Evaluator, CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS};
use zkfhe::{Decryptor, Encryptor, KeyGen};

static SEEN: AtomicU64 = AtomicU64::new(0);

/// Decides on a value, which the memory sanitizer lets nobody do before it is written.
fn look(x: u64) {
    if x == 0x5ee0_0000_0000_0001 {
        SEEN.fetch_add(1, Ordering::Relaxed);
    }
}
fn eat<F: Fx>(v: &[F]) {
    for x in v {
        look(x.u());
    }
}
fn eats(v: &[u64]) {
    v.iter().for_each(|&x| look(x));
}
fn eat_rlwe<F: Nx>(c: &RLWE<F>) {
    eat(c.a_slice());
    eat(c.b_slice());
}
fn eat_ntt_rlwe<F: Nx>(c: &NTTRLWE<F>) {
    eat(c.a_slice());
    eat(c.b_slice());
}

/// a generator that gives up (rejection loops with absurd parameters)
struct Finite {
    inner: rand_chacha::ChaCha12Rng,
    left: u64,
}
impl RngCore for Finite {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        assert!(self.left > 0, "the generator is exhausted");
        self.left -= 1;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            b.copy_from_slice(&x[..b.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for Finite {}
fn finite(g: &mut G) -> Finite {
    Finite { inner: g.rng(), left: 60_000 }
}

const MIRI: bool = cfg!(miri);

/// a length that usually is `n`
fn length(g: &mut G, n: usize) -> usize {
    if g.draw(3) != 0 {
        return n;
    }
    g.label("lengths differ");
    g.hit();
    match g.draw(6) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => 2 * n,
        4 => n / 2,
        _ if !MIRI && g.one_in(20) => g.us(0, 3000),
        _ => g.us(0, 70),
    }
}
fn size(g: &mut G) -> usize {
    if !MIRI && g.one_in(80) {
        g.label("large");
        return 1 << g.us(8, 12);
    }
    1 << g.us(0, if MIRI { 4 } else { 7 })
}
/// a value of the field's word, mostly reduced
fn elem<F: Fx>(g: &mut G) -> F {
    if g.draw(4) == 0 {
        g.label("unreduced");
        g.hit();
        F::mk(g.edge(0, F::word_max()))
    } else {
        F::mk(g.edge(0, F::P - 1))
    }
}
fn elems<F: Fx>(g: &mut G, n: usize) -> Vec<F> {
    let m = match g.draw(4) {
        0 => {
            g.label("unreduced");
            if F::W == 64 { 0 } else { F::word_max() + 1 }
        }
        _ => F::P,
    };
    g.vec(n, m).into_iter().map(F::mk).collect()
}
fn poly<F: Nx>(g: &mut G, n: usize) -> Polynomial<F> {
    let n = length(g, n);
    Polynomial::new(elems(g, n))
}
fn npoly<F: Nx>(g: &mut G, n: usize) -> NTTPolynomial<F> {
    let n = length(g, n);
    NTTPolynomial::new(elems(g, n))
}
fn rlwe<F: Nx>(g: &mut G, n: usize) -> RLWE<F> {
    let (a, b) = (poly::<F>(g, n), poly::<F>(g, n));
    let k = b.coeff_count();
    let mut c = RLWE::zero(k);
    *c.a_mut() = a;
    *c.b_mut() = b;
    c
}
fn nrlwe<F: Nx>(g: &mut G, n: usize) -> NTTRLWE<F> {
    let (a, b) = (npoly::<F>(g, n), npoly::<F>(g, n));
    let k = b.coeff_count();
    let mut c = NTTRLWE::zero(k);
    *c.a_mut() = a;
    *c.b_mut() = b;
    c
}
/// an exponent or index: small, around n and 2n, anything
fn index(g: &mut G, n: usize) -> usize {
    match g.draw(6) {
        0 | 1 => g.us(0, 2 * n),
        2 => 2 * n + g.us(0, 3),
        3 => (n * g.us(0, 9)).wrapping_add(g.us(0, 2)).wrapping_sub(1),
        4 => g.edge(0, u64::MAX) as usize,
        _ => g.us(0, 10 * n + 10),
    }
}
fn try_basis<F: Nx>(g: &mut G) -> Option<Basis<F>> {
    let b = match g.draw(12) {
        0 => 64 - F::P.leading_zeros(),
        1 => 65,
        2 => 0,
        3 => g.draw(70) as u32,
        _ => g.us(1, (64 - F::P.leading_zeros()) as usize) as u32,
    };
    call(g, || Basis::new(b))
}
fn deviation(g: &mut G) -> f64 {
    match g.draw(10) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => -1.0,
        3 => 0.0,
        4 => 1e300,
        5 => f64::MIN_POSITIVE,
        6 => f64::from_bits(g.draw(0)),
        _ => 3.2,
    }
}
fn noise(g: &mut G) -> FieldDiscreteGaussianSampler {
    match g.draw(6) {
        0 => FieldDiscreteGaussianSampler::new(deviation(g), deviation(g)).unwrap_or(FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap()),
        1 => FieldDiscreteGaussianSampler::new_with_max(deviation(g), deviation(g), deviation(g)).unwrap_or(FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap()),
        _ => FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap(),
    }
}

/// runs one call; a panic is one of the two allowed outcomes
fn call<T>(g: &mut G, f: impl FnOnce() -> T) -> Option<T> {
    let r = no_panic(f);
    g.label(if r.is_some() { "returned" } else { "panicked" });
    r
}

// ---------------------------------------------------------------- numbers

fn numbers_in<F: Nx>(g: &mut G) -> R {
    g.note(|| F::NAME.to_string());
    for _ in 0..g.us(1, 8) {
        let (a, b, c): (F, F, F) = (elem(g), elem(g), elem(g));
        let e = g.edge(0, F::word_max());
        let op = g.draw(29);
        let mut r = finite(g);
        let bits = g.us(0, 70) as u32;
        let mask = F::val(g.edge(0, F::word_max()));
        let n = g.us(0, 70);
        let s = noise(g);
        let mut v: Vec<F> = elems(g, n);
        let basis = if matches!(op, 14 | 15) { try_basis::<F>(g) } else { None };
        let out: Option<F> = call(g, || match op {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            3 => a / b,
            4 => -a,
            5 => a.inv(),
            6 => a.powx(e),
            7 => a.add_mul(b, c),
            8 => a.mul_fast(b),
            9 => a.add_mul_fast(b, c),
            10 => F::from_root(a.to_root()),
            11 => a.mul_root(b.to_root()),
            12 => a.double_or(b),
            13 => {
                let mut x = a;
                x.decompose_lsb_bits(mask, bits)
            }
            14 => {
                eat(&a.decompose(basis.unwrap()));
                a
            }
            15 => {
                a.decompose_at(basis.unwrap(), &mut v);
                eat(&v);
                a
            }
            16 => {
                let (mut x, mut y) = (a, b);
                x.decompose_lsb_bits_at(&mut y, mask, bits);
                y
            }
            17 => {
                look(F::is_primitive_root(a, F::deg(e & 63)) as u64);
                a
            }
            18 => {
                let d = if e & 1 == 0 { 1 << (e % 13) } else { e % 500 };
                F::try_minimal_primitive_root(F::deg(d)).unwrap()
            }
            19 => FieldUniformSampler::<F>::new().sample(&mut r),
            20 => Distribution::<F>::sample(&FieldBinarySampler, &mut r) + Distribution::<F>::sample(&FieldTernarySampler, &mut r),
            21 => s.sample(&mut r),
            23 => {
                let (mut x, mut y, mut z) = (a, b, c);
                x.add_mul_assign(b, c);
                y.mul_assign_fast(c);
                z.add_mul_assign_fast(a, b);
                x.mul_root_assign(y.to_root());
                x + y + z
            }
            24 => F::try_primitive_root(F::deg(e & 63)).unwrap(),
            25 => {
                look(F::is_prime_field() as u64);
                eat(&sample_binary_field_vec::<F, _>(n, &mut r));
                eat(&sample_ternary_field_vec::<F, _>(n, &mut r));
                a
            }
            26 => {
                eat(&sample_cbd_field_vec::<F, _>(n, &mut r));
                a
            }
            27 => {
                look(s.mean().to_bits() ^ s.std_dev().to_bits() ^ s.max_std_dev().to_bits() ^ s.cbd_enable() as u64);
                look(format!("{a}{b:?}").len() as u64);
                let (mut x, mut y) = (a, b);
                x *= y;
                x /= c;
                y -= x;
                x.powx(y.u())
            }
            22 => {
                let t = serde_json::to_string(&a).unwrap();
                serde_json::from_str::<F>(&t).unwrap() + serde_json::from_str::<F>(&e.to_string()).unwrap()
            }
            _ => F::random(&mut r),
        });
        if let Some(x) = out {
            look(x.u());
        }
    }
    Ok(())
}
trait Extra: Sized {
    fn double_or(self, b: Self) -> Self;
}
impl<F: Nx> Extra for F {
    fn double_or(self, b: Self) -> Self {
        let mut x = self;
        x += b;
        x -= self;
        x *= b;
        x
    }
}

trait Dot: Sized {
    fn dot(self, a: &[Self], b: &[Self], m: Self) -> Self;
}
macro_rules! impl_dot {
    ($($t:ty),*) => {
        $(impl Dot for $t {
            fn dot(self, a: &[Self], b: &[Self], m: Self) -> Self {
                <$t as DotProductReduce<BarrettModulus<$t>>>::dot_product_reduce(a, b, BarrettModulus::<$t>::new(m))
            }
        })*
    };
}
impl_dot!(u8, u16, u32, u64);

macro_rules! word_ops {
    ($f:ident, $t:ident) => {
        fn $f(g: &mut G) {
            let top = $t::MAX as u64;
            let (a, b) = (g.edge(0, top) as $t, g.edge(0, top) as $t);
            let (m, e) = (g.edge(0, top) as $t, g.edge(0, top) as $t);
            let op = g.draw(44);
            let list = g.us(0, 40);
            let list2 = length(g, list);
            let (u, v): (Vec<$t>, Vec<$t>) = (g.vec(list, 0).into_iter().map(|x| x as $t).collect(), g.vec(list2, 0).into_iter().map(|x| x as $t).collect());
            let bit = e & 1 == 1;
            let out = call(g, || -> $t {
                let mut x = a;
                match op {
                    16 => a.dot(&u, &v, m),
                    17 => a.exp_power_of_2_reduce((e & 127) as u32, BarrettModulus::<$t>::new(m)),
                    18 => BarrettModulus::<$t>::new(m).bit_count() as $t,
                    19 => {
                        x.lazy_reduce_assign(BarrettModulus::<$t>::new(m));
                        x.lazy_mul_reduce_assign(b, BarrettModulus::<$t>::new(m));
                        x.lazy_mul_reduce(e, BarrettModulus::<$t>::new(m))
                    }
                    20 => [a, b].lazy_reduce(BarrettModulus::<$t>::new(m)) ^ (a, b).lazy_reduce(BarrettModulus::<$t>::new(m)) ^ (a, b).reduce(BarrettModulus::<$t>::new(m)),
                    21 => u.as_slice().lazy_reduce(BarrettModulus::<$t>::new(m)) ^ v.as_slice().reduce(BarrettModulus::<$t>::new(m)),
                    22 => {
                        x.reduce_assign(BarrettModulus::<$t>::new(m));
                        x.add_reduce_assign(b, BarrettModulus::<$t>::new(m));
                        x.sub_reduce_assign(b, BarrettModulus::<$t>::new(m));
                        x.mul_reduce_assign(b, BarrettModulus::<$t>::new(m));
                        x.neg_reduce_assign(BarrettModulus::<$t>::new(m));
                        x
                    }
                    23 => {
                        x.inv_reduce_assign(BarrettModulus::<$t>::new(m));
                        x.div_reduce_assign(b, BarrettModulus::<$t>::new(m));
                        x
                    }
                    24 => a.try_inv_reduce(m).unwrap(),
                    25 => a.add_reduce(b, m) ^ a.sub_reduce(b, m) ^ a.neg_reduce(m),
                    26 => a.inv_reduce(m) ^ a.try_inv_reduce(m).unwrap_or(0),
                    27 => {
                        x.add_reduce_assign(b, ());
                        x.sub_reduce_assign(e, ());
                        x.mul_reduce_assign(e, ());
                        x.neg_reduce_assign(());
                        x.reduce_assign(());
                        x.div_reduce_assign(b, ());
                        x.exp_reduce((e & 127) as u32, ()).div_reduce(b, ())
                    }
                    28 => a.add_reduce(b, ()).sub_reduce(e, ()).neg_reduce(()).mul_reduce(m, ()).reduce(()),
                    29 => {
                        let p = PowOf2Modulus::<$t>::new(m);
                        x.reduce_assign(p);
                        x.add_reduce_assign(b, p);
                        x.mul_reduce_assign(b, p);
                        x.neg_reduce_assign(p);
                        x.exp_power_of_2_reduce((e & 127) as u32, p) ^ p.value()
                    }
                    30 => {
                        let (s, c) = a.carrying_add(b, bit);
                        let (d, r) = s.borrowing_sub(e, c);
                        let (l, h) = d.carrying_mul(m, e);
                        let (k, w) = l.widening_mul(h);
                        k ^ w ^ r as $t ^ a.carrying_mul_hw(b, e) ^ a.widening_mul_hw(b)
                    }
                    31 => WrappingAdd::wrapping_add(a, b) ^ WrappingSub::wrapping_sub(a, b) ^ WrappingMul::wrapping_mul(a, b) ^ WrappingNeg::wrapping_neg(a) ^ WrappingShl::wrapping_shl(a, b as u32) ^ WrappingShr::wrapping_shr(a, b as u32),
                    32 => ExtendedGCD::gcd(a, b) ^ ExtendedGCD::coprime(a, m) as $t ^ ExtendedGCD::not_coprime(b, m) as $t,
                    33 => {
                        let (s, t, d) = ExtendedGCD::extended_gcd(a, b);
                        s as $t ^ t as $t ^ d
                    }
                    34 => BarrettModulus::<$t>::new(m).probably_prime((e & 31) as usize) as $t,
                    35 => a.reverse_lsbs(e as u32 & 255),
                    36 => as_cast::<f64, $t>(f64::from_bits(m as u64)) ^ as_cast::<u8, $t>(e as u8) ^ as_cast::<$t, f32>(a) as $t ^ as_cast::<f32, $t>(f32::from_bits(b as u32)),
                    37 => {
                        let s = ShoupFactor::<$t>::new(a, m);
                        let mut y = b;
                        y.mul_reduce_assign(s, m);
                        y ^ b.mul_reduce(s, m) ^ s.value() ^ s.quotient()
                    }
                    0 => a.reduce(BarrettModulus::<$t>::new(m)),
                    1 => a.mul_reduce(b, BarrettModulus::<$t>::new(m)),
                    2 => a.exp_reduce(e, BarrettModulus::<$t>::new(m)),
                    3 => a.inv_reduce(BarrettModulus::<$t>::new(m)),
                    4 => a.add_reduce(b, BarrettModulus::<$t>::new(m)),
                    5 => a.sub_reduce(b, PowOf2Modulus::<$t>::new(m)),
                    6 => a.mul_reduce(b, PowOf2Modulus::<$t>::new(m)),
                    7 => a.exp_reduce(e, PowOf2Modulus::<$t>::new(m)),
                    8 => a.neg_reduce(BarrettModulus::<$t>::new(m)),
                    9 => {
                        let mut s = ShoupFactor::<$t>::new(a, m);
                        s.set(b, e);
                        s.set_modulus(m);
                        s.mul_reduce_lazy(e, m)
                    }
                    10 => a.mul_reduce(ShoupFactor::<$t>::new(b, m), m),
                    11 => [a, b].reduce(BarrettModulus::<$t>::new(m)),
                    12 => [a, b, e].as_slice().reduce(BarrettModulus::<$t>::new(m)),
                    13 => [].as_slice().reduce(BarrettModulus::<$t>::new(m)) + a,
                    14 => a.lazy_reduce(BarrettModulus::<$t>::new(m)),
                    _ => a.div_reduce(b, BarrettModulus::<$t>::new(m)),
                }
            });
            if let Some(x) = out {
                look(x as u64);
            }
        }
    };
}
word_ops!(words8, u8);
word_ops!(words16, u16);
word_ops!(words32, u32);
word_ops!(words64, u64);

fn special(g: &mut G) {
    let (a, b, e) = (g.edge(0, u64::MAX), g.edge(0, u64::MAX), g.edge(0, u64::MAX));
    let op = g.draw(20);
    let list = g.us(0, 20);
    let list2 = length(g, list);
    let (u, v) = (g.vec(list, 0), g.vec(list2, 0));
    let out = call(g, || -> u64 {
        let (x, y) = (a as u32, b as u32);
        let (mut z, mut t) = (a, x);
        match op {
            9 => a.reduce(GoldilocksModulus) ^ to_canonical_u64(b),
            10 => {
                z.reduce_assign(GoldilocksModulus);
                z.add_reduce_assign(b, GoldilocksModulus);
                z.sub_reduce_assign(e, GoldilocksModulus);
                z.neg_reduce_assign(GoldilocksModulus);
                z.neg_reduce(GoldilocksModulus)
            }
            11 if !MIRI => {
                z.mul_reduce_assign(b, GoldilocksModulus);
                z.inv_reduce_assign(GoldilocksModulus);
                z.div_reduce_assign(e, GoldilocksModulus);
                z.div_reduce(b, GoldilocksModulus)
            }
            12 if !MIRI => a.exp_power_of_2_reduce((e & 127) as u32, GoldilocksModulus) ^ a.try_inv_reduce(GoldilocksModulus).unwrap_or(0),
            13 if !MIRI => <u64 as DotProductReduce<GoldilocksModulus>>::dot_product_reduce(&u, &v, GoldilocksModulus),
            14 => {
                let u: Vec<u32> = u.iter().map(|&x| x as u32).collect();
                let v: Vec<u32> = v.iter().map(|&x| x as u32).collect();
                <u32 as DotProductReduce<BabyBearModulus>>::dot_product_reduce(&u, &v, BabyBearModulus) as u64
            }
            15 => {
                t.add_reduce_assign(y, BabyBearModulus);
                t.sub_reduce_assign(e as u32, BabyBearModulus);
                t.mul_reduce_assign(y, BabyBearModulus);
                t.neg_reduce_assign(BabyBearModulus);
                t.neg_reduce(BabyBearModulus) as u64
            }
            16 => {
                t.inv_reduce_assign(BabyBearModulus);
                t.div_reduce_assign(y, BabyBearModulus);
                t.div_reduce(y, BabyBearModulus) as u64
            }
            17 => (x.exp_power_of_2_reduce((e & 127) as u32, BabyBearModulus) ^ x.try_inv_reduce(BabyBearModulus).unwrap_or(0)) as u64,
            18 => (to_monty(x) ^ from_monty(y)) as u64,
            0 => a.add_reduce(b, GoldilocksModulus),
            1 => a.sub_reduce(b, GoldilocksModulus),
            2 if !MIRI => a.mul_reduce(b, GoldilocksModulus),
            3 if !MIRI => a.exp_reduce(e, GoldilocksModulus),
            4 if !MIRI => a.inv_reduce(GoldilocksModulus),
            5 => x.add_reduce(y, BabyBearModulus) as u64,
            6 => x.sub_reduce(y, BabyBearModulus) as u64,
            7 => x.mul_reduce(y, BabyBearModulus) as u64,
            8 => x.exp_reduce(e as u32, BabyBearModulus) as u64,
            _ => x.inv_reduce(BabyBearModulus) as u64,
        }
    });
    if let Some(x) = out {
        look(x);
    }
}

fn numbers(g: &mut G) -> R {
    match g.draw(11) {
        0 => numbers_in::<N17>(g),
        1 => numbers_in::<N257>(g),
        2 => numbers_in::<N12289w>(g),
        3 => numbers_in::<DefaultFieldU32>(g),
        4 => numbers_in::<N50>(g),
        5 => numbers_in::<N62>(g),
        k => {
            for _ in 0..8 {
                match k {
                    6 => words8(g),
                    7 => words16(g),
                    8 => words32(g),
                    9 => words64(g),
                    _ => special(g),
                }
            }
            g.hit();
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- bytes

fn bytes(g: &mut G) -> R {
    let seed = Block::from([g.draw(0), g.draw(0)]);
    let n = if MIRI { g.us(0, 40) } else { g.len(300) };
    g.note(|| format!("length {n}"));
    g.hit_if(n % 16 != 0);
    let off = g.us(0, 17).min(n);
    let mut buf = vec![0u8; n];
    let mut bools = vec![false; n];
    let mut blocks = vec![Block::from(g.draw(0) as u128); n / 4];
    let from = g.us(0, blocks.len());
    let mut p = Prg::from_seed(seed);
    for _ in 0..g.us(1, 5) {
        let op = g.draw(14);
        call(g, || match op {
            0 => p.fill_bytes(&mut buf[off..]),
            1 => p.random_bytes(&mut buf[..n - off]),
            2 => p.random_bools(&mut bools[off..]),
            3 => p.random_blocks(&mut blocks[from..]),
            4 => Aes::new(seed).encrypt_block_slice(&mut blocks[from..]),
            5 => {
                let b = Block::try_from_slice(&buf[off..]);
                look(b.is_some() as u64);
                if let Some(b) = b {
                    look(u128::from(b) as u64);
                }
            }
            6 => {
                let b = Block::try_from_slice(&buf[off..(off + 16).min(n)]).unwrap();
                look(u128::from(Aes::new(b).encrypt_block(seed)) as u64)
            }
            7 => {
                look(p.next_u32() as u64);
                look(p.next_u64());
                look(p.random_bool() as u64);
                look(p.random_byte() as u64);
                look(u128::from(p.random_block()) as u64);
            }
            8 => {
                let mut q = p.clone();
                q.fill_bytes(&mut buf);
                p = q;
            }
            9 => p = Prg::from_rng(&mut p.clone()).unwrap(),
            10 => {
                let mut q = if off % 2 == 0 { Prg::new() } else { Prg::default() };
                q.fill_bytes(&mut buf[off..]);
            }
            11 => {
                let mut b = seed ^ Block::ZERO | Block::default() & seed;
                b ^= seed;
                b |= seed;
                b &= seed;
                b.as_mut()[off % 16] ^= 1;
                eats(&<[u64; 2]>::from(b));
                look(b.as_ref()[15] as u64);
                look(format!("{b}{b:?}").len() as u64);
                look(<[u8; 16]>::from(b)[3] as u64);
                look((b == seed) as u64);
            }
            12 => {
                eats(&Aes::new(seed).encrypt_many_blocks::<0>([]).map(|b| u128::from(b) as u64));
                eats(&Aes::new(seed).encrypt_many_blocks([seed; 5]).map(|b| u128::from(b) as u64));
            }
            _ => {
                let v: Vec<u8> = p.sample_iter_vec(n);
                v.iter().for_each(|&x| look(x as u64));
            }
        });
    }
    buf.iter().for_each(|&x| look(x as u64));
    bools.iter().for_each(|&x| look(x as u64));
    blocks.iter().for_each(|&x| look(u128::from(x) as u64));
    Ok(())
}
trait Many {
    fn sample_iter_vec(&mut self, n: usize) -> Vec<u8>;
}
impl Many for Prg {
    fn sample_iter_vec(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.gen()).collect()
    }
}

// ---------------------------------------------------------------- tables

fn tables_in<F: Nx + NTTField<Table = NTTTable<F>, Root = ShoupFactor<<F as Field>::Value>>>(g: &mut G) -> R
where
    F::Root: Copy,
{
    let top = F::adicity() - 1;
    let k = if !MIRI && g.one_in(40) {
        g.label("large");
        g.us(7, 14).min(top as usize + 1) as u32
    } else {
        g.us(0, (top + 2).min(if MIRI { 4 } else { 9 }) as usize) as u32
    };
    let n = 1usize << k;
    g.note(|| format!("{} 2^{k}", F::NAME));
    let own = g.draw(3) == 0;
    let t = if own {
        // roots handed in by the caller
        let len = match g.draw(5) {
            0 => g.us(0, 4 * n),
            1 => n + g.us(0, 2),
            2 => 2 * n - 1,
            3 => (n + 1).max(g.us(0, 2 * n)),
            _ => 2 * n,
        };
        let kk = match g.draw(12) {
            0 => g.draw(200) as u32,
            1 => 64 + k,
            _ => k,
        };
        g.label("own roots");
        g.label_if(len < 2 * n && len > n, "more than half of the roots");
        g.hit_if(len != 2 * n);
        let root: F = elem(g);
        let v: Vec<F> = elems(g, len);
        if kk % 64 > 20 {
            return Ok(());
        }
        call(g, || NTTTable::<F>::new(root, kk, v.iter().map(|x| x.to_root()).collect())).map(Arc::new)
    } else {
        let list = [k, g.draw(70) as u32 + 30];
        call(g, || {
            look(F::init_ntt_table(&list).is_ok() as u64);
            F::get_ntt_table(k).unwrap()
        })
    };
    let Some(t) = t else { return Ok(()) };
    let n = t.coeff_count();
    for _ in 0..g.us(1, 6) {
        let len = length(g, n);
        let mut v: Vec<F> = elems(g, len);
        let d = index(g, n);
        let c: F = if g.bool() { F::mk(g.draw(2)) } else { elem(g) };
        let op = g.draw(11);
        g.hit_if(d > 2 * n);
        g.label_if(d > 2 * n, "degree beyond 2n");
        let r = call(g, || match op {
            0 => t.transform_slice(&mut v),
            1 => t.inverse_transform_slice(&mut v),
            2 => eat(t.transform(&Polynomial::new(v.clone())).as_slice()),
            3 => eat(t.inverse_transform(&NTTPolynomial::new(v.clone())).as_slice()),
            4 => v = t.transform_inplace(Polynomial::new(v.clone())).data(),
            5 => v = t.inverse_transform_inplace(NTTPolynomial::new(v.clone())).data(),
            6 => t.transform_monomial(c, d, &mut v),
            7 => t.transform_coeff_one_monomial(d, &mut v),
            8 => t.transform_coeff_neg_one_monomial(d, &mut v),
            9 => {
                t.root_powers().iter().chain(t.inv_root_powers()).chain(t.ordinal_root_powers()).for_each(|&x| look(F::from_root(x).u()));
                look(F::from_root(t.inv_degree()).u() ^ t.inv_root().u() ^ NTTTable::root(&t).u() ^ t.coeff_count_power() as u64);
            }
            _ => {
                t.transform_monomial(F::neg_onef(), d, &mut v);
                t.transform_monomial(F::one(), d, &mut v);
            }
        });
        let _ = r;
        eat(&v);
    }
    Ok(())
}
fn tables(g: &mut G) -> R {
    match g.draw(6) {
        0 => tables_in::<N17>(g),
        1 => tables_in::<N257>(g),
        2 => tables_in::<N7681>(g),
        3 => tables_in::<N12289w>(g),
        4 => tables_in::<DefaultFieldU32>(g),
        _ => tables_in::<N62>(g),
    }
}

// ---------------------------------------------------------------- polynomials

/// every form of every operator
fn forms<F: Nx>(k: u64, x: Polynomial<F>, y: Polynomial<F>, u: NTTPolynomial<F>, v: NTTPolynomial<F>) {
    let p: Option<Polynomial<F>> = match k {
        0 => Some(x + y),
        1 => Some(x + &y),
        2 => Some(&x + y),
        3 => Some(&x + &y),
        4 => Some(x - y),
        5 => Some(x - &y),
        6 => Some(&x - y),
        7 => Some(&x - &y),
        8 => Some(x * y),
        9 => Some(x * &y),
        10 => Some(&x * y),
        11 => Some(&x * &y),
        12 => Some(x * v),
        13 => Some(x * &v),
        14 => Some(&x * v),
        15 => Some(&x * &v),
        16 => Some(-x),
        17 => Some(-&x),
        _ => {
            let mut x = x;
            match k {
                18 => x += y,
                19 => x += &y,
                20 => x -= y,
                21 => x -= &y,
                22 => x *= y,
                23 => x *= &y,
                24 => x *= v,
                25 => x *= &v,
                _ => {
                    let mut u = u;
                    let n: NTTPolynomial<F> = match k {
                        26 => u + v,
                        27 => u + &v,
                        28 => &u + v,
                        29 => &u + &v,
                        30 => u - v,
                        31 => u - &v,
                        32 => &u - v,
                        33 => &u - &v,
                        34 => u * v,
                        35 => u * &v,
                        36 => &u * v,
                        37 => &u * &v,
                        38 => u * y,
                        39 => u * &y,
                        40 => &u * y,
                        41 => &u * &y,
                        42 => -u,
                        43 => -&u,
                        _ => {
                            match k {
                                44 => u += v,
                                45 => u += &v,
                                46 => u -= v,
                                47 => u -= &v,
                                48 => u *= v,
                                49 => u *= &v,
                                50 => u *= y,
                                51 => u *= &y,
                                52 => u = NTTPolynomial::from_slice(&v.as_slice()[1..]),
                                53 => x = Polynomial::from_slice(&y.as_slice()[1..]),
                                54 => x = Polynomial::from(v),
                                55 => u = NTTPolynomial::from(y),
                                56 => x.copied_iter().zip(u.copied_iter()).zip(&mut x.clone()).zip(&v).for_each(|(((a, b), c), d)| look((a + b + *c * *d).u())),
                                _ => {
                                    let i = v.coeff_count();
                                    let c = v.copied_iter().next().unwrap();
                                    u[i] = c;
                                    x[i / 2..i].fill(c);
                                    u[..i].reverse();
                                }
                            }
                            u
                        }
                    };
                    eat(n.as_slice());
                }
            }
            Some(x)
        }
    };
    if let Some(p) = p {
        eat(p.as_slice());
    }
}

fn polynomials_in<F: Nx>(g: &mut G) -> R {
    let n = size(g);
    g.note(|| format!("{} {n}", F::NAME));
    for _ in 0..g.us(1, 5) {
        let (x, y, z): (Polynomial<F>, Polynomial<F>, Polynomial<F>) = (poly(g, n), poly(g, n), poly(g, n));
        let (u, v, w): (NTTPolynomial<F>, NTTPolynomial<F>, NTTPolynomial<F>) = (npoly(g, n), npoly(g, n), npoly(g, n));
        let c: F = elem(g);
        let i = index(g, n);
        let len = g.us(0, 200);
        let s = noise(g);
        let mut r = finite(g);
        let parts = g.us(0, 12);
        let op = g.draw(68);
        if op >= 44 {
            let k = g.draw(58);
            call(g, || forms(k, x, y, u, v));
            continue;
        }
        let bs = if matches!(op, 20..=22) { try_basis::<F>(g) } else { None };
        call(g, || {
            let mut x = x;
            let mut u = u;
            let mut z = z;
            let mut w = w;
            match op {
                0 => x = x + &y,
                1 => x = &x - y,
                2 => x = x * &y,
                3 => x *= &y,
                4 => x = &x * &v,
                5 => x *= v,
                6 => x += &y,
                7 => x -= y,
                8 => x = -x,
                9 => x.neg_assign(),
                10 => x = x.inv(),
                11 => x.add_inplace(&y, &mut z),
                12 => x.sub_inplace(&y, &mut z),
                13 => x.mul_scalar_assign(c),
                14 => x = x.mul_scalar(c),
                15 => look(x.evaluate(c).u()),
                16 => x.copy_from(&y),
                17 => x.resize(len, c),
                18 => x.resize_with(len, || c),
                19 => look(x[i].u() + x[i..][0].u()),
                20 => x.clone().decompose(bs.unwrap()).iter().for_each(|p| eat(p.as_slice())),
                21 => {
                    let mut d: Vec<Polynomial<F>> = (0..parts).map(|k| Polynomial::zero(if k == 1 { len } else { y.coeff_count() })).collect();
                    let r = no_panic(|| x.decompose_inplace(bs.unwrap(), &mut d));
                    look(r.is_some() as u64);
                    d.iter().for_each(|p| eat(p.as_slice()))
                }
                22 => x.decompose_lsb_bits_inplace(bs.unwrap(), z.as_mut_slice()),
                23 => x = Polynomial::random(len, &mut r),
                24 => x = Polynomial::random_with_binary(len, &mut r),
                25 => x = Polynomial::random_with_ternary(len, &mut r),
                26 => x = Polynomial::random_with_gaussian(len, &mut r, s),
                27 => x = Polynomial::random_with_distribution(len, &mut r, s),
                28 => u = x.clone().into_ntt_polynomial(),
                29 => x = u.clone().into_native_polynomial(),
                30 => u = u + &v,
                31 => u = &u - &v,
                32 => u = &u * &v,
                33 => u *= &v,
                34 => u *= &y,
                35 => u = u.inv(),
                36 => u.mul_inplace(&v, &mut w),
                37 => u.add_inplace(&v, &mut w),
                38 => algebra::ntt_add_mul_assign(&mut u, &v, &w),
                39 => algebra::ntt_add_mul_inplace(&u, &v, &w.clone(), &mut w),
                40 => algebra::ntt_add_mul_assign_fast(&mut u, &v, &w),
                41 => u.copy_from(&v),
                42 => {
                    u.resize(len, c);
                    u = NTTPolynomial::random(u.coeff_count(), &mut r);
                    u.set_zero();
                    x.set_zero();
                }
                _ => {
                    look((u.is_zero() | x.is_zero() | (x == y)) as u64);
                    x.iter_mut().zip(u.iter_mut()).for_each(|(a, b)| std::mem::swap(a, b));
                    x.data_mut().truncate(i);
                }
            }
            eat(x.as_slice());
            eat(z.as_slice());
            eat(u.as_slice());
            eat(w.as_slice());
        });
    }
    Ok(())
}
fn polynomials(g: &mut G) -> R {
    match g.draw(5) {
        0 => polynomials_in::<N257>(g),
        1 => polynomials_in::<N12289w>(g),
        2 => polynomials_in::<DefaultFieldU32>(g),
        3 => polynomials_in::<N60>(g),
        _ => polynomials_in::<N17>(g),
    }
}

// ---------------------------------------------------------------- ciphertexts

fn lwes(g: &mut G) -> R {
    let n = g.us(0, 60);
    g.note(|| format!("dimension {n}"));
    let q = match g.draw(3) {
        0 => g.edge(0, u32::MAX as u64) as u32,
        _ => 1 << g.draw(32),
    };
    for _ in 0..g.us(1, 5) {
        let mut make = |g: &mut G| {
            let l = length(g, n);
            let a: Vec<u32> = g.vec(l, 1 << 32).into_iter().map(|x| x as u32).collect();
            LWE::new(a, g.draw(1 << 32) as u32)
        };
        let (x, y) = (make(g), make(g));
        let s = g.draw(1 << 32) as u32;
        let op = g.draw(20);
        let dev = (deviation(g), deviation(g), deviation(g));
        let mut r = finite(g);
        let len = g.us(0, 100);
        let c = call(g, || {
            let mut x = x;
            match op {
                0 => x = x.add_component_wise_ref(&y),
                1 => x.sub_inplace_component_wise(&y),
                2 => x = x.sub_component_wise(&y),
                3 => x = x.add_reduce_component_wise(&y, PowOf2Modulus::<u32>::new(q)),
                4 => x = x.sub_reduce_component_wise_ref(&y, BarrettModulus::<u32>::new(q)),
                5 => x.add_reduce_inplace_component_wise(&y, BarrettModulus::<u32>::new(q)),
                6 => x.scalar_mul_reduce_inplace(s, PowOf2Modulus::<u32>::new(q)),
                7 => x.add_assign_rhs_mul_scalar_reduce(&y, s, PowOf2Modulus::<u32>::new(q)),
                8 => x = x.neg_reduce(PowOf2Modulus::<u32>::new(q)),
                14 => x = x.add_component_wise(&y),
                15 => x.add_inplace_component_wise(&y),
                16 => x = x.sub_component_wise_ref(&y),
                17 => x = x.add_reduce_component_wise_ref(&y, PowOf2Modulus::<u32>::new(q)),
                18 => x = x.sub_reduce_component_wise(&y, PowOf2Modulus::<u32>::new(q)),
                19 => x.sub_reduce_inplace_component_wise(&y, PowOf2Modulus::<u32>::new(q)),
                9 => x.neg_reduce_assign(BarrettModulus::<u32>::new(q)),
                10 => {
                    let d = DiscreteGaussian::new_with_max_limit(q, dev.0, dev.1, dev.2).unwrap();
                    x = LWE::generate_random_zero_sample(y.a(), q, PowOf2Modulus::<u32>::new(q), d, &mut r)
                }
                11 => {
                    let d = DiscreteGaussian::new(q, dev.0, dev.1).unwrap();
                    *x.b_mut() = d.sample(&mut r);
                }
                12 => {
                    let v: Vec<u32> = sample_ternary_values(q, len, &mut r);
                    let w: Vec<u32> = sample_binary_values(len, &mut r);
                    x = LWE::from_ref(&v, w.iter().sum());
                }
                _ => {
                    let b = lattice::Basis::<u32>::new(s & 63, q);
                    let mut d = vec![0u32; len];
                    let mut a = y.a().to_vec();
                    decompose_lsb_bits_inplace(&mut a, b, &mut d);
                    a.extend(d);
                    x = LWE::new(a, b.decompose_len() as u32)
                }
            }
            x
        });
        if let Some(c) = c {
            c.a().iter().for_each(|&x| look(x as u64));
            look(c.b() as u64);
        }
    }
    Ok(())
}

fn gadget<F: Nx>(g: &mut G, n: usize, b: Basis<F>) -> NTTGadgetRLWE<F> {
    let l = length(g, b.decompose_len()).min(70);
    NTTGadgetRLWE::new((0..l).map(|_| nrlwe(g, n)).collect(), b)
}
fn plain_gadget<F: Nx>(g: &mut G, n: usize, b: Basis<F>) -> GadgetRLWE<F> {
    let l = length(g, b.decompose_len()).min(70);
    GadgetRLWE::new((0..l).map(|_| rlwe(g, n)).collect(), b)
}

fn rings_in<F: Nx>(g: &mut G) -> R {
    let n = if !MIRI && g.one_in(200) {
        g.label("large");
        1 << g.us(6, 11)
    } else {
        (1 << g.us(0, 5)).min(if MIRI { 4 } else { 32 })
    };
    g.note(|| format!("{} {n}", F::NAME));
    let mb = 64 - F::P.leading_zeros();
    let small = |g: &mut G| Basis::<F>::new(g.us((mb as usize).div_ceil(if MIRI { 3 } else { 8 }), mb as usize) as u32);
    for _ in 0..g.us(1, 3) {
        let (x, y, z): (RLWE<F>, RLWE<F>, RLWE<F>) = (rlwe(g, n), rlwe(g, n), rlwe(g, n));
        let (u, v, w): (NTTRLWE<F>, NTTRLWE<F>, NTTRLWE<F>) = (nrlwe(g, n), nrlwe(g, n), nrlwe(g, n));
        let p: Polynomial<F> = poly(g, n);
        let q: NTTPolynomial<F> = npoly(g, n);
        let (b1, b2) = (small(g), small(g));
        let b2 = if g.bool() { b1 } else { b2 };
        let (i, j) = (index(g, n), index(g, n));
        let (dim, l1, l2, l3) = (length(g, n), length(g, n), length(g, n), length(g, n));
        let s = noise(g);
        let op = g.draw(66);
        // the costly arguments only where they are used
        let ga = (op >= 20).then(|| (gadget(g, n, b1), gadget(g, n, b2)));
        let gp = (op >= 36).then(|| (plain_gadget(g, n, b1), plain_gadget(g, n, b2)));
        let mut r = finite(g);
        let c: F = elem(g);
        call(g, || {
            let (mut x, mut u, mut z, mut w, mut p) = (x, u, z, w, p);
            let mut ds = DecompositionSpace::<F>::new(l1);
            let mut ps = PolynomialSpace::<F>::new(l2);
            let mut ns = NTTRLWESpace::<F>::new(l3);
            match op {
                0 => x = x.add_element_wise(&y),
                1 => x = x.sub_element_wise_ref(&y),
                2 => x.add_assign_element_wise(&y),
                3 => x.sub_inplace(&y, &mut z),
                4 => x.add_inplace(&y, &mut z),
                5 => x.mul_ntt_polynomial_inplace(&q, &mut w),
                6 => eat(x.extract_lwe().a()),
                7 => eat(x.clone().extract_lwe_locally().a()),
                8 => eat(x.clone().extract_lwe_reverse_locally().a()),
                9 => eat(x.clone().extract_partial_lwe_locally(i).a()),
                10 => eat(x.clone().extract_partial_lwe_reverse_locally(i).a()),
                11 => x.mul_monic_monomial_sub_one_inplace(dim, i, &mut z),
                12 => x.add_assign_rhs_mul_monic_monomial(&y, dim, i),
                13 => u = NTTRLWE::from(x.clone()),
                14 => u.inverse_transform_inplace(&mut z),
                15 => u = u.add_element_wise(&v),
                16 => u.sub_inplace(&v, &mut w),
                17 => u.mul_ntt_polynomial_assign(&q),
                18 => u.add_ntt_rlwe_mul_ntt_polynomial_assign(&v, &q),
                19 => u.add_ntt_rlwe_mul_ntt_polynomial_inplace(&v, &q, &mut w),
                20 => u = u.clone().add_gadget_rlwe_mul_polynomial(&ga.unwrap().0, &p),
                21 => u.add_assign_gadget_rlwe_mul_polynomial(&ga.unwrap().0, &p, &mut ds, &mut ps),
                22 => u.add_assign_gadget_rlwe_mul_polynomial_fast(&ga.unwrap().0, &p, &mut ds, &mut ps),
                23 => u.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&ga.unwrap().0, &mut p, &mut ds),
                24 => u.sub_assign_gadget_rlwe_mul_polynomial_inplace(&ga.unwrap().0, p.clone(), &mut ds),
                25 => u.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&ga.unwrap().0, &mut p, &mut ds),
                26 => u = ga.unwrap().0.mul_polynomial(&p),
                27 => ga.unwrap().0.mul_polynomial_inplace(&p, &mut ds, &mut ps, &mut w),
                28 => ga.unwrap().0.mul_polynomial_inplace_fast(&p, &mut ds, &mut ps, &mut w),
                29 => {
                    let (a, b) = ga.unwrap();
                    let mut d = NTTGadgetRLWE::zero(l1, b2);
                    a.add_inplace(&b, &mut d);
                    d.iter().for_each(eat_ntt_rlwe)
                }
                30 => {
                    let (a, b) = ga.unwrap();
                    let mut d = NTTGadgetRLWE::zero(l1, b1);
                    a.add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(&b, &q, &mut d);
                    d.iter().for_each(eat_ntt_rlwe)
                }
                31 | 32 => {
                    let (a, b) = ga.unwrap();
                    let t = NTTRGSW::new(a, b);
                    if op == 31 {
                        x = x.mul_ntt_rgsw(&t)
                    } else {
                        x.mul_assign_ntt_rgsw(&t, &mut ds, &mut ps, &mut ns)
                    }
                }
                33 => {
                    let (a, b) = ga.unwrap();
                    x.mul_ntt_rgsw_inplace(&NTTRGSW::new(a, b), &mut ds, &mut ps, &mut ns, &mut z)
                }
                34 | 35 => {
                    let (a, b) = ga.unwrap();
                    let t = NTTRGSW::from_ref(&a, &b);
                    let mut d = NTTRGSW::zero(l1, b2);
                    if op == 34 {
                        t.add_inplace(&NTTRGSW::new(b, a), &mut d);
                        d.mul_ntt_polynomial_assign(&q);
                    } else {
                        t.add_ntt_rgsw_mul_ntt_polynomial_inplace(&NTTRGSW::new(b, a), &q, &mut d);
                    }
                    d.c_m().iter().chain(d.c_neg_s_m().iter()).for_each(eat_ntt_rlwe)
                }
                36 => x = gp.unwrap().0.mul_polynomial(&p),
                37 => x = gp.unwrap().0.mul_polynomial_add_rlwe(&p, x.clone()),
                38 => x = x.clone().add_gadget_rlwe_mul_polynomial(&gp.unwrap().0, &p),
                39 => {
                    let (a, b) = gp.unwrap();
                    x = x.mul_rgsw(&RGSW::new(a, b))
                }
                40 => {
                    let (a, b) = gp.unwrap();
                    let t = RGSW::new(a.clone(), b.clone()).mul_small_rgsw(&RGSW::new(b, a));
                    t.c_m().iter().chain(t.c_neg_s_m().iter()).for_each(eat_rlwe)
                }
                41 => {
                    let (a, b) = gp.unwrap();
                    let (e, f) = ga.unwrap();
                    let t = RGSW::new(a, b).mul_small_ntt_rgsw(&NTTRGSW::new(e, f));
                    t.c_m().iter().chain(t.c_neg_s_m().iter()).for_each(eat_rlwe)
                }
                42 => {
                    let (a, b) = gp.unwrap();
                    let mut d = b.clone();
                    a.sub_inplace(&b, &mut d);
                    let t = NTTGadgetRLWE::from(d);
                    t.iter().for_each(eat_ntt_rlwe)
                }
                43 => {
                    let (a, b) = gp.unwrap();
                    let t = NTTRGSW::from(RGSW::new(a, b));
                    t.c_m().iter().for_each(eat_ntt_rlwe)
                }
                44 => x = RLWE::generate_random_zero_sample(&q, s, &mut r),
                45 => u = NTTRLWE::generate_random_value_sample(&q, c, s, &mut r),
                46 => GadgetRLWE::generate_random_neg_secret_sample(&q, b1, s, &mut r).iter().for_each(eat_rlwe),
                47 => NTTGadgetRLWE::generate_random_one_sample(&q, b1, s, &mut r).iter().for_each(eat_ntt_rlwe),
                48 => RGSW::generate_random_one_sample(&q, b1, s, &mut r).c_m().iter().for_each(eat_rlwe),
                49 => NTTRGSW::generate_random_zero_sample(&q, b1, s, &mut r).c_m().iter().for_each(eat_ntt_rlwe),
                50 => {
                    let t = NTTRGSWSpace::<F>::new(l1, b1);
                    t.get().c_m().iter().for_each(eat_ntt_rlwe);
                    eat(ds.get().as_slice());
                    eat(ps.get_mut().as_slice());
                    eat_ntt_rlwe(ns.get());
                    eat_rlwe(RLWESpace::<F>::new(l2).get());
                    eat(NTTPolynomialSpace::<F>::new(l3).get().as_slice());
                }
                51 => eat_rlwe(&RLWE::<F>::default()),
                52 => x = RLWE::from(u.clone()),
                53 => u = NTTRLWE::from((p.clone(), p.clone())),
                54 => u.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&v, &q),
                55 => x = x.add_element_wise_ref(&y),
                56 => x = x.sub_element_wise(&y),
                57 => x.sub_assign_element_wise(&y),
                58 => u = u.add_element_wise_ref(&v),
                59 => u = u.sub_element_wise(&v),
                60 => {
                    u.add_element_wise_assign(&v);
                    u.sub_element_wise_assign(&w);
                }
                61 => {
                    x.a_mut_slice()[..i].reverse();
                    x.b_mut_slice()[i..].fill(c);
                    u.a_mut_slice()[i..].fill(c);
                    u.b_mut_slice()[..i].reverse();
                    let (a, b) = u.a_b_mut();
                    std::mem::swap(a, b);
                    let (a, b) = x.a_b_mut();
                    *a += &*b;
                }
                62 => {
                    ds.get_mut()[..i].fill(c);
                    ps.copy_from(&p);
                    ps.resize(l3, c);
                    eat(ds.as_slice());
                    eat(ps.as_slice());
                    let mut n = NTTPolynomialSpace::<F>::new(l1);
                    n.get_mut().copy_from(&q);
                    eat(n.as_slice());
                    let mut t = RLWESpace::<F>::new(l2);
                    x.add_inplace(&y, &mut t);
                    eat_rlwe(&t);
                    t.get_mut().sub_assign_element_wise(&y);
                    eat_rlwe(t.get());
                    u.add_inplace(&v, ns.get_mut());
                    eat_ntt_rlwe(&ns);
                    let mut t = NTTRGSWSpace::<F>::new(l3, b2);
                    t.c_m_mut().iter_mut().for_each(|x| x.add_element_wise_assign(&u));
                    t.get_mut().c_neg_s_m_mut().iter_mut().for_each(|x| x.add_element_wise_assign(&v));
                    t.c_m().iter().for_each(eat_ntt_rlwe);
                }
                63 => {
                    x = RLWE::from_ref(&y.a().clone(), &p);
                    u = NTTRLWE::from_ref(&q, v.b());
                    z = RLWE::from((q.clone(), w.a().clone()));
                    x.set_zero();
                    u.set_zero();
                }
                64 => {
                    let (a, b) = gp.unwrap();
                    let t = RGSW::from((GadgetRLWE::from((a.data().to_vec(), b2)), b));
                    let mut d = NTTRGSW::from(t);
                    let e = d.clone();
                    e.add_inplace(&NTTRGSW::from(RGSW::generate_random_zero_sample(&q, b1, s, &mut r)), &mut d);
                    d.c_neg_s_m().iter().for_each(eat_ntt_rlwe)
                }
                _ => {
                    let (a, b) = x.a_b_mut_slices();
                    a.iter_mut().zip(b).for_each(|(a, b)| std::mem::swap(a, b));
                    look((x.dimension() + u.dimension() + j) as u64);
                }
            }
            eat_rlwe(&x);
            eat_rlwe(&z);
            eat_ntt_rlwe(&u);
            eat_ntt_rlwe(&w);
            eat(p.as_slice());
        });
    }
    Ok(())
}
fn rings(g: &mut G) -> R {
    match g.draw(4) {
        0 => rings_in::<N257>(g),
        1 => rings_in::<DefaultFieldU32>(g),
        2 => rings_in::<N12289w>(g),
        _ => rings_in::<N62>(g),
    }
}

// ---------------------------------------------------------------- the scheme

/// the parameter sets that users have
fn shipped(g: &mut G) -> R {
    if MIRI {
        return Ok(());
    }
    let which = g.draw(2);
    g.note(|| format!("set {which}"));
    g.hit();
    let mut r = g.rng();
    let p = if which == 0 { *DEFAULT_TERNARY_128_BITS_PARAMETERS } else { *CUSTOM_TERNARY_128_BITS_PARAMETERS };
    let pack = KeyGen::generate_secret_key(p, &mut r);
    let ev = Evaluator::new(&pack, &mut r);
    let c: Vec<LWECiphertext<u16>> = (0..3).map(|i| pack.encrypt(i != 1, &mut r)).collect();
    let plan: Vec<u64> = (0..g.us(1, 3)).map(|_| g.draw(7)).collect();
    std::thread::scope(|sc| {
        for k in &plan {
            let (ev, c) = (&ev, &c);
            sc.spawn(move || match k {
                0 => eat_lwe(&ev.nand(&c[0], &c[1])),
                1 => eat_lwe(&ev.xor(&ev.not(&c[0]), &c[1])),
                2 => eat_lwe(&ev.majority(&c[0], &c[1], &c[2])),
                3 => eat_lwe(&ev.mux(&c[0], &c[1], &c[2])),
                4 => eat_lwe(&ev.or(&c[0], &c[0])),
                5 => eat_lwe(&ev.and(&c[2], &c[1])),
                _ => eat_lwe(&ev.xnor(&c[2], &c[1])),
            });
        }
    });
    look(pack.decrypt::<bool>(&c[0]) as u64);
    Ok(())
}

fn odd_spec<C: W, Q: Nx>(g: &mut G) -> (Spec, u64) {
    let mut s = spec::<C, Q>(g, if MIRI { 3 } else { 5 });
    s.n = s.n.min(if MIRI { 3 } else { 12 });
    s.bb = s.bb.max((64 - Q::P.leading_zeros()).div_ceil(6));
    s.kb = s.kb.max((64 - Q::P.leading_zeros()).div_ceil(10).min(s.q.ilog2()));
    if g.bool() {
        s.sd = 3.2;
        s.rsd = 3.2;
        s.ksd = 3.2;
    }
    let mut modulus = Q::P;
    for _ in 0..g.draw(3) {
        g.label("odd parameters");
        g.hit();
        match g.draw(11) {
            0 => s.n = g.us(0, 40),
            1 => s.t = g.edge(0, 1 << (C::B - 1)),
            2 => s.q = g.edge(0, 1 << (C::B - 1)),
            3 => s.sd = deviation(g),
            4 => s.rsd = deviation(g),
            5 => s.ksd = deviation(g),
            6 => s.big = g.us(0, 64),
            7 => s.bb = g.draw(66) as u32,
            8 => s.kb = g.us(1, 64) as u32,
            9 => modulus = g.edge(0, Q::word_max()),
            _ => s.steps = *g.pick(&[Steps::BrMs, Steps::BrMsKs, Steps::BrKsMs]),
        }
    }
    if matches!(s.steps, Steps::BrMsKs) {
        // this kind of key has 2^kb ciphertexts per entry
        s.kb = s.kb.min(5);
    }
    (s, modulus)
}

fn eat_lwe<C: W>(c: &LWECiphertext<C>) {
    c.a().iter().for_each(|x| look(x.u()));
    look(c.b().u());
}

fn scheme_in<C: W, Q: Nx>(g: &mut G) -> R {
    let (s, modulus) = odd_spec::<C, Q>(g);
    g.note(|| format!("{s:?} {modulus}"));
    let mut r = finite(g);
    r.left = 400_000;
    let Some(pack) = call(g, || {
        let p = Parameters::<C, Q>::new(s.constants::<C, Q>(modulus)).unwrap();
        KeyGen::generate_secret_key(p, &mut r)
    }) else {
        return Ok(());
    };
    g.label("keys");
    let key = call(g, || BlindRotationKey::generate(&pack, &mut r));
    let ev = if g.bool() { call(g, || Evaluator::new(&pack, &mut r)) } else { None };
    let mut c: Vec<LWECiphertext<C>> = vec![];
    for _ in 0..3 {
        let m = g.bool();
        let n = length(g, s.n);
        c.push(match call(g, || pack.encrypt(m, &mut r)) {
            Some(c) if n == s.n => c,
            _ => LWECiphertext::new(g.vec(n, 0).into_iter().map(C::mk).collect(), C::mk(g.draw(0))),
        });
        eat_lwe(&c[c.len() - 1]);
    }
    let bs = pack.parameters().blind_rotation_basis();
    for _ in 0..g.us(1, 5) {
        let lut: Polynomial<Q> = poly(g, s.big.min(64));
        let ring: RLWE<Q> = rlwe(g, s.big.min(64));
        let op = g.draw(15);
        let l = length(g, s.big.min(64));
        let b2 = match call(g, || Basis::<Q>::new((64 - Q::P.leading_zeros()).div_ceil(2))) {
            Some(b) if g.one_in(3) => b,
            _ => bs,
        };
        let msg = g.draw(0);
        let lw = LWE::new(elems::<Q>(g, l), elem(g));
        let (q1, q2) = (C::mk(g.edge(0, 1 << (C::B - 1))), C::mk(g.edge(0, 1 << (C::B - 1))));
        call(g, || match op {
            0 => {
                look(pack.decrypt::<bool>(&c[0]) as u64);
                look(pack.decrypt::<u8>(&c[1]) as u64);
            }
            1 => {
                let (m, e) = pack.decrypt_with_noise::<u8>(&c[0]);
                look(m as u64 + e.u());
            }
            2 => eat_rlwe(&key.as_ref().unwrap().blind_rotate(lut, &c[0], b2)),
            3 => {
                let k = KeySwitchingRLWEKey::<Q>::generate(&pack, &mut r);
                eat(k.key_switch_for_rlwe(ring).a());
                eat(k.key_switch_for_lwe(lw).a());
            }
            4 if s.kb < 6 => {
                let k = KeySwitchingLWEKey::<C>::generate(&pack, &mut r);
                eat_lwe(&k.key_switch_for_lwe(c[0].clone()));
            }
            5 => eat_lwe(&lwe_modulus_switch(lw, q1)),
            6 => {
                let mut d = c[1].clone();
                lwe_modulus_switch_inplace(lw, q1, &mut d);
                eat_lwe(&d);
            }
            7 => {
                let mut d = c[1].clone();
                lwe_modulus_switch_assign_between_modulus(&mut d, q1, q2);
                eat_lwe(&d);
            }
            8 => {
                let e: C = encode(msg as u8, s.t, s.q);
                look(decode::<u8, C>(e, s.t, s.q) as u64);
            }
            9 => {
                let k = Evaluator::new(&pack, &mut r).clone();
                eat_lwe(&k.bootstrap(c[0].clone(), lut));
            }
            10 => eat_lwe(&ev.as_ref().unwrap().bootstrap(c[2].clone(), lut)),
            11 => {
                let e = ev.as_ref().unwrap();
                eat_lwe(&e.nand(&e.not(&c[0]), &c[1]));
                eat_lwe(&e.xor(&c[0], &c[1]));
                eat_lwe(&e.nor(&c[2], &c[1]));
            }
            12 => eat_lwe(&ev.as_ref().unwrap().majority(&c[0], &c[1], &c[2])),
            13 => {
                let (e, d) = (Encryptor::new(pack.clone()), Decryptor::new(pack.clone()));
                look(d.decrypt::<bool>(&e.encrypt(true, &mut r)) as u64);
                let (m, n) = d.decrypt_with_noise::<u8>(&c[0]);
                look(m as u64 + n.u());
                let p = pack.parameters();
                look(p.lwe_cipher_modulus_value().u());
                eat(pack.ntt_ring_secret_key().as_slice());
            }
            _ => eat_lwe(&ev.as_ref().unwrap().mux(&c[0], &c[1], &c[2])),
        });
    }
    Ok(())
}
fn scheme(g: &mut G) -> R {
    match g.draw(4) {
        0 => scheme_in::<u16, DefaultFieldU32>(g),
        1 => scheme_in::<u32, N27>(g),
        2 => scheme_in::<u64, N12289x>(g),
        _ => scheme_in::<u8, N257>(g),
    }
}

// ---------------------------------------------------------------- threads

fn race_tables<F: Nx>(ks: &[Vec<u32>], start: &Arc<Barrier>) -> Vec<std::thread::JoinHandle<()>> {
    ks.iter()
        .cloned()
        .map(|list| {
            let start = start.clone();
            std::thread::spawn(move || {
                start.wait();
                look(F::init_ntt_table(&list[1..]).is_ok() as u64);
                if let Ok(t) = F::get_ntt_table(list[0]) {
                    let mut v = vec![F::mk(1); t_len::<F>(list[0])];
                    t.transform_slice(&mut v);
                    t.inverse_transform_slice(&mut v);
                    t.transform_monomial(F::mk(1), 3, &mut v);
                    eat(&v);
                }
            })
        })
        .collect()
}
fn t_len<F: Nx>(k: u32) -> usize {
    1 << k
}

fn threads(g: &mut G) -> R {
    let n = g.us(2, if MIRI { 3 } else { 6 });
    let which = g.draw(8);
    let top = if MIRI { 3 } else { 7 };
    let ks: Vec<Vec<u32>> = (0..n).map(|_| (0..g.us(1, 4)).map(|_| g.us(0, top) as u32).collect()).collect();
    g.note(|| format!("field {which}, requests {ks:?}"));
    g.hit();
    let start = Arc::new(Barrier::new(n));
    let t = match which {
        0 => race_tables::<N257>(&ks, &start),
        1 => race_tables::<N7681>(&ks, &start),
        2 => race_tables::<N12289w>(&ks, &start),
        3 => race_tables::<N27>(&ks, &start),
        4 => race_tables::<N60>(&ks, &start),
        5 => race_tables::<N62>(&ks, &start),
        6 => race_tables::<N30>(&ks, &start),
        _ => race_tables::<DefaultFieldU32>(&ks, &start),
    };
    t.into_iter().for_each(|t| look(t.join().is_ok() as u64));
    Ok(())
}

/// keys, evaluators, generators shared by or made on several threads
fn sharing(g: &mut G) -> R {
    let mut s = spec::<u16, DefaultFieldU32>(g, if MIRI { 2 } else { 5 });
    s.n = s.n.min(if MIRI { 2 } else { 8 });
    s.bb = s.bb.max(7);
    s.kb = s.kb.max(7.min(s.q.ilog2()));
    if matches!(s.steps, Steps::BrMsKs) {
        s.kb = s.kb.min(if MIRI { 3 } else { 7 });
    }
    g.note(|| format!("{s:?}"));
    let mut r = g.rng();
    let pack = s.pack::<u16, DefaultFieldU32, _>(&mut r)?;
    let Some(ev) = call(g, || Evaluator::new(&pack, &mut r)) else { return Ok(()) };
    let c: Vec<LWECiphertext<u16>> = (0..3).map(|i| pack.encrypt(i == 1, &mut r)).collect();
    g.hit();
    let n = g.us(2, if MIRI { 2 } else { 5 });
    let plan: Vec<Vec<u64>> = (0..n).map(|_| (0..g.us(1, if MIRI { 1 } else { 3 })).map(|_| g.draw(9)).collect()).collect();
    let seeds: Vec<u64> = (0..n).map(|_| g.draw(0)).collect();
    let start = Barrier::new(n);
    std::thread::scope(|sc| {
        let (pack, ev, c, start) = (&pack, &ev, &c, &start);
        for (plan, seed) in plan.iter().zip(&seeds) {
            sc.spawn(move || {
                let mut r = rand_chacha::ChaCha12Rng::seed_from_u64(*seed);
                start.wait();
                for op in plan {
                    let x = no_panic(|| match op {
                        0 => eat_lwe(&ev.nand(&c[0], &c[1])),
                        1 => eat_lwe(&ev.majority(&c[0], &c[1], &c[2])),
                        2 => eat_lwe(&ev.xnor(&c[2], &c[1])),
                        3 => eat_lwe(&ev.clone().or(&c[2], &c[1])),
                        4 => eat_lwe(&pack.encrypt(true, &mut r)),
                        5 => {
                            let ev = Evaluator::new(pack, &mut r);
                            eat_lwe(&ev.and(&c[0], &c[1]));
                        }
                        6 => look(pack.decrypt::<bool>(&c[0]) as u64),
                        7 if !MIRI => eat_lwe(&ev.mux(&c[0], &c[1], &c[2])),
                        _ => {
                            let mut p = Prg::new();
                            look(p.next_u64());
                            eat(Polynomial::<N17>::random(8, &mut p).as_slice());
                        }
                    });
                    look(x.is_some() as u64);
                }
            });
        }
    });
    Ok(())
}

fn main() {
    worker(Prop {
        id: "C31",
        subs: vec![
            sub("numbers", 6000, 60000, "arithmetic of words and field elements with values, moduli, exponents and digit widths of any size; non-trivial: a value that is not reduced, or a modulus of any kind", numbers),
            sub("bytes", 1500, 15000, "blocks, AES, the generator on slices of any length and alignment; non-trivial: a length that is no multiple of 16", bytes),
            sub("tables", 3000, 30000, "transforms of slices of any length, monomials of any degree, tables made from any roots; non-trivial: lengths that differ, degrees beyond 2n, tables of another length", tables),
            sub("polynomials", 3000, 30000, "100 operations and forms of operators on polynomials of lengths that need not agree; non-trivial: they do not, or a coefficient is not reduced", polynomials),
            sub("LWE", 2000, 20000, "20 operations on LWE ciphertexts of dimensions that need not agree; non-trivial: they do not", lwes),
            sub("rings", 2500, 25000, "66 operations on RLWE, gadget and RGSW ciphertexts and scratch spaces of sizes that need not agree; non-trivial: they do not", rings),
            sub("scheme", 500, 5000, "keys, switching, blind rotation, gates with parameters and ciphertexts that need not fit; non-trivial: they do not", scheme),
            sub("threads", 300, 3000, "first uses of transform tables from several threads at once", threads),
            sub("sharing", 60, 600, "keys and evaluators used from several threads at once", sharing),
            sub("shipped sets", 1, 10, "keys and up to 3 gates at once of the shipped parameter sets", shipped),
        ],
        assumptions: &[],
    })
}
