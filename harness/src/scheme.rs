//! Parameter sets, keys and noise bounds of the scheme built on the crates.

use crate::ct::*;
use crate::engine::*;
use crate::fieldset::*;
use crate::oracle::*;
use fhe_core::*;
use rand::{CryptoRng, RngCore};
use rand_chacha::ChaCha12Rng;

/// words of LWE ciphertexts
pub trait W: LWEModulusType + 'static {
    const B: u32;
    const NM: &'static str;
    fn mk(x: u64) -> Self;
    fn u(self) -> u64;
}
macro_rules! word {
    ($($t:ident),*) => {$(impl W for $t {
        const B: u32 = $t::BITS;
        const NM: &'static str = stringify!($t);
        fn mk(x: u64) -> Self { x as $t }
        fn u(self) -> u64 { self as u64 }
    })*};
}
word!(u8, u16, u32, u64);

#[derive(Clone, Debug)]
pub struct Spec {
    /// LWE dimension, plaintext and ciphertext modulus, deviation, key
    pub n: usize,
    pub t: u64,
    pub q: u64,
    pub sd: f64,
    pub lk: LWESecretKeyType,
    /// ring dimension, deviation, key, basis bits
    pub big: usize,
    pub rsd: f64,
    pub rk: RingSecretKeyType,
    pub bb: u32,
    /// key switching basis bits and deviation
    pub kb: u32,
    pub ksd: f64,
    pub steps: Steps,
}

impl Spec {
    pub fn constants<C: W, Q: Nx>(&self, ring_modulus: u64) -> ConstParameters<C, Q::Value> {
        ConstParameters {
            lwe_dimension: self.n,
            lwe_plain_modulus: C::mk(self.t),
            lwe_cipher_modulus: C::mk(self.q),
            lwe_noise_standard_deviation: self.sd,
            lwe_secret_key_type: self.lk,
            ring_dimension: self.big,
            ring_modulus: Q::val(ring_modulus),
            ring_noise_standard_deviation: self.rsd,
            ring_secret_key_type: self.rk,
            blind_rotation_basis_bits: self.bb,
            steps: self.steps,
            key_switching_basis_bits: self.kb,
            key_switching_standard_deviation: self.ksd,
        }
    }
    pub fn params<C: W, Q: Nx>(&self) -> Result<Parameters<C, Q>, String> {
        Parameters::new(self.constants::<C, Q>(Q::P)).map_err(|e| format!("valid parameters refused: {e:?} {self:?}"))
    }
    pub fn pack<C: W, Q: Nx, R: RngCore + CryptoRng>(&self, rng: &mut R) -> Result<SecretKeyPack<C, Q>, String> {
        Ok(SecretKeyPack::new(self.params()?, rng))
    }
}

/// any parameter set that is accepted; callers overwrite what they care about
pub fn spec<C: W, Q: Nx>(g: &mut G, log_big: u32) -> Spec {
    let kmax = C::B - 1;
    let k = g.us(2, kmax as usize) as u32;
    let t = 1u64 << g.us(1, k as usize);
    let mb = 64 - Q::P.leading_zeros();
    Spec {
        n: g.us(1, 40),
        t,
        q: 1 << k,
        sd: 0.0,
        lk: *g.pick(&[LWESecretKeyType::Binary, LWESecretKeyType::Ternary]),
        big: 1 << g.us(1, log_big.min(Q::adicity() - 1) as usize),
        rsd: 0.0,
        rk: *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary]),
        bb: g.us(1, mb as usize) as u32,
        kb: g.us(1, k as usize) as u32,
        ksd: 0.0,
        steps: *g.pick(&[Steps::BrKsMs, Steps::BrMsKs]),
    }
}

/// the largest magnitude of a sampled value
pub fn top(sigma: f64) -> u64 {
    (6.0 * sigma + 0.5).floor() as u64
}
/// the same for noise polynomials, where the centred binomial replaces 3.2
pub fn ring_top(sigma: f64) -> u64 {
    if sigma.to_bits() == 3.2f64.to_bits() { 21 } else { top(sigma) }
}
/// a deviation whose largest value stays within `max`
pub fn deviation(g: &mut G, max: u64) -> f64 {
    let fit: Vec<f64> = [0.0, 0.3, 1.0, 3.2, 3.19, 6.4, 10.0, 100.0, 4000.0].into_iter().filter(|&s| ring_top(s).max(top(s)) <= max).collect();
    *g.pick(&fit)
}
/// A bound for a sum of independent noise values with the given weights that
/// chance exceeds with probability below e^-49: the noise is sub-Gaussian.
pub fn spread(weights_squared: f64, sigma: f64) -> u128 {
    if sigma == 0.0 { 0 } else { (10.0 * weights_squared.sqrt() * (sigma + 0.5)).ceil() as u128 }
}

pub fn comp<C: W>(c: &LWECiphertext<C>) -> Comp {
    (c.a().iter().map(|v| v.u()).collect(), c.b().u())
}
pub fn cipher<C: W>(c: &Comp) -> LWECiphertext<C> {
    LWECiphertext::new(c.0.iter().map(|&x| C::mk(x)).collect(), C::mk(c.1))
}
pub fn lwe_key<C: W, Q: Nx>(p: &SecretKeyPack<C, Q>) -> Vec<u64> {
    p.lwe_secret_key().iter().map(|x| x.u()).collect()
}
pub fn ring_key<C: W, Q: Nx>(p: &SecretKeyPack<C, Q>) -> Vec<u64> {
    uv(p.ring_secret_key().as_slice())
}
/// a small key (0, 1, -1 modulo `from`) modulo another number
pub fn rekey(s: &[u64], from: u64, to: u64) -> Vec<u64> {
    s.iter().map(|&x| wrap(centered(x, from), to)).collect()
}
/// the same for LWE keys, which modulo 2 cannot tell -1 from 1
pub fn lwe_rekey(s: &[u64], from: u64, to: u64) -> Vec<u64> {
    s.iter().map(|&x| if x <= 1 { x } else { wrap(x as i128 - from as i128, to) }).collect()
}

/// A generator whose first words are given, to produce keys with a chosen
/// pattern.
pub struct Scripted {
    pub word: u32,
    pub left: usize,
    pub inner: ChaCha12Rng,
}
impl RngCore for Scripted {
    fn next_u32(&mut self) -> u32 {
        if self.left > 0 {
            self.left -= 1;
            self.word
        } else {
            self.inner.next_u32()
        }
    }
    fn next_u64(&mut self) -> u64 {
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.inner.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.inner.try_fill_bytes(dest)
    }
}
impl CryptoRng for Scripted {}
/// a generator that makes keys all zero, all one, all minus one, or random
pub fn key_rng(g: &mut G, n: usize) -> Scripted {
    let inner = g.rng();
    let (word, words) = match g.draw(6) {
        0 => (0, n / 16 + 1),
        1 => (u32::MAX, n / 16 + 1),
        2 => (0xAAAA_AAAA, n / 16 + 1),
        _ => (0, 0),
    };
    Scripted { word, left: words, inner }
}
