//! C19 parameters and keys, C20 encoding and encryption, C21 randomness,
//! C22 modulus switching, C23 key switching, C24 blind rotation.

use algebra::{Basis, Field, FieldDiscreteGaussianSampler, Polynomial};
use fhe_core::*;
use harness::ct::*;
use harness::engine::*;
use harness::fieldset::*;
use harness::oracle::*;
use harness::scheme::*;
use harness::stats::*;
use harness::{ensure, fits, same};
use lattice::{DiscreteGaussian, GadgetRLWE, NTTGadgetRLWE, LWE, NTTRGSW, NTTRLWE, RGSW, RLWE};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use zkfhe::bfhe::{CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS};
use zkfhe::{Decryptor, Encryptor, KeyGen};

// ---------------------------------------------------------------- C19

fn bits_of(x: f64) -> u64 {
    x.to_bits()
}

fn construct<C: W, Q: Nx>(g: &mut G) -> R {
    let mut s = spec::<C, Q>(g, 10);
    s.n = g.edge(0, 1 << 20) as usize;
    s.sd = *g.pick(&[0.0, 0.3, 3.2, 3.19, 1000.5, 1e-9]);
    s.rsd = *g.pick(&[0.0, 0.3, 3.2, 6.4, 1000.5, 1e-9]);
    s.ksd = *g.pick(&[0.0, 0.3, 3.2, 6.4, 1000.5, 1e-9]);
    s.rk = *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]);
    s.steps = *g.pick(&[Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs]);
    s.kb = g.edge(0, u32::MAX as u64) as u32;
    if g.one_in(3) {
        s.big = match g.draw(4) {
            0 => g.us(0, 40),
            1 => 1 << g.us(0, 63),
            2 => (1usize << g.us(0, 62)) + 1 - 2 * g.us(0, 1),
            _ => g.edge(0, u64::MAX) as usize,
        };
    }
    let cap = C::mk(u64::MAX).u();
    match g.draw(8) {
        0 => s.t = g.edge(0, cap),
        1 => s.q = g.edge(0, cap),
        2 => s.t = 1 << g.us(0, C::B as usize - 1),
        3 => s.q = 1 << g.us(0, C::B as usize - 1),
        _ => {}
    }
    // the ring modulus is whatever the caller supplies
    let word = Q::word_max();
    let modulus = match g.draw(6) {
        0 => g.edge(1, word),
        1 | 2 => {
            // k * 2N + 1 or close by
            let two = (s.big as u128) << 1;
            if two == 0 || two >= word as u128 {
                Q::P
            } else {
                let k = g.int(0, ((word as u128 - 1) / two) as u64) as u128;
                let d = if g.one_in(3) { g.draw(5) as i128 - 2 } else { 1 };
                ((k * two) as i128 + d).clamp(1, word as i128) as u64
            }
        }
        _ => Q::P,
    };
    g.note(|| format!("u{} {} ring modulus {modulus} {s:?}", C::B, Q::NAME));
    let pow_n = s.big.is_power_of_two();
    let fits_n = pow_n && s.big < 1 << 63 && (modulus - 1) as u128 % ((s.big as u128) << 1) == 0;
    let pow_m = s.t.is_power_of_two() && s.q.is_power_of_two();
    let order = s.t <= s.q;
    let valid = pow_n && fits_n && pow_m && order;
    g.label(match (pow_n, fits_n, pow_m, order) {
        (false, ..) => "N is not a power of two",
        (_, false, ..) => "2N does not divide Q-1",
        (_, _, false, _) => "t or q is not a power of two",
        (_, _, _, false) => "t > q",
        _ => "valid",
    });
    g.hit_if(!valid || s.big > 2);
    let got = no_panic(|| Parameters::<C, Q>::new(s.constants::<C, Q>(modulus)));
    let p = match got {
        None => {
            ensure!(!valid, "valid parameters panic: modulus {modulus} {s:?}");
            // a wrong N or Q alone is reported, not a panic
            ensure!(!pow_m || !order || s.big >= 1 << 63, "N or Q is wrong, t and q are fine, but the constructor panics: modulus {modulus} {s:?}");
            return Ok(());
        }
        Some(Err(e)) => {
            ensure!(!valid, "valid parameters refused: {e:?} modulus {modulus} {s:?}");
            match e {
                FHECoreError::RingDimensionUnValid(d) => {
                    ensure!(!pow_n, "RingDimensionUnValid for N={}", s.big);
                    same!(d, s.big, "the dimension in the error");
                }
                FHECoreError::RingModulusAndDimensionNotCompatible { coeff_modulus, ring_dimension } => {
                    ensure!(!pow_n || !fits_n, "RingModulusAndDimensionNotCompatible for N={} Q={modulus}", s.big);
                    same!((coeff_modulus as u64, ring_dimension), (modulus, s.big), "the values in the error");
                }
                e => return Err(format!("error {e:?} for modulus {modulus} {s:?}")),
            }
            return Ok(());
        }
        Some(Ok(p)) => p,
    };
    ensure!(valid, "invalid parameters accepted: modulus {modulus} {s:?}");
    let w = |what: &str, a: u64, b: u64| -> R {
        same!(a, b, "{what}() of modulus {modulus} {s:?}");
        Ok(())
    };
    w("lwe_dimension", p.lwe_dimension() as u64, s.n as u64)?;
    w("lwe_plain_modulus", p.lwe_plain_modulus(), s.t)?;
    w("lwe_cipher_modulus_value", p.lwe_cipher_modulus_value().u(), s.q)?;
    w("lwe_cipher_modulus", p.lwe_cipher_modulus().value().u(), s.q)?;
    w("lwe_cipher_modulus mask", p.lwe_cipher_modulus().mask().u(), s.q - 1)?;
    w("lwe_noise_standard_deviation", bits_of(p.lwe_noise_standard_deviation()), bits_of(s.sd))?;
    ensure!(p.lwe_secret_key_type() == s.lk, "lwe_secret_key_type {:?}, {s:?}", p.lwe_secret_key_type());
    w("ring_dimension", p.ring_dimension() as u64, s.big as u64)?;
    w("ring_modulus", Q::unval(p.ring_modulus()), modulus)?;
    w("ring_noise_standard_deviation", bits_of(p.ring_noise_standard_deviation()), bits_of(s.rsd))?;
    ensure!(p.ring_secret_key_type() == s.rk, "ring_secret_key_type {:?}, {s:?}", p.ring_secret_key_type());
    let (b, o) = (p.blind_rotation_basis(), Basis::<Q>::new(s.bb));
    w("blind_rotation_basis bits", b.bits() as u64, s.bb as u64)?;
    w("blind_rotation_basis basis", Q::unval(b.basis()), Q::unval(o.basis()))?;
    w("blind_rotation_basis mask", Q::unval(b.mask()), Q::unval(o.mask()))?;
    w("blind_rotation_basis length", b.decompose_len() as u64, o.decompose_len() as u64)?;
    w("key_switching_basis_bits", p.key_switching_basis_bits() as u64, s.kb as u64)?;
    w("key_switching_noise_standard_deviation", bits_of(p.key_switching_noise_standard_deviation()), bits_of(s.ksd))?;
    ensure!(format!("{:?}", p.steps()) == format!("{:?}", s.steps), "steps {:?}, {s:?}", p.steps());
    let l = p.lwe_params();
    w("lwe_params dimension", l.dimension as u64, s.n as u64)?;
    w("lwe_params plain_modulus", l.plain_modulus, s.t)?;
    w("lwe_params cipher_modulus", l.cipher_modulus.u(), s.q)?;
    w("lwe_params deviation", bits_of(l.noise_standard_deviation), bits_of(s.sd))?;
    ensure!(l.secret_key_type == s.lk, "lwe_params secret_key_type {:?}, {s:?}", l.secret_key_type);
    // derived samplers
    let d = |what: &str, x: DiscreteGaussian<C>, sd: f64| -> R {
        let o = DiscreteGaussian::<C>::new(C::mk(s.q), 0.0, sd).map_err(|e| format!("{e:?}"))?;
        same!([bits_of(x.mean()), bits_of(x.std_dev()), bits_of(x.max_std_dev())], [bits_of(o.mean()), bits_of(o.std_dev()), bits_of(o.max_std_dev())], "{what} of {s:?}");
        Ok(())
    };
    d("lwe_noise_distribution", p.lwe_noise_distribution(), s.sd)?;
    d("key_switching_noise_distribution_for_lwe", p.key_switching_noise_distribution_for_lwe(), s.ksd)?;
    let f = |what: &str, x: FieldDiscreteGaussianSampler, sd: f64| -> R {
        let o = FieldDiscreteGaussianSampler::new(0.0, sd).map_err(|e| format!("{e:?}"))?;
        same!([bits_of(x.mean()), bits_of(x.std_dev()), bits_of(x.max_std_dev()), x.cbd_enable() as u64], [bits_of(o.mean()), bits_of(o.std_dev()), bits_of(o.max_std_dev()), o.cbd_enable() as u64], "{what} of {s:?}");
        Ok(())
    };
    f("ring_noise_distribution", p.ring_noise_distribution(), s.rsd)?;
    f("key_switching_noise_distribution_for_ring", p.key_switching_noise_distribution_for_ring(), s.ksd)
}

/// what the keys generated from a parameter set look like
fn keys<C: W, Q: Nx>(g: &mut G) -> R {
    let mut s = spec::<C, Q>(g, 9);
    s.q = 1 << g.us(1, C::B as usize - 1);
    s.t = s.q.min(s.t);
    s.n = match g.draw(3) {
        0 => g.us(0, 3),
        _ => g.us(0, 600),
    };
    s.steps = *g.pick(&[Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs]);
    s.rsd = deviation(g, (Q::P - 1) / 2 - 1);
    match s.steps {
        Steps::BrKsMs => s.rk = *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]),
        // the keys are the same: n = N, ring key type binary or ternary
        Steps::BrMs => s.n = s.big,
        Steps::BrMsKs => {}
    }
    g.note(|| format!("u{} {} {s:?}", C::B, Q::NAME));
    g.label(match s.steps {
        Steps::BrMs => "BrMs",
        Steps::BrMsKs => "BrMsKs",
        Steps::BrKsMs => "BrKsMs",
    });
    g.hit_if(s.n > 0);
    let params = s.params::<C, Q>()?;
    let mut rng = key_rng(g, s.n);
    let inner = rng.inner.clone();
    let (word, left) = (rng.word, rng.left);
    let k = SecretKeyPack::<C, Q>::new(params, &mut rng);
    let (l, r) = (lwe_key(&k), ring_key(&k));
    same!((l.len(), r.len()), (s.n, s.big), "key dimensions of {s:?}");
    let ok: &[u64] = match s.lk {
        LWESecretKeyType::Binary => &[0, 1],
        LWESecretKeyType::Ternary => &[0, 1, s.q - 1],
    };
    ensure!(l.iter().all(|x| ok.contains(x)), "LWE key {l:?} of {s:?}");
    ensure!(r.iter().all(|&x| x < Q::P), "ring key is not canonical");
    if let Steps::BrMs = s.steps {
        same!(r, lwe_rekey(&l, s.q, Q::P), "the ring key should be the LWE key");
    } else {
        match s.rk {
            RingSecretKeyType::Binary => ensure!(r.iter().all(|&x| x <= 1), "binary ring key {r:?}"),
            RingSecretKeyType::Ternary => ensure!(r.iter().all(|&x| x <= 1 || x == Q::P - 1), "ternary ring key {r:?}"),
            RingSecretKeyType::Gaussian => {
                let e = ring_top(s.rsd);
                ensure!(small(&r, e, Q::P).is_none(), "Gaussian ring key {r:?} exceeds {e} of {s:?}")
            }
        }
    }
    same!(un(k.ntt_ring_secret_key()), r, "the transformed ring key");
    ensure!(k.ntt_ring_secret_key().as_slice().iter().all(|x| x.u() < Q::P), "the transformed ring key is not canonical");
    same!(k.parameters().lwe_dimension(), s.n, "parameters()");
    // the other way to generate keys, a clone
    let mut again = Scripted { word, left, inner };
    let k2 = KeyGen::generate_secret_key(params, &mut again);
    same!((lwe_key(&k2), ring_key(&k2)), (l.clone(), r.clone()), "KeyGen::generate_secret_key with the same generator");
    let k3 = k2.clone();
    same!((lwe_key(&k3), ring_key(&k3), un(k3.ntt_ring_secret_key())), (l, r.clone(), r), "clone");
    Ok(())
}

/// shares of many generated keys
fn key_shares<C: W, Q: Nx>(g: &mut G) -> R {
    let mut s = spec::<C, Q>(g, 4);
    s.q = s.q.max(4);
    s.n = g.us(1, 40);
    s.steps = *g.pick(&[Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs]);
    s.rsd = deviation(g, (Q::P - 1) / 2 - 1);
    match s.steps {
        Steps::BrKsMs => s.rk = *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]),
        Steps::BrMs => s.n = s.big,
        Steps::BrMsKs => {}
    }
    g.note(|| format!("u{} {} {s:?}", C::B, Q::NAME));
    g.hit();
    let mut rng = g.rng();
    let (mut ls, mut rs, mut pairs) = (vec![], vec![], vec![]);
    for _ in 0..1200 {
        let k = s.pack::<C, Q, _>(&mut rng)?;
        let l: Vec<i64> = lwe_key(&k).iter().map(|&x| if x <= 1 { x as i64 } else { (x as i128 - s.q as i128) as i64 }).collect();
        let r: Vec<i64> = ring_key(&k).iter().map(|&x| centered(x, Q::P) as i64).collect();
        pairs.push(vec![(l[0] != 0) as i64, (r[0] != 0) as i64]);
        ls.push(l);
        rs.push(r);
    }
    let (bin, ter): (&[_], &[_]) = (&BINARY, &TERNARY);
    vectors_fit(&ls, if s.lk == LWESecretKeyType::Binary { bin } else { ter }, "LWE key")?;
    if let Steps::BrMs = s.steps {
        return Ok(());
    }
    // the two keys are independent; 0 has share one half in all but Gaussian keys
    match s.rk {
        RingSecretKeyType::Binary => {
            vectors_fit(&rs, bin, "ring key")?;
            vectors_fit(&pairs, bin, "the first entries of the LWE and ring keys (zero or not)")
        }
        RingSecretKeyType::Ternary => {
            vectors_fit(&rs, ter, "ring key")?;
            vectors_fit(&pairs, bin, "the first entries of the LWE and ring keys (zero or not)")
        }
        RingSecretKeyType::Gaussian => {
            let pmf = pmf_ring(s.rsd);
            let flat: Vec<i64> = rs.iter().flatten().copied().collect();
            pmf_fit(&flat, &pmf, "Gaussian ring key")?;
            if pmf.len() < 200 {
                vectors_fit(&rs, &pmf, "Gaussian ring key")?;
            }
            Ok(())
        }
    }
}

/// the sets that the boolean crate ships
fn shipped(g: &mut G) -> R {
    g.hit();
    let (name, p) = if g.turn(2) == 0 { ("default", *DEFAULT_TERNARY_128_BITS_PARAMETERS) } else { ("custom", *CUSTOM_TERNARY_128_BITS_PARAMETERS) };
    same!(p.lwe_plain_modulus(), 4, "{name}: plaintext modulus");
    let q = p.lwe_cipher_modulus_value() as usize;
    let two = 2 * p.ring_dimension();
    ensure!(two % q == 0 || q % two == 0, "{name}: q and 2N are not multiples of each other");
    same!(p.ring_modulus(), DefaultFieldU32::MODULUS_VALUE, "{name}: ring modulus");
    ensure!(p.lwe_dimension() >= 512 && p.ring_dimension() >= 1024, "{name}: dimensions too small for 128 bits");
    ensure!(p.lwe_noise_standard_deviation() >= 3.2 && p.ring_noise_standard_deviation() >= 3.2 && p.key_switching_noise_standard_deviation() >= 3.2, "{name}: noise too small for 128 bits");
    ensure!(p.lwe_secret_key_type() == LWESecretKeyType::Ternary && p.ring_secret_key_type() == RingSecretKeyType::Ternary, "{name}: key types");
    let mut rng = g.rng();
    let k = SecretKeyPack::new(p, &mut rng);
    same!((k.lwe_secret_key().len(), k.ring_secret_key().as_slice().len()), (p.lwe_dimension(), p.ring_dimension()), "{name}: key dimensions");
    for m in 0..4u8 {
        let c = k.encrypt(m, &mut rng);
        let (d, e): (u8, u16) = k.decrypt_with_noise(&c);
        same!(d, m, "{name}: decryption");
        ensure!(e <= 19, "{name}: fresh noise {e}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

trait Msg: LWEMsgType + PartialEq + std::fmt::Debug + 'static {
    const MAX: u64;
    fn m(x: u64) -> Self;
}
macro_rules! msg {
    ($($t:ident),*) => {$(impl Msg for $t { const MAX: u64 = $t::MAX as u64; fn m(x: u64) -> Self { x as $t } })*};
}
msg!(u8, u16, u32, u64);
impl Msg for bool {
    const MAX: u64 = 1;
    fn m(x: u64) -> bool {
        x == 1
    }
}
fn num<M: Msg>(m: M) -> u64 {
    m.as_into()
}

/// the messages a value may decode to (two when it lies half-way)
fn nearest(c: u64, t: u64, q: u64) -> Vec<u64> {
    let step = q / t;
    let (lo, rest) = (c / step, c % step);
    if 2 * rest < step {
        vec![lo % t]
    } else if 2 * rest > step {
        vec![(lo + 1) % t]
    } else {
        vec![lo % t, (lo + 1) % t]
    }
}

fn check_decode<M: Msg, C: W>(c: u64, t: u64, q: u64) -> R {
    let ok = nearest(c, t, q);
    let got = no_panic(|| decode::<M, C>(C::mk(c), t, q)).map(num);
    match got {
        Some(d) => ensure!(ok.contains(&d), "decode({c}) with t={t} q={q} gives {d}, the nearest message is {ok:?}"),
        None => ensure!(ok.iter().any(|&d| d > M::MAX), "decode({c}) with t={t} q={q} panics, the nearest message is {ok:?}"),
    }
    Ok(())
}
fn check_encode<M: Msg, C: W>(m: u64, t: u64, q: u64) -> R {
    let got = no_panic(|| encode::<M, C>(M::m(m), t, q)).map(|c| c.u());
    let want = if m < t { Some(m * (q / t)) } else { None };
    same!(got, want, "encode({m}) with t={t} q={q} (None: refused)");
    Ok(())
}

fn codec_one<M: Msg, C: W>(g: &mut G) -> R {
    let k = g.us(0, C::B.min(63) as usize);
    let j = if g.one_in(5) { k } else { g.us(0, k) };
    let (t, q) = (1u64 << j, 1u64 << k);
    g.note(|| format!("u{} messages {} t={t} q={q}", C::B, std::any::type_name::<M>()));
    g.hit_if(j > 0);
    g.label_if(j == k, "t = q");
    let m = g.edge(0, M::MAX.min(t.saturating_mul(2)));
    g.label_if(m >= t, "message outside the space");
    check_encode::<M, C>(m, t, q)?;
    let m = g.edge(0, (t - 1).min(M::MAX));
    check_encode::<M, C>(m, t, q)?;
    // less than half a step of noise
    let reach = (q / t).div_ceil(2) - 1;
    let e = g.edge(0, 2 * reach) as i128 - reach as i128;
    let c = wrap((m * (q / t)) as i128 + e, q);
    let d = no_panic(|| decode::<M, C>(C::mk(c), t, q)).map(num);
    same!(d, Some(m), "decode(encode({m}) + {e}) with t={t} q={q} (None: panic)");
    // any value
    check_decode::<M, C>(g.edge(0, q - 1), t, q)?;
    // around the boundaries
    let at = (g.int(0, t - 1) as u128 * (q / t) as u128 + ((q / t) / 2) as u128) as u64;
    let d = g.int(0, 2);
    check_decode::<M, C>((at + d).saturating_sub(1).min(q - 1), t, q)
}
fn codec<C: W>(g: &mut G) -> R {
    match g.draw(5) {
        0 => codec_one::<bool, C>(g),
        1 => codec_one::<u8, C>(g),
        2 => codec_one::<u16, C>(g),
        3 => codec_one::<u32, C>(g),
        _ => codec_one::<u64, C>(g),
    }
}
/// every value for one ciphertext modulus of up to 13 bits
fn codec_all(g: &mut G) -> R {
    let k = g.turn(14) as u32;
    g.hit();
    g.note(|| format!("all t and all values for q = 2^{k}"));
    let q = 1u64 << k;
    for j in 0..=k {
        let t = 1u64 << j;
        for m in 0..=t {
            if k <= 8 {
                check_encode::<u16, u8>(m, t, q)?;
            }
            check_encode::<u16, u16>(m, t, q)?;
        }
        for c in 0..q {
            if k <= 8 {
                check_decode::<u8, u8>(c, t, q)?;
            }
            if k < 8 {
                check_decode::<bool, u16>(c, t, q)?;
            }
            check_decode::<u16, u16>(c, t, q)?;
        }
    }
    Ok(())
}

/// encryption under a key, decryption of what it gives, of combinations and of
/// arbitrary ciphertexts
fn crypt<M: Msg, C: W, Q: Nx>(g: &mut G) -> R {
    let mut s = spec::<C, Q>(g, 3);
    let k = g.us(1, C::B as usize - 1);
    let j = if g.one_in(8) { k } else { g.us(1, k) };
    (s.q, s.t) = (1 << k, 1 << j);
    s.n = match g.draw(4) {
        0 => g.us(0, 2),
        _ => g.len(80),
    };
    let step = s.q / s.t;
    // noise below half a step, or at least representable
    let tolerable = step.div_ceil(2) - 1;
    s.sd = if g.one_in(6) { deviation(g, s.q / 2 - s.q.min(4) / 4) } else { deviation(g, tolerable) };
    let bound = top(s.sd);
    g.note(|| format!("u{} {} {s:?}", C::B, Q::NAME));
    g.hit_if(s.n > 0 && bound > 0);
    let mut rng = key_rng(g, s.n);
    let pack = s.pack::<C, Q, _>(&mut rng)?;
    let (enc, dec) = (Encryptor::new(pack.clone()), Decryptor::new(pack.clone()));
    let key = lwe_key(&pack);
    let q = s.q;
    let m = q as u128;
    let limit = (s.t - 1).min(M::MAX);
    let mut pool: Vec<(LWECiphertext<C>, u64)> = vec![];
    for i in 0..4 {
        let v = g.edge(0, limit);
        let c = if i % 2 == 0 { pack.encrypt(M::m(v), &mut rng) } else { enc.encrypt(M::m(v), &mut rng) };
        let e = centered(subm(phase_of(&comp(&c), &key, m)?, v * step, q), q);
        ensure!(e.abs() <= bound as i128, "the encryption of {v} has noise {e}, the bound is {bound}: {s:?}");
        if bound <= tolerable {
            same!(no_panic(|| pack.decrypt::<M>(&c)).map(num), Some(v), "decryption of an encryption of {v} with noise {e}: {s:?}");
            let (d, n): (M, C) = dec.decrypt_with_noise(&c);
            same!((num(d), n.u()), (v, e.unsigned_abs() as u64), "decrypt_with_noise of an encryption of {v} with noise {e}: {s:?}");
        }
        pool.push((c, v));
    }
    if s.n as u32 * k as u32 > 80 {
        let masks: std::collections::HashSet<_> = pool.iter().map(|c| comp(&c.0).0).collect();
        same!(masks.len(), 4, "masks repeat");
    }
    // outside the message space
    if M::MAX >= s.t {
        let v = g.edge(s.t, M::MAX);
        ensure!(no_panic(|| pack.encrypt(M::m(v), &mut rng)).is_none(), "message {v} encrypted with t={}", s.t);
    }
    // linear combinations; the coefficients are small, so that noise stays small
    let modulus = pack.parameters().lwe_cipher_modulus();
    let mut acc = pool[0].0.clone();
    let (mut sum, mut noise) = (pool[0].1 as i128, bound as u128);
    let many = g.us(1, 5);
    for _ in 0..many {
        let i = g.us(0, 3);
        let (c, v) = (&pool[i].0, pool[i].1 as i128);
        match g.draw(4) {
            0 => {
                acc.add_reduce_inplace_component_wise(c, modulus);
                sum += v;
                noise += bound as u128;
            }
            1 => {
                acc = acc.sub_reduce_component_wise_ref(c, modulus);
                sum -= v;
                noise += bound as u128;
            }
            2 => {
                let x = g.int(0, 3.min(q - 1));
                acc.add_assign_rhs_mul_scalar_reduce(c, C::mk(x), modulus);
                sum += v * x as i128;
                noise += bound as u128 * x as u128;
            }
            _ => {
                acc.neg_reduce_assign(modulus);
                sum = -sum;
            }
        }
    }
    let want = wrap(sum, s.t);
    if noise <= tolerable as u128 {
        g.label("combination");
        let d = no_panic(|| dec.decrypt::<M>(&acc)).map(num);
        same!(d, if want <= M::MAX { Some(want) } else { None }, "a combination that should be {want}, noise at most {noise}: {s:?}");
    }
    // any ciphertext: nearest message, exact distance
    let c: Comp = (g.vec(s.n, q), g.edge(0, q - 1));
    let ph = phase(&c, &key, m);
    let x = cipher::<C>(&c);
    let ok = nearest(ph, s.t, q);
    for (name, got) in [
        ("SecretKeyPack::decrypt", no_panic(|| (num(pack.decrypt::<M>(&x)), None))),
        ("Decryptor::decrypt", no_panic(|| (num(dec.decrypt::<M>(&x)), None))),
        ("SecretKeyPack::decrypt_with_noise", no_panic(|| {
            let (d, e) = pack.decrypt_with_noise::<M>(&x);
            (num(d), Some(e.u()))
        })),
        ("Decryptor::decrypt_with_noise", no_panic(|| {
            let (d, e) = dec.decrypt_with_noise::<M>(&x);
            (num(d), Some(e.u()))
        })),
    ] {
        match got {
            None => ensure!(ok.iter().any(|&d| d > M::MAX), "{name} panics, the phase {ph} is nearest to {ok:?}: {s:?}"),
            Some((d, e)) => {
                ensure!(ok.contains(&d), "{name} gives {d}, the phase {ph} is nearest to {ok:?}: {s:?}");
                if let Some(e) = e {
                    let dist = centered(subm(ph, d * step, q), q).unsigned_abs() as u64;
                    same!(e, dist, "{name}: noise of the phase {ph} decrypted to {d}: {s:?}");
                }
            }
        }
    }
    same!(comp(&x), c, "operand");
    Ok(())
}
fn encryption<C: W, Q: Nx>(g: &mut G) -> R {
    match g.draw(5) {
        0 => crypt::<bool, C, Q>(g),
        1 => crypt::<u8, C, Q>(g),
        2 => crypt::<u16, C, Q>(g),
        3 => crypt::<u32, C, Q>(g),
        _ => crypt::<u64, C, Q>(g),
    }
}

// ---------------------------------------------------------------- C21

/// many encryptions under one key
fn fresh<C: W, Q: Nx>(g: &mut G) -> R {
    let mut s = spec::<C, Q>(g, 3);
    let k = g.us(2, C::B as usize - 1);
    (s.q, s.t) = (1 << k, 1 << g.us(1, k));
    s.n = g.us(1, 48);
    s.sd = deviation(g, s.q / 2 - 1);
    let same_message = g.bool();
    g.note(|| format!("u{} {} {s:?}, one message: {same_message}", C::B, Q::NAME));
    g.hit_if(s.sd > 0.0);
    let mut rng = g.rng();
    let pack = s.pack::<C, Q, _>(&mut rng)?;
    let key = lwe_key(&pack);
    let enc = Encryptor::new(pack.clone());
    let (mut masks, mut noise, mut signs) = (vec![], vec![], vec![]);
    let v0 = g.int(0, s.t - 1);
    for i in 0..1500u64 {
        let v = if same_message { v0 } else { i % s.t };
        let c = if i % 2 == 0 { pack.encrypt(v, &mut rng) } else { enc.encrypt(v, &mut rng) };
        let c = comp(&c);
        let e = centered(subm(phase_of(&c, &key, s.q as u128)?, v * (s.q / s.t), s.q), s.q) as i64;
        signs.push((e > 0, c.0[0] >= s.q / 2));
        noise.push(e);
        masks.push(c.0);
    }
    masks_fit(g, &masks, s.q, "masks of encryptions")?;
    if same_message && s.n as u32 * k as u32 > 80 {
        let set: std::collections::HashSet<_> = masks.iter().collect();
        same!(set.len(), masks.len(), "equal encryptions of equal messages");
    }
    let pmf = pmf_gauss(s.sd);
    pmf_fit(&noise, &pmf, &format!("noise of encryptions with deviation {}", s.sd))?;
    // noise and mask are independent
    apart(&masks, &noise, s.q, &pmf, "noise of encryptions")?;
    let up: f64 = pmf.iter().filter(|c| c.0 > 0).map(|c| c.1).sum();
    fits!(signs.iter().filter(|x| x.0 && x.1).count(), signs.len(), up / 2.0, "positive noise with a first mask entry in the upper half");
    Ok(())
}

/// pooled rows of ring samples: masks, noise, independence between rows
struct Pool {
    masks: Vec<Vec<u64>>,
    noise: Vec<Vec<i64>>,
}
impl Pool {
    fn add<Q: Nx>(&mut self, c: &Ring, s: &[u64], message: &[u64]) {
        let p = Q::P;
        let ph = ring_phase(c, s, p);
        self.noise.push(ph.iter().zip(message).map(|(&a, &b)| centered(subm(a, b, p), p) as i64).collect());
        self.masks.push(c.0.clone());
    }
    fn fit<Q: Nx>(&self, g: &mut G, pmf: &[(i64, f64)], what: &str) -> R {
        masks_fit(g, &self.masks, Q::P, &format!("masks of {what}"))?;
        let flat: Vec<i64> = self.noise.iter().flatten().copied().collect();
        pmf_fit(&flat, pmf, &format!("noise of {what}"))?;
        let first: Vec<i64> = self.noise.iter().map(|v| v[0]).collect();
        apart(&self.masks, &first, Q::P, pmf, &format!("noise of {what}"))?;
        if pmf.len() < 200 {
            vectors_fit(&self.noise, pmf, &format!("noise of {what}"))?;
        }
        Ok(())
    }
}

/// RLWE, gadget and RGSW samples of the lattice crate
fn ring_samples<Q: Nx>(g: &mut G) -> R {
    let p = Q::P;
    let n = 1usize << g.us(1, (Q::adicity() - 1).min(4) as usize);
    let s = match g.draw(3) {
        0 => g.vec(n, 2),
        1 => g.vec(n, 3).iter().map(|&x| if x == 2 { p - 1 } else { x }).collect(),
        _ => g.vec(n, p),
    };
    let sigma = deviation(g, (p - 1) / 2 - 1);
    let chi = FieldDiscreteGaussianSampler::new(0.0, sigma).map_err(|e| format!("{e:?}"))?;
    let mb = 64 - p.leading_zeros();
    let bits = g.us(1, mb as usize) as u32;
    let basis = Basis::<Q>::new(bits);
    let kind = g.draw(13);
    let mut rng = g.rng();
    let ns = nt::<Q>(&s);
    let one: Vec<u64> = (0..n).map(|i| (i == 0) as u64).collect();
    let neg: Vec<u64> = s.iter().map(|&x| negm(x, p)).collect();
    let zero = vec![0; n];
    let scaled = |m: &[u64], i: usize| -> Vec<u64> { m.iter().map(|&v| mulm(v, powm(2, (bits as usize * i) as u128, p), p)).collect() };
    let mut pool = Pool { masks: vec![], noise: vec![] };
    const NAMES: [&str; 13] = [
        "RLWE zero samples", "NTTRLWE zero samples", "NTTRLWE value samples", "gadget zero samples", "gadget one samples", "gadget negated-key samples",
        "NTT gadget zero samples", "NTT gadget one samples", "NTT gadget negated-key samples", "RGSW zero samples", "RGSW one samples", "NTTRGSW zero samples", "NTTRGSW one samples",
    ];
    let what = NAMES[kind as usize];
    g.label(what);
    g.note(|| format!("{} n={n} {what}, deviation {sigma}, basis 2^{bits}", Q::NAME));
    g.hit_if(sigma > 0.0);
    while pool.masks.len() < 600 {
        let of_g = |q: &GadgetRLWE<Q>| q.iter().map(of).collect::<Vec<_>>();
        let of_n = |q: &NTTGadgetRLWE<Q>| q.iter().map(nof).collect::<Vec<_>>();
        let (rows, m): (Vec<Ring>, &[u64]) = match kind {
            0 => (vec![of(&RLWE::<Q>::generate_random_zero_sample(&ns, chi, &mut rng))], &zero),
            1 => (vec![nof(&NTTRLWE::<Q>::generate_random_zero_sample(&ns, chi, &mut rng))], &zero),
            2 => (vec![nof(&NTTRLWE::<Q>::generate_random_value_sample(&ns, Q::mk(1), chi, &mut rng))], &one),
            3 => (of_g(&GadgetRLWE::generate_random_zero_sample(&ns, basis, chi, &mut rng)), &zero),
            4 => (of_g(&GadgetRLWE::generate_random_one_sample(&ns, basis, chi, &mut rng)), &one),
            5 => (of_g(&GadgetRLWE::generate_random_neg_secret_sample(&ns, basis, chi, &mut rng)), &neg),
            6 => (of_n(&NTTGadgetRLWE::generate_random_zero_sample(&ns, basis, chi, &mut rng)), &zero),
            7 => (of_n(&NTTGadgetRLWE::generate_random_one_sample(&ns, basis, chi, &mut rng)), &one),
            8 => (of_n(&NTTGadgetRLWE::generate_random_neg_secret_sample(&ns, basis, chi, &mut rng)), &neg),
            _ => {
                let (k, m) = match kind {
                    9 => {
                        let q = RGSW::<Q>::generate_random_zero_sample(&ns, basis, chi, &mut rng);
                        (of_g(q.c_neg_s_m()), of_g(q.c_m()))
                    }
                    10 => {
                        let q = RGSW::<Q>::generate_random_one_sample(&ns, basis, chi, &mut rng);
                        (of_g(q.c_neg_s_m()), of_g(q.c_m()))
                    }
                    11 => {
                        let q = NTTRGSW::<Q>::generate_random_zero_sample(&ns, basis, chi, &mut rng);
                        (of_n(q.c_neg_s_m()), of_n(q.c_m()))
                    }
                    _ => {
                        let q = NTTRGSW::<Q>::generate_random_one_sample(&ns, basis, chi, &mut rng);
                        (of_n(q.c_neg_s_m()), of_n(q.c_m()))
                    }
                };
                let is_one = kind % 2 == 0;
                for (i, r) in k.iter().enumerate() {
                    pool.add::<Q>(r, &s, &scaled(if is_one { &neg } else { &zero }, i));
                }
                (m, if is_one { &one } else { &zero })
            }
        };
        for (i, r) in rows.iter().enumerate() {
            pool.add::<Q>(r, &s, &scaled(m, i));
        }
    }
    pool.fit::<Q>(g, &pmf_ring(sigma), what)
}

/// zero samples of the LWE type
fn lwe_samples<C: W>(g: &mut G) -> R {
    let k = g.us(2, C::B as usize - 1);
    let q = 1u64 << k;
    let n = g.len(48).max(1);
    let sd = deviation(g, q / 2 - 1);
    let key: Vec<u64> = match g.draw(2) {
        0 => g.vec(n, 2),
        _ => g.vec(n, q),
    };
    g.note(|| format!("u{} modulo {q} n={n} deviation {sd}", C::B));
    g.hit_if(sd > 0.0);
    let kc: Vec<C> = key.iter().map(|&x| C::mk(x)).collect();
    let chi = DiscreteGaussian::new(C::mk(q), 0.0, sd).map_err(|e| format!("{e:?}"))?;
    let modulus = C::mk(q).to_power_of_2_modulus();
    let mut rng = g.rng();
    let (mut masks, mut noise) = (vec![], vec![]);
    for _ in 0..1500 {
        let c = comp(&LWE::generate_random_zero_sample(&kc, C::mk(q), modulus, chi, &mut rng));
        noise.push(centered(phase_of(&c, &key, q as u128)?, q) as i64);
        masks.push(c.0);
    }
    masks_fit(g, &masks, q, "masks of LWE zero samples")?;
    apart(&masks, &noise, q, &pmf_gauss(sd), "noise of LWE zero samples")?;
    pmf_fit(&noise, &pmf_gauss(sd), "noise of LWE zero samples")
}

/// every row of an LWE key switching key: a single digit selects it
fn lwe_switch_rows<C: W, Q: Nx>(g: &mut G) -> R {
    let mut s = spec::<C, Q>(g, 5);
    let k = g.us(3, C::B as usize - 1);
    s.q = 1 << k;
    s.t = 2;
    s.n = g.us(4, 24);
    s.kb = g.us(1, k.min(4)) as u32;
    s.steps = *g.pick(&[Steps::BrKsMs, Steps::BrMsKs]);
    s.ksd = deviation(g, s.q / 2 - 1);
    s.sd = deviation(g, s.q / 2 - 1);
    g.note(|| format!("u{} {} {s:?}", C::B, Q::NAME));
    g.hit_if(s.ksd > 0.0);
    let (mut masks, mut noise) = (vec![], vec![]);
    let len = k.div_ceil(s.kb as usize);
    while masks.len() < 1500 {
        let mut rng = g.rng();
        let pack = s.pack::<C, Q, _>(&mut rng)?;
        let key = lwe_key(&pack);
        let z = rekey(&ring_key(&pack), Q::P, s.q);
        let ks = KeySwitchingLWEKey::<C>::generate(&pack, &mut rng);
        for j in 0..len {
            for i in 0..s.big {
                // the last digit may be narrower
                let top = 1u64 << (k - j * s.kb as usize).min(s.kb as usize);
                for v in 1..top {
                    let mut a = vec![0; s.big];
                    a[i] = v << (j * s.kb as usize);
                    let want = negm(mulm(a[i], z[i], s.q), s.q);
                    let out = comp(&ks.key_switch_for_lwe(cipher::<C>(&(a, 0))));
                    noise.push(centered(subm(phase_of(&out, &key, s.q as u128)?, want, s.q), s.q) as i64);
                    masks.push(out.0);
                }
            }
        }
    }
    g.note(|| format!("{} rows", masks.len()));
    masks_fit(g, &masks, s.q, "masks of the LWE key switching key")?;
    apart(&masks, &noise, s.q, &pmf_gauss(s.ksd), "noise of the LWE key switching key")?;
    pmf_fit(&noise, &pmf_gauss(s.ksd), &format!("noise of the LWE key switching key, deviation {}", s.ksd))
}

/// every row of an RLWE key switching key
fn ring_switch_rows<C: W, Q: Nx>(g: &mut G) -> R {
    let p = Q::P;
    let mut s = spec::<C, Q>(g, 5);
    s.big = s.big.max(4);
    s.n = g.us(2, s.big.min(20));
    let mb = (64 - p.leading_zeros()) as usize;
    s.kb = g.us(1, mb) as u32;
    s.steps = Steps::BrKsMs;
    s.rk = *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]);
    s.rsd = deviation(g, (p - 1) / 2 - 1);
    s.ksd = deviation(g, (p - 1) / 2 - 1);
    g.note(|| format!("u{} {} {s:?}", C::B, Q::NAME));
    g.hit_if(s.ksd > 0.0);
    let ext = s.n.next_power_of_two();
    let len = mb.div_ceil(s.kb as usize);
    let (mut masks, mut noise) = (vec![], vec![]);
    while masks.len() < 600 {
        let mut rng = g.rng();
        let pack = s.pack::<C, Q, _>(&mut rng)?;
        let key = lwe_rekey(&lwe_key(&pack), s.q, p);
        let z = ring_key(&pack);
        let ks = KeySwitchingRLWEKey::<Q>::generate(&pack, &mut rng);
        for chunk in 0..s.big / ext {
            for j in 0..len {
                let digit = powm(2, (j * s.kb as usize) as u128, p);
                let mut row = vec![];
                for k in 0..ext {
                    // a monomial selects the row, rotated
                    let mut a = vec![0; s.big];
                    let at = chunk * ext + k;
                    a[at] = if k == 0 { negm(digit, p) } else { digit };
                    let want = negm(mulm(a[at], z[at], p), p);
                    let out = ks.key_switch_for_lwe(LWE::new(fv(&a), Q::mk(0)));
                    let out: Comp = (uv(out.a()), out.b().u());
                    row.push(centered(subm(phase_of(&out, &key, p as u128)?, want, p), p) as i64);
                    if k == 0 {
                        masks.push(out.0);
                    }
                }
                noise.push(row);
            }
        }
    }
    masks_fit(g, &masks, p, "masks of the RLWE key switching key")?;
    let pmf = pmf_ring(s.ksd);
    let flat: Vec<i64> = noise.iter().flatten().copied().collect();
    pmf_fit(&flat, &pmf, &format!("noise of the RLWE key switching key, deviation {}", s.ksd))?;
    if pmf.len() < 200 {
        vectors_fit(&noise, &pmf, "noise of the RLWE key switching key")?;
    }
    Ok(())
}

/// the message half of every row of a blind rotation key: one step with a
/// table that is a single digit after multiplication by X^N - 1 = -2
fn rotation_rows<C: W, Q: Nx>(g: &mut G) -> R {
    let p = Q::P;
    let mut s = spec::<C, Q>(g, 4);
    // 2N must fit the word of the LWE ciphertext
    s.n = g.us(1, 6);
    s.rsd = deviation(g, (p - 1) / 4 - 1);
    s.sd = 1.0;
    s.q = s.q.max(32);
    s.t = 2;
    s.rk = *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]);
    s.steps = Steps::BrKsMs;
    let mb = (64 - p.leading_zeros()) as usize;
    s.bb = g.us(1, mb) as u32;
    let len = mb.div_ceil(s.bb as usize);
    let n = s.big;
    g.note(|| format!("u{} {} {s:?}", C::B, Q::NAME));
    g.hit_if(s.rsd > 0.0);
    let half = (p + 1) / 2;
    let mut pools = [Pool { masks: vec![], noise: vec![] }, Pool { masks: vec![], noise: vec![] }];
    let ternary = s.lk == LWESecretKeyType::Ternary;
    while pools[0].masks.len() < 500 {
        let mut rng = g.rng();
        let pack = s.pack::<C, Q, _>(&mut rng)?;
        let key = lwe_rekey(&lwe_key(&pack), s.q, p);
        let z = ring_key(&pack);
        let br = BlindRotationKey::generate(&pack, &mut rng);
        for i in 0..s.n {
            for j in 0..len {
                let digit = powm(2, (j * s.bb as usize) as u128, p);
                let step = |a: usize, lut: &[u64]| -> Ring {
                    let mut v = vec![0; s.n];
                    v[i] = a as u64;
                    let r = of(&br.blind_rotate(Polynomial::<Q>::new(fv(lut)), &cipher::<C>(&(v, 0)), Basis::new(s.bb)));
                    // what the step added
                    (r.0, r.1.iter().zip(lut).map(|(&x, &y)| subm(x, y, p)).collect())
                };
                // (X^N - 1) * lut = digit
                let mut lut = vec![0; n];
                lut[0] = negm(mulm(digit, half, p), p);
                let sum = step(n, &lut);
                let constant = |x: u64| -> Vec<u64> { (0..n).map(|k| if k == 0 { x } else { 0 }).collect() };
                if !ternary {
                    pools[0].add::<Q>(&sum, &z, &constant(mulm(digit, key[i], p)));
                    continue;
                }
                // rows R0 + R1 from X^N and R0 + R1 X^(N/2) from X^(N/2):
                // (X^(N/2) - 1) * lut = digit for lut = -(1 + X^(N/2)) / 2 * digit
                let mut lut = vec![0; n];
                lut[0] = negm(mulm(digit, half, p), p);
                lut[n / 2] = lut[0];
                let other = step(n / 2, &lut);
                // R1 (1 - X^(N/2)) = sum - other, and (1 - Y)(1 + Y) = 2
                let split = |a: &[u64], b: &[u64]| -> (Vec<u64>, Vec<u64>) {
                    let d: Vec<u64> = a.iter().zip(b).map(|(&x, &y)| subm(x, y, p)).collect();
                    let r = mul_monomial(&d, n / 2, p);
                    let r1: Vec<u64> = d.iter().zip(&r).map(|(&x, &y)| mulm(addm(x, y, p), half, p)).collect();
                    let r0 = a.iter().zip(&r1).map(|(&x, &y)| subm(x, y, p)).collect();
                    (r0, r1)
                };
                let (a0, a1) = split(&sum.0, &other.0);
                let (b0, b1) = split(&sum.1, &other.1);
                pools[0].add::<Q>(&(a0, b0), &z, &constant(if key[i] == 1 { digit } else { 0 }));
                pools[1].add::<Q>(&(a1, b1), &z, &constant(if key[i] == p - 1 { digit } else { 0 }));
            }
        }
    }
    let pmf = pmf_ring(s.rsd);
    pools[0].fit::<Q>(g, &pmf, "the blind rotation key")?;
    if ternary {
        pools[1].fit::<Q>(g, &pmf, "the second half of the blind rotation key")?;
        // the halves do not share masks
        let both: Vec<Vec<u64>> = pools[0].masks.iter().zip(&pools[1].masks).map(|(a, b)| a.iter().zip(b).map(|(&x, &y)| subm(x, y, p)).collect()).collect();
        masks_fit(g, &both, p, "differences of the masks of both halves of the blind rotation key")?;
        let both: Vec<i64> = pools[0].noise.iter().flatten().zip(pools[1].noise.iter().flatten()).map(|(x, y)| x + y).collect();
        if pmf.len() < 2000 {
            pmf_fit(&both, &convolve(&pmf, &pmf), "sums of the noise of both halves of the blind rotation key")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

/// Is `r` the nearest integer of x * after / before, modulo `after`?
fn rescaled(r: u64, x: u64, before: u64, after: u64) -> R {
    let exact = x as u128 * after as u128;
    let slack = before as u128 / 2 + (exact >> 51);
    let ok = |r: u128| (r * before as u128).abs_diff(exact) <= slack;
    ensure!(r < after, "{x} modulo {before} becomes {r}, which is not below {after}");
    ensure!(ok(r as u128) || (r == 0 && ok(after as u128)), "{x} modulo {before} becomes {r} modulo {after}");
    Ok(())
}
fn all_rescaled(out: &Comp, x: &Comp, before: u64, after: u64, what: &str) -> R {
    same!(out.0.len(), x.0.len(), "{what}: dimension");
    for (&r, &v) in out.0.iter().chain([&out.1]).zip(x.0.iter().chain([&x.1])) {
        rescaled(r, v, before, after).map_err(|e| format!("{what}: {e}"))?;
    }
    Ok(())
}
/// values around those that lie half-way between two results
fn tie(g: &mut G, before: u64, after: u64) -> u64 {
    let r = g.edge(0, after - 1) as u128;
    let x = (2 * r + 1) * before as u128 / (2 * after as u128);
    (x as i128 + g.draw(3) as i128 - 1).clamp(0, before as i128 - 1) as u64
}
fn components(g: &mut G, n: usize, before: u64, after: u64) -> Comp {
    let mut c: Comp = (g.vec(n, before), g.edge(0, before - 1));
    for _ in 0..g.us(0, 4) {
        let v = tie(g, before, after);
        match g.us(0, n) {
            0 => c.1 = v,
            i => c.0[i - 1] = v,
        }
    }
    c
}

fn switch_field<C: W, Q: Fx>(g: &mut G) -> R {
    let n = g.len(40);
    let after = 1u64 << g.us(1, C::B as usize - 1);
    let x = components(g, n, Q::P, after);
    g.note(|| format!("{} to {after} in u{}: {x:?}", Q::NAME, C::B));
    g.hit_if(n > 0);
    g.label(if after > Q::P { "to a larger modulus" } else { "to a smaller modulus" });
    let c = LWE::<Q>::new(fv(&x.0), Q::mk(x.1));
    let first = comp(&lwe_modulus_switch(c.clone(), C::mk(after)));
    all_rescaled(&first, &x, Q::P, after, "lwe_modulus_switch")?;
    let dirty: Comp = (g.vec(n, after), g.edge(0, after - 1));
    let mut d = cipher::<C>(&dirty);
    lwe_modulus_switch_inplace(c, C::mk(after), &mut d);
    same!(comp(&d), first, "lwe_modulus_switch_inplace");
    Ok(())
}
fn switch_word<C: W>(g: &mut G) -> R {
    let n = g.len(40);
    let (before, after) = (1u64 << g.us(1, C::B as usize - 1), 1u64 << g.us(1, C::B as usize - 1));
    let x = components(g, n, before, after);
    g.note(|| format!("{before} to {after} in u{}: {x:?}", C::B));
    g.hit_if(n > 0 && before != after);
    g.label(if after > before { "to a larger modulus" } else if after < before { "to a smaller modulus" } else { "to the same modulus" });
    let mut c = cipher::<C>(&x);
    lwe_modulus_switch_assign_between_modulus(&mut c, C::mk(before), C::mk(after));
    let out = comp(&c);
    all_rescaled(&out, &x, before, after, "lwe_modulus_switch_assign_between_modulus")?;
    if after >= before && before <= 1 << 53 {
        // scaling up is exact
        same!(out, map(&x, |v| v * (after / before)), "scaling up from {before} to {after}");
    }
    Ok(())
}
/// every value for small moduli
fn switch_all(g: &mut G) -> R {
    g.hit();
    let after = 1u64 << (1 + g.turn(15));
    g.note(|| format!("all values, to {after}"));
    fn one<C: W, Q: Fx>(after: u64) -> R {
        let x: Comp = ((0..Q::P).collect(), Q::P - 1);
        all_rescaled(&comp(&lwe_modulus_switch(LWE::<Q>::new(fv(&x.0), Q::mk(x.1)), C::mk(after))), &x, Q::P, after, Q::NAME)
    }
    if after < 256 {
        one::<u8, A3>(after)?;
        one::<u8, A59>(after)?;
        one::<u8, N257>(after)?;
        one::<u8, N12289>(after)?;
    }
    one::<u16, A3>(after)?;
    one::<u16, N17>(after)?;
    one::<u16, N257>(after)?;
    one::<u16, N7681>(after)?;
    one::<u16, N12289>(after)?;
    one::<u32, N15361>(after)?;
    for k in 1..=15 {
        let before = 1u64 << k;
        let x: Comp = ((0..before).collect(), before - 1);
        let mut c = cipher::<u16>(&x);
        lwe_modulus_switch_assign_between_modulus(&mut c, before as u16, after as u16);
        all_rescaled(&comp(&c), &x, before, after, "u16")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn switch_lwe<C: W, Q: Nx>(g: &mut G) -> R {
    let large = g.one_in(400);
    let mut s = spec::<C, Q>(g, if large { 11 } else { 6 });
    g.label_if(s.big > 500, "large ring");
    let k = g.us(1, C::B as usize - 1);
    s.q = 1 << k;
    s.t = 2;
    s.n = match g.draw(3) {
        0 => g.us(0, 3),
        _ if large => g.us(1, 600),
        _ => g.us(1, 48),
    };
    // the key has N * len * (B - 1) rows
    let wide = (30_000 / (s.big * s.n.max(4))).max(2).ilog2() as usize;
    s.kb = g.us(1, k.min(wide.max(1))) as u32;
    let len = k.div_ceil(s.kb as usize);
    let count = s.big * len;
    s.ksd = if g.one_in(3) { 0.0 } else { deviation(g, s.q / 2 - s.q.min(4) / 4) };
    s.sd = deviation(g, s.q / 2 - s.q.min(4) / 4);
    let e = top(s.ksd);
    g.note(|| format!("u{} {} {s:?}", C::B, Q::NAME));
    let mut rng = key_rng(g, s.n);
    let pack = s.pack::<C, Q, _>(&mut rng)?;
    let key = lwe_key(&pack);
    let q = s.q;
    let z = rekey(&ring_key(&pack), Q::P, q);
    let ks = KeySwitchingLWEKey::<C>::generate(&pack, &mut rng);
    g.hit_if(s.n > 0 && len > 1 && z.iter().any(|&x| x != 0));
    g.label_if(e == 0, "exact");
    for round in 0..3 {
        let x: Comp = match (round, g.draw(4)) {
            (_, 0) => (vec![0; s.big], g.edge(0, q - 1)),
            (_, 1) => (vec![q - 1; s.big], g.edge(0, q - 1)),
            _ => (g.vec(s.big, q), g.edge(0, q - 1)),
        };
        // nonzero digits
        let mask = (1u64 << s.kb) - 1;
        let used: u64 = x.0.iter().map(|&v| (0..len).filter(|&j| v >> (j * s.kb as usize) & mask != 0).count() as u64).sum();
        let bound = (used as u128 * e as u128).min(spread(used as f64, s.ksd));
        g.label_if(e > 0 && bound < q as u128 / 4, "noisy, well below the modulus");
        let out = comp(&ks.key_switch_for_lwe(cipher::<C>(&x)));
        let got = phase_of(&out, &key, q as u128)?;
        let d = centered(subm(got, phase(&x, &z, q as u128), q), q).unsigned_abs();
        ensure!(d <= bound, "key switching adds noise {d}, at most {bound} expected ({used} digits of {count}): {s:?} input {x:?}");
        // once more, from a copy of the key
        same!(comp(&ks.clone().key_switch_for_lwe(cipher::<C>(&x))), out, "a second key switch");
    }
    Ok(())
}

fn switch_rlwe<C: W, Q: Nx>(g: &mut G) -> R {
    let p = Q::P;
    let large = g.one_in(400);
    let mut s = spec::<C, Q>(g, if large { 11 } else { 8 });
    g.label_if(large && s.big > 500, "large ring");
    let cap = if large || g.one_in(12) { s.big } else { s.big.min(32) };
    s.big = cap;
    s.n = match g.draw(5) {
        0 => s.big,
        1 => s.big - 1,
        2 => 1 << g.us(0, s.big.ilog2() as usize),
        _ => g.us(1, s.big),
    }
    .max(2);
    let ext = s.n.next_power_of_two();
    let mb = (64 - p.leading_zeros()) as usize;
    s.kb = match g.draw(3) {
        0 => *g.pick(&[1, mb, mb - 1, mb.div_ceil(2)]),
        _ => g.us(1, mb),
    } as u32;
    s.steps = Steps::BrKsMs;
    s.rk = *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]);
    s.rsd = deviation(g, (p - 1) / 2 - 1);
    s.ksd = if g.one_in(3) { 0.0 } else { deviation(g, (p - 1) / 2 - 1) };
    if g.one_in(6) && s.big <= 64 {
        // equal dimensions may share one key
        s.n = s.big;
        s.steps = Steps::BrMs;
        s.rk = RingSecretKeyType::Ternary;
    }
    let ext = if s.n == s.big { s.big } else { ext };
    let len = mb.div_ceil(s.kb as usize);
    let e = ring_top(s.ksd);
    g.note(|| format!("u{} {} {s:?}", C::B, Q::NAME));
    let mut rng = key_rng(g, s.n);
    let pack = s.pack::<C, Q, _>(&mut rng)?;
    let key = lwe_rekey(&lwe_key(&pack), s.q, p);
    let z = ring_key(&pack);
    let ks = KeySwitchingRLWEKey::<Q>::generate(&pack, &mut rng);
    let terms = (s.big * len) as f64;
    let digit = ((1u128 << s.kb) - 1).min(p as u128 - 1);
    let bound = (terms as u128 * digit * e as u128).min(spread(terms * (digit as f64).powi(2), s.ksd));
    g.hit_if(len > 1 && z.iter().any(|&x| x != 0));
    g.label_if(e == 0, "exact");
    g.label_if(e > 0 && bound < p as u128 / 4, "noisy, well below the modulus");
    g.label_if(s.n != ext, "dimension not a power of two");
    g.label_if(ext < s.big, "several chunks");
    for _ in 0..2 {
        let x: Ring = match g.draw(4) {
            0 => (vec![0; s.big], g.vec(s.big, p)),
            1 => (vec![p - 1; s.big], g.vec(s.big, p)),
            _ => (g.vec(s.big, p), g.vec(s.big, p)),
        };
        // the constant coefficient of the phase
        let mut want = subm(x.1[0], mulm(x.0[0], z[0], p), p);
        for i in 1..s.big {
            want = addm(want, mulm(x.0[s.big - i], z[i], p), p);
        }
        let check = |what: &str, out: LWE<Q>| -> Result<Comp, String> {
            let out: Comp = (uv(out.a()), out.b().u());
            let d = centered(subm(phase_of(&out, &key, p as u128)?, want, p), p).unsigned_abs();
            ensure!(d <= bound, "{what} adds noise {d}, at most {bound} expected: {s:?} input {x:?}");
            Ok(out)
        };
        let r = rl::<Q>(&x);
        let first = check("key_switch_for_rlwe", ks.key_switch_for_rlwe(r.clone()))?;
        check("key_switch_for_lwe of the extracted ciphertext", ks.key_switch_for_lwe(r.extract_lwe()))?;
        let again = ks.clone().key_switch_for_rlwe(r);
        same!((uv(again.a()), again.b().u()), first, "a second key switch");
        // an LWE ciphertext of its own
        let y: Comp = (g.vec(s.big, p), g.edge(0, p - 1));
        let out = ks.key_switch_for_lwe(LWE::new(fv(&y.0), Q::mk(y.1)));
        let out: Comp = (uv(out.a()), out.b().u());
        let d = centered(subm(phase_of(&out, &key, p as u128)?, phase(&y, &z, p as u128), p), p).unsigned_abs();
        ensure!(d <= bound, "key_switch_for_lwe adds noise {d}, at most {bound} expected: {s:?} input {y:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

struct Rot<C: W, Q: Nx> {
    s: Spec,
    /// the LWE key modulo 2N, the ring key
    key: Vec<u64>,
    z: Vec<u64>,
    br: BlindRotationKey<Q>,
    bound: u128,
    _c: std::marker::PhantomData<C>,
}
fn rot<C: W, Q: Nx>(g: &mut G, log: u32, dims: usize) -> Result<Rot<C, Q>, String> {
    let p = Q::P;
    // components below 2N have to fit the word
    let mut s = spec::<C, Q>(g, log.min(C::B - 1));
    s.n = match g.draw(4) {
        0 => g.us(0, 2),
        _ => g.us(1, dims),
    };
    s.q = s.q.max(4);
    s.t = 2;
    s.steps = Steps::BrKsMs;
    s.rk = *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]);
    s.rsd = if g.one_in(4) { 0.0 } else { deviation(g, (p - 1) / 2 - 1) };
    let mb = (64 - p.leading_zeros()) as usize;
    s.bb = match g.draw(4) {
        0 => *g.pick(&[1, mb, mb - 1, mb.div_ceil(2)]),
        _ => g.us(1, mb),
    } as u32;
    let len = mb.div_ceil(s.bb as usize);
    let mut rng = key_rng(g, s.n);
    let pack = s.pack::<C, Q, _>(&mut rng)?;
    let key = lwe_rekey(&lwe_key(&pack), s.q, 2 * s.big as u64);
    let z = ring_key(&pack);
    let br = BlindRotationKey::generate(&pack, &mut rng);
    let digit = ((1u128 << s.bb) - 1).min(p as u128 - 1);
    let terms = (s.n * 2 * len * s.big) as f64;
    let twice = if s.lk == LWESecretKeyType::Ternary { 2 } else { 1 };
    let e = ring_top(s.rsd);
    let bound = (terms as u128 * digit * e as u128 * twice).min(spread(terms * (digit as f64).powi(2) * twice as f64, s.rsd));
    g.label(if twice == 2 { "ternary" } else { "binary" });
    g.label_if(e == 0, "exact");
    g.label_if(e > 0 && bound < p as u128 / 4, "noisy, well below the modulus");
    g.label_if(s.n > 0 && key.iter().all(|&x| x == 0), "key all zero");
    g.label_if(s.n > 0 && key.iter().all(|&x| x == 1), "key all one");
    g.label_if(s.n > 0 && key.iter().all(|&x| x > 1), "key all minus one");
    g.note(|| format!("u{} {} {s:?} key {key:?}", C::B, Q::NAME));
    Ok(Rot { s, key, z, br, bound, _c: std::marker::PhantomData })
}
impl<C: W, Q: Nx> Rot<C, Q> {
    fn check(&self, lut: &[u64], c: &Comp) -> R {
        let p = Q::P;
        let two = 2 * self.s.big as u64;
        let x = cipher::<C>(c);
        let out = self.br.blind_rotate(Polynomial::<Q>::new(fv(lut)), &x, Basis::new(self.s.bb));
        let got = of(&out);
        ensure!(got.0.iter().chain(&got.1).all(|&v| v < p) && got.0.len() == self.s.big && got.1.len() == self.s.big, "the result is not canonical");
        let ph = phase(c, &self.key, two as u128);
        let want = mul_monomial(lut, ((two - ph) % two) as usize, p);
        let d = off(&ring_phase(&got, &self.z, p), &want, p);
        // zero entries of the mask add nothing
        let used = c.0.iter().filter(|&&v| v != 0).count();
        let bound = if used == 0 { 0 } else { self.bound };
        ensure!(d <= bound, "blind rotation of {lut:?} by the ciphertext {c:?} (phase {ph}): noise {d}, at most {bound} expected: {:?} key {:?}", self.s, self.key);
        let again = self.br.clone().blind_rotate(Polynomial::<Q>::new(fv(lut)), &x, Basis::new(self.s.bb));
        ensure!(again == out, "blind rotation is not deterministic");
        same!(comp(&x), *c, "operand");
        Ok(())
    }
}

fn rotate<C: W, Q: Nx>(g: &mut G) -> R {
    let log = if g.one_in(15) { 8 } else { 5 };
    let r = rot::<C, Q>(g, log, 12)?;
    let two = 2 * r.s.big as u64;
    g.hit_if(r.s.n > 0 && r.key.iter().any(|&x| x != 0));
    for _ in 0..3 {
        let lut = g.vec(r.s.big, Q::P);
        let c: Comp = match g.draw(4) {
            0 => (vec![0; r.s.n], g.int(0, two - 1)),
            1 => (vec![[1, two / 2, two - 1, two / 2 - 1, two / 2 + 1][g.us(0, 4)] % two; r.s.n], g.int(0, two - 1)),
            _ => (g.vec(r.s.n, two), g.edge(0, two - 1)),
        };
        r.check(&lut, &c)?;
    }
    Ok(())
}
/// one dimension: every mask entry and every b
fn every_phase<C: W, Q: Nx>(g: &mut G) -> R {
    let mut r = rot::<C, Q>(g, 4, 2)?;
    g.hit();
    let two = 2 * r.s.big as u64;
    let lut = g.vec(r.s.big, Q::P);
    if r.s.n == 0 {
        for b in 0..two {
            r.check(&lut, &(vec![], b))?;
        }
        return Ok(());
    }
    let i = g.us(0, r.s.n - 1);
    r.s.n = r.key.len();
    for a in 0..two {
        for b in 0..two {
            if two > 16 && (a * 7 + b * 3) % 5 != 0 {
                continue;
            }
            let mut v = vec![0; r.s.n];
            v[i] = a;
            r.check(&lut, &(v, b))?;
        }
    }
    Ok(())
}
/// the shipped sizes
fn full_size(g: &mut G) -> R {
    g.hit();
    let ternary = g.turn(2) == 0;
    let s = Spec {
        n: g.us(400, 600),
        t: 4,
        q: 2048,
        sd: 3.2,
        lk: if ternary { LWESecretKeyType::Ternary } else { LWESecretKeyType::Binary },
        big: 1024,
        rsd: 6.4,
        rk: *g.pick(&[RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian]),
        bb: g.us(3, 9) as u32,
        kb: 3,
        ksd: 3.2,
        steps: Steps::BrKsMs,
    };
    g.note(|| format!("{s:?}"));
    let mut rng = ChaCha12Rng::seed_from_u64(g.draw(0));
    let pack = s.pack::<u16, N27, _>(&mut rng)?;
    let key = lwe_rekey(&lwe_key(&pack), s.q, 2048);
    let z = ring_key(&pack);
    let br = BlindRotationKey::generate(&pack, &mut rng);
    let len = 27usize.div_ceil(s.bb as usize);
    let digit = ((1u64 << s.bb) - 1) as f64;
    let bound = spread((s.n * 2 * len * 1024 * if ternary { 2 } else { 1 }) as f64 * digit * digit, s.rsd);
    for _ in 0..2 {
        let lut = g.vec(1024, N27::P);
        let c: Comp = (g.vec(s.n, 2048), g.edge(0, 2047));
        let out = of(&br.blind_rotate(Polynomial::<N27>::new(fv(&lut)), &cipher::<u16>(&c), Basis::new(s.bb)));
        let ph = phase(&c, &key, 2048);
        let want = mul_monomial(&lut, ((2048 - ph) % 2048) as usize, N27::P);
        let d = off(&ring_phase(&out, &z, N27::P), &want, N27::P);
        ensure!(d <= bound, "noise {d}, at most {bound} expected: {s:?}");
    }
    Ok(())
}

macro_rules! combos {
    ($v:ident, $name:literal, $f:ident, [$($c:ident $q:ident),*], $quick:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($c), "-", stringify!($q)), $quick, $th, $rule, $f::<$c, $q>)); )*
    };
}
macro_rules! each {
    ($v:ident, $name:literal, $f:ident, [$($t:ident),*], $q:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($t)), $q, $th, $rule, $f::<$t>)); )*
    };
}

fn main() {
    let mut c19 = vec![];
    combos!(c19, "construct", construct, [u8 N257, u16 N12289, u16 N27, u32 N30, u32 N12289w, u64 N50, u64 N62], 300_000, 4_000_000, "parameter sets with at most a few defects, all accessors; non-trivial: refused, or N above 2");
    combos!(c19, "keys", keys, [u8 N257, u16 N12289, u16 N27, u32 N30, u64 N50, u64 N62], 100_000, 1_500_000, "keys of every type and step order, patterned generators; non-trivial: LWE dimension above 0");
    combos!(c19, "key-shares", key_shares, [u8 N257, u16 N27, u32 N30, u64 N62], 600, 10_000, "1200 key pairs each, shares by position and between positions");
    c19.push(sub("shipped", 32, 500, "both shipped sets: sane values, keys, encryption", shipped));

    let mut c20 = vec![];
    each!(c20, "codec", codec, [u8, u16, u32, u64], 2_000_000, 40_000_000, "t <= q, all message types, messages in and out of the space, noise up to half a step; non-trivial: t above 1");
    c20.push(sub("codec-all", 14, 14, "every t, message and value for q up to 2^13", codec_all));
    combos!(c20, "encryption", encryption, [u8 N257, u16 N12289, u16 N27, u32 N30, u64 N50, u64 N62], 400_000, 8_000_000, "4 encryptions, combinations, an arbitrary ciphertext, dimension 0..80; non-trivial: dimension and noise above 0");

    let mut c21 = vec![];
    let rule = "1500 encryptions under one key; non-trivial: there is noise";
    combos!(c21, "fresh", fresh, [u8 N257, u16 N27, u32 N30, u64 N62], 300, 6_000, rule);
    each!(c21, "ring-samples", ring_samples, [N257, N12289, N27, N30, N50, N62], 500, 10_000, "600 rows of one kind of sample; non-trivial: there is noise");
    each!(c21, "lwe-samples", lwe_samples, [u8, u16, u32, u64], 300, 6_000, "1500 zero samples; non-trivial: there is noise");
    combos!(c21, "lwe-switch-rows", lwe_switch_rows, [u8 N257, u16 N27, u32 N30, u64 N62], 250, 5_000, "every row of LWE key switching keys, at least 1500; non-trivial: there is noise");
    combos!(c21, "ring-switch-rows", ring_switch_rows, [u8 N257, u16 N27, u32 N30, u64 N62], 250, 5_000, "every row of RLWE key switching keys, at least 600; non-trivial: there is noise");
    combos!(c21, "rotation-rows", rotation_rows, [u8 N257, u16 N27, u32 N30, u64 N62], 250, 5_000, "every message row of blind rotation keys, at least 500; non-trivial: there is noise");

    let mut c22 = vec![];
    combos!(c22, "field", switch_field, [u8 A3, u8 A59, u8 N257, u8 N12289, u16 N257, u16 N12289, u16 N27, u16 N62, u32 N12289w, u32 N27, u32 Cmax, u64 N30, u64 N50, u64 Dmax, u64 N62], 800_000, 15_000_000, "dimension 0..40, values at and around ties; non-trivial: dimension above 0");
    each!(c22, "word", switch_word, [u8, u16, u32, u64], 2_000_000, 30_000_000, "dimension 0..40, all pairs of powers of two, values at and around ties; non-trivial: dimension above 0, different moduli");
    c22.push(sub("all", 15, 15, "every value of small moduli", switch_all));

    let mut c23 = vec![];
    combos!(c23, "lwe", switch_lwe, [u8 N257, u16 N12289, u16 N27, u32 N30, u64 N50, u64 N62], 25_000, 600_000, "LWE-based, binary and ternary keys, exact and noisy, three ciphertexts each; non-trivial: several digits, keys not zero");
    combos!(c23, "rlwe", switch_rlwe, [u8 N257, u16 N12289, u16 N27, u32 N30, u64 N50, u64 N62], 50_000, 1_000_000, "RLWE-based, dimensions 1..N, exact and noisy, RLWE and LWE inputs; non-trivial: several digits, keys not zero");

    let mut c24 = vec![];
    combos!(c24, "rotate", rotate, [u8 N257, u16 N12289, u16 N27, u32 N30, u64 N50, u64 N62], 30_000, 600_000, "LWE dimension 0..12, N = 2^1..2^8, three tables and ciphertexts each; non-trivial: the key is not zero");
    combos!(c24, "every-phase", every_phase, [u8 N257, u16 N12289, u16 N27, u32 N30, u64 N62], 1_000, 20_000, "one mask entry, all (N <= 8) or a fifth of the values of it and of b");
    c24.push(sub("full-size", 32, 500, "N = 1024, LWE dimension 400..600, basis widths 3..9", full_size));

    harness::engine::main(vec![
        Prop { id: "C19", subs: c19, assumptions: &["standard deviations are finite and not negative", "blind rotation basis width from 1 to the modulus width", "the ring modulus is not 0"] },
        Prop { id: "C20", subs: c20, assumptions: &["t and q are powers of two, q at most 2^63"] },
        Prop { id: "C21", subs: c21, assumptions: &["noise fits the modulus", "a failure needs a deviation that chance produces with probability below e^-40"] },
        Prop { id: "C22", subs: c22, assumptions: &["the new modulus is a power of two", "double precision: a relative error of 2^-51 of the exact value"] },
        Prop { id: "C23", subs: c23, assumptions: &["LWE-based switching: binary and ternary ring keys (Gaussian keys are unimplemented for that step order)", "RLWE-based switching: LWE dimension at least 2 (there is no transform of length one)"] },
        Prop { id: "C24", subs: c24, assumptions: &["components below 2N"] },
    ])
}
