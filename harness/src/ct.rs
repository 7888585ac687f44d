//! Ciphertexts as plain numbers, and back.

use crate::engine::*;
use crate::fieldset::*;
use crate::oracle::*;
use crate::{ensure, same};
use algebra::{NTTPolynomial, Polynomial};
use lattice::*;

/// an RLWE ciphertext as coefficient vectors
pub type Ring = (Vec<u64>, Vec<u64>);

/// an LWE ciphertext as its components
pub type Comp = (Vec<u64>, u64);

pub fn fv<F: Fx>(v: &[u64]) -> Vec<F> {
    v.iter().map(|&x| F::mk(x)).collect()
}

pub fn uv<F: Fx>(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| x.u()).collect()
}

/// arithmetic modulo any m up to 2^64
pub fn m_mul(a: u64, b: u64, m: u128) -> u64 {
    (a as u128 * b as u128 % m) as u64
}

pub fn m_add(a: u64, b: u64, m: u128) -> u64 {
    ((a as u128 + b as u128) % m) as u64
}

pub fn m_sub(a: u64, b: u64, m: u128) -> u64 {
    ((a as u128 + m - b as u128) % m) as u64
}

pub fn dot(a: &[u64], s: &[u64], m: u128) -> u64 {
    a.iter().zip(s).fold(0, |r, (&x, &y)| m_add(r, m_mul(x, y, m), m))
}

pub fn phase(c: &Comp, s: &[u64], m: u128) -> u64 {
    m_sub(c.1, dot(&c.0, s, m), m)
}

pub fn zip(x: &Comp, y: &Comp, f: impl Fn(u64, u64) -> u64) -> Comp {
    (x.0.iter().zip(&y.0).map(|(&a, &b)| f(a, b)).collect(), f(x.1, y.1))
}

pub fn map(x: &Comp, f: impl Fn(u64) -> u64) -> Comp {
    (x.0.iter().map(|&a| f(a)).collect(), f(x.1))
}

pub fn phase_of(c: &Comp, s: &[u64], m: u128) -> Result<u64, String> {
    same!(c.0.len(), s.len(), "dimension");
    ensure!(c.0.iter().chain([&c.1]).all(|&x| (x as u128) < m), "a component is not below the modulus {m}: {c:?}");
    Ok(phase(c, s, m))
}

/// the transform of a polynomial
pub fn nt<F: Nx>(v: &[u64]) -> NTTPolynomial<F> {
    Polynomial::<F>::new(fv(v)).into_ntt_polynomial()
}

/// the polynomial behind a (possibly lazily reduced) transformed one
pub fn un<F: Nx>(v: &NTTPolynomial<F>) -> Vec<u64> {
    let c: Vec<u64> = v.as_slice().iter().map(|x| x.u() % F::P).collect();
    uv(NTTPolynomial::<F>::new(fv(&c)).into_native_polynomial().as_slice())
}

pub fn rl<F: Nx>(c: &Ring) -> RLWE<F> {
    RLWE::new(Polynomial::new(fv(&c.0)), Polynomial::new(fv(&c.1)))
}

pub fn nrl<F: Nx>(c: &Ring) -> NTTRLWE<F> {
    NTTRLWE::new(nt(&c.0), nt(&c.1))
}

pub fn of<F: Nx>(c: &RLWE<F>) -> Ring {
    (uv(c.a_slice()), uv(c.b_slice()))
}

pub fn nof<F: Nx>(c: &NTTRLWE<F>) -> Ring {
    (un(c.a()), un(c.b()))
}

pub fn canonical<F: Nx>(c: &NTTRLWE<F>) -> bool {
    c.a_slice().iter().chain(c.b_slice()).all(|x| x.u() < F::P)
}

pub fn ring_phase(c: &Ring, s: &[u64], p: u64) -> Vec<u64> {
    negacyclic(&c.0, s, p).iter().zip(&c.1).map(|(&x, &b)| subm(b, x, p)).collect()
}

pub fn ring2(x: &Ring, y: &Ring, f: impl Fn(u64, u64) -> u64) -> Ring {
    (x.0.iter().zip(&y.0).map(|(&a, &b)| f(a, b)).collect(), x.1.iter().zip(&y.1).map(|(&a, &b)| f(a, b)).collect())
}

pub fn ring1(x: &Ring, f: impl Fn(&[u64]) -> Vec<u64>) -> Ring {
    (f(&x.0), f(&x.1))
}

/// the distance of two polynomials
pub fn off(x: &[u64], y: &[u64], p: u64) -> u128 {
    x.iter().zip(y).map(|(&a, &b)| centered(subm(a, b, p), p).unsigned_abs()).max().unwrap_or(0)
}

pub fn small(v: &[u64], bound: u64, p: u64) -> Option<i128> {
    v.iter().map(|&x| centered(x, p)).find(|e| e.abs() > bound as i128)
}
