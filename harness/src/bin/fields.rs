//! C08 generated field types, C09 gadget decomposition, C13 polynomial arithmetic.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Once;

use algebra::transformation::AbstractNTT;
use algebra::utils as autils;
use algebra::{
    ntt_add_mul_assign, ntt_add_mul_assign_fast, ntt_add_mul_inplace, Basis, NTTPolynomial, NegOne, Polynomial,
};
use harness::engine::*;
use harness::fieldset::*;
use harness::oracle::*;
use harness::{ensure, same};
use num_traits::Inv;

fn hash_of<T: Hash>(x: T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn fv<F: Fx>(v: &[u64]) -> Vec<F> {
    v.iter().map(|&x| F::mk(x)).collect()
}
fn uv<F: Fx>(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| x.u()).collect()
}

// --------------------------------------------------------------------- C08

/// an element: 0, 1, p-1, edge biased or uniform
fn elem(g: &mut G, p: u64) -> u64 {
    g.edge(0, p - 1)
}

fn ops_on<F: Fx>(a: u64, b: u64, e: u64) -> R {
    let p = F::P;
    let (x, y) = (F::mk(a), F::mk(b));
    macro_rules! forms {
        ($op:tt, $opa:tt, $want:expr, $n:expr) => {{
            let want = $want;
            same!((x $op y).u(), want, "{} {a} {} {b}", F::NAME, $n);
            same!((x $op &y).u(), want, "{} {a} {} &{b}", F::NAME, $n);
            let mut z = x;
            z $opa y;
            same!(z.u(), want, "{} {a} {}= {b}", F::NAME, $n);
            let mut z = x;
            z $opa &y;
            same!(z.u(), want, "{} {a} {}= &{b}", F::NAME, $n);
        }};
    }
    forms!(+, +=, addm(a, b, p), "+");
    forms!(-, -=, subm(a, b, p), "-");
    forms!(*, *=, mulm(a, b, p), "*");
    same!((-x).u(), negm(a, p), "{} -{a}", F::NAME);
    if b != 0 {
        let inv = invm(b, p).ok_or("oracle: no inverse")?;
        forms!(/, /=, mulm(a, inv, p), "/");
        same!(y.inv().u(), inv, "{} inv({b})", F::NAME);
    }
    same!(x.powx(e).u(), powm(a, e as u128, p), "{} {a}^{e}", F::NAME);
    same!(x == y, a == b, "eq");
    same!(x.cmp(&y), a.cmp(&b), "cmp");
    same!(x.partial_cmp(&y), Some(a.cmp(&b)), "partial_cmp");
    if a == b {
        same!(hash_of(x), hash_of(y), "hash of equal elements");
    }
    Ok(())
}

fn ops<F: Fx>(g: &mut G) -> R {
    let p = F::P;
    let (a, b) = (elem(g, p), elem(g, p));
    let e = if g.one_in(3) { p.wrapping_sub(g.int(0, 3)).min(F::word_max()) } else { g.edge(0, F::word_max()) };
    g.note(|| format!("{} a={a} b={b} e={e}", F::NAME));
    g.hit_if(a > 1 && b > 1);
    g.label_if(a as u128 + b as u128 >= p as u128, "sum wraps");
    g.label_if(b == 0, "zero divisor");
    ops_on::<F>(a, b, e)?;
    if b == 0 && g.one_in(16) {
        ensure!(no_panic(|| F::mk(a) / F::mk(0)).is_none(), "{}: {a} / 0 was accepted", F::NAME);
        let mut z = F::mk(a);
        ensure!(no_panic(move || z /= F::mk(0)).is_none(), "{}: {a} /= 0 was accepted", F::NAME);
    }
    Ok(())
}

/// every pair of elements of a small field
fn small<F: Fx>(g: &mut G) -> R {
    let a = g.turn(F::P);
    g.hit();
    for b in 0..F::P {
        ops_on::<F>(a, b, (a * 7 + b) & F::word_max())?;
        for c in [0, 1, F::P - 1, a, b] {
            fused_on::<F>(c, a, b)?;
        }
        for c in [0, 1, F::P - 1, 2 * F::P - 1, a + F::P] {
            lazy_on::<F>(c, a + F::P, b)?;
            lazy_on::<F>(c, a + F::P, b + F::P)?;
        }
    }
    Ok(())
}

fn fused_on<F: Fx>(c: u64, a: u64, b: u64) -> R {
    let p = F::P;
    let want = addm(c % p, mulm(a, b, p), p);
    same!(F::mk(c).add_mul(F::mk(a), F::mk(b)).u(), want, "{} {c} + {a}*{b}", F::NAME);
    let mut z = F::mk(c);
    z.add_mul_assign(F::mk(a), F::mk(b));
    same!(z.u(), want, "{} add_mul_assign {c} + {a}*{b}", F::NAME);
    lazy_on::<F>(c, a, b)
}
fn lazy_on<F: Fx>(c: u64, a: u64, b: u64) -> R {
    let p = F::P;
    let ok = |r: u64, want: u64, what: &str| -> R {
        ensure!(r % p == want && (r as u128) < 2 * p as u128, "{} {what} c={c} a={a} b={b}: {r}, want {want} or {want}+p", F::NAME);
        Ok(())
    };
    let m = mulm(a, b, p);
    ok(F::mk(a).mul_fast(F::mk(b)).u(), m, "mul_fast")?;
    let mut z = F::mk(a);
    z.mul_assign_fast(F::mk(b));
    ok(z.u(), m, "mul_assign_fast")?;
    let s = addm(c % p, m, p);
    ok(F::mk(c).add_mul_fast(F::mk(a), F::mk(b)).u(), s, "add_mul_fast")?;
    let mut z = F::mk(c);
    z.add_mul_assign_fast(F::mk(a), F::mk(b));
    ok(z.u(), s, "add_mul_assign_fast")
}

fn fused<F: Fx>(g: &mut G) -> R {
    let p = F::P;
    let lazy = g.bool();
    let hi = if lazy { 2 * p - 1 } else { p - 1 };
    let (a, b, c) = (g.edge(0, hi), g.edge(0, hi), g.edge(0, hi));
    g.note(|| format!("{} c={c} a={a} b={b}", F::NAME));
    g.hit_if(a > 1 && b > 1);
    g.label_if(a >= p || b >= p || c >= p, "lazy operand");
    if lazy && (a >= p || b >= p || c >= p) {
        lazy_on::<F>(c, a, b)?;
        // a chain of lazy accumulations stays below 2p and congruent
        let n = g.us(2, 12);
        let (mut acc, mut want) = (F::mk(c), c % p);
        for _ in 0..n {
            let (u, v) = (elem(g, p), elem(g, p));
            acc.add_mul_assign_fast(F::mk(u), F::mk(v));
            want = addm(want, mulm(u, v, p), p);
        }
        ensure!(acc.u() % p == want && acc.u() < 2 * p, "{} lazy chain of {n}: {}, want {want}", F::NAME, acc.u());
    } else {
        fused_on::<F>(c, a, b)?;
    }
    Ok(())
}

fn words<F: Fx>(g: &mut G) -> R {
    let p = F::P;
    let w = if g.one_in(3) {
        // around a multiple of p
        let k = g.edge(0, F::word_max() / p);
        (k as u128 * p as u128 + g.int(0, 4) as u128).saturating_sub(2).min(F::word_max() as u128) as u64
    } else {
        g.edge(0, F::word_max())
    };
    let want = w % p;
    g.note(|| format!("{} word={w}", F::NAME));
    g.hit_if(w >= p);
    g.label_if(w % p == 0, "multiple of p");
    let x = F::new(F::val(w));
    same!(x.u(), want, "{} new({w})", F::NAME);
    same!(F::lazy_new(F::val(w)).u(), w, "{} lazy_new({w})", F::NAME);
    same!(F::unval(F::MODULUS_VALUE), p, "{} MODULUS_VALUE", F::NAME);
    // predicates and constants
    same!(x.is_zero(), want == 0, "{} is_zero({want})", F::NAME);
    same!(x.is_one(), want == 1 % p, "{} is_one({want})", F::NAME);
    same!(x.is_neg_one(), want == p - 1, "{} is_neg_one({want})", F::NAME);
    for (v, e, n) in [
        (F::zero(), 0, "zero()"),
        (F::ZERO, 0, "ZERO"),
        (F::default(), 0, "default()"),
        (F::one(), 1, "one()"),
        (F::ONE, 1, "ONE"),
        (<F as NegOne>::neg_one(), p - 1, "NegOne::neg_one()"),
        (F::NEG_ONE, p - 1, "NEG_ONE"),
        (F::neg_onef(), p - 1, "neg_one()"),
        (F::maxf(), p - 1, "max()"),
    ] {
        same!(v.u(), e, "{} {n}", F::NAME);
    }
    let mut z = x;
    z.set_zero();
    same!(z.u(), 0, "set_zero");
    let mut z = x;
    z.set_one();
    same!(z.u(), 1, "set_one");
    let mut z = x;
    z.set_neg_one();
    same!(z.u(), p - 1, "set_neg_one");
    // text
    same!(format!("{x}"), format!("{want}"), "Display");
    same!(format!("{x:?}"), format!("{}({want})", F::NAME), "Debug");
    // serialisation
    let js = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    same!(js, want.to_string(), "{} JSON", F::NAME);
    same!(serde_json::from_str::<F>(&js).map_err(|e| e.to_string())?, x, "{} JSON round trip", F::NAME);
    let bin = bincode::serialize(&x).map_err(|e| e.to_string())?;
    same!(bin, want.to_le_bytes()[..F::W as usize / 8].to_vec(), "{} bincode", F::NAME);
    same!(bincode::deserialize::<F>(&bin).map_err(|e| e.to_string())?, x, "{} bincode round trip", F::NAME);
    let any = bincode::deserialize::<F>(&w.to_le_bytes()[..F::W as usize / 8]).map_err(|e| e.to_string())?;
    same!(any.u(), want, "{} deserialising the word {w}", F::NAME);
    same!(serde_json::from_str::<F>(&w.to_string()).map_err(|e| e.to_string())?.u(), want, "{} deserialising the number {w}", F::NAME);
    if F::W < 64 {
        let big = F::word_max() + 1 + w;
        ensure!(serde_json::from_str::<F>(&big.to_string()).is_err(), "{} deserialised {big}, which its word cannot hold", F::NAME);
    }
    // collections of elements survive as well
    let n = g.len(5);
    let v: Vec<F> = (0..n).map(|_| F::mk(elem(g, p))).collect();
    let b = bincode::serialize(&v).map_err(|e| e.to_string())?;
    same!(bincode::deserialize::<Vec<F>>(&b).map_err(|e| e.to_string())?, v, "{} vector round trip", F::NAME);
    // random elements
    let mut rng = g.rng();
    for _ in 0..4 {
        let r = F::random(&mut rng).u();
        ensure!(r < p, "{} random() returned {r}", F::NAME);
    }
    Ok(())
}

fn from_usize<F: Nx>(g: &mut G) -> R {
    let x = g.edge(0, u64::MAX);
    g.note(|| format!("{} from {x}", F::NAME));
    g.hit_if(x >= F::P);
    same!(F::from(x as usize).u(), x % F::P, "{} from usize {x}", F::NAME);
    // roots are multipliers
    let (a, r) = (elem(g, F::P), elem(g, F::P));
    let root = F::mk(r).to_root();
    same!(F::from_root(root).u(), r, "{} from_root(to_root({r}))", F::NAME);
    let want = mulm(a, r, F::P);
    same!(F::mk(a).mul_root(root).u(), want, "{} {a} mul_root {r}", F::NAME);
    let mut z = F::mk(a);
    z.mul_root_assign(root);
    same!(z.u(), want, "{} {a} mul_root_assign {r}", F::NAME);
    Ok(())
}

// --------------------------------------------------------------------- C09

fn bit_len(x: u64) -> u32 {
    64 - x.leading_zeros()
}
/// the digits by definition
fn digits(mut x: u64, bits: u32, n: usize) -> Vec<u64> {
    (0..n)
        .map(|_| {
            let d = if bits >= 64 { x } else { x & ((1 << bits) - 1) };
            x = if bits >= 64 { 0 } else { x >> bits };
            d
        })
        .collect()
}
fn recompose(d: &[u64], bits: u32) -> u128 {
    d.iter().enumerate().map(|(i, &x)| (x as u128) << (bits as usize * i)).sum()
}

fn basis_of<F: Fx>(bits: u32) -> Result<(Basis<F>, usize), String> {
    // Basis::new takes off a bit when the modulus itself is a power of two
    let mb = bit_len(F::P - if F::P.is_power_of_two() { 1 } else { 0 });
    let b = Basis::<F>::new(bits);
    let len = mb.div_ceil(bits) as usize;
    same!(b.bits(), bits, "{} basis {bits} bits()", F::NAME);
    same!(F::unval(b.basis()), 1u64 << bits, "{} basis {bits} basis()", F::NAME);
    same!(F::unval(b.mask()), (1u64 << bits) - 1, "{} basis {bits} mask()", F::NAME);
    same!(b.decompose_len(), len, "{} basis {bits} decompose_len()", F::NAME);
    Ok((b, len))
}

fn decompose_field<F: Fx>(g: &mut G) -> R {
    let p = F::P;
    let bits = g.us(1, bit_len(p) as usize) as u32;
    let x = elem(g, p);
    g.note(|| format!("{} bits={bits} x={x}", F::NAME));
    let (basis, len) = basis_of::<F>(bits)?;
    g.hit_if(x >> bits.min(63) != 0 && len > 1);
    g.label_if(len == 1, "one digit");
    g.label_if(x < p >> bits.min(63), "upper digits zero");
    let want = digits(x, bits, len);
    same!(recompose(&want, bits), x as u128, "{} bits={bits}: the announced {len} digits do not hold {x}", F::NAME);
    same!(uv(&F::mk(x).decompose(basis)), want, "{} bits={bits} decompose({x})", F::NAME);
    let mut dst = fv::<F>(&g.vec(len, p));
    F::mk(x).decompose_at(basis, &mut dst);
    same!(uv(&dst), want, "{} bits={bits} decompose_at({x}) into a used buffer", F::NAME);
    let mut y = F::mk(x);
    let got: Vec<u64> = (0..len).map(|_| y.decompose_lsb_bits(basis.mask(), basis.bits()).u()).collect();
    same!(got, want, "{} bits={bits} decompose_lsb_bits({x})", F::NAME);
    same!(y.u(), 0, "{} remainder after all digits", F::NAME);
    let mut y = F::mk(x);
    let mut got = vec![];
    let mut d = F::mk(elem(g, p));
    for _ in 0..len {
        y.decompose_lsb_bits_at(&mut d, basis.mask(), basis.bits());
        got.push(d.u());
    }
    same!(got, want, "{} bits={bits} decompose_lsb_bits_at({x})", F::NAME);
    same!(y.u(), 0, "{} remainder after all digits", F::NAME);
    Ok(())
}

fn decompose_poly<F: Fx>(g: &mut G) -> R {
    let p = F::P;
    let bits = g.us(1, bit_len(p) as usize) as u32;
    let n = if g.bool() { g.len(9) } else { 1 << g.us(0, 7) };
    let v = g.vec(n, p);
    g.note(|| format!("{} bits={bits} v={v:?}", F::NAME));
    let (basis, len) = basis_of::<F>(bits)?;
    g.hit_if(len > 1 && v.iter().any(|&x| x >> bits.min(63) != 0));
    let want: Vec<Vec<u64>> = {
        let per: Vec<Vec<u64>> = v.iter().map(|&x| digits(x, bits, len)).collect();
        (0..len).map(|i| per.iter().map(|d| d[i]).collect()).collect()
    };
    let poly = Polynomial::<F>::new(fv(&v));
    let got: Vec<Vec<u64>> = poly.clone().decompose(basis).into_iter().map(|q| uv(q.as_slice())).collect();
    same!(got, want, "{} bits={bits} Polynomial::decompose", F::NAME);
    let mut dst: Vec<Polynomial<F>> = (0..len).map(|_| Polynomial::new(fv(&g.vec(n, p)))).collect();
    let mut src = poly.clone();
    src.decompose_inplace(basis, &mut dst);
    let got: Vec<Vec<u64>> = dst.iter().map(|q| uv(q.as_slice())).collect();
    same!(got, want, "{} bits={bits} Polynomial::decompose_inplace", F::NAME);
    ensure!(src.is_zero(), "{} decompose_inplace leaves a remainder", F::NAME);
    let mut src = poly;
    let mut d = fv::<F>(&g.vec(n, p));
    for (i, w) in want.iter().enumerate() {
        src.decompose_lsb_bits_inplace(basis, &mut d);
        same!(&uv(&d), w, "{} bits={bits} Polynomial::decompose_lsb_bits_inplace digit {i}", F::NAME);
    }
    ensure!(src.is_zero(), "{} decompose_lsb_bits_inplace leaves a remainder", F::NAME);
    Ok(())
}

/// the power-of-two-modulus basis of the lattice crate
fn decompose_int<T: algebra::Primitive>(g: &mut G) -> R {
    let u = |x: T| -> u64 { x.into() };
    let t = |x: u64| <T as num_traits::NumCast>::from(x).unwrap();
    let w = <T as algebra::Bits>::BITS;
    // mostly powers of two (the LWE moduli), sometimes anything
    let modulus = if g.one_in(4) { g.edge(2, if w == 64 { u64::MAX } else { (1 << w) - 1 }) } else { 1u64 << g.us(1, w as usize - 1) };
    let mb = bit_len(modulus - if modulus.is_power_of_two() { 1 } else { 0 });
    let top = if mb == w { mb - 1 } else { mb };
    let bits = g.us(1, top.max(1) as usize) as u32;
    let n = g.len(9);
    let v = g.vec(n, modulus);
    g.note(|| format!("u{w} modulus={modulus} bits={bits} v={v:?}"));
    let basis = lattice::Basis::<T>::new(bits, t(modulus));
    let len = mb.div_ceil(bits) as usize;
    same!(basis.bits(), bits as usize, "bits()");
    same!(u(basis.basis()), 1u64 << bits, "basis()");
    same!(u(basis.mask()), (1u64 << bits) - 1, "mask()");
    same!(basis.decompose_len(), len, "decompose_len()");
    g.hit_if(len > 1 && v.iter().any(|&x| x >> bits != 0));
    let mut src: Vec<T> = v.iter().map(|&x| t(x)).collect();
    let mut dst: Vec<T> = g.vec(n, if w == 64 { 0 } else { 1 << w }).iter().map(|&x| t(x)).collect();
    let per: Vec<Vec<u64>> = v.iter().map(|&x| digits(x, bits, len)).collect();
    for (d, &x) in per.iter().zip(&v) {
        same!(recompose(d, bits), x as u128, "the announced {len} digits of {bits} bits do not hold {x}");
    }
    for i in 0..len {
        lattice::decompose_lsb_bits_inplace(&mut src, basis, &mut dst);
        let got: Vec<u64> = dst.iter().map(|&x| u(x)).collect();
        let want: Vec<u64> = per.iter().map(|d| d[i]).collect();
        same!(got, want, "u{w} modulus={modulus} bits={bits} digit {i}");
    }
    ensure!(src.iter().all(|x| u(*x) == 0), "a remainder is left");
    if g.one_in(8) {
        // bases that cannot represent the values are refused
        let bad = mb + g.us(1, 8) as u32;
        ensure!(no_panic(|| lattice::Basis::<T>::new(bad, t(modulus))).is_none(), "a basis of {bad} bits was accepted for {modulus}");
    }
    Ok(())
}

/// widths above the modulus are refused
fn basis_reject<F: Fx>(g: &mut G) -> R {
    let bits = bit_len(F::P) + g.us(1, 9) as u32;
    g.hit();
    ensure!(no_panic(|| Basis::<F>::new(bits)).is_none(), "{}: a basis of {bits} bits was accepted", F::NAME);
    Ok(())
}

// --------------------------------------------------------------------- C13

fn warm() {
    static W: Once = Once::new();
    W.call_once(|| {
        fn w<F: Nx>() {
            for k in 1..F::adicity().min(11) {
                let _ = F::get_ntt_table(k);
            }
        }
        w::<N17>();
        w::<N41>();
        w::<N61>();
        w::<N257>();
        w::<N7681>();
        w::<N15361>();
        w::<N12289w>();
        w::<N27>();
        w::<N30>();
        w::<N50>();
        w::<N60>();
        w::<N62>();
    });
}

macro_rules! bin_forms {
    ($g:ident, $a:expr, $b:expr, $op:tt, $opa:tt, $want:expr, $get:expr, $what:expr) => {{
        let (a, b, want) = ($a, $b, $want);
        match $g.draw(6) {
            0 => same!($get(a.clone() $op b.clone()), want, "{} owned-owned", $what),
            1 => same!($get(a.clone() $op b), want, "{} owned-ref", $what),
            2 => same!($get(a $op b.clone()), want, "{} ref-owned", $what),
            3 => same!($get(a $op b), want, "{} ref-ref", $what),
            4 => { let mut z = a.clone(); z $opa b.clone(); same!($get(z), want, "{} assign owned", $what) }
            _ => { let mut z = a.clone(); z $opa b; same!($get(z), want, "{} assign ref", $what) }
        }
    }};
}

fn zip(a: &[u64], b: &[u64], f: impl Fn(u64, u64) -> u64) -> Vec<u64> {
    a.iter().zip(b).map(|(&x, &y)| f(x, y)).collect()
}

macro_rules! linear_case {
    ($name:ident, $P:ident) => {
        /// coefficient-wise operations of any length
        fn $name<F: Nx>(g: &mut G) -> R {
            let p = F::P;
            let n = if g.bool() { g.len(20) } else { 1 << g.us(0, 9) };
            let (a, b) = (g.vec(n, p), g.vec(n, p));
            g.note(|| format!("{} {} n={n} a={:?}.. b={:?}..", F::NAME, stringify!($P), &a[..n.min(8)], &b[..n.min(8)]));
            g.hit_if(a.iter().any(|&x| x > 1) && b.iter().any(|&x| x > 1));
            let (x, y) = (<$P<F>>::new(fv(&a)), <$P<F>>::new(fv(&b)));
            let get = |q: $P<F>| uv(&q.data());
            bin_forms!(g, &x, &y, +, +=, zip(&a, &b, |u, v| addm(u, v, p)), get, "+");
            bin_forms!(g, &x, &y, -, -=, zip(&a, &b, |u, v| subm(u, v, p)), get, "-");
            let mut d = <$P<F>>::new(fv(&g.vec(n, p)));
            x.add_inplace(&y, &mut d);
            same!(uv(d.as_slice()), zip(&a, &b, |u, v| addm(u, v, p)), "add_inplace");
            x.sub_inplace(&y, &mut d);
            same!(uv(d.as_slice()), zip(&a, &b, |u, v| subm(u, v, p)), "sub_inplace");
            let neg: Vec<u64> = a.iter().map(|&u| negm(u, p)).collect();
            match g.draw(3) {
                0 => same!(get(-x.clone()), neg, "-p"),
                1 => same!(get(-&x), neg, "-&p"),
                _ => {
                    let mut z = x.clone();
                    z.neg_assign();
                    same!(get(z), neg, "neg_assign")
                }
            }
            let s = elem(g, p);
            let sc: Vec<u64> = a.iter().map(|&u| mulm(u, s, p)).collect();
            same!(get(x.mul_scalar(F::mk(s))), sc, "mul_scalar {s}");
            let mut z = x.clone();
            z.mul_scalar_assign(F::mk(s));
            same!(get(z), sc, "mul_scalar_assign {s}");
            // the operands are untouched
            same!(uv(x.as_slice()), a, "left operand afterwards");
            same!(uv(y.as_slice()), b, "right operand afterwards");
            // containers
            same!(x.coeff_count(), n, "coeff_count");
            same!(x.is_zero(), a.iter().all(|&u| u == 0), "is_zero");
            same!(x == y, a == b, "==");
            same!(uv(<$P<F>>::from_slice(x.as_slice()).as_slice()), a, "from_slice");
            same!(x.iter().map(|c| c.u()).collect::<Vec<_>>(), a, "iter");
            same!(x.copied_iter().map(|c| c.u()).collect::<Vec<_>>(), a, "copied_iter");
            same!((&x).into_iter().map(|c| c.u()).collect::<Vec<_>>(), a, "&into_iter");
            same!(x.clone().into_iter().map(|c| c.u()).collect::<Vec<_>>(), a, "into_iter");
            same!(uv(AsRef::<[F]>::as_ref(&x)), a, "as_ref");
            let mut z = x.clone();
            z.copy_from(&y);
            same!(uv(z.as_slice()), b, "copy_from");
            z.copy_from(x.as_slice());
            same!(uv(z.as_slice()), a, "copy_from slice");
            z.iter_mut().zip(&b).for_each(|(c, &v)| *c = F::mk(v));
            same!(uv(z.as_mut_slice()), b, "iter_mut");
            if n > 0 {
                let i = g.us(0, n - 1);
                same!(x[i].u(), a[i], "index {i}");
                let j = g.us(i, n);
                same!(uv(&x[i..j]), a[i..j].to_vec(), "slice {i}..{j}");
                z[i] = F::mk(s);
                let mut e = b.clone();
                e[i] = s;
                same!(uv(z.data_mut()), e, "index_mut {i}");
            }
            let m = g.us(0, 2 * n + 3);
            let mut z = x.clone();
            z.resize(m, F::mk(s));
            let mut e = a.clone();
            e.resize(m, s);
            same!(uv(z.as_slice()), e, "resize {m}");
            let mut k = 0;
            let mut z = x.clone();
            z.resize_with(m, || { k += 1; F::mk(k % p) });
            let mut k = 0;
            let mut e = a.clone();
            e.resize_with(m, || { k += 1; k % p });
            same!(uv(z.as_slice()), e, "resize_with {m}");
            z.set_zero();
            same!(uv(z.as_slice()), vec![0; m], "set_zero");
            same!(uv(<$P<F>>::zero(m).as_slice()), vec![0; m], "zero");
            Ok(())
        }
    };
}
linear_case!(linear_coeff, Polynomial);
linear_case!(linear_ntt, NTTPolynomial);

fn evaluate<F: Nx>(g: &mut G) -> R {
    let n = g.len(40);
    let a = g.vec(n, F::P);
    let x = elem(g, F::P);
    g.note(|| format!("{} a={a:?} x={x}", F::NAME));
    g.hit_if(n > 1 && x > 1);
    same!(Polynomial::<F>::new(fv(&a)).evaluate(F::mk(x)).u(), eval(&a, x, F::P), "{} evaluate", F::NAME);
    Ok(())
}

/// pointwise operations of transformed polynomials of any length
fn pointwise<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let n = if g.bool() { g.len(20) } else { 1 << g.us(0, 8) };
    let (a, b, c) = (g.vec(n, p), g.vec(n, p), g.vec(n, p));
    g.note(|| format!("{} n={n} a={:?} b={:?} c={:?}", F::NAME, &a[..n.min(8)], &b[..n.min(8)], &c[..n.min(8)]));
    g.hit_if(a.iter().zip(&b).any(|(&x, &y)| x > 1 && y > 1));
    let (x, y, z) = (NTTPolynomial::<F>::new(fv(&a)), NTTPolynomial::<F>::new(fv(&b)), NTTPolynomial::<F>::new(fv(&c)));
    let get = |q: NTTPolynomial<F>| uv(&q.data());
    let prod = zip(&a, &b, |u, v| mulm(u, v, p));
    bin_forms!(g, &x, &y, *, *=, prod.clone(), get, "pointwise *");
    let mut d = NTTPolynomial::<F>::new(fv(&g.vec(n, p)));
    x.mul_inplace(&y, &mut d);
    same!(uv(d.as_slice()), prod, "mul_inplace");
    let fma: Vec<u64> = (0..n).map(|i| addm(c[i], mulm(a[i], b[i], p), p)).collect();
    let mut d = z.clone();
    ntt_add_mul_assign(&mut d, &x, &y);
    same!(uv(d.as_slice()), fma, "ntt_add_mul_assign");
    let mut d = NTTPolynomial::<F>::new(fv(&g.vec(n, p)));
    ntt_add_mul_inplace(&z, &x, &y, &mut d);
    same!(uv(d.as_slice()), fma, "ntt_add_mul_inplace");
    // lazy accumulation, from a lazily reduced accumulator
    let lz: Vec<u64> = c.iter().map(|&u| if g.bool() && n <= 32 { u + p } else { u }).collect();
    let mut d = NTTPolynomial::<F>::new(fv(&lz));
    let rounds = g.us(1, 3);
    let mut want = c.clone();
    for _ in 0..rounds {
        ntt_add_mul_assign_fast(&mut d, &x, &y);
        want = (0..n).map(|i| addm(want[i], mulm(a[i], b[i], p), p)).collect();
    }
    for i in 0..n {
        let r = d[i].u();
        ensure!(r % p == want[i] && r < 2 * p, "ntt_add_mul_assign_fast, coefficient {i}: {r}, want {} (+p)", want[i]);
    }
    // inverses
    if a.iter().all(|&u| u != 0) {
        let inv: Vec<u64> = a.iter().map(|&u| invm(u, p).unwrap()).collect();
        same!(get(x.clone().inv()), inv, "inv");
        same!(get((&x).inv()), inv, "&inv");
    }
    Ok(())
}

/// products modulo X^n + 1
fn ring<F: Nx>(g: &mut G) -> R {
    warm();
    let p = F::P;
    let top = (F::adicity() - 1).min(8) as usize;
    let n = 1usize << if g.one_in(12) { g.us(1, top) } else { g.us(1, top.min(5)) };
    let (a, b) = (g.vec(n, p), g.vec(n, p));
    g.note(|| format!("{} n={n} a={:?} b={:?}", F::NAME, &a[..n.min(8)], &b[..n.min(8)]));
    g.hit_if(a[1..].iter().any(|&x| x != 0) && b[1..].iter().any(|&x| x != 0));
    g.label_if(n >= 64, "n >= 64");
    let want = negacyclic(&a, &b, p);
    let (x, y) = (Polynomial::<F>::new(fv(&a)), Polynomial::<F>::new(fv(&b)));
    let get = |q: Polynomial<F>| uv(&q.data());
    bin_forms!(g, &x, &y, *, *=, want.clone(), get, "product");
    let (tx, ty) = (x.clone().into_ntt_polynomial(), NTTPolynomial::<F>::from(y.clone()));
    bin_forms!(g, &x, &ty, *, *=, want.clone(), get, "product with a transformed polynomial");
    let back = |q: NTTPolynomial<F>| uv(&q.into_native_polynomial().data());
    bin_forms!(g, &tx, &y, *, *=, want.clone(), back, "transformed times coefficient form");
    bin_forms!(g, &tx, &ty, *, *=, want.clone(), back, "transformed product");
    same!(uv(Polynomial::<F>::from(tx.clone()).as_slice()), a, "{} round trip", F::NAME);
    // a(X) * a(X)
    if g.one_in(4) {
        same!(get(&x * &x), negacyclic(&a, &a, p), "square");
    }
    // evaluation at roots of X^n + 1 is a homomorphism
    let t = F::get_ntt_table(n.trailing_zeros()).map_err(|e| e.to_string())?;
    let r = t.root();
    let i = g.us(0, n - 1) as u64;
    let pt = r.powx((2 * i + 1).min(F::word_max()));
    let at = (&x * &y).evaluate(pt).u();
    same!(at, mulm(x.evaluate(pt).u(), y.evaluate(pt).u(), p), "{} product at a root", F::NAME);
    // inverse in the ring
    if tx.iter().all(|c| c.u() != 0) {
        let inv = if g.bool() { (&x).inv() } else { x.clone().inv() };
        let mut one = vec![0; n];
        one[0] = 1;
        same!(negacyclic(&a, &uv(inv.as_slice()), p), one, "{} inverse in the ring", F::NAME);
        g.label("invertible");
    }
    // fused multiply-add through the transform
    let c = g.vec(n, p);
    let mut acc = Polynomial::<F>::new(fv(&c)).into_ntt_polynomial();
    if g.bool() {
        ntt_add_mul_assign(&mut acc, &tx, &ty);
    } else {
        ntt_add_mul_assign_fast(&mut acc, &tx, &ty);
    }
    same!(uv(&acc.into_native_polynomial().data()), zip(&c, &want, |u, v| addm(u, v, p)), "{} c + a*b", F::NAME);
    Ok(())
}

/// laws on larger rings, with one sparse factor so that schoolbook stays cheap
fn ring_large<F: Nx>(g: &mut G) -> R {
    warm();
    let p = F::P;
    let top = (F::adicity() - 1).min(if g.one_in(16) { 13 } else { 10 }) as usize;
    let n = 1usize << g.us(top.min(9), top);
    let a = g.vec(n, p);
    let mut b = vec![0; n];
    for _ in 0..g.us(1, 6) {
        let i = g.us(0, n - 1);
        b[i] = elem(g, p);
    }
    g.note(|| format!("{} n={n} a={:?}.. b sparse", F::NAME, &a[..8.min(n)]));
    g.hit_if(b[1..].iter().any(|&x| x != 0));
    let want = negacyclic(&b, &a, p);
    let (x, y) = (Polynomial::<F>::new(fv(&a)), Polynomial::<F>::new(fv(&b)));
    same!(uv((&x * &y).as_slice()), want, "{} n={n} product", F::NAME);
    same!(uv((y * &x).as_slice()), want, "{} n={n} commuted product", F::NAME);
    Ok(())
}

/// rotate and negate of a slice in the lattice of helpers
fn random_polys<F: Nx>(g: &mut G) -> R {
    let n = g.len(64);
    let mut rng = g.rng();
    g.note(|| format!("{} n={n}", F::NAME));
    g.hit_if(n > 0);
    let seed = g.draw(0);
    use rand::SeedableRng;
    let again = |s| rand_chacha::ChaCha12Rng::seed_from_u64(s);
    let q = Polynomial::<F>::random(n, &mut rng);
    same!(q.coeff_count(), n, "random length");
    ensure!(q.iter().all(|c| c.u() < F::P), "random coefficient not canonical");
    let q = NTTPolynomial::<F>::random(n, &mut rng);
    same!(q.coeff_count(), n, "random length");
    ensure!(q.iter().all(|c| c.u() < F::P), "random coefficient not canonical");
    let d = algebra::FieldUniformSampler::<F>::new();
    same!(Polynomial::<F>::random_with_distribution(n, &mut again(seed), d), Polynomial::<F>::random(n, &mut again(seed)), "random_with_distribution");
    same!(uv(&NTTPolynomial::<F>::random_with_distribution(n, &mut again(seed), d).data()), uv(&NTTPolynomial::<F>::random(n, &mut again(seed)).data()), "random_with_distribution");
    let _ = autils::sample_binary_field_vec::<F, _>(n, &mut rng);
    Ok(())
}

macro_rules! each {
    ($v:ident, $name:literal, $f:ident, [$($t:ident),*], $q:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($t)), $q * 10, $th, $rule, $f::<$t>)); )*
    };
}

fn main() {
    let mut c08 = vec![];
    each!(c08, "all-pairs", small, [A2, A3, N17, N41, A59, N61], 7, 70, "every pair of elements");
    each!(c08, "ops", ops, [A2, A3, A59, N17, N61, B3, B16381, N257, N12289, N15361, C5, Cmax, N12289w, N27, N30, D5, Dmax, N12289x, N50, N60, N62], 30_000, 1_500_000, "edge-biased canonical operands and exponents, every operator form; non-trivial: both operands > 1");
    each!(c08, "fused", fused, [A2, A3, A59, N61, B3, B16381, N12289, N15361, C5, Cmax, N27, N30, D5, Dmax, N50, N60, N62], 40_000, 2_000_000, "edge-biased operands, canonical (exact form) or up to 2p (lazy forms); non-trivial: both factors > 1");
    each!(c08, "words", words, [A2, A3, A59, N61, B3, B16381, N257, N12289, C5, Cmax, N27, N30, D5, Dmax, N50, N60, N62], 10_000, 400_000, "any word, a third next to a multiple of p; construction, constants, text, serialisation; non-trivial: word >= p");
    each!(c08, "from-usize", from_usize, [N17, N61, N257, N12289, N27, N30, N50, N60, N62], 20_000, 1_000_000, "any usize and root multiplication; non-trivial: value >= p");

    let mut c09 = vec![];
    each!(c09, "element", decompose_field, [A2, A3, A59, N17, N61, B3, B16381, N12289, C5, Cmax, N27, N30, D5, Dmax, N50, N60, N62], 20_000, 1_000_000, "every basis width, edge-biased elements, used buffers; non-trivial: more than one non-zero digit");
    each!(c09, "polynomial", decompose_poly, [A2, A59, N61, B16381, N12289, Cmax, N27, N30, Dmax, N50, N60, N62], 8_000, 300_000, "every basis width, lengths 0..128, used buffers; non-trivial: a coefficient with more than one digit");
    each!(c09, "integer", decompose_int, [u8, u16, u32, u64], 40_000, 2_000_000, "every power-of-two modulus (and some others), every basis width; non-trivial: a value with more than one digit");
    each!(c09, "reject", basis_reject, [A59, B16381, N27, N30, N60, N62], 20, 200, "basis wider than the modulus");

    let mut c13 = vec![];
    each!(c13, "linear", linear_coeff, [N17, N61, N12289, N27, N30, N50, N62], 5_000, 200_000, "lengths 0..20 and 2^0..2^9; non-trivial: both have an entry > 1");
    each!(c13, "linear-ntt", linear_ntt, [N17, N61, N12289, N27, N30, N50, N62], 5_000, 200_000, "the same for transformed polynomials");
    each!(c13, "pointwise", pointwise, [N17, N61, N12289, N27, N30, N50, N62], 6_000, 250_000, "pointwise and fused operations; non-trivial: a product of entries > 1");
    each!(c13, "evaluate", evaluate, [N17, N12289, N27, N50, N62], 10_000, 400_000, "lengths 0..40; non-trivial: length > 1 and point > 1");
    each!(c13, "ring", ring, [N17, N41, N61, N257, N7681, N15361, N12289w, N27, N30, N50, N60, N62], 1_500, 60_000, "n = 2^1..2^8 with schoolbook products; non-trivial: both factors have a non-constant term");
    each!(c13, "ring-large", ring_large, [N7681, N15361, N27, N30, N50, N60, N62], 150, 6_000, "n = 2^9..2^10 with a sparse factor; non-trivial: the sparse factor is not constant");
    each!(c13, "random", random_polys, [N17, N12289, N27, N62], 500, 10_000, "random polynomials are canonical and of the asked length");

    harness::engine::main(vec![
        Prop { id: "C08", subs: c08, assumptions: &["inverting zero is outside the field's domain and is not checked beyond division"] },
        Prop { id: "C09", subs: c09, assumptions: &["buffers have the announced number of digits"] },
        Prop { id: "C13", subs: c13, assumptions: &["operands of one operation have equal lengths; products need n >= 2"] },
    ])
}
