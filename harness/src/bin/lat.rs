//! C16 LWE, C17 RLWE, C18 gadget and RGSW ciphertexts.

use algebra::modulus::{BarrettModulus, PowOf2Modulus};
use algebra::reduce::*;
use algebra::{AsFrom, Basis, Field, FieldDiscreteGaussianSampler, FieldUniformSampler, NTTPolynomial, Polynomial};
use harness::ct::*;
use harness::engine::*;
use harness::fieldset::*;
use harness::oracle::*;
use harness::{ensure, same};
use lattice::*;
use rand::distributions::Distribution;


// ---------------------------------------------------------------- C16

trait Word: Copy + std::fmt::Debug + PartialEq + 'static {
    const BITS: u32;
    fn mk(x: u64) -> Self;
    fn u(self) -> u64;
}
macro_rules! word {
    ($($t:ident),*) => {$(impl Word for $t {
        const BITS: u32 = $t::BITS;
        fn mk(x: u64) -> Self { x as $t }
        fn u(self) -> u64 { self as u64 }
    })*};
}
word!(u8, u16, u32, u64);



fn below(g: &mut G, m: u128) -> u64 {
    g.edge(0, (m - 1) as u64)
}
fn vec_below(g: &mut G, n: usize, m: u128) -> Vec<u64> {
    if m > u64::MAX as u128 {
        (0..n).map(|_| below(g, m)).collect()
    } else {
        g.vec(n, m as u64)
    }
}
fn dimension(g: &mut G) -> usize {
    match g.draw(5) {
        0 => g.us(0, 2),
        4 => g.us(3, 200),
        _ => g.len(24),
    }
}

/// a history of operations on a pool of ciphertexts, with the model beside it
fn history<T: Word, M: Copy>(g: &mut G, m: u128, modulus: M) -> R
where
    T: AddReduce<M, Output = T> + AddReduceAssign<M> + SubReduce<M, Output = T> + SubReduceAssign<M>,
    T: MulReduce<M, Output = T> + MulReduceAssign<M> + NegReduce<M, Output = T> + NegReduceAssign<M>,
{
    let n = dimension(g);
    let s = vec_below(g, n, m);
    let mut model: Vec<Comp> = vec![];
    let mut real: Vec<LWE<T>> = vec![];
    for i in 0..3 {
        let c: Comp = (vec_below(g, n, m), below(g, m));
        let a: Vec<T> = c.0.iter().map(|&x| T::mk(x)).collect();
        real.push(if i % 2 == 0 { LWE::new(a, T::mk(c.1)) } else { LWE::from_ref(&a, T::mk(c.1)) });
        model.push(c);
    }
    g.note(|| format!("u{} modulo {m}, dimension {n}, key {:?}, ciphertexts {:?}", T::BITS, &s[..n.min(6)], model.iter().map(|c| (&c.0[..n.min(6)], c.1)).collect::<Vec<_>>()));
    g.hit_if(n > 0);
    g.label_if(n == 0, "dimension 0");
    let (add, sub, mul) = (|a, b| m_add(a, b, m), |a, b| m_sub(a, b, m), |a, b| m_mul(a, b, m));
    let len = g.us(1, 10);
    for step in 0..len {
        let i = g.us(0, 2);
        let j = (i + 1 + g.us(0, 1)) % 3;
        let op = g.draw(12);
        let c = match g.draw(3) {
            0 => *g.pick(&[0, 1, (m - 1) as u64, (m / 2) as u64]),
            _ => below(g, m),
        };
        let (mut x, y) = (model[i].clone(), model[j].clone());
        let before = (phase(&x, &s, m), phase(&y, &s, m));
        let r = real[j].clone();
        let l = &mut real[i];
        let want_phase;
        let what = match op {
            0..=2 => {
                x = zip(&x, &y, add);
                want_phase = add(before.0, before.1);
                match op {
                    0 => *l = l.add_reduce_component_wise_ref(&r, modulus),
                    1 => *l = l.clone().add_reduce_component_wise(&r, modulus),
                    _ => l.add_reduce_inplace_component_wise(&r, modulus),
                }
                ["add ref", "add", "add inplace"][op as usize]
            }
            3..=5 => {
                x = zip(&x, &y, sub);
                want_phase = sub(before.0, before.1);
                match op {
                    3 => *l = l.sub_reduce_component_wise_ref(&r, modulus),
                    4 => *l = l.clone().sub_reduce_component_wise(&r, modulus),
                    _ => l.sub_reduce_inplace_component_wise(&r, modulus),
                }
                ["sub ref", "sub", "sub inplace"][op as usize - 3]
            }
            6 | 7 => {
                x = map(&x, |a| mul(a, c));
                want_phase = mul(before.0, c);
                l.scalar_mul_reduce_inplace(T::mk(c), modulus);
                "scalar mul"
            }
            8 | 9 => {
                x = zip(&x, &y, |a, b| add(a, mul(b, c)));
                want_phase = add(before.0, mul(before.1, c));
                l.add_assign_rhs_mul_scalar_reduce(&r, T::mk(c), modulus);
                "multiply-add"
            }
            _ => {
                x = map(&x, |a| sub(0, a));
                want_phase = sub(0, before.0);
                if op == 10 {
                    *l = l.neg_reduce(modulus);
                } else {
                    l.neg_reduce_assign(modulus);
                }
                "neg"
            }
        };
        same!(phase(&x, &s, m), want_phase, "the model's own phase");
        let got: Comp = (real[i].a().iter().map(|v| v.u()).collect(), real[i].b().u());
        same!(phase_of(&got, &s, m)?, want_phase, "step {step} ({what}, c={c}) modulo {m}: phase");
        same!(got, x, "step {step} ({what}, c={c}) modulo {m}");
        ensure!(real[j] == r, "step {step} ({what}): the right operand changed");
        model[i] = x;
    }
    // accessors
    let k = g.us(0, 2);
    let l = &mut real[k];
    same!(l.a().len(), n, "a()");
    if n > 0 {
        let at = g.us(0, n - 1);
        let v = below(g, m);
        l.a_mut()[at] = T::mk(v);
        model[k].0[at] = v;
    }
    let v = below(g, m);
    *l.b_mut() = T::mk(v);
    model[k].1 = v;
    let got: Comp = (l.a().iter().map(|v| v.u()).collect(), l.b().u());
    same!(got, model[k], "after writing through a_mut and b_mut");
    let twin = LWE::from_ref(l.a(), l.b());
    ensure!(&twin == l, "from_ref of the parts differs");
    Ok(())
}

macro_rules! lwe_word {
    ($name:ident, $t:ident) => {
        fn $name(g: &mut G) -> R {
            let bits = $t::BITS;
            match g.draw(4) {
                0 => {
                    g.label("native modulus");
                    history::<$t, ()>(g, 1u128 << bits, ())
                }
                1 => {
                    // Barrett moduli leave two bits of the word free
                    let m = g.edge(2, (1u64 << (bits - 2)) - 1);
                    g.label("any modulus");
                    history::<$t, BarrettModulus<$t>>(g, m as u128, BarrettModulus::<$t>::new(m as $t))
                }
                _ => {
                    let m = 1u64 << g.us(1, bits as usize - 1);
                    g.label("power of two");
                    history::<$t, PowOf2Modulus<$t>>(g, m as u128, PowOf2Modulus::<$t>::new(m as $t))
                }
            }
        }
    };
}
lwe_word!(lwe_u8, u8);
lwe_word!(lwe_u16, u16);
lwe_word!(lwe_u32, u32);
lwe_word!(lwe_u64, u64);

fn lwe_field<F: Fx>(g: &mut G) -> R {
    let p = F::P;
    let n = dimension(g);
    let s = g.vec(n, p);
    let (x, y): (Comp, Comp) = ((g.vec(n, p), g.edge(0, p - 1)), (g.vec(n, p), g.edge(0, p - 1)));
    g.note(|| format!("{} dimension {n} {x:?} {y:?}", F::NAME));
    g.hit_if(n > 0);
    let l = LWE::<F>::new(fv(&x.0), F::mk(x.1));
    let r = LWE::<F>::from_ref(&fv::<F>(&y.0), F::mk(y.1));
    let m = p as u128;
    let out = |c: &LWE<F>| -> Comp { (uv(c.a()), c.b().u()) };
    let sum = zip(&x, &y, |a, b| addm(a, b, p));
    let dif = zip(&x, &y, |a, b| subm(a, b, p));
    same!(out(&l.add_component_wise_ref(&r)), sum, "{} add ref", F::NAME);
    same!(out(&l.clone().add_component_wise(&r)), sum, "{} add", F::NAME);
    let mut t = l.clone();
    t.add_inplace_component_wise(&r);
    same!(out(&t), sum, "{} add inplace", F::NAME);
    same!(phase_of(&out(&t), &s, m)?, addm(phase(&x, &s, m), phase(&y, &s, m), p), "{} phase of the sum", F::NAME);
    same!(out(&l.sub_component_wise_ref(&r)), dif, "{} sub ref", F::NAME);
    same!(out(&l.clone().sub_component_wise(&r)), dif, "{} sub", F::NAME);
    let mut t = l.clone();
    t.sub_inplace_component_wise(&r);
    same!(out(&t), dif, "{} sub inplace", F::NAME);
    same!(phase_of(&out(&t), &s, m)?, subm(phase(&x, &s, m), phase(&y, &s, m), p), "{} phase of the difference", F::NAME);
    same!((out(&l), out(&r)), (x, y), "{} operands", F::NAME);
    Ok(())
}

/// zero samples: canonical, noise as sampled (replayed from the same
/// generator), the mask fills its range
fn zero_sample<T: Word, M: Copy>(g: &mut G, m: u64, modulus: M) -> R
where
    T: rand_distr::uniform::SampleUniform + num_traits::ConstZero + AsFrom<f64> + std::ops::Sub<Output = T>,
    T: MulReduce<M, Output = T> + AddReduce<M, Output = T> + DotProductReduce<M, Output = T>,
{
    let n = dimension(g);
    let s = match g.draw(4) {
        0 => g.vec(n, 2),
        1 => g.vec(n, 3).iter().map(|&x| if x == 2 { m - 1 } else { x }).collect(),
        2 => vec![[0, 1, m - 1][g.us(0, 2)]; n],
        _ => g.vec(n, m),
    };
    // noise must fit the modulus: six standard deviations and rounding
    let top = (m as f64 / 2.0 - 1.0) / 6.0;
    let sigma = match g.draw(4) {
        0 => 0.0,
        1 => 3.2f64.min(top),
        _ => (g.int(0, 1000) as f64 / 100.0).min(top),
    }
    .max(0.0);
    g.note(|| format!("u{} modulo {m}, dimension {n}, deviation {sigma}", T::BITS));
    g.hit_if(n > 0 && sigma > 0.0);
    g.label_if(sigma == 0.0, "no noise");
    let sampler = DiscreteGaussian::new(T::mk(m), 0.0, sigma).map_err(|e| format!("{e:?}"))?;
    let key: Vec<T> = s.iter().map(|&x| T::mk(x)).collect();
    let mut rng = g.rng();
    let bound = (6.0 * sigma + 0.5).floor() as i128;
    let mut masks = std::collections::HashSet::new();
    let mut nonzero = 0;
    let count = 4;
    for _ in 0..count {
        let c = LWE::<T>::generate_random_zero_sample(&key, T::mk(m), modulus, sampler, &mut rng);
        let c: Comp = (c.a().iter().map(|v| v.u()).collect(), c.b().u());
        let e = centered(phase_of(&c, &s, m as u128)?, m);
        ensure!(e.abs() <= bound, "a zero sample has phase {e}, the bound is {bound} (deviation {sigma}, modulus {m})");
        nonzero += (e != 0) as u64;
        masks.insert(c.0);
    }
    let _ = nonzero;
    // masks repeat with probability at most 6/m^n
    if n as f64 * (m as f64).log2() > 80.0 {
        same!(masks.len(), count, "masks repeat");
    }
    Ok(())
}
macro_rules! zero_word {
    ($name:ident, $t:ident) => {
        fn $name(g: &mut G) -> R {
            let bits = $t::BITS;
            if g.bool() {
                let m = g.edge(4, (1u64 << (bits - 2)) - 1);
                g.label("any modulus");
                zero_sample::<$t, BarrettModulus<$t>>(g, m, BarrettModulus::<$t>::new(m as $t))
            } else {
                let m = 1u64 << g.us(2, bits as usize - 1);
                g.label("power of two");
                zero_sample::<$t, PowOf2Modulus<$t>>(g, m, PowOf2Modulus::<$t>::new(m as $t))
            }
        }
    };
}
zero_word!(zero_u8, u8);
zero_word!(zero_u16, u16);
zero_word!(zero_u32, u32);
zero_word!(zero_u64, u64);

// ---------------------------------------------------------------- C17

fn ring_log<F: Nx>(g: &mut G, cap: u32) -> usize {
    let t = (F::adicity() - 1).min(cap) as usize;
    if g.one_in(400) {
        g.label("large ring");
        return g.us(1, (F::adicity() - 1).min(11) as usize);
    }
    if g.one_in(20) { g.us(1, t) } else { g.us(1, t.min(5)) }
}
fn ring<F: Nx>(g: &mut G, n: usize) -> Ring {
    (g.vec(n, F::P), g.vec(n, F::P))
}
fn key<F: Nx>(g: &mut G, n: usize) -> Vec<u64> {
    let p = F::P;
    match g.draw(4) {
        0 => g.vec(n, 2),
        1 => g.vec(n, 3).iter().map(|&x| if x == 2 { p - 1 } else { x }).collect(),
        2 => vec![[0, 1, p - 1][g.us(0, 2)]; n],
        _ => g.vec(n, p),
    }
}

/// operator forms over a pool of ciphertexts in both representations
fn operators<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let n = 1usize << ring_log::<F>(g, 8);
    let mut model: Vec<Ring> = (0..3).map(|_| ring::<F>(g, n)).collect();
    let mut real: Vec<RLWE<F>> = model.iter().map(rl).collect();
    let mut nreal: Vec<NTTRLWE<F>> = model.iter().map(nrl).collect();
    let len = g.us(1, 8);
    g.note(|| format!("{} n={n} {:?}", F::NAME, model.iter().map(|c| (&c.0[..n.min(4)], &c.1[..n.min(4)])).collect::<Vec<_>>()));
    g.hit();
    g.label_if(n >= 64, "n >= 64");
    for step in 0..len {
        let i = g.us(0, 2);
        let j = (i + 1 + g.us(0, 1)) % 3;
        let op = g.draw(16);
        let (x, y) = (model[i].clone(), model[j].clone());
        let (l, nl) = (real[i].clone(), nreal[i].clone());
        let (r, nr) = (real[j].clone(), nreal[j].clone());
        let dirty = ring::<F>(g, n);
        let (mut d, mut nd) = (rl::<F>(&dirty), nrl::<F>(&dirty));
        let sum = || ring2(&x, &y, |a, b| addm(a, b, p));
        let dif = || ring2(&x, &y, |a, b| subm(a, b, p));
        let poly = match g.draw(3) {
            0 => g.vec(n, 2),
            _ => g.vec(n, p),
        };
        let np = nt::<F>(&poly);
        let prod = |c: &Ring| ring1(c, |v| negacyclic(v, &poly, p));
        let (what, want): (&str, Ring) = match op {
            0 => {
                d = l.add_element_wise_ref(&r);
                nd = nl.add_element_wise_ref(&nr);
                ("add ref", sum())
            }
            1 => {
                d = l.add_element_wise(&r);
                nd = nl.add_element_wise(&nr);
                ("add", sum())
            }
            2 => {
                d = l;
                nd = nl;
                d.add_assign_element_wise(&r);
                nd.add_element_wise_assign(&nr);
                ("add assign", sum())
            }
            3 => {
                l.add_inplace(&r, &mut d);
                nl.add_inplace(&nr, &mut nd);
                ("add into", sum())
            }
            4 => {
                d = l.sub_element_wise_ref(&r);
                nd = nl.sub_element_wise_ref(&nr);
                ("sub ref", dif())
            }
            5 => {
                d = l.sub_element_wise(&r);
                nd = nl.sub_element_wise(&nr);
                ("sub", dif())
            }
            6 => {
                d = l;
                nd = nl;
                d.sub_assign_element_wise(&r);
                nd.sub_element_wise_assign(&nr);
                ("sub assign", dif())
            }
            7 => {
                l.sub_inplace(&r, &mut d);
                nl.sub_inplace(&nr, &mut nd);
                ("sub into", dif())
            }
            8 => {
                l.mul_ntt_polynomial_inplace(&np, &mut nd);
                nd.inverse_transform_inplace(&mut d);
                ("times a polynomial, out of coefficient form", prod(&x))
            }
            9 => {
                nl.mul_ntt_polynomial_inplace(&np, &mut nd);
                d = nd.clone().into();
                ("times a polynomial into", prod(&x))
            }
            10 => {
                nd = nl;
                nd.mul_ntt_polynomial_assign(&np);
                d = RLWE::from((nd.a().clone(), nd.b().clone()));
                ("times a polynomial assign", prod(&x))
            }
            11 | 12 => {
                let w = ring2(&x, &prod(&y), |a, b| addm(a, b, p));
                if op == 11 {
                    nd = nl;
                    nd.add_ntt_rlwe_mul_ntt_polynomial_assign(&nr, &np);
                } else {
                    nl.add_ntt_rlwe_mul_ntt_polynomial_inplace(&nr, &np, &mut nd);
                }
                nd.inverse_transform_inplace(&mut d);
                (["multiply-add assign", "multiply-add into"][op as usize - 11], w)
            }
            13 => {
                let w = ring2(&x, &prod(&y), |a, b| addm(a, b, p));
                nd = nl;
                nd.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&nr, &np);
                // the lazy form may leave representatives up to 2p; a second
                // lazy accumulation on top is still right
                let mut again = nd.clone();
                again.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&nr, &np);
                same!(nof(&again), ring2(&w, &prod(&y), |a, b| addm(a, b, p)), "{} two lazy multiply-adds", F::NAME);
                nd.inverse_transform_inplace(&mut d);
                let c = of(&d);
                nd = nrl(&c);
                ("lazy multiply-add", w)
            }
            14 => {
                if g.bool() {
                    d = RLWE::zero(n);
                    nd = NTTRLWE::zero(n);
                } else {
                    d.set_zero();
                    nd.set_zero();
                }
                let w = (vec![0; n], vec![0; n]);
                ("zero", w)
            }
            _ => {
                // conversions and accessors
                d = RLWE::from((l.a().clone(), l.b().clone()));
                ensure!(d == RLWE::from_ref(l.a(), l.b()) && d == l, "RLWE from its parts");
                ensure!(RLWE::from((nl.a().clone(), nl.b().clone())) == l, "RLWE from transformed parts");
                ensure!(RLWE::from(nl.clone()) == l, "RLWE from NTTRLWE");
                nd = NTTRLWE::from(l.clone());
                ensure!(nd == nl, "NTTRLWE from RLWE");
                ensure!(NTTRLWE::from((l.a().clone(), l.b().clone())) == nl, "NTTRLWE from coefficient parts");
                ensure!(NTTRLWE::from_ref(nl.a(), nl.b()) == nl, "NTTRLWE from its parts");
                same!((d.dimension(), nd.dimension()), (n, n), "dimension");
                let at = g.us(0, n - 1);
                let v = F::mk(g.edge(0, p - 1));
                let mut w = x.clone();
                match g.draw(3) {
                    0 => {
                        d.a_mut_slice()[at] = v;
                        w.0[at] = v.u();
                        d.b_mut()[at] = v;
                        w.1[at] = v.u();
                    }
                    1 => {
                        let (a, b) = d.a_b_mut_slices();
                        a[at] = v;
                        b[n - 1 - at] = v;
                        w.0[at] = v.u();
                        w.1[n - 1 - at] = v.u();
                    }
                    _ => {
                        let (a, b) = d.a_b_mut();
                        a[at] = v;
                        b[n - 1 - at] = v;
                        w.0[at] = v.u();
                        w.1[n - 1 - at] = v.u();
                        d.a_mut()[n - 1 - at] = v;
                        d.b_mut_slice()[at] = v;
                        w.0[n - 1 - at] = v.u();
                        w.1[at] = v.u();
                    }
                }
                same!((uv(d.a().as_slice()), uv(d.b().as_slice())), w, "a() and b() after writing");
                nd.a_mut_slice().copy_from_slice(nt::<F>(&w.0).as_slice());
                *nd.b_mut() = nt(&w.1);
                let mut t = NTTRLWE::zero(n);
                {
                    let (a, b) = t.a_b_mut_slices();
                    a.copy_from_slice(nd.a_slice());
                    b.copy_from_slice(nd.b_slice());
                }
                ensure!(t == nd, "NTTRLWE slices");
                let (a, b) = t.a_b_mut();
                a.set_zero();
                b.set_zero();
                t.b_mut_slice().copy_from_slice(nd.b_slice());
                t.a_mut().copy_from(nd.a());
                ensure!(t == nd, "NTTRLWE parts");
                ("conversions", w)
            }
        };
        same!(of(&d), want, "{} n={n} step {step}: {what}", F::NAME);
        ensure!(canonical(&nd), "{} step {step}: {what}: not canonical", F::NAME);
        same!(nof(&nd), want, "{} n={n} step {step}: {what}, transformed", F::NAME);
        ensure!(real[j] == r && nreal[j] == nr, "{} step {step}: {what}: an operand changed", F::NAME);
        model[i] = want;
        real[i] = d;
        nreal[i] = nd;
    }
    Ok(())
}

/// products act on the phase as on the message
fn phases<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let n = 1usize << ring_log::<F>(g, 7);
    let (x, s, poly) = (ring::<F>(g, n), key::<F>(g, n), g.vec(n, p));
    g.note(|| format!("{} n={n} {:?} key {:?} times {:?}", F::NAME, (&x.0[..n.min(4)], &x.1[..n.min(4)]), &s[..n.min(4)], &poly[..n.min(4)]));
    g.hit_if(s.iter().any(|&v| v != 0));
    let mut c = nrl::<F>(&x);
    c.mul_ntt_polynomial_assign(&nt(&poly));
    same!(ring_phase(&nof(&c), &s, p), negacyclic(&ring_phase(&x, &s, p), &poly, p), "{} product", F::NAME);
    let r = g.us(0, 2 * n);
    let mut d = rl::<F>(&ring::<F>(g, n));
    rl::<F>(&x).mul_monic_monomial_sub_one_inplace(n, r, &mut d);
    let ph = ring_phase(&x, &s, p);
    let turned = mul_monomial(&ph, r, p);
    let want: Vec<u64> = turned.iter().zip(&ph).map(|(&a, &b)| subm(a, b, p)).collect();
    same!(ring_phase(&of(&d), &s, p), want, "{} times X^{r} - 1", F::NAME);
    Ok(())
}

fn rotate_on<F: Nx>(x: &Ring, acc: &Ring, dirty: &Ring, r: usize) -> R {
    let p = F::P;
    let n = x.0.len();
    let c = rl::<F>(x);
    let turned = ring1(x, |v| mul_monomial(v, r, p));
    let mut d = rl::<F>(dirty);
    c.mul_monic_monomial_sub_one_inplace(n, r, &mut d);
    same!(of(&d), ring2(&turned, x, |a, b| subm(a, b, p)), "{} n={n} times X^{r} - 1", F::NAME);
    let mut d = rl::<F>(acc);
    d.add_assign_rhs_mul_monic_monomial(&c, n, r);
    same!(of(&d), ring2(acc, &turned, |a, b| addm(a, b, p)), "{} n={n} plus X^{r} times", F::NAME);
    same!(of(&c), *x, "{} n={n} operand", F::NAME);
    Ok(())
}
/// every rotation amount of every small ring
fn rotate_all<F: Nx>(g: &mut G) -> R {
    let r = g.turn(129) as usize;
    for k in 1..=(F::adicity() - 1).min(6) {
        let n = 1usize << k;
        if r <= 2 * n {
            g.hit();
            let (x, acc, dirty) = (ring::<F>(g, n), ring::<F>(g, n), ring::<F>(g, n));
            rotate_on::<F>(&x, &acc, &dirty, r)?;
        }
    }
    Ok(())
}
fn rotate<F: Nx>(g: &mut G) -> R {
    let n = 1usize << ring_log::<F>(g, 10);
    let r = match g.draw(4) {
        0 => *g.pick(&[0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n]),
        _ => g.us(0, 2 * n),
    };
    let (x, acc, dirty) = (ring::<F>(g, n), ring::<F>(g, n), ring::<F>(g, n));
    g.note(|| format!("{} n={n} r={r} {:?}", F::NAME, (&x.0[..n.min(8)], &x.1[..n.min(8)])));
    g.hit_if(r != 0 && r != 2 * n);
    g.label_if(r > n, "r > n");
    rotate_on::<F>(&x, &acc, &dirty, r)
}

fn extract<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let n = 1usize << ring_log::<F>(g, 10);
    let x = ring::<F>(g, n);
    let s = key::<F>(g, n);
    let dim = match g.draw(4) {
        0 => *g.pick(&[0, 1, n - 1, n]),
        _ => g.us(0, n),
    };
    g.note(|| format!("{} n={n} partial {dim} key {:?} {:?}", F::NAME, &s[..n.min(8)], (&x.0[..n.min(8)], &x.1[..n.min(8)])));
    g.hit_if(s.iter().any(|&v| v != 0) && x.0[1..].iter().any(|&v| v != 0));
    g.label_if(dim < n && dim > 1, "partial");
    let c = rl::<F>(&x);
    // the constant coefficient of b - a s
    let constant = |s: &[u64]| {
        let mut t = mulm(x.0[0], s[0], p);
        for i in 1..n {
            t = subm(t, mulm(x.0[n - i], s[i], p), p);
        }
        subm(x.1[0], t, p)
    };
    let reversed = |s: &[u64]| -> Vec<u64> { (0..n).map(|i| if i == 0 { s[0] } else { negm(s[n - i], p) }).collect() };
    if n <= 32 {
        same!(constant(&s), ring_phase(&x, &s, p)[0], "the model's own phase");
    }
    let ph = |l: &LWE<F>, k: &[u64]| -> Result<u64, String> { phase_of(&(uv(l.a()), l.b().u()), k, p as u128) };
    same!(ph(&c.extract_lwe(), &s)?, constant(&s), "{} n={n} extract_lwe", F::NAME);
    same!(ph(&c.clone().extract_lwe_locally(), &s)?, constant(&s), "{} n={n} extract_lwe_locally", F::NAME);
    same!(ph(&c.clone().extract_lwe_reverse_locally(), &reversed(&s))?, constant(&s), "{} n={n} extract_lwe_reverse_locally", F::NAME);
    // keys that vanish beyond the kept part, in either layout
    let l = c.clone().extract_partial_lwe_locally(dim);
    let mut short = s.clone();
    short[dim..].iter_mut().for_each(|v| *v = 0);
    same!(l.a().len(), dim, "{} n={n} extract_partial_lwe_locally({dim}): dimension", F::NAME);
    same!(ph(&l, &short[..dim])?, constant(&short), "{} n={n} extract_partial_lwe_locally({dim})", F::NAME);
    let l = c.clone().extract_partial_lwe_reverse_locally(dim);
    let mut back = s.clone();
    back[dim..].iter_mut().for_each(|v| *v = 0);
    // `back` is the arranged key; the ring key it comes from:
    let ringkey = reversed(&back);
    same!(l.a().len(), dim, "{} n={n} extract_partial_lwe_reverse_locally({dim}): dimension", F::NAME);
    same!(ph(&l, &back[..dim])?, constant(&ringkey), "{} n={n} extract_partial_lwe_reverse_locally({dim})", F::NAME);
    same!(of(&c), x, "{} operand", F::NAME);
    Ok(())
}

/// a Gaussian that fits the field, and the largest magnitude it yields
fn noise<F: Nx>(g: &mut G, max: u64) -> (FieldDiscreteGaussianSampler, u64) {
    // the centred binomial stands in for exactly this deviation
    let options: &[(f64, u64)] = &[(0.0, 0), (0.3, 2), (1.0, 6), (3.2, 21), (3.19, 19), (10.0, 60), (1000.0, 6000)];
    let fit: Vec<_> = options.iter().copied().filter(|o| o.1 <= max).collect();
    let (sigma, bound) = *g.pick(&fit);
    (FieldDiscreteGaussianSampler::new(0.0, sigma).expect("a Gaussian"), bound)
}

fn samples<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let n = 1usize << ring_log::<F>(g, 8);
    let s = key::<F>(g, n);
    let (sampler, bound) = noise::<F>(g, (p - 1) / 4);
    let ns = nt::<F>(&s);
    let mut rng = g.rng();
    let v = g.edge(0, p - 1);
    g.note(|| format!("{} n={n} key {:?} deviation {} value {v}", F::NAME, &s[..n.min(8)], sampler.std_dev()));
    g.hit_if(bound > 0);
    let check = |what: &str, c: Ring, value: u64| -> R {
        let mut ph = ring_phase(&c, &s, p);
        ph[0] = subm(ph[0], value, p);
        ensure!(c.0.iter().chain(&c.1).all(|&x| x < p) && c.0.len() == n && c.1.len() == n, "{} {what}: not canonical", F::NAME);
        match small(&ph, bound, p) {
            Some(e) => Err(format!("{} n={n} {what}: noise {e} exceeds {bound}", F::NAME)),
            None => Ok(()),
        }
    };
    let c = RLWE::<F>::generate_random_zero_sample(&ns, sampler, &mut rng);
    check("RLWE zero sample", of(&c), 0)?;
    let c2 = NTTRLWE::<F>::generate_random_zero_sample(&ns, sampler, &mut rng);
    ensure!(canonical(&c2), "NTTRLWE zero sample: not canonical");
    check("NTTRLWE zero sample", nof(&c2), 0)?;
    let c3 = NTTRLWE::<F>::generate_random_value_sample(&ns, F::mk(v), sampler, &mut rng);
    ensure!(canonical(&c3), "NTTRLWE value sample: not canonical");
    check("NTTRLWE value sample", nof(&c3), v)?;
    // the masks are not constant polynomials, nor equal
    if n as f64 * (p as f64).log2() > 80.0 {
        ensure!(of(&c).0 != nof(&c2).0 && nof(&c2).0 != nof(&c3).0, "masks repeat");
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

struct Gad<F: Nx> {
    bits: u32,
    len: usize,
    basis: Basis<F>,
    n: usize,
    s: Vec<u64>,
}
fn gad<F: Nx>(g: &mut G, cap: u32) -> Gad<F> {
    let n = 1usize << ring_log::<F>(g, cap);
    let mb = 64 - F::P.leading_zeros();
    let bits = match g.draw(4) {
        0 => *g.pick(&[1, mb, mb - 1, mb.div_ceil(2), mb / 2]),
        _ => g.us(1, mb as usize) as u32,
    };
    Gad { bits, len: mb.div_ceil(bits) as usize, basis: Basis::new(bits), n, s: key::<F>(g, n) }
}
impl<F: Nx> Gad<F> {
    fn power(&self, i: usize) -> u64 {
        powm(2, (self.bits as usize * i) as u128, F::P)
    }
    /// rows encrypting B^i * m with noise of magnitude at most e
    fn rows(&self, g: &mut G, m: &[u64], e: u64) -> Vec<Ring> {
        let p = F::P;
        (0..self.len)
            .map(|i| {
                let a = g.vec(self.n, p);
                let mut b = negacyclic(&a, &self.s, p);
                for (j, x) in b.iter_mut().enumerate() {
                    let noise = if e == 0 { 0 } else { g.int(0, 2 * e) as i128 - e as i128 };
                    *x = addm(addm(*x, mulm(m[j], self.power(i), p), p), wrap(noise, p), p);
                }
                (a, b)
            })
            .collect()
    }
    fn gadget(&self, rows: &[Ring]) -> GadgetRLWE<F> {
        GadgetRLWE::new(rows.iter().map(rl).collect(), self.basis)
    }
    fn rgsw(&self, g: &mut G, m: &[u64], e: u64) -> RGSW<F> {
        let p = F::P;
        let nsm: Vec<u64> = negacyclic(&self.s, m, p).iter().map(|&x| negm(x, p)).collect();
        let (x, y) = (self.rows(g, &nsm, e), self.rows(g, m, e));
        RGSW::new(self.gadget(&x), self.gadget(&y))
    }
    /// the most a gadget product with rows of noise e can add
    fn bound(&self, e: u64) -> u128 {
        self.len as u128 * self.n as u128 * ((1u128 << self.bits) - 1).min(F::P as u128 - 1) * e as u128
    }
    /// a noise magnitude for which the bound still says something
    fn e(&self, g: &mut G, slack: u128) -> u64 {
        let unit = self.bound(1) * slack;
        let max = ((F::P as u128 / 4) / unit.max(1)).min(50) as u64;
        if max == 0 || g.one_in(3) { 0 } else { g.int(1, max) }
    }
}

fn message<F: Nx>(g: &mut G, n: usize) -> Vec<u64> {
    let p = F::P;
    match g.draw(4) {
        0 => {
            let mut v = vec![0; n];
            v[g.us(0, n - 1)] = [1, p - 1][g.us(0, 1)];
            v
        }
        1 => g.vec(n, 2),
        _ => g.vec(n, p),
    }
}

fn gadget<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let gd = gad::<F>(g, 7);
    let n = gd.n;
    let (m, poly) = (message::<F>(g, n), message::<F>(g, n));
    let e = gd.e(g, 1);
    let rows = gd.rows(g, &m, e);
    let acc = ring::<F>(g, n);
    g.note(|| format!("{} n={n} basis 2^{} ({} rows) noise {e} m={:?} polynomial {:?}", F::NAME, gd.bits, gd.len, &m[..n.min(6)], &poly[..n.min(6)]));
    g.hit_if(gd.len > 1 && poly.iter().any(|&x| x >> gd.bits != 0));
    g.label_if(e > 0, "noisy rows");
    g.label_if(e == 0, "exact rows");
    g.label_if(gd.len == 1, "one row");
    same!(gd.basis.decompose_len(), gd.len, "{} decompose_len of {} bits", F::NAME, gd.bits);
    let ga = gd.gadget(&rows);
    let ng = NTTGadgetRLWE::from(ga.clone());
    let pp = Polynomial::<F>::new(fv(&poly));
    let want = negacyclic(&m, &poly, p);
    let first = of(&ga.mul_polynomial(&pp));
    let d = off(&ring_phase(&first, &gd.s, p), &want, p);
    ensure!(d <= gd.bound(e), "{} n={n} 2^{} gadget product: noise {d} exceeds {}", F::NAME, gd.bits, gd.bound(e));
    let plus = |sign: bool| ring2(&acc, &first, |a, b| if sign { addm(a, b, p) } else { subm(a, b, p) });
    // the variants
    same!(of(&ga.mul_polynomial_add_rlwe(&pp, rl(&acc))), plus(true), "{} mul_polynomial_add_rlwe", F::NAME);
    same!(of(&rl::<F>(&acc).add_gadget_rlwe_mul_polynomial(&ga, &pp)), plus(true), "{} RLWE add_gadget_rlwe_mul_polynomial", F::NAME);
    let x = ng.mul_polynomial(&pp);
    ensure!(canonical(&x), "{} NTT mul_polynomial: not canonical", F::NAME);
    same!(nof(&x), first, "{} NTT mul_polynomial", F::NAME);
    same!(nof(&nrl::<F>(&acc).add_gadget_rlwe_mul_polynomial(&ng, &pp)), plus(true), "{} NTTRLWE add_gadget_rlwe_mul_polynomial", F::NAME);
    let (mut ds, mut ps) = (DecompositionSpace::<F>::new(n), PolynomialSpace::<F>::new(n));
    let mut out = nrl::<F>(&ring::<F>(g, n));
    for round in 0..2 {
        // used buffers
        ds.as_mut_slice().copy_from_slice(&fv::<F>(&g.vec(n, p)));
        ps.as_mut_slice().copy_from_slice(&fv::<F>(&g.vec(n, p)));
        ng.mul_polynomial_inplace(&pp, &mut ds, &mut ps, &mut out);
        ensure!(canonical(&out), "{} mul_polynomial_inplace: not canonical", F::NAME);
        same!(nof(&out), first, "{} mul_polynomial_inplace, round {round}", F::NAME);
        ng.mul_polynomial_inplace_fast(&pp, &mut ds, &mut ps, &mut out);
        same!(nof(&out), first, "{} mul_polynomial_inplace_fast, round {round}", F::NAME);
        let mut t = RLWE::zero(n);
        out.inverse_transform_inplace(&mut t);
        same!(of(&t), first, "{} mul_polynomial_inplace_fast, transformed back", F::NAME);
    }
    let mut x = nrl::<F>(&acc);
    x.add_assign_gadget_rlwe_mul_polynomial(&ng, &pp, &mut ds, &mut ps);
    ensure!(canonical(&x), "{} add_assign_gadget_rlwe_mul_polynomial: not canonical", F::NAME);
    same!(nof(&x), plus(true), "{} add_assign_gadget_rlwe_mul_polynomial", F::NAME);
    let mut x = nrl::<F>(&acc);
    x.add_assign_gadget_rlwe_mul_polynomial_fast(&ng, &pp, &mut ds, &mut ps);
    same!(nof(&x), plus(true), "{} add_assign_gadget_rlwe_mul_polynomial_fast", F::NAME);
    let mut x = nrl::<F>(&acc);
    x.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&ng, &mut pp.clone(), &mut ds);
    same!(nof(&x), plus(true), "{} add_assign_gadget_rlwe_mul_polynomial_inplace_fast", F::NAME);
    // subtraction decomposes the negated polynomial: same phase within the
    // bound, and both of its forms agree
    let mut x = nrl::<F>(&acc);
    x.sub_assign_gadget_rlwe_mul_polynomial_inplace(&ng, pp.clone(), &mut ds);
    ensure!(canonical(&x), "{} sub_assign_gadget_rlwe_mul_polynomial_inplace: not canonical", F::NAME);
    let mut y = nrl::<F>(&acc);
    y.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&ng, &mut pp.clone(), &mut ds);
    same!(nof(&x), nof(&y), "{} the two subtracting forms", F::NAME);
    let want: Vec<u64> = ring_phase(&acc, &gd.s, p).iter().zip(&want).map(|(&a, &b)| subm(a, b, p)).collect();
    let d = off(&ring_phase(&nof(&x), &gd.s, p), &want, p);
    ensure!(d <= gd.bound(e), "{} n={n} 2^{} subtracted gadget product: noise {d} exceeds {}", F::NAME, gd.bits, gd.bound(e));
    same!(uv(pp.as_slice()), poly, "{} operand", F::NAME);
    Ok(())
}

/// sums, differences, containers
fn gadget_lin<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let gd = gad::<F>(g, 6);
    let n = gd.n;
    let (x, y): (Vec<Ring>, Vec<Ring>) = ((0..gd.len).map(|_| ring::<F>(g, n)).collect(), (0..gd.len).map(|_| ring::<F>(g, n)).collect());
    let dirty: Vec<Ring> = (0..gd.len).map(|_| ring::<F>(g, n)).collect();
    g.note(|| format!("{} n={n} basis 2^{} ({} rows)", F::NAME, gd.bits, gd.len));
    g.hit_if(gd.len > 1);
    let poly = g.vec(n, p);
    let np = nt::<F>(&poly);
    let all = |v: &[Ring], w: &[Ring], f: &dyn Fn(u64, u64) -> u64| -> Vec<Ring> { v.iter().zip(w).map(|(a, b)| ring2(a, b, f)).collect() };
    let add = |a: u64, b: u64| addm(a, b, p);
    let sub = |a: u64, b: u64| subm(a, b, p);
    let out = |q: &GadgetRLWE<F>| -> Vec<Ring> { q.iter().map(of).collect() };
    let nout = |q: &NTTGadgetRLWE<F>| -> Vec<Ring> { q.iter().map(nof).collect() };
    let (gx, gy) = (gd.gadget(&x), GadgetRLWE::from((y.iter().map(rl).collect::<Vec<_>>(), gd.basis)));
    let (nx, ny) = (NTTGadgetRLWE::from(gx.clone()), NTTGadgetRLWE::new(y.iter().map(nrl).collect(), gd.basis));
    same!((out(&gx), out(&gy)), (x.clone(), y.clone()), "{} construction", F::NAME);
    same!((nout(&nx), nout(&ny)), (x.clone(), y.clone()), "{} transformed construction", F::NAME);
    ensure!(gx.data() == GadgetRLWE::from_ref(gx.data(), gd.basis).data(), "from_ref");
    ensure!(nx.data() == NTTGadgetRLWE::from_ref(nx.data(), gd.basis).data(), "from_ref");
    ensure!(nx.data() == NTTGadgetRLWE::from((nx.data().to_vec(), gd.basis)).data(), "from tuple");
    same!((gx.basis().bits(), nx.basis().bits()), (gd.bits, gd.bits), "basis");
    // RGSW built of them, in both orders
    let (rx, ry) = (RGSW::new(gx.clone(), gy.clone()), RGSW::from((gy.clone(), gx.clone())));
    let (qx, qy) = (NTTRGSW::from(rx.clone()), NTTRGSW::new(ny.clone(), nx.clone()));
    let halves = |q: &RGSW<F>| (out(q.c_neg_s_m()), out(q.c_m()));
    let nhalves = |q: &NTTRGSW<F>| (nout(q.c_neg_s_m()), nout(q.c_m()));
    same!(halves(&rx), (x.clone(), y.clone()), "RGSW::new");
    same!(halves(&ry), (y.clone(), x.clone()), "RGSW::from");
    same!(halves(&RGSW::from_ref(&gx, &gy)), (x.clone(), y.clone()), "RGSW::from_ref");
    same!(nhalves(&qx), (x.clone(), y.clone()), "NTTRGSW::from");
    same!(nhalves(&qy), (y.clone(), x.clone()), "NTTRGSW::new");
    same!(nhalves(&NTTRGSW::from_ref(&nx, &ny)), (x.clone(), y.clone()), "NTTRGSW::from_ref");
    same!((rx.basis().bits(), qx.basis().bits()), (gd.bits, gd.bits), "RGSW basis");
    let mut d = RGSW::new(gd.gadget(&dirty), gd.gadget(&dirty));
    let mut nd = NTTRGSW::from(d.clone());
    rx.add_inplace(&ry, &mut d);
    qx.add_inplace(&qy, &mut nd);
    let want = (all(&x, &y, &add), all(&y, &x, &add));
    same!(halves(&d), want, "{} RGSW sum", F::NAME);
    same!(nhalves(&nd), want, "{} NTTRGSW sum", F::NAME);
    rx.sub_inplace(&ry, &mut d);
    qx.sub_inplace(&qy, &mut nd);
    let want = (all(&x, &y, &sub), all(&y, &x, &sub));
    same!(halves(&d), want, "{} RGSW difference", F::NAME);
    same!(nhalves(&nd), want, "{} NTTRGSW difference", F::NAME);
    // rx + ry * polynomial
    let prod = |v: &[Ring]| -> Vec<Ring> { v.iter().map(|c| ring1(c, |u| negacyclic(u, &poly, p))).collect() };
    qx.add_ntt_rgsw_mul_ntt_polynomial_inplace(&qy, &np, &mut nd);
    same!(nhalves(&nd), (all(&x, &prod(&y), &add), all(&y, &prod(&x), &add)), "{} NTTRGSW multiply-add", F::NAME);
    let mut t = qx.clone();
    t.mul_ntt_polynomial_assign(&np);
    same!(nhalves(&t), (prod(&x), prod(&y)), "{} NTTRGSW times a polynomial", F::NAME);
    let zero: Vec<Ring> = (0..gd.len).map(|_| (vec![0; n], vec![0; n])).collect();
    t.set_zero();
    same!(nhalves(&t), (zero.clone(), zero.clone()), "set_zero");
    same!(nhalves(&NTTRGSW::zero(n, gd.basis)), (zero.clone(), zero.clone()), "NTTRGSW::zero");
    same!(nout(&NTTGadgetRLWE::zero(n, gd.basis)), zero, "NTTGadgetRLWE::zero");
    same!(nhalves(NTTRGSWSpace::<F>::new(n, gd.basis).get()), (zero.clone(), zero), "NTTRGSWSpace");
    same!(halves(&rx), (x.clone(), y.clone()), "operand");
    same!(nhalves(&qy), (y.clone(), x.clone()), "operand");
    Ok(())
}

/// RLWE times RGSW
fn external<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let gd = gad::<F>(g, 7);
    let n = gd.n;
    let m = message::<F>(g, n);
    let e = gd.e(g, 2);
    let rg = gd.rgsw(g, &m, e);
    let x = ring::<F>(g, n);
    g.note(|| format!("{} n={n} basis 2^{} noise {e} m={:?} ciphertext {:?}", F::NAME, gd.bits, &m[..n.min(6)], (&x.0[..n.min(4)], &x.1[..n.min(4)])));
    g.hit_if(gd.len > 1);
    g.label_if(e > 0, "noisy rows");
    g.label_if(e == 0, "exact rows");
    let nrg = NTTRGSW::from(rg.clone());
    let c = rl::<F>(&x);
    let first = of(&c.mul_rgsw(&rg));
    let want = negacyclic(&ring_phase(&x, &gd.s, p), &m, p);
    let d = off(&ring_phase(&first, &gd.s, p), &want, p);
    ensure!(d <= 2 * gd.bound(e), "{} n={n} 2^{} external product: noise {d} exceeds {}", F::NAME, gd.bits, 2 * gd.bound(e));
    same!(of(&c.mul_ntt_rgsw(&nrg)), first, "{} mul_ntt_rgsw", F::NAME);
    let (mut ds, mut ps, mut med) = (DecompositionSpace::<F>::new(n), PolynomialSpace::<F>::new(n), NTTRLWESpace::<F>::new(n));
    for round in 0..2 {
        ds.as_mut_slice().copy_from_slice(&fv::<F>(&g.vec(n, p)));
        ps.as_mut_slice().copy_from_slice(&fv::<F>(&g.vec(n, p)));
        *med.get_mut() = nrl(&ring::<F>(g, n));
        let mut out = rl::<F>(&ring::<F>(g, n));
        c.mul_ntt_rgsw_inplace(&nrg, &mut ds, &mut ps, &mut med, &mut out);
        same!(of(&out), first, "{} mul_ntt_rgsw_inplace, round {round}", F::NAME);
        let mut out = c.clone();
        out.mul_assign_ntt_rgsw(&nrg, &mut ds, &mut ps, &mut med);
        same!(of(&out), first, "{} mul_assign_ntt_rgsw, round {round}", F::NAME);
    }
    same!(of(&c), x, "operand");
    Ok(())
}

/// several products in a row, one set of buffers
fn chain<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let gd = gad::<F>(g, 5);
    let n = gd.n;
    let k = g.us(2, 6);
    let e = gd.e(g, 2 * k as u128);
    let x = ring::<F>(g, n);
    let (mut ds, mut ps, mut med) = (DecompositionSpace::<F>::new(n), PolynomialSpace::<F>::new(n), NTTRLWESpace::<F>::new(n));
    let mut c = rl::<F>(&x);
    let mut want = ring_phase(&x, &gd.s, p);
    let mut turns = vec![];
    for i in 0..k {
        // messages 0, 1 or plus or minus a monomial keep the old noise as it is
        let r = g.us(0, 2 * n);
        let mut m = vec![0; n];
        if r < 2 * n {
            m[r % n] = if r < n { 1 } else { p - 1 };
        }
        turns.push(r);
        let rg = gd.rgsw(g, &m, e);
        let nrg = NTTRGSW::from(rg.clone());
        if g.one_in(4) {
            c = c.mul_rgsw(&rg);
        } else if g.bool() {
            c.mul_assign_ntt_rgsw(&nrg, &mut ds, &mut ps, &mut med);
        } else {
            let mut out = RLWE::zero(n);
            c.mul_ntt_rgsw_inplace(&nrg, &mut ds, &mut ps, &mut med, &mut out);
            c = out;
        }
        want = negacyclic(&want, &m, p);
        let d = off(&ring_phase(&of(&c), &gd.s, p), &want, p);
        let bound = 2 * (i as u128 + 1) * gd.bound(e);
        ensure!(d <= bound, "{} n={n} 2^{} after {} products: noise {d} exceeds {bound}", F::NAME, gd.bits, i + 1);
    }
    g.note(|| format!("{} n={n} basis 2^{} noise {e} by the monomials {turns:?} (2n: by 0)", F::NAME, gd.bits));
    g.hit_if(turns.iter().all(|&r| r != 2 * n));
    Ok(())
}

/// RGSW times RGSW
fn rgsw_product<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let gd = gad::<F>(g, 4);
    let n = gd.n;
    let (m1, m2) = (message::<F>(g, n), message::<F>(g, n));
    let x = gd.rgsw(g, &m1, 0);
    // the right factor's basis is its own
    let mut gs = gad::<F>(g, 1);
    (gs.n, gs.s) = (n, gd.s.clone());
    let e = gs.e(g, 2);
    let y = gs.rgsw(g, &m2, e);
    g.note(|| format!("{} n={n} bases 2^{} and 2^{} noise {e} {:?} times {:?}", F::NAME, gd.bits, gs.bits, &m1[..n.min(6)], &m2[..n.min(6)]));
    g.hit_if(gd.len > 1 && m1 != m2);
    let z = x.mul_small_rgsw(&y);
    let z2 = x.mul_small_ntt_rgsw(&NTTRGSW::from(y.clone()));
    let m = negacyclic(&m1, &m2, p);
    let nsm: Vec<u64> = negacyclic(&gd.s, &m, p).iter().map(|&v| negm(v, p)).collect();
    same!((z.c_m().data().len(), z.c_neg_s_m().data().len(), z.basis().bits()), (gd.len, gd.len, gd.bits), "shape");
    for i in 0..gd.len {
        for (half, base) in [(z.c_m(), &m), (z.c_neg_s_m(), &nsm)] {
            let want: Vec<u64> = base.iter().map(|&v| mulm(v, gd.power(i), p)).collect();
            let d = off(&ring_phase(&of(&half.data()[i]), &gd.s, p), &want, p);
            ensure!(d <= 2 * gs.bound(e), "{} n={n} RGSW product, row {i}: noise {d} exceeds {}", F::NAME, 2 * gs.bound(e));
        }
        ensure!(z.c_m().data()[i] == z2.c_m().data()[i] && z.c_neg_s_m().data()[i] == z2.c_neg_s_m().data()[i], "{} the two RGSW products differ in row {i}", F::NAME);
    }
    Ok(())
}

/// what the generated samples encrypt, row by row
fn generated<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let gd = gad::<F>(g, 6);
    let n = gd.n;
    let (sampler, bound) = noise::<F>(g, (p - 1) / 4);
    let ns = nt::<F>(&gd.s);
    let mut rng = g.rng();
    g.note(|| format!("{} n={n} basis 2^{} ({} rows) key {:?} deviation {}", F::NAME, gd.bits, gd.len, &gd.s[..n.min(6)], sampler.std_dev()));
    g.hit_if(gd.len > 1);
    g.label_if(bound == 0, "no noise");
    let one: Vec<u64> = (0..n).map(|i| (i == 0) as u64).collect();
    let neg: Vec<u64> = gd.s.iter().map(|&x| negm(x, p)).collect();
    let zero = vec![0; n];
    let rows = |what: &str, rows: Vec<Ring>, m: &[u64]| -> R {
        same!(rows.len(), gd.len, "{} {what}: rows", F::NAME);
        for (i, r) in rows.iter().enumerate() {
            ensure!(r.0.iter().chain(&r.1).all(|&x| x < p), "{} {what} row {i}: not canonical", F::NAME);
            let ph = ring_phase(r, &gd.s, p);
            let want: Vec<u64> = m.iter().map(|&v| mulm(v, gd.power(i), p)).collect();
            let d = off(&ph, &want, p);
            ensure!(d <= bound as u128, "{} n={n} basis 2^{}: {what} row {i} is {d} away from what it should encrypt (noise bound {bound})", F::NAME, gd.bits);
        }
        if n as f64 * (p as f64).log2() > 80.0 {
            let masks: std::collections::HashSet<_> = rows.iter().map(|r| r.0.clone()).collect();
            same!(masks.len(), rows.len(), "{} {what}: masks repeat", F::NAME);
        }
        Ok(())
    };
    let of_g = |q: &GadgetRLWE<F>| q.iter().map(of).collect::<Vec<_>>();
    let of_n = |q: &NTTGadgetRLWE<F>| q.iter().map(nof).collect::<Vec<_>>();
    let b = gd.basis;
    rows("gadget zero sample", of_g(&GadgetRLWE::generate_random_zero_sample(&ns, b, sampler, &mut rng)), &zero)?;
    rows("gadget one sample", of_g(&GadgetRLWE::generate_random_one_sample(&ns, b, sampler, &mut rng)), &one)?;
    rows("gadget negated-key sample", of_g(&GadgetRLWE::generate_random_neg_secret_sample(&ns, b, sampler, &mut rng)), &neg)?;
    rows("transformed gadget zero sample", of_n(&NTTGadgetRLWE::generate_random_zero_sample(&ns, b, sampler, &mut rng)), &zero)?;
    rows("transformed gadget one sample", of_n(&NTTGadgetRLWE::generate_random_one_sample(&ns, b, sampler, &mut rng)), &one)?;
    rows("transformed gadget negated-key sample", of_n(&NTTGadgetRLWE::generate_random_neg_secret_sample(&ns, b, sampler, &mut rng)), &neg)?;
    let q = RGSW::<F>::generate_random_zero_sample(&ns, b, sampler, &mut rng);
    rows("RGSW zero sample, key half", of_g(q.c_neg_s_m()), &zero)?;
    rows("RGSW zero sample, message half", of_g(q.c_m()), &zero)?;
    let q = RGSW::<F>::generate_random_one_sample(&ns, b, sampler, &mut rng);
    rows("RGSW one sample, key half", of_g(q.c_neg_s_m()), &neg)?;
    rows("RGSW one sample, message half", of_g(q.c_m()), &one)?;
    let q = NTTRGSW::<F>::generate_random_zero_sample(&ns, b, sampler, &mut rng);
    rows("transformed RGSW zero sample, key half", of_n(q.c_neg_s_m()), &zero)?;
    rows("transformed RGSW zero sample, message half", of_n(q.c_m()), &zero)?;
    let q = NTTRGSW::<F>::generate_random_one_sample(&ns, b, sampler, &mut rng);
    rows("transformed RGSW one sample, key half", of_n(q.c_neg_s_m()), &neg)?;
    rows("transformed RGSW one sample, message half", of_n(q.c_m()), &one)?;
    // and they work: a ciphertext times an encryption of one is itself
    let x = ring::<F>(g, n);
    let c = rl::<F>(&x);
    let d = off(&ring_phase(&of(&c.mul_ntt_rgsw(&q)), &gd.s, p), &ring_phase(&x, &gd.s, p), p);
    ensure!(d <= 2 * gd.bound(bound) || 2 * gd.bound(bound) >= p as u128 / 2, "{} times an encryption of one: noise {d} exceeds {}", F::NAME, 2 * gd.bound(bound));
    Ok(())
}

/// the reusable buffers
fn spaces<F: Nx>(g: &mut G) -> R {
    let n = 1usize << ring_log::<F>(g, 6);
    g.hit();
    let v = fv::<F>(&g.vec(n, F::P));
    let zero = vec![F::mk(0); n];
    let mut a = DecompositionSpace::<F>::new(n);
    let mut b = PolynomialSpace::<F>::new(n);
    let mut c = NTTPolynomialSpace::<F>::new(n);
    let mut d = NTTRLWESpace::<F>::new(n);
    let mut e = RLWESpace::<F>::new(n);
    ensure!(a.get().as_slice() == zero && b.get().as_slice() == zero && c.get().as_slice() == zero && d.get() == &NTTRLWE::zero(n) && e.get() == &RLWE::zero(n), "fresh buffers are zero");
    a.as_mut_slice().copy_from_slice(&v);
    b.as_mut_slice().copy_from_slice(&v);
    c.as_mut_slice().copy_from_slice(&v);
    d.b_mut_slice().copy_from_slice(&v);
    e.a_mut_slice().copy_from_slice(&v);
    ensure!(a.get().as_slice() == v && b.get().as_slice() == v && c.get().as_slice() == v && d.get().b_slice() == v && e.get().a_slice() == v, "buffers keep what is written");
    ensure!(a.get_mut().as_slice() == v && b.get_mut().as_slice() == v && c.get_mut().as_slice() == v && d.get_mut().b_slice() == v && e.get_mut().a_slice() == v, "get_mut");
    let _ = FieldUniformSampler::<F>::new().sample(&mut g.rng());
    Ok(())
}

macro_rules! each {
    ($v:ident, $name:literal, $f:ident, [$($t:ident),*], $q:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($t)), $q, $th, $rule, $f::<$t>)); )*
    };
}

fn main() {
    let rule = "3 ciphertexts, 1..10 operations, dimension 0..200; native, power-of-two and other moduli; non-trivial: dimension above 0";
    let mut c16 = vec![sub("word-u8", 300_000, 5_000_000, rule, lwe_u8), sub("word-u16", 300_000, 5_000_000, rule, lwe_u16), sub("word-u32", 300_000, 5_000_000, rule, lwe_u32), sub("word-u64", 300_000, 5_000_000, rule, lwe_u64)];
    each!(c16, "field", lwe_field, [A3, A59, B16381, Cmax, Dmax, N17, N12289, N30, N62], 200_000, 2_000_000, "dimension 0..200; non-trivial: dimension above 0");
    let rule = "keys binary, ternary, constant or arbitrary, deviations 0..10, four samples each; non-trivial: dimension and noise above 0";
    c16.push(sub("zero-u8", 100_000, 1_500_000, rule, zero_u8));
    c16.push(sub("zero-u16", 100_000, 1_500_000, rule, zero_u16));
    c16.push(sub("zero-u32", 100_000, 1_500_000, rule, zero_u32));
    c16.push(sub("zero-u64", 100_000, 1_500_000, rule, zero_u64));

    let mut c17 = vec![];
    each!(c17, "operators", operators, [N17, N257, N7681, N12289, N27, N30, N50, N60, N62], 30_000, 500_000, "1..8 operations on 3 ciphertexts kept in both forms, n = 2^1..2^8");
    each!(c17, "phase", phases, [N17, N257, N12289, N30, N62], 30_000, 500_000, "n = 2^1..2^7; non-trivial: the key is not zero");
    each!(c17, "every-rotation", rotate_all, [N257, N12289, N27, N30, N62], 258, 64_500, "every r in 0..=2n for n = 2^1..2^6");
    each!(c17, "rotate", rotate, [N17, N257, N7681, N12289, N27, N30, N50, N60, N62], 80_000, 1_500_000, "n = 2^1..2^10, r in 0..=2n, used destination; non-trivial: r is neither 0 nor 2n");
    each!(c17, "extract", extract, [N17, N257, N7681, N12289, N27, N30, N50, N60, N62], 80_000, 1_500_000, "n = 2^1..2^10, every partial length, both layouts; non-trivial: key and mask not zero");
    each!(c17, "samples", samples, [N257, N12289, N27, N30, N50, N62], 30_000, 500_000, "keys of every kind, deviations 0..1000; non-trivial: there is noise");

    let mut c18 = vec![];
    each!(c18, "gadget", gadget, [N17, N257, N7681, N12289, N27, N30, N50, N60, N62], 20_000, 300_000, "basis widths 1..all bits, n = 2^1..2^7, exact and noisy rows, every variant; non-trivial: several rows and a polynomial with upper digits");
    each!(c18, "linear", gadget_lin, [N17, N257, N12289, N30, N50, N62], 15_000, 250_000, "gadget and RGSW containers and linear operations; non-trivial: several rows");
    each!(c18, "external", external, [N17, N257, N7681, N12289, N27, N30, N50, N60, N62], 15_000, 250_000, "RLWE times RGSW, every variant, used buffers; non-trivial: several rows");
    each!(c18, "chain", chain, [N257, N12289, N27, N30, N50, N62], 10_000, 150_000, "2..6 products by monomials with one set of buffers; non-trivial: no factor is zero");
    each!(c18, "rgsw-product", rgsw_product, [N257, N12289, N27, N30, N50, N62], 4_000, 60_000, "RGSW times RGSW with independent bases; non-trivial: several rows, different messages");
    each!(c18, "generated", generated, [N257, N7681, N12289, N27, N30, N30b, N50, N60, N62], 8_000, 125_000, "every generated sample of 0, 1 and the negated key, row by row; non-trivial: several rows");
    each!(c18, "spaces", spaces, [N257, N30, N62], 500, 25_000, "buffers start zero and keep what is written");

    harness::engine::main(vec![
        Prop { id: "C16", subs: c16, assumptions: &["components are below the modulus"] },
        Prop { id: "C17", subs: c17, assumptions: &["n >= 2", "r at most 2n"] },
        Prop { id: "C18", subs: c18, assumptions: &["n >= 2", "basis width at most the modulus width"] },
    ])
}
