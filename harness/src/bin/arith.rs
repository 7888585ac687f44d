//! C01..C07: modular and word-level integer arithmetic.

use algebra::modulus::*;
use algebra::reduce::*;
use algebra::utils::{ExtendedGCD, Prime};
use algebra::{AsFrom, AsInto, BorrowingSub, CarryingAdd, CarryingMul, WideningMul};
use harness::engine::*;
use harness::oracle::*;
use harness::{ensure, same};

/// any exponent of a randomly chosen type, as (value, kind)
fn exponent(g: &mut G) -> (u128, usize) {
    let kind = g.us(0, 4);
    let bits = [8u32, 16, 32, 64, 128][kind];
    let lo = g.edge(0, if bits >= 64 { u64::MAX } else { (1 << bits) - 1 });
    let e = if bits == 128 { ((g.edge(0, u64::MAX) as u128) << 64) | lo as u128 } else { lo as u128 };
    (e, kind)
}

macro_rules! exp_any {
    ($x:expr, $e:expr, $kind:expr, $m:expr) => {
        match $kind {
            0 => $x.exp_reduce($e as u8, $m),
            1 => $x.exp_reduce($e as u16, $m),
            2 => $x.exp_reduce($e as u32, $m),
            3 => $x.exp_reduce($e as u64, $m),
            _ => $x.exp_reduce($e, $m),
        }
    };
}

macro_rules! width {
    ($name:ident, $T:ty, $S:ty) => {
        mod $name {
            use super::*;
            type T = $T;
            const BITS: u32 = T::BITS;
            const TMAX: u64 = T::MAX as u64;
            fn t(x: u64) -> T {
                x as T
            }

            fn barrett_modulus(g: &mut G) -> (u64, BarrettModulus<T>) {
                let m = g.edge(2, TMAX >> 2);
                (m, BarrettModulus::<T>::new(t(m)))
            }

            // ---------------------------------------------------------- C01
            pub fn barrett_reduce(g: &mut G) -> R {
                let (m, bm) = barrett_modulus(g);
                same!(bm.value() as u64, m, "value()");
                same!(bm.bit_count(), 64 - m.leading_zeros(), "bit_count of {m}");
                let x = g.edge(0, TMAX);
                // the low word of a multiple of m is worth trying too
                let hi = g.edge(0, TMAX);
                let near = g.one_in(4);
                let d = g.int(0, 2);
                let (lo, hi) = if near {
                    let w = ((hi as u128) << BITS) | x as u128;
                    let w = ((w / m as u128) * m as u128).saturating_add(d as u128);
                    let w = if w >> (2 * BITS.min(63)) != 0 && BITS < 64 { w & ((1u128 << (2 * BITS)) - 1) } else { w };
                    (((w as u64) & TMAX), ((w >> BITS) as u64) & TMAX)
                } else {
                    (x, hi)
                };
                g.note(|| format!("m={m} lo={lo} hi={hi}"));
                g.hit_if(lo >= m && hi != 0);
                g.label_if(m.is_power_of_two(), "m power of two");
                g.label_if(hi >= m, "high word not below m");
                let wide = ((hi as u128) << BITS) | lo as u128;
                let (e1, e2) = (lo % m, (wide % m as u128) as u64);
                same!(t(lo).reduce(bm) as u64, e1, "{lo} mod {m}");
                same!([t(lo), t(hi)].reduce(bm) as u64, e2, "[{lo},{hi}] mod {m}");
                same!((t(lo), t(hi)).reduce(bm) as u64, e2, "({lo},{hi}) mod {m}");
                let mut a = t(lo);
                a.reduce_assign(bm);
                same!(a as u64, e1, "reduce_assign {lo} mod {m}");
                for (what, r, e) in [
                    ("word", t(lo).lazy_reduce(bm) as u64, e1),
                    ("array", [t(lo), t(hi)].lazy_reduce(bm) as u64, e2),
                    ("tuple", (t(lo), t(hi)).lazy_reduce(bm) as u64, e2),
                ] {
                    ensure!(r % m == e && r < 2 * m, "lazy {what} ({lo},{hi}) mod {m}: {r}, want {e} (+{m})");
                }
                let mut a = t(lo);
                a.lazy_reduce_assign(bm);
                ensure!(a as u64 % m == e1 && (a as u64) < 2 * m, "lazy_reduce_assign {lo} mod {m}: {a}");
                Ok(())
            }

            pub fn barrett_multiword(g: &mut G) -> R {
                let (m, bm) = barrett_modulus(g);
                let n = g.us(1, 9);
                let v: Vec<u64> = (0..n).map(|_| g.edge(0, TMAX)).collect();
                g.note(|| format!("m={m} words={v:?}"));
                g.hit_if(n >= 2 && v[n - 1] != 0);
                g.label_if(n == 1, "one word");
                let want = v.iter().rev().fold(0u64, |acc, &x| ((((acc as u128) << BITS) | x as u128) % m as u128) as u64);
                let w: Vec<T> = v.iter().map(|&x| t(x)).collect();
                same!(w.as_slice().reduce(bm) as u64, want, "slice {v:?} mod {m}");
                let r = w.as_slice().lazy_reduce(bm) as u64;
                ensure!(r % m == want && r < 2 * m, "lazy slice {v:?} mod {m}: {r}, want {want} (+{m})");
                Ok(())
            }

            pub fn barrett_ops(g: &mut G) -> R {
                let (m, bm) = barrett_modulus(g);
                let a = g.edge(0, m - 1);
                let b = g.edge(0, m - 1);
                g.note(|| format!("m={m} a={a} b={b}"));
                g.hit_if(a > 1 && b > 1);
                g.label_if(a + b >= m, "sum wraps");
                g.label_if(a < b, "difference wraps");
                g.label_if(a == 0 || b == 0, "zero operand");
                let (x, y) = (t(a), t(b));
                same!(x.add_reduce(y, bm) as u64, addm(a, b, m), "{a}+{b} mod {m}");
                same!(x.sub_reduce(y, bm) as u64, subm(a, b, m), "{a}-{b} mod {m}");
                same!(NegReduce::<BarrettModulus<T>>::neg_reduce(x, bm) as u64, negm(a, m), "-{a} mod {m}");
                same!(x.mul_reduce(y, bm) as u64, mulm(a, b, m), "{a}*{b} mod {m}");
                let mut z = x;
                z.add_reduce_assign(y, bm);
                same!(z as u64, addm(a, b, m), "{a}+={b} mod {m}");
                let mut z = x;
                z.sub_reduce_assign(y, bm);
                same!(z as u64, subm(a, b, m), "{a}-={b} mod {m}");
                let mut z = x;
                z.neg_reduce_assign(bm);
                same!(z as u64, negm(a, m), "neg assign {a} mod {m}");
                let mut z = x;
                z.mul_reduce_assign(y, bm);
                same!(z as u64, mulm(a, b, m), "{a}*={b} mod {m}");
                let l = x.lazy_mul_reduce(y, bm) as u64;
                ensure!(l < 2 * m && l % m == mulm(a, b, m), "lazy {a}*{b} mod {m} = {l}");
                let mut z = x;
                z.lazy_mul_reduce_assign(y, bm);
                ensure!((z as u64) < 2 * m && z as u64 % m == mulm(a, b, m), "lazy {a}*={b} mod {m} = {z}");
                // unreduced operands are reduced by a multiplication
                let (ua, ub) = (g.edge(0, TMAX), g.edge(0, TMAX));
                same!(t(ua).mul_reduce(t(ub), bm) as u64, mulm(ua, ub, m), "{ua}*{ub} mod {m} (unreduced)");
                Ok(())
            }

            pub fn barrett_exp_inv(g: &mut G) -> R {
                let (m, bm) = barrett_modulus(g);
                let a = g.edge(0, m - 1);
                let b = g.edge(0, m - 1);
                let (e, kind) = exponent(g);
                let k = g.us(0, 70) as u32;
                g.note(|| format!("m={m} a={a} b={b} e={e}"));
                g.hit_if(a > 1 && e > 1);
                g.label_if(e == 0, "exponent 0");
                g.label_if(e.is_power_of_two(), "exponent 2^k");
                let x = t(a);
                same!(exp_any!(x, e, kind, bm) as u64, powm(a, e, m), "{a}^{e} mod {m}");
                let mut want = a;
                for _ in 0..k {
                    want = mulm(want, want, m);
                }
                same!(x.exp_power_of_2_reduce(k, bm) as u64, want, "{a}^(2^{k}) mod {m}");
                let y = t(b);
                match invm(b, m).filter(|_| b != 0) {
                    Some(i) => {
                        g.label("unit divisor");
                        same!(InvReduce::<BarrettModulus<T>>::inv_reduce(y, bm) as u64, i, "1/{b} mod {m}");
                        let mut z = y;
                        InvReduceAssign::<BarrettModulus<T>>::inv_reduce_assign(&mut z, bm);
                        same!(z as u64, i, "inv assign {b} mod {m}");
                        same!(x.div_reduce(y, bm) as u64, mulm(a, i, m), "{a}/{b} mod {m}");
                        let mut z = x;
                        z.div_reduce_assign(y, bm);
                        same!(z as u64, mulm(a, i, m), "{a}/={b} mod {m}");
                    }
                    None => {
                        g.label("non-unit divisor");
                        ensure!(no_panic(|| x.div_reduce(y, bm)).is_none(), "{a}/{b} mod {m} did not panic");
                    }
                }
                Ok(())
            }

            pub fn barrett_dot(g: &mut G) -> R {
                let (m, bm) = barrett_modulus(g);
                let n = if g.bool() { g.len(70) } else { *g.pick(&[15usize, 16, 17, 31, 32, 33, 47, 48, 64, 1, 0, 160]) };
                let a = g.vec(n, m);
                let b = g.vec(n, m);
                g.note(|| format!("m={m} n={n} a={a:?} b={b:?}"));
                g.hit_if(n > 0 && a.iter().any(|&x| x > 1) && b.iter().any(|&x| x > 1));
                g.label_if(n % 16 != 0, "length not a multiple of 16");
                g.label_if(n > 16 && n % 16 == 0, "several full blocks");
                g.label_if(n == 0, "empty");
                let want = a.iter().zip(&b).fold(0, |acc, (&x, &y)| addm(acc, mulm(x, y, m), m));
                let (a, b): (Vec<T>, Vec<T>) = (a.iter().map(|&x| t(x)).collect(), b.iter().map(|&x| t(x)).collect());
                same!(T::dot_product_reduce(&a, &b, bm) as u64, want, "dot product mod {m} of {a:?} and {b:?}");
                Ok(())
            }

            pub fn barrett_reject(g: &mut G) -> R {
                let m = match g.draw(4) {
                    0 => g.int(0, 1),
                    1 => (TMAX >> 2) + 1,
                    2 => TMAX,
                    _ => g.edge((TMAX >> 2) + 1, TMAX),
                };
                g.note(|| format!("modulus {m}"));
                g.hit();
                ensure!(no_panic(|| BarrettModulus::<T>::new(t(m))).is_none(), "modulus {m} of {} bits was accepted", BITS);
                Ok(())
            }

            // ---------------------------------------------------------- C02
            pub fn pow2(g: &mut G) -> R {
                let k = g.us(1, BITS as usize - 1) as u32;
                let m = 1u64 << k;
                let pm = PowOf2Modulus::<T>::new(t(m));
                same!(pm.value() as u64, m, "value()");
                same!(pm.mask() as u64, m - 1, "mask()");
                let x = g.edge(0, TMAX);
                let (a, b) = (g.edge(0, m - 1), g.edge(0, m - 1));
                let (e, kind) = exponent(g);
                let ep = g.us(0, 70) as u32;
                g.note(|| format!("m=2^{k} x={x} a={a} b={b} e={e}"));
                g.hit_if(a > 1 && b > 1);
                g.label_if(k == BITS - 1, "largest modulus");
                g.label_if(k == 1, "modulus 2");
                same!(t(x).reduce(pm) as u64, x % m, "{x} mod {m}");
                let mut z = t(x);
                z.reduce_assign(pm);
                same!(z as u64, x % m, "reduce_assign {x} mod {m}");
                let (p, q) = (t(a), t(b));
                same!(p.add_reduce(q, pm) as u64, addm(a, b, m), "{a}+{b} mod {m}");
                same!(p.sub_reduce(q, pm) as u64, subm(a, b, m), "{a}-{b} mod {m}");
                same!(NegReduce::<PowOf2Modulus<T>>::neg_reduce(p, pm) as u64, negm(a, m), "-{a} mod {m}");
                same!(p.mul_reduce(q, pm) as u64, mulm(a, b, m), "{a}*{b} mod {m}");
                let mut z = p;
                z.add_reduce_assign(q, pm);
                same!(z as u64, addm(a, b, m), "{a}+={b} mod {m}");
                let mut z = p;
                z.sub_reduce_assign(q, pm);
                same!(z as u64, subm(a, b, m), "{a}-={b} mod {m}");
                let mut z = p;
                z.neg_reduce_assign(pm);
                same!(z as u64, negm(a, m), "neg_assign {a} mod {m}");
                let mut z = p;
                z.mul_reduce_assign(q, pm);
                same!(z as u64, mulm(a, b, m), "{a}*={b} mod {m}");
                same!(exp_any!(p, e, kind, pm) as u64, powm(a, e, m), "{a}^{e} mod {m}");
                let mut want = a;
                for _ in 0..ep {
                    want = mulm(want, want, m);
                }
                same!(p.exp_power_of_2_reduce(ep, pm) as u64, want, "{a}^(2^{ep}) mod {m}");
                let n = g.len(40);
                let (u, v) = (g.vec(n, m), g.vec(n, m));
                let want = u.iter().zip(&v).fold(0, |acc, (&x, &y)| addm(acc, mulm(x, y, m), m));
                let (u, v): (Vec<T>, Vec<T>) = (u.iter().map(|&x| t(x)).collect(), v.iter().map(|&x| t(x)).collect());
                same!(T::dot_product_reduce(&u, &v, pm) as u64, want, "dot mod {m} of {u:?} {v:?}");
                Ok(())
            }

            pub fn pow2_reject(g: &mut G) -> R {
                let m = g.edge(0, TMAX);
                g.note(|| format!("modulus {m}"));
                let bad = !(m > 1 && m.is_power_of_two());
                g.hit_if(bad);
                same!(no_panic(|| PowOf2Modulus::<T>::new(t(m))).is_none(), bad, "rejection of {m}");
                Ok(())
            }

            pub fn native(g: &mut G) -> R {
                let (a, b) = (g.edge(0, TMAX), g.edge(0, TMAX));
                let e = g.edge(0, u32::MAX as u64);
                g.note(|| format!("a={a} b={b} e={e}"));
                g.hit_if(a > 1 && b > 1);
                let mask = TMAX as u128;
                let (p, q) = (t(a), t(b));
                let add = ((a as u128 + b as u128) & mask) as u64;
                let sub = ((a as u128).wrapping_sub(b as u128) & mask) as u64;
                let neg = (0u128.wrapping_sub(a as u128) & mask) as u64;
                let mul = ((a as u128 * b as u128) & mask) as u64;
                same!(p.reduce(()) as u64, a, "reduce");
                let mut z = p;
                z.reduce_assign(());
                same!(z as u64, a, "reduce_assign");
                same!(p.add_reduce(q, ()) as u64, add, "{a}+{b}");
                same!(p.sub_reduce(q, ()) as u64, sub, "{a}-{b}");
                same!(NegReduce::<()>::neg_reduce(p, ()) as u64, neg, "-{a}");
                same!(p.mul_reduce(q, ()) as u64, mul, "{a}*{b}");
                let mut z = p;
                z.add_reduce_assign(q, ());
                same!(z as u64, add, "{a}+={b}");
                let mut z = p;
                z.sub_reduce_assign(q, ());
                same!(z as u64, sub, "{a}-={b}");
                let mut z = p;
                NegReduceAssign::<()>::neg_reduce_assign(&mut z, ());
                same!(z as u64, neg, "neg {a}");
                let mut z = p;
                z.mul_reduce_assign(q, ());
                same!(z as u64, mul, "{a}*={b}");
                if b != 0 {
                    same!(p.div_reduce(q, ()) as u64, a / b, "{a}/{b}");
                    let mut z = p;
                    z.div_reduce_assign(q, ());
                    same!(z as u64, a / b, "{a}/={b}");
                }
                let mut want = 1u128;
                let mut base = a as u128 & mask;
                let mut k = e;
                while k > 0 {
                    if k & 1 == 1 {
                        want = want.wrapping_mul(base) & mask;
                    }
                    base = base.wrapping_mul(base) & mask;
                    k >>= 1;
                }
                same!(p.exp_reduce(e as u32, ()) as u64, want as u64, "{a}^{e}");
                Ok(())
            }

            /// plain integer modulus: needs one spare bit
            pub fn raw(g: &mut G) -> R {
                let m = g.edge(1, TMAX >> 1);
                let (a, b) = (g.edge(0, m - 1), g.edge(0, m - 1));
                g.note(|| format!("m={m} a={a} b={b}"));
                g.hit_if(a > 0 && b > 0);
                let (p, q, m_) = (t(a), t(b), t(m));
                same!(p.add_reduce(q, m_) as u64, addm(a, b, m), "{a}+{b} mod {m}");
                same!(p.sub_reduce(q, m_) as u64, subm(a, b, m), "{a}-{b} mod {m}");
                same!(NegReduce::<T>::neg_reduce(p, m_) as u64, negm(a, m), "-{a} mod {m}");
                let mut z = p;
                z.add_reduce_assign(q, m_);
                same!(z as u64, addm(a, b, m), "{a}+={b} mod {m}");
                let mut z = p;
                z.sub_reduce_assign(q, m_);
                same!(z as u64, subm(a, b, m), "{a}-={b} mod {m}");
                let mut z = p;
                NegReduceAssign::<T>::neg_reduce_assign(&mut z, m_);
                same!(z as u64, negm(a, m), "neg {a} mod {m}");
                Ok(())
            }

            // ---------------------------------------------------------- C03
            pub fn shoup(g: &mut G) -> R {
                let mut m = g.edge(2, TMAX >> 1);
                let mut v = g.edge(0, m - 1);
                let mut f = ShoupFactor::<T>::new(t(v), t(m));
                let steps = g.us(0, 3);
                let mut how = String::new();
                for _ in 0..steps {
                    if g.bool() {
                        m = g.edge(2, TMAX >> 1);
                        v = g.edge(0, m - 1);
                        f.set(t(v), t(m));
                        how += "set ";
                    } else {
                        // a new modulus for the same value
                        m = g.edge((v + 1).max(2), TMAX >> 1);
                        f.set_modulus(t(m));
                        how += "set_modulus ";
                    }
                }
                let b = if g.bool() { g.edge(0, TMAX) } else { g.edge(0, m - 1) };
                g.note(|| format!("m={m} value={v} rhs={b} after {how}"));
                g.hit_if(v > 1 && b > 1);
                g.label_if(b >= m, "operand not reduced");
                g.label_if(steps > 0, "factor was replaced");
                same!(f.value() as u64, v, "value()");
                same!(f.quotient() as u64, (((v as u128) << BITS) / m as u128) as u64, "quotient of {v} mod {m}");
                let want = mulm(v, b, m);
                same!(MulReduce::<T, ShoupFactor<T>>::mul_reduce(t(b), f, t(m)) as u64, want, "{b}*factor({v}) mod {m}");
                same!(MulReduce::<T, T>::mul_reduce(f, t(b), t(m)) as u64, want, "factor({v})*{b} mod {m}");
                let mut z = t(b);
                z.mul_reduce_assign(f, t(m));
                same!(z as u64, want, "{b}*=factor({v}) mod {m}");
                let l = f.mul_reduce_lazy(t(b), t(m)) as u64;
                ensure!(l < 2 * m && l % m == want, "lazy factor({v})*{b} mod {m} = {l}, want {want} (+{m})");
                Ok(())
            }

            // ---------------------------------------------------------- C05
            /// The signed coefficients of the extended form need two spare bits.
            pub fn gcds(g: &mut G) -> R {
                let mut a = g.edge(1, TMAX);
                let mut b = g.edge(1, TMAX);
                if g.one_in(3) {
                    // a common factor
                    let f = g.edge(1, 1 << (BITS / 4));
                    a = (a / f).max(1);
                    b = (b / f).max(1);
                    if a as u128 * (f as u128) <= TMAX as u128 && b as u128 * f as u128 <= TMAX as u128 {
                        a *= f;
                        b *= f;
                    }
                }
                g.note(|| format!("a={a} b={b}"));
                let d = gcd(a, b);
                g.hit_if(d > 1 && a != b && a % b != 0 && b % a != 0);
                g.label_if(d == 1, "coprime");
                g.label_if(a % b == 0 || b % a == 0, "one divides the other");
                let (x, y) = (t(a), t(b));
                same!(ExtendedGCD::gcd(x, y) as u64, d, "gcd({a},{b})");
                same!(ExtendedGCD::gcd(t(0), y) as u64, b, "gcd(0,{b})");
                same!(ExtendedGCD::gcd(x, t(0)) as u64, a, "gcd({a},0)");
                same!(ExtendedGCD::coprime(x, y), d == 1, "coprime({a},{b})");
                same!(ExtendedGCD::not_coprime(x, y), d != 1, "not_coprime({a},{b})");
                let (a, b) = (a & (TMAX >> 2), b & (TMAX >> 2));
                if a == 0 || b == 0 {
                    return Ok(());
                }
                let d = gcd(a, b);
                let (u, v, r) = <T as ExtendedGCD>::extended_gcd(t(a), t(b));
                same!(r as u64, d, "extended gcd({a},{b})");
                same!(u as i128 * a as i128 + v as i128 * b as i128, d as i128, "{u}*{a}+{v}*{b}");
                Ok(())
            }

            fn inv_case(a: u64, m: u64) -> R {
                let want = if a == 0 { None } else { invm(a, m) };
                let got = TryInvReduce::<T>::try_inv_reduce(t(a), t(m));
                match (want, got) {
                    (Some(i), Ok(r)) => {
                        same!(r as u64, i, "try_inv {a} mod {m}");
                        same!(InvReduce::<T>::inv_reduce(t(a), t(m)) as u64, i, "inv {a} mod {m}");
                        if m >= 2 && m <= TMAX >> 2 {
                            let bm = BarrettModulus::<T>::new(t(m));
                            same!(InvReduce::<BarrettModulus<T>>::inv_reduce(t(a), bm) as u64, i, "barrett inv {a} mod {m}");
                        }
                        Ok(())
                    }
                    (None, Err(_)) => {
                        ensure!(no_panic(|| InvReduce::<T>::inv_reduce(t(a), t(m))).is_none(), "inv {a} mod {m} did not panic");
                        Ok(())
                    }
                    (w, r) => Err(format!("try_inv {a} mod {m}: got {r:?}, expected {w:?}")),
                }
            }

            pub fn inverse(g: &mut G) -> R {
                let m = g.edge(2, TMAX >> 2);
                let mut a = g.edge(0, m - 1);
                if g.one_in(3) {
                    // force a shared factor
                    let f = gcd(m, g.edge(2, m));
                    if f > 1 {
                        a = (a / f) * f;
                    }
                }
                g.note(|| format!("{a} modulo {m}"));
                g.hit_if(a > 1);
                g.label_if(gcd(a, m) == 1, "unit");
                g.label_if(gcd(a, m) != 1, "not a unit");
                g.label_if(a + 1 == m, "-1");
                inv_case(a, m)
            }

            pub fn inverse_exhaustive_row(m: u64) -> R {
                for a in 0..m {
                    inv_case(a, m)?;
                }
                Ok(())
            }

            // ---------------------------------------------------------- C07
            pub fn wide_case(a: u64, b: u64, c: u64, carry: bool) -> R {
                let (x, y, z) = (t(a), t(b), t(c));
                let mask = TMAX as u128;
                let p = a as u128 * b as u128;
                same!(WideningMul::widening_mul(x, y), ((p & mask) as T, (p >> BITS) as T), "widening_mul({a},{b})");
                same!(WideningMul::widening_mul_hw(x, y), (p >> BITS) as T, "widening_mul_hw({a},{b})");
                let pc = p + c as u128;
                same!(CarryingMul::carrying_mul(x, y, z), ((pc & mask) as T, (pc >> BITS) as T), "carrying_mul({a},{b},{c})");
                same!(CarryingMul::carrying_mul_hw(x, y, z), (pc >> BITS) as T, "carrying_mul_hw({a},{b},{c})");
                let s = a as u128 + b as u128 + carry as u128;
                same!(CarryingAdd::carrying_add(x, y, carry), ((s & mask) as T, s > mask), "carrying_add({a},{b},{carry})");
                let d = a as i128 - b as i128 - carry as i128;
                same!(BorrowingSub::borrowing_sub(x, y, carry), ((d as u128 & mask) as T, d < 0), "borrowing_sub({a},{b},{carry})");
                Ok(())
            }
            pub fn wide(g: &mut G) -> R {
                let (a, b, c, k) = (g.edge(0, TMAX), g.edge(0, TMAX), g.edge(0, TMAX), g.bool());
                g.note(|| format!("a={a} b={b} c={c} carry={k}"));
                g.hit_if(a > 1 && b > 1);
                g.label_if(a as u128 + b as u128 + k as u128 > TMAX as u128, "sum overflows");
                g.label_if((a as u128 + b as u128) == TMAX as u128 && k, "carry ripples");
                g.label_if(a == b && k, "borrow only from the carry");
                wide_case(a, b, c, k)
            }
            pub fn wrapping(g: &mut G) -> R {
                let (a, b) = (g.edge(0, TMAX), g.edge(0, TMAX));
                let sh = g.edge(0, u32::MAX as u64) as u32;
                g.note(|| format!("a={a} b={b} shift={sh}"));
                g.hit_if(a > 1 && b > 1);
                let mask = TMAX as u128;
                fn ops<X: algebra::WrappingOps>(a: X, b: X, s: u32) -> [X; 6] {
                    [a.wrapping_add(b), a.wrapping_sub(b), a.wrapping_mul(b), a.wrapping_neg(), a.wrapping_shl(s), a.wrapping_shr(s)]
                }
                let s = sh % BITS;
                let want = [
                    a as u128 + b as u128,
                    (a as u128).wrapping_sub(b as u128),
                    a as u128 * b as u128,
                    0u128.wrapping_sub(a as u128),
                    (a as u128) << s,
                    (a as u128) >> s,
                ]
                .map(|w| (w & mask) as T);
                same!(ops(t(a), t(b), sh), want, "wrapping add/sub/mul/neg/shl/shr of {a},{b},{sh}");
                let w = std::num::Wrapping(t(a));
                let v = std::num::Wrapping(t(b));
                same!(ops(w, v, sh).map(|x| x.0), want, "the same inside Wrapping");
                // signed: the same bits, arithmetic right shift
                let (x, y) = (t(a) as $S, t(b) as $S);
                let mut sw = want.map(|w| w as $S);
                sw[5] = ((x as i128) >> s) as $S;
                same!(ops(x, y, sh), sw, "signed wrapping of {x},{y},{sh}");
                Ok(())
            }
            pub fn casts(g: &mut G) -> R {
                let a = g.edge(0, TMAX);
                g.note(|| format!("{a} from u{BITS}"));
                g.hit_if(a > 127);
                let x = t(a);
                macro_rules! to {
                    ($d:ty, $v:expr) => {{
                        let r: $d = x.as_into();
                        same!(r, $v, "{a} to {}", stringify!($d));
                        same!(<$d as AsFrom<T>>::as_from(x), $v, "{a} to {} by as_from", stringify!($d));
                    }};
                }
                let low = |bits: u32| if bits >= 64 { a } else { a & ((1u64 << bits) - 1) };
                let sign = |bits: u32| {
                    let v = low(bits) as i128;
                    if bits < 128 && v >> (bits - 1) & 1 == 1 { v - (1i128 << bits) } else { v }
                };
                to!(u8, low(8) as u8);
                to!(u16, low(16) as u16);
                to!(u32, low(32) as u32);
                to!(u64, low(64));
                to!(u128, a as u128);
                to!(usize, a as usize);
                to!(i8, sign(8) as i8);
                to!(i16, sign(16) as i16);
                to!(i32, sign(32) as i32);
                to!(i64, sign(64) as i64);
                to!(i128, a as i128);
                // floating point: nearest, and back (saturating)
                let f: f64 = x.as_into();
                let fa = (a >> 32) as f64 * 4294967296.0 + (a & 0xffff_ffff) as f64;
                same!(f, fa, "{a} to f64");
                if a < 1 << 53 {
                    same!(<T as AsFrom<f64>>::as_from(f) as u64, a, "{a} through f64");
                }
                let half = fa + 0.5;
                if a < 1 << 51 && a < TMAX {
                    same!(<T as AsFrom<f64>>::as_from(half) as u64, a, "{half} truncates");
                }
                same!(<T as AsFrom<bool>>::as_from(a & 1 == 1) as u64, a & 1, "bool");
                Ok(())
            }
        }
    };
}
width!(w8, u8, i8);
width!(w16, u16, i16);
width!(w32, u32, i32);
width!(w64, u64, i64);

/// every u8 modulus, every word, every reduced pair
fn u8_all(g: &mut G) -> R {
    let m = 2 + g.turn(62);
    g.hit();
    g.note(|| format!("modulus {m}: all 256 words, all 65536 double words, all reduced pairs"));
    let bm = BarrettModulus::<u8>::new(m as u8);
    for x in 0..=255u64 {
        same!((x as u8).reduce(bm) as u64, x % m, "{x} mod {m}");
        let l = (x as u8).lazy_reduce(bm) as u64;
        ensure!(l < 2 * m && l % m == x % m, "lazy {x} mod {m} = {l}");
        for h in 0..=255u64 {
            let w = (h << 8) | x;
            same!([x as u8, h as u8].reduce(bm) as u64, w % m, "{w} mod {m}");
            same!((x as u8, h as u8).reduce(bm) as u64, w % m, "{w} mod {m}");
            let l = [x as u8, h as u8].lazy_reduce(bm) as u64;
            ensure!(l < 2 * m && l % m == w % m, "lazy {w} mod {m} = {l}");
        }
    }
    for a in 0..m {
        for b in 0..m {
            let (x, y) = (a as u8, b as u8);
            same!(x.add_reduce(y, bm) as u64, (a + b) % m, "{a}+{b} mod {m}");
            same!(x.sub_reduce(y, bm) as u64, (a + m - b) % m, "{a}-{b} mod {m}");
            same!(x.mul_reduce(y, bm) as u64, (a * b) % m, "{a}*{b} mod {m}");
            same!(x.exp_reduce(y, bm) as u64, powm(a, b as u128, m), "{a}^{b} mod {m}");
        }
    }
    Ok(())
}

fn shoup_u8_all(g: &mut G) -> R {
    let m = 2 + g.turn(126);
    g.hit();
    g.note(|| format!("modulus {m}: all multipliers, all words"));
    for v in 0..m {
        let f = ShoupFactor::<u8>::new(v as u8, m as u8);
        for b in 0..=255u64 {
            same!(MulReduce::<u8, ShoupFactor<u8>>::mul_reduce(b as u8, f, m as u8) as u64, v * b % m, "{v}*{b} mod {m}");
            let l = f.mul_reduce_lazy(b as u8, m as u8) as u64;
            ensure!(l < 2 * m && l % m == v * b % m, "lazy {v}*{b} mod {m} = {l}");
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C04
const BB: u64 = 0x7800_0001;
const GL: u64 = 0xFFFF_FFFF_0000_0001;

fn bb_case(g: &mut G) -> R {
    let a = g.edge(0, BB - 1);
    let b = g.edge(0, BB - 1);
    let (e, kind) = exponent(g);
    g.note(|| format!("a={a} b={b} e={e}"));
    g.hit_if(a > 1 && b > 1);
    let md = BabyBearModulus;
    let r = (1u64 << 32) % BB;
    let to = |x: u64| mulm(x, r, BB);
    let (x, y) = (to_monty(a as u32), to_monty(b as u32));
    same!(x as u64, to(a), "to_monty({a})");
    same!(from_monty(x) as u64, a, "from_monty(to_monty({a}))");
    // every u32 is a valid internal input of from_monty and every word of to_monty
    let w = g.edge(0, u32::MAX as u64);
    same!(from_monty(w as u32) as u64, mulm(w, invm(r, BB).unwrap(), BB), "from_monty({w})");
    same!(to_monty(w as u32) as u64, to(w % BB), "to_monty({w})");
    same!([MONTY_ZERO, MONTY_ONE, MONTY_TWO, MONTY_NEG_ONE].map(u64::from), [0, to(1), to(2), to(BB - 1)], "constants");
    let chk = |what: &str, got: u32, want: u64| -> R {
        ensure!((got as u64) < BB, "{what}: internal value {got} is not below the prime");
        same!(from_monty(got) as u64, want, "{what}");
        Ok(())
    };
    chk(&format!("{a}+{b}"), x.add_reduce(y, md), addm(a, b, BB))?;
    chk(&format!("{a}-{b}"), x.sub_reduce(y, md), subm(a, b, BB))?;
    chk(&format!("-{a}"), NegReduce::<BabyBearModulus>::neg_reduce(x, md), negm(a, BB))?;
    chk(&format!("{a}*{b}"), x.mul_reduce(y, md), mulm(a, b, BB))?;
    let mut z = x;
    z.add_reduce_assign(y, md);
    chk("+=", z, addm(a, b, BB))?;
    let mut z = x;
    z.sub_reduce_assign(y, md);
    chk("-=", z, subm(a, b, BB))?;
    let mut z = x;
    NegReduceAssign::<BabyBearModulus>::neg_reduce_assign(&mut z, md);
    chk("neg assign", z, negm(a, BB))?;
    let mut z = x;
    z.mul_reduce_assign(y, md);
    chk("*=", z, mulm(a, b, BB))?;
    if e == 0 {
        g.label("exponent 0");
        let got: u32 = exp_any!(x, e, kind, md);
        if got == 1 {
            g.known("babybear-exp-zero", "raising to the power 0 returns the raw word 1 instead of the internal form of 1")?;
        } else {
            chk(&format!("{a}^0"), got, 1)?;
        }
    } else {
        chk(&format!("{a}^{e}"), exp_any!(x, e, kind, md), powm(a, e, BB))?;
    }
    let k = g.us(0, 70) as u32;
    let mut want = a;
    for _ in 0..k {
        want = mulm(want, want, BB);
    }
    chk(&format!("{a}^(2^{k})"), ExpPowOf2Reduce::<BabyBearModulus>::exp_power_of_2_reduce(x, k, md), want)?;
    match invm(b, BB).filter(|_| b != 0) {
        Some(i) => {
            chk(&format!("1/{b}"), InvReduce::<BabyBearModulus>::inv_reduce(y, md), i)?;
            let t = TryInvReduce::<BabyBearModulus>::try_inv_reduce(y, md).map_err(|e| format!("1/{b} refused: {e}"))?;
            chk(&format!("try 1/{b}"), t, i)?;
            let mut z = y;
            InvReduceAssign::<BabyBearModulus>::inv_reduce_assign(&mut z, md);
            chk("inv assign", z, i)?;
            chk(&format!("{a}/{b}"), x.div_reduce(y, md), mulm(a, i, BB))?;
            let mut z = x;
            z.div_reduce_assign(y, md);
            chk("/=", z, mulm(a, i, BB))?;
        }
        None => {
            g.label("zero divisor");
            ensure!(TryInvReduce::<BabyBearModulus>::try_inv_reduce(y, md).is_err(), "1/0 accepted");
            ensure!(no_panic(|| InvReduce::<BabyBearModulus>::inv_reduce(y, md)).is_none(), "1/0 did not panic");
        }
    }
    let n = g.len(40);
    let (u, v) = (g.vec(n, BB), g.vec(n, BB));
    let want = u.iter().zip(&v).fold(0, |acc, (&x, &y)| addm(acc, mulm(x, y, BB), BB));
    let mu: Vec<u32> = u.iter().map(|&x| to_monty(x as u32)).collect();
    let mv: Vec<u32> = v.iter().map(|&x| to_monty(x as u32)).collect();
    chk("dot product", u32::dot_product_reduce(&mu, &mv, md), want)
}

fn gl_value(g: &mut G) -> u64 {
    match g.draw(4) {
        0 => g.edge(0, u64::MAX),
        1 => g.edge(GL, u64::MAX),
        2 => g.edge(GL - 5, GL + 5),
        _ => g.edge(0, GL - 1),
    }
}

/// One operation on any representatives (any u64 stands for its residue).
fn gl_case(g: &mut G) -> R {
    let a = gl_value(g);
    let b = gl_value(g);
    let (e, kind) = exponent(g);
    g.note(|| format!("a={a} b={b} e={e}"));
    g.hit_if(a > 1 && b > 1);
    g.label_if(a >= GL || b >= GL, "representative at or above the prime");
    let md = GoldilocksModulus;
    let (ra, rb) = (a % GL, b % GL);
    same!(a.reduce(md), ra, "reduce {a}");
    let mut z = a;
    z.reduce_assign(md);
    same!(z, ra, "reduce_assign {a}");
    same!(to_canonical_u64(a), ra, "to_canonical_u64({a})");
    let chk = |what: String, got: u64, want: u64| -> R {
        same!(got % GL, want, "{what} (representative {got})");
        Ok(())
    };
    chk(format!("{a}+{b}"), a.add_reduce(b, md), addm(ra, rb, GL))?;
    chk(format!("{a}-{b}"), a.sub_reduce(b, md), subm(ra, rb, GL))?;
    chk(format!("-{a}"), NegReduce::<GoldilocksModulus>::neg_reduce(a, md), negm(ra, GL))?;
    chk(format!("{a}*{b}"), a.mul_reduce(b, md), mulm(ra, rb, GL))?;
    let mut z = a;
    z.add_reduce_assign(b, md);
    chk("+=".into(), z, addm(ra, rb, GL))?;
    let mut z = a;
    z.sub_reduce_assign(b, md);
    chk("-=".into(), z, subm(ra, rb, GL))?;
    let mut z = a;
    NegReduceAssign::<GoldilocksModulus>::neg_reduce_assign(&mut z, md);
    chk("neg assign".into(), z, negm(ra, GL))?;
    let mut z = a;
    z.mul_reduce_assign(b, md);
    chk("*=".into(), z, mulm(ra, rb, GL))?;
    chk(format!("{a}^{e}"), exp_any!(a, e, kind, md), powm(ra, e, GL))?;
    let k = g.us(0, 70) as u32;
    let mut want = ra;
    for _ in 0..k {
        want = mulm(want, want, GL);
    }
    chk(format!("{a}^(2^{k})"), ExpPowOf2Reduce::<GoldilocksModulus>::exp_power_of_2_reduce(a, k, md), want)?;
    match invm(rb, GL).filter(|_| rb != 0) {
        Some(i) => {
            chk(format!("1/{b}"), InvReduce::<GoldilocksModulus>::inv_reduce(b, md), i)?;
            let t = TryInvReduce::<GoldilocksModulus>::try_inv_reduce(b, md).map_err(|e| format!("1/{b} refused: {e}"))?;
            chk(format!("try 1/{b}"), t, i)?;
            let mut z = b;
            InvReduceAssign::<GoldilocksModulus>::inv_reduce_assign(&mut z, md);
            chk("inv assign".into(), z, i)?;
            chk(format!("{a}/{b}"), a.div_reduce(b, md), mulm(ra, i, GL))?;
            let mut z = a;
            z.div_reduce_assign(b, md);
            chk("/=".into(), z, mulm(ra, i, GL))?;
        }
        None => {
            g.label("zero divisor");
            ensure!(TryInvReduce::<GoldilocksModulus>::try_inv_reduce(b, md).is_err(), "1/{b} accepted though it is zero");
            ensure!(no_panic(|| InvReduce::<GoldilocksModulus>::inv_reduce(b, md)).is_none(), "1/{b} did not panic");
        }
    }
    let n = g.len(40);
    let (u, v): (Vec<u64>, Vec<u64>) = ((0..n).map(|_| gl_value(g)).collect(), (0..n).map(|_| gl_value(g)).collect());
    let want = u.iter().zip(&v).fold(0, |acc, (&x, &y)| addm(acc, mulm(x % GL, y % GL, GL), GL));
    chk("dot product".into(), u64::dot_product_reduce(&u, &v, md), want)
}

/// A chain in which each result is an operand of the next, against exact residues.
fn chain(g: &mut G) -> R {
    let bear = g.bool();
    let p = if bear { BB } else { GL };
    let len = g.us(1, 24);
    let n0 = g.us(2, 4);
    let mut model: Vec<u64> = (0..n0).map(|_| if bear { g.edge(0, p - 1) } else { gl_value(g) % p }).collect();
    let mut real: Vec<u64> = model.iter().map(|&x| if bear { to_monty(x as u32) as u64 } else { x }).collect();
    let mut script = String::new();
    let mut off = false;
    for _ in 0..len {
        let op = g.draw(if bear { 7 } else { 8 });
        let i = g.us(0, model.len() - 1);
        let j = g.us(0, model.len() - 1);
        let (ma, mb) = (model[i], model[j]);
        let (ra, rb) = (real[i], real[j]);
        let e = g.edge(1, u64::MAX);
        script += &format!("{}({i},{j}) ", ["add", "sub", "neg", "mul", "exp", "inv", "div", "reduce"][op as usize]);
        let want = match op {
            0 => addm(ma, mb, p),
            1 => subm(ma, mb, p),
            2 => negm(ma, p),
            3 => mulm(ma, mb, p),
            4 => powm(ma, e as u128, p),
            5 if ma != 0 => invm(ma, p).unwrap(),
            6 if mb != 0 => mulm(ma, invm(mb, p).unwrap(), p),
            7 => ma,
            _ => continue,
        };
        let got = if bear {
            let (x, y, md) = (ra as u32, rb as u32, BabyBearModulus);
            (match op {
                0 => x.add_reduce(y, md),
                1 => x.sub_reduce(y, md),
                2 => NegReduce::<BabyBearModulus>::neg_reduce(x, md),
                3 => x.mul_reduce(y, md),
                4 => x.exp_reduce(e, md),
                5 => InvReduce::<BabyBearModulus>::inv_reduce(x, md),
                _ => x.div_reduce(y, md),
            }) as u64
        } else {
            let (x, y, md) = (ra, rb, GoldilocksModulus);
            match op {
                0 => x.add_reduce(y, md),
                1 => x.sub_reduce(y, md),
                2 => NegReduce::<GoldilocksModulus>::neg_reduce(x, md),
                3 => x.mul_reduce(y, md),
                4 => x.exp_reduce(e, md),
                5 => InvReduce::<GoldilocksModulus>::inv_reduce(x, md),
                6 => x.div_reduce(y, md),
                _ => x.reduce(md),
            }
        };
        off |= got >= p;
        let seen = if bear { from_monty(got as u32) as u64 } else { got % GL };
        same!(seen, want, "after {script}on {ma} and {mb} (internal {ra} and {rb}, result {got}, exponent {e})");
        if op == 7 {
            same!(got, want, "reduce of {ra} is not canonical");
        }
        model.push(want);
        real.push(got);
    }
    g.note(|| format!("{} start {:?}: {script}", if bear { "BabyBear" } else { "Goldilocks" }, &model[..n0]));
    g.hit_if(len >= 3);
    g.label(if bear { "BabyBear" } else { "Goldilocks" });
    g.label_if(off, "an intermediate representative at or above the prime");
    Ok(())
}

// -------------------------------------------------------------------- C05
fn inverse_u8_all(g: &mut G) -> R {
    let m = 2 + g.turn(62);
    g.hit();
    g.note(|| format!("all operands modulo {m} (u8); all pairs with {m} for gcd"));
    w8::inverse_exhaustive_row(m)?;
    w16::inverse_exhaustive_row(m)?;
    for b in 1..64u64 {
        let (u, v, r) = <u8 as ExtendedGCD>::extended_gcd(m as u8, b as u8);
        same!(r as u64, gcd(m, b), "extended gcd({m},{b})");
        same!(u as i128 * m as i128 + v as i128 * b as i128, r as i128, "Bezout of ({m},{b})");
    }
    Ok(())
}
fn gcd_u8_all(g: &mut G) -> R {
    let a = g.turn(256);
    g.hit();
    g.note(|| format!("gcd of {a} with every u8"));
    for b in 0..256u64 {
        same!(ExtendedGCD::gcd(a as u8, b as u8) as u64, gcd(a, b), "gcd({a},{b})");
        if a > 0 && b > 0 {
            same!(ExtendedGCD::coprime(a as u8, b as u8), gcd(a, b) == 1, "coprime({a},{b})");
            same!(ExtendedGCD::not_coprime(a as u8, b as u8), gcd(a, b) != 1, "not_coprime({a},{b})");
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C06
const ROUNDS: usize = 20;
fn is_pp(v: u64, width: u32) -> bool {
    match width {
        8 => BarrettModulus::<u8>::new(v as u8).probably_prime(ROUNDS),
        16 => BarrettModulus::<u16>::new(v as u16).probably_prime(ROUNDS),
        32 => BarrettModulus::<u32>::new(v as u32).probably_prime(ROUNDS),
        _ => BarrettModulus::<u64>::new(v).probably_prime(ROUNDS),
    }
}
fn prime_check(v: u64, prime: bool) -> R {
    for w in [8u32, 16, 32, 64] {
        if v <= (if w == 64 { u64::MAX } else { (1 << w) - 1 }) >> 2 {
            same!(is_pp(v, w), prime, "primality of {v} as u{w}");
        }
    }
    Ok(())
}
/// every number below 2^14 (all accepted u8 and u16 moduli)
fn prime_small(g: &mut G) -> R {
    let lo = g.turn(256) * 64;
    g.hit();
    g.note(|| format!("{}..{}", lo.max(2), lo + 64));
    for v in lo.max(2)..lo + 64 {
        prime_check(v, is_prime(v))?;
    }
    Ok(())
}
fn prime_composites(g: &mut G) -> R {
    let v = match g.draw(5) {
        0 => {
            g.label("product of two primes");
            let p = next_prime(g.edge(59, 1 << 30));
            let q = next_prime(g.edge(59, 1 << 30));
            p * q
        }
        1 => {
            g.label("prime power");
            let p = next_prime(g.edge(59, 1 << 15));
            let k = g.int(2, 3) as u32;
            p.pow(k)
        }
        2 => {
            // (6k+1)(12k+1)(18k+1) with all factors prime is a Carmichael number
            let mut k = g.int(10, 40000);
            while !(is_prime(6 * k + 1) && is_prime(12 * k + 1) && is_prime(18 * k + 1)) {
                k += 1;
            }
            g.label("Carmichael");
            (6 * k + 1) * (12 * k + 1) * (18 * k + 1)
        }
        3 => {
            // p(2p-1): rich in strong pseudoprimes
            let mut p = g.int(60, 1 << 29) | 1;
            while !(is_prime(p) && is_prime(2 * p - 1)) {
                p += 2;
            }
            g.label("p(2p-1)");
            p * (2 * p - 1)
        }
        _ => {
            g.label("any odd number");
            g.edge(1 << 14, u64::MAX >> 2) | 1
        }
    } & (u64::MAX >> 2);
    let prime = is_prime(v);
    g.note(|| format!("{v}, prime: {prime}"));
    g.hit_if(!prime);
    g.label_if(!prime && strong_probable_prime(v, 2), "strong pseudoprime to base 2");
    if v < 2 {
        return Ok(());
    }
    prime_check(v, prime)
}
/// Composites that pass the strong test to base 2, found by search, are what a
/// defective round loop lets through.
fn prime_pseudo(g: &mut G) -> R {
    // n = p(2p-1) or p(3p-2), p prime: probable candidates; search from a random start
    let k = g.int(2, 4);
    let mut p = g.edge(60, 1 << 27) | 1;
    let mut tries = 0;
    let v = loop {
        tries += 1;
        if tries > 4000 {
            return Ok(());
        }
        let q = k * (p - 1) + 1;
        if is_prime(p) && is_prime(q) && strong_probable_prime(p * q, 2) {
            break p * q;
        }
        p += 2;
    };
    g.note(|| format!("{v} passes the strong test to base 2"));
    g.hit();
    // does the sequence pass through -1, or is it 1 at once?
    let s = (v - 1).trailing_zeros();
    let x = powm(2, ((v - 1) >> s) as u128, v);
    g.label_if(x != 1 && x != v - 1, "reaches -1 after squarings");
    prime_check(v, false)
}
/// the strong pseudoprimes to base 2 below 2^20, all (46), plus published larger ones
fn prime_spsp2(g: &mut G) -> R {
    const LIST: [u64; 62] = [
        2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 104653, 130561, 196093,
        220729, 233017, 252601, 253241, 256999, 271951, 280601, 314821, 357761, 390937, 458989, 476971, 486737, 489997, 514447, 580337,
        635401, 647089, 741751, 800605, 818201, 838861, 873181, 877099, 916327, 976873, 983401, 1373653, 25326001, 3215031751,
        2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 1194649, 12327121, 4759123141, 1122004669633, 561, 1105, 1729,
        2465, 2821,
    ];
    let v = LIST[g.turn(LIST.len() as u64) as usize];
    g.note(|| format!("{v}"));
    g.hit();
    if v > u64::MAX >> 2 {
        return Ok(());
    }
    ensure!(!is_prime(v), "list entry {v} is prime");
    prime_check(v, false)
}
fn prime_primes(g: &mut G) -> R {
    let v = g.edge(2, (u64::MAX >> 2) - 400);
    let v = if g.bool() { next_prime(v) } else { prev_prime(v.max(2)) };
    g.note(|| format!("prime {v}"));
    g.hit();
    prime_check(v, true)
}

// field types report whether their modulus is prime
mod fields {
    use algebra::derive::*;
    macro_rules! ft {
        ($n:ident, $t:ident, $m:tt) => {
            #[derive(Field, Prime)]
            #[modulus = $m]
            pub struct $n($t);
        };
    }
    ft!(A, u8, 61);
    ft!(B, u8, 57);
    ft!(C, u16, 16381);
    ft!(D, u16, 16383);
    ft!(E, u32, 132120577);
    ft!(F, u32, 3277);
    ft!(H, u32, 49141);
    ft!(I, u64, 1152921504606830593);
    ft!(J, u64, 3825123056546413051);
    ft!(K, u64, 2);
    ft!(L, u8, 4);
    ft!(M, u64, 65281);
}
fn field_prime(g: &mut G) -> R {
    use algebra::PrimeField;
    let i = g.turn(12);
    g.hit();
    let (m, got) = match i {
        0 => (61, fields::A::is_prime_field()),
        1 => (57, fields::B::is_prime_field()),
        2 => (16381, fields::C::is_prime_field()),
        3 => (16383, fields::D::is_prime_field()),
        4 => (132120577, fields::E::is_prime_field()),
        5 => (3277, fields::F::is_prime_field()),
        6 => (49141, fields::H::is_prime_field()),
        7 => (1152921504606830593, fields::I::is_prime_field()),
        8 => (3825123056546413051, fields::J::is_prime_field()),
        9 => (2, fields::K::is_prime_field()),
        10 => (4, fields::L::is_prime_field()),
        _ => (65281u64, fields::M::is_prime_field()),
    };
    g.note(|| format!("field type with modulus {m}"));
    same!(got, is_prime(m), "is_prime_field of the field type with modulus {m}");
    Ok(())
}

// -------------------------------------------------------------------- C07
fn wide_u8_all(g: &mut G) -> R {
    let a = g.turn(256);
    let c = g.edge(0, 255);
    g.hit();
    g.note(|| format!("{a} with every u8, carry word {c}"));
    for b in 0..256 {
        for k in [false, true] {
            w8::wide_case(a, b, c, k)?;
        }
    }
    Ok(())
}
fn reversal(g: &mut G) -> R {
    use algebra::utils::ReverseLsbs;
    let bits = g.us(0, 63) as u32;
    let x = g.edge(0, u64::MAX) & if bits == 0 { 0 } else { u64::MAX >> (64 - bits) };
    g.note(|| format!("{x} over {bits} bits"));
    g.hit_if(bits > 1 && x > 0);
    let want = (0..bits).fold(0u64, |r, i| (r << 1) | ((x >> i) & 1));
    same!(x.reverse_lsbs(bits), want, "{x} reversed over {bits} bits (u64)");
    same!((x as usize).reverse_lsbs(bits), want as usize, "{x} reversed over {bits} bits (usize)");
    same!((x as u128).reverse_lsbs(bits), want as u128, "{x} reversed over {bits} bits (u128)");
    if bits < 32 {
        same!((x as u32).reverse_lsbs(bits), want as u32, "{x} reversed over {bits} bits (u32)");
    }
    if bits < 16 {
        same!((x as u16).reverse_lsbs(bits), want as u16, "{x} reversed over {bits} bits (u16)");
    }
    if bits < 8 {
        same!((x as u8).reverse_lsbs(bits), want as u8, "{x} reversed over {bits} bits (u8)");
    }
    Ok(())
}

macro_rules! all_widths {
    ($v:ident, $base:literal, $f:ident, $q:expr, $t:expr, $rule:expr) => {
        $v.push(sub(concat!($base, "-u8"), $q * 6, $t, $rule, w8::$f));
        $v.push(sub(concat!($base, "-u16"), $q * 6, $t, $rule, w16::$f));
        $v.push(sub(concat!($base, "-u32"), $q * 6, $t, $rule, w32::$f));
        $v.push(sub(concat!($base, "-u64"), $q * 6, $t, $rule, w64::$f));
    };
}

fn main() {
    let mut c01 = vec![sub("u8-exhaustive", 62, 62, "every accepted u8 modulus with every word, double word and reduced pair", u8_all)];
    all_widths!(c01, "reduce", barrett_reduce, 250_000, 12_000_000, "edge-biased modulus, word and double word (some within 2 of a multiple of the modulus); non-trivial: low word >= modulus and high word != 0");
    all_widths!(c01, "multiword", barrett_multiword, 60_000, 3_000_000, "1..9 edge-biased words; non-trivial: at least two words, top word non-zero");
    all_widths!(c01, "ops", barrett_ops, 250_000, 12_000_000, "edge-biased reduced operands; non-trivial: both > 1");
    all_widths!(c01, "exp-inv-div", barrett_exp_inv, 30_000, 1_000_000, "operands, exponents of 8..128 bits, divisors unit or not; non-trivial: base and exponent > 1");
    all_widths!(c01, "dot", barrett_dot, 30_000, 1_000_000, "two vectors of equal length 0..160; non-trivial: both have an entry > 1");
    all_widths!(c01, "reject", barrett_reject, 300, 5_000, "moduli outside the accepted range");

    let mut c02 = vec![];
    all_widths!(c02, "pow2", pow2, 60_000, 2_000_000, "every power of two from 2 to 2^(bits-1); non-trivial: both operands > 1");
    all_widths!(c02, "pow2-reject", pow2_reject, 2_000, 50_000, "non-trivial: the modulus is not a power of two above 1");
    all_widths!(c02, "native", native, 150_000, 4_000_000, "all words; non-trivial: both operands > 1");
    all_widths!(c02, "raw", raw, 150_000, 4_000_000, "moduli with a spare bit; non-trivial: both operands non-zero");

    let mut c03 = vec![sub("u8-exhaustive", 126, 126, "every u8 modulus with a spare bit, every multiplier, every word", shoup_u8_all)];
    all_widths!(c03, "shoup", shoup, 400_000, 15_000_000, "edge-biased modulus, multiplier and any second word, after 0..3 replacements of the multiplier or modulus; non-trivial: both > 1");

    let c04 = vec![
        sub("babybear", 1_500_000, 6_000_000, "edge-biased operands; non-trivial: both > 1", bb_case),
        sub("goldilocks", 1_500_000, 6_000_000, "any u64 as representative, a quarter at or above the prime; non-trivial: both > 1", gl_case),
        sub("chain", 1_000_000, 4_000_000, "1..24 operations on earlier results; non-trivial: at least 3 operations", chain),
    ];

    let mut c05 = vec![
        sub("u8-inverse-exhaustive", 62, 62, "every u8 modulus with every operand", inverse_u8_all),
        sub("u8-gcd-exhaustive", 256, 256, "every pair of u8", gcd_u8_all),
    ];
    all_widths!(c05, "gcd", gcds, 100_000, 4_000_000, "positive pairs, a third with a planted common factor; non-trivial: gcd > 1 and neither divides the other");
    all_widths!(c05, "inverse", inverse, 60_000, 3_000_000, "moduli with two spare bits, a third of operands sharing a factor; non-trivial: operand > 1");

    let c06 = vec![
        sub("exhaustive-14-bit", 256, 256, "every modulus below 2^14 in every width that holds it", prime_small),
        sub("known-pseudoprimes", 62, 62, "strong pseudoprimes to small bases and Carmichael numbers", prime_spsp2),
        sub("pseudoprimes", 15_000, 60_000, "composites passing the strong test to base 2, searched from random starts", prime_pseudo),
        sub("composites", 60_000, 300_000, "semiprimes, prime powers, Carmichael numbers, random odd numbers; non-trivial: composite", prime_composites),
        sub("primes", 15_000, 60_000, "primes next to edge-biased starts", prime_primes),
        sub("field-types", 12, 12, "derived field types with prime and composite moduli", field_prime),
    ];

    let mut c07 = vec![sub("u8-exhaustive", 512, 4096, "every pair of u8 with a carry word", wide_u8_all)];
    all_widths!(c07, "wide", wide, 300_000, 12_000_000, "edge-biased triples; non-trivial: both factors > 1");
    all_widths!(c07, "wrapping", wrapping, 150_000, 5_000_000, "edge-biased operands and shift amounts; non-trivial: both > 1");
    all_widths!(c07, "casts", casts, 60_000, 2_000_000, "edge-biased words to every type; non-trivial: above 127");
    c07.push(sub("reverse", 100_000, 3_000_000, "indices of 0..63 bits; non-trivial: more than one bit, non-zero", reversal));

    main_(vec![
        Prop { id: "C01", subs: c01, assumptions: &[] },
        Prop { id: "C02", subs: c02, assumptions: &[] },
        Prop { id: "C03", subs: c03, assumptions: &["factors are used with a modulus that leaves at least one spare bit"] },
        Prop { id: "C04", subs: c04, assumptions: &["a Goldilocks value stands for its residue: intermediate results need not be canonical, reduce() and to_canonical_u64() must be"] },
        Prop { id: "C05", subs: c05, assumptions: &["the extended form is asked for positive operands with two spare bits, the range the modulus types accept"] },
        Prop { id: "C06", subs: c06, assumptions: &["20 rounds, as the derive macro uses; a composite passing all random bases has probability below 4^-19"] },
        Prop { id: "C07", subs: c07, assumptions: &[] },
    ])
}
fn main_(p: Vec<Prop>) -> ! {
    harness::engine::main(p)
}
