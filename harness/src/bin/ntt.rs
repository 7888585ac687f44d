//! C10 transform, C11 monomial transforms, C12 transform tables.

use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex, Once, OnceLock};

use algebra::transformation::{AbstractNTT, MonomialNTT};
use algebra::{AlgebraError, NTTPolynomial, Polynomial};
use harness::engine::*;
use harness::fieldset::*;
use harness::oracle::*;
use harness::{ensure, same};

fn fv<F: Fx>(v: &[u64]) -> Vec<F> {
    v.iter().map(|&x| F::mk(x)).collect()
}
fn uv<F: Fx>(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| x.u()).collect()
}
fn err<T: std::fmt::Debug>(e: T) -> String {
    format!("{e:?}")
}

/// the largest log n the checks use for this field
fn top<F: Nx>(cap: u32) -> usize {
    (F::adicity() - 1).min(cap) as usize
}

fn warm() {
    static W: Once = Once::new();
    W.call_once(|| {
        fn w<F: Nx>() {
            for k in 1..=top::<F>(12) {
                let _ = F::get_ntt_table(k as u32);
            }
        }
        w::<N17>();
        w::<N41>();
        w::<N61>();
        w::<N257>();
        w::<N7681>();
        w::<N12289>();
        w::<N15361>();
        w::<N12289w>();
        w::<N27>();
        w::<N30>();
        w::<N30b>();
        w::<N12289x>();
        w::<N50>();
        w::<N60>();
        w::<N62>();
        w::<N62b>();
    });
}

fn oracle_root<F: Nx>(k: u32) -> u64 {
    static CACHE: OnceLock<Mutex<HashMap<(u64, u32), u64>>> = OnceLock::new();
    let c = CACHE.get_or_init(Default::default);
    if let Some(&r) = c.lock().unwrap().get(&(F::P, k)) {
        return r;
    }
    let r = smallest_primitive_root(1 << (k + 1), F::P).expect("root of the oracle");
    c.lock().unwrap().insert((F::P, k), r);
    r
}

/// the value of entry i of the transform of a, by definition
fn entry<F: Nx>(a: &[u64], root: u64, i: usize) -> u64 {
    let n = a.len();
    let e = 2 * rev_bits(i, n.trailing_zeros()) + 1;
    eval(a, powm(root, e as u128, F::P), F::P)
}

/// checks entries of a transform: all of them for small n, else a sample
fn check_entries<F: Nx>(g: &mut G, a: &[u64], root: u64, got: &[u64], what: &str) -> R {
    let n = a.len();
    same!(got.len(), n, "{what}: length");
    let m = if n <= 64 { n } else { 6 };
    for j in 0..m {
        let i = if n <= 64 { j } else { g.us(0, n - 1) };
        same!(got[i], entry::<F>(a, root, i), "{} n={n} {what}: entry {i}", F::NAME);
    }
    Ok(())
}

// --------------------------------------------------------------------- C10

fn pick_log<F: Nx>(g: &mut G, cap: u32) -> usize {
    let t = top::<F>(cap);
    if g.one_in(16) { g.us(1, t) } else { g.us(1, t.min(6)) }
}

fn transform<F: Nx>(g: &mut G) -> R {
    warm();
    let p = F::P;
    let k = pick_log::<F>(g, 12);
    let n = 1usize << k;
    let root = oracle_root::<F>(k as u32);
    let table = F::get_ntt_table(k as u32).map_err(err)?;
    // input: canonical, or lazily reduced up to 4p
    let lazy = g.draw(3);
    let bound = [1, 2, 4][lazy as usize];
    let v = if p.checked_mul(bound).is_some_and(|b| b <= F::word_max()) { g.vec(n, p * bound) } else { g.vec(n, p) };
    g.note(|| format!("{} n={n} input below {bound}p: {:?}", F::NAME, &v[..n.min(8)]));
    g.hit_if(v.iter().filter(|&&x| x != 0).count() > 1);
    g.label(["canonical", "below 2p", "below 4p"][lazy as usize]);
    g.label_if(n >= 128, "n >= 128");
    let a: Vec<u64> = v.iter().map(|&x| x % p).collect();
    let mut s = fv::<F>(&v);
    table.transform_slice(&mut s);
    let t = uv(&s);
    ensure!(t.iter().all(|&x| x < p), "{} n={n} transform_slice: an output is not canonical", F::NAME);
    check_entries::<F>(g, &a, root, &t, "transform_slice")?;
    // the owned entry points agree
    let poly = Polynomial::<F>::new(fv(&v));
    same!(uv(table.transform(&poly).as_slice()), t, "{} transform", F::NAME);
    same!(uv(poly.as_slice()), v, "{} transform changed its operand", F::NAME);
    same!(uv(table.transform_inplace(poly.clone()).as_slice()), t, "{} transform_inplace", F::NAME);
    same!(uv(poly.clone().into_ntt_polynomial().as_slice()), t, "{} into_ntt_polynomial", F::NAME);
    same!(uv(NTTPolynomial::<F>::from(poly).as_slice()), t, "{} From<Polynomial>", F::NAME);
    // and back, from any representative below 2p
    let mut seed = g.draw(0);
    let spread = g.bool();
    let back: Vec<u64> = t
        .iter()
        .map(|&x| {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if spread && seed >> 63 == 1 { x + p } else { x }
        })
        .collect();
    let mut s = fv::<F>(&back);
    table.inverse_transform_slice(&mut s);
    same!(uv(&s), a, "{} n={n} inverse_transform_slice", F::NAME);
    let q = NTTPolynomial::<F>::new(fv(&back));
    same!(uv(table.inverse_transform(&q).as_slice()), a, "{} inverse_transform", F::NAME);
    same!(uv(q.as_slice()), back, "{} inverse_transform changed its operand", F::NAME);
    same!(uv(table.inverse_transform_inplace(q.clone()).as_slice()), a, "{} inverse_transform_inplace", F::NAME);
    same!(uv(q.clone().into_native_polynomial().as_slice()), a, "{} into_native_polynomial", F::NAME);
    same!(uv(Polynomial::<F>::from(q).as_slice()), a, "{} From<NTTPolynomial>", F::NAME);
    Ok(())
}

/// the inverse on arbitrary vectors (not images of anything chosen): what it
/// returns evaluates back to its input
fn inverse<F: Nx>(g: &mut G) -> R {
    warm();
    let p = F::P;
    let k = pick_log::<F>(g, 12);
    let n = 1usize << k;
    let root = oracle_root::<F>(k as u32);
    let table = F::get_ntt_table(k as u32).map_err(err)?;
    let v = g.vec(n, 2 * p);
    g.note(|| format!("{} n={n} {:?}", F::NAME, &v[..n.min(8)]));
    g.hit_if(v.iter().filter(|&&x| x != 0).count() > 1);
    g.label_if(v.iter().any(|&x| x >= p), "lazy input");
    let mut s = fv::<F>(&v);
    table.inverse_transform_slice(&mut s);
    let a = uv(&s);
    ensure!(a.iter().all(|&x| x < p), "{} n={n} inverse: an output is not canonical", F::NAME);
    let t: Vec<u64> = v.iter().map(|&x| x % p).collect();
    check_entries::<F>(g, &a, root, &t, "inverse")?;
    table.transform_slice(&mut s);
    same!(uv(&s), t, "{} n={n} inverse then forward", F::NAME);
    Ok(())
}

/// pointwise products are negacyclic products; sums are sums
fn products<F: Nx>(g: &mut G) -> R {
    warm();
    let p = F::P;
    let k = if g.one_in(20) { g.us(1, top::<F>(9)) } else { g.us(1, top::<F>(5)) };
    let n = 1usize << k;
    let table = F::get_ntt_table(k as u32).map_err(err)?;
    let (a, b) = (g.vec(n, p), g.vec(n, p));
    g.note(|| format!("{} n={n} a={:?} b={:?}", F::NAME, &a[..n.min(8)], &b[..n.min(8)]));
    g.hit_if(a[1..].iter().any(|&x| x != 0) && b[1..].iter().any(|&x| x != 0));
    let (mut x, mut y) = (fv::<F>(&a), fv::<F>(&b));
    table.transform_slice(&mut x);
    table.transform_slice(&mut y);
    let mut pr: Vec<F> = x.iter().zip(&y).map(|(&u, &v)| if n % 4 == 0 { u.mul_fast(v) } else { u * v }).collect();
    table.inverse_transform_slice(&mut pr);
    same!(uv(&pr), negacyclic(&a, &b, p), "{} n={n} product", F::NAME);
    let mut su: Vec<F> = x.iter().zip(&y).map(|(&u, &v)| u + v).collect();
    table.inverse_transform_slice(&mut su);
    let want: Vec<u64> = a.iter().zip(&b).map(|(&u, &v)| addm(u, v, p)).collect();
    same!(uv(&su), want, "{} n={n} sum", F::NAME);
    Ok(())
}

// --------------------------------------------------------------------- C11

fn monomial_on<F: Nx>(k: usize, c: u64, d: usize, dirty: &[u64]) -> R {
    let p = F::P;
    let n = 1usize << k;
    let table = F::get_ntt_table(k as u32).map_err(err)?;
    let root = oracle_root::<F>(k as u32);
    // the general transform of the monomial reduced modulo X^n + 1 ...
    let mono = |c: u64| {
        let mut v = vec![0; n];
        if d < n { v[d] = c } else { v[d - n] = negm(c, p) }
        let mut s = fv::<F>(&v);
        table.transform_slice(&mut s);
        uv(&s)
    };
    // ... and by definition
    let direct = |c: u64, i: usize| {
        let e = (2 * rev_bits(i, k as u32) + 1) * d;
        mulm(c, powm(root, e as u128, p), p)
    };
    let mut buf = fv::<F>(dirty);
    for (what, c) in [("c*X^d", c), ("X^d", 1), ("-X^d", p - 1)] {
        buf.copy_from_slice(&fv::<F>(dirty));
        match what {
            "c*X^d" => table.transform_monomial(F::mk(c), d, &mut buf),
            "X^d" => table.transform_coeff_one_monomial(d, &mut buf),
            _ => table.transform_coeff_neg_one_monomial(d, &mut buf),
        }
        let got = uv(&buf);
        same!(got, mono(c), "{} n={n} {what} c={c} d={d} against the general transform", F::NAME);
        for i in [0, n / 2, n - 1, (d * 7 + 3) % n] {
            same!(got[i], direct(c, i), "{} n={n} {what} c={c} d={d} entry {i}", F::NAME);
        }
    }
    Ok(())
}

fn monomial<F: Nx>(g: &mut G) -> R {
    warm();
    let p = F::P;
    let k = pick_log::<F>(g, 11);
    let n = 1usize << k;
    let d = match g.draw(4) {
        0 => *g.pick(&[0, 1, n - 1, n, n + 1, 2 * n - 1, n / 2, n + n / 2]) % (2 * n),
        _ => g.us(0, 2 * n - 1),
    };
    let c = match g.draw(4) {
        0 => *g.pick(&[0, 1, p - 1]),
        _ => g.edge(0, p - 1),
    };
    let dirty = g.vec(n, p);
    g.note(|| format!("{} n={n} {c}*X^{d}", F::NAME));
    g.hit_if(c != 0 && d != 0);
    g.label_if(d >= n, "degree n or more");
    g.label_if(c <= 1 || c == p - 1, "coefficient 0, 1 or -1");
    g.label_if(n >= 128, "n >= 128");
    monomial_on::<F>(k, c, d, &dirty)
}

/// every degree of every small length
fn monomial_all<F: Nx>(g: &mut G) -> R {
    warm();
    let d = g.turn(128) as usize;
    let c = g.edge(0, F::P - 1);
    for k in 1..=top::<F>(6) {
        if d < 2 << k {
            g.hit();
            for c in [0, 1, F::P - 1, c] {
                monomial_on::<F>(k, c, d, &g.vec(1 << k, F::P))?;
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- C12

fn roots<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let bits = F::W - p.leading_zeros().saturating_sub(64 - F::W);
    let _ = bits;
    // degrees 2^1 .. the largest power of two of the degree type
    let k = if g.bool() { g.us(1, F::W as usize - 1) } else { g.us(1, F::adicity().min(14) as usize) } as u32;
    let degree = 1u64 << k;
    g.note(|| format!("{} degree=2^{k}", F::NAME));
    let exists = k <= F::adicity();
    g.hit_if(exists);
    // predicate, on random elements and on roots
    let x = if g.bool() { g.edge(0, p - 1) } else { powm(g.edge(1, p - 1), ((p - 1) >> g.us(0, F::adicity() as usize)) as u128, p) };
    let is = x != 0 && powm(x, (degree / 2) as u128, p) == p - 1;
    g.label_if(is, "is a primitive root");
    same!(F::is_primitive_root(F::mk(x), F::deg(degree)), is, "{} is_primitive_root({x}, 2^{k})", F::NAME);
    match F::try_primitive_root(F::deg(degree)) {
        Ok(r) => {
            ensure!(exists, "{}: a primitive 2^{k}-th root {} was found where none exists", F::NAME, r.u());
            same!(powm(r.u(), (degree / 2) as u128, p), p - 1, "{} try_primitive_root(2^{k}) = {}", F::NAME, r.u());
            ensure!(r.u() < p, "root not canonical");
        }
        Err(AlgebraError::NoPrimitiveRoot { degree: d, modulus: m }) => {
            ensure!(!exists, "{}: no primitive 2^{k}-th root found", F::NAME);
            same!((d, m), (degree.to_string(), p.to_string()), "the error names degree and modulus");
        }
        Err(e) => return Err(format!("{} 2^{k}: unexpected error {e:?}", F::NAME)),
    }
    if k <= 15 || !exists {
        match F::try_minimal_primitive_root(F::deg(degree)) {
            Ok(r) => {
                ensure!(exists, "{}: a minimal primitive 2^{k}-th root was found where none exists", F::NAME);
                same!(r.u(), oracle_root::<F>(k - 1), "{} try_minimal_primitive_root(2^{k})", F::NAME);
            }
            Err(AlgebraError::NoPrimitiveRoot { .. }) => ensure!(!exists, "{}: no minimal primitive 2^{k}-th root found", F::NAME),
            Err(e) => return Err(format!("{} 2^{k}: unexpected error {e:?}", F::NAME)),
        }
    }
    Ok(())
}

trait TableView {
    fn check(&self, k: u32, p: u64, root: u64) -> R;
}
macro_rules! view {
    ($($t:ident),*) => {$(
        impl TableView for algebra::transformation::NTTTable<$t> {
            /// the documented contents of a table
            fn check(&self, k: u32, p: u64, root: u64) -> R {
                let n = 1usize << k;
                same!(self.coeff_count(), n, "coeff_count");
                same!(self.coeff_count_power(), k, "coeff_count_power");
                same!(self.root().u(), root, "root");
                let inv = invm(root, p).unwrap();
                same!(self.inv_root().u(), inv, "inv_root");
                same!(self.inv_degree().value() as u64, invm(n as u64 % p, p).unwrap(), "inv_degree");
                let ord: Vec<u64> = self.ordinal_root_powers().iter().map(|r| r.value() as u64).collect();
                let want: Vec<u64> = (0..2 * n).scan(1, |s, _| { let v = *s; *s = mulm(*s, root, p); Some(v) }).collect();
                same!(ord, want, "ordinal_root_powers");
                let rp: Vec<u64> = self.root_powers().iter().map(|r| r.value() as u64).collect();
                let ip: Vec<u64> = self.inv_root_powers().iter().map(|r| r.value() as u64).collect();
                same!((rp.len(), ip.len()), (n, n), "table lengths");
                for i in 1..n {
                    same!(rp[rev_bits(i, k)], want[i], "root_powers, power {i}");
                }
                for i in 0..n - 1 {
                    same!(ip[rev_bits(i, k) + 1], want[2 * n - 1 - i], "inv_root_powers, power {}", i + 1);
                }
                Ok(())
            }
        }
    )*};
}
view!(N17, N41, N61, N257, N7681, N12289, N15361, N12289w, N27, N30, N30b, N12289x, N50, N60, N62, N62b);

/// a table of any size: exists exactly when it should, and holds what it documents
fn tables<F: Nx>(g: &mut G) -> R
where
    F::Table: TableView + Send + Sync,
{
    let k = if g.one_in(4) { g.us(1, 70) as u32 } else { g.us(1, top::<F>(11)) as u32 };
    let exists = k < F::adicity();
    if exists && k > 12 {
        return Ok(());
    }
    g.note(|| format!("{} log n = {k}", F::NAME));
    g.hit_if(exists);
    g.label_if(!exists, "no such table");
    g.label_if(k + 1 >= F::W, "2n does not fit the word");
    let how = g.draw(3);
    let r = match how {
        0 => F::generate_ntt_table(k).map(Arc::new),
        1 => F::get_ntt_table(k),
        _ => F::init_ntt_table(&[k]).and_then(|_| F::get_ntt_table(k)),
    };
    match r {
        Ok(t) => {
            ensure!(exists, "{}: a table for 2^{k} was returned", F::NAME);
            t.check(k, F::P, oracle_root::<F>(k)).map_err(|e| format!("{} log n={k}: {e}", F::NAME))?;
            let t2 = F::get_ntt_table(k).map_err(err)?;
            ensure!(how == 0 || Arc::ptr_eq(&t, &t2), "{} log n={k}: another table on the second request", F::NAME);
        }
        Err(AlgebraError::NoPrimitiveRoot { .. }) => ensure!(!exists, "{}: no table for 2^{k}", F::NAME),
        Err(e) => return Err(format!("{} 2^{k}: unexpected error {e:?}", F::NAME)),
    }
    Ok(())
}

// Request histories run in a process of their own, so that each starts with
// empty caches.  The plan is a list of threads, each a list of requests.

const KINDS: u64 = 5;
/// repeat the requests for as long as some thread has work of its own
const SPIN: u64 = 5;

/// runs one thread's requests and returns the tables it was given
fn run_requests<F: Nx>(reqs: &[(u64, Vec<u32>)], seed: u64, busy: &AtomicUsize) -> Result<Vec<(u32, Arc<F::Table>)>, String> {
    let mut got = vec![];
    let exists = |k: u32| k >= 1 && k < F::adicity();
    let fetch = |k: u32| -> Result<Option<Arc<F::Table>>, String> {
        match F::get_ntt_table(k) {
            Ok(t) => {
                ensure!(exists(k), "a table for 2^{k} was returned");
                same!(t.root().u(), oracle_root::<F>(k), "root of the table for 2^{k}");
                Ok(Some(t))
            }
            Err(AlgebraError::NoPrimitiveRoot { .. }) => {
                ensure!(!exists(k), "no table for 2^{k}");
                Ok(None)
            }
            Err(e) => Err(format!("request for 2^{k}: unexpected error {e:?}")),
        }
    };
    let mut s = seed;
    let mut next = move || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        s >> 33
    };
    for (kind, ks) in reqs {
        match kind {
            0 => {
                for &k in ks {
                    if let Some(t) = fetch(k)? {
                        got.push((k, t));
                    }
                }
            }
            1 | 2 => match F::init_ntt_table(ks) {
                Ok(()) => ensure!(ks.iter().all(|&k| exists(k)), "init_ntt_table({ks:?}) reports success"),
                Err(AlgebraError::NoPrimitiveRoot { .. }) => ensure!(!ks.iter().all(|&k| exists(k)), "init_ntt_table({ks:?}) fails"),
                Err(e) => return Err(format!("init_ntt_table({ks:?}): unexpected error {e:?}")),
            },
            // the cache as polynomial arithmetic uses it
            3 => {
                for &k in ks {
                    if exists(k) && k <= 6 {
                        let n = 1usize << k;
                        let a: Vec<u64> = (0..n).map(|_| next() % F::P).collect();
                        let b: Vec<u64> = (0..n).map(|_| next() % F::P).collect();
                        let c = Polynomial::<F>::new(fv(&a)) * Polynomial::<F>::new(fv(&b));
                        same!(uv(c.as_slice()), negacyclic(&a, &b, F::P), "product in Z_p[X]/(X^{n}+1)");
                    }
                }
            }
            // one at a time, nothing else in between
            6 => {
                for &k in ks {
                    let _ = F::get_ntt_table(k);
                }
            }
            &SPIN => {
                let mine = ks.iter().filter(|&&k| exists(k)).map(|&k| Ok((k, fetch(k)?.unwrap()))).collect::<Result<Vec<_>, String>>()?;
                for _ in 0..200_000 {
                    for (k, t) in &mine {
                        ensure!(Arc::ptr_eq(t, &F::get_ntt_table(*k).map_err(err)?), "a second table for 2^{k}");
                    }
                    if busy.load(Ordering::Relaxed) == 0 {
                        break;
                    }
                }
                got.extend(mine);
            }
            _ => {
                for &k in ks {
                    if exists(k) && k <= 9 {
                        let t = F::generate_ntt_table(k).map_err(err)?;
                        same!(t.root().u(), oracle_root::<F>(k), "generated table for 2^{k}");
                    }
                }
            }
        }
    }
    Ok(got)
}

fn run_plan<F: Nx>(plan: Vec<Vec<(u64, Vec<u32>)>>) -> R
where
    F::Table: TableView + Send + Sync,
{
    // the oracle's values are computed before the threads start
    for k in plan.iter().flatten().flat_map(|r| &r.1) {
        if *k >= 1 && *k < F::adicity() {
            oracle_root::<F>(*k);
        }
    }
    let barrier = Barrier::new(plan.len());
    let spins = |reqs: &[(u64, Vec<u32>)]| reqs.iter().any(|r| r.0 == SPIN);
    let busy = AtomicUsize::new(plan.iter().filter(|t| !spins(t)).count());
    let results: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = plan
            .iter()
            .enumerate()
            .map(|(i, reqs)| {
                let (barrier, busy) = (&barrier, &busy);
                s.spawn(move || {
                    if spins(reqs) {
                        // what readers keep asking for is there from the start
                        reqs.iter().flat_map(|r| &r.1).filter(|&&k| k >= 1 && k < F::adicity()).for_each(|&k| drop(F::get_ntt_table(k)));
                    }
                    barrier.wait();
                    let r = catch_unwind(AssertUnwindSafe(|| run_requests::<F>(reqs, i as u64, busy)));
                    if !spins(reqs) {
                        busy.fetch_sub(1, Ordering::Relaxed);
                    }
                    r.unwrap_or_else(|_| Err("a request panicked".into()))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a requesting thread panicked".into()))).collect()
    });
    let mut first: HashMap<u32, Arc<F::Table>> = HashMap::new();
    for (i, r) in results.into_iter().enumerate() {
        for (k, t) in r.map_err(|e| format!("{} thread {i}: {e}", F::NAME))? {
            let f = first.entry(k).or_insert_with(|| t.clone());
            ensure!(Arc::ptr_eq(f, &t), "{} thread {i}: a second table for 2^{k}", F::NAME);
        }
    }
    for (k, t) in &first {
        let again = F::get_ntt_table(*k).map_err(err)?;
        ensure!(Arc::ptr_eq(&again, t), "{}: a later request returns another table for 2^{k}", F::NAME);
        t.check(*k, F::P, oracle_root::<F>(*k)).map_err(|e| format!("{} log n={k}: {e}", F::NAME))?;
    }
    Ok(())
}

/// the process behind `history`
fn child(text: &str) -> ! {
    let plan: (u64, Vec<Vec<(u64, Vec<u32>)>>) = serde_json::from_str(text).expect("plan");
    let r = match plan.0 {
        0 => run_plan::<N257>(plan.1),
        1 => run_plan::<N12289>(plan.1),
        2 => run_plan::<N27>(plan.1),
        3 => run_plan::<N30>(plan.1),
        4 => run_plan::<N50>(plan.1),
        5 => run_plan::<N60>(plan.1),
        6 => run_plan::<N62b>(plan.1),
        _ => run_plan::<N61>(plan.1),
    };
    match r {
        Ok(()) => {
            println!("held");
            std::process::exit(0)
        }
        Err(m) => {
            println!("{m}");
            std::process::exit(1)
        }
    }
}

fn run_child(plan: &(u64, Vec<Vec<(u64, Vec<u32>)>>)) -> R {
    let out = Command::new(std::env::current_exe().map_err(err)?)
        .arg("--history")
        .arg(serde_json::to_string(plan).unwrap())
        .stdin(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| format!("cannot start a process: {e}"))?;
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if out.status.success() {
        return Ok(());
    }
    let e = String::from_utf8_lossy(&out.stderr);
    Err(format!("{:?} {text} {}", out.status, e.lines().next().unwrap_or("")))
}

const ADICITY: [usize; 8] = [8, 12, 21, 14, 14, 17, 25, 2];

fn requests(g: &mut G, field: u64, n: usize) -> Vec<(u64, Vec<u32>)> {
    let top = (ADICITY[field as usize] - 1).min(11);
    (0..n)
        .map(|_| {
            let kind = g.draw(KINDS);
            let m = if kind == 1 { g.us(0, 6) } else { g.us(1, 2) };
            let ks = (0..m).map(|_| if g.one_in(10) { g.us(1, 70) as u32 } else { g.us(1, top) as u32 }).collect::<Vec<u32>>();
            let ks = ks.into_iter().filter(|&k| k <= 12 || k as usize >= ADICITY[field as usize]).collect();
            (kind, ks)
        })
        .collect()
}

fn sequential(g: &mut G) -> R {
    let field = g.draw(8);
    let n = g.us(1, 14);
    let plan = (field, vec![requests(g, field, n)]);
    g.note(|| format!("{plan:?}"));
    g.hit_if(plan.1[0].iter().filter(|r| !r.1.is_empty()).count() > 1);
    run_child(&plan)
}

fn concurrent(g: &mut G) -> R {
    let field = g.draw(7);
    let threads = g.us(2, 8);
    let n = g.us(1, 12);
    let mut plan: Vec<_> = (0..threads).map(|_| requests(g, field, n)).collect();
    if g.bool() {
        // everyone asks for everything, in different orders: the cache grows
        // while others read it
        let top = (ADICITY[field as usize] - 1).min(10) as u32;
        for t in plan.iter_mut() {
            let mut ks: Vec<u32> = (0..top * 40).map(|i| i % top + 1).collect();
            for i in (1..ks.len()).rev() {
                ks.swap(i, g.us(0, i));
            }
            t.push((0, ks));
        }
        g.label("storm");
    } else if threads > 2 && g.bool() {
        // readers keep asking for what is there while the cache grows
        let top = (ADICITY[field as usize] - 1).min(10) as u32;
        let writers = g.us(1, 2);
        for t in plan.iter_mut().skip(writers) {
            *t = vec![(SPIN, (0..g.us(1, 2)).map(|_| g.us(1, 3) as u32).collect())];
        }
        for t in plan.iter_mut().take(writers) {
            t.insert(0, (2, (1..=top).collect()));
            t.insert(0, (6, (1..=top).collect()));
        }
        g.label("readers");
    }
    let plan = (field, plan);
    g.note(|| format!("field {field}, {threads} threads, {:?}", plan.1.iter().map(|t| t.iter().take(3).collect::<Vec<_>>()).collect::<Vec<_>>()));
    g.hit_if(plan.1.iter().filter(|t| t.iter().any(|r| !r.1.is_empty())).count() > 1);
    run_child(&plan)
}

macro_rules! each {
    ($v:ident, $name:literal, $f:ident, [$($t:ident),*], $q:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($t)), $q, $th, $rule, $f::<$t>)); )*
    };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--history") {
        child(&args[2]);
    }
    let mut c10 = vec![];
    each!(c10, "transform", transform, [N17, N41, N61, N257, N7681, N12289, N15361, N12289w, N27, N30, N30b, N12289x, N50, N60, N62, N62b], 12_000, 400_000, "n = 2^1..2^12 (mostly up to 2^6), coefficients canonical or below 2p or 4p, every entry point, forward and back; non-trivial: at least two non-zero coefficients");
    each!(c10, "inverse", inverse, [N17, N257, N12289, N27, N30, N50, N60, N62, N62b], 12_000, 400_000, "any vector below 2p; non-trivial: at least two non-zero entries");
    each!(c10, "products", products, [N17, N61, N257, N7681, N15361, N27, N30, N50, N60, N62], 6_000, 200_000, "pointwise products and sums against schoolbook; non-trivial: both have a non-constant term");

    let mut c11 = vec![];
    each!(c11, "every-degree", monomial_all, [N17, N257, N7681, N12289, N27, N30, N50, N60, N62], 256, 25_600, "every degree of n = 2^1..2^6 with coefficients 0, 1, -1 and a random one");
    each!(c11, "monomial", monomial, [N17, N61, N257, N7681, N12289, N15361, N12289w, N27, N30, N30b, N12289x, N50, N60, N62, N62b], 10_000, 400_000, "n = 2^1..2^11, any degree below 2n, any coefficient, used buffers; non-trivial: coefficient and degree not 0");

    let mut c12 = vec![];
    each!(c12, "roots", roots, [N17, N41, N61, N257, N7681, N12289, N15361, N27, N30, N50, N60, N62, N62b], 1_500, 40_000, "degrees 2^1 up to the largest the type holds; non-trivial: such roots exist");
    each!(c12, "tables", tables, [N17, N41, N61, N257, N7681, N12289, N15361, N12289w, N27, N30, N30b, N12289x, N50, N60, N62, N62b], 300, 10_000, "log n = 1..70, through all three entry points; non-trivial: the table exists");
    c12.push(sub("history", 3_000, 40_000, "a fresh process: 1..14 table requests, pre-initialisations (some impossible), products; non-trivial: at least two requests", sequential).shrink(400));
    c12.push(sub("concurrent", 1_500, 20_000, "a fresh process: 2..8 threads released together, each with its own requests; non-trivial: at least two threads ask for something", concurrent).serial().shrink(150));

    harness::engine::main(vec![
        Prop { id: "C10", subs: c10, assumptions: &["n >= 2"] },
        Prop { id: "C11", subs: c11, assumptions: &["n >= 2, degree below 2n"] },
        Prop { id: "C12", subs: c12, assumptions: &["n >= 2; the root search is randomised with failure probability below 2^-99"] },
    ])
}
