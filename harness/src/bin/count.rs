//! C30: counting of transforms (feature count_ntt; built with it).

use algebra::transformation::{count, AbstractNTT, MonomialNTT};
use algebra::{NTTField, NTTPolynomial, Polynomial};
use harness::ct::*;
use harness::engine::*;
use harness::fieldset::*;
use harness::{ensure, same};
use std::sync::Mutex;

/// the counters are global
static ONE: Mutex<()> = Mutex::new(());

#[derive(Clone, Copy, Debug)]
enum Step {
    On,
    Off,
    ClearN,
    ClearI,
    /// transforms (kind) there and back
    Fwd(u64, u32),
    Inv(u64, u32),
    /// things that do not transform
    Other(u64, u32),
}

/// the values of a shape: dense, zero, constant, a monomial, all equal, a coefficient of one
fn values<Q: Nx>(kind: u64, n: usize) -> Vec<Q> {
    let mut v = vec![0; n];
    match kind / 5 % 6 {
        0 => v = (0..n as u64).map(|i| (i * i + 3) % Q::P).collect(),
        1 => {}
        2 => v[0] = 5,
        3 => v[n - 1] = 3,
        4 => v.fill(Q::P - 1),
        _ => v[n / 2] = 1,
    }
    fv(&v)
}
fn fwd<Q: Nx>(kind: u64, log: u32) -> R {
    let n = 1usize << log;
    let t = Q::get_ntt_table(log).map_err(|e| e.to_string())?;
    let p = Polynomial::<Q>::new(values(kind, n));
    let want = t.transform(&p);
    // the reference transform above counts as well: callers know
    let got = match kind % 5 {
        0 => p.into_ntt_polynomial(),
        1 => NTTPolynomial::from(p),
        2 => t.transform_inplace(p),
        3 => {
            let mut v = p.data();
            t.transform_slice(&mut v);
            NTTPolynomial::new(v)
        }
        _ => t.transform(&p),
    };
    ensure!(got == want, "two ways of transforming give different results");
    Ok(())
}
fn inv<Q: Nx>(kind: u64, log: u32) -> R {
    let n = 1usize << log;
    let t = Q::get_ntt_table(log).map_err(|e| e.to_string())?;
    let p = NTTPolynomial::<Q>::new(values(kind, n));
    let want = t.inverse_transform(&p);
    let got = match kind % 5 {
        0 => p.into_native_polynomial(),
        1 => Polynomial::from(p),
        2 => t.inverse_transform_inplace(p),
        3 => {
            let mut v = p.data();
            t.inverse_transform_slice(&mut v);
            Polynomial::new(v)
        }
        _ => t.inverse_transform(&p),
    };
    ensure!(got == want, "two ways of transforming back give different results");
    Ok(())
}
fn other<Q: Nx>(kind: u64, log: u32) -> R {
    let n = 1usize << log;
    let t = Q::get_ntt_table(log).map_err(|e| e.to_string())?;
    let v: Vec<Q> = fv(&(0..n as u64).map(|i| (i * 7 + 1) % Q::P).collect::<Vec<_>>());
    match kind % 4 {
        0 => {
            let mut d = v.clone();
            t.transform_monomial(v[0], n / 2, &mut d);
        }
        1 => {
            let (a, b) = (Polynomial::new(v.clone()), Polynomial::new(v));
            let _ = (&a + &b) - &b;
        }
        2 => {
            let (a, b) = (NTTPolynomial::new(v.clone()), NTTPolynomial::new(v));
            let _ = (&a + &b) * &b;
        }
        _ => {
            let _ = Q::generate_ntt_table(log);
        }
    }
    Ok(())
}
fn act<Q: Nx>(s: Step) -> R {
    match s {
        Step::On => count::enable_count_ntt_and_intt(),
        Step::Off => count::disable_count_ntt_and_intt(),
        Step::ClearN => count::clear_ntt_count(),
        Step::ClearI => count::clear_intt_count(),
        Step::Fwd(k, l) => fwd::<Q>(k, l)?,
        Step::Inv(k, l) => inv::<Q>(k, l)?,
        Step::Other(k, l) => other::<Q>(k, l)?,
    }
    Ok(())
}
fn step<Q: Nx>(g: &mut G, threads: bool) -> Step {
    let log = |g: &mut G| g.us(1, Q::adicity().min(9) as usize - 1) as u32;
    match g.draw(if threads { 5 } else { 9 }) {
        0 | 1 => Step::Fwd(g.draw(30), log(g)),
        2 | 3 => Step::Inv(g.draw(30), log(g)),
        4 => Step::Other(g.draw(4), log(g)),
        5 => Step::On,
        6 => Step::Off,
        7 => Step::ClearN,
        _ => Step::ClearI,
    }
}
fn weigh(s: Step) -> (u32, u32) {
    match s {
        Step::Fwd(..) => (2, 0),
        Step::Inv(..) => (0, 2),
        _ => (0, 0),
    }
}
fn read() -> (u32, u32) {
    (count::get_ntt_count(), count::get_intt_count())
}

fn history<Q: Nx>(g: &mut G) -> R {
    let steps: Vec<Step> = (0..g.us(1, 30)).map(|_| step::<Q>(g, false)).collect();
    g.note(|| format!("{} {steps:?}", Q::NAME));
    g.hit_if(steps.iter().any(|s| matches!(s, Step::On)));
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    count::disable_count_ntt_and_intt();
    count::clear_ntt_count();
    count::clear_intt_count();
    let (mut on, mut want) = (false, (0, 0));
    for (i, &s) in steps.iter().enumerate() {
        act::<Q>(s)?;
        match s {
            Step::On => on = true,
            Step::Off => on = false,
            Step::ClearN => want.0 = 0,
            Step::ClearI => want.1 = 0,
            _ if on => {
                let w = weigh(s);
                want = (want.0 + w.0, want.1 + w.1);
            }
            _ => {}
        }
        same!(read(), want, "transforms counted after step {i} of {steps:?}");
    }
    Ok(())
}

fn threads<Q: Nx>(g: &mut G) -> R {
    let all: Vec<Vec<Step>> = (0..g.us(2, 8)).map(|_| (0..g.us(1, 40)).map(|_| step::<Q>(g, true)).collect()).collect();
    g.note(|| format!("{} {all:?}", Q::NAME));
    g.hit();
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    count::clear_ntt_count();
    count::clear_intt_count();
    count::enable_count_ntt_and_intt();
    let gate = std::sync::Barrier::new(all.len());
    let r: Vec<R> = std::thread::scope(|s| {
        let t: Vec<_> = all
            .iter()
            .map(|steps| {
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    steps.iter().try_for_each(|&x| act::<Q>(x))
                })
            })
            .collect();
        t.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
    });
    for x in r {
        x?;
    }
    let want = all.iter().flatten().map(|&s| weigh(s)).fold((0, 0), |a, w| (a.0 + w.0, a.1 + w.1));
    same!(read(), want, "transforms counted over {} threads: {all:?}", all.len());
    count::disable_count_ntt_and_intt();
    Ok(())
}

macro_rules! combos {
    ($v:ident, $name:literal, $f:ident, [$($q:ident),*], $quick:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($q)), $quick, $th, $rule, $f::<$q>).serial()); )*
    };
}
fn main() {
    let mut c30 = vec![];
    combos!(c30, "history", history, [N17, N257, N27, N50], 4_000, 100_000, "1..30 steps that count, stop, clear, transform; non-trivial: counting is switched on");
    combos!(c30, "threads", threads, [N257, N27, N62], 1_500, 40_000, "2..8 threads with 1..40 transforms each; non-trivial: all");
    let some: &'static [&'static str] = Box::leak(Box::new(["the feature count_ntt is on, concrete-ntt off"]));
    harness::engine::main(vec![Prop { id: "C30", subs: c30, assumptions: some }])
}
