//! C29: everything random comes from the generator that is handed in.

use algebra::utils::*;
use algebra::{Basis, Field, FieldBinarySampler, FieldDiscreteGaussianSampler, FieldTernarySampler, FieldUniformSampler, NTTPolynomial, Polynomial};
use fhe_core::*;
use harness::ct::*;
use harness::engine::*;
use harness::fieldset::*;
use harness::scheme::*;
use harness::{ensure, same};
use lattice::*;
use rand::distributions::Distribution;
use rand::{CryptoRng, RngCore, SeedableRng};
use rand_chacha::{ChaCha12Rng, ChaCha20Rng};
use zkfhe::bfhe::Evaluator;
use zkfhe::{Decryptor, Encryptor, KeyGen};

/// a generator of one of several kinds
#[derive(Clone)]
enum Gen {
    C12(ChaCha12Rng),
    C20(ChaCha20Rng),
    Aes(Box<Prg>),
}
impl Gen {
    fn new(kind: u64, seed: u64) -> Gen {
        match kind {
            0 => Gen::C12(ChaCha12Rng::seed_from_u64(seed)),
            1 => Gen::C20(ChaCha20Rng::seed_from_u64(seed)),
            _ => Gen::Aes(Box::new(Prg::from_seed(Block::from([seed, !seed])))),
        }
    }
    fn next(&mut self) -> u64 {
        self.next_u64()
    }
}
impl RngCore for Gen {
    fn next_u32(&mut self) -> u32 {
        match self {
            Gen::C12(r) => r.next_u32(),
            Gen::C20(r) => r.next_u32(),
            Gen::Aes(r) => r.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self {
            Gen::C12(r) => r.next_u64(),
            Gen::C20(r) => r.next_u64(),
            Gen::Aes(r) => r.next_u64(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        match self {
            Gen::C12(r) => r.fill_bytes(dest),
            Gen::C20(r) => r.fill_bytes(dest),
            Gen::Aes(r) => r.fill_bytes(dest),
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Gen {}

/// something that draws from a generator
#[derive(Clone, Debug)]
struct Op {
    kind: u64,
    n: usize,
    sd: f64,
    bits: u32,
    spec: Spec,
    salt: u64,
}
const KINDS: u64 = 20;
const NAMES: [&str; KINDS as usize] = [
    "binary vector", "ternary vector", "centred binomial vector", "uniform field elements", "binary and ternary elements", "Gaussian polynomial", "Gaussian elements",
    "uniform polynomial", "uniform transformed polynomial", "binary values", "ternary values", "Gaussian values", "LWE samples", "RLWE samples", "transformed RLWE samples",
    "gadget samples", "RGSW samples", "secret keys", "encryptions", "evaluation keys",
];

fn op<C: W, Q: Nx>(g: &mut G) -> Op {
    let kind = g.draw(KINDS);
    let mut spec = spec::<C, Q>(g, 4);
    let top_n = (C::B - 2).min(Q::adicity() - 1).min(5);
    spec.big = 1 << g.us(2, top_n as usize);
    spec.sd = deviation(g, (spec.q / 4).min(1 << 20));
    spec.rsd = deviation(g, 64.min((Q::P - 1) / 2 - 1));
    spec.ksd = deviation(g, 64.min((Q::P - 1) / 2 - 1).min(spec.q / 4));
    spec.steps = *g.pick(&[Steps::BrKsMs, Steps::BrMsKs, Steps::BrMs]);
    spec.n = match spec.steps {
        Steps::BrMs => spec.big,
        Steps::BrKsMs => g.us(2, spec.big),
        Steps::BrMsKs => g.us(1, 24),
    };
    if matches!(spec.steps, Steps::BrMsKs) {
        let wide = (20_000 / (spec.big * spec.n)).max(2).ilog2() as usize;
        spec.kb = spec.kb.min(wide as u32);
    }
    let mb = 64 - Q::P.leading_zeros();
    spec.kb = spec.kb.min(mb);
    Op { kind, n: if g.one_in(3) { 1 << g.us(1, 5) } else { g.us(1, 70) }, sd: deviation(g, (Q::P / 4).min(1 << 20)), bits: g.us(1, mb as usize) as u32, spec, salt: g.draw(0) }
}

fn rf<Q: Nx>(out: &mut Vec<u64>, c: &RLWE<Q>) {
    out.extend(uv(c.a_slice()));
    out.extend(uv(c.b_slice()));
}
fn nrf<Q: Nx>(out: &mut Vec<u64>, c: &NTTRLWE<Q>) {
    out.extend(uv(c.a_slice()));
    out.extend(uv(c.b_slice()));
}

/// runs it; the flag tells whether two generators hardly ever give the same
fn run<C: W, Q: Nx>(o: &Op, rng: &mut Gen) -> Result<(Vec<u64>, bool), String> {
    let n = o.n;
    let len = 1usize << (o.n.ilog2()).clamp(1, Q::adicity() - 1).min(6);
    let gauss = FieldDiscreteGaussianSampler::new(0.0, o.sd).map_err(|e| format!("{e:?}"))?;
    let p2 = |x: f64| x * (Q::P as f64).log2() > 120.0;
    let mut out = vec![];
    let s = |k: usize| nt::<Q>(&(0..k as u64).map(|i| (o.salt >> (i % 64)) & 1).collect::<Vec<_>>());
    let wide = match o.kind {
        0 => { out = uv(&sample_binary_field_vec::<Q, _>(n, rng)); n > 120 }
        1 => { out = uv(&sample_ternary_field_vec::<Q, _>(n, rng)); n > 120 }
        2 => { out = uv(&sample_cbd_field_vec::<Q, _>(n, rng)); n > 60 }
        3 => { out = FieldUniformSampler::new().sample_iter(rng).take(n).map(|x: Q| x.u()).collect(); p2(n as f64) }
        4 => {
            for i in 0..n {
                let x: Q = if (o.salt >> (i % 64)) & 1 == 1 { FieldBinarySampler.sample(rng) } else { FieldTernarySampler.sample(rng) };
                out.push(x.u());
            }
            false
        }
        5 => { out = uv(Polynomial::<Q>::random_with_gaussian(n, rng, gauss).as_slice()); o.sd >= 1.0 && n > 64 }
        6 => { out = uv(Polynomial::<Q>::random_with_distribution(n, rng, gauss).as_slice()); o.sd >= 1.0 && n > 64 }
        7 => { out = uv(Polynomial::<Q>::random(n, rng).as_slice()); p2(n as f64) }
        8 => { out = uv(NTTPolynomial::<Q>::random(n, rng).as_slice()); p2(n as f64) }
        9 => { out = sample_binary_values::<C, _>(n, rng).iter().map(|x| x.u()).collect(); n > 120 }
        10 => { out = sample_ternary_values::<C, _>(C::mk(o.spec.q), n, rng).iter().map(|x| x.u()).collect(); n > 120 }
        11 => {
            let d = DiscreteGaussian::new(C::mk(o.spec.q), 0.0, o.spec.sd).map_err(|e| format!("{e:?}"))?;
            out = d.sample_iter(rng).take(n).map(|x| x.u()).collect();
            o.spec.sd >= 1.0 && n > 64
        }
        12 => {
            let d = DiscreteGaussian::new(C::mk(o.spec.q), 0.0, o.spec.sd).map_err(|e| format!("{e:?}"))?;
            let key: Vec<C> = (0..n).map(|i| C::mk((o.salt >> (i % 64)) & 1)).collect();
            for _ in 0..3 {
                let c = LWE::generate_random_zero_sample(&key, C::mk(o.spec.q), C::mk(o.spec.q).to_power_of_2_modulus(), d, rng);
                let (a, b) = comp(&c);
                out.extend(a);
                out.push(b);
            }
            n as u32 * 3 * o.spec.q.ilog2() > 120
        }
        13 => {
            for _ in 0..2 {
                rf(&mut out, &RLWE::<Q>::generate_random_zero_sample(&s(len), gauss, rng));
            }
            p2(2.0 * len as f64)
        }
        14 => {
            nrf(&mut out, &NTTRLWE::<Q>::generate_random_zero_sample(&s(len), gauss, rng));
            nrf(&mut out, &NTTRLWE::<Q>::generate_random_value_sample(&s(len), Q::mk(o.salt % Q::P), gauss, rng));
            p2(2.0 * len as f64)
        }
        15 => {
            let b = Basis::<Q>::new(o.bits);
            let x = match o.salt & 3 {
                0 => GadgetRLWE::<Q>::generate_random_zero_sample(&s(len), b, gauss, rng),
                1 => GadgetRLWE::<Q>::generate_random_one_sample(&s(len), b, gauss, rng),
                _ => GadgetRLWE::<Q>::generate_random_neg_secret_sample(&s(len), b, gauss, rng),
            };
            let y = match o.salt & 3 {
                0 => NTTGadgetRLWE::<Q>::generate_random_neg_secret_sample(&s(len), b, gauss, rng),
                1 => NTTGadgetRLWE::<Q>::generate_random_one_sample(&s(len), b, gauss, rng),
                _ => NTTGadgetRLWE::<Q>::generate_random_zero_sample(&s(len), b, gauss, rng),
            };
            x.iter().for_each(|c| rf(&mut out, c));
            y.iter().for_each(|c| nrf(&mut out, c));
            p2(2.0 * len as f64)
        }
        16 => {
            let b = Basis::<Q>::new(o.bits);
            let (x, y) = match o.salt & 1 {
                0 => (RGSW::<Q>::generate_random_zero_sample(&s(len), b, gauss, rng), NTTRGSW::<Q>::generate_random_one_sample(&s(len), b, gauss, rng)),
                _ => (RGSW::<Q>::generate_random_one_sample(&s(len), b, gauss, rng), NTTRGSW::<Q>::generate_random_zero_sample(&s(len), b, gauss, rng)),
            };
            x.c_m().iter().chain(x.c_neg_s_m().iter()).for_each(|c| rf(&mut out, c));
            y.c_m().iter().chain(y.c_neg_s_m().iter()).for_each(|c| nrf(&mut out, c));
            p2(2.0 * len as f64)
        }
        17 => {
            let pack: SecretKeyPack<C, Q> = KeyGen::generate_secret_key(o.spec.params()?, rng);
            out.extend(lwe_key(&pack));
            out.extend(ring_key(&pack));
            out.extend(uv(pack.ntt_ring_secret_key().as_slice()));
            false
        }
        18 => {
            let pack: SecretKeyPack<C, Q> = o.spec.pack(rng)?;
            let enc = Encryptor::new(pack.clone());
            for i in 0..4 {
                let c = if i % 2 == 0 { pack.encrypt(i / 2 == 1, rng) } else { enc.encrypt(i / 2 == 1, rng) };
                let (a, b) = comp(&c);
                out.extend(a);
                out.push(b);
            }
            o.spec.n as u32 * 4 * o.spec.q.ilog2() > 120
        }
        _ => {
            let pack: SecretKeyPack<C, Q> = o.spec.pack(rng)?;
            let ev = Evaluator::new(&pack, rng);
            let mut x = o.salt;
            for turn in 0..3 {
                let mut word = |m: u64| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 20) % m };
                let c: Comp = ((0..o.spec.n).map(|_| word(o.spec.q)).collect(), word(o.spec.q));
                let c = cipher::<C>(&c);
                let v = if turn < 2 {
                    let lut: Vec<u64> = (0..o.spec.big).map(|_| word(Q::P)).collect();
                    ev.bootstrap(c, Polynomial::new(fv(&lut)))
                } else if o.spec.q >= 8 {
                    ev.nand(&c, &c)
                } else {
                    c
                };
                let (a, b) = comp(&v);
                out.extend(a);
                out.push(b);
            }
            false
        }
    };
    Ok((out, wide))
}

struct Case {
    ops: Vec<Op>,
    kind: u64,
    seed: u64,
}
fn case<C: W, Q: Nx>(g: &mut G, most: usize) -> Case {
    let ops: Vec<Op> = (0..g.us(1, most)).map(|_| op::<C, Q>(g)).collect();
    for o in &ops {
        g.label(NAMES[o.kind as usize]);
    }
    Case { ops, kind: g.draw(3), seed: g.draw(0) }
}
type Results = (Vec<Vec<u64>>, u64);
fn straight<C: W, Q: Nx>(c: &Case) -> Result<Results, String> {
    let mut rng = Gen::new(c.kind, c.seed);
    let out = c.ops.iter().map(|o| Ok(run::<C, Q>(o, &mut rng)?.0)).collect::<Result<Vec<_>, String>>()?;
    Ok((out, rng.next()))
}
fn equal(c: &Case, x: &Results, y: &Results, how: &str) -> R {
    for (i, (a, b)) in x.0.iter().zip(&y.0).enumerate() {
        ensure!(a == b, "with the same generator, operation {i} ({}) gives something else {how}: {:?}: {a:?} and {b:?}", NAMES[c.ops[i].kind as usize], c.ops[i]);
    }
    same!(x.1, y.1, "state of the generator after the operations, {how}");
    Ok(())
}

/// the same operations alone, among others, in another thread
fn again<C: W, Q: Nx>(g: &mut G) -> R {
    let c = case::<C, Q>(g, 6);
    g.hit_if(c.ops.len() > 1);
    let other = Gen::new(g.draw(3), g.draw(0));
    let odd = g.draw(0);
    g.note(|| format!("{} operations: {}", c.ops.len(), c.ops.iter().map(|o| NAMES[o.kind as usize]).collect::<Vec<_>>().join(", ")));
    let first = straight::<C, Q>(&c)?;
    equal(&c, &first, &straight::<C, Q>(&c)?, "the second time")?;

    // with operations on another generator in between
    let mut rng = Gen::new(c.kind, c.seed);
    let mut side = other.clone();
    let mut out = vec![];
    for (i, o) in c.ops.iter().enumerate() {
        for (j, p) in c.ops.iter().enumerate() {
            if (odd >> ((i * 8 + j) % 64)) & 1 == 1 {
                run::<C, Q>(p, &mut side)?;
            }
        }
        out.push(run::<C, Q>(o, &mut rng)?.0);
    }
    equal(&c, &first, &(out, rng.next()), "when other generators are used in between")?;

    // two threads at a time
    let both = std::thread::scope(|s| {
        let t: Vec<_> = (0..2).map(|_| s.spawn(|| straight::<C, Q>(&c))).collect();
        t.into_iter().map(|t| t.join().map_err(|_| "panic in a thread".to_string())?).collect::<Result<Vec<_>, String>>()
    })?;
    for r in &both {
        equal(&c, &first, r, "in another thread")?;
    }

    // other generators give something else
    for o in &c.ops {
        let (mut a, mut b) = (Gen::new(c.kind, c.seed), Gen::new(c.kind, c.seed ^ 1));
        let (x, wide) = run::<C, Q>(o, &mut a)?;
        if wide {
            g.label("differs with the generator");
            ensure!(x != run::<C, Q>(o, &mut b)?.0, "{}: two generators with different seeds give the same: {o:?}: {x:?}", NAMES[o.kind as usize]);
            // and so does the same generator, later
            ensure!(x != run::<C, Q>(o, &mut a)?.0, "{}: the same twice in a row: {o:?}: {x:?}", NAMES[o.kind as usize]);
        }
    }
    Ok(())
}

/// evaluation draws nothing: equal keys and ciphertexts give equal results,
/// whatever was evaluated before
fn evaluation<C: W, Q: Nx>(g: &mut G) -> R {
    let mut o = op::<C, Q>(g);
    o.spec.q = o.spec.q.max(8);
    o.spec.t = 4;
    let seed = g.draw(0);
    let kind = g.draw(3);
    let make = || -> Result<(SecretKeyPack<C, Q>, Evaluator<C, Q>), String> {
        let mut rng = Gen::new(kind, seed);
        let pack: SecretKeyPack<C, Q> = o.spec.pack(&mut rng)?;
        let ev = Evaluator::new(&pack, &mut rng);
        Ok((pack, ev))
    };
    let (p0, e0) = make()?;
    let (p1, e1) = make()?;
    let pool: Vec<Comp> = (0..4).map(|_| (g.vec(o.spec.n, o.spec.q), g.edge(0, o.spec.q - 1))).collect();
    let luts: Vec<Vec<u64>> = (0..2).map(|_| g.vec(o.spec.big, Q::P)).collect();
    let eval = |p: &SecretKeyPack<C, Q>, e: &Evaluator<C, Q>, k: u64| -> Comp {
        let c: Vec<LWECiphertext<C>> = (0..3).map(|i| cipher::<C>(&pool[(k >> (4 + 2 * i)) as usize & 3])).collect();
        match k & 15 {
            0 | 1 => comp(&e.bootstrap(c[0].clone(), Polynomial::new(fv(&luts[(k & 1) as usize])))),
            2 => comp(&e.not(&c[0])),
            3 => comp(&e.nand(&c[0], &c[1])),
            4 => comp(&e.and(&c[0], &c[1])),
            5 => comp(&e.or(&c[0], &c[1])),
            6 => comp(&e.nor(&c[0], &c[1])),
            7 => comp(&e.xor(&c[0], &c[1])),
            8 => comp(&e.xnor(&c[0], &c[1])),
            9 => comp(&e.majority(&c[0], &c[1], &c[2])),
            10 => comp(&e.mux(&c[0], &c[1], &c[2])),
            _ => {
                let (m, noise) = p.decrypt_with_noise::<u8>(&c[0]);
                let d = Decryptor::new(p.clone());
                (vec![m as u64, d.decrypt::<u8>(&c[0]) as u64], noise.u())
            }
        }
    };
    let n = g.us(2, 12);
    let ks: Vec<u64> = (0..n).map(|_| g.draw(1 << 10)).collect();
    g.hit();
    g.note(|| format!("{n} evaluations, {:?}", o.spec));
    let first: Vec<Comp> = ks.iter().map(|&k| eval(&p0, &e0, k)).collect();
    // in another order, with the other key, and again
    let mut order: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let j = g.us(i, n - 1);
        order.swap(i, j);
    }
    for &i in &order {
        let second = eval(&p1, &e1, ks[i]);
        ensure!(second == first[i], "evaluation {i} of {ks:x?} differs between two equal keys, or with the order {order:?}: {:?} and {second:?}, {:?}", first[i], o.spec);
    }
    for (i, &k) in ks.iter().enumerate() {
        let third = eval(&p0, &e0, k);
        ensure!(third == first[i], "evaluation {i} of {ks:x?} differs when repeated: {:?} and {third:?}, {:?}", first[i], o.spec);
    }
    Ok(())
}

/// another process
fn process<C: W, Q: Nx>(g: &mut G, which: &str) -> R {
    let seed = g.draw(0);
    let c = case::<C, Q>(&mut G::fresh(seed, 0), 6);
    g.hit_if(c.ops.len() > 1);
    g.note(|| format!("{} operations: {}", c.ops.len(), c.ops.iter().map(|o| NAMES[o.kind as usize]).collect::<Vec<_>>().join(", ")));
    let first = straight::<C, Q>(&c)?;
    let mut exe = std::env::current_exe().map_err(|e| e.to_string())?;
    if g.bool() {
        // the build without debug assertions
        if let Some(p) = std::env::var_os("VERIF_PLAIN") {
            exe = p.into();
            g.label("build without debug assertions");
        }
    }
    let out = std::process::Command::new(exe).args(["--print", which, &seed.to_string()]).output().map_err(|e| e.to_string())?;
    ensure!(out.status.success(), "the other process ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr));
    let second: Results = serde_json::from_slice(&out.stdout).map_err(|e| e.to_string())?;
    equal(&c, &first, &second, "in another process")
}
fn process_u16(g: &mut G) -> R {
    process::<u16, N27>(g, "u16")
}
fn process_u64(g: &mut G) -> R {
    process::<u64, N50>(g, "u64")
}

macro_rules! combos {
    ($v:ident, $name:literal, $f:ident, [$($c:ident $q:ident),*], $quick:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($c), "-", stringify!($q)), $quick, $th, $rule, $f::<$c, $q>)); )*
    };
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--print") {
        let seed = args[3].parse().unwrap();
        let r = match args[2].as_str() {
            "u16" => straight::<u16, N27>(&case::<u16, N27>(&mut G::fresh(seed, 0), 6)),
            _ => straight::<u64, N50>(&case::<u64, N50>(&mut G::fresh(seed, 0), 6)),
        };
        println!("{}", serde_json::to_string(&r.unwrap()).unwrap());
        return;
    }
    let mut c29 = vec![];
    combos!(c29, "again", again, [u8 N257, u16 N12289, u16 N27, u32 N30, u64 N62], 1_500, 40_000, "1..6 operations that draw, run alone, again, among others, in two threads; non-trivial: more than one operation");
    combos!(c29, "evaluation", evaluation, [u8 N257, u16 N27, u32 N30, u64 N50], 600, 20_000, "2..12 evaluations under two equal keys, in different orders, repeated; non-trivial: all");
    c29.push(sub("process-u16", 400, 8_000, "operations that draw, in two processes; non-trivial: more than one operation", process_u16));
    c29.push(sub("process-u64", 400, 8_000, "operations that draw, in two processes; non-trivial: more than one operation", process_u64));
    let some: &'static [&'static str] = Box::leak(Box::new(["generators: ChaCha12, ChaCha20 and the library's AES generator, seeded"]));
    harness::engine::main(vec![Prop { id: "C29", subs: c29, assumptions: some }])
}
