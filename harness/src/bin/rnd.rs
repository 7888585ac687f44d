//! C14 AES-128 and the generator built on it, C15 samplers.

use std::sync::OnceLock;

use algebra::utils::{sample_binary_field_vec, sample_cbd_field_vec, sample_ternary_field_vec, Aes, Block, Prg};
use algebra::{derive::*, AlgebraError, AsFrom, Field, FieldBinarySampler, FieldDiscreteGaussianSampler, FieldTernarySampler, FieldUniformSampler, NTTPolynomial, Polynomial};
use harness::engine::*;
use harness::fieldset::*;
use harness::oracle::*;
use harness::stats::*;
use harness::{ensure, fits, same};
use lattice::{sample_binary_values, sample_ternary_values, BinarySampler, DiscreteGaussian, TernarySampler};
use rand::distributions::Distribution;
use rand::{CryptoRng, Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;
use rand_core::block::{BlockRng, BlockRngCore};

// ---------------------------------------------------------------- C14

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ (if a & 0x80 != 0 { 0x1B } else { 0 });
        b >>= 1;
    }
    r
}

fn sbox() -> &'static [u8; 256] {
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for x in 0..=255u8 {
            let inv = (1..=255u8).find(|&y| gmul(x, y) == 1).unwrap_or(0);
            s[x as usize] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        s
    })
}

/// AES-128, written from FIPS-197
#[derive(Clone)]
struct RefAes([[u8; 16]; 11]);

impl RefAes {
    fn new(key: [u8; 16]) -> Self {
        let s = sbox();
        let mut w = [[0u8; 4]; 44];
        for i in 0..4 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = gmul(rcon, 2);
            }
            for j in 0..4 {
                w[i][j] = w[i - 4][j] ^ t[j];
            }
        }
        let mut k = [[0u8; 16]; 11];
        for r in 0..11 {
            for c in 0..4 {
                k[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        RefAes(k)
    }
    fn encrypt(&self, mut b: [u8; 16]) -> [u8; 16] {
        let s = sbox();
        let xor = |b: &mut [u8; 16], k: &[u8; 16]| (0..16).for_each(|i| b[i] ^= k[i]);
        xor(&mut b, &self.0[0]);
        for r in 1..=10 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = s[b[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r < 10 {
                for c in 0..4 {
                    let x = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for i in 0..4 {
                        t[4 * c + i] = gmul(x[i], 2) ^ gmul(x[(i + 1) % 4], 3) ^ x[(i + 2) % 4] ^ x[(i + 3) % 4];
                    }
                }
            }
            b = t;
            xor(&mut b, &self.0[r]);
        }
        b
    }
}

fn bytes(g: &mut G) -> [u8; 16] {
    match g.draw(5) {
        0 => [[0u8; 16], [0xFF; 16]][g.us(0, 1)],
        1 => {
            let mut b = [0u8; 16];
            let i = g.us(0, 127);
            b[i / 8] = 1 << (i % 8);
            b
        }
        2 => {
            // the standard's own vectors
            let k: [u128; 3] = [0x000102030405060708090a0b0c0d0e0f, 0x2b7e151628aed2a6abf7158809cf4f3c, 0x00112233445566778899aabbccddeeff];
            g.pick(&k).to_be_bytes()
        }
        _ => {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&g.draw(0).to_le_bytes());
            b[8..].copy_from_slice(&g.draw(0).to_le_bytes());
            b
        }
    }
}

fn u8s(b: Block) -> [u8; 16] {
    b.into()
}

fn self_check() {
    static W: OnceLock<()> = OnceLock::new();
    W.get_or_init(|| {
        let c = RefAes::new(0x000102030405060708090a0b0c0d0e0fu128.to_be_bytes()).encrypt(0x00112233445566778899aabbccddeeffu128.to_be_bytes());
        assert_eq!(u128::from_be_bytes(c), 0x69c4e0d86a7b0430d8cdb78070b4c55a, "the reference cipher is wrong");
        let c = RefAes::new(0x2b7e151628aed2a6abf7158809cf4f3cu128.to_be_bytes()).encrypt(0x3243f6a8885a308d313198a2e0370734u128.to_be_bytes());
        assert_eq!(u128::from_be_bytes(c), 0x3925841d02dc09fbdc118597196a0b32, "the reference cipher is wrong");
    });
}

fn cipher(g: &mut G) -> R {
    self_check();
    let key = bytes(g);
    let aes = Aes::new(Block::from(key));
    let rf = RefAes::new(key);
    let n = g.len(40);
    let blks: Vec<[u8; 16]> = (0..n).map(|_| bytes(g)).collect();
    let want: Vec<[u8; 16]> = blks.iter().map(|b| rf.encrypt(*b)).collect();
    g.note(|| format!("key {key:02x?}, {n} blocks"));
    g.hit_if(n > 1);
    for (b, w) in blks.iter().zip(&want) {
        same!(u8s(aes.encrypt_block(Block::from(*b))), *w, "encrypt_block({b:02x?}) under {key:02x?}");
    }
    let mut v: Vec<Block> = blks.iter().map(|b| Block::new(b)).collect();
    aes.encrypt_block_slice(&mut v);
    for i in 0..n {
        same!(u8s(v[i]), want[i], "encrypt_block_slice, block {i} of {n}");
    }
    macro_rules! many {
        ($($k:literal)*) => {{$(
            if n >= $k {
                let from = g.us(0, n - $k);
                let a: [Block; $k] = std::array::from_fn(|i| Block::from(blks[from + i]));
                let c = aes.encrypt_many_blocks(a);
                for i in 0..$k {
                    same!(u8s(c[i]), want[from + i], "encrypt_many_blocks, block {i} of {}", $k);
                }
            }
        )*}};
    }
    match g.draw(4) {
        0 => many!(0 1 2 3 4 5 6 7 8 9),
        1 => many!(10 11 12 13 14 15 16 17),
        2 => many!(18 20 23 24 25 31 32 33),
        _ => many!(1 4 8 16 40),
    }
    // a copy and the original are the same cipher
    #[allow(clippy::clone_on_copy)]
    let again = aes.clone();
    if let Some(b) = blks.first() {
        same!(u8s(again.encrypt_block(Block::from(*b))), want[0], "clone of the cipher");
    }
    Ok(())
}

fn block(g: &mut G) -> R {
    let (a, b) = (bytes(g), bytes(g));
    let (x, y) = (u128::from_le_bytes(a), u128::from_le_bytes(b));
    let (p, q) = (Block::from(a), Block::from(b));
    g.note(|| format!("{x:#034x} {y:#034x}"));
    g.hit_if(x != 0 && y != 0 && x != y);
    let v = |b: Block| u128::from(b);
    same!(v(p), x, "bytes to u128");
    same!(v(Block::new(&a)), x, "new");
    same!(v(Block::from(x)), x, "u128 to u128");
    let h = [x as u64, (x >> 64) as u64];
    same!(v(Block::from(h)), x, "[u64;2] to u128");
    same!(<[u64; 2]>::from(p), h, "to [u64;2]");
    same!(<[u8; 16]>::from(p), a, "to bytes");
    same!(p.as_ref(), &a[..], "as_ref");
    let mut m = p;
    let i = g.us(0, 15);
    m.as_mut()[i] ^= 0x5A;
    same!(v(m), x ^ (0x5Au128 << (8 * i)), "writing through as_mut");
    same!(v(p ^ q), x ^ y, "xor");
    same!(v(p | q), x | y, "or");
    same!(v(p & q), x & y, "and");
    let mut z = p;
    z ^= q;
    same!(v(z), x ^ y, "xor-assign");
    let mut z = p;
    z |= q;
    same!(v(z), x | y, "or-assign");
    let mut z = p;
    z &= q;
    same!(v(z), x & y, "and-assign");
    same!(p == q, x == y, "equality");
    ensure!(p == Block::from(x) && !(p != Block::from(x)), "equality with itself");
    // one flipped bit
    let f = 1u128 << g.us(0, 127);
    ensure!(p != Block::from(x ^ f), "a block equals the block with bit {f:#x} flipped");
    same!(v(Block::ZERO), 0, "ZERO");
    same!(v(Block::default()), 0, "default");
    same!(format!("{p}"), format!("{x:032X}"), "display");
    same!(format!("{p:?}"), format!("{x:032X}"), "debug");
    let n = g.len(40);
    let s: Vec<u8> = (0..n).map(|i| a[i % 16].wrapping_add((i / 16) as u8)).collect();
    match Block::try_from_slice(&s) {
        None => ensure!(n != 16, "try_from_slice refuses 16 bytes"),
        Some(t) => {
            ensure!(n == 16, "try_from_slice accepts {n} bytes");
            same!(v(t), x, "try_from_slice");
        }
    }
    // unaligned sources
    let mut buf = [0u8; 40];
    let o = g.us(0, 20);
    buf[o..o + 16].copy_from_slice(&a);
    same!(Block::try_from_slice(&buf[o..o + 16]).map(v), Some(x), "try_from_slice at offset {o}");
    let r: &[u8; 16] = buf[o..o + 16].try_into().unwrap();
    same!(v(Block::new(r)), x, "new at offset {o}");
    Ok(())
}

/// the key stream, computed with the reference cipher
struct RefCore {
    aes: RefAes,
    ctr: u64,
}
impl BlockRngCore for RefCore {
    type Item = u32;
    type Results = [u32; 32];
    fn generate(&mut self, out: &mut Self::Results) {
        for i in 0..8 {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&self.ctr.to_le_bytes());
            self.ctr += 1;
            let c = self.aes.encrypt(b);
            for j in 0..4 {
                out[4 * i + j] = u32::from_le_bytes(c[4 * j..4 * j + 4].try_into().unwrap());
            }
        }
    }
}
impl SeedableRng for RefCore {
    type Seed = [u8; 16];
    fn from_seed(seed: [u8; 16]) -> Self {
        RefCore { aes: RefAes::new(seed), ctr: 0 }
    }
}

fn keystream(key: [u8; 16], blocks: usize) -> Vec<u8> {
    let a = RefAes::new(key);
    let mut v = vec![];
    for i in 0..blocks as u64 {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&i.to_le_bytes());
        v.extend(a.encrypt(b));
    }
    v
}

/// whole blocks, whichever function delivers them
fn stream(g: &mut G) -> R {
    self_check();
    let key = bytes(g);
    let mut prg = Prg::from_seed(Block::from(key));
    let calls = g.us(1, 20);
    let mut out: Vec<u8> = vec![];
    let mut names = vec![];
    for _ in 0..calls {
        let n = match g.draw(4) {
            0 => g.us(0, 3),
            1 => g.us(7, 9),
            2 => g.len(40),
            _ => 1,
        };
        let kind = g.draw(7);
        names.push((kind, n));
        match kind {
            0 => {
                let mut v = vec![0u8; 16 * n];
                prg.fill_bytes(&mut v);
                out.extend(v);
            }
            1 => {
                let mut v = vec![0xAAu8; 16 * n];
                prg.random_bytes(&mut v);
                out.extend(v);
            }
            2 => {
                let mut v = vec![Block::from(!0u128); n];
                prg.random_blocks(&mut v);
                v.iter().for_each(|b| out.extend(u8s(*b)));
            }
            3 => (0..n).for_each(|_| out.extend(u8s(prg.random_block()))),
            4 => (0..4 * n).for_each(|_| out.extend(prg.next_u32().to_le_bytes())),
            5 => (0..2 * n).for_each(|_| out.extend(prg.next_u64().to_le_bytes())),
            _ => {
                let mut v = vec![0u8; 16 * n];
                prg.try_fill_bytes(&mut v).map_err(|e| format!("{e:?}"))?;
                out.extend(v);
            }
        }
    }
    let want = keystream(key, out.len() / 16);
    g.note(|| format!("key {key:02x?}, calls (function, blocks) {names:?}"));
    g.hit_if(out.len() > 128);
    if let Some(i) = (0..out.len()).find(|&i| out[i] != want[i]) {
        return Err(format!("key {key:02x?}, calls {names:?}: byte {} of block {} differs", i % 16, i / 16));
    }
    Ok(())
}

/// any sequence of calls, against the block generator over the reference key stream
fn history(g: &mut G) -> R {
    self_check();
    let key = bytes(g);
    let mut rf;
    let mut prg = match g.draw(4) {
        0 => {
            let s = g.draw(0);
            rf = BlockRng::<RefCore>::seed_from_u64(s);
            Prg::seed_from_u64(s)
        }
        1 => {
            let s = g.draw(0);
            rf = BlockRng::<RefCore>::from_rng(ChaCha12Rng::seed_from_u64(s)).map_err(|e| format!("{e:?}"))?;
            Prg::from_rng(ChaCha12Rng::seed_from_u64(s)).map_err(|e| format!("{e:?}"))?
        }
        _ => {
            rf = BlockRng::<RefCore>::from_seed(key);
            Prg::from_seed(Block::from(key))
        }
    };
    let n = g.us(1, 40);
    g.hit_if(n > 3);
    let mut log = vec![];
    for step in 0..n {
        let kind = g.draw(12);
        let len = if g.one_in(6) { g.us(0, 400) } else { g.len(24) };
        log.push((kind, len));
        let mut w = vec![0u8; len];
        let at = |what: &str| format!("{what}, call {step} of {log:?} (key {key:02x?})");
        match kind {
            0 => same!(prg.next_u32(), rf.next_u32(), "{}", at("next_u32")),
            1 => same!(prg.next_u64(), rf.next_u64(), "{}", at("next_u64")),
            2 => {
                let mut v = vec![0u8; len];
                prg.fill_bytes(&mut v);
                rf.fill_bytes(&mut w);
                same!(v, w, "{}", at("fill_bytes"));
            }
            3 => {
                let mut v = vec![0u8; len];
                prg.random_bytes(&mut v);
                rf.fill_bytes(&mut w);
                same!(v, w, "{}", at("random_bytes"));
            }
            4 => same!(prg.random_bool(), rf.gen::<bool>(), "{}", at("random_bool")),
            5 => same!(prg.random_byte(), rf.gen::<u8>(), "{}", at("random_byte")),
            6 => same!(u128::from(prg.random_block()), rf.gen::<u128>(), "{}", at("random_block")),
            7 => {
                let mut v = vec![true; len];
                let mut u = vec![false; len];
                prg.random_bools(&mut v);
                rf.fill(&mut u[..]);
                same!(v, u, "{}", at("random_bools"));
            }
            8 => {
                let mut v = vec![Block::ZERO; len];
                let mut u = vec![0u8; 16 * len];
                prg.random_blocks(&mut v);
                rf.fill_bytes(&mut u);
                let v: Vec<u8> = v.iter().flat_map(|b| u8s(*b)).collect();
                same!(v, u, "{}", at("random_blocks"));
            }
            9 => {
                let mut v = vec![0u8; len];
                prg.try_fill_bytes(&mut v).map_err(|e| format!("{e:?}"))?;
                rf.fill_bytes(&mut w);
                same!(v, w, "{}", at("try_fill_bytes"));
            }
            10 => same!(u128::from(prg.gen::<Block>()), rf.gen::<u128>(), "{}", at("gen::<Block>")),
            _ => {
                // a clone continues the same stream and leaves the original alone
                let mut c = prg.clone();
                let mut a = vec![0u8; len];
                let mut b = vec![0u8; len];
                c.fill_bytes(&mut a);
                let mut d = prg.clone();
                d.fill_bytes(&mut b);
                same!(a, b, "{}", at("two clones"));
            }
        }
    }
    g.note(|| format!("key {key:02x?}, {log:?}"));
    Ok(())
}

/// far into a stream: the blocks around powers of two, at random places and at the end
fn far(g: &mut G, top: u32) -> R {
    self_check();
    let key = bytes(g);
    let total = (1u64 << top) + 64;
    let mut places: Vec<u64> = (8..=top).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    places.extend((0..40).map(|_| g.draw(total)));
    places.extend((0..20).map(|i| total - 1 - i));
    places.sort();
    places.dedup();
    let size = g.us(1, 4096);
    g.note(|| format!("key {key:02x?}, {total} blocks in batches of {size}"));
    g.hit_if(top >= 16);
    let reference = RefAes::new(key);
    let mut prg = Prg::from_seed(Block::from(key));
    let mut buf = vec![Block::ZERO; size];
    let (mut at, mut next) = (0u64, 0);
    let start = std::time::Instant::now();
    while at < total {
        if start.elapsed().as_secs() > 150 {
            // a slow machine: what was compared so far agreed
            g.nontrivial = false;
            g.label("cut short");
            return Ok(());
        }
        prg.random_blocks(&mut buf);
        while next < places.len() && places[next] < at + size as u64 {
            let i = places[next];
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&i.to_le_bytes());
            same!(u8s(buf[(i - at) as usize]), reference.encrypt(b), "block {i} of the stream of key {key:02x?} read in batches of {size}");
            next += 1;
        }
        at += size as u64;
    }
    Ok(())
}

fn long(g: &mut G) -> R {
    let top = g.us(12, 25) as u32;
    far(g, top)
}
fn very_long(g: &mut G) -> R {
    far(g, 32)
}

fn seeds(g: &mut G) -> R {
    self_check();
    let a = bytes(g);
    let mut b = bytes(g);
    if g.bool() || a == b {
        b = a;
        let i = g.us(0, 127);
        b[i / 8] ^= 1 << (i % 8);
    }
    g.note(|| format!("{a:02x?} {b:02x?}"));
    g.hit();
    let take = |mut p: Prg| {
        let mut v = [Block::ZERO; 17];
        p.random_blocks(&mut v);
        v.map(u8s)
    };
    let x = take(Prg::from_seed(Block::from(a)));
    same!(take(Prg::from_seed(Block::from(a))), x, "the same seed again");
    let y = take(Prg::from_seed(Block::from(b)));
    ensure!((0..17).all(|i| x[i] != y[i]), "seeds {a:02x?} and {b:02x?} share a block");
    let mut all: Vec<_> = x.to_vec();
    all.sort();
    all.dedup();
    same!(all.len(), 17, "distinct blocks in a stream");
    // seeds nobody chose
    ensure!(take(Prg::new())[0] != take(Prg::new())[0], "two fresh generators agree");
    ensure!(take(Prg::default())[0] != take(Prg::new())[0], "two fresh generators agree");
    let (s, t) = (g.draw(0), g.draw(0));
    ensure!(s == t || take(Prg::seed_from_u64(s))[0] != take(Prg::seed_from_u64(t))[0], "seeds {s} and {t} agree");
    Ok(())
}

// ---------------------------------------------------------------- C15

#[derive(Field, Prime)]
#[modulus = 954437161]
pub struct U30(u32);
#[derive(Field, Prime)]
#[modulus = 4099276460824344799]
pub struct U62(u64);

/// A generator with awkward words among ordinary ones: all ones, all zeros,
/// single bits, repetitions.  For support checks only.
struct Awkward {
    inner: ChaCha12Rng,
    last: u32,
    calls: u64,
}
impl Awkward {
    fn word(&mut self) -> u32 {
        self.calls += 1;
        assert!(self.calls < 20_000_000, "a sampler does not stop drawing random words");
        let r = self.inner.next_u32();
        self.last = match r & 15 {
            0 => 0,
            1 => u32::MAX,
            2 => self.last,
            3 => 1 << (r >> 27),
            4 => !(1 << (r >> 27)),
            5 => u32::MAX - (r >> 28),
            6 => r >> 28,
            _ => self.inner.next_u32(),
        };
        self.last
    }
}
impl RngCore for Awkward {
    fn next_u32(&mut self) -> u32 {
        self.word()
    }
    fn next_u64(&mut self) -> u64 {
        self.word() as u64 | (self.word() as u64) << 32
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Awkward {}

enum AnyRng {
    ChaCha(ChaCha12Rng),
    Prg(Box<Prg>),
    Awkward(Awkward),
}
impl RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 {
        match self {
            AnyRng::ChaCha(r) => r.next_u32(),
            AnyRng::Prg(r) => r.next_u32(),
            AnyRng::Awkward(r) => r.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self {
            AnyRng::ChaCha(r) => r.next_u64(),
            AnyRng::Prg(r) => r.next_u64(),
            AnyRng::Awkward(r) => r.next_u64(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        match self {
            AnyRng::ChaCha(r) => r.fill_bytes(dest),
            AnyRng::Prg(r) => r.fill_bytes(dest),
            AnyRng::Awkward(r) => r.fill_bytes(dest),
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for AnyRng {}

/// a sound generator for frequencies
fn fair(g: &mut G) -> AnyRng {
    let s = g.draw(0);
    if g.one_in(3) {
        AnyRng::Prg(Box::new(Prg::seed_from_u64(s)))
    } else {
        AnyRng::ChaCha(ChaCha12Rng::seed_from_u64(s))
    }
}
fn awkward(g: &mut G) -> AnyRng {
    AnyRng::Awkward(Awkward { inner: g.rng(), last: 0, calls: 0 })
}

fn draw_uniform<F: Fx0>(g: &mut G, n: usize, rng: &mut AnyRng) -> (Vec<u64>, &'static str) {
    match g.draw(5) {
        0 => ((0..n).map(|_| F::u0(F::random(rng))).collect(), "Field::random"),
        1 => {
            let s = FieldUniformSampler::<F>::new();
            ((0..n).map(|_| F::u0(s.sample(rng))).collect(), "FieldUniformSampler")
        }
        2 => (FieldUniformSampler::<F>::default().sample_iter(rng).take(n).map(F::u0).collect(), "FieldUniformSampler::sample_iter"),
        3 => (Polynomial::<F>::random(n, rng).iter().map(|x| F::u0(*x)).collect(), "Polynomial::random"),
        _ => (Polynomial::<F>::random_with_distribution(n, rng, FieldUniformSampler::<F>::new()).iter().map(|x| F::u0(*x)).collect(), "Polynomial::random_with_distribution"),
    }
}

/// what the samplers need of a field
trait Fx0: Field + 'static {
    const P0: u64;
    fn u0(self) -> u64;
}
macro_rules! fx0 {
    ($($t:ident)*) => {$(impl Fx0 for $t { const P0: u64 = <$t as Fx>::P; fn u0(self) -> u64 { Fx::u(self) } })*};
}
fx0!(A2 A3 A59 N61 N257 B16381 N12289 N12289w N27 N30 N30b C5 Cmax N50 N60 N62 N62b D5 Dmax);
impl Fx0 for U30 {
    const P0: u64 = 954437161;
    fn u0(self) -> u64 {
        self.value() as u64
    }
}
impl Fx0 for U62 {
    const P0: u64 = 4099276460824344799;
    fn u0(self) -> u64 {
        self.value()
    }
}

fn uniform<F: Fx0>(g: &mut G) -> R {
    let p = F::P0;
    if g.one_in(3) {
        let mut rng = awkward(g);
        let n = g.len(300);
        let (xs, what) = draw_uniform::<F>(g, n, &mut rng);
        same!(xs.len(), n, "{what}: number of values");
        g.note(|| format!("{what}, modulus {p}, {n} values from awkward words"));
        if let Some(x) = xs.iter().find(|&&x| x >= p) {
            return Err(format!("{what}: {x} is not below {p}"));
        }
        return Ok(());
    }
    let mut rng = fair(g);
    let n = if g.one_in(12) { 400_000 } else { 20_000 };
    let (xs, what) = draw_uniform::<F>(g, n, &mut rng);
    g.note(|| format!("{what}, modulus {p}, {n} values"));
    g.hit();
    same!(xs.len(), n, "{what}: number of values");
    if let Some(x) = xs.iter().find(|&&x| x >= p) {
        return Err(format!("{what}: {x} is not below {p}"));
    }
    uniform_fit(g, &xs, p, what)
}

fn uniform_ntt<F: Nx>(g: &mut G) -> R {
    let p = F::P;
    let n = if g.bool() { 20_000 } else { g.us(0, 40) };
    let mut rng = fair(g);
    let v = if g.bool() { NTTPolynomial::<F>::random(n, &mut rng) } else { NTTPolynomial::<F>::random_with_distribution(n, &mut rng, FieldUniformSampler::new()) };
    let xs: Vec<u64> = v.iter().map(|x| x.u()).collect();
    same!(xs.len(), n, "NTTPolynomial::random: number of values");
    g.note(|| format!("modulus {p}, {n} values"));
    g.hit_if(n > 100);
    if let Some(x) = xs.iter().find(|&&x| x >= p) {
        return Err(format!("NTTPolynomial::random: {x} is not below {p}"));
    }
    if n > 100 {
        uniform_fit(g, &xs, p, "NTTPolynomial::random")?;
    }
    Ok(())
}



fn cbd_pmf() -> Vec<(i64, f64)> {
    // a - b for a, b ~ B(21, 1/2) is B(42, 1/2) - 21
    let mut c = vec![1f64];
    for _ in 0..42 {
        let mut d = vec![0.0; c.len() + 1];
        for (i, x) in c.iter().enumerate() {
            d[i] += x / 2.0;
            d[i + 1] += x / 2.0;
        }
        c = d;
    }
    c.into_iter().enumerate().map(|(i, p)| (i as i64 - 21, p)).collect()
}

fn signed(x: u64, p: u64) -> Result<i64, String> {
    ensure!(x < p, "{x} is not below the modulus {p}");
    Ok(if x > p / 2 { x.wrapping_sub(p) as i64 } else { x as i64 })
}

fn len(g: &mut G) -> usize {
    match g.draw(4) {
        0 => g.us(0, 8),
        1 => *g.pick(&[15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65]),
        2 => g.us(0, 70),
        _ => g.us(9, 40),
    }
}

/// binary, ternary and centred binomial values over a field
fn small_field<F: Fx0>(g: &mut G) -> R {
    let p = F::P0;
    let n = len(g);
    let bad = g.one_in(4);
    let mut rng = if bad { awkward(g) } else { fair(g) };
    let m = if bad { 40 } else if g.one_in(12) { 25_000 } else { 3000 };
    let kind = if p > 60 { g.draw(8) } else { g.draw(6) };
    let pmf: Vec<(i64, f64)> = match kind {
        0..=2 => BINARY.to_vec(),
        3..=5 => TERNARY.to_vec(),
        _ => cbd_pmf(),
    };
    // as small primes wrap: -1 is the largest residue
    let conv = |x: F| -> Result<i64, String> {
        let u = x.u0();
        ensure!(u < p, "{u} is not below the modulus {p}");
        Ok(if kind <= 2 { u as i64 } else if u > p / 2 && u > 1 || (kind > 2 && u == p - 1 && p > 2) { u.wrapping_sub(p) as i64 } else { u as i64 })
    };
    let what = ["sample_binary_field_vec", "Polynomial::random_with_binary", "FieldBinarySampler", "sample_ternary_field_vec", "Polynomial::random_with_ternary", "FieldTernarySampler", "sample_cbd_field_vec", "Polynomial::random_with_gaussian(0, 3.2)"][kind as usize];
    let chi = FieldDiscreteGaussianSampler::new(0.0, 3.2).map_err(|e| format!("{e:?}"))?;
    let vs = (0..m)
        .map(|_| {
            let v: Vec<F> = match kind {
                0 => sample_binary_field_vec(n, &mut rng),
                1 => Polynomial::<F>::random_with_binary(n, &mut rng).iter().copied().collect(),
                2 => (0..n).map(|_| FieldBinarySampler.sample(&mut rng)).collect(),
                3 => sample_ternary_field_vec(n, &mut rng),
                4 => Polynomial::<F>::random_with_ternary(n, &mut rng).iter().copied().collect(),
                5 => Polynomial::<F>::random_with_distribution(n, &mut rng, FieldTernarySampler).iter().copied().collect(),
                6 => sample_cbd_field_vec(n, &mut rng),
                _ => Polynomial::<F>::random_with_gaussian(n, &mut rng, chi).iter().copied().collect(),
            };
            same!(v.len(), n, "{what}: length");
            v.into_iter().map(conv).collect::<Result<Vec<_>, _>>()
        })
        .collect::<Result<Vec<_>, String>>()?;
    g.note(|| format!("{what}, modulus {p}, {m} vectors of length {n}"));
    g.hit_if(!bad && n > 1);
    if bad {
        let ok = |x: i64| pmf.iter().any(|c| c.0 == x);
        for v in &vs {
            ensure!(v.iter().all(|x| ok(*x)), "{what}: {v:?}");
        }
        return Ok(());
    }
    vectors_fit(&vs, &pmf, what)
}

/// binary and ternary values below any modulus
macro_rules! small_int {
    ($name:ident, $t:ident) => {
        fn $name(g: &mut G) -> R {
            let n = len(g);
            let bad = g.one_in(4);
            let mut rng = if bad { awkward(g) } else { fair(g) };
            let m = if bad { 40 } else if g.one_in(12) { 25_000 } else { 3000 };
            let modulus = match g.draw(3) {
                0 => 1 << g.int(2, $t::BITS as u64 - 1),
                1 => $t::MAX as u64,
                _ => g.edge(3, $t::MAX as u64),
            };
            let kind = g.draw(4);
            let what = ["sample_binary_values", "BinarySampler", "sample_ternary_values", "TernarySampler"][kind as usize];
            let tern = TernarySampler::new(modulus as $t);
            let vs = (0..m)
                .map(|_| {
                    let v: Vec<$t> = match kind {
                        0 => sample_binary_values(n, &mut rng),
                        1 => (0..n).map(|_| BinarySampler.sample(&mut rng)).collect(),
                        2 => sample_ternary_values(modulus as $t, n, &mut rng),
                        _ => (&tern).sample_iter(&mut rng).take(n).collect(),
                    };
                    same!(v.len(), n, "{what}: length");
                    v.into_iter().map(|x| if kind < 2 { Ok(x as i64) } else { signed(x as u64, modulus) }).collect::<Result<Vec<i64>, String>>()
                })
                .collect::<Result<Vec<_>, String>>()?;
            g.note(|| format!("{what}, modulus {modulus}, {m} vectors of length {n}"));
            g.hit_if(!bad && n > 1);
            let pmf: &[(i64, f64)] = if kind < 2 { &BINARY } else { &TERNARY };
            if bad {
                for v in &vs {
                    ensure!(v.iter().all(|x| pmf.iter().any(|c| c.0 == *x)), "{what}: {v:?}");
                }
                return Ok(());
            }
            vectors_fit(&vs, pmf, what)
        }
    };
}
small_int!(small_u8, u8);
small_int!(small_u16, u16);
small_int!(small_u32, u32);
small_int!(small_u64, u64);

/// mean, standard deviation and an optional bound, with everything sampled
/// strictly between -limit and limit
fn gauss_params(g: &mut G, limit: f64) -> (f64, f64, Option<f64>) {
    let max_std = limit / 16.0;
    let std = match g.draw(8) {
        0 => 0.0,
        1 => 3.2f64.min(max_std),
        2 => (g.int(1, 200) as f64 / 100.0).min(max_std),
        3 => max_std / (1 << g.draw(10)) as f64,
        4 => (0.05 * g.int(1, 20) as f64).min(max_std),
        5 => {
            let e = g.int(0, 1000) as f64 / 1000.0;
            max_std.powf(e)
        }
        6 => (1u64 << g.draw(8)) as f64,
        _ => (g.int(1, 2000) as f64 / 64.0).min(max_std),
    }
    .min(max_std);
    let max = match g.draw(3) {
        0 => Some(if std == 0.0 { 0.5 + g.draw(4) as f64 } else { std * (1.01 + g.int(0, 700) as f64 / 100.0) }),
        _ => None,
    };
    let room = limit - max.unwrap_or(6.0 * std) - 1.0;
    let mean = match g.draw(6) {
        0 | 1 => 0.0,
        2 => g.int(0, 40) as f64 / 8.0 - 2.5,
        3 => -0.0,
        4 => room * (g.int(0, 2000) as f64 / 1000.0 - 1.0),
        _ => (room * (g.int(0, 2000) as f64 / 1000.0 - 1.0)).round(),
    };
    (mean.clamp(-room.max(0.0), room.max(0.0)), std, max)
}

fn gauss_field<F: Fx0>(g: &mut G) -> R {
    let p = F::P0;
    let (mean, std, max) = gauss_params(g, ((p / 2) as f64 - 1.0) * 0.9999);
    let chi = match max {
        None => FieldDiscreteGaussianSampler::new(mean, std),
        Some(m) => FieldDiscreteGaussianSampler::new_with_max(mean, std, m),
    }
    .map_err(|e| format!("valid parameters ({mean}, {std}, {max:?}) refused: {e:?}"))?;
    same!(chi.mean().to_bits(), mean.to_bits(), "mean()");
    same!(chi.std_dev().to_bits(), std.to_bits(), "std_dev()");
    let max = max.unwrap_or(std * 6.0);
    same!(chi.max_std_dev(), max, "max_std_dev()");
    g.note(|| format!("modulus {p}, mean {mean}, standard deviation {std}, bound {max}"));
    let conv = |x: F| signed(x.u0(), p);
    if g.one_in(4) {
        // every word sequence stays inside the support
        let mut rng = awkward(g);
        let v = (0..200).map(|_| conv(chi.sample(&mut rng))).collect::<Result<Vec<_>, _>>()?;
        return gauss_fit(g, &v, mean, std, max, "FieldDiscreteGaussianSampler");
    }
    g.hit_if(std > 0.0);
    let mut rng = AnyRng::Awkward(Awkward { inner: g.rng(), last: 0, calls: 0 });
    if std > 0.0 {
        rng = fair(g);
    }
    let n = if std == 0.0 { 20 } else if g.one_in(12) { 300_000 } else { 20_000 };
    let (v, what): (Vec<F>, _) = match g.draw(3) {
        0 => ((0..n).map(|_| chi.sample(&mut rng)).collect(), "FieldDiscreteGaussianSampler"),
        1 if !chi.cbd_enable() => (Polynomial::<F>::random_with_gaussian(n, &mut rng, chi).iter().copied().collect(), "Polynomial::random_with_gaussian"),
        _ => (Polynomial::<F>::random_with_distribution(n, &mut rng, chi).iter().copied().collect(), "Polynomial::random_with_distribution"),
    };
    same!(v.len(), n, "{what}: number of values");
    let xs = v.into_iter().map(conv).collect::<Result<Vec<_>, _>>()?;
    gauss_fit(g, &xs, mean, std, max, what)
}

macro_rules! gauss_int {
    ($name:ident, $t:ident) => {
        fn $name(g: &mut G) -> R {
            let modulus = match g.draw(3) {
                0 => 1 << g.int(5, $t::BITS as u64 - 1),
                1 => $t::MAX as u64,
                _ => g.edge(32, $t::MAX as u64),
            };
            let (mean, std, max) = gauss_params(g, ((modulus / 2) as f64 - 1.0) * 0.9999);
            let chi = match max {
                None => DiscreteGaussian::<$t>::new(modulus as $t, mean, std),
                Some(m) => DiscreteGaussian::<$t>::new_with_max_limit(modulus as $t, mean, std, m),
            }
            .map_err(|e| format!("valid parameters ({mean}, {std}, {max:?}) refused: {e:?}"))?;
            same!(chi.mean().to_bits(), mean.to_bits(), "mean()");
            same!(chi.std_dev().to_bits(), std.to_bits(), "std_dev()");
            let max = max.unwrap_or(std * 6.0);
            same!(chi.max_std_dev(), max, "max_std_dev()");
            g.note(|| format!("modulus {modulus}, mean {mean}, standard deviation {std}, bound {max}"));
            let bad = g.one_in(4) || std == 0.0;
            g.hit_if(!bad);
            let mut rng = if bad { awkward(g) } else { fair(g) };
            let n = if bad { 200 } else if g.one_in(12) { 300_000 } else { 20_000 };
            let v: Vec<$t> = if g.bool() { (0..n).map(|_| chi.sample(&mut rng)).collect() } else { chi.sample_iter(&mut rng).take(n).collect() };
            let xs = v.into_iter().map(|x| signed(x as u64, modulus)).collect::<Result<Vec<_>, _>>()?;
            gauss_fit(g, &xs, mean, std, max, "DiscreteGaussian")
        }
    };
}
gauss_int!(gauss_u8, u8);
gauss_int!(gauss_u16, u16);
gauss_int!(gauss_u32, u32);
gauss_int!(gauss_u64, u64);

/// constructors: what is refused and what is accepted
fn parameters(g: &mut G) -> R {
    let odd = |g: &mut G| -> f64 {
        match g.draw(9) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => 0.0,
            4 => -0.0,
            5 => -1e-9,
            6 => -3.2,
            7 => g.int(0, 100) as f64 / 10.0,
            _ => 3.2,
        }
    };
    let (mean, std, max) = (odd(g), odd(g), odd(g));
    g.note(|| format!("mean {mean}, standard deviation {std}, bound {max}"));
    g.hit();
    let plain = mean.is_finite() && std.is_finite() && std >= 0.0;
    let bounded = plain && max > std;
    let mut rng = awkward(g);
    let ok = |r: Result<Vec<u64>, AlgebraError>, want: bool, what: &str| -> R {
        match r {
            Ok(v) => {
                ensure!(want, "{what}({mean}, {std}, {max}) accepted");
                ensure!(v.iter().all(|&x| x < 1_000_003), "{what}({mean}, {std}, {max}): {v:?}");
                Ok(())
            }
            Err(AlgebraError::DistributionError) => {
                ensure!(!want, "{what}({mean}, {std}, {max}) refused");
                Ok(())
            }
            Err(e) => Err(format!("{what}({mean}, {std}, {max}): unexpected error {e:?}")),
        }
    };
    let chi = FieldDiscreteGaussianSampler::new(mean, std);
    ok(chi.map(|c| (0..5).map(|_| Fx0::u0(Distribution::<N20>::sample(&c, &mut rng))).collect()), plain, "FieldDiscreteGaussianSampler::new")?;
    let chi = FieldDiscreteGaussianSampler::new_with_max(mean, std, max);
    ok(chi.map(|c| (0..5).map(|_| Fx0::u0(Distribution::<N20>::sample(&c, &mut rng))).collect()), bounded, "FieldDiscreteGaussianSampler::new_with_max")?;
    let chi = DiscreteGaussian::<u32>::new(1_000_003, mean, std);
    ok(chi.map(|c| (0..5).map(|_| c.sample(&mut rng) as u64).collect()), plain, "DiscreteGaussian::new")?;
    let chi = DiscreteGaussian::<u32>::new_with_max_limit(1_000_003, mean, std, max);
    ok(chi.map(|c| (0..5).map(|_| c.sample(&mut rng) as u64).collect()), bounded, "DiscreteGaussian::new_with_max_limit")?;
    Ok(())
}

#[derive(Field, Prime)]
#[modulus = 1000003]
pub struct N20(u32);
impl Fx0 for N20 {
    const P0: u64 = 1000003;
    fn u0(self) -> u64 {
        self.value() as u64
    }
}

#[allow(unused)]
fn unused(x: f64) -> u32 {
    u32::as_from(x)
}

macro_rules! each {
    ($v:ident, $name:literal, $f:ident, [$($t:ident),*], $q:expr, $th:expr, $rule:expr) => {
        $( $v.push(sub(concat!($name, "-", stringify!($t)), $q, $th, $rule, $f::<$t>)); )*
    };
}

fn main() {
    let c14 = vec![
        sub("cipher", 600_000, 10_000_000, "key and 0..40 blocks, each function and batch size, against AES-128 written from FIPS-197; non-trivial: more than one block", cipher),
        sub("block", 2_000_000, 60_000_000, "two 128-bit values, every conversion and operation; non-trivial: two different non-zero values", block),
        sub("stream", 400_000, 8_000_000, "1..20 calls for whole blocks through seven functions; non-trivial: more than one refill of the buffer", stream),
        sub("history", 500_000, 10_000_000, "1..40 calls of any generation function with any length, against the same buffering over the reference key stream; non-trivial: more than 3 calls", history),
        sub("long", 64, 2_000, "streams of 2^12 to 2^25 blocks, compared at the powers of two, at 40 random places and at the end; non-trivial: beyond 2^16 blocks", long),
        sub("very-long", 1, 1, "one stream of 2^32 + 64 blocks (64 GiB), compared likewise", very_long).shrink(3),
        sub("seeds", 300_000, 5_000_000, "two different seeds (half of them one bit apart)", seeds),
    ];
    let mut c15 = vec![];
    each!(c15, "uniform", uniform, [A2, A3, A59, N61, N257, B16381, N12289, N27, N30, C5, Cmax, U30, N50, N60, N62, D5, Dmax, U62], 400, 15_000, "20000 values (or up to 300 from awkward words): shares of ranges, residues, words owned, neighbours; non-trivial: the statistical ones");
    each!(c15, "uniform-ntt", uniform_ntt, [N61, N257, N30, N62], 300, 10_000, "NTTPolynomial; non-trivial: 20000 values");
    each!(c15, "small", small_field, [A3, A59, N61, N257, B16381, N12289w, N30b, Cmax, N62b, Dmax], 150, 8_000, "3000 vectors of length 0..70: share of every value at every position, agreement of every pair of positions; non-trivial: statistical, length above 1");
    for (n, f) in [("small-u8", small_u8 as fn(&mut G) -> R), ("small-u16", small_u16), ("small-u32", small_u32), ("small-u64", small_u64)] {
        c15.push(sub(n, 150, 8_000, "binary and ternary values below any modulus, as above", f));
    }
    each!(c15, "gauss", gauss_field, [A59, N61, N257, B16381, N12289, N27, N30, Cmax, N50, N62, Dmax], 1_500, 50_000, "mean, standard deviation (0 included) and bound that fit the modulus; 20000 values: shares of integer cells, cumulated shares, neighbours, bound; non-trivial: positive deviation, fair words");
    for (n, f) in [("gauss-u8", gauss_u8 as fn(&mut G) -> R), ("gauss-u16", gauss_u16), ("gauss-u32", gauss_u32), ("gauss-u64", gauss_u64)] {
        c15.push(sub(n, 1_500, 50_000, "as above below any modulus", f));
    }
    c15.push(sub("parameters", 50_000, 1_000_000, "means, deviations and bounds among NaN, infinities, negative numbers, zeros and ordinary ones: accepted exactly when valid, and then terminating", parameters));

    harness::engine::main(vec![
        Prop { id: "C14", subs: c14, assumptions: &["x86-64 with AES instructions", "the buffering of rand_core::block::BlockRng is the reference for partial blocks"] },
        Prop { id: "C15", subs: c15, assumptions: &["ChaCha12 and AES-CTR words are treated as independent uniform bits", "a share counts as wrong beyond a Chernoff exponent of 40 (chance below 1e-17 per comparison)"] },
    ])
}
