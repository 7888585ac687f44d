"""C28: declarations of field types, generated, compiled and run.

Stage 1 compiles declarations that the derive macros must accept (whatever the spelling of
the modulus, the visibility, the order and choice of derives) and others that they must
refuse, and compares the compiler's verdict per declaration with the rule; the accepted ones
are run for their constants.  Stage 2 declares fields with generated moduli and runs the
generic checks of C08-C13 (harness/src/bin/{fields,ntt}.rs) on them.
"""
import json, os, random, re, shutil, subprocess, sys, time

WORDS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def modulus(r, top):
    """2 <= m < 2^top, with biases to the ends and to powers of two"""
    hi = (1 << top) - 1
    k = r.randrange(7)
    if k == 6 and top >= 8:
        # a product of two primes of like size
        a = r.randint(2, top // 2)
        while True:
            p, q = r.randint(2, 1 << a), r.randint(2, 1 << (top - a))
            if p * q <= hi and is_prime(p) and is_prime(q):
                return p * q
    if k == 0:
        return r.randint(2, min(hi, 9))
    if k == 1:
        return r.randint(max(2, hi - 8), hi)
    if k == 2:
        b = r.randint(1, top)
        return min(hi, max(2, (1 << b) + r.randint(-2, 2)))
    if k == 3:
        return r.randint(2, hi)
    b = r.randint(2, top)
    return max(2, r.getrandbits(b) & hi)


def prime(r, top):
    while True:
        m = modulus(r, top)
        for d in range(400):
            if m + d < 1 << top and is_prime(m + d):
                return m + d


def ntt_prime(r, top):
    """a prime of at most `top` bits, 1 modulo a generated power of two"""
    while True:
        bits = r.choice([top, top, r.randint(3, top)])
        k = r.randint(2, bits - 1)
        c = r.randint(1, max(1, (1 << (bits - k)) - 1))
        p = (c << k) + 1
        if 5 <= p < 1 << top and is_prime(p):
            return p


def spelled(r, m):
    s = r.choice([str(m), str(m), hex(m), oct(m), bin(m), "0x%X" % m])
    if r.randrange(3) == 0:
        pre, digits = (s[:2], s[2:]) if s[:2] in ("0x", "0o", "0b") else ("", s)
        out = ""
        for i, c in enumerate(digits):
            out += c
            if r.randrange(3) == 0:
                out += "_" * r.randint(1, 2)
        s = pre + out
    return s


# what each derive needs (the traits' supertraits)
NEEDS = {"Field": [], "Prime": ["Field"], "DecomposableField": ["Field"],
         "FheField": ["DecomposableField"], "NTT": ["Prime", "FheField"]}


def derives(r):
    chosen = {"Field"}

    def add(d):
        chosen.add(d)
        for n in NEEDS[d]:
            add(n)
    for d in NEEDS:
        if r.randrange(2):
            add(d)
    v = sorted(chosen)
    r.shuffle(v)
    return v


def decorated(r, name, body_field, der, attr):
    extra = r.choice(["", "", "#[allow(dead_code)] ", "/** a field */ "])
    d = "#[derive(%s)] " % ", ".join(der)
    a = "#[modulus = %s] " % attr if attr is not None else ""
    parts = [d, a] if r.randrange(6) else [d.replace(")] ", ",)] "), a]
    return "%s%s%sstruct %s(%s%s);" % (parts[0], extra, parts[1] + r.choice(["pub ", "pub(crate) ", "pub "]), name, r.choice(["", "pub ", "pub(crate) "]), body_field)


def good(r, i):
    t = r.choice(list(WORDS))
    m = modulus(r, WORDS[t] - 2)
    der = derives(r)
    s = spelled(r, m)
    return {"text": decorated(r, "F", t, der, s), "type": t, "modulus": m, "derives": der}


def bad(r, i):
    t = r.choice(list(WORDS))
    w = WORDS[t]
    m = modulus(r, w - 2)
    der = derives(r)
    if r.randrange(2):
        der = ["Field"]
    k = r.randrange(10)
    d = "#[derive(%s)] " % ", ".join(der)
    ok = "#[modulus = %d] " % m
    if k <= 2:
        lo, hi = 1 << (w - 2), (1 << w) - 1
        m = r.choice([lo, lo + 1, hi, r.randint(lo, hi), (1 << (w - 1)) + r.randint(-1, 1)])
        return {"text": decorated(r, "F", t, der, spelled(r, m)), "why": "modulus %d leaves fewer than two spare bits in %s" % (m, t)}
    if k <= 4:
        m = (1 << w) + r.choice([0, 1, 17, r.getrandbits(w), r.getrandbits(w + 3)])
        return {"text": decorated(r, "F", t, der, spelled(r, m)), "why": "modulus %d does not fit %s" % (m, t)}
    if k == 5:
        s = r.choice(['"%d"' % m, "-%d" % m, "%d.0" % m, "'a'", "true", "%d + 0" % m, "(%d, 3)" % m, "MODULUS", "1e3"])
        return {"text": d + "#[modulus = %s] pub struct F(%s);" % (s, t), "why": "the modulus is not an integer literal"}
    if k == 6:
        s = r.choice(["", "#[modulus] ", "#[modulus(%d)] " % m])
        return {"text": d + s + "pub struct F(%s);" % t, "why": "no modulus"}
    if k == 7:
        t = r.choice(["u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char", "String", "[%s; 1]" % t, "Vec<%s>" % t, "(%s,)" % t, "&'static %s" % t, "Option<%s>" % t])
        return {"text": d + "#[modulus = 17] pub struct F(%s);" % t, "why": "the inner type %s is not supported" % t}
    if k == 8:
        return {"text": d + ok + r.choice(["pub struct F(%s, %s);" % (t, t), "pub struct F(%s, ());" % t, "pub struct F;", "pub struct F();", "pub struct F {}", "pub struct F { x: %s, y: %s }" % (t, t)]), "why": "not exactly one inner value"}
    return {"text": d + ok + r.choice(["pub struct F { x: %s }" % t, "pub enum F { X(%s) }" % t, "pub enum F {}", "pub union F { x: %s }" % t]), "why": "not a tuple struct"}


def zero(r, i):
    t = r.choice(list(WORDS))
    m = r.randrange(2)
    return {"text": decorated(r, "F", t, derives(r), r.choice([str(m), "0x%d" % m, "0b%d" % m, "00%d" % m])), "why": "modulus %d" % m}


TOML = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
algebra = { path = "../../ws/algebra", default-features = false }
lattice = { path = "../../ws/lattice", default-features = false }
fhe_core = { path = "../../ws/fhe_core", default-features = false }
zkfhe = { path = "../../ws/bool", default-features = false }
num-traits = "0.2"
once_cell = "1.19"
rand = "0.8"
rand_core = "0.6"
rand_chacha = "0.3.1"
rand_distr = "0.4"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1"
bincode = "1.3"
rayon = "1"
%s
"""

class Decl:
    def __init__(self, check):
        self.c = check
        self.root = os.path.join(check.WORK, "decl")

    def crate(self, name, extra, sources):
        d = os.path.join(self.root, name)
        os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
        prof = open(os.path.join(self.c.HARNESS, "Cargo.toml")).read()
        prof = prof[prof.index("[profile.plain]"):]
        self.c.put(os.path.join(d, "Cargo.toml"), (TOML % ("decl_" + name, extra) + prof).encode())
        lock = os.path.join(d, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(self.c.HARNESS, "Cargo.lock"), lock)
        os.makedirs(os.path.join(d, ".cargo"), exist_ok=True)
        cfg = os.path.join(self.c.HARNESS, ".cargo", "config.toml")
        if os.path.exists(cfg):
            self.c.put(os.path.join(d, ".cargo", "config.toml"), open(cfg, "rb").read())
        for f, text in sources.items():
            self.c.put(os.path.join(d, "src", "bin", f + ".rs"), text.encode())
        return d

    def compile(self, d, bin, profile="pbt"):
        """(success, {line: message}, other output) of one generated program"""
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--profile", profile, "--message-format=json", "--bin", bin],
                           cwd=d, env=self.c.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        lines, rest = {}, []

        def spans(s):
            while s:
                if s["file_name"].endswith("/bin/%s.rs" % bin):
                    for n in range(s["line_start"], s["line_end"] + 1):
                        yield n
                s = (s.get("expansion") or {}).get("span")
        for l in r.stdout.decode("utf-8", "replace").splitlines():
            try:
                v = json.loads(l)
            except ValueError:
                continue
            if v.get("reason") != "compiler-message" or v["message"]["level"] not in ("error", "error: internal compiler error"):
                continue
            m = v["message"]
            at = [n for s in m["spans"] for n in spans(s)]
            for n in at:
                lines.setdefault(n, m["message"])
            if not at and not m["message"].startswith("aborting"):
                rest.append((v.get("target", {}).get("name"), m["message"]))
        return r.returncode == 0, lines, rest, r.stderr.decode("utf-8", "replace")[-1500:]

    def source(self, items, run=False):
        out = ["#![allow(unused)] use algebra::derive::*; use algebra::{Field as _, NegOne as _}; use num_traits::{Zero as _, One as _};"]
        for i, it in enumerate(items):
            out.append("mod m%d { use algebra::derive::*; %s }" % (i, it["text"]))
        if run:
            out.append("fn main() {")
            for i, it in enumerate(items):
                prime = "<m%d::F as algebra::PrimeField>::is_prime_field().to_string()" % i if "Prime" in it["derives"] else '"-".to_string()'
                out.append('println!("DECL %d {} {} {} {} {} {}", <m%d::F as algebra::Field>::MODULUS_VALUE, m%d::F::max(), m%d::F::neg_one(), m%d::F::one(), m%d::F::zero(), %s);' % (i, i, i, i, i, i, prime))
            out.append("}")
        else:
            out.append("fn main() {}")
        return "\n".join(out) + "\n"

    def shapes(self, seed, n_good, n_bad, only=None):
        """stage 1; returns (violations, evaluated, samples)"""
        r = random.Random("shapes/%s" % seed)
        sets = {"ok": [good(r, i) for i in range(n_good)], "bad": [bad(r, i) for i in range(n_bad)], "zero": [zero(r, i) for i in range(max(6, n_bad // 8))]}
        if only:
            sets = {only["set"]: [only["declaration"]]}
        v = []
        d = self.crate("shapes", "", {k: self.source(x, k == "ok") for k, x in sets.items()})
        # the library itself has to build
        for k, items in sets.items():
            ok, lines, rest, err = self.compile(d, k)
            foreign = [m for t, m in rest if t != k]
            if foreign:
                print("error: the library does not build:", foreign[:3])
                sys.exit(3)
            if k != "ok" and not ok and not lines:
                print("error: no verdict of the compiler on the declarations:", rest[:3], err)
                sys.exit(3)
            if k == "ok":
                if not ok and not lines:
                    print("error: the accepted declarations did not build:", rest[:3], err)
                    sys.exit(3)
                for i, it in enumerate(items):
                    if i + 2 in lines:
                        v.append({"set": k, "declaration": it, "message": "refused although valid: %s" % lines[i + 2]})
                if not ok and not v:
                    # an error in the lines that use a type
                    for n, m in sorted(lines.items()):
                        g = re.search(r"<m(\d+)::F", self.source(items, True).splitlines()[n - 1])
                        if g:
                            v.append({"set": k, "declaration": items[int(g.group(1))], "message": "cannot be used: %s" % m})
                if ok:
                    exe = os.path.join(self.c.WORK, "target", "pbt", "ok")
                    out = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
                    got = {}
                    for l in out.stdout.decode().splitlines():
                        w = l.split()
                        if w[:1] == ["DECL"]:
                            got[int(w[1])] = w[2:]
                    for i, it in enumerate(items):
                        m = it["modulus"]
                        want = [str(x) for x in (m, m - 1, m - 1, 1, 0)] + [str(is_prime(m)).lower() if "Prime" in it["derives"] else "-"]
                        if got.get(i) != want:
                            v.append({"set": k, "declaration": it, "message": "modulus, max, -1, 1, 0, prime are %s instead of %s" % (got.get(i), want)})
                            if i not in got:
                                break
            else:
                for i, it in enumerate(items):
                    if i + 2 not in lines:
                        v.append({"set": k, "declaration": it, "message": "accepted although %s" % it["why"]})
        return v, sum(map(len, sets.values())), [k + ": " + x[j]["text"] for k, x in sets.items() for j in range(min(2, len(x)))]

    def programs(self, seed):
        """stage 2: the sources of the two generated harness programs, and their types"""
        r = random.Random("types/%s" % seed)
        types = []
        for t, w in WORDS.items():
            for j in range(2):
                types.append(("plain", t, prime(r, w - 2)))
            for j in range(3):
                types.append(("ntt", t, ntt_prime(r, w - 2)))
            for j in range(2):
                types.append(("any", t, modulus(r, w - 2)))
        decl, names = "", {"plain": [], "ntt": [], "any": []}
        for i, (k, t, m) in enumerate(types):
            n = "R%d" % i
            names[k].append(n)
            decl += "harness::%s!(%s, %s, %d);\n" % ("ntt" if k == "ntt" else "plain", n, t, m)

        def text(f):
            s = open(os.path.join(self.c.HARNESS, "src", "bin", f)).read()
            s = re.sub(r"(?m)^//!.*\n", "", s)
            return "#![allow(unused)]\n" + s[:s.index("fn main() {")]

        def use(sub, fn, ts, q, th, rule):
            return '    each!(subs, "%s", %s, [%s], %d, %d, "%s");\n' % (sub, fn, ", ".join(ts), q, th, rule)
        P, N, A = names["plain"], names["ntt"], names["any"]
        # each! of fields.rs multiplies the quick number by 10
        fields = text("fields.rs") + decl + """
fn ring_ops<F: Fx>(g: &mut G) -> R {
    let p = F::P;
    let (a, b) = (g.edge(0, p - 1), g.edge(0, p - 1));
    g.note(|| format!("modulus {p}: {a}, {b}"));
    g.hit_if(a > 1 && b > 1);
    let (x, y) = (F::mk(a), F::mk(b));
    same!((x + y).u(), addm(a, b, p), "{a}+{b} mod {p}");
    same!((x - y).u(), subm(a, b, p), "{a}-{b} mod {p}");
    same!((x * y).u(), mulm(a, b, p), "{a}*{b} mod {p}");
    same!((-x).u(), negm(a, p), "-{a} mod {p}");
    let e = g.edge(0, F::word_max());
    same!(x.powx(e).u(), powm(a, e as u128, p), "{a}^{e} mod {p}");
    match if b == 0 { None } else { invm(b, p) } {
        Some(i) => same!((x / y).u(), mulm(a, i, p), "{a}/{b} mod {p}"),
        None if g.one_in(8) => ensure!(no_panic(|| x / y).is_none(), "{a}/{b} mod {p} was accepted"),
        None => {}
    }
    Ok(())
}
fn main() {
    let mut subs = vec![];
""" + use("ops", "ops", P + N, 1500, 200_000, "edge-biased operands, every operator form; non-trivial: both > 1") \
            + use("fused", "fused", P + N + A, 1500, 200_000, "fused and lazy forms; non-trivial: both factors > 1") \
            + use("words", "words", P + N + A, 500, 60_000, "construction, constants, text, serialisation; non-trivial: word >= modulus") \
            + use("ring", "ring_ops", A, 1500, 200_000, "any modulus; units are inverted, others refused; non-trivial: both > 1") \
            + use("element", "decompose_field", P + N + A, 1000, 100_000, "every basis width; non-trivial: more than one non-zero digit") \
            + use("polynomial", "decompose_poly", N, 300, 30_000, "every basis width, lengths 0..128; non-trivial: more than one digit") \
            + use("from-usize", "from_usize", N, 500, 60_000, "any usize and root multiplication; non-trivial: value >= p") \
            + use("pointwise", "pointwise", N, 200, 20_000, "pointwise operations; non-trivial: a product of entries > 1") \
            + use("linear", "linear_coeff", N, 200, 20_000, "linear operations; non-trivial: both have an entry > 1") \
            + use("products", "ring", N, 60, 6_000, "schoolbook products; non-trivial: both have a non-constant term") + """
    harness::engine::main(vec![Prop { id: "C28", subs, assumptions: &[] }])
}
"""
        ntt = text("ntt.rs") + decl + "view!(%s);" % ", ".join(N) + """
fn main() {
    let mut subs = vec![];
""" + use("transform", "transform", N, 1500, 40_000, "forward and back, lazy ranges; non-trivial: at least two non-zero coefficients") \
            + use("inverse", "inverse", N, 1500, 40_000, "any vector below 2p; non-trivial: at least two non-zero entries") \
            + use("negacyclic", "products", N, 500, 15_000, "products against schoolbook; non-trivial: both have a non-constant term") \
            + use("monomial", "monomial", N, 1500, 40_000, "any degree and coefficient; non-trivial: not zero") \
            + use("roots", "roots", N, 300, 4_000, "degrees up to the largest the type holds; non-trivial: such roots exist") \
            + use("tables", "tables", N, 100, 1_000, "log n = 1..70; non-trivial: the table exists") + """
    harness::engine::main(vec![Prop { id: "C28", subs, assumptions: &[] }])
}
"""
        return {"gen_fields": fields, "gen_ntt": ntt}, types

    def behaviour(self, seed, tier, replay=None):
        """stage 2; returns (violations, rows, evaluations, nontrivial, samples)"""
        sources, types = self.programs(seed)
        d = self.crate("run", 'harness = { path = "../../../harness" }' if os.path.dirname(self.c.WORK) == self.c.VERIF else 'harness = { path = "%s" }' % self.c.HARNESS, sources)
        v, rows, ev, nt, samples = [], [], 0, 0, []
        for b in sources:
            if replay and replay["program"] != b:
                continue
            ok, lines, rest, err = self.compile(d, b)
            if not ok:
                # stage 1 accepted every kind of declaration
                decls = {}
                for n, l in enumerate(sources[b].splitlines(), 1):
                    g = re.match(r"harness::\w+!\((R\d+), (\w+), (\d+)\);", l)
                    if g and n in lines:
                        decls[g.group(0)] = lines[n]
                if decls:
                    return [{"set": "types", "declaration": k, "message": "cannot be used: %s" % m} for k, m in decls.items()], rows, ev, nt, samples
                print("error: the generated programs did not build:", rest[:3], list(lines.items())[:3], err)
                sys.exit(3)
            home = os.path.join(self.root, "out-" + b)
            e = self.c.env()
            e.update(VERIF_SEED=str(seed_number(seed)), VERIF_TIER=tier, VERIF_DIR=home, VERIF_WORK=self.c.WORK)
            e.pop("VERIF_PLAIN", None)
            e.pop("VERIF_SCALE", None)
            exe = os.path.join(self.c.WORK, "target", "pbt", b)
            cmd = [exe, "C28"]
            if replay:
                f = os.path.join(self.root, "replay.json")
                with open(f, "w") as h:
                    json.dump(replay["case"], h)
                cmd += ["--replay", f]
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode("utf-8", "replace")
            for l in out.splitlines():
                if l.startswith("VIOLATION "):
                    path = l.split("replay=", 1)[1]
                    try:
                        case = json.load(open(path))
                    except (OSError, ValueError):
                        case = {}
                    sub = case.get("sub", "")
                    g = re.search(r"-R(\d+)$", sub)
                    v.append({"set": "behaviour", "program": b, "case": case, "declaration": list(types[int(g.group(1))]) if g else None,
                              "message": case.get("message", "")})
                elif replay or l.lstrip().startswith(("failing", "shrunk", "input", "process", "a case")):
                    print(l[:700])
            if p.returncode not in (0, 1):
                if -p.returncode in (4, 6, 7, 8, 11):
                    v.append({"set": "behaviour", "program": b, "case": {"case": "all"}, "message": "the process was killed by signal %d" % -p.returncode})
                else:
                    print(out[-1500:])
                    print("error: a generated program ended with status", p.returncode)
                    sys.exit(3)
            if not replay and p.returncode in (0, 1):
                c = json.load(open(os.path.join(home, "evidence", "C28.json")))["coverage"]
                rows += c["subchecks"]
                ev += c["evaluations"]
                nt += c["distinct_nontrivial"]
                samples += c["samples"]
        return v, rows, ev, nt, samples


def seed_number(seed):
    return random.Random("number/%s" % seed).getrandbits(60)


def run(check, a):
    t0 = time.time()
    D = Decl(check)
    rdir = os.path.join(check.VERIF, "replays")
    if a.replay:
        rep = json.load(open(a.replay))
        if rep["set"] == "behaviour":
            v = D.behaviour(rep["seed"], rep["tier"], rep)[0]
        elif rep["set"] == "types":
            v = D.behaviour(rep["seed"], rep["tier"])[0]
        else:
            v = D.shapes(rep["seed"], 0, 0, rep)[0]
        for x in v[:3]:
            print(x["message"])
        if v:
            print("VIOLATION property=C28 replay=" + a.replay)
        return 1 if v else 0
    rounds = 1 if a.tier == "quick" else 8
    bad_, rows, ev, nt, samples, shapes = [], [], 0, 0, [], 0
    for k in range(rounds):
        seed = "%s.%d" % (a.seed, k)
        v, n, s = D.shapes(seed, 70, 110) if a.tier == "quick" else D.shapes(seed, 200, 400)
        shapes += n
        samples += s
        if not v:
            v, r, e, t, s = D.behaviour(seed, a.tier)
            rows += r
            ev += e
            nt += t
            samples += s
        for x in v:
            bad_.append(dict(x, property="C28", seed=seed, tier=a.tier))
        if v:
            break
    rows.insert(0, {"sub": "declarations", "rule": "declarations the macros must accept or refuse, judged by the compiler's verdict and, when accepted, by their constants; all non-trivial", "evaluations": shapes, "distinct_nontrivial": shapes, "classes": {}})
    wall = round(time.time() - t0, 2)
    evidence = {"property": "C28", "tier": a.tier, "seed": int(a.seed), "level": "exploration",
                "coverage": {"evaluations": ev + shapes, "distinct_nontrivial": nt + shapes,
                             "rule": "Every declaration is generated from the seed; per sub-check, a case counts as non-trivial by the rule stated below.",
                             "samples": samples[:60], "subchecks": rows},
                "assumptions": ["the installed rustc", "moduli of two or more with two spare bits in u8, u16, u32, u64"],
                "wall_s": wall, "violations": len(bad_)}
    os.makedirs(os.path.join(check.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(check.VERIF, "evidence", "C28.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("C28: %d declarations, %d cases on generated types, %.1fs, %d violation(s)" % (shapes, ev, wall, len(bad_)))
    os.makedirs(rdir, exist_ok=True)
    # the shortest declaration first
    bad_.sort(key=lambda x: len(json.dumps(x.get("declaration", ""))))
    for i, x in enumerate(bad_[:3]):
        path = os.path.join(rdir, "C28-%s-%d.json" % (x["set"], i))
        x["how"] = "bin/check C28 --replay " + path
        with open(path, "w") as f:
            json.dump(x, f, indent=1)
        d = x.get("declaration")
        print("  %s: %s" % (d["text"] if isinstance(d, dict) else d, x["message"][:400]))
        print("VIOLATION property=C28 replay=" + path)
    return 1 if bad_ else 0
