"""C31: memory and thread safety.

harness/src/bin/safe.rs calls the public API with generated arguments that need not fit
together.  It is built with the address, memory and thread sanitizers (and the standard
library's checks of unsafe preconditions) and interpreted by Miri.  This driver runs many
processes of each, decides from what ended a process whether it was undefined behaviour,
finds the case it was, and shrinks it.

Panics, refusals, exhausted memory and stack overflow (which Rust turns into an abort) are
no undefined behaviour; a process that ends in such a way has run fewer cases, no more.
"""
import concurrent.futures, json, os, re, subprocess, sys, tempfile, time

TRIPLE = "x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
FLAGS = {
    "address": "-Zsanitizer=address",
    "memory": "-Zsanitizer=memory -Zsanitizer-memory-track-origins",
    "thread": "-Zsanitizer=thread",
}
OPTIONS = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:abort_on_error=0:exitcode=77:symbolize=0",
    "MSAN_OPTIONS": "allocator_may_return_null=1:hard_rss_limit_mb=3000:exitcode=77:symbolize=0",
    "TSAN_OPTIONS": "allocator_may_return_null=1:hard_rss_limit_mb=3000:exitcode=77:halt_on_error=1:detect_deadlocks=0:report_thread_leaks=0:report_signal_unsafe=0:symbolize=0",
}
# what runs: kind -> (processes, scale, seconds in which a process starts cases) per tier;
# a process is given as long again, and a minute, to end
PLAN = {
    "quick": {"address": (16, 2.0, 60), "memory": (16, 3.0, 60), "thread": (24, 0.8, 40), "miri": (8, 0.005, 100)},
    "thorough": {"address": (64, 10.0, 700), "memory": (64, 8.0, 700), "thread": (160, 2.0, 600), "miri": (40, 0.03, 800)},
}
# the ordinary checks, a few of whose cases the thorough tier runs under the sanitizers too
OTHERS = {"ntt": ["C10", "C11", "C12"], "rnd": ["C14", "C15"], "lat": ["C16", "C17", "C18"],
          "core": ["C19", "C20", "C21", "C23", "C24"], "gates": ["C25", "C26", "C27"], "whole": ["C29"]}

HARMLESS = re.compile(r"stack-overflow|requested allocation size|out-of-memory|allocation-size-too-big|rss limit|failed to allocate|"
                      r"memory allocation of|unsupported operation|resource exhaustion|unexpected memory mapping|memory leaked|deadlock")
REPORT = re.compile(r"(ERROR: AddressSanitizer: .*|WARNING: MemorySanitizer: .*|WARNING: ThreadSanitizer: .*|"
                    r"unsafe precondition\(s\) violated.*|misaligned pointer dereference.*|null pointer dereference occurred.*|"
                    r"trying to construct an enum from an invalid value.*|error: Undefined Behavior: .*)")


def environment(check, kind):
    e = check.env()
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_TARGET_DIR"] = os.path.join(check.WORK, "target-" + kind)
    e.update(OPTIONS)
    if kind == "miri":
        # the interpreter shows what the debug assertions would hide
        e["RUSTFLAGS"] = "-Awarnings -Ctarget-feature=+aes,+ssse3,+sse4.1 -Cdebug-assertions=off -Coverflow-checks=off"
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    else:
        e["RUSTFLAGS"] = FLAGS[kind] + " -Zub-checks=yes --cfg sanitized -Awarnings"
    return e


def build(check, kind, bins=("safe",)):
    e = environment(check, kind)
    manifest = ["--offline", "--locked", "--quiet", "--manifest-path", os.path.join(check.HARNESS, "Cargo.toml")]
    if kind == "miri":
        cmd = ["cargo", "miri", "run"] + manifest + ["--bin", "safe", "--", "--usage"]
    else:
        cmd = ["cargo", "build"] + manifest + ["--profile", "plain", "-Zbuild-std", "--target", TRIPLE]
        for b in bins:
            cmd += ["--bin", b]
    r = subprocess.run(cmd, cwd=check.HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode("utf-8", "replace")
    if r.returncode != 0 and not (kind == "miri" and "usage: " in out):
        sys.stdout.write(out[-5000:])
        print("error: the harness did not build against /repo's working tree (%s)" % kind)
        sys.exit(3)


def build_all(check):
    for kind in list(FLAGS) + ["miri"]:
        build(check, kind)


def command(check, kind, args, binary="safe"):
    if kind == "miri":
        return ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(check.HARNESS, "Cargo.toml"), "--bin", "safe", "--"] + args
    return [os.path.join(check.WORK, "target-" + kind, TRIPLE, "plain", binary)] + args


def go(check, kind, args, seconds, seed, binary="safe", more=None):
    """(verdict, message, output); verdict: 'held', 'broken', or 'undecided'"""
    e = environment(check, kind)
    e["VERIF_SEED"] = str(seed)
    e.update(more or {})
    if kind == "miri":
        e["MIRIFLAGS"] += " -Zmiri-seed=%d" % (int(re.sub(r"\D", "", "".join(args[1:2])) or 0) % 10007)
    p = subprocess.Popen(command(check, kind, args, binary), cwd=check.HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, late = p.communicate(timeout=seconds)[0], False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, late = p.communicate()[0], True
    out = out.decode("utf-8", "replace")
    for m in REPORT.finditer(out):
        if not HARMLESS.search(m.group(1)):
            return "broken", m.group(1)[:300], out
    if not late and -p.returncode in (4, 7, 8, 11) and not HARMLESS.search(out):
        return "broken", "killed by signal %d" % -p.returncode, out
    if late:
        return "undecided", "not finished after %d s" % seconds, out
    if p.returncode == 0 or (binary != "safe" and p.returncode == 1):
        return "held", "", out
    return "undecided", "status %d: %s" % (p.returncode, out[-200:]), out


def rows_of(out):
    r = []
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                r.append(json.loads(l))
            except ValueError:
                pass
    return r


def shrink(check, kind, sub, choices, seed, budget):
    """fewer and smaller choices that end the process in the same way"""
    end = time.time() + budget
    f = os.path.join(check.WORK, "shrink-%d" % os.getpid())

    def fails(c):
        with open(f, "w") as h:
            h.write("\n".join(map(str, c)))
        return go(check, kind, ["--choices", str(sub), f], 60, seed)[0] == "broken"

    if not fails(choices):
        return None
    size = max(1, len(choices) // 2)
    while time.time() < end:
        i, changed = len(choices) - size, False
        while i >= 0 and time.time() < end:
            c = choices[:i] + choices[i + size:]
            if fails(c):
                choices, changed = c, True
            i -= size
        if size == 1 and not changed:
            break
        size = max(1, size // 2) if not changed or size > 1 else 1
    for i in range(len(choices)):
        for v in (0, 1, choices[i] // 2):
            if time.time() < end and v < choices[i]:
                c = choices[:i] + [v] + choices[i + 1:]
                if fails(c):
                    choices = c
                    break
    try:
        os.remove(f)
    except OSError:
        pass
    return choices


def reproduce(check, kind, k, scale, seed, message, out):
    """what the replay file says of a process that ended with a report"""
    rep = {"property": "C31", "kind": kind, "seed": seed, "message": message, "worker": k, "scale": scale,
           "report": "\n".join(l for l in out.splitlines() if not l.startswith(("{", "AT ")))[:3000]}
    at = re.findall(r"^(?:DEATH|AT) (\d+) (\d+) (\d+)", out, re.M)
    if not at:
        return rep
    sub, cs, n = map(int, at[-1])
    rep.update(sub=sub, case_seed=cs, case=n)
    if kind == "miri":
        return rep
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "trace")
        for _ in range(1 if kind != "thread" else 10):
            v, m, o = go(check, kind, ["--case", str(sub), str(cs), str(n), f], 120, seed)
            if v == "broken":
                with open(f) as h:
                    choices = [int(x) for x in h.read().split()]
                small = shrink(check, kind, sub, choices, seed, 40)
                rep["alone"] = True
                if small is not None:
                    rep["choices"] = small
                return rep
    # it takes what ran before it
    return rep


def replay(check, rep):
    kind = rep["kind"]
    build(check, kind, ("safe",) if "binary" not in rep else (rep["binary"],))
    seed = rep["seed"]
    if "binary" in rep:
        return other(check, kind, rep["binary"], rep["id"], rep["k"], seed)[:2]
    for _ in range(10 if kind == "thread" else 1):
        if "choices" in rep:
            f = os.path.join(check.WORK, "choices-%d" % os.getpid())
            with open(f, "w") as h:
                h.write("\n".join(map(str, rep["choices"])))
            r = go(check, kind, ["--choices", str(rep["sub"]), f], 600, seed)
            os.remove(f)
        elif rep.get("alone") or kind == "miri" and "sub" in rep:
            r = go(check, kind, ["--case", str(rep["sub"]), str(rep["case_seed"]), str(rep["case"])], 600, seed)
        else:
            r = go(check, kind, ["--worker", str(rep["worker"]), str(rep["scale"])], 1200, seed)
        if r[0] == "broken":
            break
    if r[0] != "broken" and "worker" in rep and (rep.get("alone") or kind == "miri"):
        r = go(check, kind, ["--worker", str(rep["worker"]), str(rep["scale"])], 1200, seed)
    return r[0], r[1]


def other(check, kind, binary, pid, k, seed):
    home = os.path.join(check.WORK, "safe-home")
    os.makedirs(home, exist_ok=True)
    more = {"VERIF_DIR": home, "VERIF_WORK": home, "VERIF_THREADS": "2"}
    return go(check, kind, [pid, "--process", str(k)], 400, seed, binary, more)


def run(check, a):
    t0 = time.time()
    rdir = os.path.join(check.VERIF, "replays")
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        v, m = replay(check, rep)
        print(v, m)
        if v == "broken":
            print("VIOLATION property=C31 replay=" + a.replay)
            return 1
        return 0
    seed = int(a.seed)
    plan = PLAN["thorough" if a.tier == "thorough" else "quick"]
    table, samples, broken, notes = {}, [], [], []
    ran = 0
    for kind, (n, scale, seconds) in plan.items():
        if a.sub and a.sub != kind:
            continue
        build(check, kind)
        base = list(plan).index(kind) * 1000
        t = time.time()
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            jobs = {pool.submit(go, check, kind, ["--worker", str(base + k), str(scale)], 2 * seconds + 60, seed, "safe", {"VERIF_LIMIT": str(seconds)}): base + k for k in range(n)}
            for j in concurrent.futures.as_completed(jobs):
                if j.cancelled():
                    continue
                v, m, out = j.result()
                for r in rows_of(out):
                    row = table.setdefault((kind, r["at"]), {"sub": "%s: %s" % (kind, r["sub"]), "rule": r["rule"], "evaluations": 0, "distinct_nontrivial": 0, "classes": {}})
                    row["evaluations"] += r["runs"]
                    row["distinct_nontrivial"] += r["nontrivial"]
                    for l, c in r["labels"].items():
                        row["classes"][l] = row["classes"].get(l, 0) + c
                    if len(samples) < 12 and r["samples"]:
                        samples.append("%s: %s: %s" % (kind, r["sub"], r["samples"][0][:300]))
                ran += v == "held"
                if v == "undecided":
                    notes.append("%s process %d: %s" % (kind, jobs[j], m))
                    print("  note:", notes[-1][:200])
                if v == "broken":
                    broken.append((kind, jobs[j], scale, m, out))
                    for x in jobs:
                        x.cancel()
        print("%-8s %3d processes, %.1f s" % (kind, n, time.time() - t))
        if broken:
            break
    extra = 0
    if a.tier == "thorough" and not a.sub and not broken:
        for kind in FLAGS:
            build(check, kind, tuple(OTHERS))
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                jobs = {pool.submit(other, check, kind, b, p, k, seed): (b, p, k) for b, ps in OTHERS.items() for p in ps for k in (0, 2)}
                for j in concurrent.futures.as_completed(jobs):
                    v, m, out = j.result()
                    extra += v == "held"
                    if v == "undecided":
                        notes.append("%s %s: %s" % (kind, jobs[j], m))
                    if v == "broken":
                        broken.append((kind, jobs[j], 0, m, out))
    replays = []
    os.makedirs(rdir, exist_ok=True)
    for kind, k, scale, m, out in broken[:2]:
        print("  %s, process %s: %s" % (kind, k, m))
        if isinstance(k, tuple):
            rep = {"property": "C31", "kind": kind, "binary": k[0], "id": k[1], "k": k[2], "seed": seed, "message": m, "report": out[-3000:]}
        else:
            rep = reproduce(check, kind, k, scale, seed, m, out)
        path = os.path.join(rdir, "C31-%s-%d.json" % (kind, len(replays)))
        rep["how"] = "bin/check C31 --replay " + path
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        replays.append(path)
    rows = [table[k] for k in sorted(table)]
    ev, nt = sum(r["evaluations"] for r in rows), sum(r["distinct_nontrivial"] for r in rows)
    if not a.sub:
        evidence = {
            "property": "C31", "tier": "thorough" if a.tier == "thorough" else "quick", "seed": seed, "level": "exploration",
            "coverage": {"evaluations": ev, "distinct_nontrivial": nt,
                         "rule": "Cases are drawn from a seeded choice sequence (another one per process) and call the public API with arguments that need not fit; non-trivial by each row's rule. Oracle: no report of the sanitizer, of the checks of unsafe preconditions, or of Miri.",
                         "samples": samples, "subchecks": rows, "processes_finished": ran, "processes_of_other_checks_finished": extra, "notes": notes[:20]},
            "assumptions": ["the sanitizers and Miri report every access they are documented to report", "the processor has the AES instructions that the generator uses without asking",
                            "Miri does not run the inline assembly of the Goldilocks product"],
            "wall_s": round(time.time() - t0, 2), "violations": len(replays),
        }
        os.makedirs(os.path.join(check.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(check.VERIF, "evidence", "C31.json"), "w") as f:
            json.dump(evidence, f, indent=2)
            f.write("\n")
    print("C31: %d cases, %d non-trivial, %d processes finished, %.1fs, %d violation(s)" % (ev, nt, ran, time.time() - t0, len(replays)))
    for p in replays:
        print("VIOLATION property=C31 replay=" + p)
    if replays:
        return 1
    if ran == 0:
        print("error: no process of the check finished:", notes[:3])
        return 3
    return 0
