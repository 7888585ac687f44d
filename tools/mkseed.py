#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py...: writes seeded/<id>/ from a spec that defines
ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (main.rs text) and perhaps FEATURES of algebra."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
R = "/tmp/mut/repo"
if not os.path.isdir(R):
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    subprocess.check_call(["git", "-C", R, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "FETCH_HEAD"])
    for f, old, new in g["EDITS"]:
        p = os.path.join(R, f)
        t = open(p).read()
        assert t.count(old) == 1, (spec, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(V, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", R, "diff"], text=True))
    demo = open(V + "/tools/demo_template.sh").read()
    if g.get("FEATURES"):
        demo = demo.replace('algebra", default-features = false', 'algebra", default-features = false, features = ' + json.dumps(g["FEATURES"]))
    open(d + "/demo.sh", "w").write(demo)
    open(d + "/main.rs", "w").write(g["MAIN"].lstrip())
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    print("wrote", g["ID"])
