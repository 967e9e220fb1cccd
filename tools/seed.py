#!/usr/bin/env python3
"""Planted bugs: make patch.diff of one, and try its demonstration and the checks.

  seed.py make ID FILE[#nth] OLD NEW     write seeded/ID/patch.diff (text replacement; repeat triples)
  seed.py demo ID...                     demo on a clean and on a patched copy
  seed.py check ID... [-- CHECK...]      quick checks (default: its property) on a patched copy
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.run("cp -a /repo/. %s/" % d, shell=True, check=True)
    return d


def make(i, triples):
    d = copy()
    for f, old, new in triples:
        f, _, n = f.partition("#")
        s = open(os.path.join(d, f)).read()
        old, new = old.encode().decode("unicode_escape") if "\\n" in old else old, new
        parts = s.split(old)
        if n:
            k = int(n)
            if len(parts) <= k:
                sys.exit("occurs %d times" % (len(parts) - 1))
            s = old.join(parts[:k]) + new + old.join(parts[k:])
        else:
            if len(parts) != 2:
                sys.exit("occurs %d times in %s" % (len(parts) - 1, f))
            s = parts[0] + new + parts[1]
        open(os.path.join(d, f), "w").write(s)
    o = os.path.join(V, "seeded", i)
    os.makedirs(o, exist_ok=True)
    p = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(o, "patch.diff"), "w").write(p)
    print(p)
    shutil.rmtree(d)


def run_demo(i, d):
    x = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
    for f in os.listdir(os.path.join(V, "seeded", i)):
        if not f.endswith((".diff", ".json")):
            shutil.copy(os.path.join(V, "seeded", i, f), x)
    r = subprocess.run(["bash", os.path.join(x, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300)
    shutil.rmtree(x)
    return r


def patched(i):
    d = copy()
    subprocess.run(["git", "-C", d, "apply", os.path.join(V, "seeded", i, "patch.diff")], check=True)
    return d


a = sys.argv[1:]
if a[0] == "make":
    make(a[1], [a[k:k + 3] for k in range(2, len(a), 3)])
elif a[0] == "demo":
    for i in a[1:]:
        d = copy()
        r = run_demo(i, d)
        dirty = subprocess.run(["git", "-C", d, "status", "--short"], capture_output=True, text=True).stdout
        shutil.rmtree(d)
        d = patched(i)
        r2 = run_demo(i, d)
        shutil.rmtree(d)
        print(i, "clean", r.returncode, "patched", r2.returncode, "GOOD" if r.returncode == 0 and r2.returncode else "***BAD***",
              "DIRTY " + dirty if dirty else "")
        print("   ", (r2.stdout + r2.stderr).strip().splitlines()[-1:], (r.stdout + r.stderr).strip()[-300:] if r.returncode else "")
elif a[0] == "check":
    ids, checks = (a[1:a.index("--")], a[a.index("--") + 1:]) if "--" in a else (a[1:], [])
    for i in ids:
        d = patched(i)
        for c in checks or [json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]]:
            r = subprocess.run([os.path.join(V, "check"), c, "quick"], cwd=V, env=dict(os.environ, VF_REPO=d), capture_output=True, text=True)
            print(i, c, "exit", r.returncode, "CAUGHT" if r.returncode == 1 else "***missed***", (r.stdout.strip().splitlines() or [r.stderr[-300:]])[0][:220], flush=True)
        shutil.rmtree(d)
