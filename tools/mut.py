"""mut.py FILE 'old' 'new' ID... : run quick checks against a copy of /repo with one text replaced
(nth occurrence: FILE#n).  For trying out the checks; not used by them."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, old, new, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
f, _, nth = f.partition("#")
d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + d, shell=True)
    p = os.path.join(d, f)
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < 2:
        sys.exit("text not found")
    n = int(nth or 1)
    s = old.join(parts[:n]) + new + old.join(parts[n:])
    open(p, "w").write(s)
    for i in ids:
        r = subprocess.run([os.path.join(V, "check"), i, "quick"], env=dict(os.environ, VF_REPO=d), capture_output=True, text=True, cwd=V)
        lines = r.stdout.strip().splitlines()
        print(i, "rc", r.returncode, "|", (lines[0][:220] if lines else r.stderr[-300:]), "|", lines[-1][:60] if lines else "")
finally:
    shutil.rmtree(d, True)
