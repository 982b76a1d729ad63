#!/usr/bin/env python3
"""tools/mutate.py [-j N] [-c Cxx] ID|PREFIX...: run checks on patched scratch copies."""
import sys, os, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def make(id, dst):
    prop, f, subs = M[id]
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=False)
    os.makedirs(dst)
    p = subprocess.run("git -C /repo archive HEAD | tar x -C %s" % dst, shell=True, check=True)
    path = os.path.join(dst, f)
    s = open(path).read()
    for old, new in subs:
        if s.count(old) < 1:
            raise SystemExit("%s: text not found: %r" % (id, old))
        s = s.replace(old, new) if False else s.replace(old, new, 1)
    open(path, "w").write(s)
    return prop

def run(id, props=None):
    base = "/dev/shm/mut-%s" % id
    dst = base + "/repo"
    t = time.time()
    try:
        prop = make(id, dst)
    except SystemExit as e:
        return "%-22s BAD %s" % (id, e)
    out = []
    for p in (props or [prop]):
        env = dict(os.environ, VERIF_REPO=dst, VERIF_BUILD=base + "/build", VERIF_OUT=base + "/out", VERIF_SEED="1", VERIF_TIER="quick")
        try:
            r = subprocess.run([sys.executable, V + "/check.py", p], env=env, capture_output=True, text=True, timeout=900, cwd=V)
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            st = "caught" if r.returncode == 1 and viol else ("MISSED" if r.returncode == 0 else "rc=%d %s" % (r.returncode, (r.stderr or r.stdout)[-600:]))
            extra = ""
            if viol:
                i = r.stdout.splitlines().index(viol[0])
                extra = " | ".join(x[:160] for x in r.stdout.splitlines()[max(0, i - 2):i + 2])
        except subprocess.TimeoutExpired:
            st, extra = "TIMEOUT", ""
        out.append("%-22s %s %-7s %4.0fs %s" % (id, p, st, time.time() - t, extra[:400]))
    if not os.environ.get("KEEP"): shutil.rmtree(base, ignore_errors=True)
    return "\n".join(out)

if __name__ == "__main__":
    a = sys.argv[1:]; j = 3; props = None
    while a and a[0].startswith("-"):
        if a[0] == "-j": j = int(a[1])
        if a[0] == "-c": props = a[1].split(",")
        a = a[2:]
    ids = [i for i in M if not a or any(i == x or (x.endswith("*") and i.startswith(x[:-1])) for x in a)]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i: run(i, props), ids):
            print(r, flush=True)
