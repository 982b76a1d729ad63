#!/usr/bin/env python3
"""tools/mkseed.py [ID...]: writes seeded/ID from tools/mutants.py and tools/seeds/ID.cpp"""
import os, shutil, subprocess, sys, json
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M
from mutate import make
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/tools/seeds"
META = json.load(open(S + "/meta.json"))
for id in sys.argv[1:] or META:
    d = V + "/seeded/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = "/dev/shm/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    prop = make(id, w)
    f = M[id][1]
    old = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, check=True).stdout
    os.makedirs(w + "-a/" + os.path.dirname(f), exist_ok=True)
    open(w + "-a/" + f, "wb").write(old)
    r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, w + "-a/" + f, w + "/" + f], capture_output=True)
    open(d + "/patch.diff", "wb").write(r.stdout)
    shutil.rmtree(w); shutil.rmtree(w + "-a")
    kind, needs, breaks = META[id]
    open(d + "/demo.sh", "w").write(open(S + "/lib.sh").read() + open(S + "/" + kind + ".sh").read())
    shutil.copy(S + "/" + id + ".cpp", d + "/demo.cpp")
    if kind == "cuda":
        shutil.copy(S + "/cuda_runtime.h", d + "/cuda_runtime.h")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
