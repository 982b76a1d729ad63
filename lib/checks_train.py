"""Checks of training triggers (C08), persistence (C10), single model (C14), traces (C15),
independence (C20) and timing (C21)."""
import os, random
import vlib, scn, gen
from scn import Scn, final_post, g9, f32
from gen import Wide, region, conf, replay, histories, NS
from checks_core import n, T, rngs, mc, post, datasetmap_runs, asked
from checks_models import Points, ask, tree_event

LEARN = ["DecisionTree", "RandomForest", "PolicyNet"]


# ------------------------------------------------------------------ C08
def c08(chk):
    exe = vlib.build("main")
    rng = rngs("c08")
    mc(chk, [dict(setup=[region("a", 0, 2, mdl="DecisionTree"), region("b", 0, 2, mdl="PolicyNet")], cf=conf(gper=2), kinds=("sync",), nexec=3, nops=1),
             dict(setup=[region("a", 0, 2, mdl="DecisionTree", min=2)], cf=conf(rper=3), nexec=3, nops=1),
             dict(setup=[region("a", 0, 2, mdl="DecisionTree", min=2), region("b", 0, 2)], cf=conf(persist=True), kinds=("sync",), nexec=4, nops=1)]
       + ([dict(setup=[region("a", 0, 2, mdl="DecisionTree", min=2), region("b", 0, 2, mdl="DecisionTree")], cf=conf(gper=3, rper=2), kinds=("sync", "async"), nexec=4, nops=1, timeout=3000)] if T else []))
    L = []
    with vlib.Scratch("C08g") as root:
        st = [region("a", 1, 2, mdl="DecisionTree", min=3), region("b", 1, 3, mdl="PolicyNet"), region("c", 0, 2, mdl="RandomForest")]
        for j, cf in enumerate([conf(store=True), conf(gper=3, store=True), conf(rper=2, store=True), conf(gper=4, rper=3, store=True, persist=True), conf(gper=1)]):
            hs = histories(chk, root, st, cf, feats=("1", "2"), nexec=10, nops=4, simulate=n(40, 400), tag="g%d" % j)
            L += [replay(h, "h%d-%d" % (j, i), st, cf, rng, track=True, env={"APOLLO_TRACE_BEST_POLICIES": rng.choice("01")}) for i, h in enumerate(hs)]
        # small instances completely: two executions of two regions, each trigger
        st = [region("a", 0, 2, mdl="DecisionTree", min=2), region("b", 0, 1, mdl="DecisionTree")]
        for j, cf in enumerate([conf(store=True), conf(gper=2, store=True), conf(rper=2, store=True)]):
            hs = histories(chk, root, st, cf, kinds=("sync",), nexec=2, nops=1, tag="s%d" % j, cap=n(80, None))
            L += [replay(h, "s%d-%d" % (j, i), st, cf, rng, track=True) for i, h in enumerate(hs)]
    for i in range(n(60, 500)):
        L.append(Wide("w%d" % i, vlib.SEED, nreg=rng.randint(1, 4), models=LEARN + ["DecisionTree", "RoundRobin", "Static"], steps=n(110, 250),
                      gper=rng.choice([0, 0, 0, 1, 2, 5, 11]), rper=rng.choice([0, 0, 1, 2, 3, 7]), store=rng.random() < .7, mins=(0, 0, 1, 2, 3, 5, 9),
                      maxnp=4, maxnf=2, hows=("small", "int"), track=True, nvec=5).s)
    # what is still pending at shutdown, and its training
    for i in range(n(30, 300)):
        w = Wide("x%d" % i, vlib.SEED, nreg=rng.randint(1, 4), models=LEARN + ["DecisionTree", "RoundRobin"], steps=rng.choice([6, 12, 25, 60]),
                 gper=rng.choice([0, 0, 0, 4]), rper=rng.choice([0, 1, 2, 3, 5]), store=True, mins=(0, 0, 2, 3, 5), maxnp=4, maxnf=1, hows=("small",), track=True, trains=rng.random() < .3).s
        w.post = final_post(exe, models=True)
        L.append(w)
    # regions that start from a stored model: no trigger retrains them
    for i in range(n(24, 240)):
        mdl = rng.choice(["DecisionTree", "RandomForest", "PolicyNet"])
        a = Scn("la%d" % i)
        a.create("o", 1, 3, mdl)
        P = Points(rng, 6, 1, 3)
        if mdl == "PolicyNet":
            P.off, P.mul = [0], 1.0
        P.inserts(a, "o")
        a.train("o", 0)
        a.store("o", "file")
        a.exit()
        how = rng.choice(["load", "yaml", "method"])
        d = dict(r="p", nf=1, np=3, info=mdl + (",load=file" if how == "load" else ""), min=rng.choice([0, 1, 2, 4]) if mdl != "PolicyNet" else 0, vecs=[P.val(c) for c in P.coords], mdl=mdl,
                 kw=dict(yaml="file") if how == "yaml" else {}, after="file" if how == "method" else None)
        e = dict(r="q", nf=1, np=2, info="DecisionTree", min=3, vecs=[[1.0], [2.0]], mdl="DecisionTree")
        b = Wide("lb%d" % i, vlib.SEED, regions=[d, e], steps=n(70, 150), gper=rng.choice([0, 1, 3, 5]), rper=rng.choice([0, 1, 2, 3]), store=True, track=False,
                 dirname=a.dir, fresh=False, persist=False).s
        L += [a, b]
    # triggers when a region starts from a stored dataset
    for i in range(n(12, 100)):
        d = dict(r="p", nf=1, np=3, info="RoundRobin", min=0, vecs=[[float(x)] for x in range(6)], mdl="RoundRobin")
        a = Wide("pa%d" % i, vlib.SEED, regions=[d], steps=30, persist=True, asyncs=False, trains=False, queries=False).s
        a.post = final_post(exe)
        a.name = "pa%d" % i
        mdl = rng.choice(["DecisionTree", "RandomForest", "PolicyNet"])
        d2 = dict(d, info=mdl, mdl=mdl, min=0 if mdl == "PolicyNet" else rng.choice([0, 2, 4, 30]))
        b = Wide("pb%d" % i, vlib.SEED, regions=[d2], steps=50, persist=True, dirname=a.dir, fresh=False, store=True, track=False).s
        b.post = final_post(exe)
        L += [a, b]
    # the stored dataset has about as many entries as the minimum
    for i in range(n(12, 100)):
        K = rng.choice([1, 2, 3, 5])
        a = Scn("qa%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"})
        a.clock()
        a.create("p", 1, 1, "Static")
        for x in range(K):
            a.exe("p", [float(x)], metric=rng.randint(1, 200) / 512.0)
        a.exit()
        a.post = final_post(exe)
        mdl = rng.choice(["DecisionTree", "RandomForest"])
        d = dict(r="p", nf=1, np=3, info=mdl, mdl=mdl, min=max(0, K + (-1, 0, 0, 1)[i % 4]), vecs=[[float(x)] for x in range(6)])
        b = Wide("qb%d" % i, vlib.SEED, regions=[d], steps=rng.choice([4, 12, 30]), persist=True, dirname=a.dir, fresh=False, store=True, track=False,
                 gper=rng.choice([0, 0, 3]), rper=rng.choice([0, 0, 2]), trains=False).s
        b.post = final_post(exe)
        L += [a, b]
    L += lag_runs(rng, n(40, 400), exe)
    return scn.run_and_validate(chk, exe, L)


def lag_runs(rng, k, exe):
    """the device lags behind by many executions, then catches up in any order"""
    L = []
    for i in range(k):
        store, gper, rper = rng.random() < .7, rng.choice([0, 0, 0, 3, 7]), rng.choice([0, 2, 3, 4, 5, 9])
        s = Scn("lag%d" % i, env=gen.env_of(gen.conf(rng.random() < .5, gper, rper, store, False)), track=True)
        s.clock()
        R = []
        for r in ("a", "b")[:rng.choice([1, 1, 2])]:
            mdl = rng.choice(["DecisionTree", "DecisionTree", "PolicyNet", "RandomForest", "RoundRobin"])
            s.create(r, 1, 3, mdl, min=rng.choice([0, 0, 2, 4, 9]) if mdl in ("DecisionTree", "RandomForest") else 0)
            R.append(r)
        opened, pend = [], []
        for _ in range(rng.choice([1, 2, 3])):
            for _ in range(rng.randint(4, 16)):
                c = s.begin(rng.choice(R), style=rng.choice(["cuda", "hip"]), ms=rng.randint(1, 900) / 1.024)
                s.feat(c, float(rng.randint(0, 5)))
                s.pol(c)
                opened.append(c)
                while opened and rng.random() < .5:
                    pend.append(opened.pop(rng.randrange(len(opened))))
                    s.end(pend[-1])
            while opened:
                pend.append(opened.pop(rng.randrange(len(opened))))
                s.end(pend[-1])
            rng.shuffle(pend)
            for _ in range(rng.choice([len(pend), len(pend), len(pend) // 2])):
                s.done(pend.pop())
                x = rng.random()
                if x < .4:
                    s.collect(rng.choice(R))
                elif x < .6:
                    s.exe(rng.choice(R), [float(rng.randint(0, 5))], metric=rng.randint(1, 400) / 512.0)
                elif x < .65:
                    s.train(rng.choice(R), 7)
        s.exit()
        s.post = final_post(exe, models=store)
        L.append(s)
    return L


# ------------------------------------------------------------------ C10
def c10(chk):
    exe = vlib.build("main")
    rng = rngs("c10")
    mc(chk, [dict(setup=[region("a", 1, 2, mdl="DecisionTree", min=2)], cf=conf(persist=True), feats=("1",), metrics=(64, 1024), nexec=3, nops=0)])
    L = []
    for i in range(n(40, 400)):
        runs = rng.choice([2, 2, 3])
        nreg = rng.randint(1, 3)
        regs = []
        for j in range(nreg):
            nf = rng.randint(0, 5)
            how = rng.choice(["small", "int", "frac", "ext"])
            regs.append(dict(r=rng.choice(["r%d" % j, "region %d" % j, "A.b-c_%d" % j, ("N%d" % j) + "n" * 61]), nf=nf, np=rng.choice([1, 2, 3, 4, 5, 40, 150]),
                             vecs=[[gen.rnd_float(rng, how) for _ in range(nf)] for _ in range(4)]))
        od = rng.choice([None, None, "out", "o.d"])
        for t in range(runs):
            off = rng.random() < .12
            rs = []
            for d in regs:
                if rng.random() < .1 and len(regs) > 1:
                    continue
                mdl = rng.choice(["RoundRobin", "Random", "Static", "DecisionTree", "RandomForest"])
                rs.append(dict(d, info=mdl, mdl=mdl, min=rng.choice([0, 0, 3]) if mdl in LEARN else 0))
            if not rs:
                rs = [dict(regs[0], info="Static", mdl="Static", min=0)]
            w = Wide("m%d-%d" % (i, t), vlib.SEED, regions=rs, steps=n(50, 120), persist=not off, dirname="m%d" % i, fresh=t == 0, outdir=od,
                     scale=rng.choice([20]), trains=rng.random() < .5)
            L.append(w.s)
    # values that need every digit: measurements taken from a real clock, tiny and huge features
    for i in range(n(12, 120)):
        a = Scn("v%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"}, scale=10)
        nf = rng.randint(0, 9)
        np = rng.choice([1, 4, 4, 60, 1000])
        a.create("x y", nf, np, rng.choice(["RoundRobin", "Random"]))
        vs = [[gen.rnd_float(rng, rng.choice(["frac", "ext"])) for _ in range(nf)] for _ in range(rng.choice([1, 5, 40]))]
        for _ in range(n(40, 150)):
            a.exe("x y", rng.choice(vs), metric=rng.choice([rng.uniform(0, 1) * 10.0 ** rng.randint(-9, 5), rng.choice([5e-324, 1e-310, 2.2250738585072014e-308, -1e-320])]) if rng.random() < .15 else rng.uniform(0, 1) * 10.0 ** rng.randint(-9, 5), style=rng.choice(["ctx", "vec"]))
        a.exit()
        b = Scn("v%db" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"}, dir=a.dir, fresh=False, scale=10)
        b.create("x y", nf, np, rng.choice(["Random", "PolicyNet" if nf and np < 5 else "Static", "DecisionTree"]))
        for _ in range(10):
            b.exe("x y", rng.choice(vs), metric=rng.uniform(0, 1))
        b.exit()
        L += [a, b]
    # a region that starts from a stored model starts with its stored dataset as well
    for i in range(n(12, 100)):
        nf, np = rng.choice([1, 2, 4]), rng.choice([2, 3, 5])
        mdl = rng.choice(["DecisionTree", "RandomForest", "PolicyNet"])
        vs = [[float(rng.randint(0, 60)) for _ in range(nf)] for _ in range(6)]
        how = rng.choice(["latest", "file", "yaml"])
        def ex(s, k):
            for _ in range(k):
                s.exe("a", rng.choice(vs), metric=rng.randint(1, 800) / 512.0, style=rng.choice(["ctx", "vec"]))
        a = Scn("lm%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1", "APOLLO_STORE_MODELS": "1"}, track=True)
        a.create("a", nf, np, mdl)
        ex(a, rng.choice([3, 12]))
        a.train("a", 1)
        a.store("a", "file")
        ex(a, rng.choice([0, 5]))
        a.exit()
        L.append(a)
        for t in range(rng.choice([1, 2])):
            b = Scn("lm%d-%d" % (i, t), env={"APOLLO_PERSISTENT_DATASETS": "1"}, dir=a.dir, fresh=False)
            b.create("a", nf, np, mdl + {"latest": ",load", "file": ",load=file", "yaml": ""}[how], yaml="file" if how == "yaml" else "")
            b.best("a")
            ex(b, rng.choice([0, 2, 9]))
            b.exit()
            L.append(b)
    post(exe, L)
    # load-dataset and DatasetMap
    for i in range(n(14, 120)):
        nf, np = rng.choice([1, 2, 3]), rng.choice([2, 3, 5])
        P = Points(rng, rng.randint(1, 10), nf, np, shape=rng.choice(["rand", "axis"]))
        depth = rng.choice([1, 2, 3, 20])
        a = Scn("ld%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"})
        a.post = final_post(exe)
        a.create("a", nf, np, "RoundRobin")
        P.inserts(a, "a")
        a.exit()
        per = rng.choice("01")
        b = Scn("ld%db" % i, env={"APOLLO_PERSISTENT_DATASETS": per}, dir=a.dir, fresh=False)
        mdl = rng.choice(["DecisionTree", "DecisionTree", "RandomForest", "PolicyNet"])
        b.create("a", nf, np, mdl + ",load-dataset" + (",max_depth=%d" % depth if mdl != "PolicyNet" else ""), min=rng.choice([0, 0, 1000]) if mdl != "PolicyNet" else 0)
        b.best("a")
        if mdl != "PolicyNet":
            qs = P.queries(6)
            ask(b, "a", P, qs, 0)
            if mdl == "DecisionTree":
                b.mark(tree_event("a", P, qs, 0, depth))
        b.exit()
        L += [a, b]
    L += datasetmap_runs(rng, n(8, 60))
    return scn.run_and_validate(chk, exe, L)


# ------------------------------------------------------------------ C14
def c14(chk):
    exe = vlib.build("main")
    rng = rngs("c14")
    mc(chk, [dict(setup=[region("a", 0, 2, mdl="DecisionTree"), region("b", 0, 2, mdl="DecisionTree")], cf=conf(single=True, gper=2), kinds=("sync",), nexec=3, nops=1),
             dict(setup=[region("a", 0, 2, mdl="DecisionTree"), region("b", 0, 2, mdl="DecisionTree"), region("c", 0, 2, mdl="DecisionTree")], cf=conf(single=True), kinds=("sync",), nexec=3, nops=1)])
    L = []
    for i in range(n(60, 500)):
        nf, np = rng.choice([1, 1, 2, 3]), rng.choice([2, 3, 5])
        k = rng.randint(1, 5)
        depth = rng.choice([1, 2, 3, 20])
        mdl = rng.choice(["DecisionTree", "DecisionTree", "DecisionTree", "RandomForest", "PolicyNet"])
        env = {"APOLLO_SINGLE_MODEL": "1", "APOLLO_REGION_MODEL": "0", "APOLLO_PERSISTENT_DATASETS": rng.choice("01")}
        s = Scn("u%d" % i, env=env)
        regs = ["r%d" % j for j in rng.sample(range(10), k)]
        for r in regs:
            s.create(r, nf, np, mdl + (",max_depth=%d" % depth if mdl != "PolicyNet" else ""))
        one = rng.random() < .25
        for t in range(rng.choice([1, 1, 2, 3])):
            # union: each (point, policy) in one region or averaged over two
            P = Points(rng, rng.randint(1, 12), nf, np, shape=rng.choice(["rand", "axis", "diag"]))
            if t:
                for r in regs:
                    s.raw("clear %s" % r, dict(e="clear", r=r), True)
            elif rng.random() < .2:
                s.traina(rng.choice([0, 5]))      # no data anywhere: nothing happens
            empty = rng.sample(regs, rng.randint(0, k - 1))
            use = [r for r in regs if r not in empty]
            for c in P.coords:
                used = set()
                for p in range(np):
                    m = rng.randint(1, 240)
                    while m in used:
                        m = rng.randint(1, 240)
                    used.add(m)
                    if one and p < len(use) - 1 and c == P.coords[0]:
                        s.insert(use[p + 1], P.val(c), p, m / 256.0)      # regions with one measurement only
                    elif one:
                        s.insert(use[0], P.val(c), p, m / 256.0)
                    elif len(use) > 1 and rng.random() < .5:
                        # two regions disagree: only their average m is right
                        d = rng.randint(0, m)
                        x, y = rng.sample(use, 2)
                        s.insert(x, P.val(c), p, (m - d) / 256.0)
                        s.insert(y, P.val(c), p, (m + d) / 256.0)
                    else:
                        s.insert(rng.choice(use), P.val(c), p, m / 256.0)
            s.traina(rng.choice([0, t, rng.randint(0, 99)]))
            qs = P.queries(8)
            for r in regs:
                ask(s, r, P, qs, (t, r))
                if mdl == "DecisionTree":
                    s.mark(tree_event(r, P, qs, (t, r), depth))
        s.exit()
        L.append(s)
    # global period training in single mode, executions
    for i in range(n(25, 200)):
        np = rng.choice([2, 3])
        regs = [dict(r="r%d" % j, nf=1, np=np, info="DecisionTree,max_depth=2,explore=RoundRobin", mdl="DecisionTree", min=0, vecs=[[float(x)] for x in range(3)]) for j in range(rng.randint(1, 3))]
        L.append(Wide("w%d" % i, vlib.SEED, regions=regs, steps=n(80, 200), single=True, gper=rng.choice([0, 4, 7, 10]), asyncs=rng.random() < .5, queries=True).s)
    return scn.run_and_validate(chk, exe, L)


# ------------------------------------------------------------------ C15
def c15(chk):
    exe = vlib.build("main")
    rng = rngs("c15")
    mc(chk, [dict(setup=[region("a", 0, 2), region("b", 0, 2, mdl="DecisionTree", min=2)], cf=conf(), nexec=3, nops=1)])
    L = []
    with vlib.Scratch("C15g") as root:
        one = [region("a", 1, 2), region("b", 0, 3)]
        hs = histories(chk, root, one, conf(), nexec=7, nops=3, atomic=False, simulate=n(60, 500), tag="g")
        L += [replay(h, "h%d" % i, one, conf(), rng, env={"APOLLO_TRACE_CSV": "1", "APOLLO_STORE_EXEC_INFO": "1"}) for i, h in enumerate(hs)]
    for i in range(n(60, 500)):
        L.append(Wide("w%d" % i, vlib.SEED, nreg=rng.randint(1, 4), steps=n(90, 220), csv=True, execinfo=True, hows=("small", "int") if i % 4 else ("dec", "int"), maxnf=4,
                      gper=rng.choice([0, 0, 6]), models=["RoundRobin", "Random", "Static", "DecisionTree", "RandomForest"] + (["PolicyNet"] if i % 4 else []),
                      outdir=rng.choice([None, "odir"]), env={"APOLLO_TRACES_DIR": "tr"} if rng.random() < .3 else {}, maxopen=rng.choice([3, 12])).s)
    # a later run with the datasets of an earlier one: its counts are its own
    for i in range(n(10, 100)):
        regs = [dict(r="r%d" % j, nf=1, np=3, info=rng.choice(["RoundRobin", "Random", "Static", "DecisionTree"]), mdl="RoundRobin", min=0, vecs=[[float(x)] for x in range(6)]) for j in range(rng.randint(1, 3))]
        for d in regs:
            d["mdl"] = d["info"]
        for t in range(2):
            L.append(Wide("y%d-%d" % (i, t), vlib.SEED, regions=[dict(d) for d in regs], steps=(60, rng.choice([3, 8, 20]))[t], persist=True, csv=True, execinfo=True, dirname="y%d" % i, fresh=t == 0, trains=False).s)
    # rows of executions with other numbers of features than declared
    for i in range(n(10, 60)):
        s = Scn("f%d" % i, env={"APOLLO_PERSISTENT_DATASETS": rng.choice("001"), "APOLLO_TRACE_CSV": "1", "APOLLO_STORE_EXEC_INFO": "1"})
        s.clock()
        rs = ["r%d" % j for j in range(rng.randint(1, 3))]
        for r in rs:
            s.create(r, rng.choice([0, 1, 3, 6]), 3, rng.choice(["RoundRobin", "Static,policy=1", "Random", "DecisionTree"]), api=rng.choice(["c", "cpp"]))
        for k in range(60):
            s.exe(rng.choice(rs), [float(rng.randint(0, 1)) for _ in range(rng.randint(0, 7))], metric=None if rng.random() < .6 else rng.randint(1, 400) / 512.0,
                  style=rng.choice(["c", "dep", "ctx", "vec"]), ns=NS * rng.randint(1, 9))
        s.exit()
        L.append(s)
    # many regions, many executions
    for i in range(n(3, 20)):
        L.append(Wide("z%d" % i, vlib.SEED, nreg=rng.choice([12, 30]), steps=n(500, 1500), csv=True, execinfo=True, hows=("small", "int"), maxnf=3, maxopen=25, names=["reg%d" % k for k in range(30)]).s)
    post(exe, L, csv=True, execinfo=True)
    return scn.run_and_validate(chk, exe, L)


# ------------------------------------------------------------------ C20
def c20(chk):
    exe = vlib.build("main")
    rng = rngs("c20")
    mc(chk, [dict(setup=[region("a", 1, 2), region("b", 0, 2, mdl="DecisionTree", min=2)], cf=conf(), nexec=3, nops=1, atomic=False),
             dict(setup=[region("a", 0, 3), region("b", 0, 2), region("c", 0, 2, mdl="Random")], cf=conf(persist=True), kinds=("sync",), nexec=3, nops=0)])
    L = []
    with vlib.Scratch("C20g") as root:
        # all interleavings of two regions, in every calling style
        st = [region("a", 1, 3), region("b", 1, 2, mdl="DecisionTree", min=3)]
        hs = histories(chk, root, st, conf(persist=True), kinds=("sync",), nexec=2, nops=0, atomic=False, tag="g1", cap=n(250, None))
        for i, h in enumerate(hs):
            L.append(replay(h, "x%d" % i, st, conf(persist=True), rng))
        st = [region("a", 2, 3), region("b", 1, 2, mdl="DecisionTree", min=3), region("c", 0, 4), region("d", 1, 2, mdl="Static", par=1)]
        for j, cf in enumerate([conf(persist=True), conf(), conf(rper=3)]):
            hs = histories(chk, root, st, cf, feats=("1", "2"), nexec=10, nops=3, atomic=False, simulate=n(60, 600), tag="g2%d" % j)
            for i, h in enumerate(hs):
                L.append(replay(h, "y%d-%d" % (j, i), st, cf, rng, queries=1))
    for i in range(n(40, 400)):
        L.append(Wide("w%d" % i, vlib.SEED, nreg=rng.randint(2, 5), models=["RoundRobin", "Static", "DecisionTree", "RandomForest", "RoundRobin"], steps=n(130, 300), maxopen=8, maxnf=rng.choice([2, 4, 9])).s)
    # regions with the same model, each training by its own period and minimum
    for i in range(n(20, 200)):
        mdl = rng.choice(["DecisionTree", "RandomForest", "PolicyNet"])
        info = mdl + rng.choice([",max_depth=3", ""] if mdl != "PolicyNet" else [""])
        regs = [dict(r="r%d" % j, nf=1, np=3, info=info, mdl=mdl, min=rng.choice([0, 0, 4]) if mdl != "PolicyNet" else 0, vecs=[[float(x)] for x in range(4)]) for j in range(rng.randint(2, 4))]
        L.append(Wide("p%d" % i, vlib.SEED, regions=regs, steps=n(110, 250), rper=rng.choice([3, 5, 7, 12]), store=rng.random() < .7, track=True, trains=rng.random() < .3).s)
    # feature vectors of other lengths than declared, in every calling style
    for i in range(n(10, 80)):
        s = Scn("f%d" % i, env={"APOLLO_PERSISTENT_DATASETS": rng.choice("01")}, track=True)
        s.clock()
        rs = []
        for j in range(rng.randint(1, 3)):
            s.create("r%d" % j, rng.choice([0, 1, 3, 6]), 3, rng.choice(["RoundRobin", "Static,policy=1", "Random", "DecisionTree"]), api=rng.choice(["c", "cpp"]))
            rs.append("r%d" % j)
        for k in range(60):
            s.exe(rng.choice(rs), [float(rng.randint(0, 1)) for _ in range(rng.randint(0, 7))], metric=None if rng.random() < .6 else rng.randint(1, 400) / 512.0,
                  style=rng.choice(["c", "dep", "ctx", "vec"]), ns=NS * rng.randint(1, 9))
        s.exit()
        L.append(s)
    # long runs in one calling style per region
    for i in range(n(6, 60)):
        s = Scn("l%d" % i, env={"APOLLO_PERSISTENT_DATASETS": rng.choice("01")})
        s.clock()
        rs = []
        for j in range(rng.randint(2, 4)):
            nf = rng.choice([0, 1, 3, 7])
            mdl = rng.choice(["DecisionTree", "RandomForest", "RoundRobin", "PolicyNet" if 0 < nf < 4 else "Random"])
            s.create("r%d" % j, nf, 3, mdl, api=rng.choice(["c", "cpp"]))
            rs.append(("r%d" % j, nf, rng.choice(["c", "c", "dep", "ctx", "vec"])))
        for k in range(n(330, 1200)):
            r, nf, st = rng.choice(rs)
            s.exe(r, [float(rng.randint(0, 2)) for _ in range(nf)], metric=None if rng.random() < .8 else rng.randint(-4, 400) / 512.0, style=st, ns=NS * rng.randint(1, 9))
        s.exit()
        L.append(s)
    # trained models beside others that keep learning
    for i in range(n(12, 100)):
        s = Scn("t%d" % i, env={"APOLLO_PERSISTENT_DATASETS": rng.choice("01")})
        mdl = rng.choice(["DecisionTree", "RandomForest"])
        rs = ["a", "b", "c"]
        Ps = {}
        for r in rs:
            s.create(r, 1, 4, mdl + ",max_depth=3")
            Ps[r] = Points(rng, 6, 1, 4)
            Ps[r].inserts(s, r)
        for r in rng.sample(rs, 3):
            s.train(r, 0)
            for q in rs:
                if rng.random() < .8:
                    ask(s, q, Ps[q], Ps[q].coords, (i, r, q))
            s.exe(r, [3.0], metric=.5, style=rng.choice(["ctx", "c", "dep", "vec"]))
        for q in rs:
            ask(s, q, Ps[q], Ps[q].coords, (i, q))
        s.exit()
        L.append(s)
    return scn.run_and_validate(chk, exe, L)


# ------------------------------------------------------------------ C21
def c21(chk):
    exe = vlib.build("main")
    rng = rngs("c21")
    mc(chk, [dict(setup=[region("a", 0, 2), region("b", 0, 1)], cf=conf(persist=True), metrics=(0, 64, 128), nexec=3 if T else 2, nops=0)])
    L = []
    for i in range(n(60, 600)):
        # durations from nanoseconds to days
        scale, maxns = rng.choice([(30, 10**9), (30, 10**6), (30, 3000), (20, 10**12), (10, 10**15), (4, 5 * 10**16)])
        s = Scn("c%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"}, scale=scale)
        s.clock(mono=rng.choice([0, 10**15, 123456789, 999999999, 10**9 - 1, 2**40, 10**15 + 1]), real=rng.choice([17 * 10**17, 10**12, 10**9 - 1]))
        regs = ["r%d" % j for j in range(rng.randint(1, 4))]
        for r in regs:
            s.create(r, 1, 2, "Static")
        k, opened, pend = 0, [], []
        for _ in range(n(60, 200)):
            x = rng.random()
            if x < .4 and len(opened) < 12:
                r = rng.choice(regs)
                k += 1
                if rng.random() < .5 and not any(o[1] == r and o[2] in ("ctx", "vec", "tk", "c") for o in opened):
                    st = rng.choice(["ctx", "vec", "tk"])
                    c = s.begin(r, style=st, feats=[float(k)])
                else:
                    st = rng.choice(["cuda", "hip"])
                    ms = rng.choice([0.0, maxns / 1e6 * rng.random(), maxns / 1e6 * rng.randint(0, 8) / 8.0])
                    c = s.begin(r, style=st, ms=f32(ms))
                if st != "vec":
                    s.feat(c, float(k))
                s.pol(c)
                opened.append((c, r, st))
            elif x < .55:
                s.adv(rng.choice([0, 1, 999999999, 1000000000, rng.randint(0, 1000)]) if maxns < 10**9 and rng.random() < .1 and scale < 30 else rng.randint(0, maxns // n(20, 40)))
            elif x < .65:
                s.jump(rng.choice([-1, 1]) * rng.choice([1, 10**9, 3600 * 10**9, 10**15, rng.randint(1, 10**10)]))
            elif x < .85 and opened:
                c, r, st = opened.pop(rng.randrange(len(opened)))
                if rng.random() < .2:
                    s.endm(c, rng.choice([rng.random(), 0.0, 1e-9 * rng.randint(0, 100), 1 / 3]) * maxns / 1e9)
                else:
                    s.end(c)
                    if st in ("cuda", "hip"):
                        pend.append(c)
            elif pend:
                c = pend.pop(rng.randrange(len(pend)))
                s.done(c)
                if rng.random() < .5:
                    s.collect(rng.choice(regs))
        for c, r, st in opened:
            s.end(c)
            if st in ("cuda", "hip"):
                pend.append(c)
        for c in pend:
            s.done(c)
        for r in regs:
            s.collect(r)
        s.exit()
        L.append(s)
    for i in range(n(20, 200)):
        L.append(Wide("w%d" % i, vlib.SEED, nreg=3, models=["RoundRobin", "Static", "Random"], persist=True, steps=n(130, 300), nvec=12, maxval=2500).s)
    return scn.run_and_validate(chk, exe, L)
