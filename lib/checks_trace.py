"""Diagnostic traces (C22) and resources (C23)."""
import random
import vlib, scn, gen
import checks_mpi as cp
from scn import Scn, final_post
from gen import Wide, region, conf, replay, histories, NS
from checks_core import n, T, rngs, mc, post
from checks_models import Points

ALL = ["RoundRobin", "Random", "Static", "DecisionTree", "RandomForest", "PolicyNet", "DecisionTree", "RandomForest"]


# ------------------------------------------------------------------ C22
def c22(chk):
    exe = vlib.build("main")
    rng = rngs("c22")
    mc(chk, [dict(setup=[region("a", 1, 2), region("b", 0, 2, mdl="DecisionTree", min=2)], cf=conf(), nexec=3, nops=1)])
    L = []
    env = lambda: {"APOLLO_TRACE_POLICY": rng.choice("1110"), "APOLLO_TRACE_BEST_POLICIES": rng.choice("1110")}
    with vlib.Scratch("C22g") as root:
        st = [region("a", 1, 2, mdl="DecisionTree", min=3), region("b", 2, 3, mdl="PolicyNet"), region("c", 0, 2, mdl="RandomForest"), region("d", 1, 3)]
        for j, cf in enumerate([conf(), conf(gper=3), conf(rper=2, persist=True)]):
            hs = histories(chk, root, st, cf, feats=("1", "2"), nexec=10, nops=4, atomic=False, simulate=n(40, 400), tag="g%d" % j)
            L += [replay(h, "h%d-%d" % (j, i), st, cf, rng, env=env()) for i, h in enumerate(hs)]
    names = ["reg", "a region", "R-1", "model x", "x" * 40, "features", "policy 3", "z"]
    for i in range(n(60, 600)):
        hows = rng.choice([("small",), ("int",), ("small", "int"), ("cut", "int"), ("cut",)])
        L.append(Wide("w%d" % i, vlib.SEED, nreg=rng.randint(1, 5), models=ALL, steps=n(110, 250), gper=rng.choice([0, 0, 0, 1, 5]), rper=rng.choice([0, 0, 2, 5]),
                      mins=(0, 0, 2, 5), maxnf=rng.choice([2, 6]), maxnp=rng.choice([3, 40]), hows=hows, nvec=rng.choice([3, 8]), env=env(),
                      names=rng.sample(names, 5), store=rng.random() < .3, outdir=rng.choice([None, "od"])).s)
    # later runs append to the decisions of earlier ones; trainings at creation
    for i in range(n(14, 140)):
        regs = [dict(r="r%d" % j, nf=1, np=3, info="", mdl="", min=0, vecs=[[float(rng.randint(-9, 9))] for x in range(6)]) for j in range(rng.randint(1, 3))]
        for t in range(3):
            rs = []
            for d in regs:
                mdl = rng.choice(["RoundRobin", "DecisionTree", "RandomForest", "Static"])
                rs.append(dict(d, info=mdl + (",load-dataset" if t and mdl not in ("RoundRobin", "Static") and rng.random() < .5 else ""), mdl=mdl, min=rng.choice([0, 2]) if mdl in ("DecisionTree", "RandomForest") else 0))
            L.append(Wide("y%d-%d" % (i, t), vlib.SEED, regions=rs, steps=rng.choice([30, 60]), persist=True, dirname="y%d" % i, fresh=t == 0, env=env()).s)
    # one region, many decisions
    for i in range(n(2, 10)):
        L.append(Wide("z%d" % i, vlib.SEED, nreg=8, names=["reg%d" % k for k in range(8)], models=ALL, steps=n(700, 2000), hows=("small", "int"), maxnf=3, env={"APOLLO_TRACE_POLICY": "1", "APOLLO_TRACE_BEST_POLICIES": "1"}, maxopen=20).s)
    post(exe, L, traces=True)
    scn.run_and_validate(chk, exe, L)
    # the traced exchange of collective training
    cp.judge(chk, vlib.build("mpi"), [cp.make(rng, i, ag=True) for i in range(n(16, 160))])


# ------------------------------------------------------------------ C23
def c23(chk):
    exe = vlib.build("main")
    rng = rngs("c23")
    mc(chk, [dict(setup=[region("a", 0, 2), region("b", 0, 2, mdl="DecisionTree", min=2)], cf=conf(), nexec=3, nops=1)])
    L = []
    N = n(1500, 6000)
    styles = ["ctx", "vec", "cuda", "hip"]
    # executions of every model in every style
    for i in range(n(48, 300)):
        mdl = rng.choice(ALL)
        st = styles[i % 4]
        nf = rng.choice([0, 1, 2, 6]) if mdl != "PolicyNet" else rng.choice([1, 2])
        np = rng.choice([1, 2, 5])
        e = {}
        for k, q in (("PERSISTENT_DATASETS", .5), ("TRACE_CSV", .25), ("STORE_MODELS", .3), ("TRACE_BEST_POLICIES", .15), ("TRACE_POLICY", .1)):
            if rng.random() < q:
                e["APOLLO_" + k] = "1"
        if mdl == "PolicyNet" and rng.random() < .5:
            e["APOLLO_PER_REGION_TRAIN_PERIOD"] = "500"
        elif rng.random() < .2:
            e["APOLLO_GLOBAL_TRAIN_PERIOD"] = "500"
        s = Scn("e%d" % i, env=e, timeout=120)
        s.clock()
        s.create("a", nf, np, mdl, min=rng.choice([0, 3, 1000]) if mdl in ("DecisionTree", "RandomForest") else 0)
        s.create("b", 1, 2, rng.choice(["RoundRobin", "DecisionTree"]))
        vs = [[float(rng.randint(0, 5)) for _ in range(nf)] for _ in range(rng.choice([1, 3]))]
        lag = rng.choice([0, 0, 1, 4, 20]) if st in ("cuda", "hip") else 0
        m = .25 if st in ("cuda", "hip") or rng.random() < .5 else None
        # every entry exists and all one-time work is done before the first mark
        s.loop("a", st, N // 2 + 40 * np, vs, lag, m)
        for k in range(3):
            s.mem()
            s.loop("a", st, N, vs, lag, m)
        s.mem()
        s.exe("b", [1.0], metric=.5)
        s.exit()
        L.append(s)
    # many more executions: what grows slowly
    for i in range(n(6, 24)):
        s = Scn("l%d" % i, timeout=120)
        s.clock()
        s.create("a", 2, 3, rng.choice(["RoundRobin", "Static", "Random"]))
        st, N2 = rng.choice(["ctx", "vec"]) if i % 3 else "ctx", 60000
        vs = [[1.0, 2.0], [3.0, 0.0]]
        s.loop("a", st, 200, vs, 0, None)
        for k in range(2):
            s.mem()
            s.loop("a", st, N2, vs, 0, None if i % 2 else .5)
        s.mem()
        s.exit()
        L.append(s)
    # trainings, stores, loads, questions
    for i in range(n(24, 160)):
        mdl = rng.choice(["DecisionTree", "RandomForest", "PolicyNet"])
        nf, np = rng.choice([1, 2]), rng.choice([2, 4])
        s = Scn("t%d" % i, timeout=120, env={"APOLLO_STORE_MODELS": rng.choice("01"), "APOLLO_PERSISTENT_DATASETS": "1", "APOLLO_TRACE_BEST_POLICIES": rng.choice("0001")})
        s.create("a", nf, np, mdl + (",num_trees=5" if mdl == "RandomForest" else ""))
        P = Points(rng, 8, nf, np)
        if mdl == "PolicyNet":
            P.off, P.mul = [0] * nf, 1.0
        P.inserts(s, "a")
        s.train("a", 0, True, True)
        s.store("a", "f")
        ops = [("train", "3"), ("store", "f"), ("load", "f"), ("q", scn.fl(P.val(P.coords[0]))), ("best", "-"), ("dsstore", "d"), ("dsload", "d")]
        s.rep("dsstore", "a", 1, "d")
        for op, arg in rng.sample(ops, len(ops)):
            c = 60 if op == "train" else 150
            if mdl == "PolicyNet":
                c //= 3
            s.rep(op, "a", max(10, c // 5), arg)
            if mdl == "RandomForest" and op == "train":
                # every training draws other trees: the sizes vary
                s.mem()
                s.rep(op, "a", c, arg)
                s.mem(slack=30000)
                continue
            s.mem()
            s.rep(op, "a", c, arg)
            s.mem(slack=2048)
        s.exit()
        L.append(s)
    # the Kokkos connector
    import checks_kokkos as ck
    for i in range(n(8, 60)):
        cv = [ck.Var(3, "ctx", rng.choice("id"))]
        tv = [ck.Var(7, "tune", "i", "set", [5, 6, 7]), ck.Var(9, "other", "i", "range", lo=0, hi=2, st=1)][: rng.choice([1, 2])]
        s = ck.K("k%d" % i, [], args=["--flush-rate=%d" % rng.choice([10, 100, 100000])] + rng.choice([[], ["--trace"]]), timeout=120)
        s.clock()
        ck.declare_all(s, rng, cv, tv)
        line = "kloop %%d 3=%d %s %d" % (rng.randint(0, 5), ",".join(str(v.id) for v in tv), N)
        x = 1
        s.raw(line % x, dict(e="kloop"), True)
        for k in range(3):
            s.mem()
            x += N
            s.raw(line % x, dict(e="kloop"), True)
        s.mem()
        s.exit()
        L.append(s)
    return scn.run_and_validate(chk, exe, L)
