"""Checks decided by Apollo.tla (design) and ApolloTrace.tla (conformance)."""
import itertools, os, random
import vlib, scn, gen
from scn import Scn, final_post, g9
from gen import Wide, region, conf, replay, histories, model_check, NS

T = vlib.THOROUGH
def n(q, t):
    return t if T else q


def rngs(tag):
    return random.Random("%s-%d" % (tag, vlib.SEED))


def post(exe, scns, **kw):
    for s in scns:
        s.post = final_post(exe, **kw)
    return scns


def mc(chk, cases, **kw):
    """model checks several small configurations side by side"""
    import concurrent.futures as cf
    with vlib.Scratch(chk.prop + "mc") as root:
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(model_check, chk, root, tag="mc%d" % i, workers=3, **dict(kw, **c)) for i, c in enumerate(cases)]
            for f in fs:
                f.result()


# ------------------------------------------------------------------ C01
def c01(chk):
    exe = vlib.build("main")
    rng = rngs("c01")
    mc(chk, [dict(setup=[region("a", 1, 3, mdl="DecisionTree", min=2, exp="Random")], cf=conf(), feats=("1",), nexec=n(2, 3), nops=1)])
    L = []
    for i in range(n(60, 600)):
        L.append(Wide("w%d" % i, vlib.SEED, nreg=rng.randint(1, 4), maxnf=rng.choice([0, 1, 3, 8, 20]), maxnp=rng.choice([1, 2, 5, 20, 300]),
                      steps=n(80, 150), hows=("small", "int", "frac", "ext")).s)
    # learned models asked far outside their data, before and after training, after retraining and loading
    for i in range(n(30, 300)):
        mdl = rng.choice(["DecisionTree", "RandomForest", "PolicyNet"])
        nf, np = rng.randint(1, 5), rng.choice([1, 2, 3, 7, 40, 257])
        if mdl == "PolicyNet":
            nf, np = rng.choice([1, 2, 2, 4, 6]), min(np, 130)
        info = mdl + ("" if mdl == "PolicyNet" else ",max_depth=%d" % rng.choice([1, 2, 5, 30]))
        s = Scn("q%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"})
        s.create("a", nf, np, info)
        vec = lambda: [abs(gen.rnd_float(rng, "int" if mdl == "PolicyNet" else rng.choice(["small", "int", "frac", "ext"]))) for _ in range(nf)]
        for k in range(3):
            for _ in range(rng.randint(1, 30)):
                s.insert("a", vec(), rng.choice([0, np - 1, rng.randrange(np)]), rng.uniform(0.001, 2))
            for _ in range(3):
                s.q("a", vec())
            s.train("a", k, True, True)
            for _ in range(12):
                s.q("a", vec())
            s.exe("a", vec(), metric=.5)
            s.store("a", "m%d" % k)
        s.load("a", "m0")
        for _ in range(12):
            s.q("a", vec())
        ff = ["m1"]
        s.exit()
        L.append(s)
        s2 = Scn("q%db" % i, dir="q%d" % i, fresh=False)
        if i % 2:
            s2.create("z", nf, np, info + ",load=m1")
        else:
            s2.create("z", nf, np, info, yaml="m2")
        for _ in range(12):
            s2.q("z", vec())
        if mdl != "PolicyNet":
            s2.mload("x", mdl, np, "m2")
            for _ in range(8):
                s2.mq("x", vec())
        s2.exit()
        L.append(s2)
    L += datasetmap_runs(rng, n(6, 40))
    L += long_cycles(rng, "lc")
    return scn.run_and_validate(chk, exe, L)


def long_cycles(rng, prefix):
    """exploration over many policies and over very many requests"""
    L = []
    for i, np in enumerate([2, 3, 7, 130, 200, 257, 300, 1000, 33000, 70000] + ([5, 11, 65537, 100000] if T else [])):
        s = Scn("%s%d" % (prefix, i))
        for r, info in (("a", "RoundRobin"), ("b", rng.choice(["DecisionTree", "RandomForest"]) + rng.choice(["", ",explore=RoundRobin"])), ("c", "RoundRobin")):
            s.create(r, 1, np, info)
            s.q(r, [1.0])
            s.seq(r, [float(rng.randint(0, 9))], rng.choice([np + 3, 2 * np + 1]) if np > 50 else n(70000, 300000) + rng.randint(0, 50), np)
            s.exe(r, [2.0], metric=.5)
            s.seq(rng.choice(s.regions), [3.0], rng.randint(1, 300), np)
            s.q(r, [1.0])
        s.exit()
        L.append(s)
    return L


def datasetmap_runs(rng, k, unknown=False):
    """a run that leaves datasets, then a run of DatasetMap on them"""
    L = []
    for i in range(k):
        nf, np = rng.randint(0, 3), rng.randint(1, 6)
        vs = [[gen.rnd_float(rng, rng.choice(["small", "int", "frac", "ext"])) for _ in range(nf)] for _ in range(rng.randint(1, 12))]
        env = {}
        if i % 3 == 1:
            env["APOLLO_DATASETS_DIR"] = rng.choice(["ds", "data sets"])
        if i % 4 == 1:
            env["APOLLO_OUTPUT_DIR"] = rng.choice(["od", "o.d"])
        a = Scn("dm%d" % i, env=dict(env, APOLLO_PERSISTENT_DATASETS="1"))
        a.post = final_post(None)
        a.create("r", nf, np, rng.choice(["Random", "RoundRobin"]))
        for _ in range(rng.randint(1, 4) * len(vs)):
            a.exe("r", rng.choice(vs), metric=rng.choice([rng.randint(1, 6) / 8.0, rng.uniform(.01, 1)]))
        a.best("r")
        a.exit()
        L.append(a)
        b = Scn("dm%db" % i, env=env, dir=a.dir, fresh=False)
        b.create("r", nf, np, "DatasetMap")
        b.best("r")
        b.askall = True
        for v in asked(a):
            b.q("r", v)
            b.exe("r", v, metric=rng.random())
        b.exit()
        L.append(b)
        if unknown and nf:
            c = Scn("dm%dc" % i, env=env, dir=a.dir, fresh=False, expect="refused")
            c.create("r", nf, np, "DatasetMap")
            v = list(asked(a)[0])
            w = list(v)
            w[rng.randrange(nf)] = scn.f32(float(w[0]) * 1.0000003 + 977.125)
            if w not in asked(a):
                c.q("r", v)
                c.raw("q r %s" % scn.fl(w))          # must stop the program: no observation follows
                c.exit()
                L.append(c)
    return L


def asked(s):
    """feature vectors of the executions of a scenario, in order, distinct"""
    out, cur = [], {}
    for line, _, _ in s.ops:
        if line is None:
            continue
        t = line.split()
        if t[0] == "begin":
            cur[t[2]] = [] if t[3] != "vec" else [scn.f32(float(x)) for x in t[4].split(",")] if t[4] != "-" else []
        elif t[0] == "feat":
            cur[t[1]].append(scn.f32(float(t[2])))
        elif t[0] in ("end", "endm") and cur[t[1]] not in out:
            out.append(cur[t[1]])
    return out


# ------------------------------------------------------------------ C02
def c02(chk):
    exe = vlib.build("main")
    rng = rngs("c02")
    mc(chk, [dict(setup=[region("a", 0, 3, mdl="RoundRobin"), region("b", 0, 2, mdl="Static", par=1)], cf=conf(), kinds=("sync",), nexec=4, nops=0)])
    L = []
    for i in range(n(50, 500)):
        s = Scn("f%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"} if i % 2 else {})
        s.clock()
        regs = []
        for j in range(rng.randint(1, 6)):
            np = rng.choice([1, 2, 3, 4, 7, 16, 100])
            k = rng.choice(["Static", "Static", "StaticRegion", "RoundRobin", "RoundRobin", "DecisionTree", "RandomForest"])
            name = ["r%d" % j, "r" * (j + 1), "x-r%d" % j, "a rather long name of a region %d" % j, "L" * (62 - j) + "%d" % j][i % 5]      # also names that begin like others
            if k == "Static":
                info = rng.choice(["Static", "Static,policy=%d" % rng.randint(0, np - 1), "Static,policy=%d" % (np + rng.randint(0, 3))])
            elif k == "StaticRegion":
                keys = ["r%d" % x for x in range(7)] + ["r" * (x + 1) for x in range(7)] + ["x-r%d" % x for x in range(7)] + ["x", "r00", "r1x", "x-r", name[:62] + "0", name[:-1] + "_", name[:16], name[:31], name[:8], name]
                keys = sorted(set(keys) - {""})
                rng.shuffle(keys)
                info = "StaticRegion," + ",".join("%s=%d" % (x, rng.randint(0, np + 1)) for x in keys)
            elif k == "RoundRobin":
                info = k
            else:
                info = k + rng.choice(["", ",explore=RoundRobin", ",max_depth=2,explore=RoundRobin"])
            regs.append((name, rng.choice([0, 1, 2, 3, 5, 9, 20]), np))
            s.create(name, regs[-1][1], np, info)
        for _ in range(n(80, 250)):
            r, nf, np = rng.choice(regs)
            v = [gen.rnd_float(rng, rng.choice(["small", "ext"])) for _ in range(nf)]
            if rng.random() < .2:
                s.q(r, v)
            else:
                s.exe(r, v, metric=rng.uniform(0, 1) if rng.random() < .7 else None, style=rng.choice(["ctx", "vec", "dep", "c", "tk"]),
                      ns=rng.randint(0, 500) * NS)
        s.exit()
        L.append(s)
    L += long_cycles(rng, "lc")
    # Random (alone and as explorer) reaches every policy and nothing else
    for i in range(n(12, 60)):
        s = Scn("rnd%d" % i)
        np = rng.choice([1, 2, 3, 5, 8, 12, 33])
        mdl = ["Random", "DecisionTree,explore=Random", "RandomForest,explore=Random"][i % 3]
        s.create("a", 1, np, mdl)
        s.create("b", 1, 3, "RoundRobin")
        s.exe("a", [1.0], metric=.5)
        s.draw("a", [1.0], 60 * np + 100)
        s.exe("b", [1.0], metric=.25)
        s.draw("a", [gen.rnd_float(rng, "ext")], 60 * np + 100)
        s.exit()
        L.append(s)
    # Optimal replays its file
    for i in range(n(6, 30)):
        s = Scn("opt%d" % i)
        onp = rng.choice([10, 12, 128, 1000])
        seq = [rng.choice([rng.randrange(onp), onp - 1, 0]) for _ in range(rng.choice([1, 5, 40, 90]))]
        seq2 = [rng.randrange(onp) for _ in range(90)]
        s.raw("write opt-a-rank-0.txt %s" % vlib.esc(",".join(map(str, seq))))
        s.raw("write opt-b-rank-0.txt %s" % vlib.esc(",".join(map(str, seq2))))
        s.create("a", 1, onp, "Optimal")
        s.create("b", 0, onp, "Optimal")
        k = 0
        for j, p in enumerate(seq):
            c = s.begin("a")
            s.feat(c, rng.random())
            s.pol(c, opt=p)
            s.endm(c, rng.random())
            if rng.random() < .5:
                c = s.begin("b")
                s.pol(c, opt=seq2[k])
                k += 1
                s.endm(c, rng.random())
        s.exit()
        L.append(s)
        if i % 2:                       # and stops the program when it is used up
            s = Scn("optx%d" % i, expect="refused")
            s.raw("write opt-a-rank-0.txt %s" % vlib.esc(",".join(map(str, seq))))
            s.create("a", 1, onp, "Optimal")
            for p in seq:
                c = s.begin("a")
                s.feat(c, rng.random())
                s.pol(c, opt=p)
                s.endm(c, rng.random())
            s.raw("q a 1")
            s.exit()
            L.append(s)
    # explorers stop once trained or loaded: checked as "trainable"/choice of learned models in wide histories
    for i in range(n(25, 250)):
        L.append(Wide("w%d" % i, vlib.SEED, nreg=3, models=["RoundRobin", "DecisionTree", "RandomForest", "Static"], steps=n(100, 200)).s)
    L += after_training(rng, n(20, 150))
    return scn.run_and_validate(chk, exe, L)


def after_training(rng, k):
    """models asked in sequence before and after being trained: a trained model no longer explores"""
    L = []
    for i in range(k):
        mdl = rng.choice(["DecisionTree", "RandomForest"])
        np = rng.randint(3, 6)
        s = Scn("at%d" % i)
        s.create("a", 1, np, mdl + ",max_depth=3" + rng.choice(["", ",explore=RoundRobin", ",explore=Random"]))
        for _ in range(rng.randint(1, 2 * np)):
            s.q("a", [1.0])
        best = rng.randrange(np)
        s.insert("a", [1.0], best, .1)                # the only point: the learned answer is known
        s.q("a", [2.0])
        s.train("a", 0)
        for _ in range(2 * np):
            s.q("a", [float(rng.randint(0, 5))])
        s.exit()
        L.append(s)
    return L


# ------------------------------------------------------------------ C03
def c03(chk):
    exe = vlib.build("main")
    rng = rngs("c03")
    cf = conf(persist=True)
    one = [region("a", 1, 2)]
    mc(chk, [dict(setup=one, cf=cf, kinds=("async",), nexec=3, nops=1, metrics=(64, 128)),
             dict(setup=[region("a", 0, 2, mdl="DecisionTree", min=2), region("b", 0, 1)], cf=conf(), nexec=3, nops=1)]
       + ([dict(setup=one, cf=cf, kinds=("async", "sync"), nexec=4, nops=1, timeout=3000)] if T else []))
    L = []
    with vlib.Scratch("C03g") as root:
        # every behaviour of three overlapping asynchronous executions, with and without polls
        hs = histories(chk, root, one, cf, kinds=("async",), nexec=3, nops=0, tag="g1")
        L += [replay(h, "x%d" % i, one, cf, rng) for i, h in enumerate(hs)]
        hs = histories(chk, root, one, cf, kinds=("async", "sync"), nexec=2, nops=1, tag="g2", cap=n(600, None))
        L += [replay(h, "y%d" % i, one, cf, rng) for i, h in enumerate(hs)]
        # random behaviours of three regions
        st = [region("a", 1, 3, mdl="DecisionTree", min=4), region("b", 2, 2), region("c", 0, 2, mdl="RandomForest")]
        for j, cf2 in enumerate([conf(persist=True), conf(), conf(persist=True, rper=5)]):
            hs = histories(chk, root, st, cf2, feats=("1", "2"), nexec=9, nops=4, atomic=False, simulate=n(80, 800), tag="g3%d" % j)
            L += [replay(h, "z%d-%d" % (j, i), st, cf2, rng) for i, h in enumerate(hs)]
    for i in range(n(30, 300)):
        L.append(Wide("w%d" % i, vlib.SEED, nreg=rng.randint(1, 4), models=["RoundRobin", "Random", "DecisionTree", "RandomForest", "Static"],
                      steps=n(150, 300), maxopen=rng.choice([3, 10, 40]), nvec=rng.choice([1, 3, 8])).s)
    # many pending contexts, finished in arbitrary order
    for i in range(n(4, 20)):
        s = Scn("many%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"})
        s.create("a", 2, 4, "RoundRobin")
        cs = []
        for j in range(n(100, 200)):
            c = s.begin("a", style=rng.choice(["cuda", "hip"]), ms=(j + 1) * 1000.0 / 512)
            s.feat(c, j // 3)
            s.feat(c, rng.randint(0, 1))
            s.pol(c)
            s.end(c)
            cs.append(c)
            if rng.random() < .2:
                for x in rng.sample(cs, min(len(cs), 5)):
                    s.done(x)
                    cs.remove(x)
            if rng.random() < .05:
                s.collect("a")
        rng.shuffle(cs)
        s.exit(cs, rng.choice([1, 3]))
        L.append(s)
    # a device that stays busy for long at shutdown
    for i in range(n(6, 30)):
        s = Scn("busy%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"})
        rs = ["a", "b"][: rng.randint(1, 2)]
        for r in rs:
            s.create(r, 1, 3, rng.choice(["RoundRobin", "DecisionTree"]))
        cs = []
        for j in range(rng.randint(1, 6)):
            r = rng.choice(rs)
            c = s.begin(r, style=rng.choice(["cuda", "hip"]), ms=(j + 1) * 1000.0 / 512)
            s.feat(c, j)
            s.pol(c)
            s.end(c)
            cs.append(c)
        rng.shuffle(cs)
        s.exit(cs, rng.choice([200, 3000, 20000]))
        L.append(s)
    # executions that set fewer or more features than the region declares
    for i in range(n(10, 60)):
        s = Scn("rag%d" % i, env={"APOLLO_PERSISTENT_DATASETS": rng.choice("01")})
        nf = rng.randint(1, 4)
        s.create("a", nf, rng.choice([1, 3]), rng.choice(["RoundRobin", "DecisionTree", "RandomForest"]))
        s.create("b", nf, 2, "DecisionTree")
        for j in range(40):
            st = rng.choice(["ctx", "vec", "dep", "c", "tk", "cuda", "hip"])
            v = [float(rng.randint(0, 2)) for _ in range(rng.choice([0, 1, nf, nf, nf + 2]))]
            c = s.begin(rng.choice("aab"), style=st, feats=v, ms=(j + 1) * 1000.0 / 512)
            if st != "vec":
                for x in v:
                    s.feat(c, x)
            s.pol(c)
            if st in ("cuda", "hip"):
                s.done(c)
            s.endm(c, rng.randint(1, 900) / 512.0)
        s.exit()
        L.append(s)
    # metrics that are zero, negative, large, and the clock's own time differs from them
    for i in range(n(8, 60)):
        s = Scn("met%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"})
        s.clock()
        s.create("a", 1, rng.choice([1, 3]), "RoundRobin")
        for j in range(40):
            st = rng.choice(["ctx", "vec", "dep", "c", "tk", "cuda", "hip"])
            c = s.begin("a", style=st, feats=[float(j // 3)], ms=(j + 1) * 1000.0 / 512)
            if st != "vec":
                s.feat(c, j // 3)
            s.pol(c)
            s.adv(rng.randint(1, 200) * NS)
            s.endm(c, rng.choice([0.0, -0.0, -1.0, -rng.random(), 1e-9, rng.randint(1, 900), rng.random()]))
        s.exit()
        L.append(s)
    post(exe, L)
    return scn.run_and_validate(chk, exe, L)


# ------------------------------------------------------------------ C04
def c04(chk):
    exe = vlib.build("main")
    rng = rngs("c04")
    mc(chk, [dict(setup=[region("a", 1, 2)], cf=conf(persist=True), kinds=("sync",), feats=("1", "2"), metrics=(64, 128, 1024), nexec=4, nops=0)])
    L = []
    for i in range(n(40, 400)):
        scale = rng.choice([20, 20, 30, -10, 50])
        s = Scn("d%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"}, scale=scale)
        nf = rng.randint(0, 8)
        np = rng.choice([1, 2, 5, 50])
        s.create("a", nf, np, rng.choice(["Random", "RoundRobin"]))
        s.create("b", nf, np, "RoundRobin")
        base = [gen.rnd_float(rng, rng.choice(["small", "int", "frac", "ext"])) for _ in range(nf)]
        vs = [base]
        for _ in range(6):               # vectors that differ minimally: one component, order, sign, adjacent float
            v = list(rng.choice(vs))
            if nf:
                k = rng.randrange(nf)
                x = rng.random()
                if x < .3:
                    v[k] = scn.f32(v[k] * (1 + 2 ** -22)) if v[k] else 1.0
                elif x < .5:
                    rng.shuffle(v)
                elif x < .7:
                    v[k] = -v[k]
                else:
                    v[k] = v[k] + 1
            vs.append(v)
        mag = 2.0 ** (30 - scale) * .5
        for _ in range(n(80, 300)):
            r = rng.choice("aab")
            v = rng.choice(vs)
            s.exe(r, v, metric=rng.choice([rng.uniform(0, mag), mag * rng.randint(0, 8) / 16.0, mag / 3]), style=rng.choice(["ctx", "vec"]))
        s.best("a")
        s.exit()
        L.append(s)
    # straight into the dataset: vectors of different lengths, prefixes of each other
    for i in range(n(10, 80)):
        s = Scn("i%d" % i)
        s.create("a", 3, 8, "RoundRobin")
        vs = [[1.0] * k for k in range(5)] + [[1.0, 2.0], [2.0, 1.0], [0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0, 2.0]]
        for _ in range(120):
            s.insert("a", rng.choice(vs), rng.randrange(8), rng.randint(1, 1000) / 512.0)
        s.best("a")
        s.exit()
        L.append(s)
    for i in range(n(20, 200)):
        L.append(Wide("w%d" % i, vlib.SEED, nreg=3, models=["RoundRobin", "Random", "Static", "DecisionTree"], steps=n(150, 300), nvec=2).s)
    L += large_datasets(rng, n(2, 8))
    post(exe, L)
    return scn.run_and_validate(chk, exe, L)


def large_datasets(rng, k, best=False):
    """more entries than any small table holds, then ordinary measurements of old and new ones"""
    L = []
    for i in range(k):
        s = Scn("big%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"})
        nf, np = [(1, 1), (2, 4), (3, 150)][i % 3]
        s.create("a", nf, np, "RoundRobin")
        s.create("b", nf, np, "Static")
        tot = n(1300, 2600)
        keys = set()
        while len(keys) < tot:
            keys.add((tuple(float(rng.randrange(3 * tot if nf == 1 else 60)) for _ in range(nf)), rng.randrange(np)))
        keys = sorted(keys)
        rng.shuffle(keys)
        for j in range(0, tot, 130):
            s.bulk("a", [(list(f), p, rng.randint(-50, 900) / 512.0) for f, p in keys[j:j + 130]])
            f, p = rng.choice(keys[: j + 130])
            s.insert("a", list(f), p, rng.randint(1, 900) / 512.0)
            for r in "ab":           # vectors of their own
                v = list(rng.choice(keys)[0])
                v[0] += .5
                s.exe(r, v, metric=rng.random())
            if best and j % 390 == 0:
                s.best("a")
        s.best("a")
        s.exit()
        L.append(s)
    return L


# ------------------------------------------------------------------ C05
def c05(chk):
    exe = vlib.build("main")
    rng = rngs("c05")
    mc(chk, [dict(setup=[region("a", 1, 3, mdl="Random")], cf=conf(persist=True), kinds=("sync",), metrics=(64, 128), nexec=3, nops=0)])
    L = []
    for i in range(n(40, 400)):
        s = Scn("b%d" % i, scale=rng.choice([20, 28]))
        nf, np = rng.randint(0, 6), rng.choice([1, 2, 3, 10, 120])
        s.create("a", nf, np, "DecisionTree,max_depth=60")
        vs = [[gen.rnd_float(rng, rng.choice(["small", "int", "frac", "ext"])) for _ in range(nf)] for _ in range(rng.randint(1, 20))]
        ties = rng.random() < .4
        for _ in range(rng.randint(1, 150)):
            s.insert("a", rng.choice(vs), rng.randrange(np), rng.randint(1, 4) / 8.0 if ties else rng.uniform(.001, 1.9))
            if rng.random() < .1:
                s.best("a")
        s.best("a")
        s.train("a", 1)
        if not ties:
            seen = {tuple(o[2]["k"]): None for o in s.ops if o[2] and o[2]["e"] == "insert"}
            for v in vs:
                if tuple(g9(x) for x in v) in seen:
                    s.q("a", v, tag=("q", tuple(g9(x) for x in v)))
        s.exit()
        L.append(s)
    # zero and negative averages, vectors of different lengths, many points
    for i in range(n(16, 120)):
        s = Scn("z%d" % i, scale=20)
        np = rng.choice([2, 3, 6])
        mix = i % 2
        nf = rng.randint(1, 3)
        s.create("a", nf, np, "DecisionTree,max_depth=60")
        vs = [[float(rng.randint(0, 3)) for _ in range(rng.randint(0, 4) if mix else nf)] for _ in range(rng.choice([3, 10, 25]))]
        for _ in range(100):
            s.insert("a", rng.choice(vs), rng.randrange(np), rng.choice([0.0, 0.0, -1.0, rng.randint(-400, 400) / 512.0, rng.uniform(-1.5, 1.5), 600.0]))
            if rng.random() < .1:
                s.best("a")
        s.best("a")
        s.exit()
        L.append(s)
    for i in range(n(3, 12)):
        s = Scn("many%d" % i, scale=20)
        nf, np, k = rng.choice([1, 2]), rng.choice([2, 5]), n(200, 500)
        s.create("a", nf, np, "DecisionTree,max_depth=400")
        vs = set()
        while len(vs) < k:
            vs.add(tuple(float(rng.randrange(2000)) for _ in range(nf)))
        vs = sorted(vs)
        ents = [(list(v), p, m / 1024.0) for v in vs for p, m in zip(range(np), rng.sample(range(1, 900), np))]
        for j in range(0, len(ents), 100):
            s.bulk("a", ents[j:j + 100])
        s.best("a")
        s.train("a", 1)
        qs = [list(v) for v in vs]
        for j, v in enumerate(qs):
            s.q("a", v, tag=("m", j))
        def f(s, qs=qs):
            if any(("m", k) not in s.seen for k in range(len(qs))):
                return None
            return dict(e="perfect", r="a", q=[dict(k=[g9(x) for x in v], p=s.seen[("m", k)]["p"]) for k, v in enumerate(qs)])
        s.mark(f)
        s.exit()
        L.append(s)
    # averages that differ by very little
    for i in range(n(25, 200)):
        sc = rng.choice([28, 29, 45, 60])
        s = Scn("n%d" % i, scale=sc)
        nf, np = rng.randint(1, 3), rng.choice([2, 3, 10])
        s.create("a", nf, np, "DecisionTree,max_depth=60")
        vs = [[float(rng.randint(0, 50)) for _ in range(nf)] for _ in range(rng.randint(1, 12))]
        done = set()
        for v in vs:
            base = rng.randint(1, 2 ** 29) >> rng.choice([0, 4, 10])
            for p in rng.sample(range(np), rng.randint(2, np)):
                if (tuple(v), p) not in done:
                    done.add((tuple(v), p))
                    s.insert("a", v, p, (base + 4 * p * rng.choice([1, 1, -1, 100]) + rng.randint(0, 3)) / 2.0 ** sc if base > 5000 else (base + p) / 2.0 ** sc)
        s.best("a")
        s.train("a", 1)
        qs = sorted(set(map(tuple, vs)))
        for k, v in enumerate(qs):
            s.q("a", list(v), tag=("n", k))
        def f(s, qs=qs):
            if any(("n", k) not in s.seen for k in range(len(qs))):
                return None
            return dict(e="perfect", r="a", q=[dict(k=[g9(x) for x in v], p=s.seen[("n", k)]["p"]) for k, v in enumerate(qs)])
        s.mark(f)
        s.exit()
        L.append(s)
    # traced best policies
    for i in range(n(8, 60)):
        s = Scn("t%d" % i, env={"APOLLO_TRACE_BEST_POLICIES": "1"})
        nf, np = rng.randint(1, 3), rng.randint(2, 6)
        s.create("a", nf, np, rng.choice(["DecisionTree", "PolicyNet"]))
        for k in range(3):
            for _ in range(rng.randint(1, 25)):
                s.insert("a", [float(rng.randint(0, 4)) for _ in range(nf)], rng.randrange(np), rng.randint(1, 999) / 1024.0)
            s.train("a", k, True, True)
            s.mark(best_file("a", k))
        s.exit()
        L.append(s)
    L += datasetmap_runs(rng, n(15, 120), unknown=True)
    return scn.run_and_validate(chk, exe, L)


def best_file(r, step):
    def f(s):
        p = os.path.join(s.root, s.dir, "step-%d-rank-0-%s-best_policies.txt" % (step, r))
        rows = []
        try:
            for l in open(p).read().split("\n")[1:]:
                if l.strip():
                    k = [g9(float(x)) for x in l[l.index("[") + 1:l.index("]")].replace(",", " ").split()]
                    a, b = l[l.index("P:") + 2:].split(" T: ")
                    rows.append(dict(k=k, p=int(a), u=s.units(float(b))))
        except (OSError, ValueError, IndexError):
            rows = [dict(k=["?"], p=-1, u=0)]
        return dict(e="bestfile", r=r, b=rows)
    return f
