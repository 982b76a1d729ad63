"""Configuration (C12): every configuration of ConfigMC.tla replayed on the library, its verdict
and its effects judged by Config.tla and ApolloTrace.tla."""
import json, math, os, random, shutil
import vlib, scn, gen
from scn import Scn, final_post, g9, f32
from gen import Wide, region, conf, NS
from checks_core import n, T, rngs, mc, post, datasetmap_runs
from checks_models import Points, ask, tree_event, forest_event
from checks_store import probes, probe

UNSET = {"name": "", "prm": []}


def enumerate_configs(chk):
    with vlib.Scratch("C12g") as root:
        rc, o = vlib.tlc("ConfigMC", "", root)
        f = os.path.join(root, "configs.json")
        if "CONFIGS" not in o or "Error:" in o or not os.path.exists(f):
            raise vlib.ToolError("enumeration failed:\n" + o[-2000:])
        d = json.load(open(f))
    chk.count("configurations_enumerated", len(d["space"]) + len(d["deep"]))
    return d["space"], d["deep"]


def text(rng, m, alt):
    """a model string for the abstract one"""
    if m == UNSET or m["name"] == "":
        return ""
    out = [m["name"]]
    for p in m["prm"]:
        k, c = p["k"], p["c"]
        v = None
        if c == "nat":
            v = str(p["n"])
        elif c == "neg":
            v = rng.choice(["-1", "-7", "-1"])
        elif c == "real":
            v = rng.choice(["0.5", "1e-3", ".25"])
        elif c == "text":
            v = rng.choice(["abc", "x1", "true", ""])
        elif c in ("RoundRobin", "Random", "Static"):
            v = c
        elif c == "file":
            v = m["name"] + ".model"
        elif c == "nofile":
            v = "missing.model"
        out.append(k if v is None else "%s=%s" % (k, v))
    return ",".join(out)


def needs_data(c):
    m = c["str"] if c["str"] != UNSET else c["env"]
    return any(p["c"] == "data" for p in m["prm"]), any(p["c"] == "nodata" for p in m["prm"])


def prep(name, d, data, rng):
    """a run that leaves stored models of every kind (and, when wanted, a dataset)"""
    s = Scn(name, dir=d, env={"APOLLO_PERSISTENT_DATASETS": "1"} if data else {})
    P = Points(rng, 6, 1, 3)
    P.off, P.mul = [0], 1.0
    V = [P.val(c) for c in P.coords] + [[1.0], [3.0], [7.0]]
    if data:
        s.create("reg", 1, 3, "RoundRobin")
        for c in P.coords:
            for p in rng.sample(range(3), 2):
                s.insert("reg", P.val(c), p, rng.randint(1, 200) / 256.0)
    for mdl in ("DecisionTree", "RandomForest", "PolicyNet"):
        s.create("p" + mdl, 1, 3, mdl)
        P.inserts(s, "p" + mdl)
        s.train("p" + mdl, 0)
        probe(s, "p" + mdl, V, mdl)
        s.store("p" + mdl, mdl + ".model")
    s.exit()
    return s, V


def use(s, rng, eff, info, V, conf_, loaded):
    """use of an accepted region: exploration, training with the configured shape, decisions"""
    r = "reg"
    mdl, depth, trees = eff["mdl"], eff["depth"], eff["trees"]
    s.mark(dict(e="conf", r=r, conf=conf_, depth=depth, trees=trees))
    if mdl in ("Static", "RoundRobin", "Random"):
        for i in range(7):
            s.exe(r, [float(i % 3)], metric=.5, style=rng.choice(["ctx", "vec", "c"]))
        if mdl == "Random":
            s.draw(r, [1.0], 200)
        return
    if loaded:
        probe(s, r, V, mdl)
        return
    if mdl in ("DecisionTree", "RandomForest"):
        for i in range(7):
            s.exe(r, [float(i % 3)], metric=.5)
        if eff["exp"] == "Random" and "load-dataset" not in info:
            s.draw(r, [1.0], 200)
        s.raw("clear reg", dict(e="clear", r=r), True)
        P = Points(rng, rng.choice([8, 10, 12]), 1, 3)
        P.inserts(s, r)
        s.train(r, 5, True, True)
        qs = P.queries(6)
        ask(s, r, P, qs, 0)
        if mdl == "DecisionTree":
            s.mark(tree_event(r, P, qs, 0, depth))
        else:
            s.store(r, "forest-" + s.name)
            s.mark(forest_event(r, P, qs, 0, depth, trees, "forest-" + s.name))
    elif mdl == "PolicyNet":
        for v in ([1.0], [2.0]):
            s.draw(r, v, 5)


def config_runs(rng, cases, tag):
    L, groups = [], {}
    for i, x in enumerate(cases):
        c = x["c"]
        want, without = needs_data(c)
        c["bad"] = list(c["bad"])
        data = want and not without
        if want and without:
            continue
        g = (data, i % 24)
        groups.setdefault(g, []).append((i, x))
    for (data, gi), xs in sorted(groups.items()):
        d = "%s-%s%d" % (tag, "d" if data else "n", gi)
        p, V = prep(d, d, data, rng)
        if data:
            p.post = final_post(None)
        L.append(p)
        for i, x in xs:
            c, eff = x["c"], x["f"]
            env = {}
            for k, v in (("coll", "COLLECTIVE_TRAINING"), ("loc", "LOCAL_TRAINING"), ("sing", "SINGLE_MODEL"), ("regm", "REGION_MODEL")):
                if c[k] != "unset":
                    env["APOLLO_" + v] = rng.choice(["abc", "", "yes"]) if c[k] == "text" else c[k]
            for b in c["bad"]:
                env["APOLLO_" + b] = rng.choice(["abc", "", "yes", "x2"])
            if c["env"] != UNSET:
                env["APOLLO_POLICY_MODEL"] = text(rng, c["env"], i)
            s = Scn("%s%d" % (tag, i), dir=d, fresh=False, env=env, expect=x["v"])
            s.conf = [c]
            info = text(rng, c["str"], i)
            eff_info = info or env.get("APOLLO_POLICY_MODEL", "Static")
            if x["v"] == "ok":
                s.create("reg", 1, c["np"], info, api=rng.choice(["cpp", "c"]))
                m = c["str"] if c["str"] != UNSET else c["env"]
                keys = {p["k"] for p in m["prm"]}
                if c["coll"] == "unset" and c["sing"] != "1" and c["loc"] == "unset":
                    # a loaded network starts from another average when damped otherwise: not what it was
                    same = eff["mdl"] != "PolicyNet" or not keys & {"beta", "threshold"}
                    use(s, rng, eff, eff_info, V, c, "load" in keys and "load-dataset" not in keys and same)
            else:
                # the scenario only has to stop: what the region would be does not matter
                s.raw("create reg cpp 1 %d 0 %s -" % (c["np"], vlib.esc(info)), dict(e="create", r="reg", nf=1, np=c["np"], min=0, lf=[], mdl="Static", par=0,
                      exp="RoundRobin", tr=False, ord=["reg"], ldds=False, ldtr=False), True)
                if rng.random() < .5:
                    s.raw("train reg 0 1 1", dict(e="train", r="reg", step=0, collect=True, force=False), True)
            s.exit()
            L.append(s)
    return L


# ------------------------------------------------------------------ PolicyNet parameters
def net_runs(rng, k):
    """lr, beta, beta1, beta2 and threshold: regions starting from the same stored weights and
    trained on the same data are compared"""
    L = []
    for i in range(k):
        s = Scn("net%d" % i, env={})
        s.create("o", 1, 3, "PolicyNet")
        s.store("o", "w0")
        V = [[1.0], [2.0], [5.0]]
        rows = []
        for v in V[:2]:
            for p in range(3):
                rows.append((v, p, rng.randint(1, 100) / 64.0))
        rows2 = [(v, p, rng.randint(1, 100) / 64.0) for v, p, _ in rows]
        # (name, parameters, equal to the default's result?)
        near = lambda d: rng.choice([x for x in (d * .5, d * .8, d * 1.1, min(.99, d * 1.5)) if x != d])
        var = [("def", "", True), ("exp", ",lr=0.01,beta=0.5,beta1=0.5,beta2=0.9", True), ("thr", ",threshold=0", True),
               ("lr", ",lr=%g" % near(.01), False), ("beta", ",beta=%g" % near(.5), False), ("beta1", ",beta1=%g" % near(.5), False), ("beta2", ",beta2=%g" % near(.9), False),
               ("lr0", ",lr=0", None), ("lrbig", ",lr=%g" % rng.choice([2, 5]), False), ("lrone", ",lr=1", False)]
        # one parameter given as it is anyway; two changed together differ from either alone
        var += [("e%d" % j, "," + x, True) for j, x in enumerate(("lr=0.01", "beta=0.5", "beta1=0.5", "beta2=0.9"))]
        # a later parameter may not undo an earlier one
        var += [("f%d" % j, var[x][1] + "," + y, var[x][0]) for j, (x, y) in enumerate(((5, "beta2=0.9"), (6, "beta1=0.5"), (3, "beta=0.5"), (4, "lr=0.01")))]
        if rng.random() < .5:
            rng.shuffle(var)
        for nm, prm, _ in var:
            s.create(nm, 1, 3, "PolicyNet,load=w0" + prm if rng.random() < .5 else "PolicyNet" + prm + ",load=w0")
            for j, v in enumerate(V):
                s.probs(nm, v, tag=(nm, 0, j))
            for v, p, m in rows:
                s.insert(nm, v, p, m)
            s.train(nm, 0)
            s.raw("clear " + nm, dict(e="clear", r=nm), True)
            for v, p, m in rows2:
                s.insert(nm, v, p, m)
            s.train(nm, 1)
            s.train(nm, 2)
            for j, v in enumerate(V):
                s.probs(nm, v, tag=(nm, 1, j))
        def ev(s, var=var):
            out = []
            get = lambda nm, t: [s.seen[(nm, t, j)]["hx"] for j in range(3)]
            if any((nm, t, j) not in s.seen or s.seen[(nm, t, j)]["via"] != "cache" for nm, _, _ in var for t in (0, 1) for j in range(3)):
                return None
            for nm, _, eq in var:
                if eq is None:
                    out.append(dict(e="same", a=get(nm, 0), b=get(nm, 1), label="param"))
                elif isinstance(eq, str):
                    out.append(dict(e="same", a=get(eq, 1), b=get(nm, 1), label="param"))
                elif eq:
                    out.append(dict(e="same", a=get("def", 1), b=get(nm, 1), label="param"))
                else:
                    out.append(dict(e="differ", a=get("def", 1), b=get(nm, 1), label="param"))
            return out
        s.mark(ev)
        s.exit()
        L.append(s)
    return L


def moment_runs(rng, k):
    """the two moments of the training: a large step followed by a tiny one. With only the first
    moment remembered (beta2=0) the tiny one is still large, with only the second (beta1=0) not"""
    L = []
    for i in range(k):
        s = Scn("mo%d" % i)
        v = [[float(rng.randint(1, 99))]]
        s.create("o", 1, 2, "PolicyNet")
        s.store("o", "w0")
        prm = [("m", "beta1=0.5,beta2=0"), ("v", "beta1=0,beta2=0.5")]
        rng.shuffle(prm)
        for nm, p in prm:
            s.create(nm, 1, 2, "PolicyNet,load=w0,lr=0.001,beta=0," + p)
            for step, ms in enumerate(((.1, 2.0), (.5, .501))):
                s.raw("clear " + nm, dict(e="clear", r=nm), True)
                for q in range(2):
                    s.insert(nm, v[0], q, ms[q])
                s.train(nm, step)
                s.probs(nm, v[0], tag=(nm, step))
        def ev(s):
            g = [[s.seen.get((nm, t)) for t in (0, 1)] for nm in "mv"]
            if any(not x or x["via"] != "cache" for y in g for x in y):
                return None
            return [dict(e="moved", a=[x["pr"] for x in g[0]], b=[x["pr"] for x in g[1]], label="param")]
        s.mark(ev)
        s.exit()
        L.append(s)
    return L


def size_runs(rng, k):
    """parameters larger than usual"""
    L = []
    for i in range(k):
        s = Scn("big%d" % i)
        if i % 2:
            np = rng.choice([129, 200, 257, 300, 1000])
            p = rng.choice([np - 1, 127, 128])
            s.create("reg", 1, np, "Static,policy=%d" % p)
            for j in range(5):
                s.exe("reg", [float(j)], metric=.5, style=rng.choice(["ctx", "vec", "c"]))
        else:
            trees, depth = rng.choice([33, 65, 101, 129, 150, 260]), rng.choice([1, 2, 40])
            s.create("reg", 1, 3, "RandomForest,num_trees=%d,max_depth=%d" % (trees, depth))
            P = Points(rng, 6, 1, 3)
            P.inserts(s, "reg")
            s.train("reg", 0)
            qs = P.queries(4)
            ask(s, "reg", P, qs, 0)
            s.store("reg", "forest")
            s.mark(forest_event("reg", P, qs, 0, depth, trees, "forest"))
        s.exit()
        L.append(s)
    return L


def pnet_event(s, r, beta, thr, batches):
    return dict(e="pnet", r=r, beta=int(round(beta * 1000)), thr=int(round(thr * 10000)), b=[[int(round(x * 10000)) for x in b] for b in batches])


def threshold_runs(rng, k, prefix="thr"):
    """average reward on either side of the threshold, for given damping factors"""
    L = []
    for i in range(k):
        beta = rng.choice([.5, .5, .1, .9, .75, 0.25])
        s = Scn("%s%d" % (prefix, i))
        np, nb = rng.choice([2, 3, 4]), rng.randint(1, 4)
        batches, avg, cnt, base = [], 0.0, 0, []
        for b in range(nb):
            lo, hi = rng.choice([(1, 40), (40, 160), (1, 160), (150, 300)])
            ms = [rng.randint(lo, hi) / 64.0 for _ in range(rng.randint(1, np))]
            batches.append(ms)
            avg = beta * avg + (1 - beta) * sum(math.exp(-m) for m in ms) / len(ms)
            cnt += 1
            base.append(avg / (1 - beta ** cnt))
        # a threshold just above or below one of the averages
        t = rng.choice(base)
        thr = round(t * rng.choice([.97, 1.03]), 4)
        if any(abs(b - thr) < .004 for b in base) or thr <= .01:
            continue
        s.create("a", 1, np, "PolicyNet,threshold=%s%s" % (thr, "" if beta == .5 and rng.random() < .5 else ",beta=%s" % beta))
        s.mark(pnet_event(s, "a", beta, thr, []))
        s.draw("a", [1.0], 30, zero=True, some=False)
        s.store("a", "w")
        for j, ms in enumerate(batches):
            if j:
                s.raw("clear a", dict(e="clear", r="a"), True)
            for p, m in enumerate(ms):
                s.insert("a", [1.0], p, m)
            s.mark(pnet_event(s, "a", beta, thr, [[math.exp(-m) for m in b] for b in batches[:j + 1]]))
            s.train("a", j)
            s.draw("a", [1.0], 400)
        s.exit()
        L.append(s)
    return L


def load_runs(rng, k):
    """'load' without a file: the region's latest model in the configured directory, whatever
    other files and regions are there"""
    L = []
    for i in range(k):
        env = {"APOLLO_STORE_MODELS": "1"}
        if rng.random() < .7:
            env["APOLLO_MODELS_DIR"] = rng.choice(["mymodels", "models.d", "m"])
        if rng.random() < .5:
            env["APOLLO_OUTPUT_DIR"] = rng.choice(["out", "o d"])
        regs = rng.sample(["a", "b", "ab", "region 1", "x" * 63], 2)
        nf, np = rng.choice([1, 2]), rng.choice([2, 3, 12])
        a = Scn("ll%d" % i, env=env)
        V = []
        made = []
        for r in regs:
            for mdl in rng.sample(["DecisionTree", "RandomForest"], rng.choice([1, 2])):
                if r in [x for x, _ in made]:
                    continue
                a.create(r, nf, np, mdl + ",max_depth=4,explore=Random")
                P = Points(rng, rng.randint(3, 12), nf, np, shape=rng.choice(["rand", "axis"]))
                P.inserts(a, r)
                a.train(r, rng.randint(0, 9))
                V += probes(rng, P, 12, mdl)
                made.append((r, mdl))
        for r, mdl in made:
            probe(a, r, V, mdl)
        a.exit()
        b = Scn("ll%db" % i, env=dict(env, APOLLO_STORE_MODELS=rng.choice("01")), dir=a.dir, fresh=False)
        for r, mdl in rng.sample(made, len(made)):
            b.create(r, nf, np, mdl + rng.choice([",load", ",max_depth=2,load", ",load,explore=RoundRobin"]))
            probe(b, r, V, mdl)
        b.exit()
        L += [a, b]
    return L


def path_runs(rng, k):
    """'load' takes the file it is given, whatever its name looks like"""
    L = []
    for i in range(k):
        f = ["a=b", "x=y=z.yaml", "m.d/w", "load", "d e/f=g", "0"][i % 6]
        mdl = rng.choice(["DecisionTree", "RandomForest"])
        s = Scn("p%d" % i)
        s.raw("mkdir m.d")
        s.raw("mkdir d%20e")
        s.create("a", 1, 4, mdl + ",max_depth=4")
        P = Points(rng, 8, 1, 4)
        P.inserts(s, "a")
        s.train("a", 0)
        V = probes(rng, P, 8, mdl)
        probe(s, "a", V, mdl)
        s.store("a", f)
        s.create("b", 1, 4, mdl + rng.choice([",load=%s", ",load=%s,max_depth=3", ",max_depth=3,load=%s"]) % f)
        probe(s, "b", V, mdl)
        s.exit()
        L.append(s)
    return L


# ------------------------------------------------------------------ C12
def c12(chk):
    exe = vlib.build("main")
    rng = rngs("c12")
    space, deep = enumerate_configs(chk)
    rng.shuffle(deep)
    if not T:
        # all modes and environments; model strings: every (model, key, class), numbers sampled
        seen, pick = set(), []
        rng.shuffle(space)
        for x in space:
            c = x["c"]
            key = json.dumps([c[k] for k in ("coll", "loc", "sing", "regm", "bad")] + [[c[k]["name"]] + [[p["k"], p["c"]] for p in c[k]["prm"]] for k in ("env", "str")])
            if key not in seen:
                seen.add(key)
                pick.append(x)
        ok = [x for x in pick if x["v"] == "ok"]
        no = [x for x in pick if x["v"] != "ok"]
        space = ok + no[:1000]
        deep = [x for x in deep if x["v"] == "ok"][:200] + [x for x in deep if x["v"] != "ok"][:150]
    L = config_runs(rng, space, "s") + config_runs(rng, deep, "d")
    L += net_runs(rng, n(4, 40))
    L += moment_runs(rng, n(4, 40))
    L += size_runs(rng, n(8, 60))
    L += threshold_runs(rng, n(30, 300))
    # periods, directories, persistence, tracing as configured
    for i in range(n(30, 300)):
        env = {}
        if rng.random() < .6:
            env["APOLLO_MODELS_DIR"] = rng.choice(["mymodels", "models.d", "models"])
        if rng.random() < .5:
            env["APOLLO_TRACES_DIR"] = rng.choice(["tr", "t.d"])
        if rng.random() < .5:
            env["APOLLO_DATASETS_DIR"] = rng.choice(["ds", "data sets"])
        if rng.random() < .3:
            env["APOLLO_TRACE_BEST_POLICIES"] = "1"
        csv, ei = rng.random() < .4, rng.random() < .4
        w = Wide("w%d" % i, vlib.SEED, nreg=rng.randint(1, 3), models=["DecisionTree", "RandomForest", "RoundRobin", "Static"], steps=n(70, 200), store=rng.random() < .7,
                 persist=rng.random() < .5, gper=rng.choice([0, 0, 3, 10]), rper=rng.choice([0, 0, 2, 5]), csv=csv, execinfo=ei, hows=("small", "int"),
                 outdir=rng.choice([None, "out", "o d", "x.y"]), env=env, track=True, maxnf=2, maxnp=4).s
        w.post = where_post(exe, csv, ei)
        L.append(w)
    L += load_runs(rng, n(30, 300))
    L += datasetmap_runs(rng, n(8, 60))
    L += path_runs(rng, n(6, 40))
    return scn.run_and_validate(chk, exe, L)


def where_post(exe, csv, ei):
    """as final_post, and nothing was written where it was not configured"""
    f = final_post(exe, csv=csv, execinfo=ei)
    def post(s, root):
        out = f(s, root)
        d = os.path.join(root, s.dir)
        od = s.env.get("APOLLO_OUTPUT_DIR", ".apollo")
        g = lambda k, dflt: s.env.get("APOLLO_" + k, dflt)
        have = []
        for dd, ds, fs in os.walk(d):
            have += [os.path.relpath(os.path.join(dd, x), d) for x in ds]
        want = [od]
        if s.env_i("PERSISTENT_DATASETS"):
            want.append(od + "/" + g("DATASETS_DIR", "datasets"))
        if s.env_i("TRACE_CSV"):
            want.append(od + "/" + g("TRACES_DIR", "traces"))
        if s.env_i("STORE_MODELS"):
            want.append(od + "/" + g("MODELS_DIR", "models"))
        info = os.path.exists(os.path.join(d, od, "apollo_exec_info.csv"))
        out.append(dict(e="same", a=sorted(have) + [info], b=sorted(want) + [bool(s.env_i("STORE_EXEC_INFO"))], label="dirs"))
        return out
    return post
