"""Checks of stored models (C09) and of damaged files (C11)."""
import math, os, random, struct
import vlib, scn, gen
from scn import Scn, final_post, g9, f32
from gen import region, conf
from checks_core import n, T, rngs, mc, post
from checks_models import Points


def nxt(x, up):
    """the neighbouring float of x"""
    x = f32(x)
    if x == 0:
        return struct.unpack("f", struct.pack("I", 1))[0] * (1 if up else -1)
    i = struct.unpack("I", struct.pack("f", x))[0]
    i += 1 if (x > 0) == up else -1
    y = struct.unpack("f", struct.pack("I", i))[0]
    return y if math.isfinite(y) else x


def probes(rng, P, k, mdl):
    """feature vectors to compare two models on: the training points, the middles between their
    values and the neighbouring floats of both, random vectors"""
    if mdl == "PolicyNet":
        return [P.val(c) for c in P.coords[:8]] + [[float(rng.choice([0, 1, 2, 5, 1000, 2**40, rng.randrange(2**20)])) for _ in range(P.nf)] for _ in range(k // 3)]
    out = [P.val(c) for c in P.coords]
    if not P.nf:
        return out
    cols = [sorted({P.val(c)[i] for c in P.coords}) for i in range(P.nf)]
    for _ in range(k):
        v = P.val(rng.choice(P.coords))
        i = rng.randrange(P.nf)
        x = rng.random()
        col = cols[i]
        if x < .6 and len(col) > 1:
            j = rng.randrange(len(col) - 1)
            m = f32(col[j] / 2 + col[j + 1] / 2)
            v[i] = rng.choice([m, nxt(m, True), nxt(m, False)])
        elif x < .75:
            v[i] = nxt(v[i], rng.random() < .5)
        else:
            v = [gen.rnd_float(rng, rng.choice(["small", "frac", "ext"])) if rng.random() < .5 else rng.choice(cols[j]) for j in range(P.nf)]
        if all(math.isfinite(y) for y in v):
            out.append(v)
    return out


def probe(s, r, V, mdl, below=False):
    for v in V:
        if mdl == "PolicyNet":
            if below:
                s.draw(r, v, 20, zero=True)
            else:
                s.probs(r, v)
        else:
            s.q(r, v)


def model_info(rng, mdl):
    if mdl == "DecisionTree":
        return "DecisionTree,max_depth=%d,explore=%s" % (rng.choice([1, 2, 4, 30]), rng.choice(["RoundRobin", "Random"]))
    if mdl == "RandomForest":
        return "RandomForest,num_trees=%d,max_depth=%d" % (rng.choice([1, 2, 3, 10, 40, 130]), rng.choice([1, 2, 5, 30]))
    return "PolicyNet"


def points(rng, mdl, nf, np):
    if mdl == "PolicyNet":
        P = Points(rng, rng.randint(1, 6), nf, np)
        P.off, P.mul = [0] * nf, 1.0
        return P
    return Points(rng, rng.randint(1, 25), nf, np, exact=rng.random() < .5, shape=rng.choice(["rand", "rand", "axis", "diag"]))


# ------------------------------------------------------------------ C09
def c09(chk):
    exe = vlib.build("main")
    rng = rngs("c09")
    mc(chk, [dict(setup=[region("a", 0, 2, mdl="DecisionTree", min=2), region("b", 0, 2, mdl="PolicyNet")], cf=conf(store=True), kinds=("sync",), nexec=3, nops=2)])
    L = []
    for i in range(n(90, 900)):
        mdl = rng.choice(["DecisionTree", "DecisionTree", "RandomForest", "RandomForest", "PolicyNet"])
        nf, np = rng.choice([1, 1, 2, 3, 6, 12]), rng.choice([1, 2, 3, 5, 20, 70, 300])
        if mdl == "PolicyNet":
            nf, np = rng.choice([1, 2]), rng.choice([1, 2, 3, 5])
        info = model_info(rng, mdl)
        env = {"APOLLO_STORE_MODELS": "1", "APOLLO_PERSISTENT_DATASETS": rng.choice("001")}
        if rng.random() < .3:
            env["APOLLO_OUTPUT_DIR"] = "my out"
        if rng.random() < .3:
            env["APOLLO_MODELS_DIR"] = "mdls"
        below = False
        if mdl == "PolicyNet" and rng.random() < .4:
            # rewards exp(-m) with m below 1: an average between .36 and 1
            below = rng.random() < .5
            info += ",threshold=" + ("1.5" if below else "0.05")
        env2 = dict(env, APOLLO_PERSISTENT_DATASETS="0")
        rn = rng.choice(["a", "reg.1", "a b", "x" * 63, "R-%d_q" % i])
        mk = lambda name, **kw: Scn(name, dir="m%d" % i, **kw)
        s = mk("m%d" % i, env=env)
        s.create(rn, nf, np, info)
        P = points(rng, mdl, nf, np)
        P.inserts(s, rn)
        for t in range(1 if mdl != "PolicyNet" else rng.randint(1, 6)):
            s.train(rn, t)
        V = probes(rng, P, n(40, 80), mdl)
        probe(s, rn, V, mdl, below)
        latest = "%s/%s-latest-rank-0-%s.yaml" % (s.mdir(), mdl, rn)
        step = "%s/%s-step-0-rank-0-%s.yaml" % (s.mdir(), mdl, rn)
        s.store(rn, "file1")
        if mdl != "PolicyNet":
            # other data trained over it, then back from the file
            if rng.random() < .5:
                Q = points(rng, mdl, nf, np)
                Q.inserts(s, rn)
                s.train(rn, 77, True, True)
                probe(s, rn, V[:6], mdl)
                s.copy("file1", latest)
                s.load(rn, latest)
                probe(s, rn, V, mdl)
                s.store(rn, "file5")
                s.create("fifth", nf, np, mdl + ",load=file5")
                probe(s, "fifth", V, mdl)
        else:
            s.train(rn, 9)
            if not below:
                probe(s, rn, V[:4], mdl)
            s.load(rn, "file1")
            probe(s, rn, V, mdl, below)
            s.store(rn, latest)
        # same process: a second region with the file
        s.create("second", nf, np, info + ",load=file1")
        probe(s, "second", V, mdl, below)
        s.store("second", "file2")
        if mdl != "PolicyNet":
            s.create("third", nf, np, mdl + ",load=file2" if rng.random() < .5 else mdl, yaml="" if rng.random() < 0 else ("file2" if rng.random() < .7 else ""))
            if s.ops[-1][2]["lf"]:
                probe(s, "third", V, mdl)
            s.mload("f", mdl, np, "file1")
            for v in V:
                s.mq("f", v)
            s.mtrainable("f")
            s.mstore("f", "file3")
            s.mload("g", mdl, np, "file3")
            for v in rng.sample(V, min(len(V), 12)):
                s.mq("g", v)
        s.exit()
        L.append(s)
        # another process: from the latest file of the region, from the copies
        b = mk("m%db" % i, env=env2, fresh=False)
        keep = ",threshold=" + info.split("threshold=")[1] if "threshold" in info else ""
        how = rng.choice(["latest", "param", "yaml", "factory"]) if mdl != "PolicyNet" else rng.choice(["latest", "param", "yaml"])
        if how == "latest":
            b.create(rn, nf, np, mdl + keep + ",load")
        elif how == "param":
            b.create(rn, nf, np, mdl + ",load=file2" + keep)
        elif how == "yaml":
            b.create(rn, nf, np, mdl + keep, yaml="file2")
        if how == "factory":
            b.mload("f", mdl, np, "file3")
            for v in V:
                b.mq("f", v)
            b.mtrainable("f")
        else:
            probe(b, rn, V, mdl, below)
            # used at once, also through whole executions
            if mdl != "PolicyNet":
                for v in rng.sample(V, min(len(V), 8)):
                    b.exe(rn, v, metric=.25, style=rng.choice(["ctx", "vec", "c", "dep"]))
            b.store(rn, "file4")
        if keep:
            # handed on by a network without threshold
            b.create("plain", nf, np, mdl + ",load=file2")
            b.store("plain", "file6")
            b.create("again", nf, np, mdl + keep + ",load=file6")
            probe(b, "again", V, mdl, below)
        b.exit()
        L.append(b)
        if how != "factory" and rng.random() < .6:
            c = mk("m%dc" % i, env=env2, fresh=False)
            c.create("other", nf, np, mdl + keep + ",load=file4")
            probe(c, "other", V, mdl, below)
            c.exit()
            L.append(c)
    L += threshold_files(rng, n(24, 200))
    return scn.run_and_validate(chk, exe, L)


def threshold_files(rng, k):
    """networks close to their threshold after many trainings, stored and loaded again: equal
    rewards, so that the average reward is that reward however often it was trained"""
    L = []
    for i in range(k):
        beta, np = rng.choice([.5, .9, .9, .97]), rng.choice([2, 3])
        m = rng.randint(10, 90) / 64.0
        below = rng.random() < .6
        par = "beta=%s,threshold=%s" % (beta, round(math.exp(-m) * (1.06 if below else .94), 5))
        s = Scn("th%d" % i)
        s.create("a", 1, np, "PolicyNet," + par)
        V = [[float(x)] for x in rng.sample(range(64), 3)]
        for v in V:
            for p in range(np):
                s.insert("a", v, p, m)
        for t in range(rng.choice([1, 2, 4, 7, 12, 20])):
            s.train("a", t)
        probe(s, "a", V, "PolicyNet", below)
        s.store("a", "f1")
        s.create("b", 1, np, "PolicyNet," + par + ",load=f1")
        probe(s, "b", V, "PolicyNet", below)
        s.store("b", "f2")
        s.exit()
        t = Scn("th%db" % i, dir=s.dir, fresh=False)
        t.create("c", 1, np, "PolicyNet," + par, yaml="f2")
        probe(t, "c", V, "PolicyNet", below)
        if rng.random() < .5:                      # and trained on
            for v in V:
                for p in range(np):
                    t.insert("c", v, p, m)
            t.train("c", 1)
            probe(t, "c", V, "PolicyNet", below)
            t.store("c", "f3")
            t.create("d", 1, np, "PolicyNet," + par + ",load=f3")
            probe(t, "d", V, "PolicyNet", below)
        t.exit()
        L += [s, t]
    return L


# ------------------------------------------------------------------ C11
def sizes(exe, scns, files):
    """contents of the files the scenarios leave"""
    out = {}
    with vlib.Scratch("C11s") as root:
        vlib.execute(exe, [s.run() for s in scns], root)
        for s in scns:
            f = os.path.join(root, s.dir, files[s.name])
            out[s.name] = open(f, "rb").read() if os.path.exists(f) else b""
    return out


def cuts(rng, data, k, text=True):
    """prefix lengths: all when there are few, else the ends, a sample and, in a text file, the
    places before and after white space"""
    size = len(data)
    if size + 2 <= k:
        return list(range(size + 1))
    s = set(range(0, min(size, 24))) | set(range(max(0, size - k // 3), size + 1))
    if text:
        # ends of lines first, they end one element of a list
        eol, big, at = [], [], 0
        for line in data.split(b"\n")[:-1]:
            at += len(line)
            (big if line.strip() in (b"}", b",", b"},", b"]", b"],") else eol).append(at)
            at += 1
        w = [i for i in range(size) if data[i] in b" \t,:}]" and i not in eol]
        for l, m in ((big, k // 3), (eol, k // 3), (w, k // 4)):
            for i in l if len(l) <= m else rng.sample(l, m):
                s |= {i, i + 1}
    while len(s) < k:
        s.add(rng.randrange(size))
    return sorted(s)


def c11(chk):
    exe = vlib.build("main")
    rng = rngs("c11")
    mc(chk, [dict(setup=[region("a", 1, 2, mdl="DecisionTree", min=2)], cf=conf(persist=True, store=True), feats=("1",), nexec=2, nops=1)])
    S, files, todo = [], {}, []
    shapes = n(["DecisionTree", "DecisionTree", "RandomForest", "RandomForest", "PolicyNet", "data", "data"],
               ["DecisionTree"] * 10 + ["RandomForest"] * 6 + ["PolicyNet"] * 4 + ["data"] * 12)
    for i, mdl in enumerate(shapes):
        nf, np = (rng.choice([1, 2, 3]), rng.choice([2, 3, 12]))
        if mdl == "PolicyNet":
            nf, np = 1, rng.choice([1, 2])
        s = Scn("m%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1" if mdl == "data" else "0"})
        P = points(rng, "DecisionTree" if mdl == "data" else mdl, nf, np)
        if mdl == "RandomForest":                  # votes close, every tree counts
            P = Points(rng, rng.randint(8, 14), nf, np, shape="rand")
        if mdl == "data":
            P.coords = P.coords[:rng.choice([1, 2, 3, 5])]
            s.create("a", nf, np, "RoundRobin")
            P.inserts(s, "a")
            s.post = final_post(exe)
            files[s.name] = ".apollo/datasets/Dataset-a.yaml"
        else:
            info = {"DecisionTree": "DecisionTree,max_depth=3", "RandomForest": "RandomForest,num_trees=3,max_depth=2", "PolicyNet": "PolicyNet"}[mdl]
            s.create("a", nf, np, info)
            P.inserts(s, "a")
            s.train("a", 0)
            V = probes(rng, P, 24, mdl)
            probe(s, "a", V, mdl)
            s.store("a", "file")
            files[s.name] = "file"
        s.exit()
        S.append(s)
        todo.append((s, mdl, nf, np, P, None if mdl == "data" else V))
    size = sizes(exe, S, files)
    L = []
    for s, mdl, nf, np, P, V in todo:
        L.append(s)
        for k in cuts(rng, size[s.name], n(260, 100000) if mdl != "PolicyNet" else n(60, 1500), mdl != "PolicyNet"):
            whole = k >= len(size[s.name])
            hows = [rng.choice(["persist", "persist", "load", "map"] if mdl == "data" else ["load", "load", "yaml", "factory", "method"])]
            if k in (0, 1, len(size[s.name]) // 2, len(size[s.name]) - 2):        # every way of reading it
                hows = ["persist", "load", "map"] if mdl == "data" else ["load", "yaml", "factory", "method"]
            for how in hows:
                x = "%d%s" % (k, how)
                t = Scn("%s-%s" % (s.name, x), dir=s.dir, fresh=False, expect="ok" if whole else ["ok", "refused"])
                if mdl == "data":
                    r = "b" + x
                    t.raw("mkdir .apollo")
                    t.raw("mkdir .apollo/datasets")
                    t.copy(files[s.name], ".apollo/datasets/Dataset-%s.yaml" % r, k, dr="a", dq=r)
                    t.env["APOLLO_PERSISTENT_DATASETS"] = "1" if how == "persist" else "0"
                    t.create(r, nf, np, {"persist": rng.choice(["Static", "RoundRobin", "DecisionTree"]), "load": rng.choice(["DecisionTree", "PolicyNet"]) + ",load-dataset",
                                         "map": "DatasetMap"}[how])
                    t.best(r)
                    if how == "map":
                        for c in P.coords:
                            t.q(r, P.val(c))
                else:
                    t.copy("file", "cut" + x, k)
                    if how == "factory" and mdl != "PolicyNet":
                        t.mload("f", mdl, np, "cut" + x)
                        for v in V:
                            t.mq("f", v)
                    else:
                        t.create("b", nf, np, mdl + (",load=cut" + x if how == "load" else ""), yaml="cut" + x if how == "yaml" else "")
                        if not t.ops[-1][2]["lf"]:
                            t.load("b", "cut" + x)
                        probe(t, "b", V, mdl)
                t.exit()
                L.append(t)
    # requested files that are not there
    i = 0
    for mdl in ("DecisionTree", "RandomForest", "PolicyNet"):
        for how in ("load=nofile", "load", "load=dir", "load-dataset", "yaml"):
            t = Scn("x%d" % i, expect="refused")
            i += 1
            if how == "load=dir":
                t.raw("mkdir dir")
                if mdl == "PolicyNet":
                    pass
            t.create("a", 1, 3, mdl if how == "yaml" else mdl + "," + how, yaml="nofile" if how == "yaml" else "")
            t.q("a", [1.0]) if mdl != "PolicyNet" else t.draw("a", [1.0], 3)
            t.exit()
            L.append(t)
        if mdl != "PolicyNet":
            t = Scn("x%d" % i, expect="refused")
            i += 1
            t.mload("f", mdl, 3, "nofile")
            t.mq("f", [1.0])
            L.append(t)
    for info, np in (("DatasetMap", 3), ("Optimal", 3), ("DatasetMap", 1), ("Optimal", 1), ("Optimal", 40)):
        t = Scn("x%d" % i, expect="refused")
        i += 1
        t.create("a", 1, np, info)
        t.q("a", [1.0])
        t.exit()
        L.append(t)
    return scn.run_and_validate(chk, exe, L)
