"""PolicyNet (C18): distributions, their cache, sampling, learning, threshold."""
import math, os, random
import vlib, scn, gen
from scn import Scn, g9, f32
from checks_core import n, T, rngs
from checks_config import net_runs, threshold_runs, pnet_event


def net_mc(chk):
    with vlib.Scratch("C18mc") as root:
        for i, (beta, thr) in enumerate([(500, 4000), (900, 2500)] + ([(100, 6000), (750, 5000)] if T else [])):
            cfg = ("CONSTANTS Beta = %d Thr = %d Rewards = {500, 9000} Feats = {\"f\", \"g\"} MaxTrain = %d MaxOps = %d\nSPECIFICATION Spec\n"
                   "INVARIANTS Current Quiet Frozen Between\nCHECK_DEADLOCK FALSE\n" % (beta, thr, n(3, 5), n(6, 8)))
            rc, o = vlib.tlc("PolicyNetMC", cfg, os.path.join(root, "m%d" % i), workers=6, timeout=2000)
            if "No error has been found" not in o:
                raise vlib.ToolError("PolicyNetMC:\n" + o[-3000:])
            chk.add_mc(*vlib.tlc_stats(o))
            chk.count("model_configs")


def tol(k):
    return int(7 * math.sqrt(k / 4.0)) + k // 5000 + 2


def natural(rng):
    return float(rng.choice([0, 1, 2, 3, 5, 100, 4097, 2**20 + 1, 2**31, 2**40, 2**62, rng.randrange(2**20), rng.randrange(2**24)]))


def dist_runs(rng, k):
    """distributions, cached and fresh, drawn from, through training, retraining and loading"""
    L = []
    for i in range(k):
        nf, np = rng.choice([1, 1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 5, 12, 13, 40])
        lr = rng.choice(["", "", ",lr=0.1", ",lr=1", ",lr=50", ",lr=0.001"])
        s = Scn("d%d" % i, env={"APOLLO_PERSISTENT_DATASETS": rng.choice("01")}, timeout=120)
        info = "PolicyNet" + lr
        s.create("a", nf, np, info)
        s.create("b", nf, np, info)
        V = []
        while len(V) < 5:
            if V and rng.random() < .6:      # one component changed, or components swapped
                v = list(rng.choice(V))
                j = rng.randrange(nf)
                v[j] = rng.choice([v[j] * 2 if v[j] < 2**61 else 1.0, v[j] + 1, natural(rng)])
                if rng.random() < .3:
                    v.reverse()
            else:
                v = [natural(rng) for _ in range(nf)]
            v = [f32(x) for x in v]
            if v not in V:
                V.append(v)
        kd = 3000
        tags = [0]
        def look(r, sub=None):
            for v in rng.sample(V, len(V)):
                tags[0] += 1
                s.probs(r, v, tag=tags[0])
                if sub is None or rng.random() < sub:
                    s.draw(r, v, kd, pr=tags[0], tol=tol(kd))
                    tags[0] += 1
                    s.probs(r, v, tag=tags[0])
            for v in V:
                s.probs(r, v)
        look("a")
        step = 0
        for t in range(rng.randint(2, 5)):
            x = rng.random()
            if x < .25:
                # a single observation at a time, its value changing
                v, p = rng.choice(V), rng.randrange(np)
                for m in rng.sample([.01, .25, .5, 1.0, 2.0], rng.randint(1, 3)):
                    s.raw("clear a", dict(e="clear", r="a"), True)
                    s.insert("a", v, p, m)
                    step += 1
                    s.train("a", step)
                    if rng.random() < .5:
                        look("a", .2)
            elif x < .6:
                for _ in range(rng.choice([1, 2, 7, 20])):
                    s.insert("a", rng.choice(V), rng.randrange(np), rng.choice([rng.uniform(.001, 2), rng.uniform(1e-5, 1e-3), rng.uniform(5, 800)]))
                step += 1
                s.train("a", step)
            elif x < .8:
                for _ in range(rng.randint(1, 3)):
                    s.exe("a", rng.choice(V), metric=rng.uniform(.01, 1))
                step += 1
                s.traina(step)
            else:
                s.store("a", "m%d" % t)
                look("b", .2)
                s.load("b", "m%d" % t)
                look("b", .5)
                continue
            look("a", .5)
            if t and rng.random() < .3:
                s.store("a", "x%d" % t)
                s.load("a", "x%d" % t)
                look("a", .3)
        s.exit()
        L.append(s)
    return L


def learn_runs(rng, k, steps=None, prefix="l"):
    """repeated training on data whose feature vectors have the same average time"""
    L = []
    for i in range(k):
        kind = rng.choice(["one", "one", "bits", "swap", "exec"])
        np = rng.choice([2, 2, 3, 4] + ([7, 16, 40] if kind in ("one", "exec") else [])) if kind != "swap" else 2
        nf = rng.choice([1, 2])
        K = steps or rng.choice([4, 10, 30])
        mag = rng.choice([1.0, 1.0, .01, .001])
        s = Scn("%s%d" % (prefix, i), timeout=200)
        s.create("a", nf, np, "PolicyNet")
        if kind in ("one", "exec"):
            V = [[natural(rng) for _ in range(nf)]]
        elif kind == "bits":          # as many vectors as policies, each with one bit of its own
            bs = rng.sample([0, 1, 2, 5, 11, 23, 24, 31, 40, 52, 62], np)
            j = rng.randrange(nf)
            V = [[float(2**b) if x == j else 0.0 for x in range(nf)] for b in bs]
        else:                         # components exchanged
            nf = 2
            s.ops.pop()
            s.create("a", nf, np, "PolicyNet")
            V = [[4.0, 32.0], [32.0, 4.0]]
        fast = rng.sample(range(np), rng.choice([1, 1, np - 1]))
        lo, hi = .2 * mag, 1.2 * mag
        rows = []
        for j, v in enumerate(V):
            fs = [(p + j) % np for p in fast]
            for p in range(np):
                rows.append((v, p, lo if p in fs else hi))
        for j, v in enumerate(V):
            s.probs("a", v, tag=("a", j))
        rng.shuffle(rows)
        for v, p, m in rows:
            s.insert("a", v, p, m)
        for t in range(K):
            if kind == "exec":
                x = rng.random()
                if x < .4:
                    s.traina(t)
                elif x < .7:
                    s.train("a", t, False, True)
                else:
                    s.train("a", t, api="c")
            else:
                s.train("a", t)
        for j, v in enumerate(V):
            s.probs("a", v, tag=("b", j))
        def ev(s, V=V, kind=kind):
            out = []
            for j, v in enumerate(V):
                a, b = s.seen.get(("a", j)), s.seen.get(("b", j))
                if not a or not b or a["via"] != "cache" or b["via"] != "cache":
                    return None
                out.append(dict(k=[g9(x) for x in v], a=a["pr"], b=b["pr"]))
            # several vectors with one network: judged together
            return [dict(e="learns", r="a", v=out)] if kind == "bits" else [dict(e="learns", r="a", v=[x]) for x in out]
        s.mark(ev)
        s.kind = kind
        s.exit()
        L.append(s)
    return L


def frozen_runs(rng, k):
    """training below and above the threshold: weights seen through a stored copy loaded into a
    network without threshold"""
    L = []
    for i in range(k):
        beta = rng.choice([.5, .5, .1, .9, .75])
        np, nf = rng.choice([2, 3]), rng.choice([1, 2])
        V = [[natural(rng) for _ in range(nf)] for _ in range(2)]
        if rng.random() < .4:         # larger batches
            V += [[float(x + 7) for _ in range(nf)] for x in range(rng.choice([3, 8, 30]))]
        nb = rng.randint(2, 5)
        batches, rows, avg, base = [], [], 0.0, []
        for b in range(nb):
            lo, hi = rng.choice([(1, 40), (40, 160), (1, 160), (150, 300)])
            rs = [(v, p, rng.randint(lo, hi) / 64.0) for v in V[:rng.choice([1, 2, len(V)])] for p in range(np)]
            rs = list({(tuple(x[0]), x[1]): x for x in rs}.values())
            if len({m for _, _, m in rs}) < 2:
                rs[0] = (rs[0][0], rs[0][1], rs[0][2] + .25)
            rows.append(rs)
            ms = [m for _, _, m in rs]
            batches.append([math.exp(-m) for m in ms])
            avg = beta * avg + (1 - beta) * sum(batches[-1]) / len(ms)
            base.append(avg / (1 - beta ** (b + 1)))
        thr = round(rng.choice(base) * rng.choice([.97, 1.03, .9, 1.1]), 4)
        if any(abs(b - thr) < .004 for b in base) or thr <= .01:
            continue
        s = Scn("z%d" % i)
        s.create("a", nf, np, "PolicyNet,threshold=%s,beta=%s" % (thr, beta))
        s.create("w", nf, np, "PolicyNet")
        s.mark(pnet_event(s, "a", beta, thr, []))
        s.store("a", "w0")
        s.load("w", "w0")
        s.probs("w", V[0], tag=0)
        for j in range(nb):
            s.raw("clear a", dict(e="clear", r="a"), True)
            for v, p, m in rows[j]:
                s.insert("a", v, p, m)
            s.mark(pnet_event(s, "a", beta, thr, batches[:j + 1]))
            s.train("a", j)
            s.draw("a", V[0], 400)
            s.store("a", "w%d" % (j + 1))
            s.load("w", "w%d" % (j + 1))
            s.probs("w", V[0], tag=j + 1)
            if base[j] > thr:
                def ev(s, j=j):
                    a, b = s.seen.get(j), s.seen.get(j + 1)
                    if not a or not b or a["via"] != "cache":
                        return None
                    return dict(e="differ", a=a["hx"], b=b["hx"], label="learns")
                s.mark(ev)
        s.exit()
        L.append(s)
    return L


# ------------------------------------------------------------------ C18
def c18(chk):
    exe = vlib.build("main")
    net_mc(chk)
    rng = rngs("c18")
    L = dist_runs(rng, n(50, 400))
    L += learn_runs(rng, n(60, 500))
    L += frozen_runs(rng, n(40, 400))
    L += threshold_runs(rng, n(30, 300))
    L += net_runs(rng, n(2, 20))
    m = scn.run_and_validate(chk, exe, L)
    chk.count("distributions", sum(e["e"] == "probs" for s in L for e in s.tr))
    chk.count("learning_comparisons", sum(e["e"] == "learns" for s in L for e in s.tr))
    return m
