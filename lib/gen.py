"""Behaviours of the specification: model checking runs of Apollo.tla, generation of
histories with TLC, their replay as driver scripts, and wide random histories."""
import json, os, random, re, zlib
import vlib, scn
from scn import Scn


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def region(r, nf=1, np=2, min=0, mdl="RoundRobin", par=0, exp="RoundRobin"):
    return dict(r=r, nf=nf, np=np, min=min, mdl=mdl, par=par, exp=exp)


def conf(persist=False, gper=0, rper=0, store=False, single=False):
    return dict(persist=persist, gper=gper, rper=rper, store=store, single=single)


INVS = "PolicyInRange ExactlyOnce PendConsistent DataIsFold AvgBounded BestMeasured Counts Frozen MinReached GlobalPeriod SingleSame Values"
PROPS = "OnlyExplicit Isolated"


def _module(setup, cf):
    return "---- MODULE MC ----\nEXTENDS Apollo\nMCSetup == %s\nMCConf == %s\n====\n" % (tla(setup), tla(cf))


def _cfg(kinds, feats, metrics, nexec, nops, atomic, early, gen):
    return ("CONSTANTS\n Setup <- MCSetup\n Conf <- MCConf\n Kinds = %s\n FeatVals = %s\n Metrics = %s\n MaxExec = %d\n MaxOps = %d\n"
            " Atomic = %s\n Early = %s\n Gen = %s\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
            % (tla(set(kinds)), tla(set(feats)), tla(set(metrics)), nexec, nops, tla(atomic), tla(early), tla(gen)))


def model_check(chk, root, setup, cf, kinds=("sync", "async"), feats=("1",), metrics=(64,), nexec=3, nops=1, atomic=True, early=True,
                workers=4, timeout=700, invs=INVS, props=PROPS, tag="mc"):
    """exhaustive check of the properties of Apollo.tla for small constants"""
    w = os.path.join(root, tag)
    rc, o = vlib.tlc("MC", _cfg(kinds, feats, metrics, nexec, nops, atomic, early, False) + "VIEW View\nINVARIANTS %s\nPROPERTIES %s\n" % (invs, props),
                     w, files={"MC.tla": _module(setup, cf)}, workers=workers, mem="6g", timeout=timeout)
    if "Model checking completed. No error has been found" not in o:
        raise vlib.ToolError("the specification itself violates a property:\n" + o[-4000:])
    g, d = vlib.tlc_stats(o)
    chk.add_mc(g, d)
    chk.count("model_configs")
    return g, d


def histories(chk, root, setup, cf, kinds=("sync", "async"), feats=("1",), nexec=3, nops=1, atomic=True, early=True,
              simulate=0, depth=200, seed=None, tag="gen", timeout=600, cap=None):
    """complete behaviours of the specification, all of them (simulate=0) or random ones"""
    w = os.path.join(root, tag)
    cfg = _cfg(kinds, feats, (64,), nexec, nops, atomic, early, True) + "INVARIANTS PrintHist %s\n" % INVS
    extra = []
    if simulate:
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed or vlib.SEED)]
    rc, o = vlib.tlc("MC", cfg, w, extra=extra, files={"MC.tla": _module(setup, cf)}, workers=1, mem="4g", timeout=timeout)
    if "Error:" in o:
        raise vlib.ToolError("generation failed:\n" + o[-3000:])
    hs = []
    for m in re.findall(r'^"?HIST (.*?)"?$', o, re.M):
        t = m.replace('\\"', '"').replace("\\\\", "\\")
        hs.append(json.loads(t))
    seen, out = set(), []
    for h in hs:
        k = json.dumps(h, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(h)
    g, d = vlib.tlc_stats(o)
    chk.add_mc(g, d)
    chk.count("behaviours_generated", len(out))
    if not out:
        raise vlib.ToolError("no behaviours generated:\n" + o[-2000:])
    if cap and len(out) > cap:
        out = random.Random(vlib.SEED).sample(out, cap)
    return out


def env_of(cf):
    e = {}
    for k, v in (("persist", "PERSISTENT_DATASETS"), ("gper", "GLOBAL_TRAIN_PERIOD"), ("rper", "PER_REGION_TRAIN_PERIOD"),
                 ("store", "STORE_MODELS")):
        if cf[k]:
            e["APOLLO_" + v] = str(int(cf[k]))
    if cf["single"]:
        e["APOLLO_SINGLE_MODEL"] = "1"
        e["APOLLO_REGION_MODEL"] = "0"
    return e


def info_of(d):
    if d["mdl"] == "Static":
        return "Static,policy=%d" % d["par"]
    if d["mdl"] in ("DecisionTree", "RandomForest"):
        return "%s,max_depth=4,explore=%s" % (d["mdl"], d["exp"]) + (",num_trees=3" if d["mdl"] == "RandomForest" else "")
    return d["mdl"]


NS = 1953125          # 2^-9 s: exact in units of 2^-20 s


def replay(h, name, setup, cf, rng, env=None, track=False, styles=True, values=None, featmap=None, queries=0, **kw):
    """driver script of a generated behaviour. The behaviour fixes the calls and their
    order; measured values are drawn here, all different, so that a mix-up shows."""
    e = env_of(cf)
    e.update(env or {})
    s = Scn(name, env=e, track=track, **kw)
    s.clock(mono=rng.choice([10**15, 7, 3 * 10**17 + 123456789]), real=rng.choice([17 * 10**17, 10**12]))
    order = list(setup)
    rng.shuffle(order)
    for d in order:
        s.create(d["r"], d["nf"], d["np"], info_of(d), min=d["min"], api=rng.choice(["cpp", "c"]) if styles else "cpp")
    nf = {d["r"]: d["nf"] for d in setup}
    # features of each execution, spans and begins per region, for the choice of calling style
    fe, span, reg = {}, {}, {}
    for i, a in enumerate(h):
        if a["o"] in ("begin", "launch"):
            fe[a["c"]] = list(a.get("f", []))
            span[a["c"]] = [i, len(h)]
            reg[a["c"]] = a["r"]
        elif a["o"] == "feat":
            fe[a["c"]].append(a["v"])
        elif a["o"] in ("end", "endm"):
            span[a["c"]][1] = i
    def alone(c):
        b, e2 = span[c]
        return not any(x != c and reg[x] == reg[c] and b < span[x][0] < e2 for x in span)
    used = set()
    def value():
        while True:
            v = rng.randint(1, 400)
            if v not in used or len(used) > 300:
                used.add(v)
                return v
    fm = featmap or {}
    val = lambda v: fm.setdefault(v, float(v))
    sty = {}
    drain = []
    for a in h:
        o = a["o"]
        if o in ("begin", "launch"):
            c = a["c"]
            if a["k"] == "sync":
                st = ["ctx", "tk", "vec"] + (["dep", "c"] if alone(c) else []) if styles else ["ctx"]
                st = rng.choice(st)
            else:
                st = rng.choice(["cuda", "hip"] + (["cudadep", "hipdep"] if alone(c) and styles else []))
            sty[c] = st
            fs = [val(v) for v in fe[c]]
            s.begin(a["r"], c, st, feats=fs, ms=value() * 1000.0 / 512)
            if o == "launch":
                if st != "vec":
                    for v in fs:
                        s.feat(c, v)
                s.pol(c)
        elif o == "feat":
            if sty[a["c"]] != "vec":
                s.feat(a["c"], val(a["v"]))
        elif o == "pol":
            s.pol(a["c"])
        elif o == "end":
            s.adv(value() * NS)
            if rng.random() < .3:
                s.jump(rng.choice([-1, 1]) * rng.randint(1, 10**13))
            s.end(a["c"])
        elif o == "endm":
            s.adv(value() * NS)
            s.endm(a["c"], value() / 512.0)
        elif o == "done":
            s.done(a["c"])
        elif o == "train":
            s.train(a["r"], a["s"], a["c"], a["f"], api="c" if styles and a["c"] and not a["f"] and rng.random() < .5 else "cpp")
        elif o == "traina":
            s.traina(a["s"], a["c"], flush=a["c"] and rng.random() < .3)
        elif o == "collect":
            s.collect(a["r"])
        elif o == "exit":
            pend = [c for c in sty if sty[c].startswith(("cuda", "hip"))]
            rng.shuffle(pend)
            s.exit(pend, rng.choice([1, 2, 3]))
        for _ in range(queries if rng.random() < .2 else 0):
            d = rng.choice(setup)
            s.q(d["r"], [val(rng.choice(["1", "2"])) for _ in range(d["nf"])])
    return s


# ------------------------------------------------------------------ wide random histories
def rnd_float(rng, how):
    if how == "small":
        return float(rng.randint(0, 3))
    if how == "int":
        return float(rng.randint(-1000, 1000))
    if how == "frac":
        return scn.f32(rng.choice([.1, .25, 1e-3, 3.14159274, 1 / 3, 16777216.0, 16777217.0, -0.5]) * rng.randint(1, 9))
    if how == "cut":                   # fractions around whole numbers
        return scn.f32(rng.choice([-1, 1]) * (rng.randint(0, 3) + rng.choice([.5, .25, .875, .9375, 1e-6])))
    if how == "dec":                   # as printed with six digits
        return scn.f32(float("%se%d" % (rng.choice([1, 5, 123, 999999, 123456, rng.randint(-999999, 999999)]), rng.randint(-30, 30))))
    if rng.random() < .12:             # the ends of the range, subnormal numbers
        return rng.choice([-1, 1]) * scn.f32(rng.choice([1e-45, 1e-40, 5.8774717e-39, 1.17549435e-38, 3.40282346e38, 3e38, rng.uniform(1, 99) * 1e-42]))
    return scn.f32(rng.choice([-1, 1]) * rng.uniform(1, 2) * 2.0 ** rng.randint(-120, 120))


LONG = "L" + "ong_region_name_with-many.chars" * 2      # 63 characters or more


class Wide:
    """random API histories over many regions, features and policies"""

    def __init__(self, name, seed, nreg=3, maxnf=4, maxnp=6, models=None, steps=120, persist=None, gper=0, rper=0, store=False, csv=False,
                 single=False, mins=(0, 0, 3, 8), asyncs=True, scale=20, nvec=4, hows=("small", "small", "int", "frac", "ext"), maxopen=6,
                 trains=True, queries=True, track=False, env=None, sync_metric=True, outdir=None, execinfo=False, dirname=None, fresh=True, regions=None,
                 names=None, maxval=400):
        self.rng = rng = random.Random(seed * 1000003 + zlib.crc32(name.encode()))
        self.maxval = maxval
        e = dict(env or {})
        if persist is None:
            persist = rng.random() < .5
        e.update(env_of(conf(persist, gper, rper, store, single)))
        if csv:
            e["APOLLO_TRACE_CSV"] = "1"
        if execinfo:
            e["APOLLO_STORE_EXEC_INFO"] = "1"
        if outdir:
            e["APOLLO_OUTPUT_DIR"] = outdir
        s = self.s = Scn(name, env=e, scale=scale, track=track, dir=dirname, fresh=fresh)
        s.clock(mono=rng.choice([10**15, 0, 999999999, 3 * 10**17 + 1]), real=rng.choice([17 * 10**17, 10**12]))
        self.regs = regions or []
        if not regions:
            for i in range(nreg):
                mdl = rng.choice(models or ["RoundRobin", "Random", "Static", "DecisionTree", "RandomForest", "PolicyNet"])
                nf = rng.randint(0, maxnf)
                np = rng.randint(1, maxnp)
                if mdl == "PolicyNet":
                    nf, np = max(1, min(nf, 3)), min(np, 6)
                how = rng.choice([h for h in hows if mdl != "PolicyNet" or h in ("small", "int")] or ["small"])
                vecs = [[abs(rnd_float(rng, how)) if mdl == "PolicyNet" else rnd_float(rng, how) for _ in range(nf)] for _ in range(nvec)]
                exp = rng.choice(["RoundRobin", "Random"])
                if mdl in ("DecisionTree", "RandomForest"):
                    info = mdl + rng.choice(["", ",max_depth=1", ",max_depth=3", ",max_depth=8"])
                    if mdl == "RandomForest":
                        info += rng.choice(["", ",num_trees=1", ",num_trees=4"])
                    if exp != "RoundRobin" or rng.random() < .5:
                        info += ",explore=" + exp
                elif mdl == "Static":
                    info = "Static,policy=%d" % rng.randint(0, np + 1)
                else:
                    info = mdl
                rn = (names[i] if names else rng.choice(["r%d" % i, "region.%d" % i, "R-%d_x" % i, (LONG + str(i))[-63:]]))
                self.regs.append(dict(r=rn, nf=nf, np=np, info=info, min=rng.choice(mins) if mdl in ("DecisionTree", "RandomForest") else 0, vecs=vecs, mdl=mdl))
        self.pol_asked = set()
        self.created, self.sync_open, self.opened, self.pend = [], {}, {}, []
        self.late = len(self.regs) > 2 and rng.random() < .5
        for d in self.regs[: (-1 if self.late else None)]:
            self.mk(d)
        self.body(steps, asyncs, maxopen, trains and not single, queries, sync_metric, trains)

    def mk(self, d):
        self.s.create(d["r"], d["nf"], d["np"], d["info"], min=d["min"], api="cpp" if d.get("kw") else self.rng.choice(["cpp", "cpp", "c"]), **d.get("kw", {}))
        if d.get("after"):
            self.s.load(d["r"], d["after"])
        self.created.append(d)

    def value(self):
        return self.rng.randint(1, self.maxval)

    def body(self, steps, asyncs, maxopen, trains, queries, sync_metric, trainall):
        rng, s = self.rng, self.s
        for i in range(steps):
            if self.late and i == steps // 2:
                self.mk(self.regs[-1])
            x = rng.random()
            if x < .38 or (not self.opened and x < .8):
                d = rng.choice(self.created)
                a = asyncs and rng.random() < .45
                if not a and d["r"] in self.sync_open:
                    continue
                if len(self.opened) >= maxopen:
                    continue
                v = rng.choice(d["vecs"])
                if a:
                    st = rng.choice(["cuda", "hip"])
                else:
                    st = rng.choice(["ctx", "tk", "vec"] if d["r"] in {o["d"]["r"] for o in self.opened.values()} else ["ctx", "tk", "vec", "dep", "c"])
                # context-free calls need the region's last begun execution: no other begin until its end
                if any(o["d"]["r"] == d["r"] and o["st"] in ("dep", "c") for o in self.opened.values()):
                    continue
                c = s.begin(d["r"], style=st, feats=v, ms=self.value() * 1000.0 / 512)
                self.opened[c] = dict(d=d, st=st, todo=[] if st == "vec" else list(v), pol=False)
                if not a:
                    self.sync_open[d["r"]] = c
                if rng.random() < .5:
                    self.finish_setup(c)
            elif x < .5 and self.opened:
                c = rng.choice(list(self.opened))
                o = self.opened[c]
                if o["todo"]:
                    s.feat(c, o["todo"].pop(0))
                elif not o["pol"] or rng.random() < .15:
                    s.pol(c)
                    o["pol"] = True
            elif x < .78 and self.opened:
                c = rng.choice(list(self.opened))
                self.close(c, sync_metric)
            elif x < .9 and self.pend:
                k = rng.randint(1, max(1, len(self.pend) // 2 + 1))
                for c in rng.sample(self.pend, min(k, len(self.pend))):
                    s.done(c)
                    self.pend.remove(c)
            elif x < .93:
                s.collect(rng.choice(self.created)["r"])
            elif x < .945 and trains:
                d = rng.choice(self.created)
                s.train(d["r"], rng.choice([0, 1, rng.randint(0, 99), 10**6]), rng.random() < .7, rng.random() < .2 and d["mdl"] in ("DecisionTree", "RandomForest", "PolicyNet"), api=rng.choice(["cpp", "c"]))
            elif x < .955 and trainall:
                s.traina(rng.choice([0, 0, 1, rng.randint(0, 99), 10**6]), rng.choice([None, True, False]), flush=rng.random() < .3)
            elif queries:
                d = rng.choice(self.created)
                if rng.random() < .3:
                    s.best(d["r"])
                else:
                    s.q(d["r"], rng.choice(d["vecs"]))
        for c in list(self.opened):
            self.close(c, sync_metric)
        for d in self.created:
            s.best(d["r"])
        p = list(self.pend)
        rng.shuffle(p)
        s.exit(p, rng.choice([1, 2, 5]))

    def finish_setup(self, c):
        o = self.opened[c]
        while o["todo"]:
            self.s.feat(c, o["todo"].pop(0))
        if not o["pol"]:
            self.s.pol(c)
            o["pol"] = True

    def close(self, c, sync_metric):
        rng, s = self.rng, self.s
        self.finish_setup(c)
        o = self.opened.pop(c)
        self.sync_open = {r: k for r, k in self.sync_open.items() if k != c}
        if rng.random() < .8:
            s.adv(self.value() * NS)
        if rng.random() < .15:
            s.jump(rng.choice([-1, 1]) * rng.randint(1, 10**13))
        if sync_metric and rng.random() < .25:
            s.endm(c, rng.choice([1, 1, 1, 1, 1, 1, 1, 1, 1, 0, -1]) * self.value() / 512.0)
        else:
            s.end(c)
            if o["st"] in ("cuda", "hip"):
                self.pend.append(c)
