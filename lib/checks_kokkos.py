"""C16, C17: the Kokkos connector, decided by Kokkos.tla (design: KokkosMC) and its part of
ApolloTrace.tla (conformance)."""
import json, os, random, re
import vlib, scn, gen
from scn import Scn, final_post, key
from gen import tla, NS
from checks_core import n, rngs, T


class Var:
    """a declared variable: its declaration, its record in the specification, and the
    conversion of the connector's values to the specification's integers"""

    def __init__(self, id, name, t, q="unb", vals=(), lo=0, hi=0, st=0, ol=False, ou=False, base=0, unit=1, exact=True):
        self.id, self.name, self.t, self.q, self.vals = id, name, t, q, list(vals)
        self.lo, self.hi, self.st, self.ol, self.ou, self.base, self.unit, self.exact = lo, hi, st, ol, ou, base, unit, exact

    def decl(self, role):
        a = "kdecl %s %d %s %s %s" % (role, self.id, vlib.esc(self.name), self.t, self.q)
        if self.q == "set":
            a += " " + ";".join(vlib.esc(v) if self.t == "s" else repr(v) for v in self.vals)
        elif self.q == "range":
            a += " %r %r %r %d %d" % (self.lo, self.hi, self.st, self.ol, self.ou)
        return a

    def u(self, x):
        v = (x - self.base) / self.unit if self.t == "d" else (x - self.base)
        return v

    def rec(self):
        if self.q == "set":
            return dict(q="set", t=self.t, vals=list(range(1, len(self.vals) + 1)))
        f = lambda x: int(round(self.u(x)))
        st = 0 if self.st == 0 else int(round(self.st / self.unit)) if self.t == "d" else self.st
        return dict(q="range", t=self.t, lo=f(self.lo), hi=f(self.hi), st=st, ol=self.ol, ou=self.ou)

    def num(self):
        r = self.rec()
        if r["q"] == "set":
            return len(r["vals"])
        if r["st"] == 0:
            return 100
        first = r["lo"] + ((1 if self.t == "i" else r["st"]) if r["ol"] else 0)
        last = r["hi"] - (1 if r["ou"] else 0)
        return (last - first) // r["st"] + 1

    def conv(self, text):
        """(integer of the specification, representable?)"""
        try:
            if self.q == "set":
                v = text if self.t == "s" else int(text) if self.t == "i" else float(text)
                return (self.vals.index(v) + 1, True) if v in self.vals else (0, False)
            v = int(text) if self.t == "i" else float(text)
            w = self.u(v)
            if self.t == "d" and self.st == 0:
                return (int(w), True) if abs(w) < 2e9 else (0, False)
            k = int(round(w))
            if abs(k) > 2 * 10**9:
                return 0, False
            return k, (w == k if self.exact else abs(w - k) < 1e-6)
        except (ValueError, OverflowError):
            return 0, False


def rnd_name(rng, used, long=False):
    while True:
        m = rng.choice(["kokkos.kernel_name", "team_size", "x", "tile", "kokkos.kernel_type", "a.b", "block", "num-threads", "unroll"]) + rng.choice(["", "1", "_q", ".z"]) + str(rng.randint(0, 99))
        if long and rng.random() < .5:
            m += "L" * rng.randint(20, 70)
        if m not in used:
            used.add(m)
            return m


def rnd_out(rng, id, name, cap):
    """a tuning variable with at most cap candidates"""
    for _ in range(50):
        k = rng.random()
        if k < .35:
            t = rng.choice("ids")
            m = rng.randint(1, min(cap, 9)) if cap < 100 or rng.random() < .7 else rng.randint(60, min(cap, 140))
            vals = []
            while len(vals) < m:
                v = {"i": lambda: rng.choice([rng.randint(-5, 50), rng.randint(-2**40, 2**40)]), "d": lambda: rng.choice([rng.randint(-8, 8) / 4.0, rng.uniform(-1, 1)]),
                     "s": lambda: "".join(rng.choice("abcxyz_./") for _ in range(rng.choice([1, 3, 12, 63] if m < 9 else [5, 12, 63])))}[t]()
                if v not in vals:
                    vals.append(v)
            v = Var(id, name, t, "set", vals)
        elif k < .7:
            lo = rng.choice([0, 1, -7, rng.randint(-100, 100), 2**33])
            st = rng.choice([1, 1, 2, 3, 16, 4096, 10**6])
            hi = lo + rng.randint(0, 12) * st + rng.randint(0, st)
            v = Var(id, name, "i", "range", lo=lo, hi=hi, st=st, ol=rng.random() < .4, ou=rng.random() < .4, base=lo if lo > 1000 else 0)
            if rng.random() < .15 and cap > 20:
                v = Var(id, name, "i", "range", lo=lo, hi=lo + rng.randint(20, cap - 1), st=1, ol=rng.random() < .4, ou=rng.random() < .4, base=lo if lo > 1000 else 0)
        elif k < .85:
            st = rng.choice([.5, .25, 1.0, .0625, 2.0])
            lo = rng.randint(-64, 64) / 16.0
            hi = lo + rng.randint(0, 10) * st + rng.choice([0, st / 2, 0])
            unit = 1 / 64.0
            v = Var(id, name, "d", "range", lo=lo, hi=hi, st=st, ol=rng.random() < .4, ou=rng.random() < .4, base=lo, unit=unit)
        elif k < .95:
            st = rng.choice([.1, .3, 1e-3, 1 / 3.0, 7.7])
            lo = rng.choice([0.0, .1, -1.3, 5.05])
            hi = lo + (rng.randint(0, 9) + .5) * st
            v = Var(id, name, "d", "range", lo=lo, hi=hi, st=st, ol=rng.random() < .4, ou=rng.random() < .4, base=lo, unit=st / 2, exact=False)
        else:
            if cap < 100:
                continue
            lo, w = rng.choice([0.0, -2.5, 100.0]), rng.choice([1.0, 1e-3, 1e6])
            v = Var(id, name, "d", "range", lo=lo, hi=lo + w, st=0.0, ol=rng.random() < .4, ou=rng.random() < .4, base=lo, unit=w / 1e6, exact=False)
        if 1 <= v.num() <= cap:
            return v
    return Var(id, name, "i", "set", [3, 5][:max(1, min(2, cap))])


class K(Scn):
    def __init__(self, name, vars, args=None, env=None, model=None, **kw):
        env = dict(env or {})
        if model:
            env["APOLLO_POLICY_MODEL"] = model
        Scn.__init__(self, name, env=env, **kw)
        # what the connector configures itself
        self.setup = dict(APOLLO_STORE_MODELS="1", APOLLO_TRACE_BEST_POLICIES="1")
        if args is not None:
            self.raw("kargs " + vlib.esc("tool.so " + " ".join(args)))
            for a in args:
                if a.startswith("--flush-rate="):
                    self.kflush = int(a.split("=")[1])
            model = "RandomForest,explore=RoundRobin"
        self.raw("kinit")
        self.raw("kfence")
        nm, prm = scn.parse_info(model or "Static,policy=0")
        self.mdl, self.par = nm, int(prm.get("policy", 0))
        self.vars = vars
        self.nreq = 0
        self.open = {}

    def declare(self, v, role):
        self.raw(v.decl(role))

    def cfg(self):
        c = Scn.cfg(self)
        c.update(store=True, bestp=True)
        return c

    def req(self, x, cv, tv):
        """context x: context values {Var: value}, tuning variables"""
        self.nreq += 1
        c = "k%d" % self.nreq
        pr = [str(v.id) for v, _ in cv] + ["|"] + [str(v.id) for v in tv]
        def conv(g, tv=tv):
            w = [v.conv(t) for v, t in zip(tv, g["v"])]
            self.regions += [y["r"] for y in g["new"] if y["r"] not in self.regions]
            return dict(k=key(g["k"]), w=[a for a, _ in w], ok=[b for _, b in w], new=g["new"])
        f = lambda v, a: vlib.esc(a).replace(",", "%2c").replace("=", "%3d") if v.t == "s" else repr(a)
        self.raw("kreq %s %s %s" % (x, ",".join("%d=%s" % (v.id, f(v, a)) for v, a in cv) or "-", ",".join(str(v.id) for v in tv) or "-"),
                 dict(e="kreq", x=str(x), c=c, pr=pr if tv else [], vars=[v.rec() for v in tv], mdl=self.mdl, par=self.par, conv=conv), True)

    def kend(self, x):
        self.raw("kend %s" % x, dict(e="kend", x=str(x)), True)

    def par_(self, kind, dev):
        self.raw("kpar %s %d" % (kind, dev), dict(e="kpar", dev=dev, conv=lambda g: dict(fences=g["fences"])), True)


def rnd_ctx_value(rng, v):
    if v.t == "i":
        return rng.choice(v.pool)
    return rng.choice(v.pool)


def some_ids(rng):
    """200 ids; half of the lists differ in their high bits only"""
    if rng.random() < .5:
        return rng.sample(range(1, 400), 200)
    l = [a + b for a in rng.sample(range(1, 400), 10) for b in [0, 2**8, 2**16, 2**17, 2**24, 2**31, 2**32, 2**33, 2**40, 2**48] + [k * 2**16 + 2**36 for k in range(10)]]
    l = list(dict.fromkeys(l))
    rng.shuffle(l)
    return l


def problems(rng, nprob, cap, long=False, maxctx=3, ids=None, many=False, short=False, dup=False):
    """variables and problems: (context variables, tuning variables)"""
    used = set()
    if short:
        return short_problems(rng, nprob)
    ids = ids or iter(some_ids(rng))
    ins, outs, P = [], [], []
    for _ in range(rng.randint(1, 4) if not many else rng.randint(3, 8)):
        v = Var(next(ids), rnd_name(rng, used, long), rng.choice("iids"), "unb")
        v.pool = {"i": [rng.randint(-1000, 100000) for _ in range(4)] + [rng.choice([-1, 1]) * rng.randint(2**31, 2**50)], "d": [rng.randint(-400, 400) / 8.0 for _ in range(3)], "s": ["k%d" % rng.randint(0, 9999) for _ in range(3)] + ["a,b=c"] + ["kernel<functor, range_policy, " * 2 + e for e in "xy"]}[v.t]
        ins.append(v)
    seen = set()
    for _ in range(nprob * 3):
        if len(P) >= nprob:
            break
        left, tv = cap, []
        if many and P and rng.random() < .7:        # differs from an earlier problem in one place only
            cv, tv = list(P[-1][0]), list(P[-1][1])
            v = rnd_out(rng, next(ids), rnd_name(rng, used, long), 2)
            outs.append(v)
            tv[rng.choice([-1, rng.randrange(len(tv))])] = v
            k = (tuple(v.id for v in cv), tuple(v.id for v in tv))
            if k not in seen:
                seen.add(k)
                P.append((cv, tv))
            continue
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4]) if not many else rng.randint(3, 9)):
            reuse = [o for o in outs if o.num() <= left and o not in tv]
            if reuse and rng.random() < .3:
                v = rng.choice(reuse)
            else:
                v = rnd_out(rng, next(ids), rnd_name(rng, used, long), left if not many else min(left, 2))
                outs.append(v)
            tv.append(v)
            left //= v.num()
            if dup and v.num() <= left:
                tv.append(v)                        # asked for twice in one request
                left //= v.num()
            if left < 1:
                break
        cv = rng.sample(ins, rng.randint(0, min(maxctx, len(ins))) if not many else len(ins))
        k = (tuple(v.id for v in cv), tuple(v.id for v in tv))
        nm = "_".join(v.name for v in cv + tv)
        if k not in seen and nm not in seen:
            seen.add(k)
            seen.add(nm)
            P.append((cv, tv))
    return ins, outs, P


def short_problems(rng, nprob):
    """problems of one shape whose names differ only in where one variable's name ends"""
    word = "".join(rng.choice("abc1.") for _ in range(6))
    cut = rng.sample(range(1, 6), 4)
    ids = iter(rng.sample(range(1, 400), 40))
    ins, outs, P = {}, {}, []
    for k in cut[:max(2, nprob)]:
        a, b = word[:k], word[k:]
        if a not in ins:
            ins[a] = Var(next(ids), a, "i", "unb")
            ins[a].pool = [rng.randint(-5, 5) for _ in range(3)]
        if b not in outs:
            outs[b] = Var(next(ids), b, "i", "set", rng.sample(range(50), 3))
        P.append(([ins[a]], [outs[b]]))
    return list(ins.values()), list(outs.values()), P


def declare_all(s, rng, ins, outs):
    l = [(v, "in") for v in ins] + [(v, "out") for v in outs]
    rng.shuffle(l)
    for v, r in l:
        s.declare(v, r)


# ------------------------------------------------------------------ C16
def c16(chk):
    exe = vlib.build("main")
    rng = rngs("c16")
    kmc(chk)
    L = []
    for i in range(n(260, 2600)):
        cap = rng.choice([6, 12, 40, 120] if not T else [6, 40, 120, 400])
        lim = n(150, 700)
        if i % 40 == 7:                             # many combinations, all of them
            cap = rng.choice([260, 600])
            lim = 800
        ins, outs, P = problems(rng, rng.choice([1, 1, 2]) if cap < 200 else 1, cap, many=i % 13 == 5, dup=i % 17 == 3)
        if cap > 200:
            v = rnd_out(rng, 401, "wide", 9)
            w = Var(402, "range", "i", "range", lo=5, hi=5 + cap // v.num(), st=1)
            outs = [v, w]
            P = [(P[0][0], rng.choice([[v, w], [w, v], [w]]))]
        if rng.random() < .5:
            s = K("c%d" % i, outs, args=["--flush-rate=%d" % rng.choice([10**6, 10**6, 37])])
        else:
            s = K("c%d" % i, outs, model=rng.choice(["RoundRobin", "RoundRobin", "DecisionTree,explore=RoundRobin"]))
        s.clock()
        declare_all(s, rng, ins, outs)
        x = 1
        todo = []
        for cv, tv in P:
            N = 1
            for v in tv:
                N *= v.num()
            todo += [(cv, tv)] * (N + rng.randint(0, N))
        if rng.random() < .5:
            rng.shuffle(todo)
        for cv, tv in todo[:lim]:
            s.req(x, [(v, rng.choice(v.pool)) for v in cv], tv)
            s.adv(NS)
            s.kend(x)
            x += 1
        s.exit()
        L.append(s)
    return scn.run_and_validate(chk, exe, L)


# ------------------------------------------------------------------ C17
def kmc(chk, gen_runs=False):
    """design of the connector, exhaustively for small constants"""
    with vlib.Scratch(chk.prop + "k") as root:
        v2 = dict(q="range", t="i", lo=0, hi=2, st=1, ol=False, ou=True)
        v3 = dict(q="set", t="i", vals=[5, 6, 7])
        probs = [dict(name="a", vars=[v2, v3] if chk.prop == "C16" else [v2]), dict(name="b", vars=[v3])]
        def run(tag, genr, req, idle, flush, simulate=0, vals=(1, 2)):
            cfg = ("CONSTANTS\n Probs <- MCProbs\n Vals = %s\n Flush = %d\n MaxReq = %d\n MaxIdle = %d\n Gen = %s\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
                   "INVARIANTS Offered OneToOne OncePerContext Counted TrainedAtFlush NoneLeft%s\n%s"
                   % (tla({str(v) for v in vals}), flush, req, idle, tla(genr), " PrintHist" if genr else "", "" if genr else "VIEW View\n"))
            mod = "---- MODULE KMC ----\nEXTENDS KokkosMC\nMCProbs == %s\n====\n" % tla(probs)
            extra = ["-simulate", "num=%d" % simulate, "-depth", "60", "-seed", str(vlib.SEED)] if simulate else []
            rc, o = vlib.tlc("KMC", cfg, os.path.join(root, tag), extra=extra, files={"KMC.tla": mod}, workers=1 if genr else 4, mem="4g", timeout=700)
            if "Error:" in o:
                raise vlib.ToolError("Kokkos specification:\n" + o[-3000:])
            g, d = vlib.tlc_stats(o)
            chk.add_mc(g, d)
            chk.count("model_configs")
            hs = []
            for m in re.findall(r'^"?HIST (.*?)"?$', o, re.M):
                h = json.loads(m.replace('\\"', '"').replace("\\\\", "\\"))
                if h not in hs:
                    hs.append(h)
            return hs
        if chk.prop == "C16":
            run("mc", False, n(7, 9), 0, 3, vals=(1,))
            return []
        run("mc", False, n(4, 6), 1, 2)
        hs = run("gen", True, 3, 1, 2, vals=(1,)) + run("sim", True, n(9, 14), 2, 4, simulate=n(60, 600))
        chk.count("behaviours_generated", len(hs))
        return hs


def c17(chk):
    exe = vlib.build("main")
    rng = rngs("c17")
    L = []
    hs = kmc(chk)
    rng.shuffle(hs)
    for i, h in enumerate(hs[:n(250, 2500)]):
        cva = Var(3, "ctx", "i")
        va, vb = Var(11, "va", "i", "range", lo=0, hi=2, st=1, ou=True), Var(7, "vb", "i", "set", [5, 6, 7])
        s = K("g%d" % i, [], args=["--flush-rate=%d" % (2 if len([a for a in h if a["o"] == "req"]) <= 3 else 4)], track=True, env={"APOLLO_PERSISTENT_DATASETS": "1"} if i % 4 == 0 else {})
        s.clock()
        declare_all(s, rng, [cva], [va, vb])
        for a in h:
            if a["o"] == "req":
                s.req(a["x"], [(cva, int(a["a"]))], [va] if a["i"] == 1 else [vb])
            else:
                s.adv(NS * rng.randint(1, 200))
                s.kend(a["x"])
        s.exit()
        L.append(s)
    for i in range(n(150, 1500)):
        long = rng.random() < .35
        ins, outs, P = problems(rng, rng.choice([1, 2, 3, 5]), rng.choice([2, 6, 20]), long=long, many=i % 5 == 0, short=i % 9 == 4)
        env = {}
        if rng.random() < .3:
            env["APOLLO_PERSISTENT_DATASETS"] = "1"
        csv = rng.random() < .4
        if csv:
            env["APOLLO_TRACE_CSV"] = "1"
        if rng.random() < .3:
            env["APOLLO_OUTPUT_DIR"] = rng.choice(["out", "o d"])
        if rng.random() < .3:
            env["APOLLO_MODELS_DIR"] = rng.choice(["mymodels", "models.d"])
        flush = rng.choice([1, 2, 3, 5, 7, 10, 20, 40])
        for run in range(rng.choice([1, 2, 2, 3])):
            if run and rng.random() < .5:      # ids may be others in another run, names are not
                new = iter(some_ids(rng))
                for v in ins + outs:
                    v.id = next(new)
            P = list(P)
            rng.shuffle(P)
            s = K("r%d%s" % (i, "abc"[run]), [], args=["--flush-rate=%d" % flush] + rng.choice([[], ["--trace"]]), env=env, dir="r%d" % i, fresh=run == 0, track=True)
            s.post = final_post(exe, csv=csv)
            s.clock(mono=rng.choice([10**15, 5]))
            declare_all(s, rng, ins, outs)
            history(s, rng, P, rng.randint(5, n(60, 150)))
            s.exit()
            L.append(s)
    return scn.run_and_validate(chk, exe, L)


def history(s, rng, P, steps):
    """contexts of different problems nested and overlapping in any way"""
    open_, x, free = {}, 0, []
    deep = rng.choice([1, 2, 4])
    for _ in range(steps):
        k = rng.random()
        s.adv(NS * rng.randint(0, 60))
        if k < .5:
            idle = [p for p in range(len(P)) if p not in open_.values()]
            if not idle or len(open_) >= deep:
                continue
            p = rng.choice(idle)
            cv, tv = P[p]
            x += rng.choice([1, 1, 1, 256, 65536, 2 ** 32, 2 ** 32 + 1])
            c = x if not free or rng.random() < .7 else free.pop()      # context ids may be used again
            s.req(c, [(v, rng.choice(v.pool)) for v in cv], tv)
            open_[c] = p
        elif k < .88 and open_:
            c = rng.choice(list(open_)) if rng.random() < .5 else list(open_)[-1]
            del open_[c]
            s.kend(c)
            free.append(c)
        elif k < .92:
            c = rng.choice([10**6, 0] + free)
            if c not in open_:
                s.kend(c)
        elif k < .94:
            x += 1
            s.req(x, [(v, rng.choice(v.pool)) for v in P[0][0]], [])
            s.kend(x)
        else:
            s.par_(rng.choice(["for", "scan", "reduce"]), rng.choice([0, 1, 2, 3, 255, 256, 70001, 2 ** 31 - 1]))
    if rng.random() < .7:
        for c in list(open_):
            s.adv(NS)
            s.kend(c)
