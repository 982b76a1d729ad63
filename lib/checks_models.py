"""Checks of learned models: trees (C06), forests (C07), PolicyNet (C18), stored models (C09),
damaged files (C11), single model (C14), JIT (C19)."""
import itertools, os, random, re, shutil
import vlib, scn, gen
from scn import Scn, final_post, g9, f32
from gen import Wide, region, conf, NS
from checks_core import n, T, rngs, mc, post


# ------------------------------------------------------------------ training sets
class Points:
    """A training set on a grid: integer coordinates (multiples of 4, so that the middle of two
    is even), the floats they stand for, and queries on odd coordinates."""

    def __init__(self, rng, npts, nf, np, span=None, exact=True, shape="rand", huge=False):
        self.rng, self.nf, self.np = rng, nf, np
        span = span or max(2, rng.choice([2, 3, npts, 4 * npts]))
        while span ** nf < npts:
            span += 1
        coords = set()
        while len(coords) < npts:
            coords.add(tuple(4 * rng.randrange(span) for _ in range(nf)))
        self.coords = sorted(coords)
        rng.shuffle(self.coords)
        if exact:
            self.mul = 2.0 ** rng.choice([0, 0, 0, -2, -20, -110, 10, 100])
            self.off = [rng.choice([0, 0, 0, -4 * (span // 2), -4 * rng.randrange(span), 16777216 - 8 * span]) for _ in range(nf)]
            if huge and rng.random() < .1:       # up to the largest floats
                b = (16 * span + 8).bit_length()
                self.off = [rng.choice([0, -4 * (span // 2), 2**b - 4 * span - 8, 8 - 2**b]) for _ in range(nf)]
                self.mul = 2.0 ** (128 - b)
            self.val = lambda c: [f32((x + o) * self.mul) for x, o in zip(c, self.off)]
        else:
            self.tab = []
            for _ in range(nf):
                vs = set()
                how = rng.choice(["frac", "ext", "int", "adj"])
                x = f32(rng.uniform(-3, 3))
                while len(vs) < span:
                    if how == "adj":          # neighbouring floats
                        vs.add(x)
                        x = f32(x + abs(x) * 2 ** -23 * rng.choice([1, 1, 2]))
                    elif how == "frac":
                        vs.add(f32(rng.uniform(-1, 1)))
                    else:
                        vs.add(gen.rnd_float(rng, how))
                self.tab.append(sorted(vs))
            self.val = lambda c: [self.tab[i][x // 4] for i, x in enumerate(c)]
        # best policy of each point: random, by an axis, or by a diagonal
        th = 4 * rng.randrange(span)
        f0 = rng.randrange(nf) if nf else 0
        pool = rng.sample(range(np), min(np, rng.randint(1, 4)))
        def cls(c):
            if shape == "rand" or not nf:
                return rng.choice(pool)
            if shape == "skew":           # a few odd points among many
                return pool[0] if rng.random() < .96 else rng.choice(pool)
            if shape == "last":           # only the last feature matters
                return pool[(c[-1] // 4) % len(pool)]
            if shape == "axis":
                return pool[0] if c[f0] <= th else pool[-1]
            return pool[(sum(c) // 4) % len(pool)]
        self.cls = {c: cls(c) for c in self.coords}
        self.span = span
        self.exact = exact

    def inserts(self, s, r, also=True):
        rng = self.rng
        for c in self.coords:
            ms = rng.sample(range(10, 500), 4)
            lo = min(ms)
            others = [p for p in range(self.np) if p != self.cls[c]]
            rng.shuffle(others)
            todo = [(self.cls[c], lo)] + ([(p, m) for p, m in zip(others, [m for m in ms if m != lo])] if also else [])
            rng.shuffle(todo)
            for p, m in todo:
                s.insert(r, self.val(c), p, m / 512.0)

    def queries(self, k):
        q = list(self.coords)
        if self.exact and self.nf:
            for _ in range(k):
                q.append(tuple(self.rng.choice([4 * self.rng.randrange(self.span), 2 * self.rng.randrange(-3, 2 * self.span + 4) + 1]) for _ in range(self.nf)))
            for _ in range(k // 2):       # close to a training point
                c = list(self.rng.choice(self.coords))
                i = self.rng.randrange(self.nf)
                c[i] += self.rng.choice([-1, 1, -3, 3])
                q.append(tuple(c))
            for _ in range(k):            # on either side of the middle of two adjacent values
                c = list(self.rng.choice(self.coords))
                i = self.rng.randrange(self.nf)
                vs = sorted({p[i] for p in self.coords})
                if len(vs) > 1:
                    j = self.rng.randrange(len(vs) - 1)
                    c[i] = (vs[j] + vs[j + 1]) // 2 + self.rng.choice([-1, 1])
                    q.append(tuple(c))
            # the middle between two values is avoided: its side is a matter of rounding
            q = [c for c in q if not any(x % 4 == 0 and x not in {p[i] for p in self.coords} for i, x in enumerate(c))]
        return q

    def pts(self):
        return [dict(k=[g9(v) for v in self.val(c)], x=list(c)) for c in self.coords]


    def search(self, depth, cap=60000, d=None):
        """work needed to try every tree that ties allow; more than cap: give up"""
        d = d or [(c, self.cls[c]) for c in self.coords]
        left = [cap]
        def best(pts):
            n, out = len(pts), []
            for f in range(self.nf):
                o = sorted(pts, key=lambda p: p[0][f])
                lc, rc = {}, {}
                for _, y in o:
                    rc[y] = rc.get(y, 0) + 1
                ls, rs = 0, sum(v * v for v in rc.values())
                for i in range(1, n):
                    y = o[i - 1][1]
                    ls += 2 * lc.get(y, 0) + 1
                    lc[y] = lc.get(y, 0) + 1
                    rs += 1 - 2 * rc[y]
                    rc[y] -= 1
                    if o[i - 1][0][f] != o[i][0][f]:
                        out.append((ls / i + rs / (n - i), o[:i], o[i:]))
            m = max((x[0] for x in out), default=0)
            return [x for x in out if x[0] >= m - n * 1e-5]
        def go(pts, depth):
            left[0] -= len(pts) * len(pts) * self.nf
            if left[0] < 0 or depth == 0 or len({y for _, y in pts}) == 1:
                return
            for _, a, b in best(pts):
                go(a, depth - 1)
                if left[0] < 0:
                    return
                go(b, depth - 1)
        go(d, depth)
        return left[0] >= 0


def points(rng, depth, make):
    """a training set that the specification can search"""
    for _ in range(60):
        P = make()
        if P.search(depth):
            return P
    return Points(rng, 5, P.nf, P.np)


def ask(s, r, P, qs, tag):
    for i, c in enumerate(qs):
        s.q(r, P.val(c), tag=(tag, i))


def tree_event(r, P, qs, tag, depth):
    def f(s):
        if any((tag, i) not in s.seen for i in range(len(qs))):
            return None
        return dict(e="tree", r=r, pts=P.pts(), depth=depth, q=[dict(x=list(c), p=s.seen[(tag, i)]["p"]) for i, c in enumerate(qs)])
    return f


def perfect_event(r, P, qs, tag):
    def f(s):
        if any((tag, i) not in s.seen for i in range(len(qs))):
            return None
        return dict(e="perfect", r=r, q=[dict(k=[g9(v) for v in P.val(c)], p=s.seen[(tag, i)]["p"]) for i, c in enumerate(qs)])
    return f


def tree_runs(rng, k, prefix="t", maxn=24, retrain=True, force_depth=None, minn=1, nfs=(1, 1, 2, 2, 3, 5), shapes=("rand", "axis", "diag")):
    L = []
    for i in range(k):
        nf = rng.choice(nfs)
        np = rng.choice([2, 2, 3, 5, 20])
        depth = rng.choice([0, 1, 2, 2, 3, 4, 30]) if force_depth is None else force_depth
        s = Scn("%s%d" % (prefix, i), env={"APOLLO_PERSISTENT_DATASETS": rng.choice("01")})
        info = "DecisionTree" if depth == 2 and rng.random() < .5 else "DecisionTree,max_depth=%d" % depth
        s.create("a", nf, np, info)
        rounds = rng.choice([1, 1, 2]) if retrain else 1
        for t in range(rounds):
            P = points(rng, depth, lambda: Points(rng, rng.randint(minn, maxn), nf, np, exact=rng.random() < .7, shape=rng.choice(shapes), huge=True))
            if t:
                s.nop("clear a") if False else None
            P.inserts(s, "a")
            s.train("a", t, True, bool(t))
            qs = P.queries(12)
            ask(s, "a", P, qs, t)
            s.mark(tree_event("a", P, qs, t, depth))
            if rounds > 1 and t == 0:
                s.raw("clear a", dict(e="clear", r="a"), True)
        s.exit()
        L.append(s)
    return L


def small_trees(rng, k):
    """every labelling and query of a few points on a line or square, at every depth"""
    cases = []
    for nf, side in ((1, 4), (2, 2)):
        pts = list(itertools.product(range(side), repeat=nf))
        for lab in itertools.product(range(3), repeat=len(pts)):
            for depth in (0, 1, 2, 3):
                cases.append((nf, [tuple(4 * x for x in p) for p in pts], lab, depth))
    if k and k < len(cases):
        cases = rng.sample(cases, k)
    L, s = [], None
    for i, (nf, pts, lab, depth) in enumerate(cases):
        if i % 20 == 0:
            if s:
                s.exit()
            s = Scn("s%d" % (i // 20))
            L.append(s)
        P = Points.__new__(Points)
        P.rng, P.nf, P.np, P.coords, P.exact, P.span = rng, nf, 3, pts, True, 4
        P.val = lambda c: [float(x) for x in c]
        P.cls = dict(zip(pts, lab))
        r = "a%d" % i
        s.create(r, nf, 3, "DecisionTree,max_depth=%d" % depth)
        P.inserts(s, r, also=False)
        s.train(r, 0)
        qs = list(pts) + [tuple(q) for q in itertools.product((-1, 1, 3, 5, 7, 9, 11, 13) if nf == 1 else (1, 3), repeat=nf)]
        ask(s, r, P, qs, r)
        s.mark(tree_event(r, P, qs, r, depth))
    if s:
        s.exit()
    return L


def chain_runs(rng, k):
    """training sets whose tree is a chain: blocks of decreasing size on a line, each a class of
    its own, so that every split cuts off one block; at every depth up to the chain's length"""
    L = []
    for i in range(k):
        m = rng.choice([4, 5, 6])
        sizes = [2 ** j for j in range(m)] if m < 6 else [1, 1, 2, 3, 6, 12]
        if rng.random() < .3:
            sizes = sizes[:2] + [s + 1 for s in sizes[2:]]
        if i % 2:
            sizes = sizes[::-1]
        labs = rng.sample(range(8), m) if rng.random() < .6 else [j % 2 for j in range(m)]
        nf = rng.choice([1, 1, 2])
        P = Points.__new__(Points)
        P.rng, P.nf, P.np, P.exact, P.span = rng, nf, 8, True, sum(sizes)
        pos, P.coords, P.cls = 0, [], {}
        for sz, lab in zip(sizes, labs):
            for _ in range(sz):
                c = (4 * pos,) if nf == 1 else rng.choice([(4 * pos, 0), (4 * pos, 4)])
                P.coords.append(c)
                P.cls[c] = lab
                pos += 1
        P.val = lambda c: [float(x) for x in c]
        s = Scn("ch%d" % i)
        for depth in sorted({2, 3, 4, m - 1, m, m + 3}):
            if not P.search(depth):
                continue
            r = "d%d" % depth
            s.create(r, nf, 8, "DecisionTree,max_depth=%d" % depth)
            P.inserts(s, r, also=False)
            s.train(r, 0)
            qs = P.queries(14)
            ask(s, r, P, qs, depth)
            s.mark(tree_event(r, P, qs, depth, depth))
            if nf == 1 and depth >= m - 1 and len(set(labs)) == m:
                cs = [x for x in qs if x in P.cls]
                ask(s, r, P, cs, ("p", depth))
                s.mark(perfect_event(r, P, cs, ("p", depth)))
        s.exit()
        L.append(s)
    return L


def block_runs(rng, k):
    """several hundred points in a few blocks of a class each: counts beyond any small counter"""
    L = []
    for i in range(k):
        m = rng.choice([3, 4])
        sizes = [rng.randint(1, 7) for _ in range(m)]
        sizes[rng.randrange(m)] = rng.randint(262, 330)
        labs = [j % 2 for j in range(m)] if rng.random() < .7 else rng.sample(range(6), m)
        P = Points.__new__(Points)
        P.rng, P.nf, P.np, P.exact, P.span = rng, 1, 6, True, sum(sizes)
        P.coords, P.cls = [], {}
        for sz, lab in zip(sizes, labs):
            for _ in range(sz):
                c = (4 * len(P.coords),)
                P.coords.append(c)
                P.cls[c] = lab
        off = rng.choice([0, -4 * rng.randrange(sum(sizes))])
        P.val = lambda c, off=off: [float(c[0] + off)]
        s = Scn("bl%d" % i)
        for depth in (0, 1, 2):
            r = "d%d" % depth
            s.create(r, 1, 6, "DecisionTree,max_depth=%d" % depth)
            P.inserts(s, r, also=False)
            s.train(r, 0)
            # the ends of the blocks, and around them
            qs = [c for j, c in enumerate(P.coords) if j < 8 or j > len(P.coords) - 9 or P.cls[c] != P.cls[P.coords[j - 1]] or P.cls[c] != P.cls[P.coords[(j + 1) % len(P.coords)]]]
            qs += rng.sample(P.coords, 20)
            qs += [(c[0] + d,) for c in rng.sample(qs, 12) for d in (-1, 1)]
            ask(s, r, P, qs, depth)
            s.mark(tree_event(r, P, qs, depth, depth))
        s.exit()
        L.append(s)
    return L


def cart_mc(chk, sizes):
    """the tree specification itself, for every training set on small grids"""
    invs = "Perfect InClasses Constant Exists Agree Forest"
    with vlib.Scratch(chk.prop + "mc") as root:
        for i, (side, nf, cls) in enumerate(sizes):
            rc, o = vlib.tlc("CARTMC", "CONSTANTS Side = %d NF = %d Cls = %d\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (side, nf, cls, invs),
                             os.path.join(root, "m%d" % i), workers=6, timeout=2000)
            if "No error has been found" not in o:
                raise vlib.ToolError("CARTMC:\n" + o[-3000:])
            chk.add_mc(*vlib.tlc_stats(o))
            chk.count("model_configs")


# ------------------------------------------------------------------ C06
def c06(chk):
    exe = vlib.build("main")
    cart_mc(chk, [(4, 1, 3), (2, 2, 3)] + ([(6, 1, 3), (3, 2, 2)] if T else []))
    rng = rngs("c06")
    L = small_trees(rng, n(240, 0))
    L += tree_runs(rng, n(90, 900), maxn=n(20, 30))
    L += tree_runs(rng, n(30, 300), prefix="big", minn=25, maxn=n(45, 60), nfs=(1, 2, 6, 9), shapes=("axis", "skew", "last", "diag"))
    L += chain_runs(rng, n(14, 120))
    L += block_runs(rng, n(4, 24))
    # a deep tree reproduces the best policy of every point, whatever the values
    for i in range(n(25, 200)):
        nf, np = rng.choice([1, 2, 4, 7, 12]), rng.choice([2, 5, 100])
        P = Points(rng, rng.choice([3, 40, 120, 300]), nf, np, exact=rng.random() < .3, shape=rng.choice(["rand", "diag", "skew", "last"]))
        s = Scn("p%d" % i)
        s.create("a", nf, np, "DecisionTree,max_depth=%d" % rng.choice([1000, 4000000000, 320]))
        P.inserts(s, "a", also=len(P.coords) < 50)
        s.train("a", 0)
        qs = rng.sample(P.coords, min(len(P.coords), 120))
        ask(s, "a", P, qs, 0)
        s.mark(perfect_event("a", P, qs, 0))
        s.exit()
        L.append(s)
    # trained through the ordinary cycle of executions
    for i in range(n(12, 100)):
        nf, np = rng.choice([1, 2]), rng.choice([2, 3])
        P = Points(rng, rng.randint(2, 8), nf, np)
        depth = rng.choice([1, 2, 3])
        s = Scn("e%d" % i, env={"APOLLO_PERSISTENT_DATASETS": "1"})
        s.create("a", nf, np, "DecisionTree,max_depth=%d,explore=RoundRobin" % depth)
        for c in P.coords:
            for j in range(np):
                s.exe("a", P.val(c), metric=(rng.randint(1, 120) * 4 + j) / 512.0, style=rng.choice(["ctx", "vec", "c"]))
        s.train("a", 1)
        qs = P.queries(10)
        ask(s, "a", P, qs, 0)
        s.mark(tree_event("a", P, qs, 0, depth))
        s.exit()
        L.append(s)
    return scn.run_and_validate(chk, exe, L)


# ------------------------------------------------------------------ C07
def parse_forest(text):
    """trees of a stored forest: data and nodes; None when the format is not understood"""
    tok = [t for l in text.split("\n") if not l.strip().startswith("#") for t in l.split()]
    pos = [0]
    def nxt():
        pos[0] += 1
        return tok[pos[0] - 1]
    def want(t):
        if nxt() != t:
            raise ValueError(t)
    def val(key):
        want(key)
        v = nxt()
        if not v.endswith(","):
            raise ValueError(v)
        return v[:-1]
    def node():
        want("{")
        val("gini:"); val("num_samples:")
        nd = dict(c=int(val("predicted_class:")), f=int(val("feature_idx:")), t=f32(float(val("threshold:"))), l=None, r=None)
        want("count_per_class:"); want("{")
        while nxt() != "},":
            pass
        while True:
            t = nxt()
            if t == "left:":
                nd["l"] = node()
            elif t == "right:":
                nd["r"] = node()
            elif t == "},":
                return nd
            else:
                raise ValueError(t)
    try:
        want("rfc:"); want("{")
        nt = int(val("num_trees:"))
        val("max_depth:")
        want("classes:"); want("[")
        while nxt() != "],":
            pass
        want("trees:"); want("[")
        trees = []
        while True:
            t = nxt()
            if t == "]":
                break
            if t != "tree:":
                raise ValueError(t)
            want("{")
            val("max_depth:")
            want("classes:"); want("[")
            while nxt() != "],":
                pass
            val("num_features:")
            want("root:")
            root = node()
            want("data:"); want("{")
            data = []
            while nxt() != "},":
                want("{"); want("features:"); want("[")
                fs = []
                while True:
                    x = nxt()
                    if x == "],":
                        break
                    fs.append(g9(float(x.rstrip(","))))
                want("class:")
                data.append((fs, int(nxt())))
                want("},")
            want("}"); want(",")
            trees.append(dict(root=root, data=data))
        return trees
    except (ValueError, IndexError):
        return None


def eval_node(nd, v):
    while nd["f"] != -1:
        x = nd["l"] if v[nd["f"]] < nd["t"] else nd["r"]
        if x is None:
            break
        nd = x
    return nd["c"]


def forest_event(r, P, qs, tag, depth, nt, file=None):
    def f(s):
        if any((tag, i) not in s.seen for i in range(len(qs))):
            return None
        if not P.exact:
            # a point that a tree did not draw lies between points it did: which side of the
            # middle only numbers tell, not their order
            return None
        trees = []
        if file:
            try:
                tr = parse_forest(open(os.path.join(s.root, s.dir, file)).read())
            except OSError:
                tr = None
            xs = {tuple(p["k"]): p["x"] for p in P.pts()}
            for t in tr or []:
                trees.append(dict(d=[dict(x=xs.get(tuple(k), [999999] * P.nf), y=y) for k, y in t["data"]], v=[eval_node(t["root"], P.val(c)) for c in qs]))
            if any(not P.search(depth, 60000, [(tuple(p["x"]), p["y"]) for p in t["d"]]) for t in trees):
                return None
            if tr is not None and not tr:
                trees = [dict(d=[], v=[-1] * len(qs))]
        small = len(P.coords) <= 2 and nt <= 3 or len(P.coords) == 3 and nt <= 2
        return dict(e="forest", r=r, pts=P.pts(), depth=depth, n=nt, trees=trees, small=small, x=[list(c) for c in qs],
                    p=[s.seen[(tag, i)]["p"] for i in range(len(qs))], parsed=bool(trees))
    return f


def forest_runs(rng, k, prefix="f", maxn=12, big=False, many=False, crowd=False):
    L = []
    for i in range(k):
        nf, np = rng.choice([1, 2, 3]), rng.choice([2, 3, 6, 30])
        depth = rng.choice([0, 1, 2, 2, 3, 20])
        nt = rng.choice([1, 1, 2, 3, 10, 10, 17, 40, 41])
        npts = rng.choice([1, 2, 2, 3, 3, rng.randint(4, maxn)])
        if big:                         # deep trees of many points
            nf, depth, nt, npts = rng.choice([1, 1, 2, 7]), rng.choice([4, 5, 6, 7, 9, 64]), rng.randint(1, 4), rng.randint(20, maxn)
        if many:                        # many trees of many points: every point is drawn
            nf, depth, nt, npts = rng.choice([1, 2]), rng.choice([0, 1, 2]), rng.choice([40, 64, 120]), rng.randint(maxn // 2, maxn)
        if crowd:                       # more trees than a byte counts
            nf, np, depth, nt, npts = 1, rng.choice([2, 3]), rng.choice([1, 3]), rng.choice([130, 200, 257, 300]), rng.choice([1, 2, 3])
        s = Scn("%s%d" % (prefix, i), env={"APOLLO_PERSISTENT_DATASETS": "1"})
        info = "RandomForest"
        if nt != 10 or rng.random() < .5:
            info += ",num_trees=%d" % nt
        if depth != 2 or rng.random() < .5:
            info += ",max_depth=%d" % depth
        s.create("a", nf, np, info)
        for t in range(rng.choice([1, 2])):
            if t:
                s.raw("clear a", dict(e="clear", r="a"), True)
                npts = rng.choice([1, 2, 3, 6])
            P = Points(rng, npts, nf, np, shape=rng.choice(["rand", "diag", "skew"]) if big else rng.choice(["rand", "axis", "diag"]))
            P.inserts(s, "a")
            s.train("a", t, True, bool(t))
            qs = P.queries(8)
            ask(s, "a", P, qs, t)
            s.store("a", "forest%d" % t)
            s.mark(forest_event("a", P, qs, t, depth, nt, "forest%d" % t))
            if t and rng.random() < .7:          # the first forest comes back
                s.load("a", "forest0")
                ask(s, "a", P0, q0, "back")
                s.mark(("back", P0, q0))
                s.ops[-1] = (None, False, forest_event_loaded(P0, q0))
            P0, q0 = P, qs
        s.exit()
        L.append(s)
    return L


def forest_event_loaded(P, qs):
    """after loading the first file: the same answers as when it was stored"""
    def f(s):
        if any(("back", i) not in s.seen or (0, i) not in s.seen for i in range(len(qs))):
            return None
        return dict(e="same", a=[s.seen[(0, i)]["p"] for i in range(len(qs))], b=[s.seen[("back", i)]["p"] for i in range(len(qs))], label="forest")
    return f


def close_votes(rng, k):
    """forests of stumps over balanced classes: the votes are close, so every tree counts"""
    L, s = [], None
    for i in range(k):
        if i % 10 == 0:
            s = Scn("v%d" % (i // 10))
            L.append(s)
        np = rng.choice([3, 4, 6])
        npts = np * rng.choice([1, 1, 2])
        nt = rng.choice([2, 3, 4, 5, 8, 9, 10, 10, 11, 12, 16, 20, 31, 33, 40, 64, 101])
        depth = rng.choice([0, 0, 1])
        r = "a%d" % i
        P = Points(rng, npts, 1, np, span=npts)
        P.off, P.mul = [0], 1.0
        labs = [j % np for j in range(npts)]
        rng.shuffle(labs)
        P.cls = dict(zip(P.coords, labs))
        s.create(r, 1, np, "RandomForest,num_trees=%d,max_depth=%d" % (nt, depth))
        P.inserts(s, r, also=False)
        for t in range(2):
            s.train(r, t, True, bool(t))
            qs = P.queries(2)
            ask(s, r, P, qs, (r, t))
            s.store(r, "forest%d-%d" % (i, t))
            s.mark(forest_event(r, P, qs, (r, t), depth, nt, "forest%d-%d" % (i, t)))
        if i % 10 == 9 or i == k - 1:
            s.exit()
    return L


def c07(chk):
    exe = vlib.build("main")
    cart_mc(chk, [(3, 1, 2)])
    rng = rngs("c07")
    L = forest_runs(rng, n(90, 900), maxn=n(12, 18))
    L += forest_runs(rng, n(25, 250), prefix="g", maxn=n(45, 60), big=True)
    L += forest_runs(rng, n(8, 60), prefix="m", maxn=n(30, 50), many=True)
    L += forest_runs(rng, n(6, 30), prefix="c", crowd=True)
    L += close_votes(rng, n(120, 1000))
    m = scn.run_and_validate(chk, exe, L)
    ev = [e for s in L for e in s.tr if e["e"] == "forest"]
    chk.count("forests", len(ev))
    chk.count("forests_read_from_file", sum(e["parsed"] for e in ev))
    return m
