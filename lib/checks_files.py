"""Stored files as text (C25): Stored.tla."""
import bisect, json, os, random, re, struct, subprocess, sys
import yaml
import vlib, scn, gen
from scn import Scn, f32, g9, hexd, final_post
from gen import region, conf
from checks_core import n, T, rngs, mc, post
from checks_models import Points
from checks_store import probes, model_info, nxt

TOOLS = os.path.join(vlib.REPO, "src", "python", "analysis")


# ------------------------------------------------------------------ reading files
def raw_trees(text):
    """the trees of a model file, as a YAML reader sees them"""
    y = yaml.safe_load(text.replace("\t", " "))
    if "tree" in y:
        return [y["tree"]], None
    return [t["tree"] for t in y["rfc"]["trees"]], y["rfc"]


def abstract(trees, queries):
    """trees with numbers replaced by ranks, and the queries likewise"""
    vals = {}
    def note(i, v):
        vals.setdefault(i, set()).add(v)
    def walk(nd):
        if "left" in nd or "right" in nd:
            note(int(nd["feature_idx"]), f32(float(nd["threshold"])))
            for k in ("left", "right"):
                if k in nd:
                    walk(nd[k])
    for t in trees:
        walk(t["root"])
        for d in (t.get("data") or {}).values():
            for i, v in enumerate(d["features"]):
                note(i, f32(float(v)))
    for v in queries:
        for i, x in enumerate(v):
            note(i, x)
    order = {i: sorted(v) for i, v in vals.items()}
    rank = lambda i, x: bisect.bisect_left(order[i], x)
    def node(nd):
        kids = [k for k in ("left", "right") if k in nd]
        inner = bool(kids)
        return dict(f=int(nd["feature_idx"]), t=rank(int(nd["feature_idx"]), f32(float(nd["threshold"]))) if inner else 0, c=int(nd["predicted_class"]),
                    n=int(nd["num_samples"]), g=int(round(float(nd["gini"]) * 1e6)), cnt=[dict(c=int(c), n=int(k)) for c, k in (nd["count_per_class"] or {}).items()],
                    txt=numbers(nd), kids=[node(nd[k]) for k in kids])
    out = []
    for t in trees:
        rows = [dict(x=[rank(i, f32(float(v))) for i, v in enumerate(d["features"])], y=int(d["class"]), k=[g9(f32(float(v))) for v in d["features"]])
                for d in (t.get("data") or {}).values()]
        out.append(dict(root=node(t["root"]), depth=int(t["max_depth"]), nf=int(t["num_features"]), classes=[int(c) for c in t["classes"]], rows=rows))
    return out, [[rank(i, x) for i, x in enumerate(v)] for v in queries]


def numbers(nd):
    return [str(int(nd["feature_idx"])), repr(float(nd["threshold"])), str(int(nd["predicted_class"])), str(int(nd["num_samples"]))]


def dot_of(path, forest):
    """the picture the repository's tool makes of a file"""
    out = path + ".dot"
    p = subprocess.run([sys.executable, "-B", os.path.join(TOOLS, "rfc2dot.py" if forest else "dtree2dot.py"), "-i", path, "-o", out],
                       capture_output=True, text=True, timeout=60)
    if p.returncode or not os.path.exists(out):
        return dict(boxes=[], arrows=[["failed", p.stderr[-200:]]])
    t = open(out).read()
    boxes = []
    for m in re.finditer(r'(\w+)\s*\[[^"\n]*label="([^"]*)"', t):
        kv = dict(re.findall(r"(\w+): ([^,\n]+)", m.group(2)))
        if "predicted_class" in kv:
            try:
                boxes.append(dict(n=m.group(1), txt=numbers(kv)))
            except (KeyError, ValueError):
                boxes.append(dict(n=m.group(1), txt=["?"]))
    return dict(boxes=boxes, arrows=[list(x) for x in re.findall(r"(\w+)\s*->\s*(\w+)", t)])


def bare(nd):
    return dict({k: v for k, v in nd.items() if k not in ("txt", "kids")}, kids=[bare(k) for k in nd["kids"]])


def stored_event(r, file, qs, tag, ntrees, forest, made=False, dot=False, src=None):
    def f(s):
        if any((tag, i) not in s.seen for i in range(len(qs))):
            return None
        path = os.path.join(s.root, s.dir, file)
        ps = [s.seen[(tag, i)]["p"] for i in range(len(qs))]
        try:
            tr, _ = raw_trees(open(path).read())
            k = len(tr)
            if src:
                tr = tr + raw_trees(open(os.path.join(s.root, s.dir, src)).read())[0]
            ts, xs = abstract(tr, qs)
            own = [dict(t, root=bare(t["root"])) for t in ts]
            ts, own, old = ts[:k], sorted(own[:k], key=json.dumps), sorted(own[k:], key=json.dumps)
        except (OSError, yaml.YAMLError, KeyError, TypeError, ValueError, AttributeError):
            ts, xs, own, old = [], [[] for _ in qs], [], ["unreadable"]
        return dict(e="stored", r=r, forest=forest, made=made, n=ntrees, trees=ts, q=[dict(x=x, p=p) for x, p in zip(xs, ps)] if ts else [],
                    own=own if src else [], src=old if src else [], dot=[dot_of(path, forest)] if dot and ts else [])
    return f


def dsfile_event(r, file):
    def f(s):
        try:
            y = yaml.safe_load(open(os.path.join(s.root, s.dir, file)).read())["data"] or {}
            rows = [dict(k=[g9(f32(float(v))) for v in d["features"]], p=int(d["policy"]), x=hexd(float(d["xtime"]))) for d in y.values()]
        except (OSError, yaml.YAMLError, KeyError, TypeError, ValueError, AttributeError):
            rows = [dict(k=[], p=-1, x="")]
        return dict(e="dsfile", r=r, rows=rows)
    return f


# ------------------------------------------------------------------ writing files
class Text:
    """tokens with random white space and comments between them"""

    def __init__(self, rng, wild):
        self.rng, self.wild, self.out = rng, wild, []

    def put(self, *toks):
        for t in toks:
            self.out.append(t)

    def text(self):
        rng, s = self.rng, ""
        if rng.random() < .7:
            s += rng.choice(["# by hand\n", "#\n", "# agg by mean\n", "# a: { b }\n# second line\n"])
        for t in self.out:
            s += t
            x = rng.random()
            if not self.wild or x < .6:
                s += rng.choice([" ", "\n ", "\n  "]) if self.wild else " "
            elif x < .9:
                s += rng.choice(["\t", "  ", " \n ", "\n\n "])
            else:
                s += rng.choice([" # note\n ", "\n # note, with: { text }\n  "])
        return s + "\n"


def put_tree(x, rng, nf, np, depth, num):
    """a tree of its own; returns nothing, the file says it all"""
    cls = sorted(rng.sample(range(np), rng.randint(1, min(np, 4))))
    def node(key, d):
        inner = nf and d > 0 and rng.random() < .8
        cnt = [rng.randint(0, 5) for _ in cls]
        x.put(key, "{", "gini:", "%g," % rng.choice([0, .5, .25]), "num_samples:", "%d," % sum(cnt), "predicted_class:", "%d," % rng.choice(cls))
        fi = rng.randrange(nf) if inner else -1
        th = rng.choice(num) if inner else 0.0
        x.put("feature_idx:", "%d," % fi, "threshold:", rng.choice([repr(th), "%.17g" % th, "%.9g" % th]) + ",", "count_per_class:", "{")
        for c, k in zip(cls, cnt):
            x.put("%d:" % c, "%d," % k)
        x.put("},")
        if inner:
            node("left:", d - 1)
            node("right:", d - 1)
        x.put("},")
    x.put("tree:", "{", "max_depth:", "%d," % depth, "classes:", "[")
    x.put(*["%d," % c for c in cls])
    x.put("],", "num_features:", "%d," % nf, "root:".replace("root:", ""))
    x.out.pop()
    node("root:", depth)
    x.put("data:", "{")
    for i in range(rng.choice([0, 1, 3]) if nf else 0):
        x.put("%d:" % i, "{", "features:", "[", *["%.9g," % rng.choice(num) for _ in range(nf)])
        x.put("],", "class:", "%d" % rng.choice(cls), "},")
    x.put("},", "}")


def made_model(rng, forest, nf, np, wild):
    num = [f32(rng.choice([rng.randint(-5, 5), rng.uniform(-2, 2), gen.rnd_float(rng, "ext")])) for _ in range(6)]
    num = [v for v in num if v == v and abs(v) < 3e38]
    x = Text(rng, wild)
    k = 1
    if forest:
        k = rng.choice([1, 2, 3, 7])
        d = rng.randint(0, 4)
        x.put("rfc:", "{", "num_trees:", "%d," % k, "max_depth:", "%d," % d, "classes:", "[", *["%d," % c for c in range(np)])
        x.put("],", "trees:", "[")
        for _ in range(k):
            put_tree(x, rng, nf, np, d, num)
            x.put(",")
        x.put("]", "}")
    else:
        put_tree(x, rng, nf, np, rng.randint(0, 6), num)
    return x.text(), k, num


def near(rng, num, nf, k):
    out = []
    for _ in range(k):
        v = []
        for _ in range(nf):
            a = rng.choice(num)
            v.append(rng.choice([a, nxt(a, True), nxt(a, False), f32(rng.uniform(-6, 6))]))
        out.append([f32(a) for a in v])
    return out


# ------------------------------------------------------------------ C25
def c25(chk):
    exe = vlib.build("main")
    rng = rngs("c25")
    mc(chk, [dict(setup=[region("a", 0, 2, mdl="DecisionTree", min=2)], cf=conf(store=True, persist=True), kinds=("sync",), nexec=3, nops=2)])
    L = []
    # what is stored says what the model does and learned from
    for i in range(n(110, 1100)):
        mdl = rng.choice(["DecisionTree", "DecisionTree", "RandomForest"])
        forest = mdl == "RandomForest"
        nf, np = rng.choice([1, 1, 2, 3, 6]), rng.choice([1, 2, 3, 5, 20])
        nt, depth = rng.choice([1, 2, 3, 10]), rng.choice([0, 1, 2, 4, 30])
        info = mdl + ",max_depth=%d" % depth + (",num_trees=%d" % nt if forest else "")
        s = Scn("m%d" % i, env={"APOLLO_STORE_MODELS": "1", "APOLLO_PERSISTENT_DATASETS": rng.choice("01")})
        r = rng.choice(["a", "reg.1", "a b"])
        s.create(r, nf, np, info)
        for t in range(rng.choice([1, 1, 2])):
            big = i % 8 == 7 and nf > 0
            P = Points(rng, rng.randint(45, 70) if big else rng.randint(1, 25), nf, np, exact=rng.random() < .5, shape="skew" if big else rng.choice(["rand", "rand", "axis", "diag"]))
            if t:
                s.raw("clear " + vlib.esc(r), dict(e="clear", r=r), True)
            P.inserts(s, r)
            s.train(r, t, True, True)
            V = probes(rng, P, 12, mdl)
            for j, v in enumerate(V):
                s.q(r, v, tag=(t, j))
            f = rng.choice(["f%d" % t, "%s/%s-latest-rank-0-%s.yaml" % (s.mdir(), mdl, r), "%s/%s-step-%d-rank-0-%s.yaml" % (s.mdir(), mdl, t, r)])
            if f[0] == "f":
                s.store(r, f)
            # (the latest file changes with the next training: look at a copy)
            g = "g%d" % t
            s.copy(f, g)
            s.mark(stored_event(r, g, V, t, nt if forest else 1, forest, dot=rng.random() < .4 and len(P.coords) < 20))
        s.rep("dsstore", r, 1, "data.yaml")
        s.mark(dsfile_event(r, "data.yaml"))
        s.exit()
        L.append(s)
    # what is written in a file is what the model that loads it does
    for i in range(n(110, 1100)):
        forest = rng.random() < .4
        mdl = "RandomForest" if forest else "DecisionTree"
        nf, np = rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 5, 20])
        text, k, num = made_model(rng, forest, nf, np, rng.random() < .6)
        s = Scn("w%d" % i)
        s.raw("write in.yaml " + vlib.esc(text))
        V = near(rng, num, nf, 25)
        how = rng.choice(["param", "yaml", "factory", "load"])
        if how == "factory":
            s.mload("f", mdl, np, "in.yaml")
            for j, v in enumerate(V):
                s.mq("f", v, tag=(0, j))
        else:
            s.create("a", nf, np, mdl + (",load=in.yaml" if how == "param" else ""), yaml="in.yaml" if how == "yaml" else "")
            if how == "load":
                s.load("a", "in.yaml")
            for j, v in enumerate(V):
                s.q("a", v, tag=(0, j))
        s.mark(stored_event("", "in.yaml", V, 0, k, forest, made=True))
        if how == "factory":
            s.mstore("f", "out.yaml")
        else:
            s.store("a", "out.yaml")
        s.mark(stored_event("", "out.yaml", V, 0, k, forest, made=True, dot=rng.random() < .3, src="in.yaml"))
        s.exit()
        L.append(s)
    # datasets written by hand or by a tool
    for i in range(n(60, 600)):
        s = Scn("d%d" % i)
        od = ".apollo"
        nf, np = rng.choice([1, 2, 4]), rng.choice([2, 3, 30])
        pts = [[f32(rng.choice([rng.randint(-9, 9), rng.uniform(-1, 1), gen.rnd_float(rng, "ext")])) for _ in range(nf)] for _ in range(rng.randint(1, 8))]
        x = Text(rng, rng.random() < .5)
        x.put("data:", "{")
        rows, val = [], {}
        dup = rng.random() < .5
        for j in range(rng.randint(0, 20)):
            v, p = rng.choice(pts), rng.randrange(np)
            key = (tuple(g9(a) for a in v), p)
            m = rng.randint(1, 4000) / 1024.0 if dup else rng.choice([rng.uniform(0, 1), 3.0, 1e-5, rng.uniform(0, 1e-9), 1234.5678])
            if key in val and not dup:
                continue
            num = rng.choice([repr, lambda a: "%.17g" % a, lambda a: "%.17e" % a])
            x.put("%d:" % rng.choice([j, j, 7]), "{", "features:", "[", *[rng.choice([repr(a), "%.9g" % a, "%d" % a if a == int(a) and abs(a) < 1e9 else "%.9e" % a]) + "," for a in v])
            x.put("],", "policy:", "%d," % p, "xtime:", num(m), "},")
            rows.append(dict(k=list(key[0]), p=p, u=s.units(m)))
            val[key] = .5 * val[key] + .5 * m if key in val else m
            if sum(r["k"] == list(key[0]) and r["p"] == p for r in rows) > 6:
                break
        x.put("}")
        s.raw("mkdir " + od)
        s.raw("mkdir " + od + "/datasets")
        s.raw("write %s/datasets/Dataset-a.yaml %s" % (od, vlib.esc(x.text())), dict(e="disk", r="a", rows=rows, h=[dict(k=list(k[0]), p=k[1], x=hexd(m)) for k, m in val.items()]))
        how = rng.choice(["persist"] + (["DatasetMap", "DecisionTree,load-dataset", "RandomForest,load-dataset"] if rows else []))
        if how == "persist":
            s.env["APOLLO_PERSISTENT_DATASETS"] = "1"
            s.create("a", nf, np, "RoundRobin")
        else:
            s.create("a", nf, np, how)
        if how == "DatasetMap":
            for v in pts:
                if any(k[0] == tuple(g9(a) for a in v) for k in val):
                    s.q("a", v)
        s.rep("dsstore", "a", 1, "again.yaml")
        s.mark(dsfile_event("a", "again.yaml"))
        s.exit()
        L.append(s)
    return scn.run_and_validate(chk, exe, L)
