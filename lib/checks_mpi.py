"""Collective training (C13): Collective.tla."""
import concurrent.futures as cf
import json, os, random, re
import vlib, scn
from scn import f32, g9, fl, key
from vlib import esc
from checks_core import n, T, rngs
from checks_models import Points


def model_check(chk):
    cases = [(2, 3, 2), (3, 2, 1)] if not T else [(2, 4, 2), (3, 3, 1)]
    with vlib.Scratch("C13mc") as root:
        for nr, rec, tr in cases:
            cfg = ("SPECIFICATION Spec\nCONSTANTS NR = %d\nMaxRec = %d\nMaxTrain = %d\nCHECK_DEADLOCK FALSE\n"
                   "PROPERTIES Accept NoLoss NoneInvented Alone Bounds Twice SameKeys\n" % (nr, rec, tr))
            rc, o = vlib.tlc("CollectiveMC", cfg, os.path.join(root, "m%d" % nr), workers=8, timeout=2000, mem="6g")
            if "No error has been found" not in o:
                raise vlib.ToolError("CollectiveMC failed:\n" + o[-3000:])
            chk.add_mc(*vlib.tlc_stats(o))
            chk.count("model_configs")


class Job:
    """one mpirun: scripts of all ranks, and the collective trainings in them"""

    def __init__(self, name, ranks, env=None):
        self.name, self.ranks = name, ranks
        self.env = dict(env or {}, APOLLO_COLLECTIVE_TRAINING="1", APOLLO_LOCAL_TRAINING="0")
        self.lines = [["rnd %d" % (100 + k)] for k in range(ranks)]
        self.spec = [[] for _ in range(ranks)]       # one entry per logged call
        self.regs = [[] for _ in range(ranks)]
        self.coll = []                               # (index of the call per rank, info)

    def op(self, k, line, what=None):
        self.lines[k].append(line)
        self.spec[k].append(what)
        return len(self.spec[k]) - 1

    def create(self, k, r, nf, np, info):
        self.regs[k].append(r)
        self.op(k, "create %s cpp %d %d 0 %s -" % (esc(r), nf, np, esc(info)))

    def insert(self, k, r, v, p, m):
        self.op(k, "insert %s %s %d %s" % (esc(r), fl(v), p, float(m).hex()))

    def script(self):
        for k in range(self.ranks):
            self.lines[k].append("barrier")
            self.lines[k].append("exit")

    def run(self, exe, root):
        d = os.path.join(root, self.name)
        os.makedirs(d, exist_ok=True)
        for k in range(self.ranks):
            open(os.path.join(d, "script.%d" % k), "w").write("\n".join(self.lines[k]) + "\n")
        e = vlib.clean_env()
        e.update(self.env)
        self.status, self.err = vlib.mpirun(self.ranks, [exe, "script", "log"], d, e)
        self.files = {f: open(os.path.join(d, f), errors="replace").read() for f in os.listdir(d) if f.endswith("-allgather.txt")}
        self.logs = []
        for k in range(self.ranks):
            ev = []
            try:
                for l in open(os.path.join(d, "log.%d" % k), errors="replace"):
                    ev.append(json.loads(l))
            except (OSError, ValueError):
                pass
            self.logs.append(ev)

    def trace(self):
        out = [dict(e="run", run=self.name)]
        states = []          # per rank: list of dataset states after each call
        answers = []
        for k in range(self.ranks):
            cur, seq, ans = {}, [dict()], []
            for g in self.logs[k]:
                cur = dict(cur)
                for x in g.get("ds", []):
                    cur[(x["r"], x["k"], x["p"])] = x["u"]
                for x in g.get("rm", []):
                    cur.pop((x["r"], x["k"], x["p"]), None)
                seq.append(cur)
                ans.append(g)
            states.append(seq)
            answers.append(ans)
        ents = lambda s: [dict(r=r, k=key(kk), p=p, u=u) for (r, kk, p), u in sorted(s.items())]
        for c in self.coll:
            if any(len(states[k]) <= i + 1 for k, i in enumerate(c["at"])):
                break
            ev = dict(e="coll", regs=self.regs, before=[ents(states[k][i]) for k, i in enumerate(c["at"])],
                      after=[ents(states[k][i + 1]) for k, i in enumerate(c["at"])], own=c["own"], trees=[], learned=[], ag=[], cut=[])
            if self.env.get("APOLLO_TRACE_ALLGATHER") == "1":
                ev["ag"] = [gather_rows(self.files.get("step-%d-rank-%d-allgather.txt" % (c["step"], k), "")) for k in range(self.ranks)]
                ks = {tuple(x["k"]) for s in ev["before"] + ev["own"] for x in s}
                ev["cut"] = [dict(k=list(x), t=[str(int(float(y))) for y in x]) for x in sorted(ks)]
            for t in c["trees"]:
                q = []
                for i, x in zip(t["at"], t["x"]):
                    if i < len(answers[t["rank"] - 1]):
                        q.append(dict(x=x, p=answers[t["rank"] - 1][i]["p"]))
                if len(q) == len(t["at"]):
                    ev["trees"].append(dict(rank=t["rank"], r=t["r"], pts=t["pts"], depth=t["depth"], q=q))
            # regions with data are trained: no longer trainable
            tr = {}
            for k in range(self.ranks):
                for g in answers[k][:c["at"][k] + 1]:
                    for s in g.get("st", []):
                        tr[(k, s["r"])] = s["t"]
                for r in self.regs[k]:
                    if r in c["dt"] and any(x["r"] == r for x in ev["after"][k]):
                        ev["learned"].append(not tr.get((k, r), True))
            out.append(ev)
        out.append(dict(e="fin", status=self.status))
        return out


def gather_rows(text):
    """rows of a traced exchange; anything unexpected becomes a row that matches nothing"""
    out = []
    L = text.split("\n")
    if L[-1] != "" or len(L) < 2:
        out.append(dict(rank="?", r="incomplete", t=[], p="?", u=0))
    for l in L[1:-1]:
        m = re.fullmatch(r"(\d+), (.*), \[ (.*)\], (-?\d+), (\S+)", l)
        try:
            out.append(dict(rank=m.group(1), r=m.group(2), t=[x for x in m.group(3).split(", ") if x], p=m.group(4), u=int(round(float(m.group(5)) * 2**20))))
        except (AttributeError, ValueError):
            out.append(dict(rank="?", r=l, t=[], p="?", u=0))
    return out


def make(rng, i, ag=False):
    ranks = rng.choice([2, 2, 3, 3, 4])
    extra = {"APOLLO_TRACE_ALLGATHER": "1"} if ag else {}
    j = Job("m%d" % i, ranks, extra)
    byexec = rng.random() < .3
    per = rng.randint(2, 6)
    if byexec:
        j.env["APOLLO_GLOBAL_TRAIN_PERIOD"] = str(per)
    prefixed = rng.random() < .25
    nreg = rng.randint(2, 4) if prefixed else rng.randint(1, 4)
    # measured values: short ones, or ones that need 27 significant bits
    met = rng.choice([lambda: rng.randint(1, 4000) / 1024.0, lambda: (rng.randrange(2**26, 2**27) | 1) / 2.0**20,
                      lambda: rng.choice([0, rng.randint(-50, 50)]) / 1024.0])
    regs = []
    for t in range(nreg):
        nm = rng.choice(["r%d" % t, "region %d" % t, "N%d" % t + "x" * 61, "a%d" % t * rng.randint(1, 10)])
        if prefixed:                       # each name starts with the one before it
            nm = "pre" + "fix"[:t] + "." * (t // 3)
        mdl = rng.choice(["DecisionTree", "DecisionTree", "RandomForest", "PolicyNet", "RoundRobin"])
        nf, np = (rng.choice([0, 1, 2, 5, 9]), rng.choice([2, 3, 8, 12]))
        if mdl == "PolicyNet":
            nf = max(1, min(nf, 2))
        depth = rng.choice([1, 2, 20])
        P = Points(rng, rng.randint(1, 7) if nf else 1, nf, np)
        if mdl == "PolicyNet":
            P.off, P.mul = [0] * nf, 1.0
        elif ag and any(abs(x) >= 2**31 for c in P.coords for x in P.val(c)):
            P.off, P.mul = [0] * nf, rng.choice([1.0, .25])
        regs.append(dict(r=nm, mdl=mdl, nf=nf, np=np, depth=depth, P=P, info=mdl + (",max_depth=%d" % depth if mdl in ("DecisionTree", "RandomForest") else "")))
    has = [[d for d in regs if rng.random() < (.55 if prefixed else .8) or (byexec and d is regs[0])] for _ in range(ranks)]
    for k in range(ranks):
        order = list(has[k])
        rng.shuffle(order)
        for d in order:
            j.create(k, d["r"], d["nf"], d["np"], d["info"])
    dt = [d["r"] for d in regs if d["mdl"] in ("DecisionTree", "RandomForest")]
    if byexec and any(h for h in has):
        # executions of the first region on every rank; the last one of the period trains
        d = regs[0]
        if d["mdl"] == "RoundRobin":
            d["mdl"], d["info"] = "DecisionTree", "DecisionTree,max_depth=%d" % d["depth"]
        j2 = Job("m%d" % i, ranks, dict(extra, APOLLO_GLOBAL_TRAIN_PERIOD=str(per)))
        for k in range(ranks):
            j2.create(k, d["r"], d["nf"], d["np"], d["info"])
        at, own = [], []
        for k in range(ranks):
            for e in range(per):
                v = d["P"].val(rng.choice(d["P"].coords))
                c = "c%d" % e
                j2.op(k, "begin %s %s vec %s" % (esc(d["r"]), c, fl(v)))
                pi = j2.op(k, "pol " + c)
                m = rng.randint(1, 400) / 512.0
                x = j2.op(k, "endm %s %s" % (c, m.hex()))
            at.append(x)
            own.append((pi, v, m))
        j2.coll.append(dict(at=at, own=[[] for _ in range(ranks)], trees=[], dt=[], step=per, ownspec=(d["r"], own)))
        j2.script()
        return j2
    for rnd in range(n(4, 10)):
        used = {}
        for k in range(ranks):
            for d in has[k]:
                j.op(k, "clear " + esc(d["r"])) if rnd and rng.random() < .8 else None
        for k in range(ranks):
            for d in has[k]:
                if rng.random() < .15:
                    continue                       # a rank without data
                for c in d["P"].coords:
                    for p in range(d["np"]):
                        if rng.random() < .45:
                            j.insert(k, d["r"], d["P"].val(c), p, met())
        at = [j.op(k, "traina %d" % rnd) for k in range(ranks)]
        trees = []
        for k in range(ranks):
            for d in has[k]:
                # a DecisionTree trains once: its answers belong to the first training
                if d["mdl"] != "DecisionTree" or rnd:
                    continue
                qs = d["P"].queries(4)
                ats = [j.op(k, "q %s %s" % (esc(d["r"]), fl(d["P"].val(c)))) for c in qs]
                trees.append(dict(rank=k + 1, r=d["r"], pts=d["P"].pts(), depth=d["depth"], at=ats, x=[list(c) for c in qs]))
        j.coll.append(dict(at=at, own=[[] for _ in range(ranks)], trees=trees, dt=dt if not rnd else [], step=rnd))
    j.script()
    return j


def traces(jobs):
    out = []
    for j in jobs:
        for c in j.coll:
            if "ownspec" in c:
                r, own = c["ownspec"]
                c["own"] = []
                for k, (pi, v, m) in enumerate(own):
                    p = j.logs[k][pi]["p"] if pi < len(j.logs[k]) else 0
                    c["own"].append([dict(r=r, k=[g9(x) for x in v], p=p, u=int(round(m * 2**20)))])
        out.append(j.trace())
    return out


def fix_trees(tr):
    """the points of a tree event are those of the combined data"""
    for t in tr:
        for ev in t:
            for q in ev.get("trees", []):
                have = {tuple(x["k"]) for x in ev["after"][q["rank"] - 1] if x["r"] == q["r"]}
                q["pts"] = [p for p in q["pts"] if tuple(p["k"]) in have]
            if "trees" in ev:
                ev["trees"] = [q for q in ev["trees"] if q["pts"]]


def c13(chk):
    exe = vlib.build("mpi")
    model_check(chk)
    rng = rngs("c13")
    judge(chk, exe, [make(rng, i, ag=i % 3 == 0) for i in range(n(40, 400))])


def judge(chk, exe, jobs):
    def go(js):
        with vlib.Scratch(chk.prop + "mpi") as root:
            with cf.ThreadPoolExecutor(4) as ex:
                list(ex.map(lambda j: j.run(exe, root), js))
            tr = traces(js)
            fix_trees(tr)
            m, g, d = scn.tla_run(chk.prop, tr, root, module="CollectiveTrace")
            return m, g, d, tr
    m, g, d, tr = go(jobs)
    chk.add_mc(g, d)
    chk.count("traces_validated_against_impl", len(tr))
    chk.count("collective_trainings", sum(1 for t in tr for e in t if e["e"] == "coll"))
    chk.count("trees_judged", sum(len(e["trees"]) for t in tr for e in t if e["e"] == "coll"))
    for j in jobs[:2]:
        chk.sample({"run": j.name, "ranks": j.ranks, "script": j.lines[0][:10]})
    if m:
        names = {x["run"] for x in m}
        again = [j for j in jobs if j.name in names]
        for j in again:
            pass
        m2, _, _, _ = go(again)
        for x in m2:
            j = [y for y in jobs if y.name == x["run"]][0]
            chk.violation("%s at %s" % (",".join(x["labels"]), json.dumps(x["line"])[:300]), {"run": j.name, "ranks": j.ranks, "env": j.env, "scripts": j.lines, "event": x["line"], "stderr": j.err})
