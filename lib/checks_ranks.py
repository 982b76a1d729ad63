"""Ranks with local training sharing a directory (C24): FileNames.tla, RanksMC.tla, ApolloTrace.tla."""
import concurrent.futures as cf
import json, os, random, re
import vlib, scn, gen
import checks_kokkos as kk
from scn import Scn, final_post, fl
from gen import Wide
from vlib import esc
from checks_core import n, T, rngs

MODELS = ["RoundRobin", "Random", "Static", "DecisionTree", "RandomForest", "PolicyNet", "DecisionTree", "RandomForest"]
BYNAME = {"files", "files-final", "bestfiles", "ptrace", "csv", "csv-global"}     # wrong names show in a run alone as well




class Job:
    """one mpirun; s[k] is the scenario of rank k"""

    def __init__(self, s):
        self.s = s

    def run(self, exe, root, solo=False):
        for x in ([[y] for y in self.s] if solo else [self.s]):
            self.go(exe, root, x)

    def go(self, exe, root, S):
        d = os.path.join(root, S[0].dir)
        lg = os.path.join(root, "log-" + S[0].name)
        os.makedirs(d, exist_ok=True)
        for k, s in enumerate(S):
            open("%s.script.%d" % (lg, k), "w").write("\n".join(o[0] for o in s.ops if o[0] is not None) + "\n")
        e = vlib.clean_env()
        e.update(S[0].env)
        st, er = vlib.mpirun(len(S), [exe, lg + ".script", lg, "out"], d, e)
        for k, s in enumerate(S):
            r = s.r = vlib.Run(s.name, [], s.env, s.dir)
            r.status, r.events = st, []
            f = "%s.%d" % (lg, k)
            try:
                for l in open(f, errors="replace"):
                    r.events.append(json.loads(l))
            except (OSError, ValueError):
                pass
            rd = lambda x: open(f + x, errors="replace").read() if os.path.exists(f + x) else ""
            r.out, r.err = rd(".out"), rd(".err") + er
            s.tr = s.trace(root)


def chain(rng, name, ranks, solo=None):
    """jobs of one directory: [[scenario of each rank] of each mpirun]; solo: alone, as rank 0"""
    env = {"APOLLO_TRACE_POLICY": rng.choice("01"), "APOLLO_TRACE_BEST_POLICIES": rng.choice("01")}
    store, csv = rng.random() < .7, rng.random() < .5
    gper, rper = rng.choice([0, 0, 3, 7]), rng.choice([0, 0, 4])
    names = rng.sample(["a", "b", "1-a", "reg x" if not csv else "reg-x", "0", "latest", "rank", "z" * 63], 3)
    seeds = [[rng.randrange(10**9) for _ in range(ranks)] for _ in range(3)]
    out = []
    prev = [[] for _ in range(ranks)]
    for t in range(rng.choice([1, 2, 2])):
        job = []
        for k in range(ranks):
            if solo is not None and k != solo:
                job.append(None)
                continue
            q = random.Random(seeds[t][k])
            rk = k if solo is None else 0
            old, Scn0 = gen.Scn, gen.Scn
            def mk(*a, **kw):
                s = Scn0(*a, **kw)
                s.rank = rk
                return s
            gen.Scn = mk
            try:
                regs = None
                if t:      # what this rank stored before
                    regs = []
                    for d in prev[k]:
                        if store and d["mdl"] in ("DecisionTree", "RandomForest") and d["r"] in d.get("trained", ()):
                            regs.append(dict(d, info=d["mdl"] + ",load", min=0))
                        else:
                            regs.append(d)
                w = Wide("%s-t%d-k%d" % (name, t, k), seeds[t][k], nreg=q.choice([1, 2, 3]), names=names, models=MODELS, steps=n(45, 120),
                         gper=gper, rper=rper, persist=False, store=store, csv=csv, env=env, track=True, mins=(0, 0, 2, 5), hows=("small", "int"),
                         maxnf=3, maxnp=5, dirname=name if solo is None else "%s-k%d" % (name, k), fresh=t == 0, regions=regs)
            finally:
                gen.Scn = old
            s = w.s
            bye = s.ops.pop()
            # trained for certain at the end: stored as the latest model
            if t == 0 and store:
                for d in w.regs:
                    if d["mdl"] in ("DecisionTree", "RandomForest") and d in w.created:
                        s.insert(d["r"], d["vecs"][0], q.randrange(d["np"]), .5)
                        s.train(d["r"], 5, True, True)
                        d["trained"] = [d["r"]]
            if q.random() < .6:          # an Optimal region reads its rank's file (all ranks write theirs first)
                seq = [q.randrange(4) for _ in range(8)]
                s.raw("write %s %s" % (esc("opt-opt-rank-%d.txt" % rk), esc(",".join(str(x) for x in seq))))
                s.ops.insert(0, s.ops.pop())
                s.create("opt", 1, 4, "Optimal")
                for x in seq[:q.randint(1, 8)]:
                    c = s.begin("opt", style="vec", feats=[1.0])
                    s.pol(c, opt=x)
                    s.endm(c, .25)
            s.ops.append(bye)
            s.post = final_post(None, csv=csv, traces=True)
            prev[k] = [{a: b for a, b in d.items() if a not in ("after", "kw")} for d in w.regs]
            job.append(s)
        out.append(job)
    return out


def kchain(rng, name, ranks, solo=None):
    """as chain, with the Kokkos connector: a later job's ranks start from their own stored models"""
    ins, outs, P = kk.problems(rng, rng.choice([1, 2, 3]), rng.choice([2, 6, 20]))
    flush = rng.choice([2, 3, 5, 7])
    env = {"APOLLO_OUTPUT_DIR": "out"} if rng.random() < .4 else {}
    seeds = [[rng.randrange(10**9) for _ in range(ranks)] for _ in range(3)]
    lens = [[rng.choice([8, 25, 60]) for _ in range(ranks)] for _ in range(3)]
    out = []
    for t in range(rng.choice([2, 2, 3])):
        job = []
        for k in range(ranks):
            if solo is not None and k != solo:
                job.append(None)
                continue
            q = random.Random(seeds[t][k])
            s = kk.K("%s-t%d-k%d" % (name, t, k), [], args=["--flush-rate=%d" % flush], env=env, dir=name if solo is None else "%s-k%d" % (name, k), fresh=t == 0, track=True)
            s.rank = k if solo is None else 0
            s.post = final_post(None)
            s.clock()
            kk.declare_all(s, q, ins, outs)
            kk.history(s, q, P, lens[t][k])
            s.exit()
            job.append(s)
        out.append(job)
    return out


def execute(exe, chains, root):
    def one(c):
        for job in c:
            Job([s for s in job if s is not None]).run(exe, root)
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(one, chains))
    # the runs of one rank follow each other
    return [[job[k].tr for job in c] for c in chains for k in range(len(c[0])) if c[0][k] is not None]


def c24(chk):
    exe = vlib.build("mpi")
    with vlib.Scratch("C24mc") as root:
        for nr, ops in ([(2, 3), (3, 2)] if not T else [(2, 4), (3, 3)]):
            cfg = "SPECIFICATION Spec\nCONSTANTS NR = %d\nMaxOps = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Independent Disjoint Complete\n" % (nr, ops)
            rc, o = vlib.tlc("RanksMC", cfg, os.path.join(root, "m%d" % nr), workers=8, timeout=2000, mem="6g")
            if "No error has been found" not in o:
                raise vlib.ToolError("RanksMC failed:\n" + o[-3000:])
            chk.add_mc(*vlib.tlc_stats(o))
            chk.count("model_configs")
    rng = rngs("c24")
    spec = [(rng.randrange(10**9), rng.choice([2, 2, 3, 4])) for _ in range(n(30, 250))]
    build = lambda i, solo=None: (kchain if i % 5 == 4 else chain)(random.Random(spec[i][0]), "j%d" % i, spec[i][1], solo)
    def go(ids, solo=None):
        """ids: chains, or (chain, rank) for ranks alone; returns mismatches by run name"""
        with vlib.Scratch(chk.prop) as root:
            cs = [build(i) for i in ids] if solo is None else [build(i, k) for i, k in solo]
            tr = execute(exe, cs, root)
            m, g, d = scn.tla_run(chk.prop, [t for c in tr for t in c], root)
        return m, g, d, cs, tr
    m, g, d, cs, tr = go(range(len(spec)))
    chk.add_mc(g, d)
    chk.count("traces_validated_against_impl", sum(len(c) for c in tr))
    chk.count("trace_events", sum(len(t) for c in tr for t in c))
    chk.count("jobs", sum(len(c) for c in cs))
    for c in cs[:2]:
        chk.sample({"run": c[0][0].name, "ranks": len(c[0]), "env": c[0][0].env, "script": [o[0] for o in c[0][0].ops][:12]})
    if not m:
        return
    ids = sorted({int(re.match(r"j(\d+)-", x["run"]).group(1)) for x in m})[:12]
    m, _, _, cs, _ = go(ids)
    # a rank that is rejected alone as well is not disturbed by the others
    who = sorted({tuple(int(y) for y in re.match(r"j(\d+)-t\d+-k(\d+)", x["run"]).groups()) for x in m if not set(x["labels"]) & BYNAME})
    alone = {x["run"] for x in go(None, who)[0]} if who else set()
    for x in m:
        if not set(x["labels"]) & BYNAME and x["run"] in alone:
            chk.count("rejected_alone_too")
            continue
        s = [s for c in cs for job in c for s in job if s.name == x["run"]][0]
        chk.violation("%s at %s" % (",".join(x["labels"]), json.dumps(x["line"])[:400]),
                      {"run": s.name, "rank": s.rank, "env": s.env, "script": [o[0] for o in s.ops], "event": x["line"], "stderr": s.r.err[-1500:]})
