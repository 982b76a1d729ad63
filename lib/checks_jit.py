"""JIT-compiled trees (C19): a JIT build and an interpreting build exchange models; both are
judged by the tree specification and by the identity of stored models (ApolloTrace)."""
import glob, os, random, stat, time
import vlib, scn, gen
from scn import Scn, g9, f32
from checks_core import n, T, rngs
from checks_models import Points, ask, tree_event, perfect_event, forest_event
from checks_store import probes, probe


def info_of(rng, mdl):
    depth = rng.choice([0, 1, 2, 4, 30])
    if mdl == "DecisionTree":
        return "DecisionTree,max_depth=%d" % depth, depth, 1
    nt = rng.choice([1, 2, 3, 5])
    return "RandomForest,num_trees=%d,max_depth=%d" % (nt, depth), depth, nt


def exchange(rng, jit, main, k):
    L = []
    for i in range(k):
        mdl = rng.choice(["DecisionTree", "DecisionTree", "RandomForest"])
        nf, np = rng.choice([1, 1, 2, 3, 6]), rng.choice([2, 3, 5, 20])
        info, depth, nt = info_of(rng, mdl)
        d = "x%d" % i
        mkP = lambda: Points(rng, rng.choice([1, 2, rng.randint(3, 24), rng.randint(3, 24)]), nf, np, exact=rng.random() < (.5 if mdl == "DecisionTree" else .75), shape=rng.choice(["rand", "rand", "axis", "diag"]))
        # JIT: trained, asked, stored, trained again, loaded back
        a = Scn(d + "a", dir=d, timeout=120)
        a.exe_ = jit
        a.create("a", nf, np, info)
        P = mkP()
        P.inserts(a, "a")
        a.train("a", 0)
        qs = P.queries(10)
        ask(a, "a", P, qs, 0)
        V = probes(rng, P, n(30, 60), mdl)
        probe(a, "a", V, mdl)
        a.store("a", "jf")
        a.mark(tree_event("a", P, qs, 0, depth) if mdl == "DecisionTree" else forest_event("a", P, qs, 0, depth, nt, "jf"))
        if rng.random() < .6:
            a.raw("clear a", dict(e="clear", r="a"), True)
            Q = mkP()
            Q.inserts(a, "a")
            a.train("a", 1, True, True)
            q2 = Q.queries(6)
            ask(a, "a", Q, q2, 1)
            probe(a, "a", V[:5], mdl)
            a.store("a", "jf2")
            a.mark(tree_event("a", Q, q2, 1, depth) if mdl == "DecisionTree" else forest_event("a", Q, q2, 1, depth, nt, "jf2"))
            if rng.random() < .7:
                a.load("a", "jf")
                probe(a, "a", V, mdl)
        if rng.random() < .5:
            a.create("b", nf, np, mdl + ",load=jf")
            probe(a, "b", rng.sample(V, min(len(V), 8)), mdl)
        a.exit()
        L.append(a)
        # interpreting build: the same stored model, then its own
        b = Scn(d + "b", dir=d, fresh=False)
        b.exe_ = main
        b.create("a", nf, np, mdl + ",load=jf")
        probe(b, "a", V, mdl)
        b.create("c", nf, np, info)
        R = mkP()
        R.inserts(b, "c")
        b.train("c", 0)
        W = probes(rng, R, n(30, 60), mdl)
        probe(b, "c", W, mdl)
        b.store("c", "mf")
        b.exit()
        L.append(b)
        # JIT: the interpreting build's model
        c = Scn(d + "c", dir=d, fresh=False, timeout=120)
        c.exe_ = jit
        how = rng.choice(["param", "yaml", "factory", "load"])
        if how == "factory":
            c.mload("f", mdl, np, "mf")
            for v in W:
                c.mq("f", v)
        else:
            if how == "load":
                c.create("a", nf, np, info)
                P.inserts(c, "a")
                c.train("a", 0)
                probe(c, "a", W[:4], mdl)
                c.load("a", "mf")
            else:
                c.create("a", nf, np, mdl + (",load=mf" if how == "param" else ""), yaml="mf" if how == "yaml" else "")
            probe(c, "a", W, mdl)
            for v in rng.sample(W, min(len(W), 3)):
                c.exe("a", v, metric=.25, style=rng.choice(["ctx", "vec", "c"]))
        c.exit()
        L.append(c)
    return L


def many(rng, jit, main, k):
    """many models alive in one process, asked in turn; some trained again, some loaded"""
    L = []
    for i in range(k):
        d = "m%d" % i
        s = Scn(d, dir=d, timeout=200)
        s.exe_ = jit
        regs, stored = [], []
        for j in range(rng.choice([4, 8, 14])):
            r = "r%d" % j
            nf, np = rng.choice([1, 2]), rng.choice([2, 3, 5])
            depth = rng.choice([1, 2, 30])
            s.create(r, nf, np, "DecisionTree,max_depth=%d" % depth)
            P = Points(rng, rng.randint(2, 10), nf, np)
            P.inserts(s, r)
            regs.append([r, P, depth, None, nf, np])
        rng.shuffle(regs)
        for x in regs:
            s.train(x[0], 0)
        t = 0
        for rd in range(2):
            order = [(x, c) for x in regs for c in x[1].queries(4)]
            rng.shuffle(order)
            got = {}
            for x, c in order:
                t += 1
                s.q(x[0], x[1].val(c), tag=t)
                got.setdefault(x[0], []).append((c, t))
            for x in regs:
                def ev(s, x=tuple(x), g=got[x[0]]):
                    if any(tt not in s.seen for _, tt in g):
                        return None
                    return dict(e="tree", r=x[0], pts=x[1].pts(), depth=x[2], q=[dict(x=list(c), p=s.seen[tt]["p"]) for c, tt in g])
                s.mark(ev)
            if rd == 0:
                for x in rng.sample(regs, len(regs) // 2):
                    s.raw("clear " + x[0], dict(e="clear", r=x[0]), True)
                    x[1] = Points(rng, rng.randint(2, 10), x[4], x[5])
                    x[1].inserts(s, x[0])
                    s.train(x[0], 1, True, True)
        for x in regs:
            V = probes(rng, x[1], 8, "DecisionTree")
            probe(s, x[0], V, "DecisionTree")
            s.store(x[0], "f" + x[0])
            x[3] = V
        s.exit()
        L.append(s)
        b = Scn(d + "b", dir=d, fresh=False, timeout=200)
        b.exe_ = main if rng.random() < .5 else jit
        for x in regs:
            b.create(x[0], x[4], x[5], "DecisionTree,load=f" + x[0])
        rng.shuffle(regs)
        for x in regs:
            probe(b, x[0], x[3], "DecisionTree")
        b.exit()
        L.append(b)
    return L


WRAP = """#!/bin/sh
# the compiler, then a rendezvous: goes on once all processes of the group have compiled
%s "$@"
rc=$?
if [ -n "$VP_SYNC" ]; then
  n=$(ls "$VP_SYNC" | grep -c "^$VP_ME-")
  : > "$VP_SYNC/$VP_ME-$n"
  i=0
  while [ $i -lt 60 ]; do
    all=1
    for m in $VP_ALL; do [ -e "$VP_SYNC/$m-$n" ] || all=0; done
    [ $all = 1 ] && break
    sleep 0.05; i=$((i+1))
  done
fi
exit $rc
"""


def together(rng, jit, k):
    """groups of processes that compile at the same time, each its own trees"""
    out = []
    for i in range(k):
        m = rng.choice([2, 3, 4])
        G = []
        names = ["p%d" % j for j in range(m)]
        for j in range(m):
            s = Scn("t%d-%d" % (i, j), timeout=200)
            s.group = (i, names[j], names)
            s.exe_ = jit
            for t in range(2):
                r = "r%d" % t
                nf, np = 1, 3
                s.create(r, nf, np, "DecisionTree,max_depth=%d" % 4)
                P = Points(rng, rng.randint(4, 10), nf, np)
                P.inserts(s, r)
                s.train(r, 0)
                qs = P.queries(6)
                ask(s, r, P, qs, t)
                s.mark(tree_event(r, P, qs, t, 4))
            s.exit()
            G.append(s)
        out.append(G)
    return out


def cleanup(t0, pids):
    for f in glob.glob("/tmp/_jit_eval_*"):
        try:
            if os.path.getmtime(f) >= t0 - 5:
                os.remove(f)
        except OSError:
            pass


def run_group(G, root):
    """all processes of a group at once, with a compiler that waits for the others"""
    root = os.path.join(root, "g" + G[0].name)
    bindir = os.path.join(root, "bin")
    os.makedirs(bindir, exist_ok=True)
    w = os.path.join(bindir, "c++")
    real = "/usr/bin/c++"
    if not os.path.exists(w):
        with open(w, "w") as f:
            f.write(WRAP % real)
        os.chmod(w, 0o755)
    sync = os.path.join(root, "sync-%s" % G[0].name)
    os.makedirs(sync, exist_ok=True)
    for s in G:
        s.env = dict(PATH=bindir + ":" + os.environ.get("PATH", "/usr/bin:/bin"), VP_SYNC=sync, VP_ME=s.group[1], VP_ALL=" ".join(s.group[2]))
    vlib.execute(G[0].exe_, [s.run() for s in G], root, jobs=len(G))
    for s in G:
        s.tr = s.trace(root)
    return [s.tr for s in G]


# ------------------------------------------------------------------ C19
def c19(chk):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        main, jit = ex.map(vlib.build, ["main", "jit"])
    t0 = time.time()
    rng = rngs("c19")
    L = exchange(rng, jit, main, n(40, 400)) + many(rng, jit, main, n(4, 40))
    m = []
    try:
        m = scn.run_and_validate(chk, jit, L)
        groups = together(rng, jit, n(6, 40))
        def all_groups(root):
            out = []
            with cf.ThreadPoolExecutor(3) as ex:
                for x in ex.map(lambda G: run_group(G, root), groups):
                    out += x
            return out
        with vlib.Scratch("C19t") as root:
            tr = all_groups(root)
            mism, g, d = scn.tla_run(chk.prop, tr, root, tag="g")
        chk.add_mc(g, d)
        chk.count("traces_validated_against_impl", len(tr))
        chk.count("concurrent_process_groups", len(groups))
        if mism:
            # a race: repeated a few times
            names = {x["run"] for x in mism}
            groups[:] = [G for G in groups if any(s.name in names for s in G)]
            for k in range(4):
                with vlib.Scratch("C19t") as root:
                    tr = all_groups(root)
                    mism2, _, _ = scn.tla_run(chk.prop, tr, root, tag="h")
                if mism2:
                    for x in mism2:
                        s = [y for G in groups for y in G if y.name == x["run"]][0]
                        chk.violation("%s at %s" % (",".join(x["labels"]), str(x["line"])[:300]), {"run": s.name, "group": s.group, "script": [o[0] for o in s.ops], "stderr": s.r.err[-800:]})
                    break
            else:
                chk.count("unrepeated_rejections", len(mism))
            m = m + mism
    finally:
        cleanup(t0, None)
    return m
