"""Scenarios: a builder that writes driver scripts together with what the trace
specification needs to know about each call, and the conversion of recorded
logs into trace lines."""
import json, math, os, re, struct, zlib
import vlib
from vlib import esc

F32 = struct.Struct("f")


def f32(x):
    return F32.unpack(F32.pack(x))[0]


def g9(x):
    x = f32(x)
    return "%.9g" % (0.0 if x == 0 else x)


def hexd(x):
    return struct.pack(">d", float(x)).hex()


def parse_info(info):
    p = info.split(",")
    prm = {}
    for kv in p[1:]:
        k, _, v = kv.partition("=")      # the first "=" ends the key
        prm.setdefault(k, v)
    return p[0], prm


class Scn:
    def __init__(self, name, env=None, dir=None, scale=20, timeout=60, expect="ok", fresh=True, track=False):
        self.name, self.env, self.dir, self.scale = name, dict(env or {}), dir or name, scale
        self.timeout, self.expect, self.fresh, self.track = timeout, expect, fresh, track
        self.ops = []       # (line, logged?, event dict or None)
        self.regions = []
        self.rkind = {}
        self.nctx = 0
        self.rank = 0
        self.post = None    # hook(scn, root) -> extra events before 'fin'
        self.raw("rnd %d" % (zlib.crc32(name.encode()) + 7919 * vlib.SEED))
        if scale != 20:
            self.raw("scale %d" % scale)
        if track:
            self.raw("track")

    def env_i(self, k, d=0):
        try:
            return int(self.env.get("APOLLO_" + k, d))
        except ValueError:
            return 0

    def mdir(self):
        return self.env.get("APOLLO_OUTPUT_DIR", ".apollo") + "/" + self.env.get("APOLLO_MODELS_DIR", "models")

    # ---- primitive
    def raw(self, line, ev=None, logged=False):
        self.ops.append((line, logged, ev))
        return self

    def units(self, m):
        return int(round(m * 2.0 ** self.scale))

    # ---- calls
    def clock(self, mono=10**15, real=17 * 10**17, tick=0):
        return self.raw("clock %d %d %d" % (mono, real, tick))

    def create(self, r, nf, np, info="", min=0, api="cpp", yaml="", par=None, mdl=None, expl=None, tr=None, lenient=False):
        name, prm = parse_info(info or self.env.get("APOLLO_POLICY_MODEL", "Static,policy=0"))
        stored = r[:63]
        kind = name
        p = 0
        if name == "Static":
            p = int(prm.get("policy", "0"))
        elif name == "StaticRegion":
            kind = "Static"
            p = int(prm.get(r, "0"))
        if p >= np:
            p = 0
        trainable = name in ("DecisionTree", "RandomForest", "PolicyNet") and not (("load" in prm or yaml) and name != "PolicyNet")
        if stored not in self.regions:
            self.regions.append(stored)
        self.rkind[r] = kind
        lf = [yaml] if yaml else []
        if "load" in prm:
            lf.append(prm["load"] or "%s/%s-latest-rank-%d-%s.yaml" % (self.mdir(), name, self.rank, stored))
        ev = dict(e="create", r=r, nf=nf, np=np, min=min, lf=lf, mdl=mdl or kind, par=p if par is None else par,
                  exp=expl or prm.get("explore", "RoundRobin"), tr=trainable if tr is None else tr,
                  ord=sorted(self.regions), ldds="load-dataset" in prm or name == "DatasetMap", ldtr="load-dataset" in prm)
        return self.raw("create %s %s %d %d %d %s %s" % (esc(r), api, nf, np, min, esc(info), esc(yaml)), ev, True)

    def newctx(self):
        self.nctx += 1
        return "c%d" % self.nctx

    def begin(self, r, c=None, style="ctx", feats=None, ms=0.0):
        c = c or self.newctx()
        extra = ""
        kind, fs, dur = "sync", [], 0
        if style == "vec":
            extra = " " + fl(feats)
            fs = [g9(x) for x in feats]
        elif style.startswith(("cuda", "hip")):
            extra = " " + repr(float(ms))
            kind, dur = "async", self.units(f32(ms) / 1000.0)
        self.raw("begin %s %s %s%s" % (esc(r), c, style, extra), dict(e="begin", r=r, c=c, kind=kind, feats=fs, dur=dur), True)
        return c

    def feat(self, c, v):
        return self.raw("feat %s %s" % (c, repr(f32(v))), dict(e="feat", c=c, v=g9(v)), True)

    def pol(self, c, opt=-1):
        return self.raw("pol %s" % c, dict(e="pol", c=c, opt=opt), True)

    def end(self, c):
        return self.raw("end %s" % c, dict(e="end", c=c), True)

    def endm(self, c, m):
        return self.raw("endm %s %s" % (c, float(m).hex()), dict(e="endm", c=c, m=self.units(m), x=hexd(m)), True)

    def done(self, c):
        return self.raw("done %s" % c, dict(e="done", c=c), True)

    def adv(self, ns):
        # units of the total, so that rounding does not accumulate
        t0 = getattr(self, "elapsed", 0)
        self.elapsed = t0 + ns
        d = self.units(self.elapsed / 1e9) - self.units(t0 / 1e9)
        if self.units(self.elapsed / 1e9) >= 2**31 - 2**20:
            raise vlib.ToolError("scenario %s: clock beyond the specification's integers" % self.name)
        return self.raw("adv %d" % ns, dict(e="adv", d=d), False)

    def jump(self, ns):
        return self.raw("jump %d" % ns)

    def train(self, r, step=0, collect=True, force=False, api="cpp"):
        ev = dict(e="train", r=r, step=step, collect=bool(collect), force=bool(force))
        if api == "c":
            ev.update(collect=True, force=False)
            return self.raw("ctrain %s %d" % (esc(r), step), ev, True)
        return self.raw("train %s %d %d %d" % (esc(r), step, collect, force), ev, True)

    def traina(self, step=0, collect=None, flush=False):
        if self.env_i("GLOBAL_TRAIN_PERIOD"):
            # collecting may trigger a global training in between: what each region has learned
            # from by then would depend on the order of regions, which nothing promises
            collect, flush = False, False
        ev = dict(e="traina", step=step, collect=True if collect is None else bool(collect))
        if flush:
            return self.raw("flush %d" % step, dict(ev, collect=True), True)
        return self.raw("traina %d%s" % (step, "" if collect is None else " %d" % collect), ev, True)

    def collect(self, r):
        return self.raw("collect %s" % esc(r), dict(e="collect", r=r), True)

    def q(self, r, feats, tag=None):
        return self.raw("q %s %s" % (esc(r), fl(feats)), dict(e="q", r=r, tag=tag), True)

    def best(self, r):
        return self.raw("best %s" % esc(r), dict(e="best", r=r), True)

    def insert(self, r, feats, p, m):
        return self.raw("insert %s %s %d %s" % (esc(r), fl(feats), p, float(m).hex()),
                        dict(e="insert", r=r, k=[g9(x) for x in feats], p=p, m=self.units(m)), True)

    def bulk(self, r, ents):
        """many measurements (features, policy, value) of different entries, observed together"""
        return self.raw("bulk %s %s" % (esc(r), ";".join("%s:%d:%s" % (fl(f), p, float(m).hex()) for f, p, m in ents)),
                        dict(e="bulk", r=r, ins=[dict(k=[g9(x) for x in f], p=p, m=self.units(m)) for f, p, m in ents]), True)

    def seq(self, r, feats, n, np):
        """n requests in a row of an exploring (RoundRobin) region"""
        return self.raw("seq %s %s %d %d" % (esc(r), fl(feats), n, np), dict(e="seq", r=r, n=n), True)

    def mem(self, slack=8192):
        """heap, files and device events now"""
        return self.raw("mem", dict(e="mem", slack=slack), True)

    def loop(self, r, style, cnt, vs, lag=0, metric=None):
        """cnt whole executions in one go, at most lag + 1 unfinished device executions at a time"""
        return self.raw("loop %s %s %d %d %s %s" % (esc(r), style, cnt, lag, "-" if metric is None else float(metric).hex(), ";".join(fl(v) for v in vs)),
                        dict(e="loop", r=r, n=cnt, lag=lag), True)

    def rep(self, what, r, cnt, arg="-"):
        return self.raw("rep %s %s %d %s" % (what, esc(r), cnt, arg), dict(e="rep"), True)

    def nop(self, line):
        return self.raw(line, dict(e="nop"), True)

    def load(self, r, f):
        return self.raw("load %s %s" % (esc(r), esc(f)), dict(e="load", r=r, f=f), True)

    def store(self, r, f):
        return self.raw("store %s %s" % (esc(r), esc(f)), dict(e="store", r=r, f=f), True)

    def mload(self, m, name, np, f):
        self.mnp = getattr(self, "mnp", {})
        self.mnp[m] = np
        return self.raw("mload %s %s %d %s" % (m, name, np, esc(f)), dict(e="mload", m="m:" + m, f=f), True)

    def mq(self, m, feats, tag=None):
        return self.raw("mq %s %s" % (m, fl(feats)), dict(e="mq", m="m:" + m, np=self.mnp[m], tag=tag), True)

    def mstore(self, m, f):
        return self.raw("mstore %s %s" % (m, esc(f)), dict(e="mstore", m="m:" + m, f=f), True)

    def mtrainable(self, m):
        return self.raw("mtrainable %s" % m, dict(e="mtrainable", m="m:" + m), True)

    def draw(self, r, feats, n, pr=None, tol=0, zero=False, some=False):
        """n requests for the same features; pr: name of the probs event to compare with"""
        return self.raw("draw %s %s %d" % (esc(r), fl(feats), n), dict(e="draw", r=r, n=n, pr=[], tol=tol, zero=zero, some=some, use=pr), True)

    def probs(self, r, feats, tag=None):
        return self.raw("probs %s %s" % (esc(r), fl(feats)), dict(e="probs", r=r, tag=tag), True)

    def copy(self, f, g, nbytes=-1, dr="", dq=""):
        """copies (the first nbytes bytes of) file f to g before the next call"""
        return self.raw("cut %s %s %d" % (esc(f), esc(g), nbytes), dict(e="copy", f=f, g=g, dr=dr, dq=dq), False)

    def mark(self, ev):
        """an event without a call: ev is a dict or a function of the recorded events"""
        self.ops.append((None, False, ev))
        return self

    def exit(self, drain=None, polls=2):
        return self.raw("exit %s %d" % (",".join(drain) if drain else "-", polls), dict(e="exit"), True)

    def exe(self, r, feats, metric=None, style="ctx", ns=None):
        """one whole synchronous execution"""
        if style == "vec":
            c = self.begin(r, style=style, feats=feats)
        else:
            c = self.begin(r, style=style)
            for v in feats:
                self.feat(c, v)
        self.pol(c)
        if ns is not None:
            self.adv(ns)
        if metric is None:
            self.end(c)
        else:
            self.endm(c, metric)
        return c

    # ---- run + conversion
    def run(self):
        if not any(o[0].startswith("exit") for o in self.ops[-1:]):
            self.exit()
        self.r = vlib.Run(self.name, [o[0] for o in self.ops if o[0] is not None], self.env, self.dir, self.timeout)
        return self.r

    def cfg(self):
        od = self.env.get("APOLLO_OUTPUT_DIR", ".apollo")
        return dict(persist=bool(self.env_i("PERSISTENT_DATASETS")), gper=self.env_i("GLOBAL_TRAIN_PERIOD"),
                    rper=self.env_i("PER_REGION_TRAIN_PERIOD"), store=bool(self.env_i("STORE_MODELS")),
                    single=bool(self.env_i("SINGLE_MODEL")), csv=bool(self.env_i("TRACE_CSV")),
                    bestp=bool(self.env_i("TRACE_BEST_POLICIES")), ptrace=bool(self.env_i("TRACE_POLICY")), cut={}, rank=self.rank, track=self.track, kflush=getattr(self, "kflush", 500),
                    mdir=od + "/" + self.env.get("APOLLO_MODELS_DIR", "models"))

    def trace(self, root=None):
        """trace lines of the recorded run"""
        self.root = root
        out = [dict(e="run", run=self.name, cfg=self.cfg(), fresh=self.fresh)]
        ev = iter(self.r.events)
        complete = True
        self.seen = {}
        for line, logged, spec in self.ops:
            if not logged:
                if callable(spec):
                    x = spec(self)
                    if x is not None:
                        out += x if isinstance(x, list) else [x]
                elif spec is not None:
                    out.append(dict(spec))
                continue
            g = next(ev, None)
            if g is None:
                complete = False
                break
            o = dict(spec)
            if "conv" in o:
                o.update(o.pop("conv")(g))
            o.update(ds=[norm(e) for e in g.get("ds", [])], rm=[norm(e) for e in g.get("rm", [])], st=g.get("st", []), fl=g.get("fl", []))
            if spec["e"] in ("pol", "q", "mq"):
                o["p"] = g["p"]
            if spec["e"] in ("q", "mq", "draw", "probs", "seq"):
                o["k"] = key(g["k"])
                tag = o.pop("tag", None)
                if tag is not None:
                    self.seen[tag] = g
            if spec["e"] in ("draw", "seq"):
                o["h"] = g["h"]
            if spec["e"] == "draw":
                use = o.pop("use")
                if use is not None and self.seen.get(use, {}).get("via") == "cache":
                    o["pr"] = self.seen[use]["pr"]
            if spec["e"] == "probs":
                o.update(pr=g["pr"], cached=g["cached"], hx=g["hx"], via=g["via"])
            if spec["e"] in ("loop", "mem"):
                o.update({x: g[x] for x in ("b", "f", "lv", "peak") if x in g})
            if spec["e"] == "mtrainable":
                o["t"] = g["t"]
            if spec["e"] == "best":
                o["b"] = [norm(e) for e in g["b"]]
                o["l"] = [norm(e) for e in g["l"]]
            out.append(o)
        self.complete = complete
        if complete and self.r.status == "ok" and self.post:
            out += self.post(self, root)
        if out[0]["cfg"]["ptrace"] or out[0]["cfg"]["bestp"]:
            out[0]["cfg"]["cut"] = cuts(out[1:])
        out.append(dict(e="fin", conf=getattr(self, "conf", []), status=self.r.status, expect=[self.expect] if isinstance(self.expect, str) else list(self.expect)))
        return out


def cuts(x):
    """the features in events that are not whole numbers: how the traces print them"""
    d = {}
    if isinstance(x, dict):
        for v in x.values():
            d.update(cuts(v))
    elif isinstance(x, list):
        for v in x:
            d.update(cuts(v))
    elif isinstance(x, str) and re.fullmatch(r"-?\d+(\.\d+)?(e[-+]\d+)?", x) and abs(float(x)) < 2**31 and x != "%d" % int(float(x)):
        d[x] = "%d" % int(float(x))
    return d


def fl(feats):
    return ",".join(repr(f32(x)) for x in feats) or "-"


def key(k):
    return k.split(",") if k else []


def norm(e):
    e = dict(e)
    e["k"] = key(e["k"])
    return e


# ------------------------------------------------------------------ final observations
def policy_rows(text, rank):
    """rows of a policy trace; anything unexpected becomes a row that matches nothing"""
    out = []
    for l in text.split("\n")[:-1]:
        m = re.fullmatch(r"Rank (\d+) region (.*) model (\S+) features \[ (.*)\] policy (-?\d+)", l)
        if m and int(m.group(1)) == rank:
            out.append(dict(r=m.group(2), m=m.group(3).split(",")[0], f=[x for x in m.group(4).split(", ") if x], p=m.group(5)))
        else:
            out.append(dict(r=l, m="?", f=[], p="?"))
    if text and text[-1] != "\n":
        out.append(dict(r="incomplete line", m="?", f=[], p="?"))
    return out


def best_file(text, rank, units):
    L = text.split("\n")
    m = re.fullmatch(r"=== Rank (\d+) BEST POLICIES Region (.*) ===", L[0])
    if not m or int(m.group(1)) != rank or L[-1] != "":
        return dict(r="?", b=[])
    b = []
    for l in L[1:-1]:
        x = re.fullmatch(r"\[ (.*)\] P:(-?\d+) T: (\S+)", l)
        try:
            b.append(dict(k=[y for y in x.group(1).split(", ") if y], p=int(x.group(2)), u=units(float(x.group(3)))))
        except (AttributeError, ValueError):
            return dict(r="?", b=[])
    return dict(r=m.group(2), b=b)


def final_post(reader_exe, csv=False, execinfo=False, models=False, traces=False):
    """post hook: what the run left on disk. Dataset files are read back with the
    library's own loader in a separate process."""
    def post(s, root):
        d = os.path.join(root, s.dir)
        od = os.path.join(d, s.env.get("APOLLO_OUTPUT_DIR", ".apollo"))
        ev = dict(e="final", ds=[], tot=-1, hasexec=False, exec=[], csv={}, gcsv=[], hasm=False, mfiles=[], hasp=False, prows=[], pout=[], hasb=False, bf={})
        if models and s.fresh and s.env_i("STORE_MODELS") and not s.env_i("SINGLE_MODEL"):
            ev["hasm"] = True
            md = os.path.join(d, s.mdir())
            ev["mfiles"] = [s.mdir() + "/" + f for f in sorted(os.listdir(md)) if "-latest-rank-" in f] if os.path.isdir(md) else []
        if traces:
            f = os.path.join(d, "rank-%d-policies.txt" % s.rank)
            ev.update(hasp=True, prows=policy_rows(open(f).read(), s.rank) if os.path.exists(f) else [],
                      pout=policy_rows("".join(l + "\n" for l in s.r.out.split("\n") if l.startswith("Rank ")), s.rank))
        if traces:
            ev.update(hasb=True, bf={f: best_file(open(os.path.join(d, f)).read(), s.rank, s.units) for f in sorted(os.listdir(d))
                                     if f.endswith("best_policies.txt") and ("-rank-%d-" % s.rank) in f})
        dd = os.path.join(od, s.env.get("APOLLO_DATASETS_DIR", "datasets"))
        rd = getattr(s, "readback", None)
        if rd is not None:
            for x in rd.events:
                if x["e"] == "dsload":
                    rn = os.path.basename(x["f"])[len("Dataset-"):-len(".yaml")]
                    for t in x["ents"]:
                        ev["ds"].append(dict(r=rn, k=key(t["k"]), p=t["p"], u=t["u"], x=t["x"]))
        m = re.search(r"total region executions: (\d+)", s.r.err)
        if m:
            ev["tot"] = int(m.group(1))
        elif csv or execinfo:
            ev["tot"] = -2
        if execinfo:
            ev["hasexec"] = True
            f = os.path.join(od, "apollo_exec_info.csv")
            if os.path.exists(f):
                for l in open(f):
                    a, _, b = l.strip().rpartition(", ")
                    ev["exec"].append([a, int(b) if b.lstrip("-").isdigit() else -1])
        if csv:
            td = os.path.join(od, s.env.get("APOLLO_TRACES_DIR", "traces"))
            files = os.listdir(td) if os.path.isdir(td) else []
            for r in s.regions:
                rows = []
                fs = [f for f in files if f.endswith("-region-%s-rank-%d.csv" % (r, s.rank))]
                # the newest: an earlier run may have left one of another model
                for f in sorted(fs, key=lambda f: -os.stat(os.path.join(td, f)).st_mtime_ns)[:1]:
                    L = open(os.path.join(td, f)).read().split("\n")
                    if L and L[-1] != "":
                        L.append("")          # incomplete last line stays visible as a row
                    for x in L[1:-1]:
                        t = x.split(" ")
                        try:
                            rows.append(dict(rank=t[0], m=t[1].split(",")[0], r=t[2], i=t[3], f=[g9(float(y)) for y in t[4:-2]], p=t[-2], u=s.units(float(t[-1]))))
                        except (IndexError, ValueError):
                            rows.append(dict(rank="?", m="?", r=x, i="?", f=[], p="?", u=0))
                ev["csv"][r] = rows
            g = os.path.join(td, "trace-rank-%d.csv" % s.rank)
            if os.path.exists(g):
                for x in open(g).read().split("\n")[1:]:
                    t = x.split()
                    if not t:
                        continue
                    ev["gcsv"].append(dict(r=t[1], i=t[2], m=t[3], p=t[4]) if len(t) == 5 else dict(r=x, i="", m="", p=""))
        return [ev]
    return post


def readback_runs(scns, root):
    """runs that read the dataset files left by scenarios with the library's loader"""
    runs = []
    for s in scns:
        if not s.env_i("PERSISTENT_DATASETS") or s.r.status != "ok":
            continue
        od = s.env.get("APOLLO_OUTPUT_DIR", ".apollo")
        dd = od + "/" + s.env.get("APOLLO_DATASETS_DIR", "datasets")
        p = os.path.join(root, s.dir, dd)
        fs = sorted(os.listdir(p)) if os.path.isdir(p) else []
        lines = ["scale %d" % s.scale] + ["dsload %s" % esc(dd + "/" + f) for f in fs] + ["exit"]
        s.readback = vlib.Run("rb-" + s.name, lines, {}, s.dir, 60)
        runs.append(s.readback)
    return runs


# ------------------------------------------------------------------ validation
def tla_run(prop, traces, root, focus=None, chunks=None, module="ApolloTrace", tag="v"):
    """validates lists of trace lines (one list per run) with TLC; returns mismatches, stats"""
    import concurrent.futures as cf
    n = chunks or min(vlib.JOBS, max(1, sum(len(t) for t in traces) // 1500))
    parts = [[] for _ in range(n)]
    # runs sharing a directory stay together: a non-fresh run follows its predecessor
    groups, cur = [], None
    for t in traces:
        if t and t[0].get("fresh", True) or cur is None:
            cur = []
            groups.append(cur)
        cur.append(t)
    groups.sort(key=lambda g: -sum(len(t) for t in g))
    load = [0] * n
    for g in groups:
        i = load.index(min(load))
        parts[i] += g
        load[i] += sum(len(t) for t in g)
    cfg = "SPECIFICATION Spec\nCONSTANT Focus = \"%s\"\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % (focus or prop)
    def one(i):
        if not parts[i]:
            return None
        w = os.path.join(root, "tlc-%s-%d" % (tag, i))
        os.makedirs(w, exist_ok=True)
        with open(os.path.join(w, "trace.ndjson"), "w") as f:
            for t in parts[i]:
                for e in t:
                    f.write(json.dumps(e, sort_keys=True) + "\n")
        return vlib.tlc(module, cfg, w, mem="2500m")
    mism, gen, dist = [], 0, 0
    with cf.ThreadPoolExecutor(n) as ex:
        for i, res in enumerate(ex.map(one, range(n))):
            if res is None:
                continue
            rc, o = res
            m = re.search(r'<<"TRACE-END", (\d+), (\d+)>>', o)
            ee = re.search(r"Error: (TLC threw an unexpected exception|Evaluating|The error occurred|Attempted|In evaluation)", o)
            if (not m or m.group(1) != m.group(2)) and "The behavior up to this point is" in o or ee:
                # the specification has no meaning for what was observed: the run containing
                # the first line that could not be replayed is rejected
                n_ok = len(re.findall(r"^State \d+:", o, re.M))
                ls = re.findall(r"^/\\ l = (\d+)", o, re.M)
                line = int(ls[-1]) if ls else n_ok
                ev = parts_line(parts[i], line)
                nm = [t for t in parts[i] if any(x is ev for x in t)]
                mism.append(dict(run=nm[0][0]["run"], line=ev, labels=["inexplicable"], detail=o[-1500:]))
                continue
            if not m or m.group(1) != m.group(2):
                open("/tmp/vp-last-tlc.txt", "w").write(o)
                raise vlib.ToolError("TLC did not consume the trace (%s):\n%s" % (m.groups() if m else None, o[-3000:]))
            g, d = vlib.tlc_stats(o)
            gen, dist = gen + g, dist + d
            for x in re.findall(r'<< ?"MISMATCH",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}', o):
                line = parts_line(parts[i], int(x[1]))
                mism.append(dict(run=x[0], line=line, labels=re.findall(r'"([^"]+)"', x[2])))
    return mism, gen, dist


def parts_line(part, n):
    k = 0
    for t in part:
        if n <= k + len(t):
            return t[n - k - 1]
        k += len(t)
    return None


def run_and_validate(chk, exe, scns, focus=None, module="ApolloTrace", confirm=True, tag="v"):
    """executes scenarios on the real library and validates the traces; reports violations
    only when a second execution of the run is rejected as well"""
    with vlib.Scratch(chk.prop) as root:
        traces = record(exe, scns, root)
        mism, g, d = tla_run(chk.prop, traces, root, focus, module=module, tag=tag)
        chk.add_mc(g, d)
        chk.count("traces_validated_against_impl", len(traces))
        chk.count("trace_events", sum(len(t) for t in traces))
        for s in scns[:2]:
            chk.sample({"run": s.name, "env": s.env, "script": [o[0] for o in s.ops][:12]})
    if mism and confirm:
        names = {m["run"] for m in mism}
        dirs = {s.dir for s in scns if s.name in names}
        again = [s for s in scns if s.dir in dirs]
        with vlib.Scratch(chk.prop) as root:
            traces = record(exe, again, root)
            mism2, _, _ = tla_run(chk.prop, traces, root, focus, module=module, tag="c")
        names2 = {m["run"] for m in mism2}
        for m in mism2:
            s = [x for x in scns if x.name == m["run"]][0]
            chk.violation("%s at %s" % (",".join(m["labels"]), json.dumps(m["line"])[:400]),
                          {"run": s.name, "env": s.env, "script": [o[0] for o in s.ops], "event": m["line"], "stderr": s.r.err[-1500:]})
        if names - names2:
            vlib.log("note: %d rejected run(s) not repeated" % len(names - names2))
            chk.count("unrepeated_rejections", len(names - names2))
    return mism


def record(exe, scns, root):
    # runs of one directory are executed in order; dataset files are read back between them
    waves = {}
    for s in scns:
        waves.setdefault(s.dir, []).append(s)
    depth = max(len(v) for v in waves.values())
    for i in range(depth):
        cur = [v[i] for v in waves.values() if len(v) > i]
        for e in sorted({getattr(s, "exe_", exe) for s in cur}):
            vlib.execute(e, [s.run() for s in cur if getattr(s, "exe_", exe) == e], root)
        rb = readback_runs([s for s in cur if s.post], root)
        if rb:
            vlib.execute(exe, rb, root)
        for s in cur:
            s.tr = s.trace(root)
    return [s.tr for s in scns]
