"""C05-C08, C12, C14, C20: chains of modules."""
from .common import build, log

FOCUS = {"C05": "life", "C06": "fin", "C07": "info", "C08": "link", "C14": "flow", "C12": "up", "C20": "par"}


class Topo:
    """A chain under construction; ids start at 1, front (sink) first."""

    def __init__(self, rng):
        self.rng = rng
        self.kind, self.npar, self.lines = [], [], []
        self.lazy, self.quiet, self.val = [], [], []
        self.links, self.pars = [], []
        self.statics = []
        self.kids = {}

    def add(self, kind, npar=0, lazy=None):
        r = self.rng
        self.kind.append(kind)
        self.npar.append(npar)
        can = kind in ("src", "mod", "pmod", "mixd", "psrc", "mixu")
        self.lazy.append(int(can and r.random() < 0.25) if lazy is None else int(lazy))
        self.quiet.append(int(r.random() < 0.3 and kind != "const"))
        self.val.append(r.randrange(1, 50))
        return len(self.kind)

    def link(self, f, b):
        self.links.append((f, b))
        self.kids.setdefault(f, []).append(b)

    def text(self):
        L = [f"mod {i+1} {k} {self.lazy[i]} {self.quiet[i]} {self.val[i]} {self.npar[i]}" for i, k in enumerate(self.kind)]
        L += [f"static {s}" for s in self.statics]
        L += ["make"]
        ev = [("link", f, b) for f, b in self.links] + [("param", h, p) for h, p in self.pars]
        for e in ev:
            if e[0] == "link" and self.kind[e[2] - 1] == "const":
                L.append(f"setconst {e[1]} {e[2]}")
            else:
                L.append(f"{e[0]} {e[1]} {e[2]}")
        return L


def from_model(h, rng):
    t = Topo(rng)
    for i, n in enumerate(h["nodes"]):
        t.add(n["kind"], n["np"], n["lazy"])
        if i:
            if n["role"] == "b":
                t.link(n["par"], i + 1)
            else:
                t.pars.append((n["par"], i + 1))
    L = t.text()
    L += ["chain 1 8000 2 1", f"sync 1 {' '.join(str(i + 1) for i in range(len(t.kind)))}"]
    for o in h["ops"]:
        L.append(" ".join(str(x) for x in o))
    return L


def grow(t, f, depth, budget, params, dag):
    """Give module f its inputs."""
    r = t.rng
    k = t.kind[f - 1]
    n = r.choice([1, 2, 2, 3]) if k in ("mixd", "multi") else (0 if k in ("src", "psrc", "const") else 1)
    for _ in range(n):
        if dag and t.ups and r.random() < 0.4:
            t.link(f, r.choice(t.ups))
            continue
        if budget[0] <= 0 or depth > 5:
            c = "src"
        else:
            c = r.choice(["src", "mod", "mod", "mixd", "mixu", "multi"] + (["pmod", "psrc"] * 2 if params else []))
        np = r.choice([1, 2]) if c in ("pmod", "psrc") else 0
        budget[0] -= 1
        b = t.add(c, np)
        t.link(f, b)
        if c == "mixu" and dag:
            t.ups.append(b)
        grow(t, b, depth + 1, budget, params, dag)
        addpars(t, b, depth, budget, params)


def addpars(t, h, depth, budget, params):
    for _ in range(t.npar[h - 1]):
        p = t.add("param", 0, False)
        t.pars.append((h, p))
        if t.rng.random() < 0.4:
            t.link(p, t.add("const", 0, False))
        else:
            grow(t, p, depth + 2, budget, params, False)


def reach(t, f):
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += t.kids.get(x, []) + [p for h, p in t.pars if h == x]
    return sorted(seen)


def ops(t, r, n, sinks, extra=(), early=True):
    L = []
    body = sorted({m for k in sinks for m in reach(t, k) if t.kind[m - 1] != "const"})
    for _ in range(r.choice([0, 0, 1, 3]) if early else 0):     # before any sync: modules do not belong to a chain yet
        L.append(f"{r.choice(['start', 'stop', 'finish', 'done'])} {r.choice(body)}")
    for k in sinks:
        L.append(f"chain {k} {r.choice([8000, 11025, 11025, 44100, 48000])} {r.randrange(1, 6)} {r.randrange(1, 4)}")
        L.append(f"sync {k} {' '.join(map(str, reach(t, k)))}")
    for _ in range(n):
        k = r.choice(sinks)
        x = r.random()
        if x < 0.3:
            L.append(f"process {k}")
        elif x < 0.42:
            L.append(f"start {k}")
        elif x < 0.52:
            L.append(f"stop {k}")
        elif x < 0.62:
            L.append(f"finish {k}")
        elif x < 0.70:
            L.append(f"done {r.choice(body)}")
        elif x < 0.78:
            L.append(f"sync {k} {' '.join(map(str, reach(t, k)))}")
        elif x < 0.86:
            L.append(f"chain {k} {r.choice([8000, 16000, 44100])} {r.randrange(1, 6)} {r.randrange(1, 4)}")
        elif x < 0.9 and t.kind[k - 1] == "psink":
            L.append(f"period {k} {r.randrange(0, 4)}")
        elif x < 0.95:
            m = r.choice(body)
            L.append(f"{r.choice(['start', 'stop', 'finish'])} {m}")
        else:
            ps = [i + 1 for i, kk in enumerate(t.kind) if kk == "param"]
            if ps:
                p = r.choice(ps)
                hs = [h for h, q in t.pars if q == p]
                L.append(r.choice([f"process {p}", f"conf {p} {hs[0]}"]))
        L += [e(r) for e in extra if r.random() < 0.3]
    return L


def random_tree(r, params, size):
    t = Topo(r)
    t.ups = []
    root = r.choice(["sink", "sink", "psink"] + (["psnk"] if params else []))
    t.add(root, r.choice([1, 2]) if root == "psnk" else 0)
    b = [size]
    grow(t, 1, 0, b, params, False)
    addpars(t, 1, 0, b, params)
    return t


STATIC = {"s2": ["sink", "src"], "s3": ["sink", "mod", "src"], "s4": ["sink", "mod", "mod", "src"], "sd": ["sink", "mod"],
          "sx": ["sink", "mixd"], "l3": ["sink", "mod", "src"]}


def static_tree(r, shape, size):
    """A static chain, or a mixture of static and dynamic pieces."""
    t = Topo(r)
    t.ups = []
    if shape == "ds":
        t.add("sink")
        f = 1
        for _ in range(r.randrange(0, 3)):
            b = t.add("mod")
            t.link(f, b)
            f = b
        if r.random() < 0.5:
            b = t.add("mixd")
            t.link(f, b)
            t.link(b, t.add("src"))
            f = b
        ids = [t.add("mod"), t.add("mod"), t.add("src")]
        t.statics.append("ds " + " ".join(map(str, ids)))
        t.link(f, ids[0])
        t.kids.setdefault(ids[0], []).append(ids[1])
        t.kids.setdefault(ids[1], []).append(ids[2])
        return t
    ids = [t.add(k) for k in STATIC[shape]]
    t.statics.append(shape + " " + " ".join(map(str, ids)))
    for a, b in zip(ids, ids[1:]):
        t.kids.setdefault(a, []).append(b)
    if shape in ("sd", "sx"):
        grow(t, ids[-1], 1, [size], False, False)
    return t


def copy_script(r):
    """Static pieces are copied, moved and assigned; the copies are chains of their own."""
    t = Topo(r)
    t.ups = []
    kinds = r.choice([["sink", "src"], ["sink", "mod", "src"], ["sink", "mod", "mod", "src"], ["mod", "mod", "src"], ["mod", "mod", "src"]])
    n = len(kinds)
    shape = "ds" if kinds[0] == "mod" else r.choice(["s3", "l3"]) if n == 3 else f"s{n}"
    sets = [[t.add(k) for k in kinds] for _ in range(r.choice([2, 2, 3]))]
    for q in sets[1:]:              # the copies of a module are like it
        for a, b in zip(sets[0], q):
            for f in (t.lazy, t.quiet, t.val):
                f[b - 1] = f[a - 1]
    for q in sets:
        for a, b in zip(q, q[1:]):
            t.kids.setdefault(a, []).append(b)
    over = len(sets) == 2 and r.random() < 0.25
    t.statics.append(f"{shape} {' '.join(map(str, sets[0]))}")
    if over:
        t.statics.append(f"{shape} {' '.join(map(str, sets[1]))}")
    fronts = [q[0] for q in sets]
    hosts = []
    if shape == "ds":
        hosts = [t.add(r.choice(["sink", "sink", "psink"])) for _ in sets]
    L = t.text()
    if not over:
        i = next(j for j, x in enumerate(L) if x.startswith("static"))
        L.insert(i, "later " + " ".join(str(x) for q in sets[1:] for x in q))

    def join(i):
        if hosts:
            L.append(f"link {hosts[i]} {fronts[i]}")
            t.kids[hosts[i]] = [fronts[i]]
        return hosts[i] if hosts else fronts[i]
    live = []
    if r.random() < 0.8 or over:
        live.append(join(0))
        L.extend(ops(t, r, r.randrange(0, 5), live))
    if over and r.random() < 0.7:
        live.append(join(1))
        L.extend(ops(t, r, r.randrange(0, 4), live))
    for i in range(1, len(sets)):
        how = "over" if over else r.choice(["ctor", "ctor", "assign", "move", "massign"]) if i == len(sets) - 1 else r.choice(["ctor", "assign"])
        L.append(f"copy {how} {n} {' '.join(map(str, sets[0]))} {' '.join(map(str, sets[i]))}")
        k = join(i)
        if "m" == how[0]:
            live = [x for x in live if x not in (fronts[0], hosts[0] if hosts else 0)]
        if k not in live:
            live.append(k)
        L.extend(ops(t, r, 0, [k], early=False))     # the chain of a copy is open until then
        L.extend(ops(t, r, r.randrange(2, 7), live))
    return L


def relink_script(r):
    """Rewire a linear chain a few times, syncing after each change."""
    t = Topo(r)
    t.ups = []
    t.add("sink")
    n = r.randrange(2, 6)
    mods = [t.add("mod") for _ in range(n)]
    srcs = [t.add("src") for _ in range(2)]
    mx = t.add("mixd")
    L = t.text()
    for rnd in range(3):
        order = r.sample(mods, r.randrange(0, n + 1))
        chain = [1] + order + ([mx] if rnd == 0 and r.random() < 0.4 else []) + [r.choice(srcs)]
        for f, b in zip(chain, chain[1:]):
            L.append(f"link {f} {b}")
        L.append(f"chain 1 {r.choice([8000, 44100])} {r.randrange(1, 5)} {r.randrange(1, 3)}")
        L.append("sync 1 " + " ".join(map(str, chain)))
        for o in r.sample(["start", "stop", "finish", "process", "process"], 3):
            L.append(f"{o} 1")
    return L


def move_script(r):
    """Modules that were part of one chain move behind the sink of another, and back."""
    t = Topo(r)
    t.ups = []
    sinks = [t.add("sink"), t.add(r.choice(["sink", "psink"]))]
    mods = [t.add("mod") for _ in range(r.randrange(1, 5))]
    par = t.add("pmod", 1)
    p = t.add("param", 0, False)
    t.pars.append((par, p))
    t.link(p, t.add("src"))
    srcs = [t.add("src") for _ in range(2)]
    mixers = [t.add("mixd"), t.add("mixu")]
    L = t.text()
    for rnd in range(4):
        k = sinks[rnd % 2] if r.random() < 0.8 else r.choice(sinks)
        order = r.sample(mods + [par], r.randrange(1, len(mods) + 2))
        if rnd == 1 or rnd == 3 and mixers:
            order.insert(r.randrange(len(order) + 1), mixers.pop(0))
        chain = [k] + order + [r.choice(srcs)]
        for f, b in zip(chain, chain[1:]):
            L.append(f"link {f} {b}")
        L.append(f"chain {k} {r.choice([8000, 44100, 48000])} {r.randrange(1, 5)} {r.randrange(1, 3)}")
        if rnd < 2 or r.random() < 0.7:      # moved ones keep what they were told until the next sync
            L.append(f"sync {k} " + " ".join(map(str, chain + ([p] if par in chain else []))))
        for o in r.sample(["start", "stop", "finish", "process", "process"], 3):
            L.append(f"{o} {k}")
        L.append(f"done {r.choice(mods)}") if any(m in chain for m in mods) and r.random() < 0.3 and set(mods) <= set(chain) else None
    return L


def dag(r):
    """One mixer feeding several modules, possibly in different chains."""
    t = Topo(r)
    t.ups = []
    nsink = r.choice([1, 2])
    sinks = [t.add("sink") for _ in range(nsink)]
    up = t.add(r.choice(["mixu", "mixu", "multi"]))
    t.ups = [up]
    ends = []
    for k in sinks:
        if r.random() < 0.6:
            mx = t.add("mixd")
            t.link(k, mx)
            for _ in range(r.choice([2, 3])):
                if r.random() < 0.5:
                    m = t.add("mod")
                    t.link(mx, m)
                    ends.append(m)
                else:
                    ends.append(mx)
        else:
            ends.append(k)
    for e in ends:
        t.link(e, up)
    for _ in range(1 if t.kind[up - 1] == "mixu" else r.choice([1, 2, 3])):
        if r.random() < 0.5:
            m = t.add("mod")
            t.link(up, m)
            t.link(m, t.add("src"))
        else:
            t.link(up, t.add("src"))
    return t, sinks, up


def setconst_script(r):
    t = Topo(r)
    t.ups = []
    t.add("sink")
    h = t.add("pmod", 2)
    t.link(1, h)
    t.link(h, t.add("src"))
    p, q = t.add("param", 0, False), t.add("param", 0, False)
    t.pars += [(h, p), (h, q)]
    c = [t.add("const", 0, False) for _ in range(4)]
    t.link(p, c[0])
    m = t.add("mod")
    t.link(q, m)
    t.link(m, t.add("src"))
    L = t.text()
    al = [1, h, 3, p, q]
    L += [f"chain 1 8000 {r.randrange(1, 5)} {r.randrange(1, 3)}", "sync 1 " + " ".join(map(str, al))]
    for i in range(1, 4):
        L += [f"{o} 1" for o in r.sample(["start", "process", "process", "stop", "finish"], 3)]
        L.append(f"setconst {p} {c[i]}" if r.random() < 0.7 else f"setconst {q} {c[i]}")
        L.append("sync 1 " + " ".join(map(str, al)))
        L.append("process 1")
    return L


def check(c):
    pid = c.pid
    r = c.rng
    mul = 10 if c.thorough else 1
    c.assumptions += ["probe modules stand for user modules: hooks may or may not call their base, and may defer finishing",
                      "chains of up to about 20 modules, buffers of up to 5 samples and 3 channels"]
    c.model("MCChain", "MCChain_1.cfg", timeout=600)
    if c.thorough or pid in ("C05", "C07", "C20"):
        c.model("MCChain", "MCChain_2.cfg", timeout=900)
    exe = build("chain")
    scripts = []
    gens = c.generate("MCChain", "ChainGen.cfg", workers=1,
                      args=("-simulate", f"num={400 * mul}", "-depth", "30", "-seed", str(c.seed + sum(map(ord, pid)))), timeout=400)
    for i, h in enumerate(gens):
        par = any(n["kind"] == "param" for n in h["nodes"])
        if pid == "C20" and not par:
            continue
        scripts.append({"id": f"model{i}", "text": from_model(h, r)})
    share = {"C05": (160, 60, 40, 40, 40), "C06": (160, 60, 40, 40, 40), "C07": (200, 60, 60, 40, 40), "C08": (60, 120, 160, 60, 20),
             "C14": (220, 60, 20, 80, 20), "C12": (40, 0, 0, 300, 0), "C20": (200, 0, 0, 0, 160)}[pid]
    for i in range(share[0] * mul):
        t = random_tree(r, pid in ("C05", "C07", "C14", "C20") and (pid == "C20" or r.random() < 0.5), r.randrange(1, 12))
        if pid == "C20" and "param" not in t.kind:
            continue
        scripts.append({"id": f"tree{i}", "text": t.text() + ops(t, r, r.randrange(6, 16), [1])})
    for i in range(share[1] * mul):
        shape = r.choice(["s2", "s3", "s4", "sd", "sx", "l3", "ds"])
        t = static_tree(r, shape, r.randrange(1, 5))
        L = t.text()
        if pid == "C08" and shape in ("s2", "s3", "s4", "l3") and r.random() < 0.7:
            x = t.add("src")
            L = t.text() + [f"nolink 1 {x}"]
        scripts.append({"id": f"static{i}.{shape}", "text": L + ops(t, r, r.randrange(5, 14), [1])})
    for i in range(share[1] * mul // 2):
        scripts.append({"id": f"copy{i}", "text": copy_script(r)})
    for i in range(share[2] * mul):
        scripts.append({"id": f"relink{i}", "text": relink_script(r)})
    for i in range(share[2] * mul):
        scripts.append({"id": f"move{i}", "text": move_script(r)})
    for i in range(share[3] * mul):
        t, sinks, up = dag(r)
        # a mixer is driven on behalf of one chain at a time; whole-chain counts over shared parts are not specified
        L = t.text()
        L += ops(t, r, r.randrange(4, 10), sinks, extra=[lambda q: f"fetch {up} {q.randrange(1, 5)}"])
        scripts.append({"id": f"dag{i}", "text": L})
    for i in range(share[4] * mul):
        scripts.append({"id": f"setconst{i}", "text": setconst_script(r)})
    for x in scripts:           # the same with fractions of samples and of the sample rate
        if r.random() < 0.5:
            x["text"] = [f"fine {2 ** r.randrange(1, 30)} {r.choice([1, 2])}"] + x["text"]
    tr = c.conform(exe, scripts, "ChainTrace", label="chains", tenv={"VF_FOCUS": FOCUS[pid]})
    c.sensitivity("ChainTrace", list(tr.values()), CORRUPT[pid], n=5, tenv={"VF_FOCUS": FOCUS[pid]})


def _ev(m, r, pred):
    c = [e for e in m["ev"] if pred(e)]
    return r.choice(c) if c else None


def _life(m, r):
    e = _ev(m, r, lambda e: sum(1 for h in e.get("hk", []) if h[1] in (1, 2)) > 1)
    if not e:
        return False
    i = [n for n, h in enumerate(e["hk"]) if h[1] in (1, 2)]
    e["hk"][i[0]], e["hk"][i[1]] = e["hk"][i[1]], e["hk"][i[0]]
    return True


def _field(name, f):
    def g(m, r):
        e = _ev(m, r, lambda e: any(isinstance(x, list) and x for x in e.get(name, [])))
        if not e:
            return False
        i = r.choice([n for n, x in enumerate(e[name]) if isinstance(x, list) and x])
        return f(e[name][i])
    return g


def _inc(k):
    def f(x):
        x[k] += 1
        return True
    return f


def _buf(m, r):
    e = _ev(m, r, lambda e: len(e.get("buf", [])) > 2)
    if not e:
        return False
    e["buf"][-1] += 1
    return True


def _bufs(m, r):
    e = _ev(m, r, lambda e: e["op"] == "fetch" and e["bufs"] and e["bufs"][-1])
    if not e:
        return False
    e["bufs"][-1][-1] += 1
    return True


CORRUPT = {"C05": _life, "C06": _field("ci", _inc(1)), "C07": _field("info", _inc(1)), "C08": _field("info", _inc(3)),
           "C14": _buf, "C12": _bufs, "C20": _buf}
