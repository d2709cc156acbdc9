"""C09, C10, C31: buffers with their iterators, ring buffers, buffers as matrices."""
from .common import build

DUMPS = ["seq", "inter", "range", "cseq", "cinter", "rseq", "rinter", "sqinter", "sqseq"]


class Gen:
    """Keeps just enough of the state to issue operations that are allowed."""

    def __init__(self, r):
        self.r, self.L = r, []
        self.b = {}          # buffer -> [samples, channels]
        self.t = {}          # iterator -> [kind, buffer, position]
        self.x = 0
        self.step = r.choice([1, 1, 1, 100003])     # values too long for single precision

    def fresh(self):
        self.x += self.step
        return self.x

    def drop(self, b):
        self.t = {k: v for k, v in self.t.items() if v[1] != b}

    def new(self, b=None, frames=None, ch=None):
        r = self.r
        b = b or r.randrange(1, 5)
        ch = ch or r.choice([1, 1, 2, 2, 3, 4, 5])
        n = (r.choice([0, 1, 2, 3, 4, 5, 7, 8, 16]) if frames is None else frames) * ch
        self.L.append(f"new {b} {r.choice(['size', 'usize', 'vec', 'vec', 'vec', 'iter', 'make'])} {ch} "
                      f"{r.choice([8000, 44100, 48000])} " + " ".join(str(self.fresh()) for _ in range(n)))
        self.drop(b)
        self.b[b] = [n, ch]

    def shape(self):
        r = self.r
        if not self.b:
            return self.new()
        b = r.choice(list(self.b))
        n, ch = self.b[b]
        f = r.choice(["resize", "reserve", "push", "clear", "setch", "setrate", "assign", "copy", "move"])
        if f == "resize":
            k = r.choice([0, 1, 2, 3, 5, 8]) * ch
            self.L.append(f"resize {b} {k}")
            self.b[b][0] = k
        elif f == "reserve":
            self.L.append(f"reserve {b} {r.randrange(0, 64)}")
        elif f == "push":
            self.L += [f"push {b} {self.fresh()}" for _ in range(ch)]
            self.b[b][0] += ch
        elif f == "clear":
            self.L.append(f"clear {b}")
            self.b[b][0] = 0
        elif f == "setch":
            ok = [c for c in (1, 2, 3, 4, 5, 6) if n % c == 0]
            self.b[b][1] = r.choice(ok)
            self.L.append(f"setch {b} {self.b[b][1]}")
        elif f == "setrate":
            self.L.append(f"setrate {b} {r.choice([1, 8000, 44100, 96000])}")
            return
        elif f == "assign":
            k = r.choice([0, 1, 2, 4, 6]) * ch
            self.L.append(f"assign {b} {r.choice(['eqc', 'eqm', 'asc', 'asm'])} " + " ".join(str(self.fresh()) for _ in range(k)))
            self.b[b][0] = k
        else:
            how = r.choice(["ctor", "assign"])
            to = r.choice([x for x in (list(self.b) if how == "assign" else [1, 2, 3, 4]) if x != b] or [0])
            if not to:
                return
            self.L.append(f"{f} {b} {to} {how}")
            self.b[to] = list(self.b[b])
            self.drop(to)
            if f == "move":
                del self.b[b]
        self.drop(b)

    def cell(self):
        r = self.r
        c = [b for b in self.b if self.b[b][0]]
        if not c:
            return self.new()
        b = r.choice(c)
        n, ch = self.b[b]
        f = r.choice(["put", "putf", "get"])
        if f == "putf":
            self.L.append(f"putf {b} {r.randrange(n)} {self.fresh()}")
        else:
            self.L.append(f"{f} {b} {r.randrange(ch)} {r.randrange(n // ch)}" + (f" {self.fresh()}" if f == "put" else ""))

    def dump(self):
        if self.b:
            self.L.append(f"dump {self.r.choice(list(self.b))} {self.r.choice(DUMPS)}")

    def conv(self):
        r = self.r
        p = [(a, b) for a in self.b for b in self.b if a != b and self.b[b][0] >= self.b[a][0] > 0]
        if p:
            a, b = r.choice(p)
            self.L.append(f"conv {a} {r.choice(['seq', 'inter'])} {b} {r.choice(['seq', 'inter'])}")

    def alg(self):
        """A generic algorithm over the iterators, or questions answered by several."""
        r = self.r
        c = [b for b in self.b if self.b[b][0]]
        if not c:
            return self.new()
        b = r.choice(c)
        n = self.b[b][0]
        if r.random() < 0.35 and self.step == 1:
            self.L.append(f"ask {b} {r.choice(['seq', 'inter', 'cseq', 'cinter'])} {r.randrange(self.x + 2)}")
            return
        f, k, m = r.choice(["reverse", "rotate", "rotate", "iota", "plus", "fill", "fillto", "heap", "swap", "swap", "shift", "drop", "swapr"]), 0, 0
        if f in ("rotate", "fillto", "shift", "drop", "swap"):
            k, m = r.randrange(n), r.randrange(n) if f == "swap" else self.fresh()
        elif f == "swapr":
            k = r.randrange(n // 2 + 1)
        elif f in ("iota", "plus", "fill"):
            k = r.randrange(-9, 10)
        self.L.append(f"alg {b} {r.choice(['seq', 'inter'])} {f} {k} {m}")

    def it(self):
        r = self.r
        if not self.b:
            return self.new()
        t, b = r.randrange(1, 4), r.choice(list(self.b))
        k, p = r.choice(["seq", "inter"]), r.randrange(0, self.b[b][0] + 1)
        self.L.append(f"it {t} {k} {b} {p} {r.choice(['ctor', 'add', 'end'])}")
        self.t[t] = [k, b, p]

    def move(self):
        r = self.r
        if not self.t:
            return self.it()
        t = r.choice(list(self.t))
        k, b, p = self.t[t]
        n, ch = self.b[b]
        f = r.choice(["inc", "dec", "pinc", "pdec", "add", "addu", "addl", "addz", "sub", "plus", "plusu", "plusl", "plusz",
                      "minus", "set", "pos", "chan", "smp", "write", "write", "abs", "absw", "itc"])
        if f == "itc":
            u = [x for x in self.t if self.t[x][0] == k and self.t[x][1] == b]
            self.L.append(f"itc {t} {r.choice(u)}")
            return
        q = r.randrange(0, n + 1)
        arg = ""
        if f in ("inc", "pinc"):
            if p >= n:
                return
            p += 1
        elif f in ("dec", "pdec"):
            if p <= 0:
                return
            p -= 1
        elif f in ("add", "addl", "sub"):
            arg = f" {q - p if f != 'sub' else p - q}"
            p = q
        elif f in ("addu", "addz"):
            q = max(p, q)
            arg = f" {q - p}"
            p = q
        elif f in ("plus", "plusl"):
            arg = f" {q - p}"
        elif f in ("plusu", "plusz"):
            arg = f" {max(p, q) - p}"
        elif f == "minus":
            arg = f" {p - q}"
        elif f == "set":
            arg = f" {q}"
            p = q
        elif n == 0:
            return
        elif f == "pos":
            c, s = r.randrange(ch), r.randrange(n // ch)
            arg = f" {c} {s}"
            p = c * (n // ch) + s if k == "seq" else s * ch + c
        elif f == "chan":
            c = r.randrange(ch)
            arg = f" {c}"
            p = c * (n // ch) if k == "seq" else p
        elif f == "smp":
            s = r.randrange(n // ch)
            arg = f" {s}"
            p = s * ch if k == "inter" else p
        elif f == "write":
            if p >= n:
                return
            arg = f" {self.fresh()}"
        elif f == "abs":
            arg = f" {r.randrange(n)}"
        elif f == "absw":
            arg = f" {r.randrange(n)} {self.fresh()}"
        self.L.append(f"ito {t} {f}{arg}")
        self.t[t][2] = p


def fine(r, L):
    """Samples in units of 1/2^k."""
    return L if r.random() < 0.4 else [f"fine {2 ** r.randrange(1, 40)}"] + L


def buf_script(r):
    g = Gen(r)
    g.new(1)
    w = r.choice([(2, 2, 2, 2, 2, 8, 1), (4, 3, 4, 2, 1, 2, 2), (1, 6, 4, 3, 3, 3, 0), (1, 1, 2, 1, 1, 1, 8)])
    for _ in range(r.randrange(6, 30)):
        r.choices([g.shape, g.cell, g.dump, g.conv, g.it, g.move, g.alg], w)[0]()
        if r.random() < 0.08:
            g.new()
    g.dump()
    return g.L


KINDS = {"double": 0, "float": 0, "int": 0, "short": 0, "long": 0, "cplx": 0, "s4": 4, "s6": 6, "s6f": 6, "s12i": 12, "s6c": 6}
HOWS = ["ctor", "list", "eqc", "eqm", "asc", "asm", "seqw", "interw", "at", "atcs", "idx", "copied", "moved", "copyeq", "moveeq",
        "bare", "bare_int", "bare_size", "bare_vec", "bare_values", "bare_iter", "bare_list", "bare_ch"]


def typed_scripts(r, more):
    """Every kind of buffer with every way of filling it; shapes at random."""
    for k, n in KINDS.items():
        for h in HOWS:
            L = []
            for _ in range(more):
                big = 1000 if k in ("double", "int", "long", "cplx", "s4", "s6", "s12i") and r.random() < 0.5 else 0
                size = n or r.choice([1, 2, 4, 4, 6, 12])
                ch = r.choice([c for c in range(1, size + 1) if size % c == 0])
                L.append(f"typed {k} {h} {ch} {44100 if h.startswith('bare') else r.choice([8000, 44100])} " + " ".join(str(r.randrange(-99, 999) + big * r.randrange(-9999, 9999)) for _ in range(size)))
            yield L


def shape_script(ch, frames, r):
    """Every traversal of one shape, and every position through both kinds of iterator."""
    g = Gen(r)
    g.new(1, frames, ch)
    g.L[0] = f"new 1 vec {ch} 44100 " + " ".join(str(i + 1) for i in range(frames * ch))
    g.L += [f"dump 1 {k}" for k in DUMPS]
    for k in ("seq", "inter"):
        g.L.append(f"it 1 {k} 1 0 ctor")
        for c in range(ch):
            for s in range(frames):
                g.L.append(f"ito 1 pos {c} {s}")
    return g.L


def buf_model(h, r):
    L, n, ch, live = [], 0, 1, False
    base = 0
    L.append("new 1 vec 1 44100")
    L.append("it 1 seq 1 0 ctor")
    kind = "seq"
    for o in h:
        f = o[0]
        if f == "new":
            ch, n = o[2], o[1] * o[2]
            L += [f"new 1 vec {ch} 8000 " + " ".join(str(101 + i) for i in range(n)), "it 1 seq 1 0 ctor"]
            kind = "seq"
        elif f == "resize":
            n = o[1] * ch
            L += [f"resize 1 {n}", f"it 1 {kind} 1 0 ctor"]
        elif f == "setch":
            ch = o[1]
            L += [f"setch 1 {ch}", f"it 1 {kind} 1 0 ctor"]
        elif f == "it":
            kind = o[1]
            L.append(f"it 1 {kind} 1 {o[2]} {r.choice(['ctor', 'add', 'end'])}")
        elif f == "move":
            L.append(f"ito 1 {r.choice(['add', 'addl'])} {o[1]}")
        elif f == "pos":
            L.append(f"ito 1 pos {o[1]} {o[2]}")
        elif f == "write":
            L.append(f"ito 1 write {o[1]}")
        elif f == "alg":
            L += [f"alg 1 {o[1]} {o[2]} {o[3]} {o[4]}", f"ask 1 {r.choice(['seq', 'inter', 'cseq', 'cinter'])} 101"]
        elif f == "ring":
            L += ["ring vec " + " ".join(str(101 + i) for i in range(o[1])), "rit 1 0 ctor"]
            live = True
        elif not live:
            continue
        elif f == "rput":
            L += [f"rput {o[1]} {o[2]}", f"rget {o[1]}"]
        elif f == "rmove":
            L.append(f"rito 1 add {o[1]}")
        elif f == "rwrite":
            L.append(f"rito 1 write {o[1]}")
    return L + ["dump 1 seq", "dump 1 rinter"] + (["rdump"] if live else [])


def ring_script(r):
    n = r.choice([1, 2, 3, 3, 5, 6, 7, 8, 10, 12])
    L = [f"ring {r.choice(['size', 'vec', 'vec'])} " + " ".join(str(i + 1) for i in range(n))]
    if r.random() < 0.05:
        L, n = [f"ring vec", "rdump", f"rresize {n}"], n
    x, its = 100, set()
    far = r.choice([n, 3 * n, 50, 100000, 2147483647])
    rounds = lambda: "" if r.random() < 0.8 else f" {r.choice([-1, 1]) * r.randrange(2 ** r.choice([4, 31, 33, 40]))}"
    for _ in range(r.randrange(5, 40)):
        f = r.choice(["rput", "rget", "rget", "rdump", "rit", "rito", "rito", "rito", "rito", "rresize", "rreserve", "rcopy"])
        i = r.randrange(-far, far + 1) if r.random() < 0.8 else r.choice([0, -1, n, -n, n - 1, -n - 1])
        x += 1
        if f == "rput":
            L.append(f"rput {i} {x}{rounds()}")
        elif f == "rget":
            L.append(f"rget {i}{rounds()}")
        elif f == "rdump":
            L.append("rdump")
        elif f == "rresize":
            if r.random() < 0.3:
                n = r.randrange(1, 13)
                L.append(f"rresize {n}")
                its.clear()
        elif f == "rreserve":
            L.append(f"rreserve {r.randrange(0, 40)}")
            its.clear()
        elif f == "rcopy":
            L.append("rcopy")
            its.clear()
        elif f == "rit" or not its:
            t = r.randrange(1, 3)
            L.append(f"rit {t} {r.randrange(-3 * n, 3 * n)} {r.choice(['ctor', 'ctor', 'end'])}")
            its.add(t)
        else:
            t = r.choice(sorted(its))
            g = r.choice(["inc", "dec", "pinc", "pdec", "add", "sub", "plus", "minus", "set", "write", "abs"])
            L.append(f"rito {t} {g}" + ("" if g in ("inc", "dec", "pinc", "pdec") else
                                        f" {x if g == 'write' else r.randrange(-3 * n, 3 * n + 1) if g not in ('set', 'abs') or r.random() < 0.7 else r.randrange(-10 ** 9, 10 ** 9)}"))
    return L + ["rdump"]


def corrupt9(m, r):
    c = [e for e in m["ev"] if e["op"] == "dump" and len(e["v"]) > 1 or e["op"] == "ito"]
    if not c:
        return False
    e = r.choice(c)
    if e["op"] == "dump":
        e["v"][0], e["v"][-1] = e["v"][-1], e["v"][0]
        return e["v"][0] != e["v"][-1]
    e["w"]["x"] += 1
    return True


def corrupt10(m, r):
    c = [e for e in m["ev"] if e["op"] == "rget"]
    if not c:
        return False
    r.choice(c)["x"] += 1
    return True


# ---- C31 ----
def mat_model(h, r):
    """The accumulated matrix alternates between two buffers; results also overwrite what was there."""
    cur, L = 1, ["new 1 vec 1 44100 1"]
    L += [f"new {i} vec 1 8000 " + " ".join("9" for _ in range(r.randrange(0, 9))) for i in (2,)]
    for o in h:
        v = " ".join(str(x) for x in o[2])
        if o[0] == "mat":
            L.append(f"new {cur} vec {o[1]} 44100 {v}")
        else:
            L += [f"new 4 {r.choice(['vec', 'iter'])} {o[1]} 8000 {v}", f"mul {cur} 4 {3 - cur}"]
            cur = 3 - cur
            L += [f"dump {cur} {r.choice(['seq', 'inter'])}", f"get {cur} 0 0"]
    return L


def mat_script(r):
    L = []
    for _ in range(r.randrange(1, 6)):
        p, q, s = (r.choice([1, 2, 3, 4, 5, 7]) for _ in range(3))
        k = r.choice(['iii', 'ifl', 'dif', 'fdd', 'ddd'])
        w = r.choice([9, 9, 10**4]) if k in ("iii", "ddd") else 9     # sums are kept in the type of the first factor
        x = " ".join(str(r.randrange(-w, w + 1)) for _ in range(p * q))
        y = " ".join(str(r.randrange(-w, w + 1)) for _ in range(q * s))
        L.append(f"mulk {k} {p} {q} {r.choice([0, 1, p * s, 60])} {p * q} {x} {y}")
    return L


def corrupt31(m, r):
    c = [e for e in m["ev"] if e["op"] == "mulk"]
    if not c:
        return False
    e = r.choice(c)
    e["v"][r.randrange(len(e["v"]))] += 1
    return True


def check_mat(c):
    r = c.rng
    mul = 10 if c.thorough else 1
    c.assumptions += ["the shapes fit and the result is a buffer of its own", "elements are whole multiples of 2^-10"]
    c.model("MCMat", "MCMat_2.cfg" if c.thorough else "MCMat.cfg", timeout=600)
    gens = c.generate("MCMat", "MatGen.cfg", limit=200 * mul, workers=1,
                      args=("-simulate", f"num={100 * mul}", "-depth", "7", "-seed", str(c.seed + 31)), timeout=300)
    exe = build("buf")
    S = [{"id": f"model{i}", "text": mat_model(h, r)} for i, h in enumerate(gens)]
    S += [{"id": f"mat{i}", "text": mat_script(r)} for i in range(400 * mul)]
    tr = c.conform(exe, S, "BufTrace", label="matrices")
    c.sensitivity("BufTrace", [tr[s["id"]] for s in S], corrupt31)


def check(c):
    if c.pid == "C31":
        return check_mat(c)
    r = c.rng
    mul = 10 if c.thorough else 1
    c.assumptions += ["buffers hold whole frames; iterators are used on the buffer shape they were made for",
                      "sample values are whole multiples of 2^-k"]
    c.model("MCBuf", "MCBuf_2.cfg" if c.thorough else "MCBuf.cfg", timeout=600)
    gens = c.generate("MCBuf", "BufGen.cfg", limit=400 * mul, workers=1,
                      args=("-simulate", f"num={120 * mul}", "-depth", "16", "-seed", str(c.seed + len(c.pid))), timeout=300)
    exe = build("buf")
    S = [{"id": f"model{i}", "text": fine(r, buf_model(h, r))} for i, h in enumerate(gens)]
    if c.pid == "C09":
        for ch in range(1, 9 if c.thorough else 7):
            for fr in range(0, 12 if c.thorough else 7):
                S.append({"id": f"shape{ch}x{fr}", "text": shape_script(ch, fr, r)})
        for i in range(700 * mul):
            S.append({"id": f"buf{i}", "text": fine(r, buf_script(r))})
        for i, L in enumerate(typed_scripts(r, 3 * mul)):
            S.append({"id": f"typed{i}", "text": L})
        i = 0
        for n in (1, 4, 6, 12):
            for ch in range(1, n + 1):
                if n % ch == 0:
                    i += 1
                    S.append({"id": f"static{i}", "text": [f"static {n} {ch} {r.choice([8000, 44100])} {r.randrange(50)}"]})
    else:
        for i in range(700 * mul):
            S.append({"id": f"ring{i}", "text": fine(r, ring_script(r))})
    tr = c.conform(exe, S, "BufTrace", label="buffers" if c.pid == "C09" else "rings")
    c.sensitivity("BufTrace", [tr[s["id"]] for s in S if not s["id"].startswith(("static", "typed"))], corrupt9 if c.pid == "C09" else corrupt10)
