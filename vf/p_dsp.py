"""C26 convolution, C27 recursive filters, C28 Fourier transforms, C30 windows and kernels."""
import cmath

from .common import build

J = lambda v: " ".join(str(x) for x in v)
DIV = [1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30, 32, 36, 40, 45, 48, 60, 64]


def sig(r, n, m=100):
    k = r.random()
    if k < 0.15:
        v = [0] * n
        if n:
            v[r.randrange(n)] = r.choice([1, -1, m])
        return v
    if k < 0.25:
        return [r.choice([-m, m])] * n
    if k < 0.35:
        return [m if i % 2 else -m for i in range(n)]
    if k < 0.45:
        return [i + 1 for i in range(n)]
    return [r.randrange(-m, m + 1) for _ in range(n)]


def fine(r, L, geo=False, top=40):
    """The same script with samples and factors in units of 1/2^k."""
    if r.random() < 0.4:
        return L
    return [f"fine {2 ** r.randrange(0, top)} {2 ** r.randrange(0, 30)} {r.choice([1, 2, 2, 4]) if geo else 1}"] + L


# ---- C26 ----
def conv_script(r):
    L = []
    for _ in range(r.randrange(3, 10)):
        how = r.choice(["in", "out", "inr", "outr", "inp", "inb", "outb", "ini", "outi", "fft", "ffti"])
        n = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 12, 20])
        m = r.choice([1, 1, 2, 3, 4, 5, 7, 12, 25])
        L.append(f"conv {how} {J(sig(r, n, r.choice([100, 10**4, 10**6])))} | {J(sig(r, m, 70))}")
    return L


def fir_script(r):
    how, ch = r.choice(["direct", "chain"]), r.choice([1, 1, 1, 2, 2, 3])
    wide = r.choice([100, 10**4, 3 * 10**6])
    m = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 16, 31])
    L = [f"fir {how} {ch} {r.choice([8000, 44100, 48000])} {J(sig(r, m, 20))}"]
    for _ in range(r.randrange(2, 14)):
        x = r.random()
        if x < 0.07:
            L.append("restart")
        elif x < 0.10:
            m = r.choice([1, 2, 3, 5, 9])
            L.append("kernel " + J(sig(r, m, 20)))
        elif x < 0.12:
            ch = r.choice([1, 2, 3])
            L.append(f"shape {ch} {r.choice([8000, 96000])}")
        else:
            n = r.choice([0, 1, 1, 2, 3, 4, 7, m - 1, m, m + 1])
            L.append("block " + J(sig(r, n * ch, wide)))
    return L


def sinc_script(r):
    def tune():
        p = r.randrange(20, 1200)
        return [r.choice(["low", "high", "pass", "reject"]), r.choice([13, 25, 31, 37, 41, 61, 65, 73]), p, r.randrange(p, 1400)]
    t = tune()
    L = [f"sinc {r.choice(['direct', 'chain'])} {J(t)} {r.choice([28800, 44100, 48000, 8000, 100, 37])}"]
    for k in range(r.choice([1, 1, 2, 3])):
        if k:       # other settings, of which some may be the same, and another start
            t = [y if r.random() < 0.5 else x for x, y in zip(tune(), t)]
            t[3] = max(t[2], t[3])
            L.append(f"retune {J(t)}")
        m = t[1]
        imp = [0] * r.randrange(1, 20)
        imp[0] = 1
        L.append("block " + J(imp))
        n = len(imp)
        while n < m:
            q = r.choice([1, 2, 5, 17, m])
            L.append("block " + J([0] * q))
            n += q
        for _ in range(r.randrange(0, 3)):
            L.append(r.choice(["restart", "block " + J(sig(r, r.randrange(1, 30), 2))]))
    return L


def fir_model(h):
    L = []
    for o in h:
        if o[0] == "kernel":
            L.append(f"fir {'chain' if len(L) % 2 else 'direct'} {o[1]} 44100 {J(o[2])}")
        elif L:
            L.append("block " + J(o[1]))
        else:
            L += ["fir chain 1 44100 1", "block " + J(o[1])]
    return L


# ---- C27 ----
def iir_script(r):
    L = []
    for _ in range(r.randrange(1, 3)):
        na, nb = r.choice([1, 1, 2, 3, 4, 6, 8]), r.choice([0, 1, 1, 2, 2, 3, 5, 8])
        a = [r.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(na)]
        b = [r.choice([-1, 0, 0, 0, 1]) for _ in range(nb)]
        if nb and r.random() < 0.6:
            b = [0] * nb
            b[r.randrange(nb)] = r.choice([1, -1, 2, -2])
        g = max(2, sum(map(abs, b)))
        L.append(f"iir {r.choice(['ctor', 'sizes', 'rev', 'bsizes', 'single'])} {J(a)} | {J(b)}")
        left = max(6, int(17 / g ** 0.5) if g > 2 else 20)
        while left > 0:
            n = min(left, r.choice([0, 1, 1, 2, 3, 5, 8]))
            left -= max(1, n)
            L.append(f"run {r.choice(['in', 'out', 'buf'])} {J(sig(r, n, 9))}")
            if r.random() < 0.15:
                w = r.choice("ab") if nb else "a"
                i, v = r.randrange(na if w == 'a' else nb), r.choice([-1, 0, 1])
                (a if w == "a" else b)[i] = v
                L.append(f"coef {w} {i} {v}")
            if r.random() < 0.3:        # gain and phase, but not at a pole
                m = r.choice([0, 1440, r.randrange(-1440, 1441)])
                if abs(1 - sum(v * cmath.exp(-2j * cmath.pi * m / 2880 * (i + 1)) for i, v in enumerate(b))) > 0.1:
                    L.append(f"resp {m}")
    return L


def iir_model(h):
    L = []
    for i, o in enumerate(h):
        if o[0] == "iir":
            L.append(f"iir {['ctor', 'sizes', 'rev', 'single', 'bsizes'][(i + len(h)) % 5]} {J(o[1])} | {J(o[2])}")
        elif L:
            L.append(f"run {['in', 'out', 'buf'][i % 3]} {o[1]}")
    return L


# ---- C28 ----
def ft_script(r):
    L = []
    for _ in range(r.randrange(2, 6)):
        f = r.choice(["c", "c", "c", "r", "r", "d", "d", "i", "i", "t", "t", "t", "s"])
        n2 = r.choice([1, 2, 4, 8, 16, 32, 64])
        m = r.choice([1, 10, 100])

        def z(n, real=False):
            re, im = sig(r, n, m), [0] * n if real else sig(r, n, m)
            return J(v for p in zip(re, im) for v in p)
        if f == "c":
            L.append(f"ft {r.choice(['out', 'outp', 'iout', 'in', 'inrev', 'iin', 'iinrev'])} {z(n2)}")
        elif f == "r":
            L.append(f"ft {r.choice(['real', 'realb'])} {z(max(2, n2), True)}")
        elif f == "d":
            L.append(f"ft {r.choice(['dft', 'dftb'])} {z(r.choice(DIV), True)}")
        elif f == "i":
            how = r.choice(["dft", "real"])
            n = max(2, n2) if how == "real" else r.choice([d for d in DIV if d % 2 == 0])
            k = n // 2 + 1
            v = [int(x) for x in z(k).split()]
            v[1] = v[-1] = 0
            L.append(f"ift {how} {J(v)}")
        elif f == "t":
            how = r.choice(["out", "in", "dft", "real", "mix"])
            n = n2 if how in ("out", "in") else max(2, n2) if how != "dft" else r.choice([d for d in DIV if d % 2 == 0])
            if how in ("out", "in") and r.random() < 0.3:
                n = 256
            L.append(f"trip {how} {z(n)}")
        else:
            L += [f"bitrev {r.choice([1, 2, 4, 8, 16, 32, 64, 128, 256])}", f"ftlen {r.randrange(1, 5000)}",
                  f"bin {r.randrange(0, 64)} {r.randrange(1, 128)} {r.choice([8000, 44100, 48000])}"]
    return L


# ---- C30 ----
def win_script(r):
    L = []
    for _ in range(r.randrange(3, 9)):
        f = r.choice(["win", "win", "kern", "inv", "dot"])
        if f == "win":
            k = r.choice(["rect", "hann", "hamming", "black"])
            plain = r.random() < 0.5
            p = {"rect": 0, "hann": 500, "hamming": 540, "black": 160}[k] if plain else r.choice([0, 100, 160, 250, 500, 540, 700, 1000])
            L.append(f"win {k} {p} {r.choice(DIV[1:])} {'plain' if plain else 'param'}")
        elif f == "kern":
            L.append(f"kern {r.choice([3, 5, 7, 9, 11, 13, 17, 19, 21, 25, 31, 33, 37, 41, 49, 61, 65])} {r.randrange(20, 1400)} {r.choice(['black', 'black', 'rect'])}")
        elif f == "inv":
            L.append(f"{r.choice(['invert', 'reverse'])} {J(sig(r, r.choice([1, 3, 5, 7, 9, 15, 31])))}")
        else:
            n = r.randrange(1, 20)
            L.append(f"dot {J(sig(r, n))} | {J(sig(r, n))}")
    return L


def bump(*keys):
    def mutate(m, r):
        c = [(e, k) for e in m["ev"] for k in keys if e.get(k) and e["op"] not in ("sinc", "fir", "iir")]
        if not c:
            return False
        e, k = r.choice(c)
        i = r.randrange(len(e[k]))
        if isinstance(e[k][i], list):
            e[k][i][r.randrange(2)] += 60000
        else:
            e[k][i] += 60000
        return True
    return mutate


def check(c):
    r = c.rng
    mul = 10 if c.thorough else 1
    S = []
    if c.pid == "C26":
        c.assumptions += ["samples and kernels are whole multiples of 2^-k, for which sums of doubles are exact", "the kernel stays the same between two starts of a filter"]
        c.model("MCDsp", "MCDsp_2.cfg" if c.thorough else "MCDsp.cfg", timeout=600)
        gens = c.generate("MCDsp", "FirGen.cfg", limit=300 * mul, workers=1,
                          args=("-simulate", f"num={20 * mul}", "-depth", "12", "-seed", str(c.seed + 1)), timeout=300)
        S += [{"id": f"model{i}", "text": fine(r, fir_model(h))} for i, h in enumerate(gens)]
        S += [{"id": f"conv{i}", "text": fine(r, conv_script(r))} for i in range(150 * mul)]
        S += [{"id": f"fir{i}", "text": fine(r, fir_script(r))} for i in range(300 * mul)]
        keys = ("out",)
    elif c.pid == "C27":
        c.assumptions += ["coefficients and samples are whole multiples of 2^-k, for which sums of doubles are exact", "the number of coefficients is set before the first sample"]
        c.model("MCDsp", "MCIir_2.cfg" if c.thorough else "MCIir.cfg", timeout=900)
        gens = c.generate("MCDsp", "IirGen.cfg", limit=300 * mul, workers=1,
                          args=("-simulate", f"num={20 * mul}", "-depth", "16", "-seed", str(c.seed + 2)), timeout=300)
        S += [{"id": f"model{i}", "text": fine(r, t, True)} for i, t in enumerate(map(iir_model, gens)) if t]
        S += [{"id": f"iir{i}", "text": fine(r, iir_script(r), True)} for i in range(400 * mul)]
        S += [{"id": f"pole{k}{i}{how}", "text": [f"pole {k} {i} {how} {rate}"]} for k in ("low", "high") for i in range(1, 21)
              for how, rate in (("frac", 44100), ("hz", 8000))]
        S += [{"id": f"again{i}", "text": [f"pole {r.choice(['low', 'high'])} {r.randrange(1, 21)} {r.choice(['frac', 'hz'])} {r.choice([8000, 44100])}"
                                           for _ in range(4)]} for i in range(40 * mul)]
        keys = ("out", "a", "b")
    elif c.pid == "C28":
        c.assumptions += ["sizes divide 2880 and are at most 64 where values are compared (256 for transforms undone); samples are up to 100 units of 2^-k; values are compared to within the rounding of a five digit table"]
        c.model("MCFourier", "MCFourier_2.cfg" if c.thorough else "MCFourier.cfg", timeout=600)
        S += [{"id": f"ft{i}", "text": fine(r, ft_script(r))} for i in range(250 * mul)]
        # every basis signal of the small sizes
        for n in (2, 4, 8):
            for how in ("out", "iout", "in", "iin", "inrev", "real", "dft"):
                S.append({"id": f"basis{n}{how}", "text": [f"ft {how} " + J(v for i in range(n) for v in ((1, 0) if i == j else (0, 0))) for j in range(n)]
                          + ([f"ft {how} " + J(v for i in range(n) for v in ((0, 1) if i == j else (0, 0))) for j in range(n)] if how not in ("real", "dft") else [])})
        S.append({"id": "bitrev", "text": [f"bitrev {1 << i}" for i in range(12)]})
        keys = ("out",)
    else:
        c.assumptions += ["kernels have an odd size; frequencies are 20/2880 to 1400/2880 of the rate; values are compared to within the rounding of a five digit table"]
        c.model("MCFourier", "MCWin.cfg", timeout=300)
        S += [{"id": f"win{i}", "text": fine(r, win_script(r), top=20)} for i in range(200 * mul)]
        S += [{"id": f"sinc{i}", "text": fine(r, sinc_script(r))} for i in range(120 * mul)]
        S += [{"id": f"all{k}{d}", "text": [f"win {k} {p} {d} plain"]} for k, p in (("hann", 500), ("hamming", 540), ("black", 160)) for d in DIV[1:]]
        keys = ("out", "v")
    if c.pid == "C27":
        # filters that have been running for half a day
        idle = [0, 1, 1000, 2 ** 16 + 1] + ([2 ** 31 - 4, 2 ** 31 - 1, 2 ** 31 - 6] if c.thorough else [])
        L = [{"id": f"idle{n}", "text": [f"iir ctor {J(a)} | {J(b)}", f"idle {n}"] + [f"run {how} {J(range(1 + i, 4 + i))}" for i, how in enumerate(["in", "out", "buf", "in"])]}
             for n, (a, b) in zip(idle, [([1, 2, 3], []), ([1], [1]), ([1, 0, 2], [0, 0, 1]), ([3, 1, 2, 1, 1], [0, 1]), ([1, 2, 3], [0, 0, 1]), ([1, 0, 0, 0, 1], [0, 0, 0, 0, 1]), ([2, 1], [0, -1, 1])])]
        c.conform(build("dsp", "plain"), L, "DspTrace", label="idle filters", timeout=800)
    exe = build("dsp")
    tr = c.conform(exe, S, "DspTrace", label={"C26": "convolution", "C27": "recursive filters", "C28": "transforms", "C30": "windows and kernels"}[c.pid])
    c.sensitivity("DspTrace", [tr[s["id"]] for s in S if s["id"] in tr], bump(*keys))
