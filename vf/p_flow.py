"""C11, C13, C15, C16, C29: modules that sum, re-block, count, time, repeat and scale buffers."""
from .common import build


WIDE = 50       # how big the samples of the script are


def wide(r, kind, L):
    """Whole samples, or fractions of 1/2^k, or values too long for single precision."""
    x = r.random()
    if x < 0.4:
        return L
    gain = 2 ** r.randrange(1, 10) if kind == "value" else 1
    rate = 2 if kind in ("value", "mix", "uniform") and x > 0.7 else 1
    return [f"fine {2 ** r.randrange(1, 40)} {gain} {rate}"] + L


def buf(r, ch, rate, n, lo=None, hi=None):
    if lo is None:
        lo, hi = -WIDE, WIDE
    return f"{ch}:{rate}:" + ",".join(str(r.randrange(lo, hi + 1)) for _ in range(n))


def mix_script(r):
    L = ["kind mix"]
    ni = r.randrange(0, 5)
    L += ["input"] * ni
    ch = r.randrange(1, 4)
    L.append(f"chain {r.choice([8000, 44100])} {r.randrange(1, 6)} {ch}")
    size = int(L[-1].split()[2])
    for _ in range(r.randrange(1, 7)):
        x = r.random()
        if x < 0.15:
            L.append("input")
            ni += 1
        elif x < 0.3:
            ch, size = r.randrange(1, 4), r.randrange(1, 6)
            L.append(f"chain {r.choice([8000, 44100])} {size} {ch}")
        for i in range(ni):
            n = r.choice([size * ch, size * ch, r.randrange(0, 20), 0])
            L.append(f"feed {i} 0 {buf(r, r.choice([ch, ch, 1, 2]), r.choice([8000, 44100]), n)}")
        L.append("mix")
    return L


def uni_script(r):
    L = ["kind uniform"]
    ch, size = r.choice([1, 1, 2, 3]), r.randrange(1, 8)
    L.append(f"chain 8000 {size} {ch}")
    tok = 1
    mode = r.choice(["small", "big", "mixed", "same", "empty"])
    L2, given = [], 0
    need = 0
    for _ in range(r.randrange(1, 10)):
        if r.random() < 0.15:
            size = r.randrange(1, 8)
            L2.append(f"chain 8000 {size} {ch}")
        need += size * ch
        L2.append("pull")
    while given < need:
        n = {"small": r.randrange(1, 3), "big": r.randrange(5, 30), "mixed": r.randrange(1, 15), "same": size * ch,
             "empty": r.choice([0, 0, 3, 7])}[mode]
        if r.random() < 0.5 and mode != "empty":
            n *= ch
        L.append(f"feed 0 0 {ch}:8000:" + ",".join(str(tok + i) for i in range(n)))
        tok += n
        given += n
    return L + L2


def from_model(h, r):
    """A re-blocking history of the model: the same block sizes."""
    L, P, tok = ["kind uniform", "chain 8000 2 1"], [], 1
    ch = 1
    for o in h:
        if o[0] == "chain":
            ch = o[2]
            P.append(f"chain 8000 {o[1]} {o[2]}")
        else:
            for n in o[1]:
                L.append(f"feed 0 0 {ch}:8000:" + ",".join(str(tok + i) for i in range(n)))
                tok += n
            P.append("pull")
    return L + P


def count_script(r, kind):
    L = [f"kind {kind}" + (" own" if kind == "latency" and r.random() < 0.3 else ""), "chain 8000 4 1"]
    rate, ch = r.choice([8000, 44100, 11025, 1000]), r.choice([1, 1, 2, 3])
    if kind == "latency" and r.random() < 0.3:      # the same at the scale of minutes to days
        u, rate = r.choice([(10**6, 1000), (10**5, 1000), (10**5, 100), (125000, 8000), (10**8, 1), (10**9, 1)])
        L.insert(0, f"unit {u}")
    for _ in range(r.randrange(1, 14)):
        x = r.random()
        if x < 0.12:
            L.append("reset")
            if kind == "latency":
                L.append("stats")
        elif kind == "counter" and x < 0.2:
            L.append("flood")
        elif kind == "latency" and x < 0.3:
            L.append(f"tick {r.randrange(0, 100000)}")
        elif kind == "latency" and x < 0.4:
            L.append("start")
        else:
            c = ch if kind == "latency" else r.randrange(1, 4)
            L.append(f"feed 0 {r.choice([0, 0, r.randrange(0, 3000), r.randrange(0, 5000000)])} "
                     f"{buf(r, c, rate, c * r.randrange(0, 12) if r.random() < 0.8 else r.randrange(0, 20))}")
            L.append("pull")
            if kind == "latency":
                L.append("stats")
    # all feeds may precede
    return L


def amount(r, k):
    return r.randrange(-20, 21) if k == "scale" or r.random() < 0.5 else r.randrange(-10**9, 10**9)


def value_script(r):
    k = r.choice(["const", "scale", "add", "repeat"])
    made = r.random() < 0.4
    L = [f"kind {k}", f"chain {r.choice([8000, 44100])} {r.randrange(1, 6)} {r.randrange(1, 4)}"]
    if made:                                        # the constructor that takes the value
        L[0] += f" {amount(r, k)}" if k != "repeat" else " made"
    if k == "repeat":
        ch = r.randrange(1, 4)
        L.append(f"rbuf {buf(r, ch, r.choice([8000, 44100]), ch * r.randrange(1, 12))}")
    if (k in ("add", "const") and not made) or (k == "scale" and r.random() < 0.5):
        # only the gain of a scaler has a meaningful value by default: the samples pass unchanged
        L.append(f"value {amount(r, k)}")
    for _ in range(r.randrange(1, 10)):
        x = r.random()
        if x < 0.25 and k != "repeat":
            L.append(f"value {amount(r, k)}")
        elif x < 0.35:
            L.append(f"chain {r.choice([8000, 44100])} {r.randrange(1, 6)} {r.randrange(1, 4)}")
        elif x < 0.45 and k == "repeat":
            ch = r.randrange(1, 4)
            L.append(f"rbuf {buf(r, ch, r.choice([8000, 44100]), ch * r.randrange(1, 12))}")
        else:
            if k in ("scale", "add"):
                ch = r.randrange(1, 4)
                L.append(f"feed 0 0 {buf(r, ch, r.choice([8000, 44100]), r.randrange(0, 16))}")
            L.append("pull")
    return L


def timer_script(r):
    big = r.random() < 0.3                          # the same at the scale of minutes to days
    many = r.random() < 0.3                         # counts of thousands of millions of samples
    cnt = lambda n: 840 * r.randrange(0, max(1, n // 840 + 1)) if many else r.randrange(0, n)
    L = ["kind timer"] + ([f"t.npf {r.randrange(0, 25000)}"] if big else [])
    for _ in range(r.randrange(3, 25)):
        if many and L[-1] == "t.inc":
            L.pop()
        o = r.choice(["rate", "npf", "ch", "set", "add", "add", "add", "inc", "inc", "reset", "q1", "q2", "clock"])
        if o == "rate" and big:
            continue
        if o == "rate":
            L.append(f"t.rate {r.choice([8000, 11025, 22050, 44100, 48000, 96000, 192000, 1, 7])}")
            if L[-1] in ("t.rate 1", "t.rate 7"):
                L.append("t.npf 50")
        elif o == "npf":
            L.append(f"t.npf {r.randrange(0, 25000)}")
        elif o == "ch":
            L.append(f"t.ch {r.randrange(1, 9)}")
        elif o == "set":
            L.append(f"t.set {cnt(8000)}")
        elif o == "add":
            L.append(f"t.add {cnt(1700 if many else 600)}")
        elif many and o in ("q1", "q2"):
            continue
        elif o == "q1":
            L.append(f"t.q1 {r.randrange(0, 8000)}")
        elif o == "q2":
            L.append(f"t.q2 {r.randrange(0, 8000)} {r.randrange(1, 9)}")
        elif o == "clock":
            L.append(f"t.clock {r.randrange(0, 10**6)}")
        else:
            L.append(f"t.{o}")
    # keep every time below 2^31 (integers of the specification)
    if many and L[-1] == "t.inc":
        L.pop()
    return (["cunit 1000000"] if many else []) + ([f"unit {1000 if many else r.choice([10**3, 10**6, 10**6 + 3, 10**8])}"] if big else []) + clamp(L)


def clamp(L):
    npf, ch, s, out = 22675, 1, 0, L[:1]
    for x in L[1:]:
        a = x.split()
        o, v = a[0], [int(y) for y in a[1:]]
        n2, c2, s2 = npf, ch, s
        if o == "t.rate":
            n2 = 10**9 // v[0]
        if o == "t.npf":
            n2 = v[0]
        if o == "t.ch":
            c2 = v[0]
        if o == "t.set":
            s2 = v[0]
        if o == "t.add":
            s2 += v[0]
        if o == "t.inc":
            s2 += 1
        if o == "t.reset":
            n2, c2, s2 = 0, 1, 0
        q = {"t.q1": v[0] if v else 0, "t.q2": v[0] // v[1] if len(v) > 1 else 0}.get(o, 0)
        if max(s2 // c2, q) * n2 >= 2**31:
            continue
        npf, ch, s = n2, c2, s2
        out.append(x)
    return out


KINDS = {"C11": ["mix"], "C13": ["uniform"], "C15": ["counter", "latency"], "C16": ["timer"], "C29": ["value"]}


def check(c):
    global WIDE
    pid, r = c.pid, c.rng
    mul = 20 if c.thorough else 1
    c.assumptions += ["samples are whole multiples of 2^-k, below 2^31 such units (exact in double precision)"]
    c.model("MCFlow", "MCFlow.cfg", timeout=600)
    exe = build("flow")
    scripts = []
    if pid == "C13":
        gens = c.generate("MCFlow", "FlowGen.cfg", workers=1,
                          args=("-simulate", f"num={300 * mul}", "-depth", "20", "-seed", str(c.seed)), timeout=300)
        scripts += [{"id": f"model{i}", "text": from_model(h, r)} for i, h in enumerate(gens[:3000 * mul])]
    if pid in ("C15", "C16"):
        c.assumptions += ["the steady clock is replaced by a virtual one; times below 2^31 ticks of 1 ns to 1 s"]
    for i in range(900 * mul):
        k = r.choice(KINDS[pid])
        t = {"mix": mix_script, "uniform": uni_script, "value": value_script, "timer": timer_script}.get(k)
        WIDE = r.choice([50, 50, 10**4, 10**6, 10**8 if k != "value" else 10**6])
        scripts.append({"id": f"{k}{i}", "text": wide(r, k, t(r) if t else count_script(r, k))})
    tr = c.conform(exe, scripts, "FlowTrace", label="buffers")

    def corrupt(m, q):
        es = [e for e in m["ev"] if e["op"] in ("mix", "pull", "stats", "tadd", "tq1", "tset", "trate", "tnpf")]
        if not es:
            return False
        e = q.choice(es)
        if "t" in e:
            e["t"] += 1
        elif e["op"] == "stats":
            e["expected"] = 1 - e["expected"]
        elif len(e["out"]) > 2:
            e["out"][-1] += 1
        else:
            e["out"][0] += 1
        return True
    c.sensitivity("FlowTrace", list(tr.values())[-200:], corrupt, n=6)
