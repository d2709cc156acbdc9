"""C21 oscillators."""
from .common import build

KINDS = ["sine", "square", "saw", "triangle"]
RATES = [4, 16, 256, 1024, 8192, 32768, 65536, 8000, 44100, 48000, 96000, 11025, 10.5, 22.25, 11025.5, 44099.75]
J = lambda v: " ".join(str(x) for x in v)


def freq(r, rate, whole=False):
    rate = int(rate)
    f = r.choice([0, 1, 3, 4, 40, 1760, 1761, rate, 2 * rate, rate // 2, 4 * rate, rate + 4, r.randrange(1, 4 * rate), r.randrange(1, 8000), 4 * r.randrange(20, 5000)])
    return -f if r.random() < 0.2 else f


def script(r, n=None):
    L = []
    for _ in range(r.randrange(1, 3)):
        how = r.choice(["plain", "plain", "mod", "glide", "glide"])
        kind, rate, ch = r.choice(KINDS), r.choice(RATES), r.choice([1, 1, 2, 3, 5])
        size = r.choice([0, 1, 2, 3, 7, 10, 16, 31, 100 // ch])
        conn = r.choice(["direct", "chain"])
        L.append(f"new {how} {kind} {rate} {ch} {size} {freq(r, rate)} {conn} {r.choice(['set', 'ctor', 'ctor2'])}")
        n = 0
        for _ in range(r.randrange(2, 10)):
            x = r.random()
            if x < 0.1 and how != "glide":
                L.append(f"freq {freq(r, rate)}")
            elif x < 0.18:
                size = r.choice([0, 1, 2, 5, 13, 64])
                L.append(f"size {size}")
            elif x < 0.24:
                ch = r.choice([1, 2, 3])
                L.append(f"chan {ch}")
            elif x < 0.32:
                L.append("save")
            elif x < 0.42:
                L.append("restore " + r.choice(["same", "set", "ctor", "ctor2"]))
            elif x < 0.45:
                L.append(f"phase {r.choice([0, 1, -1, r.randrange(-9, 10), r.randrange(-2000, 2001)])}")
            elif x < 0.48:
                L.append("again")
            elif how == "glide":
                f = freq(r, rate)
                k = r.random()
                L.append("block " + J(f if k < 0.2 else f + i if k < 0.5 else freq(r, rate) for i in range(size)))
            else:
                L.append("block")
    return L


def model(h, i):
    L = []
    for o in h:
        if o[0] == "new":
            how = "plain" if not o[2] else "glide"
            L.append(f"new {how} {o[1]} {o[4] // 4} {o[3]} {o[5]} {o[6]} {['direct', 'chain'][i % 2]} {['set', 'ctor', 'ctor2'][i % 3]}")
        elif o[0] == "block":
            L.append("block " + J(o[1]) if how == "glide" else "block")
        elif o[0] == "restore":
            L.append("restore " + ["same", "set", "ctor", "ctor2"][(i + len(L)) % 4])
        else:
            L.append(" ".join(map(str, o)))
    return L


def bump(m, r):
    c = [e for e in m["ev"] if e.get("out")]
    if not c:
        return False
    e = r.choice(c)
    v = e["out"]
    if r.random() < 0.3 and len(set(v)) > 1:
        v[:] = v[1:] + v[:1]
    else:
        v[r.randrange(len(v))] += r.choice([-9, 9, 500])
    return True


def check(c):
    r = c.rng
    mul = 10 if c.thorough else 1
    c.assumptions += ["frequencies and sample rates are multiples of a quarter hertz, frequencies of either sign and up to the sample rate", "a modulating module delivers the same frequency for all channels of a frame",
                      "phases that are set: read from an oscillator of the same kind, or multiples of a frame / of a quarter hertz's step"]
    c.model("MCOsc", "MCOsc_2.cfg" if c.thorough else "MCOsc.cfg", timeout=900)
    gens = c.generate("MCOsc", "OscGen.cfg", limit=300 * mul, workers=1,
                      args=("-simulate", f"num={150 * mul}", "-depth", "12", "-seed", str(c.seed + 1)), timeout=300)
    S = [{"id": f"model{i}", "text": model(h, i)} for i, h in enumerate(gens)]
    S += [{"id": f"osc{i}", "text": script(r)} for i in range(400 * mul)]
    # a long run of every wave: the phase does not drift
    for k in KINDS:
        for how in ("plain", "mod"):
            for rate, f in ((44100, 1760), (48000, 1761), (32768, 4001)):
                S.append({"id": f"long{k}{how}{rate}", "text": [f"new {how} {k} {rate} 2 440 {f} chain set"] + ["block"] * (8 if not c.thorough else 40)})
    exe = build("osc")
    tr = c.conform(exe, S, "OscTrace", label="oscillators")
    c.sensitivity("OscTrace", [tr[s["id"]] for s in S if s["id"] in tr], bump)
