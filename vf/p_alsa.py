"""C33: playback on a sound card."""
from .common import build


def card(r, i):
    lo = [r.choice([1, 1, 1, 2]), r.choice([8000, 22050, 44100]), r.randrange(2, 9), r.randrange(1, 4)]
    hi = [lo[0] + r.randrange(0, 4), r.choice([44100, 48000, 96000]), lo[2] + r.randrange(0, 60), lo[3] + r.randrange(0, 4)]
    pref = [r.randrange(a, b + 1) for a, b in zip(lo, hi)]
    return {"lo": lo, "hi": hi, "pref": pref, "busy": int(r.random() < 0.12),
            "text": f"card {'default' if i == 0 and r.random() < 0.6 else f'hw{i}'} {r.choice(['-', f'Card{i}', f'Card{i}'])} {r.randrange(3)} "}


def settle(c, want):
    return [w if w and a <= w <= b else p for w, a, b, p in zip(want, c["lo"], c["hi"], c["pref"])]


def block(r, ch, n=None):
    n = r.choice([0, 1, 1, 2, 3, 5, 12]) if n is None else n
    return "block " + " ".join(str(r.choice([0, 1, -1, 32767, -32768, r.randrange(-32768, 32768), r.randrange(-99, 100)])) for _ in range(n * ch))


def setup(r):
    cards = [card(r, i) for i in range(r.randrange(1, 4))]
    if all(c["busy"] for c in cards):
        cards[0]["busy"] = 0
    J = lambda v: " ".join(map(str, v))
    L = [f"{c['text']}{c['busy']} {J(c['lo'])} {J(c['hi'])} {J(c['pref'])}" for c in cards]
    return cards, L


def choose(r, cards, L):
    i = r.choice([j for j, c in enumerate(cards) if not c["busy"]])
    L.append(f"choose {r.choice(['id', 'name', 'info'])} {i + 1}")
    v = settle(cards[i], [1, 44100, 0, 0])
    for _ in range(r.choice([0, 1, 1, 2])):
        want = [r.choice([0, r.randrange(1, 6)]), r.choice([0, 44100, 48000, 8000, 11025]), r.choice([0, r.randrange(1, 70)]), r.choice([0, r.randrange(1, 7)])]
        L.append("tune " + " ".join(map(str, want)))
        v = settle(cards[i], want)
    L.append("sync")
    return v


def script(r, ops=None):
    cards, L = setup(r)
    for _ in range(r.randrange(0, 3)):
        L.append(r.choice(["count", f"ask {r.choice(['id', 'name'])} {r.randrange(len(cards)) + 1}"]))
    if ops is None:
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            p = r.choice([0, 0.1, 0.5])
            ops += [["start"]] + [["process", int(r.random() < p)] for _ in range(r.randrange(0, 7))] + [["stop"]]
    on, v, F = False, None, []
    B = []
    for o in ops:
        if o[0] == "start":
            if v is None or r.random() < 0.4:
                v = choose(r, cards, B)
            B.append("start")
        elif o[0] == "process":
            B += [block(r, v[0]) for _ in range(v[3])]
            B.append("fault " + " ".join(str(o[1] if k == 0 else int(r.random() < 0.2)) for k in range(v[3])))
            B.append("process")
        else:
            B.append("stop")
    return L + B


def corrupt(m, r):
    c = [e for e in m["ev"] if e["op"] == "process" and any(x[0] == 4 and len(x) > 3 for x in e["calls"])]
    if not c:
        return False
    e = r.choice(c)
    x = r.choice([x for x in e["calls"] if x[0] == 4 and len(x) > 3])
    x[r.randrange(3, len(x))] += 1
    return True


def check(c):
    r = c.rng
    mul = 10 if c.thorough else 1
    c.assumptions += ["the sound library is a stand-in that keeps its documented protocol: ranges narrow as settings are made, a broken stream must be prepared",
                      "the device named exists, and its description is brought up to date before it is used"]
    c.model("MCAlsa", "MCAlsa_2.cfg" if c.thorough else "MCAlsa.cfg", timeout=600)
    gens = c.generate("MCAlsa", "AlsaGen.cfg", limit=300 * mul, workers=1,
                      args=("-simulate", f"num={40 * mul}", "-depth", "16", "-seed", str(c.seed + 33)), timeout=300)
    exe = build("alsa", extra="-DALSA_F=1", link="-Wl,--wrap=free", exclude=())
    S = [{"id": f"model{i}", "text": script(r, h)} for i, h in enumerate(gens)]
    S += [{"id": f"alsa{i}", "text": script(r)} for i in range(500 * mul)]
    tr = c.conform(exe, S, "AlsaTrace", label="playback")
    c.sensitivity("AlsaTrace", [tr[s["id"]] for s in S if s["id"] in tr], corrupt)
