"""C32: collections that own objects."""
from .common import build


def script(r, n):
    c, mine, made, L = [[], []], [], 0, []
    for _ in range(n):
        f = r.choice(["new", "new", "new", "add", "add", "add", "release", "free", "clear", "end", "move", "drop", "out", "invoke"])
        if f in ("clear", "end", "move") and r.random() < 0.6:
            continue
        k = r.randrange(2)
        if f == "new":
            made += 1
            mine.append(made)
            L.append(f"new {r.choice(['plain', 'other'])}")
        elif f == "add":
            o = r.choice(mine) if mine and r.random() < 0.93 else 0
            if o:
                mine.remove(o)
            c[k].append(o)
            L.append(f"add {k + 1} {o}")
        elif f == "release" and c[k]:
            i = r.randrange(len(c[k]))
            if c[k][i]:
                mine.append(c[k][i])
            c[k][i] = 0
            L.append(f"release {k + 1} {i}")
        elif f == "free" and c[k]:
            i = r.randrange(len(c[k]))
            del c[k][i]
            L.append(f"free {k + 1} {i}")
        elif f in ("clear", "end"):
            c[k] = []
            L.append(f"{f} {k + 1}")
        elif f == "move":
            c[1 - k], c[k] = c[k], []
            L.append(f"move {k + 1}")
        elif f == "drop" and mine:
            o = r.choice(mine)
            mine.remove(o)
            L.append(f"drop {o}")
        elif f == "out":
            L.append(f"out {k + 1} {len(c[k]) + r.randrange(3)} {r.choice(['get', 'release'])}")
        elif f == "invoke":
            L.append(f"invoke {r.randrange(-50, 50)} {r.randrange(-50, 50)}")
    return L or ["new plain"]


def model(h, r):
    L = []
    for o in h:
        L.append(f"new {r.choice(['plain', 'other'])}" if o[0] == "new" else " ".join(str(x) for x in o))
    return L


def corrupt(m, r):
    c = [e for e in m["ev"] if e["op"] in ("free", "clear", "end", "move", "drop") and e["dead"]]
    if not c:
        return False
    e = r.choice(c)
    if r.random() < 0.5:
        e["dead"].pop()
    else:
        e["dead"].append(e["dead"][0])
    return True


def check(c):
    r = c.rng
    mul = 10 if c.thorough else 1
    c.assumptions += ["only positions that exist are freed"]
    c.model("MCOwn", "MCOwn_2.cfg" if c.thorough else "MCOwn.cfg", timeout=600)
    gens = c.generate("MCOwn", "OwnGen.cfg", limit=300 * mul, workers=1,
                      args=("-simulate", f"num={100 * mul}", "-depth", "18", "-seed", str(c.seed + 3)), timeout=300)
    exe = build("own", repo_sources=False)
    S = [{"id": f"model{i}", "text": model(h, r)} for i, h in enumerate(gens)]
    S += [{"id": f"own{i}", "text": script(r, r.randrange(5, 45))} for i in range(500 * mul)]
    tr = c.conform(exe, S, "OwnTrace", label="collections")
    c.sensitivity("OwnTrace", [tr[s["id"]] for s in S], corrupt)
