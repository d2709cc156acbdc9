"""C01-C04: the background-thread module under controlled schedules."""
from .common import CheckError, drive, log

LINK = "-pthread -ldl"


def scenario(rng, kind):
    """One random scenario: lines for the driver (without schedules)."""
    L = []
    mx = rng.choice([1, 1, 2, 3, 5])
    L.append(f"shape {rng.randrange(0, 40)}")
    deep = rng.random() < 0.4
    if deep:
        L.append("deep")
    st, sp = ("mstart", "mstop") if rng.random() < 0.5 or deep else ("start", "stop")
    if kind == "selfstop":
        k = rng.randrange(1, 5)
        L.append(f"selfstop {k}")
        L.append(f"max {mx}")
        L.append(f"M {st}")
        L += ["M proc"] * (k + rng.randrange(0, 3))
        L += ["M size", "M proc"]
        if rng.random() < 0.6:                   # the next session after one that upstream ended
            if rng.random() < 0.5:
                L.append(f"M {sp}")
            L += [f"M {st}"] + ["M proc"] * rng.randrange(0, 3) + ["M quiet"] * rng.randrange(0, 2) + ["M size"]
        L += [f"M {sp}", "M proc"] if rng.random() < 0.8 else ["M del"]
        if L[-1] != "M del" and rng.random() < 0.4:
            L.append(f"A {sp}" if sp == "stop" else "A stop")
        return L
    if kind == "again":                          # started while it is running
        L.append(f"max {mx}")
        for _ in range(rng.randrange(2, 5)):
            L.append(f"M {st}")
            L += [rng.choice(["M proc", "M quiet", "M size", f"M max {rng.randrange(1, 4)}"]) for _ in range(rng.randrange(0, 3))]
            if rng.random() < 0.25:
                L.append(f"M {sp}")
                L += ["M proc"] * rng.randrange(0, 2)
        # a caller outside that may find a session ended; it must not wait for one that is
        L += ["C size"] * rng.randrange(0, 2)
        L.append(f"M {sp}" if rng.random() < 0.7 else "M del")
        return [x for i, x in enumerate(L) if x != "M proc" or _running(L[:i], st, sp)] if L[-1] != "M del" else \
            [x for i, x in enumerate(L) if x != "C size" and (x != "M proc" or _running(L[:i], st, sp))]
    if kind == "twostop":                        # stopped from several sides
        L += [f"max {mx}", f"M {st}"]
        L += [rng.choice(["M quiet", "M size", f"M max {rng.randrange(1, 4)}"]) for _ in range(rng.randrange(0, 3))]
        L += ["A size"] * rng.randrange(0, 2) + ["A stop"] * rng.randrange(1, 3)
        L += ["C proc"] * rng.randrange(0, 4) + ["C stop"] * rng.randrange(0, 2)
        L += [f"M {sp}"] * rng.randrange(1, 3) + ["M size"]
        if rng.random() < 0.3:
            L += ["M start", "M stop"]
        return L
    L.append(f"max {mx}")
    sessions = {"fifo": 1, "bound": 1, "stop": rng.choice([1, 2]), "restart": rng.choice([2, 3, 4])}[kind]
    useC = rng.random() < {"fifo": 0.5, "bound": 0.3, "stop": 0.8, "restart": 0.4}[kind]
    for s in range(sessions):
        L.append(f"M {st}")
        for _ in range(rng.randrange(0, 7 if kind == "fifo" else 4)):
            r = rng.random()
            if r < 0.55 and not useC:
                L.append("M proc")
            elif r < 0.7:
                L.append("M quiet")
                if rng.random() < 0.5:
                    L.append("M size")
            elif r < 0.77:
                L.append("M size")
            elif r < 0.8:
                L.append("M finish")             # no more than asked for
            elif r < 0.95 or kind == "bound":
                L.append(f"M max {rng.choice([1, 1, 2, 3, 4])}")
                if rng.random() < 0.5:
                    L.append("M getmax")
        if kind == "bound":
            L += ["M quiet", "M size"]
            if rng.random() < 0.5:
                L += [f"M max {rng.randrange(1, 6)}", "M quiet", "M size"]
            if not useC:
                L += ["M proc", "M quiet", "M size"]
            if rng.random() < 0.4:
                L += ["M max 0", "M quiet", "M size", f"M max {rng.randrange(1, 4)}", "M quiet", "M size"]
        L.append(f"M {sp}")
        if rng.random() < 0.3:
            L.append(f"M {sp}")
        if rng.random() < 0.7:
            L.append("M size")
        if not useC:
            L += ["M proc"] * rng.randrange(0, 4)
        if rng.random() < 0.3:
            L.append("M quiet")
    if not useC and rng.random() < 0.5:
        L += ["M size"] + ["M proc"] * (mx + 3) + ["M size"]
    if useC:
        L += ["C proc"] * rng.randrange(1, 7)
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 4)):
            L.append(rng.choice(["A size", "A size", "A max 2", "A max 3", "A getmax"]))
    return L


def multi(rng):
    """Two background modules: one behind the other, two inputs of a mixer, or independent."""
    topo = rng.choice(["series", "series", "mixed", "apart"])
    L = [topo, f"max {rng.choice([1, 1, 2, 3])}"]
    if topo != "mixed":
        L.append(f"shape {rng.randrange(0, 40)}")
    if topo == "apart":
        if rng.random() < 0.3:
            L.append(f"selfstop{rng.choice(['', '1'])} {rng.randrange(1, 4)}")
        for s in range(rng.randrange(1, 3)):
            on = [f"{m}:{rng.choice(['start', 'mstart'])}" for m in (0, 1)]
            rng.shuffle(on)
            L += ["M " + x for x in on]
            for _ in range(rng.randrange(0, 5)):
                m = rng.randrange(2)
                L.append("M " + rng.choice([f"{m}:proc", f"{m}:proc", "quiet", f"{m}:size", f"{m}:max {rng.randrange(1, 4)}"]))
            off = [f"{m}:{rng.choice(['stop', 'mstop'])}" for m in (0, 1)]
            rng.shuffle(off)
            L += ["M " + off[0]] + ["M " + off[0][:2] + "proc"] * rng.randrange(0, 3) + ["M " + off[1][:2] + "proc"] * rng.randrange(0, 2) + ["M " + off[1]]
            if "selfstop" in " ".join(L):
                break
        if not any("start" in x and "M" in x for x in L[-2:]):
            L += [f"M {m}:proc" for m in (0, 1) for _ in range(rng.randrange(0, 3))]
        if rng.random() < 0.3:
            L += [f"A {rng.randrange(2)}:stop"]
        if rng.random() < 0.4:
            L += [f"C {rng.randrange(2)}:{rng.choice(['size', 'getmax', 'max 2'])}"]
        return L
    for s in range(rng.choice([1, 1, 2, 3])):
        L.append("M mstart")
        for _ in range(rng.randrange(0, 5)):
            m = rng.randrange(2)
            L.append("M " + rng.choice(["proc", "proc", "proc", "quiet", "finish", f"{m}:finish", f"{m}:size", f"{m}:max {rng.randrange(1, 4)}"]))
        L.append("M mstop")
        if rng.random() < 0.3:
            L.append(f"M {rng.randrange(2)}:size")
    if topo == "series" and rng.random() < 0.5:
        L += ["M proc"] * rng.randrange(1, 5)
    if rng.random() < 0.3:
        L += [f"A {rng.randrange(2)}:{rng.choice(['size', 'getmax', 'max 2'])}"]
    return L


def _running(L, st, sp):
    last = [x for x in L if x in (f"M {st}", f"M {sp}")]
    return bool(last)


def regular(kind):
    """Small scenarios explored systematically."""
    base = {
        "fifo": [["max 1", "M start", "M proc", "M proc", "M stop", "M proc", "M proc"],
                 ["max 1", "M start", "M proc", "M finish", "M proc", "M proc", "M proc", "M stop", "M proc"],
                 ["max 2", "M start", "C proc", "C proc", "C proc", "M quiet", "M stop", "M size"]],
        "bound": [["max 1", "M start", "M quiet", "M size", "M proc", "M quiet", "M size", "M stop", "M size"],
                  ["max 2", "M start", "M quiet", "M max 1", "M proc", "M quiet", "M size", "M stop"],
                  ["max 0", "M start", "C proc", "M quiet", "M size", "M stop"],
                  ["max 0", "M start", "C proc", "M max 1", "M quiet", "M size", "M max 3", "M quiet", "M size", "M stop"]],
        "stop": [["max 1", "M start", "M stop"], ["max 1", "M start", "C proc", "C proc", "M stop"],
                 ["max 1", "deep", "M mstart", "C proc", "M mstop"],
                 ["max 1", "M start", "A stop", "M stop"], ["max 1", "M start", "A stop", "C proc", "M stop", "M size"],
                 ["max 1", "selfstop 1", "M start", "M stop"], ["max 1", "selfstop 1", "M start", "A stop", "M stop"],
                 ["max 1", "M start", "M del"],
                 ["max 0", "M start", "C proc", "M stop"], ["max 2", "M stop", "M start", "M stop", "M stop"]],
        "restart": [["max 1", "M start", "M start", "M proc", "M stop"],
                    ["max 1", "deep", "M mstart", "M mstart", "M proc", "M mstop"],
                    ["max 1", "selfstop 1", "M start", "M start", "M proc", "M proc", "M stop"],
                    ["max 1", "selfstop 1", "M start", "M proc", "M stop", "M start", "M proc", "M stop"],
                    ["max 1", "M start", "M stop", "M start", "M proc", "M stop", "M proc", "M proc"],
                    ["max 2", "M start", "M quiet", "M stop", "M start", "M size", "M proc", "M proc", "M proc", "M stop"],
                    ["max 1", "M start", "M quiet", "M stop", "M size", "M proc", "M start", "M quiet", "M stop", "M start",
                     "M proc", "M stop"]],
    }
    two = {
        "fifo": [["apart", "max 1", "M 0:start", "M 1:start", "M 0:proc", "M 0:stop", "M 1:proc", "M 1:proc", "M 1:proc", "M 1:stop", "M 0:proc", "M 1:proc"],
                 ["series", "max 1", "M mstart", "M proc", "M proc", "M proc", "M mstop", "M proc"],
                 ["mixed", "max 2", "M mstart", "M proc", "M proc", "M mstop"]],
        "bound": [["apart", "max 1", "M 0:start", "M 1:start", "M 0:max 3", "M quiet", "M 0:size", "M 1:size", "M 1:proc", "M quiet", "M 0:stop", "M 1:stop", "M 1:size"],
                  ["series", "max 1", "M mstart", "M quiet", "M 1:max 2", "M quiet", "M 0:size", "M 1:size", "M mstop"]],
        "stop": [["apart", "max 1", "M 0:start", "M 1:start", "M 0:stop", "M quiet", "M 1:proc", "M 1:stop"],
                 ["series", "max 1", "M mstart", "M mstop"], ["mixed", "max 1", "M mstart", "M mstop"]],
        "restart": [["apart", "max 1", "M 0:start", "M 1:start", "M quiet", "M 0:start", "M 1:size", "M 1:proc", "M 0:stop", "M 1:stop"],
                    ["series", "max 1", "M mstart", "M proc", "M mstop", "M mstart", "M proc", "M mstop"]],
    }
    return base[kind] + two[kind]


KIND = {"C01": "fifo", "C02": "bound", "C03": "stop", "C04": "restart"}


def attribute(ev, at):
    """Which properties a rejected recorded run speaks about."""
    e = ev[at]
    # the run this event belongs to
    b = at
    while b > 0 and ev[b - 1]["op"] != "reset":
        b -= 1
    run = ev[b:at + 1]
    starts = sum(1 for x in run if x["op"] == "ret" and x["fn"] == "start")
    pend = {}
    for x in run:
        if x["op"] == "call":
            pend[x["th"]] = x["fn"]
        elif x["op"] == "ret":
            pend.pop(x["th"], None)
    s = set()
    if e["op"] in ("deadlock", "limit"):
        s.add("C03")
        if "proc" in pend.values():
            s |= {"C01", "C02"}
    elif e["op"] == "crash":
        s |= {"C01", "C02", "C03", "C04"}
    elif e["op"] in ("upstop", "upstart"):
        s.add("C03")
        if e["op"] == "upstart":
            s.add("C04")
    elif e["op"] == "ret" and e["fn"] == "proc":
        s.add("C01")
        if not e["res"]:
            s.add("C03")
    elif e["op"] == "ret" and e["fn"] in ("size", "getmax"):
        s |= {"C01", "C02"}
    elif e["op"] == "ret" and e["fn"] == "stop":
        s.add("C03")
    elif e["op"] == "pb":
        s |= {"C02", "C03"}
    elif e["op"] == "quiet":
        s |= {"C02", "C01"}
    else:
        s |= {"C01", "C02", "C03", "C04"}
    if starts >= 2:
        s.add("C04")
    return s


def check(c):
    pid = c.pid
    kind = KIND[pid]
    c.assumptions += ["sequentially consistent interleavings at synchronisation calls and function boundaries "
                      "(the scheduler serialises threads); weak-memory effects are outside",
                      "buffer contents up to 12 samples per buffer; scenarios of up to ~30 calls and three caller threads"]
    # the protocol itself, exhaustively
    for n in {"C01": [1], "C02": [2, 6], "C03": [1, 3, 7], "C04": [4, 8, 9]}[pid] + ([5, 10, 11] if c.thorough else []):
        c.model("MCParallel", f"MCParallel_{n}.cfg", timeout=600 if n < 10 else 3000, args=("-lncheck", "final"))
    c.prove("ParallelProof")
    if pid in ("C01", "C03"):        # one background module behind another
        c.model("MCSeries", "MCSeries_2.cfg" if c.thorough else "MCSeries.cfg", timeout=300)
    if pid in ("C03",):
        c.model("MCSeries", "MCSeries_bug.cfg", expect_ok=False, timeout=300)
        c.model("MCParallel", "MCParallel_bug1.cfg", expect_ok=False, timeout=300)
    if pid in ("C04",):
        c.model("MCParallel", "MCParallel_bug3.cfg", expect_ok=False, timeout=300)
    if pid in ("C02",):
        c.model("MCParallel", "MCParallel_bug2.cfg", expect_ok=False, timeout=300)
    exe = _build()
    scripts = []
    mul = 8 if c.thorough else 1
    rng = c.rng
    # schedules taken from behaviours of the protocol model
    gens = c.generate("ParallelGen", "ParallelGen_4.cfg" if kind == "restart" else "ParallelGen_1.cfg", workers=1,
                      args=("-simulate", f"num={60 * mul}", "-depth", "250", "-seed", str(c.seed)), timeout=300)
    gscripts = {"ParallelGen_1": ["M start", "M stop", "M start", "M stop", "C proc", "C proc"],
                "ParallelGen_4": ["M start", "M stop", "M stop", "M start", "M max 2", "M stop", "C proc", "C proc"]}
    gl = gscripts["ParallelGen_4" if kind == "restart" else "ParallelGen_1"]
    for part in range(0, len(gens), 10):
        t = ["max 1"] + gl
        for i, g in enumerate(gens[part:part + 10]):
            t.append(f"guide {c.seed * 1000 + part + i} {rng.choice([0, 0.002])} {''.join(x for x in g if x != 'S')}")
        scripts.append({"id": f"model{part}", "text": t})
    for n, base in enumerate(regular(kind)):
        scripts.append({"id": f"dfs{n}", "text": base + [f"dfs {400 * mul} 2"]})
        for j in range(2):
            scripts.append({"id": f"reg{n}.{j}", "text": base + [
                f"rand {40 * mul} {rng.randrange(10**6)} 0.5 0.005 0.05",
                f"rand {40 * mul} {rng.randrange(10**6)} 0.2 0.02 0",
                f"pct {40 * mul} {rng.randrange(10**6)} 3 6000 0"]})
    kinds = [kind] * 3 + ["fifo", "bound", "stop", "restart"]
    for n in range(44 * mul):
        k = rng.choice(kinds)
        if n % 6 == 0:
            k = {"C03": "selfstop", "C04": "again"}.get(pid, k)
        if n % 6 == 3:
            k = {"C03": "twostop", "C04": "selfstop"}.get(pid, k)
        base = multi(rng) if n % 6 == 5 else scenario(rng, k)
        scripts.append({"id": f"{k}{n}", "text": base + [
            f"rand {12 * mul} {rng.randrange(10**6)} 0.5 0.004 0.03",
            f"rand {8 * mul} {rng.randrange(10**6)} 0.15 0.02 0",
            f"pct {12 * mul} {rng.randrange(10**6)} 3 9000 0"]})
    tr = conform(c, exe, scripts)
    runs = sum(e["n"] for t in tr.values() for e in t["ev"] if e["op"] == "runs")
    kept = sum(1 for t in tr.values() for e in t["ev"] if e["op"] == "end")
    c.notes["schedules_run"] = runs
    c.notes["distinct_recorded_runs"] = kept
    log(f"[{pid}] {runs} schedules run, {kept} distinct recorded runs")

    def swap(m, r):
        ix = [i for i, e in enumerate(m["ev"]) if e["op"] == "ret" and e["fn"] == "proc" and e["res"]]
        if not ix:
            return False
        e = m["ev"][r.choice(ix)]
        e["res"][-1] += 1
        return True
    good = [t for t in tr.values() if len(t["ev"]) < 2000]
    c.sensitivity("ParallelTrace", good, swap, n=3)


def _build():
    from .common import build
    return build("parallel", "inst", more=("sched.cpp",), link=LINK)


def conform(c, exe, scripts):
    # keep only rejections that speak about this property
    from . import common
    orig = common.validate

    def val(module, traces, *a, **k):
        rej, st = orig(module, traces, *a, **k)
        keep = []
        for t, l in rej:
            at = min(l - 1, len(t["ev"]) - 1)
            if c.pid in attribute(t["ev"], at):
                keep.append((t, l))
            else:
                st["accepted"] = st["accepted"]
                c.notes.setdefault("rejections_about_other_properties", []).append(
                    {"run": t["id"], "event": t["ev"][at]})
        return keep, st
    common.validate = val
    try:
        return c.conform(exe, scripts, "ParallelTrace", timeout=100, label="schedules")
    finally:
        common.validate = orig
