"""C17-C19: envelopes."""
from .common import build

PL = {"const": 1, "set": 1, "lin": 1, "exp": 1}


def env(r, k, t0, t1):
    if k == "exp":
        s = r.choice([1, 1, -1])
        a = r.choice([None, 0, 1, 3, 5])
        b = r.choice([0, 1, 4, 6])
        v0 = 0 if a is None else s * 2 ** a
        v1 = 2 ** b * (1 if a is None else s)
    else:
        v0, v1 = r.randrange(-12, 13), r.randrange(-12, 13)
    return f"env {k} {t0} {t1} {v0} {v1}"


def frame(r):
    return r.choice([1, 2, 7, 10, 10, 100, 22675])


def single_script(r):
    k = r.choice(["const", "set", "set", "lin", "lin", "exp"])
    npf, ch = frame(r), r.choice([1, 1, 2, 3])
    if k == "exp":
        npf = min(npf, 100)
    t0 = r.choice([0, 0, npf * r.randrange(1, 6), r.randrange(0, 6 * npf)])
    d = max(npf, r.choice([npf * r.randrange(1, 30), r.randrange(1, 30 * npf)]))
    sc = {"lin": 16, "exp": 1}.get(k, 100)
    if npf < 1000:
        sc *= 10
    L = [f"kind single {sc}", env(r, k, t0, t0 + d if not (k in ("const", "set") and r.random() < 0.1) else "far"), f"timer {npf} {ch}"]
    L.append(f"info {r.randrange(1, 12)} {ch} {r.choice([8000, 44100])}")
    for _ in range(r.randrange(1, 8)):
        x = r.random()
        if x < 0.2:
            L.append(f"info {r.randrange(0, 15)} {ch} {r.choice([8000, 44100])}")
        elif x < 0.35:
            L.append(f"seek {ch * r.randrange(0, 45)}")
        elif x < 0.5 and "far" not in L[1]:
            L.append("rem")
        else:
            L.append("process")
    return L


def chain_script(r, gaps=True):
    npf, ch = frame(r), r.choice([1, 1, 1, 2, 3])
    kinds = ["const", "const", "set", "lin", "lin"] + (["exp"] if npf <= 100 else [])
    sc = 160 if npf < 1000 else 16
    L = [f"kind chain {sc}", f"timer {npf} {ch}", f"info {r.randrange(1, 12)} {ch} {r.choice([8000, 44100])}", f"startv {r.randrange(-9, 10)}"]
    t = 0
    frames = 0          # frames processed so far
    on = False
    grid = r.random() < 0.5

    def add(now):
        nonlocal t
        k = r.choice(kinds)
        base = max(t, now) if r.random() < 0.6 else t
        if r.random() < 0.1:
            base = max(0, base - r.randrange(0, 4 * npf))     # overlap
        u = npf if grid else 1
        t0 = base + (r.choice([0, 0, r.randrange(0, 6 * npf)]) // u) * u
        d = max(npf, (r.randrange(1, 9 * npf + 1) // u) * u)
        if k in ("const", "set") and r.random() < 0.15:
            d = r.choice([0, 1])
        t1 = t0 + d
        if k == "const" and r.random() < 0.1:
            t1 = -1
        elif k in ("const", "set") and r.random() < 0.05:
            t1 = "far"
        L.append(env(r, k, t0, t1))
        t = t1 if isinstance(t1, int) and t1 >= 0 else t0
    for _ in range(r.randrange(0, 4)):
        add(0)
    for _ in range(r.randrange(2, 14)):
        x = r.random()
        if not on:
            L.append("start")
            on = True
        elif x < 0.6:
            L.append("process")
            frames += size_of(L)
        elif x < 0.72:
            L.append(f"info {r.randrange(0, 14)} {ch} {r.choice([8000, 44100])}")
        elif x < 0.80:
            L.append("next")
        elif x < 0.87:
            L += r.choice([["stop"], []]) + ["start"]
        else:
            add(frames * npf)
    return L


def size_of(L):
    for x in reversed(L):
        if x.startswith("info"):
            return int(x.split()[1])
    return 0


def from_model(h, r):
    """Model time 2 per frame -> the same shape at another frame length."""
    npf = r.choice([2, 10, 100, 22674])
    u = npf // 2
    L = [f"kind chain {160 if npf < 1000 else 16}", f"timer {npf} 1", "info 1 1 8000", f"startv {r.randrange(-9, 10)}"]
    for o in h:
        if o[0] == "env":
            k, t0, t1 = o[1], o[2] * u, o[3] * u if o[3] >= 0 else -1
            if k == "lin" and t1 - t0 < 1:
                k = "const"
            L.append(f"env {k} {t0} {t1} {r.randrange(-12, 13)} {r.randrange(-12, 13)}")
        elif o[0] == "process":
            L += [f"info {o[1]} 1 8000", "process"]
        else:
            L.append(o[0])
    return L


def adsr_script(r, finish=False):
    npf, ch = frame(r), r.choice([1, 1, 2])
    u = npf if r.random() < 0.5 else 1
    a = r.choice([0, max(npf, r.randrange(0, 10 * npf) // u * u)])
    d = r.choice([0, max(npf, r.randrange(0, 10 * npf) // u * u)])
    L = [f"kind adsr {160 if npf < 1000 else 16}", f"adsr {a} {d} {r.randrange(0, 4)} {npf * r.randrange(1, 9)}",
         f"timer {npf} {ch}", f"info {r.randrange(1, 12)} {ch} 8000", "start"]
    if a > 0 and r.random() < 0.1:              # released before it was ever pressed
        L[-1] = "finish"
    for _ in range(r.randrange(2, 7)):
        if r.random() < 0.2:
            L.append(f"info {r.randrange(1, 12)} {ch} 8000")
        if r.random() < 0.15:       # pressed again
            if r.random() < 0.3:
                L.append(f"adsr {npf * r.randrange(1, 9)} {npf * r.randrange(1, 9)} {r.randrange(0, 4)} {npf}")
            L += r.choice([["stop"], []]) + ["start"]
        elif r.random() < 0.2:      # released
            L.append("finish")
        L.append("process")
    return L


# released while the sustain is held
RELEASE = ["kind adsr 160", "adsr 40 40 2 80", "timer 10 1", "info 10 1 8000", "start", "process", "process", "finish", "process", "process"]


def dur_script(r):
    npf = r.choice([1, 10, 100])
    ch = r.choice([1, 1, 2])
    L = ["kind dur 10", env(r, r.choice(["const", "set", "lin"]), 0, 1), f"timer {npf} {ch}", f"info {r.randrange(1, 12)} {ch} 8000"]
    L.append(f"dur {npf * r.randrange(1, 20) + r.choice([0, r.randrange(0, npf)])}")
    for _ in range(r.randrange(1, 4)):
        n = r.choice([0, r.randrange(0, 30)])
        L.append(f"dseek {npf} {n}")
        L.append("start")
        L.append(f"seek {n * ch}")
        for _ in range(r.randrange(1, 4)):
            L.append("process")
        if r.random() < 0.3:
            L.append("rem")
    return L


def sustain(t, f, r):
    a = t.split()
    return f"adsr {a[1]} {a[2]} {r.randrange(f + 1)} {a[4]}" if a[0] == "adsr" else t


def check(c):
    pid, r = c.pid, c.rng
    mul = 20 if c.thorough else 1
    c.assumptions += ["the timer of an envelope is configured with the channels of its buffers", "values observed to 1/10 .. 1/1000 (ramps)"]
    c.model("MCEnv", "MCEnv_2.cfg" if c.thorough and pid == "C18" else "MCEnv.cfg", timeout=800)
    exe = build("env")
    sc = []
    if pid == "C17":
        sc += [{"id": f"single{i}", "text": single_script(r)} for i in range(1500 * mul)]
    if pid == "C18":
        gens = c.generate("MCEnv", "EnvGen.cfg", limit=3000 * mul, workers=1,
                          args=("-simulate", f"num={80 * mul}", "-depth", "14", "-seed", str(c.seed)), timeout=300)
        sc += [{"id": f"model{i}", "text": from_model(h, r)} for i, h in enumerate(gens)]
        sc += [{"id": f"chain{i}", "text": chain_script(r)} for i in range(1200 * mul)]
    if pid == "C19":
        sc += [{"id": f"adsr{i}", "text": adsr_script(r)} for i in range(500 * mul)]
        sc += [{"id": f"dur{i}", "text": dur_script(r)} for i in range(500 * mul)]
        sc.append({"id": "release", "text": RELEASE})
    for x in sc:                                # the same histories at the scale of minutes to days
        if r.random() < 0.25:
            x["text"] = [f"unit {r.choice([10**3, 10**5 + 3, 10**6])}"] + x["text"]
        if r.random() < 0.5:                    # and with values that are fractions
            f = r.choice([4, 8, 16])
            if pid == "C17" and any(l.startswith("env exp") for l in x["text"]):
                f = r.choice([4, 16, 2**18, 2**22, 2**26])      # down to values below what stands in for zero
            x["text"] = [f"fine {f}"] + [sustain(t, f, r) for t in x["text"]]
    tr = c.conform(exe, sc, "EnvTrace", label="envelopes")

    def corrupt(m, q):
        es = [e for e in m["ev"] if e["op"] == "process" and e["out"]]
        if not es or any(e["op"] == "env" and e["e"]["k"] not in ("const", "set") for e in m["ev"]) or pid == "C19" and "a" in str(m["cfg"]):
            return False
        e = q.choice(es)
        e["out"][q.randrange(len(e["out"]))] += m["cfg"]["sc"]
        return True

    def corrupt_len(m, q):
        es = [e for e in m["ev"] if e["op"] == "process" and e["out"]]
        if not es:
            return False
        q.choice(es)["smp"] += 1
        return True
    c.sensitivity("EnvTrace", list(tr.values())[-300:], corrupt if pid != "C19" else corrupt_len, n=6)
