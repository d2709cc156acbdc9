"""C22-C25: byte streams, the PCM codec, WAV writers, readers and sources."""
from .common import build

FMT = {"i16": (-32768, 65536), "char": (-128, 256), "u16": (0, 65536), "uchar": (0, 256)}


def j(xs):
    return " ".join(str(x) for x in xs)


def byte(r):
    b = r.choice([0, 1, 127, 128, 255, r.randrange(256), r.randrange(256)])
    return 164 if b == 165 else b       # 165 marks what a read left alone


def le(n, x):
    return list((x % (1 << 8 * n)).to_bytes(n, "little"))


# --------------------------------------------------------------------------- C22

def stream_script(r):
    kind = r.choice(["ci", "ci", "co", "co", "fi", "fi", "fo", "fo"])
    n = r.choice([0, 1, 2, 5, 10, 40])
    if r.random() < 0.02:
        n = r.choice([5000, 70000])
    data = [byte(r) for _ in range(n)]
    f = kind[0] == "f"
    how = "ok" if not f or r.random() < 0.9 else "none"
    if kind == "co" and r.random() < 0.5:
        n, data = 0, []
    L = [f"mk 1 {kind} {how} {j(data if how == 'ok' else [])}"]
    if f or r.random() < 0.5:
        L.append("start 1")
    if how == "none":
        return L + (["stop 1"] if r.random() < 0.5 else [])
    if kind == "fo":
        n = 0
    pos = 0
    for _ in range(r.randrange(1, 14)):
        if r.random() < 0.35:
            pos = r.choice([0, r.randrange(0, n + 1), n, n + r.randrange(0, 6)])
            L.append(f"seek 1 {pos}")
        elif kind[1] == "i":
            left = max(0, n - pos)
            k = r.choice([0, 1, 2, left, r.randrange(0, left + 1), r.randrange(0, left + 1)])
            k = min(k, left)
            if r.random() < 0.1:
                L.append(f"read 1 {left + r.randrange(1, 5)}")
                break
            L.append(f"read 1 {k}")
            pos += k
        else:
            b = [byte(r) for _ in range(r.choice([0, 1, 2, 3, 8, 30]))]
            if r.random() < 0.03:
                b = [byte(r) for _ in range(9000)]
            L.append(f"write 1 {j(b)}")
            pos += len(b)
            n = max(n, pos if b else 0)
    return L + (["stop 1"] if "co" != kind or r.random() < 0.5 else [])


def stream_model(h, r):
    """A write history on an output stream, then the same bytes read back from an input stream of either kind."""
    k = r.choice(["co", "fo"])
    L = [f"mk 1 {k} ok", "start 1"]
    v, p = [], 0
    for o in h:
        if o["op"] == "seek":
            p = o["p"]
            L.append(f"seek 1 {p}")
        else:
            L.append(f"write 1 {j(o['b'])}")
            if o["b"]:
                v += [0] * (p + len(o["b"]) - len(v))
                v[p:p + len(o["b"])] = o["b"]
            p += len(o["b"])
    L.append("stop 1")
    L += [f"mk 2 {r.choice(['ci', 'fi'])} ok {j(v)}", "start 2"]
    p = 0
    while p < len(v):
        n = r.randrange(1, 6)
        if p + n > len(v) and r.random() < 0.5:
            n = len(v) - p
        L.append(f"read 2 {n}")
        p += n
    return L


def c22(c, r, mul):
    gens = c.generate("MCIo", "IoGen.cfg", limit=300 * mul, workers=1,
                      args=("-simulate", f"num={150 * mul}", "-depth", "14", "-seed", str(c.seed + 22)), timeout=300)
    S = [{"id": f"model{i}", "text": stream_model(h, r)} for i, h in enumerate(gens)]
    S += [{"id": f"stream{i}", "text": stream_script(r)} for i in range(900 * mul)]
    S += [{"id": f"full{i}", "text": ["mk 1 fo full", "start 1", "fill 1"]} for i in range(2)]
    return S


# --------------------------------------------------------------------------- C23

TOP = {"i16": 32767, "char": 127, "u16": 65535, "uchar": 255}


def clear(f, x, den):
    """Whether the code of x/den does not hang on the rounding of the product."""
    if den & (den - 1) == 0 or x in (0, den, -den):
        return True
    if f in ("u16", "uchar"):
        return (x + den) * TOP[f] % (2 * den) != den
    return x * (TOP[f] + (x < 0)) % den != 0


def c23(c, r, mul):
    S = []
    for f, (lo, n) in FMT.items():
        step = 256
        for a in range(lo, lo + n, step):
            S.append({"id": f"{f}{a - lo}", "text": [f"codec {f} {a} {step}"]})
    for i in range(120 * mul):
        f = r.choice(list(FMT))
        L = []
        for _ in range(r.randrange(1, 6)):
            den = r.choice([1, 2, 4, 8, 64, 256, 4096])
            if f in ("u16", "i16"):
                den = min(den, 4096)
            if f == "u16":
                den = min(den, 2048)
            if r.random() < 0.5:    # not only powers of two
                den = r.randrange(3, 4000 if f == "u16" else 65535)
            xs = [r.choice([-den, den, 0, r.randrange(-den, den + 1), r.randrange(-den, den + 1)]) for _ in range(r.randrange(1, 30))]
            xs = [x if clear(f, x, den) else 0 for x in xs]
            if r.random() < 0.5:
                L.append(f"enc {f} {den} {j(xs)}")
            else:
                ch = r.randrange(1, 6)
                xs = (xs * ch)[:max(1, len(xs) // ch) * ch]
                xs = [x if clear(f, x, den) else 0 for x in (r.randrange(-den, den + 1) for _ in xs)]
                L.append(f"squish {r.choice(['inter', 'inter', 'seq', 'seq', 'null'])} {f} {ch} {den} {j(xs)}")
        S.append({"id": f"enc{i}", "text": L})
    for i in range(15 * mul):     # conversions that only cast: what a float holds arrives as it is
        f, den = r.choice(["float", "null"]), 2 ** r.randrange(0, 20)
        ch = r.randrange(1, 5)
        xs = [r.choice([0, 1, -1, den, -den, r.randrange(-2**24, 2**24 + 1), r.randrange(-3 * den, 3 * den + 1)]) for _ in range(ch * r.randrange(1, 9))]
        S.append({"id": f"cast{i}", "text": [f"enc {f} {den} {j(xs)}", f"squish {r.choice(['inter', 'seq'])} {f} {ch} {den} {j(xs)}"]})
    for i in range(60 * mul):
        L = []
        for _ in range(20):
            L.append("bytes " + j(r.choice([0, 1, 127, 128, 129, 255, r.randrange(256)]) for _ in range(4)))
        S.append({"id": f"bytes{i}", "text": L})
    return S


# --------------------------------------------------------------------------- C24

def write_script(r, read=True):
    ch = r.choice([1, 1, 2, 2, 3, 4, 6, 8])
    rate = r.choice([1, 8000, 11025, 44100, 48000, 96000, 192000, r.randrange(1, 100000)])
    bits = r.choice([8, 16])
    sets = [f"wset ch {ch}", f"wset rate {rate}", r.choice([f"wset bits {bits}", f"wset bytes {bits // 8}"])]
    if r.random() < 0.2:
        sets.append(f"wset format {r.choice([1, 3, 65534])}")
    if r.random() < 0.3:
        sets.append(r.choice([f"wset ch {ch}", f"wset rate {rate}", f"wset bits {bits}"]))
    r.shuffle(sets)
    pre = []
    if r.random() < 0.3:    # earlier settings are forgotten
        pre = [f"wset bits {24 - bits}", f"wset ch {r.randrange(1, 9)}", f"wset rate {r.choice([22050, 44100])}"]
    L = [f"wnew {r.choice(['mem', 'mem', 'file'])} {r.choice(['ctor', 'set'])}"] + pre + sets
    L.append(f"wstart {r.choice(['fresh', 'fresh', 'started'])}")
    if r.random() < 0.3:    # one writer, several files
        write_some(r, L, ch, 2)
        L.append("wstop")
        L.append(f"wstream {r.choice(['same', 'same', 'mem', 'file'])}")
        if r.random() < 0.5:
            ch = r.randrange(1, 5)
            L += r.sample([f"wset ch {ch}", f"wset rate {r.choice([8000, 44100])}", f"wset bits {r.choice([8, 16])}"], 3)
        L.append(f"wstart {r.choice(['fresh', 'fresh', 'started'])}")
    total = write_some(r, L, ch, 5)
    L.append("wstop")
    if read and total:
        buf = r.choice([1, 2, 3, total, total + 2])
        op = r.choice(["ropen", "ropen", "sopen"])
        L.append(f"{op} {r.choice(['mem', 'file'])} {buf}")
        L += ["rget"] * (total // buf + 2)
    return L


LONG = [(8, 1, 3, 23000, "mem"), (16, 2, 1, 17000, "file"), (8, 3, 2, 11000, "file")]


def long_script(r, bits, ch, parts, frames, where):
    """A file whose sizes need more than 16 bits; read back in blocks of any size."""
    L = [f"wnew {where} ctor", f"wset ch {ch}", "wset rate 44100", f"wset bits {bits}", "wstart fresh"]
    for _ in range(parts):
        a, b = r.randrange(1, 100), r.randrange(1, 100)
        L.append(f"wwrite {ch} 128 {j((i * a + b * (i // 1000)) % 257 - 128 for i in range(frames * ch))}")
    L.append("wstop")
    n = parts * frames
    buf = r.choice([n // 2 + 1, n // 3 + 1, n])
    L.append(f"ropen {where} {buf}")
    return L + ["rget"] * (n // buf + 2)


def write_some(r, L, ch, most):
    total = 0
    for _ in range(min(most, r.choice([0, 1, 1, 2, 3, 5]))):
        fr = r.choice([0, 1, 2, 3, 7, 20])
        den = r.choice([1, 2, 128, 256, 256, 2048])
        xs = [r.choice([-den, den, 0, r.randrange(-den, den + 1), r.randrange(-den, den + 1)]) for _ in range(fr * ch)]
        L.append(f"wwrite {ch} {den} {j(xs)}")
        total += fr
    return total


def chunk_script(r):
    L = []
    for _ in range(8):
        k = r.choice(["head", "riff", "fmt", "other"])
        idn = r.choice(["data", "LIST", "fmt_", "a_b_", "~~~~"])
        big = lambda: r.choice([0, 1, 255, 256, 65535, 65536, 2147483647, r.randrange(2 ** 31)])
        if k in ("head", "riff"):
            xs = [big()]
        elif k == "fmt":
            sm = lambda: r.choice([0, 1, 2, 255, 256, 32767, 32768, 65535, r.randrange(65536)])
            xs = [sm(), sm(), big(), big(), sm(), sm()]
        else:
            xs = [r.randrange(256) for _ in range(r.randrange(0, 30))]
        L.append(f"chunk {k} {idn} {j(xs)}")
    return L


def c24(c, r, mul):
    S = [{"id": f"write{i}", "text": write_script(r)} for i in range(500 * mul)]
    S += [{"id": f"chunk{i}", "text": chunk_script(r)} for i in range(60 * mul)]
    S += [{"id": f"long{i}", "text": long_script(r, *x)} for i, x in enumerate(LONG)]
    return S


# --------------------------------------------------------------------------- C25

def chunk(idn, body, pad=True):
    return list(idn.encode()) + le(4, len(body)) + body + ([r0(body)] if pad and len(body) % 2 else [])


def r0(body):
    return (sum(body) * 7 + 1) % 256


def wav_file(r):
    """(bytes, frames, has trailing chunks, short)"""
    ch = r.choice([1, 1, 2, 2, 3, 5])
    bits = r.choice([8, 16])
    rate = r.choice([8000, 44100, 48000])
    fr = ch * bits // 8
    fmt = r.choice([1, 1, 1, 65534])
    ext = r.choice([0, 0, 0, 2, 24, 1, 3])
    body = le(2, fmt) + le(2, ch) + le(4, rate) + le(4, rate * fr) + le(2, fr) + le(2, bits) + [r.randrange(256) for _ in range(ext)]
    junk = lambda: chunk(r.choice(["LIST", "fact", "JUNK", "cue ", "id3 ", "Data", "dat_"]), [r.randrange(256) for _ in range(r.choice([0, 1, 2, 4, 5, 26, 33] if r.random() < 0.99 else [300, 5000, 65537]))])
    b = list(b"WAVE")
    while r.random() < 0.2:
        b += junk()
    b += chunk("fmt ", body)
    total = 0
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
        while r.random() < 0.25:
            b += junk()
        n = r.choice([0, 1, 2, 3, 5, 8, 21])
        b += chunk("data", [r.choice([0, 127, 128, 255, r.randrange(256)]) for _ in range(n * fr)])
        total += n
        tail = len(b)
    while r.random() < 0.25:
        b += junk()
    return b, total, fr, bits, ch, tail


def read_script(r):
    b, total, fr, bits, ch, tail = wav_file(r)
    size = len(b)
    mode = r.random()
    if mode < 0.06 and b[4:8] == list(b"fmt "):
        size = r.choice([0, 4, 24])      # a size that was never filled in
    elif mode < 0.14:
        size += r.choice([2, 8, 100])    # more promised than there is
    f = list(b"RIFF") + le(4, size) + b
    L = ["file " + j(f)]
    if r.random() < 0.02:
        return L + ["ropen missing 4", "rget"]
    buf = r.choice([1, 2, 3, 4, 7, 16, 64, max(1, total)])
    opn = r.choice(["ropen", "ropen", "ropen", "sopen"])
    L.append(f"{opn} {r.choice(['mem', 'file'])} {buf}")
    if r.random() < 0.3:    # one reader, several times or for several files
        L += ["rget"] * r.choice([0, 1, 2, 30])
        where = "same"
        if r.random() < 0.5:
            b, total, fr, bits, ch, tail = wav_file(r)
            L.append("file " + j(list(b"RIFF") + le(4, len(b)) + b))
            where = r.choice(["mem", "file"])
        buf = r.choice([1, 2, 3, 7, max(1, total)])
        L.append(f"{opn} {where} {buf} again")
    got = 0
    for _ in range(40):
        L.append("rget")
        got += buf
        if got > total + 2 * buf:
            break
        if opn == "ropen" and r.random() < 0.15:
            buf = r.choice([1, 2, 3, 5, 9])
            L.append(f"rbuf {buf}")
    return L


def cut_script(r, bits):
    """A file that ends in the middle of its data."""
    ch = r.choice([1, 2, 3])
    fr = ch * bits // 8
    n = r.randrange(2, 12)
    body = le(2, 1) + le(2, ch) + le(4, 8000) + le(4, 8000 * fr) + le(2, fr) + le(2, bits)
    b = list(b"WAVE") + chunk("fmt ", body) + chunk("data", [r.randrange(256) for _ in range(n * fr)], pad=False)
    cut = r.randrange(1, n) * fr
    f = (list(b"RIFF") + le(4, len(b)) + b)[:-cut]
    buf = r.choice([1, 2, 3, 5, 16])
    return ["file " + j(f), f"ropen {r.choice(['mem', 'file'])} {buf}"] + ["rget"] * ((n * fr - cut) // fr // buf + 2)


def huge_script(r):
    """A chunk that claims gigabytes, as files written to a pipe do."""
    ch = r.choice([1, 2, 3])
    fr = ch * 2
    big = lambda: le(4, r.choice([2 ** 32 - 1, 2 ** 32 - 2, 2 ** 31, 2 ** 31 - 1, 2 ** 31 + 2, 2 ** 30, 3 * 2 ** 30, 2 ** 32 - 37, r.randrange(2 ** 30, 2 ** 32)]))
    body = le(2, 1) + le(2, ch) + le(4, 8000) + le(4, 8000 * fr) + le(2, fr) + le(2, 16)
    n = r.choice([0, 1, 2, 5, 12])
    data = [r.randrange(256) for _ in range(n * fr)]
    b = list(b"WAVE")
    k = r.random()
    if k < 0.1:       # nothing but the gigabytes
        b += list(b"LIST") + big() + [1, 2, 3]
    b += chunk("fmt ", body)
    if r.random() < 0.3:
        b += chunk("data", [r.randrange(256) for _ in range(r.randrange(4) * fr)])
    if k < 0.7:       # endless data
        b += list(b"data") + big() + data
    else:             # data, then something endless
        b += chunk("data", data) + list(r.choice([b"LIST", b"id3 "])) + big() + [r.randrange(256) for _ in range(r.randrange(9))]
    f = list(b"RIFF") + (big() if r.random() < 0.8 else le(4, len(b) + 400)) + b
    buf = r.choice([1, 2, 3, 5, 16])
    return ["file " + j(f), f"{r.choice(['ropen', 'ropen', 'sopen'])} {r.choice(['mem', 'file'])} {buf}"] + ["rget"] * (2 * n // buf + 4)


def c25(c, r, mul):
    S = [{"id": f"read{i}", "text": read_script(r)} for i in range(700 * mul)]
    S += [{"id": f"short{i}", "text": cut_script(r, 16)} for i in range(40 * mul)]
    S += [{"id": f"huge{i}", "text": huge_script(r)} for i in range(60 * mul)]
    S += [{"id": f"back{i}", "text": write_script(r)} for i in range(80 * mul)]
    S += [{"id": f"long{i}", "text": long_script(r, *x)} for i, x in enumerate(LONG)]
    # known finding: silence of the missing part of an 8 bit file
    S.append({"id": "cut8", "text": ["file " + j(list(b"RIFF") + le(4, 40) + list(b"WAVE") + chunk("fmt ", le(2, 1) + le(2, 1) + le(4, 8000) + le(4, 8000)
                                     + le(2, 1) + le(2, 8)) + list(b"data") + le(4, 4) + [10, 20]), "ropen mem 4", "rget"]})
    return S


# ---------------------------------------------------------------------------

def corrupt(m, r):
    c = [e for e in m["ev"] if (e["op"] in ("read",) and e["b"]) or (e["op"] in ("rget", "wstop", "enc", "chunk") and e.get("v"))
         or (e["op"] == "stop" and e.get("v")) or e["op"] == "codec"]
    if not c:
        return False
    e = r.choice(c)
    k = {"read": "b", "codec": "back"}.get(e["op"], "v")
    i = r.randrange(len(e[k]))
    if not isinstance(e[k][i], int):
        return False
    e[k][i] = (e[k][i] + 1) % 256 if k == "b" else e[k][i] + 1
    return True


def check(c):
    r = c.rng
    mul = 10 if c.thorough else 1
    c.assumptions += {
        "C22": ["streams are started before files are used, and not used after they were stopped", "positions are not negative"],
        "C23": ["values between -1 and 1; values between codes are rationals whose code does not hang on the rounding of a product of doubles"],
        "C24": ["8 and 16 bit samples between -1 and 1, settings made before the writer is started, files below 4 GB"],
        "C25": ["8 and 16 bit PCM, chunks below 2 GB, data chunks of whole frames, a declared size that is right, too large, or was never filled in",
                "a file that was cut ends after a whole frame"],
    }[c.pid]
    if c.pid == "C23":
        c.model("MCCodec", "MCCodec.cfg", timeout=300)
    else:
        c.model("MCIo", "MCIo_2.cfg" if c.thorough else "MCIo.cfg", timeout=600)
    if c.pid == "C24":
        # files of some gigabytes, of which only the header is kept
        G = [(1, 16, 1), (2, 8, 3), (2, 16, 700), (1, 16, 32768)] + ([(2, 16, 32767), (2, 8, 32769), (2, 16, 65535)] if c.thorough else [])
        c.conform(build("io", "plain"), [{"id": f"giant{ch}.{bits}.{m}", "text": [f"wgiant {ch} {bits} {m}"]} for ch, bits, m in G],
                  "IoTrace", label="giant files", timeout=800)
    exe = build("io")
    S = {"C22": c22, "C23": c23, "C24": c24, "C25": c25}[c.pid](c, r, mul)
    tr = c.conform(exe, S, "IoTrace", label={"C22": "streams", "C23": "codec", "C24": "writers", "C25": "readers"}[c.pid])
    c.sensitivity("IoTrace", [tr[s["id"]] for s in S if s["id"] in tr and not s["id"].startswith(("cut8", "full"))], corrupt)
