"""Shared machinery: building the drivers from /repo's working tree, running TLC,
running the drivers, validating recorded traces with TLC, evidence and verdicts."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed: an error exit, never a violation."""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------- build

def _hash_tree(extra=()):
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARN):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:20]


FLAVOURS = {
    "asan": "-std=gnu++23 -O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS",
    "plain": "-std=gnu++23 -O2 -w -DNDEBUG",
    "inst": "-std=gnu++23 -O0 -g1 -w -pthread -finstrument-functions "
            "-finstrument-functions-exclude-file-list=/harness/sched",
}


def _run(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **kw)


def build(driver, flavour="asan", extra="", link="", repo_sources=True, more=(), exclude=("alsa",)):
    """Compile /repo's library sources and harness/<driver>.cpp; return the executable."""
    flags = FLAVOURS[flavour] + " " + extra + f" -I{REPO}/include/maec -I{REPO}/src -I{HARN}"
    key = _hash_tree((flags, link, driver, repo_sources, more, exclude))
    out = os.path.join(BUILD, f"{driver}-{flavour}-{key}")
    exe = os.path.join(out, driver)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, f"{driver}-{flavour}-*")):
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix=f"{driver}.", dir=BUILD)
    srcs = [os.path.join(HARN, driver + ".cpp")] + [os.path.join(HARN, m) for m in more]
    if repo_sources:
        srcs += [s for s in sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
                 if not any(x in os.path.basename(s) for x in exclude)]
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, f"{i}_{os.path.basename(s)}.o")
        fl = flags
        if s.startswith(HARN) and "sched" in os.path.basename(s):
            fl = fl.replace("-finstrument-functions ", " ").split("-finstrument-functions-exclude")[0] + \
                f" -I{REPO}/include/maec -I{HARN}"
        jobs.append((f"g++ {fl} -c {s} -o {o}", o))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: _run(j[0]), jobs))
    for (c, _), r in zip(jobs, res):
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise CheckError(f"compile failed: {c}\n{r.stderr[-3000:]}")
    r = _run(f"g++ {flags} {' '.join(o for _, o in jobs)} -o {tmp}/{driver} {link}")
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise CheckError(f"link failed:\n{r.stderr[-3000:]}")
    for _, o in jobs:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


# --------------------------------------------------------------------------- TLC

class TLC:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        m2 = re.findall(r"([\d,]+) states generated \(", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        if not m:
            m3 = re.findall(r"The number of states generated: (\d+)", out)
            if m3:
                self.generated = int(m3[-1])

    @property
    def ok(self):
        return self.rc == 0


_tmpdirs = []


def scratch():
    d = tempfile.mkdtemp(prefix="vf.")
    _tmpdirs.append(d)
    return d


def cleanup():
    for d in _tmpdirs:
        shutil.rmtree(d, ignore_errors=True)


def tlc(module, cfg, env=None, workers=None, timeout=600, heap="4g", args=(), fast=False, cfgtext=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>."""
    meta = scratch()
    if cfgtext is not None:
        cfgp = os.path.join(meta, "m.cfg")
        with open(cfgp, "w") as f:
            f.write(cfgtext)
    else:
        cfgp = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    jv = ["java", f"-Xmx{heap}", "-Xss16m", f"-Djava.io.tmpdir={meta}"]
    jv += ["-XX:+UseSerialGC"] if fast else ["-XX:+UseParallelGC"]
    cmd = ["timeout", str(timeout)] + jv + ["-cp", TLA_CP + ":" + SPEC, "tlc2.TLC", "-metadir", os.path.join(meta, "st"),
           "-workers", str(workers or NCPU), "-noGenerateSpecTE", *args, "-config", cfgp, os.path.join(SPEC, module + ".tla")]
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return TLC(r.returncode, r.stdout + r.stderr, time.time() - t)


def tlc_strings(out):
    """Strings printed by PrintT(ToJson(..)) -> parsed JSON values."""
    res = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    return res


# --------------------------------------------------------------------------- drivers

def _drive_once(exe, text, timeout, env=None):
    d = scratch()
    sf = os.path.join(d, "script")
    of = os.path.join(d, "out")
    with open(sf, "w") as f:
        f.write(text)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2000"
    e["VF_SCRATCH"] = d
    e.update(env or {})
    with open(os.path.join(d, "err"), "w+", errors="replace") as ef:
        p = subprocess.Popen([exe, sf, of], stdout=subprocess.DEVNULL, stderr=ef, env=e, cwd=d)
        rc, seen, since = None, -1, time.time()
        while rc is None:                  # it hangs when it has written nothing for that long
            try:
                rc = p.wait(0.05 if since + 1 > time.time() else 0.5)
            except subprocess.TimeoutExpired:
                n = os.path.getsize(of) if os.path.exists(of) else 0
                if n != seen:
                    seen, since = n, time.time()
                elif time.time() - since > timeout:
                    p.kill()
                    p.wait()
                    rc = "timeout"
        ef.seek(0)
        err = ef.read() if rc != "timeout" else "driver exceeded its time limit (non-termination)"
    traces = []
    cur = None
    try:
        with open(of, errors="replace") as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                try:
                    o = json.loads(line)
                except ValueError:
                    break
                if "T" in o:
                    cur = {"id": o["T"], "cfg": o.get("cfg", {}), "ev": [], "done": False}
                    traces.append(cur)
                elif "E" in o:
                    cur["done"] = True
                else:
                    cur["ev"].append(o)
    except FileNotFoundError:
        pass
    shutil.rmtree(d, ignore_errors=True)
    return rc, err, traces


def drive(exe, scripts, timeout=40, env=None, shards=None):
    """scripts: list of dict(id=, text=[lines]).  Runs them all (isolating crashes); returns
    {id: trace}; a crashed or hung script has trace['crash'] set."""
    shards = shards or NCPU
    refused = []
    groups = [scripts[i::shards] for i in range(shards)]
    groups = [g for g in groups if g]

    def work(group):
        res = {}
        todo = list(group)
        fails = 0
        while todo:
            text = "".join(f"T {s['id']}\n" + "".join(l + "\n" for l in s["text"]) + "E\n" for s in todo)
            rc, err, traces = _drive_once(exe, text, timeout, env)
            for t in traces:
                if t["done"]:
                    res[t["id"]] = t
            left = [s for s in todo if s["id"] not in res]
            if rc == 0 and not left:
                break
            if not left:
                break
            if rc == 0:
                raise CheckError("driver ended early without an error")
            bad = left[0]
            if rc == 2:                    # not the code's doing, unless something else shows that it is
                refused.append(f"{bad['id']}: {err[-500:]}")
                todo = left[1:]
                fails += 1
                if fails >= 6:
                    break
                continue
            part = next((t for t in traces if t["id"] == bad["id"]), None)
            res[bad["id"]] = {"id": bad["id"], "cfg": part["cfg"] if part else {}, "ev": part["ev"] if part else [],
                              "done": False, "crash": {"rc": rc, "err": err[-4000:]}}
            todo = left[1:]
            fails += 3 if rc == "timeout" else 1
            if fails >= 6:
                break
        return res
    out = {}
    with cf.ThreadPoolExecutor(len(groups)) as ex:
        for r in ex.map(work, groups):
            out.update(r)
    if refused and not any(t.get("crash") for t in out.values()):
        REFUSED.extend(refused)
    return out


REFUSED = []   # scripts a driver could not make sense of: an error of the check, if it found no violation


# --------------------------------------------------------------------------- trace validation

def validate(module, traces, cfg=None, env=None, timeout=600, jvms=None, heap="3g"):
    """Validate traces (dicts with ev/cfg) with the trace spec; returns (list of (trace, reached), stats)."""
    traces = [t for t in traces if not t.get("crash")]
    if not traces:
        return [], {"states": 0, "accepted": 0, "events": 0}
    jvms = jvms or min(NCPU, max(1, len(traces) // 40 + 1))
    # balance on number of events
    order = sorted(range(len(traces)), key=lambda i: -len(json.dumps(traces[i]["ev"])))
    parts = [[] for _ in range(jvms)]
    for n, i in enumerate(order):
        parts[n % jvms].append(i)
    parts = [p for p in parts if p]

    def work(idx):
        bad = []
        while True:
            d = scratch()
            p = os.path.join(d, "t.ndjson")
            with open(p, "w") as f:
                for i in idx:
                    f.write(json.dumps({"cfg": traces[i]["cfg"], "ev": traces[i]["ev"]}) + "\n")
            e = {"VF_TRACES": p}
            e.update(env or {})
            r = tlc(module, cfg or module + ".cfg", env=e, workers=1, timeout=timeout, heap=heap, fast=True)
            shutil.rmtree(d, ignore_errors=True)
            if "VF_POST_DONE" in r.out:
                break
            # An observation so far off that the specification has no value to compare it with
            # (a number that overflows, an index outside a sequence): that trace is rejected.
            at = re.findall(r"/\\ tid = (\d+)", r.out)
            ls = re.findall(r"/\\ l = (\d+)", r.out)
            if "The behavior up to this point" not in r.out or not at or not ls or len(bad) >= 8:
                raise CheckError(f"TLC failed on {module}:\n" + r.out[-4000:])
            bad.append((idx[int(at[-1]) - 1], int(ls[-1])))
            idx = idx[:int(at[-1]) - 1] + idx[int(at[-1]):]
            if len(bad) >= 3 or not idx:
                return bad, r
        bad += [(idx[int(a) - 1], int(b)) for a, b in re.findall(r'<<"VF_REJECT", (\d+), (\d+)', r.out)]
        return bad, r
    rej, states = [], 0
    with cf.ThreadPoolExecutor(jvms) as ex:
        for bad, r in ex.map(work, parts):
            rej += [(traces[i], l) for i, l in bad]
            states += r.distinct
    return rej, {"states": states, "accepted": len(traces) - len(rej), "events": sum(len(t["ev"]) for t in traces)}


# --------------------------------------------------------------------------- check context

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)["findings"]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.trace_events = 0
        self.trace_states = 0
        self.samples = []
        self.violations = []
        self.hung = False
        self.notes = {}
        self.models = []
        self.assumptions = []

    # model -----------------------------------------------------------------
    def model(self, module, cfg, expect_ok=True, **kw):
        r = tlc(module, cfg, **kw)
        name = kw.get("label") or cfg
        if expect_ok and not r.ok:
            raise CheckError(f"model {module}/{cfg} failed in TLC (rc {r.rc}):\n" + r.out[-5000:])
        if not expect_ok:
            if r.rc not in (10, 11, 12, 13):
                raise CheckError(f"model {module}/{cfg} was expected to be violated (rc {r.rc}):\n" + r.out[-3000:])
        else:
            self.states += r.distinct
            self.transitions += r.generated
        self.models.append({"module": module, "cfg": name, "distinct": r.distinct, "generated": r.generated,
                            "expected_violation": not expect_ok, "wall_s": round(r.wall, 1)})
        log(f"[{self.pid}] TLC {module}/{name}: {r.distinct} distinct, {r.generated} generated, {r.wall:.1f}s"
            + ("" if expect_ok else "  (violated, as it must be)"))
        return r

    def prove(self, module, timeout=150):
        """Have tlapm check the proofs of a module.  A proof is about the specification alone, so
        one that does not come through (a slow machine) is never a violation: it is recorded, and
        fails the thorough run."""
        t0 = time.time()
        d = scratch()
        try:
            for f in glob.glob(os.path.join(SPEC, "*.tla")):
                shutil.copy(f, d)
            try:
                p = subprocess.Popen(["tlapm", "--threads", "4", "--cleanfp", module + ".tla"], cwd=d, start_new_session=True,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                try:
                    out = p.communicate(timeout=timeout * (4 if self.thorough else 1))[0]
                except subprocess.TimeoutExpired as e:
                    out = str(e)
                    os.killpg(p.pid, signal.SIGKILL)     # and the provers it started
                    p.communicate()
            except OSError as e:
                out = str(e)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        m = re.search(r"All (\d+) obligations proved", out)
        n = int(m.group(1)) if m else 0
        self.notes.setdefault("proofs", []).append({"module": module, "obligations": n, "proved": bool(m),
                                                    "wall_s": round(time.time() - t0, 1)})
        if not m and self.thorough:
            raise CheckError(f"the proofs of {module} did not come through:\n" + out[-3000:])
        log(f"[{self.pid}] TLAPS {module}: " + (f"{n} obligations proved" if m else "not completed") + f", {time.time() - t0:.1f}s")

    def generate(self, module, cfg, limit=None, **kw):
        """All op histories the generator configuration prints, de-duplicated."""
        r = tlc(module, cfg, **kw)
        if not r.ok and "-simulate" not in kw.get("args", ()):
            raise CheckError(f"generator {module}/{cfg} failed:\n" + r.out[-3000:])
        hs = tlc_strings(r.out)
        if not hs:
            raise CheckError(f"generator {module}/{cfg} produced nothing:\n" + r.out[-3000:])
        seen, res = set(), []
        for h in hs:
            k = json.dumps(h, sort_keys=True)
            if k not in seen:
                seen.add(k)
                res.append(h)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated,
                            "histories": len(res), "wall_s": round(r.wall, 1)})
        log(f"[{self.pid}] TLC generator {module}/{cfg}: {len(res)} histories, {r.wall:.1f}s")
        if limit and len(res) > limit:
            res = self.rng.sample(sorted(res, key=lambda x: json.dumps(x, sort_keys=True)), limit)
        return res

    # conformance -----------------------------------------------------------
    def conform(self, exe, scripts, tracespec, cfg=None, timeout=40, label="", env=None, tenv=None, post=None, jvms=None):
        """Drive scripts, validate all traces; confirmed rejections become violations."""
        if self.hung:
            return {}
        ids = set()
        for s in scripts:
            assert s["id"] not in ids, s["id"]
            ids.add(s["id"])
        by = {s["id"]: s for s in scripts}
        t = time.time()
        tr = drive(exe, scripts, timeout=timeout, env=env)
        if post:
            for x in tr.values():
                post(x)
        t1 = time.time()
        bad = {i: {"kind": "crash", "detail": x["crash"]} for i, x in tr.items() if x.get("crash")}
        rej, st = validate(tracespec, list(tr.values()), cfg, env=tenv, jvms=jvms)
        for x, l in rej:
            bad[x["id"]] = {"kind": "rejected", "at": l}
        self.validated += st["accepted"]
        self.trace_events += st["events"]
        self.trace_states += st["states"]
        for i in list(tr)[:1]:
            if len(self.samples) < 6:
                self.samples.append({"what": label or tracespec, "script": by[i]["text"][:12],
                                     "trace_head": [_short(e) for e in tr[i]["ev"][:4]]})
        log(f"[{self.pid}] {label or tracespec}: {len(tr)} executions, {st['events']} events, "
            f"{st['accepted']} accepted, {len(bad)} not  (drive {t1-t:.1f}s, TLC {time.time()-t1:.1f}s)")
        n = 0
        for i in sorted(bad, key=lambda k: (len(by[k]["text"]), str(k))):
            if n >= 3:
                break
            # confirm by re-running this script alone
            tr2 = drive(exe, [by[i]], timeout=timeout, env=env, shards=1)
            x2 = tr2.get(i)
            if x2 is None:
                continue
            if post:
                post(x2)
            if x2.get("crash"):
                why = {"kind": "crash", "detail": x2["crash"]}
                self.hung = self.hung or x2["crash"]["rc"] == "timeout"
            else:
                rj, _ = validate(tracespec, [x2], cfg, env=tenv)
                if not rj:
                    log(f"[{self.pid}] unconfirmed rejection of {i}, ignored")
                    if os.environ.get("VF_DEBUG"):
                        with open(os.environ["VF_DEBUG"], "w") as f:
                            json.dump({"script": by[i], "why": bad[i], "first": tr[i], "again": x2}, f)
                    continue
                why = {"kind": "rejected", "at": rj[0][1],
                       "event": x2["ev"][rj[0][1] - 1] if rj[0][1] - 1 < len(x2["ev"]) else None}
            n += 3 * self.hung + self.report(label or tracespec, by[i], x2, why, {"driver": os.path.basename(exe), "spec": tracespec, "cfg": cfg, "env": tenv, "denv": env})
        if REFUSED and not self.violations:
            raise CheckError("driver rejected a script: " + REFUSED[0])
        return tr

    def report(self, label, script, trace, why, how=None):
        sig = hashlib.sha256(("\n".join(script["text"])).encode()).hexdigest()[:16]
        for k in known_findings():
            if k.get("property") == self.pid and k.get("status") == "known" and sig in k.get("scripts", []) \
                    and k.get("kind", "rejected") == why["kind"] and k.get("at", why.get("at")) == why.get("at"):
                log(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return 0
        d = os.path.join(VERIF, "replay", self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{sig}.json")
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": label, "script": script, "why": why, "how": how,
                       "trace": {"cfg": trace.get("cfg"), "ev": trace.get("ev", [])[:400]}}, f, indent=1)
        self.violations.append(p)
        log(f"[{self.pid}] {label} {script['id']}: {_short(why)}")
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)
        return 1

    def sensitivity(self, tracespec, traces, mutate, cfg=None, n=6, tenv=None):
        """Binding demonstration: corrupt recorded traces; the trace spec must reject each one."""
        muts = []
        for t in traces:
            if len(muts) >= n or t.get("crash"):
                continue
            m = json.loads(json.dumps({"id": t["id"], "cfg": t["cfg"], "ev": t["ev"]}))
            if mutate(m, self.rng):
                muts.append(m)
        if not muts:
            return
        rej, _ = validate(tracespec, muts, cfg, jvms=1, env=tenv)
        self.notes.setdefault("corrupted_traces_rejected", {})[tracespec] = f"{len(rej)}/{len(muts)}"
        if len(rej) != len(muts) and not self.violations:
            raise CheckError(f"binding check: {tracespec} accepted {len(muts)-len(rej)} corrupted traces of {len(muts)}")

    def finish(self):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples or ["none"],
            "trace_events": self.trace_events, "trace_states": self.trace_states,
            "models": self.models,
        }
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"[{self.pid}] done in {ev['wall_s']}s: {len(self.violations)} violation(s), "
            f"{self.validated} traces validated, {self.states} model states")
        return 1 if self.violations else 0


def _short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."
