"""Runs one property's check: generates seeded cases, executes each as one
simulated run in a pool of forked workers, minimises what fails, writes replay
files and the evidence."""
import collections
import copy
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
CASE_LIMIT = 90            # seconds of processor time for one simulated run
WALL = 2.5                 # ... and at most this many times as many by the clock on the wall
real_time = time.time      # before the seams go in
real_cpu = time.process_time


class CaseTimeout(BaseException):
    pass


_end = [0.0, 0.0]


def _alarm(*a):
    # a busy machine makes runs slow, not endless: processor time decides
    if real_cpu() < _end[0] and real_time() < _end[1]:
        signal.alarm(5)
        return
    raise CaseTimeout()


def warm():
    """load every library once, before forking, so that no run sees a cold cache"""
    import sysconfig
    sysconfig.get_config_vars()
    import sim.bridge as bridge
    bridge.install()
    import torch
    torch.set_num_threads(1)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    import scipy  # noqa
    import skimage
    import skimage.io as sio
    import PIL.Image
    import runpy, tempfile, shutil, uuid, argparse, csv, glob, pathlib, copy, fileinput  # noqa
    import multiprocessing.connection  # noqa
    PIL.Image.init()
    plt.get_cmap("magma")(0.5)
    d = tempfile.mkdtemp()
    p = os.path.join(d, "a.png")
    for ch in ((), (3,), (4,)):
        sio.imsave(p, np.zeros((8, 8) + ch, dtype=np.uint8), check_contrast=False)
        im = PIL.Image.open(p)
        im.save(os.path.join(d, "a.gif"), format="GIF", save_all=True,
                append_images=[im.copy()], duration=42, loop=0)
    shutil.rmtree(d)
    m = torch.nn.Conv2d(1, 1, 3, padding=1, padding_mode="circular")
    m(torch.rand(1, 1, 8, 8)).sum().backward()
    torch.optim.Adam(m.parameters())
    b = __import__("io").BytesIO()
    torch.save({"a": torch.zeros(2)}, b)
    b.seek(0)
    torch.load(b)
    from . import world, patches, mpi
    sys.meta_path.insert(0, world._Finder())
    # import the code under test once, for the sake of the libraries it imports
    import importlib
    import pkgutil
    import types
    fake = types.ModuleType("mpi4py")
    fake.MPI = types.SimpleNamespace(COMM_WORLD=None)
    fake.__path__ = []
    sys.modules["mpi4py"] = fake
    argv = sys.argv
    sys.argv = ["warm"]
    out = sys.stdout
    sys.stdout = __import__("io").StringIO()
    try:
        for base, _, files in sorted(os.walk(os.path.join(world.ROOT, "yuca"))):
            for f in sorted(files):
                if f.endswith(".py"):
                    n = os.path.relpath(os.path.join(base, f), world.ROOT)[:-3].replace("/", ".")
                    try:
                        importlib.import_module(n.removesuffix(".__init__"))
                    except BaseException:
                        pass
        try:
            import bokeh.io, bokeh.plotting, bokeh.layouts, bokeh.models, bokeh.palettes  # noqa
        except Exception:
            pass
    finally:
        sys.argv, sys.stdout = argv, out
    for k in [k for k in sys.modules if world._is_private(k)]:
        del sys.modules[k]
    torch.set_default_dtype(torch.float32)
    world.atomic_imports()
    patches.install()


# ------------------------------------------------------------------ workers
def run_case(chk, case, limit=CASE_LIMIT):
    from .world import HarnessError
    old = signal.signal(signal.SIGALRM, _alarm)
    _end[:] = [real_cpu() + limit, real_time() + WALL * limit]
    signal.alarm(limit)
    try:
        r = chk.execute(copy.deepcopy(case))
        signal.alarm(0)
        return r
    except CaseTimeout:
        return {"hang": True}
    except HarnessError as e:
        return {"harness": f"{e}"}
    except Exception:
        return {"harness": traceback.format_exc()}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def worker(chk, tier, seed, idxs, wfd):
    out = os.fdopen(wfd, "wb")
    for i in idxs:
        case = chk.case(seed, tier, i)
        t = real_time()
        r = run_case(chk, case)
        r["i"] = i
        r["wall"] = real_time() - t
        data = pickle.dumps(r)
        out.write(len(data).to_bytes(8, "big") + data)
        out.flush()
        if r.get("hang"):
            os.kill(os.getpid(), signal.SIGKILL)
    out.close()
    os.kill(os.getpid(), signal.SIGKILL)     # no atexit, no thread joins


class Pool:
    def __init__(self, chk, tier, seed, count, deadline):
        self.chk, self.tier, self.seed = chk, tier, seed
        self.deadline = deadline
        self.todo = {k: list(range(k, count, NPROC)) for k in range(NPROC)}
        self.procs = {}

    def start(self, k):
        if not self.todo[k]:
            return
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for f in self.procs:
                    os.close(f)
                worker(self.chk, self.tier, self.seed, self.todo[k], w)
            finally:
                os.kill(os.getpid(), signal.SIGKILL)
        os.close(w)
        self.procs[r] = (k, pid, bytearray())

    def results(self):
        for k in self.todo:
            self.start(k)
        retries = collections.Counter()
        while self.procs:
            left = self.deadline - real_time()
            if left <= 0:
                break
            rs, _, _ = select.select(list(self.procs), [], [], min(left, 1.0))
            for fd in rs:
                k, pid, buf = self.procs[fd]
                data = os.read(fd, 1 << 20)
                if not data:
                    os.close(fd)
                    del self.procs[fd]
                    os.waitpid(pid, 0)
                    if self.todo[k]:
                        # the worker died: its current case did not end in time,
                        # or it was killed (memory); go on behind that case
                        retries[k] += 1
                        if not getattr(self, "_last_hang", {}).pop(k, False):
                            yield {"i": self.todo[k].pop(0), "died": True}
                        self.start(k)
                    continue
                buf += data
                while len(buf) >= 8:
                    n = int.from_bytes(buf[:8], "big")
                    if len(buf) < 8 + n:
                        break
                    r = pickle.loads(bytes(buf[8:8 + n]))
                    del buf[:8 + n]
                    self.todo[k].remove(r["i"])
                    if r.get("hang"):
                        self.__dict__.setdefault("_last_hang", {})[k] = True
                    yield r
        self.stop()

    def stop(self):
        for fd, (k, pid, _) in list(self.procs.items()):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
        self.procs = {}


def isolated(fn, limit):
    """run fn() in a forked child; returns its value, or None if it did not end"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os.kill(os.getpid(), signal.SIGKILL)
    os.close(w)
    buf = bytearray()
    end = real_time() + limit
    while True:
        left = end - real_time()
        if left <= 0:
            break
        rs, _, _ = select.select([r], [], [], left)
        if not rs:
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    try:
        return pickle.loads(bytes(buf)) if buf else None
    except Exception:
        return None


def try_case(chk, case, limit=CASE_LIMIT):
    r = isolated(lambda: run_case(chk, case, limit), WALL * limit + 20)
    return r if r is not None else {"hang": True}


def sigs(r):
    if r.get("hang"):
        return {"hang"}
    return {s for s, _ in r.get("viol", ())}


# ------------------------------------------------------------------ shrinking
def minimise(chk, case, sig, budget):
    end = real_time() + budget
    tried = 0
    limit = 20 if sig == "hang" else CASE_LIMIT
    best = case

    def fails(c):
        nonlocal tried
        tried += 1
        return sig in sigs(try_case(chk, c, limit))

    progress = True
    while progress and real_time() < end:
        progress = False
        for cand in chk.smaller(best):
            if real_time() > end:
                break
            if fails(cand):
                best = cand
                progress = True
                break
    # the schedule, as an explicit list of the choices that were made
    if sig != "hang" and "schedule" in best and "seed" in best["schedule"]:
        r = try_case(chk, best)
        if r.get("choices") is not None and sig in sigs(r):
            made = r["choices"]
            c = copy.deepcopy(best)
            c["schedule"] = {"choices": made}
            if fails(c):
                best = c
    ch = best.get("schedule", {}).get("choices")
    if ch:
        def put(l):
            c = copy.deepcopy(best)
            while l and l[-1] == 0:
                l = l[:-1]
            c["schedule"]["choices"] = l
            return c
        if fails(put([])):
            best = put([])
        else:
            n = 2
            cur = list(ch)
            while real_time() < end:
                nz = [i for i, v in enumerate(cur) if v]
                if not nz or n > 2 * len(nz):
                    break
                size = max(1, len(nz) // n)
                ok = False
                for s in range(0, len(nz), size):
                    if real_time() > end:
                        break
                    l = list(cur)
                    for i in nz[s:s + size]:
                        l[i] = 0
                    if fails(put(l)):
                        cur = l
                        best = put(l)
                        ok = True
                        break
                if not ok:
                    if size == 1:
                        break
                    n *= 2
    return best, tried


# ------------------------------------------------------------------ known findings
def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def matches(k, case, sig):
    if k.get("signature") != sig:
        return False
    for key, val in k.get("case", {}).items():
        if case.get(key) != val:
            return False
    return True


# ------------------------------------------------------------------ main
def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


def replay(chk, path):
    with open(path) as f:
        rep = json.load(f)
    r = try_case(chk, rep["case"])
    if r.get("harness"):
        print("harness error:", r["harness"])
        return 2
    got = sigs(r)
    print(f"replayed {path}: signatures {sorted(got)} trace {r.get('hash')}")
    for s, m in r.get("viol", ()):
        print(f"  {s}: {m}")
    if rep["signature"] not in got:
        print(f"NOT reproduced: expected {rep['signature']}")
        return 0
    if rep.get("trace_hash") and r.get("hash") != rep["trace_hash"]:
        print(f"reproduced, but along a different trace (was {rep['trace_hash']})")
    else:
        print("reproduced exactly")
    print(f"VIOLATION property={chk.id} replay={path}")
    return 1


def check(chk, tier, seed, count=None, seconds=None):
    t0 = real_time()
    if tier == "quick":
        n = count or chk.quick
        deadline = t0 + (seconds or 420)
    else:
        n = count or 10_000_000
        deadline = t0 + (seconds or chk.thorough_s)
    print(f"{chk.id}: {tier}, seed {seed}, up to {n} runs on {NPROC} workers", flush=True)

    known = load_known(chk.id)
    pool = Pool(chk, tier, seed, n, deadline)
    stats = collections.Counter()
    hashes, nontrivial = set(), set()
    runs = 0
    simtime = 0.0
    samples, bad, harness, hangs = [], [], [], []
    known_hit = {}
    slowest = 0.0
    for r in pool.results():
        if r.get("died"):
            hangs.append(r["i"])
            continue
        if r.get("harness"):
            harness.append((r["i"], r["harness"]))
            if len(harness) > 20:
                break
            continue
        if r.get("hang"):
            hangs.append(r["i"])
            if len(hangs) >= 4:
                break
            continue
        runs += 1
        slowest = max(slowest, r["wall"])
        if os.environ.get("VERIF_SLOW") and r["wall"] > float(os.environ["VERIF_SLOW"]):
            print("slow", round(r["wall"], 1), r["i"], r.get("stats"), flush=True)
        stats.update(r.get("stats", {}))
        simtime += r.get("simtime", 0.0)
        hashes.add(r.get("hash"))
        if r.get("nontrivial", True):
            nontrivial.add(r.get("hash"))
        if len(samples) < 3 and r.get("nontrivial", True):
            samples.append(chk.case(seed, tier, r["i"]))
        if r.get("viol"):
            case = chk.case(seed, tier, r["i"])
            new = []
            for s, m in r["viol"]:
                k = next((k for k in known if matches(k, case, s)), None)
                if k is not None:
                    known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
                else:
                    new.append((s, m))
            if new:
                bad.append((r["i"], new))
                if len(bad) >= 6:
                    break
    pool.stop()
    search_s = real_time() - t0

    # a case whose worker did not come back: does it really not end?
    for i in hangs[:2]:
        case = chk.case(seed, tier, i)
        r = try_case(chk, case, CASE_LIMIT)
        if r.get("hang"):
            bad.append((i, [("hang", "the run does not end")]))
        elif r.get("viol"):
            bad.append((i, r["viol"]))

    for k in known:
        print(f"KNOWN-FINDING: property={chk.id} {k['what']}"
              f" (seen in {known_hit.get(k['what'], 0)} runs)")

    violation = None
    code = 0
    if bad:
        bad.sort(key=lambda b: (b[1][0][0] == "hang", b[0]))
        i, vs = bad[0]
        sig, msg = vs[0]
        print(f"{len(bad)} failing runs; first: case {i}: {sig}: {msg}")
        for j, v in bad[1:6]:
            print(f"   also case {j}: {v[0][0]}: {str(v[0][1])[:300]}")
        case = chk.case(seed, tier, i)
        small, tried = minimise(chk, case, sig, 60 if tier == "quick" else 240)
        r = try_case(chk, small)
        if sig not in sigs(r):
            small = case
            r = try_case(chk, small)
        if sig in sigs(r):
            msgs = dict(r.get("viol", ()))
            name = f"{chk.id}-{sig}-{hashlib.sha1(json.dumps(small, sort_keys=True, default=str).encode()).hexdigest()[:10]}.json"
            path = os.path.join(HERE, "replays", name)
            violation = {
                "property": chk.id, "signature": sig, "message": msgs.get(sig, msg),
                "trace_hash": r.get("hash"), "case": small, "found_as": {
                    "seed": seed, "tier": tier, "index": i, "original": case},
                "minimised_in": tried, "trace": r.get("trace", [])[-400:],
                "replay": f"/opt/venv/bin/python -B run.py {chk.id} --replay {path}"}
            write_json(path, violation)
            print(f"  minimised in {tried} runs: {msgs.get(sig, msg)}")
            print(f"VIOLATION property={chk.id} replay={path}", flush=True)
            code = 1
        elif sig == "hang":
            print(f"case {i} was slow, but it ends")
        else:
            print(f"harness error: case {i} does not reproduce {sig}")
            code = 2
    elif harness:
        print(f"harness error in {len(harness)} runs, first (case {harness[0][0]}):\n{harness[0][1]}")
        code = 2
    elif runs == 0:
        print("harness error: nothing was run")
        code = 2

    wall = real_time() - t0
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault_")}
    ev = {
        "property": chk.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontrivial),
            "rule": chk.rule,
            "samples": samples,
            "runs_per_hour": int(runs / max(search_s, 1e-3) * 3600),
            "seeds_per_hour": int(runs / max(search_s, 1e-3) * 3600),
            "simulated_seconds": round(simtime, 3),
            "faults_injected": faults,
            "distinct_interleavings": len(hashes),
            "interleaving_measure": "SHA-1 over the full event trace of a run: every system call, "
                                    "message, delivery, fault and context switch, in order",
            "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault_")},
            "real_components": chk.real, "stub_components": chk.stubs,
            "known_findings_seen": known_hit,
            "slowest_run_s": round(slowest, 2), "workers": NPROC,
        },
        "assumptions": chk.assumptions,
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    write_json(os.path.join(HERE, "evidence", f"{chk.id}.json"), ev)
    print(f"{chk.id}: {runs} runs, {len(hashes)} distinct, faults {faults or 'none'}, "
          f"{wall:.1f}s, exit {code}", flush=True)
    return code


class Check:
    """base of all checks"""
    id = "?"
    rule = ""
    quick = 400
    thorough_s = 600
    real = []
    stubs = []
    assumptions = []
    shrink_to = {}

    def case(self, seed, tier, i):
        rng = random.Random(f"{seed}/{self.id}/{i}")
        c = self.generate(rng, tier)
        return c

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, case):
        raise NotImplementedError

    def smaller(self, case):
        fs = case.get("faults", [])
        for k in range(len(fs)):
            c = copy.deepcopy(case)
            del c["faults"][k]
            yield c
        for key, vals in self.shrink_to.items():
            if key not in case:
                continue
            for v in vals:
                if case[key] == v:
                    break
                c = copy.deepcopy(case)
                c[key] = v
                yield c
        for key, v in case.items():
            if isinstance(v, list) and key not in ("faults",) and len(v) > 1 and key in self.shrink_lists:
                for k in range(len(v)):
                    c = copy.deepcopy(case)
                    del c[key][k]
                    yield c

    shrink_lists = ()


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, help="run this one case and print what it does")
    ap.add_argument("--count", type=int)
    ap.add_argument("--seconds", type=float)
    a = ap.parse_args(argv)
    warm()
    from . import checks
    chk = checks.get(a.id)
    if a.replay:
        return replay(chk, a.replay)
    if a.case is not None:
        case = chk.case(a.seed, a.tier, a.case)
        print(json.dumps(case))
        t = real_time()
        r = try_case(chk, case)
        tr = r.pop("trace", None)
        r.pop("choices", None)
        print(r, f"{real_time() - t:.2f}s")
        return 0
    return check(chk, a.tier, a.seed, a.count, a.seconds)
