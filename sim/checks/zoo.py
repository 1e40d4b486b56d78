"""L01-L03: the pattern zoo (yuca.zoo.librarian)."""
import copy
import importlib
import os
import random
import re

import numpy as np

from .. import lab
from .. import world as wm
from ..runner import Check

REAL = ["yuca.zoo.librarian", "yuca.utils (saving)", "the shipped zoo", "numpy, csv"]
STUBS = ["the file system: in-memory, journalled", "time, pids, os entropy",
         "processes: one interpreter, fresh modules and generator states for each"]
DIR = "/sim/work/zoo"

TEXTS = ["plain", "", "a, b, c", 'say "hi"', "two\nlines", "cr\r\nlf", " lead and trail ", "semi;colon", "ünïcødé ✓ 生命",
         "tab\tbed", ",", '"', "'", "notes", "ca_config", "None", "0", "a,\n\"b\",\r\nc", "#x", "\\n", "orbium.npy",
         "x" * 3000, "commit_hash,abc", "\n", "-1.5e3"]
NAMES = ["p", "p0", "p00", "orbium", "orb.ium", "my_pattern", "p.npy", "pättern", "a b", "P", "p-1", "frog_"]
DTYPES = ["float32", "float64", "uint8", "int64", "bool", "float16", "complex64"]


def array(rng):
    """a recipe for a pattern"""
    nd = rng.choice([2, 2, 3, 4, 4, 1, 0])
    return {"shape": [rng.choice([1, 2, 3, 7, 20]) if nd > 2 else rng.choice([0, 1, 5, 40]) for _ in range(nd)],
            "dtype": rng.choice(DTYPES), "seed": rng.getrandbits(24), "order": rng.choice(["C", "C", "F", "view"]),
            "special": rng.random() < .2}


def pattern(a):
    rs = np.random.RandomState(a["seed"])
    x = rs.rand(*a["shape"]) if a["shape"] else np.array(rs.rand())
    x = np.asarray(x * 200 if a["dtype"] in ("uint8", "int64") else x)
    x = (x > .5) if a["dtype"] == "bool" else x.astype(a["dtype"])
    if a["special"] and x.size and x.dtype.kind == "f":
        x.flat[0] = np.nan
        x.flat[-1] = -np.inf
    if a["order"] == "F":
        x = np.asfortranarray(x)
    elif a["order"] == "view" and x.ndim >= 1:
        x = x[..., ::-1]
    return x


def meta(rng):
    m = {}
    if rng.random() < .8:
        m["config_name"] = rng.choice(TEXTS)
    if rng.random() < .5:
        m["ca_config"] = rng.choice(TEXTS)
    if rng.random() < .7:
        m["notes"] = rng.choice(TEXTS)
    if rng.random() < .7:
        m["entry_point"] = rng.choice(TEXTS)
    if rng.random() < .7:
        m["commit_hash"] = rng.choice(TEXTS)
    return m


def expected_meta(m):
    """what load must give back for the arguments given to store"""
    cfg = m.get("config_name", "unspecified")
    if cfg == "unspecified":
        cfg = m.get("ca_config", "unspecified")
    return {"ca_config": cfg, "notes": str(m.get("notes")),
            "entry_point": m.get("entry_point", "not specified"),
            "commit_hash": m.get("commit_hash", "not_specified")}


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def librarian(**kw):
    return importlib.import_module("yuca.zoo.librarian").Librarian(**{"verbose": False, **kw})


def entry_ok(entry, a, m):
    x, got = entry
    if not same(np.ascontiguousarray(pattern(a)), np.ascontiguousarray(x)):
        return "another pattern"
    want = expected_meta(m)
    for k in want:
        if got.get(k) != want[k]:
            return f"{k} {got.get(k)!r:.60} instead of {want[k]!r:.60}"
    return None


def contents(w, out, directory=DIR, name="observer", quiet=True):
    """everything a fresh librarian lists and loads"""
    def main():
        lib = librarian(directory=directory)
        out["index"] = list(lib.index)
        out["entries"] = {}
        for n in lib.index:
            try:
                out["entries"][n] = lib.load(n)
            except Exception as e:
                out.setdefault("bad", []).append((n, f"{type(e).__name__}: {str(e)[:100]}"))
    return lab.observe(w, main, name)


# ------------------------------------------------------------------ L01
class L01(Check):
    id = "L01"
    quick = 3000
    real, stubs = REAL, STUBS
    assumptions = ["patterns are numeric arrays; names contain no path separator; texts are encodable as UTF-8"]
    rule = "a run counts as non-trivial when a pattern stored by one process was loaded by another"
    shrink_lists = ("ops",)

    def generate(self, rng, tier):
        ops = []
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
            r = rng.random()
            if r < .6:
                ops.append(["store", rng.choice(names), array(rng), meta(rng)])
            elif r < .75:
                ops.append(["index"])
            elif r < .9:
                ops.append(["load"] if rng.random() < .6 else ["crop", rng.getrandbits(20)])
            else:
                ops.append(["restart"])
        # a name that was used about a thousand times already
        crowd = [rng.choice(names), rng.choice([998, 999, 1000, 1001])] if rng.random() < .02 else None
        return {"ops": ops, "crowd": crowd, "verbose": rng.random() < .3, "directory": rng.choice([DIR, DIR, None]), "seed": rng.getrandbits(20),
                "faults": [], "schedule": {"choices": []}, "list_seed": rng.getrandbits(20),
                "mutate": rng.random() < .5}

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, DIR)
        viol, model, counts = [], {}, {"stores": 0, "loads": 0}
        base = {}
        order = []
        rng = random.Random(case["seed"])
        kw = {"directory": case["directory"]} if case["directory"] else {}
        kw["verbose"] = case.get("verbose", False)

        def crowded():
            d = case["directory"] or os.path.join(wm.ROOT, "yuca", "zoo")
            name, n = case["crowd"]
            np.save(f"{d}/{name}000.npy", np.zeros((2, 2)))
            with open(f"{d}/{name}000.npy", "rb") as f:
                data = f.read()
            for k in range(n):
                with open(f"{d}/{name}{k:03}.csv", "w") as f:
                    f.write("ca_config, orbium\nnotes, none\n")
                with open(f"{d}/{name}{k:03}.npy", "wb") as f:
                    f.write(data)

        def crop(lib, n, seed):
            x, _ = lib.load(n)
            if x.ndim < 2:
                return
            counts["crops"] = counts.get("crops", 0) + 1
            at = random.Random(seed)
            r, c = (sorted((at.randint(0, v), at.randint(0, v))) for v in x.shape[-2:])
            y = lib.crop(x, (r[0], r[1]), (c[0], c[1]))
            if not np.array_equal(np.asarray(y), x[..., r[0]:r[1], c[0]:c[1]], equal_nan=x.dtype.kind in "fc"):
                fail("crop", f"cropping {n} to rows {r} and columns {c} gives something else")
            if np.asarray(y).size:
                np.asarray(y).flat[0] = 1
                np.asarray(y).flat[0] = 0
            d = None if same(x, lib.load(n)[0]) else "a pattern changed with what was cropped out of it"
            if d:
                fail("crop", d)

        def fail(sig, msg):
            if not viol:
                viol.append((sig, msg))

        def verify(lib, n):
            counts["loads"] += 1
            d = entry_ok(lib.load(n), *model[n])
            if d:
                fail("changed", f"pattern {n} comes back with {d}")

        def check_index(lib):
            mine = [n for n in lib.index if n not in base["index"]]
            if sorted(mine) != sorted(model):
                fail("index", f"the index lists {sorted(mine)}, stored were {sorted(model)}")
            if not set(base["index"]) <= set(lib.index):
                fail("index", "the index no longer lists patterns that were there before")
            known = set(order)
            if [n for n in lib.index if n in known] != order:
                fail("order", "two librarians of one zoo list its patterns in different order")
            order[:] = lib.index

        def session(ops):
            def main():
                lib = librarian(**kw)
                base.setdefault("index", list(lib.index))
                check_index(lib)
                for op in ops:
                    if op[0] == "store":
                        a = pattern(op[2])
                        lib.store(a, pattern_name=op[1], **op[3])
                        if case["mutate"] and a.size:
                            a.flat[0] = 1
                        counts["stores"] += 1
                        before = set(model) | set(base["index"])
                        lib.update_index()
                        new = [n for n in lib.index if n not in before]
                        if len(new) != 1 or not re.fullmatch(re.escape(op[1]) + r"\d{3,}", new[0]):
                            fail("index", f"after storing {op[1]!r} the index gained {new}")
                            return
                        model[new[0]] = (op[2], op[3])
                    elif op[0] == "index":
                        lib.update_index()
                        check_index(lib)
                    elif op[0] == "load" and model:
                        verify(lib, rng.choice(sorted(model)))
                    elif op[0] == "crop" and model:
                        crop(lib, rng.choice(sorted(model)), op[1])
            return main

        if case.get("crowd"):
            w.spawn("crowd", lab.guarded(w, crowded), entropy=77).quiet_faults = True
            w.run()
        parts, cur = [], []
        for op in case["ops"]:
            if op[0] == "restart":
                parts.append(cur)
                cur = []
            else:
                cur.append(op)
        parts.append(cur)
        for i, ops in enumerate(parts):
            p = w.spawn(f"session{i}", lab.guarded(w, session(ops)), entropy=i)
            w.run()
            if p.exit_code != 0:
                fail("failed", lab.proc_error(p))
                break

        def final():
            lib = librarian(**kw)
            check_index(lib)
            for n in sorted(model):
                verify(lib, n)
            for n in (base["index"] if case["directory"] is None else []):
                lib.load(n)
        if not viol:
            p = lab.observe(w, final)
            if p.exit_code != 0:
                fail("load-failed", lab.proc_error(p))
        return lab.finish([w], viol, bool(model), counts)


# ------------------------------------------------------------------ L02
def gen_store(rng, names):
    return ["store", rng.choice(names), dict(array(rng), shape=[3, 4], dtype="float32", special=False), meta(rng)]


def smaller_procs(case):
    for i, p in enumerate(case["procs"]):
        if len(case["procs"]) > 2:
            c = copy.deepcopy(case)
            del c["procs"][i]
            yield c
        for j in range(len(p)):
            if len(p) > 1:
                c = copy.deepcopy(case)
                del c["procs"][i][j]
                yield c
            if p[j][3]:
                c = copy.deepcopy(case)
                c["procs"][i][j][3] = {}
                yield c


class L02(Check):
    id = "L02"
    quick = 1200
    real, stubs = REAL, STUBS
    assumptions = ["creating a file exclusively is atomic between processes, as POSIX says"]
    rule = "a run counts as non-trivial when two or more processes stored patterns"
    shrink_to = {"pre": [[]], "directory": [DIR]}

    def generate(self, rng, tier):
        names = rng.sample(["p", "p0", "q", "orbium"], rng.choice([1, 1, 1, 2]))
        procs = [[gen_store(rng, names) for _ in range(rng.choice([1, 1, 2, 3]))]
                 for _ in range(rng.choice([2, 2, 3, 4, 5]))]
        c = {"procs": procs, "pre": [gen_store(rng, names) for _ in range(rng.choice([0, 0, 1, 3]))],
             "readers": rng.choice([0, 1, 2]), "directory": rng.choice([DIR, DIR, None]),
             "machines": rng.random() < .4,
             "schedule": lab.schedule(rng, ["store0", "store1"]), "faults": [], "list_seed": rng.getrandbits(20)}
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(["stall", "short", "jump", "stall"])
            f = {"kind": k, "at": rng.randint(1, 12), "secs": rng.choice([.2, 50.]), "proc": rng.choice(["store0", "store1", "store"])}
            if k == "short":
                f.update(on=["write"], at=rng.randint(1, 3), frac=rng.random())
            c["faults"].append(f)
        return c

    def smaller(self, case):
        yield from super().smaller(case)
        yield from smaller_procs(case)

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, DIR)
        viol, done, seen = [], [], []
        kw = {"directory": case["directory"]} if case["directory"] else {}

        def storer(ops):
            def main():
                lib = librarian(**kw)
                for op in ops:
                    lib.store(pattern(op[2]), pattern_name=op[1], **op[3])
                    done.append(op)
            return main

        def reader():
            for _ in range(3):
                lib = librarian(**kw)
                for n in lib.index:
                    try:
                        lib.load(n)
                        seen.append(n)
                    except Exception as e:
                        viol.append(("listed-not-loadable", f"pattern {n} is listed while others are stored, but "
                                     f"loading it fails: {type(e).__name__}: {str(e)[:100]}"))
                        return
                w.point("reader", "again")

        base = set(n[:-4] for n in (os.listdir(os.path.join(wm.ROOT, "yuca/zoo")) if not case["directory"] else [])
                   if n.endswith(".npy"))
        p0 = w.spawn("pre", lab.guarded(w, storer(case["pre"])), entropy=5_000)
        p0.quiet_faults = True
        w.run()
        ps = [p0] + [w.spawn(f"store{i}", lab.guarded(w, storer(ops)), entropy=i) for i, ops in enumerate(case["procs"])]
        for q in ps[1:] if case.get("machines") else []:
            q.pid = ps[1].pid            # on another machine that shares the disk
        for i in range(case["readers"]):
            if case["directory"]:
                ps.append(w.spawn(f"reader{i}", lab.guarded(w, reader), entropy=90 + i))
        w.run()
        if w.deadlock or w.over_budget:
            viol.append(("stuck", str(w.deadlock)))
        for p in ps:
            if p.exit_code != 0:
                viol.append(("failed", f"{p.name}: {lab.proc_error(p)}"))
                break
        if not viol:
            out = {}
            contents(w, out, case["directory"] or os.path.join(wm.ROOT, "yuca", "zoo"))
            for n, e in out.get("bad", []):
                viol.append(("listed-not-loadable", f"{n}: {e}"))
            mine = {n: v for n, v in out["entries"].items() if n not in base}
            left = list(done)
            for n, entry in sorted(mine.items()):
                for op in left:
                    if re.fullmatch(re.escape(op[1]) + r"\d{3,}", n) and entry_ok(entry, op[2], op[3]) is None:
                        left.remove(op)
                        break
                else:
                    viol.append(("mixed", f"pattern {n} is not one that was stored (its array or metadata belong to "
                                 f"another one)"))
                    break
            if not viol and (left or len(mine) != len(done)):
                viol.append(("lost", f"{len(left)} of {len(done)} patterns stored side by side are gone"))
        return lab.finish([w], viol, len(case["procs"]) > 1, {"stores": len(done), "reads": len(seen)})


# ------------------------------------------------------------------ L03
class L03(Check):
    id = "L03"
    quick = 2500
    real, stubs = REAL, STUBS
    assumptions = ["the file system journals metadata in order: renames are atomic, data that was not fsynced may be "
                   "lost or torn at a power failure"]
    rule = "a run counts as non-trivial when a crash or disk fault hit a process that was storing patterns"
    shrink_to = {"pre": [[]], "readers": [0], "power": [False]}

    def generate(self, rng, tier):
        names = rng.sample(["p", "q", "orbium"], rng.choice([1, 1, 2]))
        c = {"procs": [[gen_store(rng, names) for _ in range(rng.choice([1, 2, 3]))]
                       for _ in range(rng.choice([1, 1, 2, 3]))],
             "pre": [gen_store(rng, names) for _ in range(rng.choice([0, 1, 2]))],
             "after": [gen_store(rng, names) for _ in range(rng.choice([1, 2]))],
             "readers": rng.choice([0, 1]), "power": rng.random() < .4, "power_seed": rng.getrandbits(20),
             "schedule": lab.schedule(rng, ["store0", "reader0"]), "faults": [], "list_seed": rng.getrandbits(20)}
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["crash", "crash", "crash_after", "torn", "enospc", "eio", "eio"])
            f = {"kind": k, "at": rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20]), "scope": rng.choice(["proc", "all"]),
                 "proc": rng.choice(["store0", "store"])}
            if k in ("torn", "enospc"):
                f.update(on=["write", "create"] if k == "enospc" else ["write"], at=rng.randint(1, 5),
                         frac=rng.choice([0., .2, .7, .99]), sticky=rng.random() < .6)
            if k == "eio":
                f.update(on=rng.choice([["write"], ["fsync"], ["rename"], ["create"], ["close"], ["unlink"]]),
                         at=rng.randint(1, 4))
            c["faults"].append(f)
        return c

    def smaller(self, case):
        yield from super().smaller(case)
        yield from smaller_procs(case)

    def litter(self, w):
        """files of stores that failed, when nothing kept them from being tidied up"""
        tidy = all(f["kind"] in ("enospc", "stall", "short") or f["kind"] == "eio" and f["on"] in (["write"], ["fsync"], ["rename"])
                   for f in w.faults if f["fired"])
        if w.stats.get("crash") or not tidy:
            return []
        names = sorted(w.fs.listdir(DIR))
        whole = {n[:-4] for n in names if n.endswith(".npy")}
        return [n for n in names if n[:-4] not in whole]

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, DIR)
        viol, done, begun, seen = [], [], [], []

        def storer(ops, into, tries=None):
            def main():
                lib = librarian(directory=DIR)
                for op in ops:
                    if tries is not None:
                        tries.append(op)
                    try:
                        lib.store(pattern(op[2]), pattern_name=op[1], **op[3])
                    except OSError:
                        if tries is None:
                            raise
                        continue
                    into.append(op)
            return main

        def reader():
            for _ in range(4):
                lib = librarian(directory=DIR)
                for n in lib.index:
                    try:
                        lib.load(n)
                        seen.append(n)
                    except Exception as e:
                        viol.append(("listed-not-loadable", f"pattern {n} is listed but loading it fails: "
                                     f"{type(e).__name__}: {str(e)[:100]}"))
                        return
                w.point("reader", "again")

        p0 = w.spawn("pre", lab.guarded(w, storer(case["pre"], done)), entropy=5_000)
        p0.quiet_faults = True
        w.run()
        w.fs.commit()
        early = list(done)
        ps = [w.spawn(f"store{i}", lab.guarded(w, storer(ops, done, begun)), entropy=i)
              for i, ops in enumerate(case["procs"])]
        for i in range(case["readers"]):
            r = w.spawn(f"reader{i}", lab.guarded(w, reader), entropy=90 + i)
            r.quiet_faults = True
            ps.append(r)
        w.run()
        if w.deadlock or w.over_budget:
            viol.append(("stuck", str(w.deadlock)))
        for p in [p0] + ps:
            if p.exit_code not in (0, -9) and not viol:
                viol.append(("failed", f"{p.name}: {lab.proc_error(p)}"))
        left = self.litter(w)
        if left and not viol:
            viol.append(("litter", f"stores that failed left {left} in the zoo"))
        power = case["power"] and w.stats.get("crash")
        if power:
            w.fs.power_fail(random.Random(case["power_seed"]))
            w.stats["fault_power_failure"] += 1
        must = early if power else list(done)
        may = early + begun

        def audit(when, must, may):
            out = {}
            p = contents(w, out, name=f"observer {when}")
            if p.exit_code != 0:
                viol.append(("index-failed", f"{when}: {lab.proc_error(p)}"))
                return
            for n, e in out.get("bad", []):
                viol.append(("listed-not-loadable", f"{when}: pattern {n} is listed but loading it fails: {e}"))
                return
            left, used = list(may), []
            for n, entry in sorted(out["entries"].items()):
                for op in left:
                    if re.fullmatch(re.escape(op[1]) + r"\d{3,}", n) and entry_ok(entry, op[2], op[3]) is None:
                        left.remove(op)
                        used.append(op)
                        break
                else:
                    viol.append(("mixed", f"{when}: pattern {n} is not one that was stored"))
                    return
            for op in must:
                if op in used:
                    used.remove(op)
                else:
                    viol.append(("lost", f"{when}: a pattern that had been stored ({op[1]}) is gone"))
                    return

        if not viol:
            audit("after the faults", must, may)
        if not viol:
            # the zoo still works
            p = lab.observe(w, storer(case["after"], done), "again")
            if p.exit_code != 0:
                viol.append(("store-failed", f"storing does not work any more: {lab.proc_error(p)}"))
            else:
                audit("after storing again", must + case["after"], may + case["after"])
        hit = any(f["fired"] for f in w.faults) or w.stats.get("crash")
        return lab.finish([w], viol, bool(hit or any(k.startswith("fault_") for k in w.stats)),
                          {"stores": len(done), "attempts": len(begun), "reads": len(seen)})


CHECKS = [L01(), L02(), L03()]
