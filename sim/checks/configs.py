"""C01-C04: saving, restoring and sharing the configurations of universes."""
import copy
import os
import random

import numpy as np

from .. import calab, lab, mpi
from .. import world as wm
from ..runner import Check

REAL = ["yuca.ca.continuous, yuca.ca.neural, yuca.ca.reaction_diffusion, yuca.ca.common", "yuca.lenia, yuca.code, "
        "yuca.metaca, yuca.random_step_ca", "yuca.kernels, yuca.activations", "yuca.utils (saving)",
        "the shipped ca_configs", "numpy, torch"]
STUBS = ["the file system: in-memory, journalled", "time, pids, os entropy", "processes: one interpreter, fresh "
         "modules and generator states for each"]
ASSUME = ["torch and numpy compute the same result for the same input in one thread",
          "neural universes are compared in evaluation mode (dropout off), as a stored config describes no dropout state"]
SHRINK = {"steps": [1], "kw": [{}], "via": ["path"], "batch": [1], "entropy": [0]}


def tol_of(family):
    # the rates of reaction-diffusion universes pass through python floats
    return 2e-5 if family == "RxnDfn" else 0.0


def make(c, files=None):
    """a universe with a history, possibly begun from files that are gone afterwards"""
    more = {}
    if c.get("from") and files:
        first = calab.build(c["family"], c.get("kw", {}), c["init_seed"] + 1)
        if c["from"] == "log":
            p = np.asarray(first.get_params())
            p = np.clip(p * 1.1 + .01, .02, 1)
            np.save(files, {"elite_params": [[p * 0 + .5], [p, p]]})
            more["input_filepath"] = files
        else:
            calab.apply_op(first, ["noise", c["init_seed"], .1])
            first.save_config(files)
            more["ca_config"] = files
    ca = calab.build(c["family"], c.get("kw", {}), c["init_seed"], **more)
    if more:
        os.unlink(files)
    for op in c["history"]:
        calab.apply_op(ca, op)
    return ca


def benign(rng, names):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["stall", "jump", "short"])
        f = {"kind": k, "at": rng.randint(1, 6), "secs": rng.choice([.5, 30., 4000.]), "proc": rng.choice(names + [""])}
        if k == "short":
            f = {"kind": k, "at": rng.randint(1, 3), "frac": rng.random(), "on": ["write"]}
        out.append(f)
    return out


class C01(Check):
    id = "C01"
    quick = 2000
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = "a run counts as non-trivial when at least one universe was saved in one process and restored in another"
    shrink_to = SHRINK
    shrink_lists = ()

    def generate(self, rng, tier):
        unis = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            fam = rng.choice(calab.CONTINUOUS + ["CCA", "NCA", "NCA", "RxnDfn"])
            kw = calab.gen_kwargs(rng, fam)
            u = {"family": fam, "kw": kw, "init_seed": rng.getrandbits(20),
                 "history": calab.gen_history(rng, fam, kw, rng.choice([0, 1, 2, 3, 4, 6, 9])),
                 "via": rng.choice(["path", "path", "kwarg", "name", "newline", "same_kw", "used", "local"]),
                 "suffix": rng.random() < .8, "again": rng.random() < .3}
            if rng.random() < .25 and fam not in ("CODE", "RxnDfn"):
                u["from"] = rng.choice(["log", "config"]) if fam != "NCA" else "config"
            if fam == "CODE" and u["via"] in ("kwarg", "same_kw"):
                u["via"] = "path"
            if fam == "RxnDfn" and u["via"] in ("kwarg", "same_kw"):
                u["via"] = "path"
            if u["via"] == "used":
                u["before"] = calab.gen_history(rng, fam, {}, 3)
            unis.append(u)
        return {"unis": unis, "seed": rng.getrandbits(20), "steps": rng.choice([1, 2, 4, 6]),
                "batch": rng.choice([1, 1, 2]), "entropy": rng.getrandbits(20),
                "faults": benign(rng, ["saver0", "saver1"]), "schedule": lab.schedule(rng, ["saver0", "saver1"])}

    def smaller(self, case):
        yield from super().smaller(case)
        yield from shrink_histories(case)

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, "/sim/work/configs")
        n = len(case["unis"])
        want, got, viol = {}, {}, []
        savers = []

        def saver(i, u):
            def main():
                ca = make(u, f"/sim/work/configs/from{i}.npy")
                ca.save_config(path(i, u) if u["suffix"] or u["via"] in ("name", "local") else path(i, u)[:-4])
                want[i] = calab.behaviour(ca, case["seed"], case["steps"], case["batch"])
            return main

        def path(i, u):
            if u["via"] == "local":
                # a file of its own with the name of one that is shipped
                # (and that no history restores)
                return calab.SHADOWED[i]
            return os.path.join(wm.ROOT, "ca_configs", f"sim_{i}.npy") if u["via"] == "name" \
                else f"/sim/work/configs/c{i}.npy"

        def restorer(i, u, p, out):
            def main():
                kw = {}
                if u["via"] == "kwarg":
                    kw = {"ca_config": p}
                elif u["via"] == "same_kw":
                    kw = {**u["kw"], "ca_config": p}
                ca = calab.family_of(u["family"])(**kw)
                if u["via"] not in ("kwarg", "same_kw"):
                    for op in u.get("before", []):
                        calab.apply_op(ca, op)
                    ca.restore_config({"name": os.path.basename(p), "newline": p + "\n"}.get(u["via"], p))
                if u["again"] and out is got:
                    ca.save_config(f"/sim/work/configs/again{i}.npy")
                out[i] = calab.behaviour(ca, case["seed"], case["steps"], case["batch"])
            return main

        for i, u in enumerate(case["unis"]):
            savers.append(w.spawn(f"saver{i}", lab.guarded(w, saver(i, u)), entropy=case["entropy"] + i))
        w.run()
        for i, p in enumerate(savers):
            if p.exit_code != 0:
                viol.append(("save-failed", f"{case['unis'][i]['family']}: {lab.proc_error(p)}"))
        if w.deadlock or w.over_budget:
            viol.append(("stuck", str(w.deadlock)))
        if viol:
            return lab.finish([w], viol)
        second = {}
        for rnd, out in ((0, got), (1, second)):
            procs = []
            for i, u in enumerate(case["unis"]):
                if rnd and not u["again"]:
                    continue
                p = path(i, u) if not rnd else f"/sim/work/configs/again{i}.npy"
                uu = u if not rnd else dict(u, via="path")
                procs.append((i, w.spawn(f"restorer{i}.{rnd}", lab.guarded(w, restorer(i, uu, p, out)),
                                         entropy=case["entropy"] + 1000 + i + 100 * rnd)))
            w.run()
            for i, p in procs:
                u = case["unis"][i]
                if p.exit_code != 0:
                    viol.append(("restore-failed", f"{u['family']}: {lab.proc_error(p)}"))
                    continue
                d = lab.diff(want[i], out[i], "", tol_of(u["family"]))
                if d:
                    viol.append(("restored-differs" if not rnd else "restored-again-differs",
                                 f"{u['family']} after {[o[0] for o in u['history']]}, saved and restored "
                                 f"({u['via']}): {d}"))
            if viol:
                break
        return lab.finish([w], viol, bool(got), {"universes": n, "restored": len(got) + len(second)})


def shrink_histories(case, key="unis"):
    us = case[key]
    if len(us) > 1:
        for k in range(len(us)):
            c = copy.deepcopy(case)
            del c[key][k]
            yield c
    for k, u in enumerate(us):
        for field in ("history", "before"):
            for j in range(len(u.get(field, []))):
                c = copy.deepcopy(case)
                del c[key][k][field][j]
                yield c
        for f, v in (("kw", {}), ("again", False), ("via", "path"), ("suffix", True), ("from", None)):
            if f in u and u[f] != v:
                c = copy.deepcopy(case)
                c[key][k][f] = v
                yield c


# ------------------------------------------------------------------ C02
class C02(Check):
    id = "C02"
    quick = 2000
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = "a run counts as non-trivial when the universe had a history of at least one operation before loading"
    shrink_to = SHRINK

    def generate(self, rng, tier):
        fam = rng.choice(calab.CONTINUOUS + ["CCA", "NCA", "RxnDfn"])
        source = rng.choice(["made", "made", "literal", "shipped"])
        kw = calab.gen_kwargs(rng, fam)
        c = {"family": fam, "source": source, "init_seed": rng.getrandbits(20), "seed": rng.getrandbits(20),
             "steps": rng.choice([1, 3, 5]), "batch": 1, "via_file": rng.random() < .5,
             "loads": rng.choice([1, 1, 2]), "entropy": rng.getrandbits(20),
             "faults": benign(rng, ["used"]), "schedule": lab.schedule(rng, ["fresh", "used"])}
        ext = kw.get("external_channels", 1)
        if fam == "NCA" and source == "literal":
            source = c["source"] = "made"
        if source == "shipped":
            kw = {k: v for k, v in kw.items() if "channels" not in k and k != "alive_threshold"}
            c["config"] = rng.choice(calab.SHIPPED.get(fam) or calab.SHIPPED["plain"] + calab.SHIPPED["wide"])
        elif source == "literal":
            c["config"] = calab.gen_config(rng, fam, kw.get("internal_channels", 1))
            if "dt" not in c["config"] and fam != "RxnDfn" and rng.random() < .5:
                c["config"].pop("dt", None)
        else:
            c["maker"] = {"family": fam, "kw": calab.gen_kwargs(rng, fam), "init_seed": rng.getrandbits(20)}
            c["maker"]["history"] = calab.gen_history(rng, fam, c["maker"]["kw"], rng.choice([0, 1, 3]))
        c["kw"] = kw
        # a config without the constructor's arguments keeps those of the universe
        keeps = source == "literal" or source == "shipped" and fam != "NCA"
        c["history"] = calab.gen_history(rng, fam, kw, rng.choice([1, 2, 4, 7]))
        if keeps and fam == "NCA":
            c["history"] = [o for o in c["history"] if o[0] != "restore"]
        return c

    def smaller(self, case):
        yield from super().smaller(case)
        for k in range(len(case["history"])):
            c = copy.deepcopy(case)
            del c["history"][k]
            yield c
        for k in range(len(case.get("maker", {}).get("history", []))):
            c = copy.deepcopy(case)
            del c["maker"]["history"][k]
            yield c

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, "/sim/work/configs")
        out, viol = {}, []
        P = "/sim/work/configs/target.npy"

        def maker():
            if case["source"] == "made":
                make(case["maker"]).save_config(P)
            elif case["source"] == "literal":
                u = calab.build(case["family"], case["kw"], 3)
                u.save_config(P, config=calab.native(case["config"]))

        def user(name, history):
            def main():
                ca = calab.build(case["family"], case["kw"], case["init_seed"])
                for op in history:
                    calab.apply_op(ca, op)
                for _ in range(case["loads"] if history else 1):
                    if case["source"] == "shipped":
                        ca.restore_config(case["config"])
                    elif case["via_file"]:
                        ca.restore_config(P)
                    else:
                        ca.load_config(np.load(P, allow_pickle=True).reshape(1)[0])
                out[name] = calab.behaviour(ca, case["seed"], case["steps"])
            return main

        m = w.spawn("maker", lab.guarded(w, maker), entropy=case["entropy"])
        w.run()
        ps = [w.spawn("fresh", lab.guarded(w, user("fresh", [])), entropy=case["entropy"] + 1),
              w.spawn("used", lab.guarded(w, user("used", case["history"])), entropy=case["entropy"] + 2)]
        w.run()
        for p in [m] + ps:
            if p.exit_code != 0:
                viol.append(("failed", f"{case['family']} {p.name}: {lab.proc_error(p)}"))
                break
        else:
            d = lab.diff(out["fresh"], out["used"])
            if d:
                viol.append(("history-survives", f"{case['family']}: a {case['source']} config loaded after "
                             f"{[o[0] for o in case['history']]} does not behave as in a fresh universe: {d}"))
        return lab.finish([w], viol, bool(case["history"]), {"loads": case["loads"]})


# ------------------------------------------------------------------ C03
class C03(Check):
    id = "C03"
    quick = 1200
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = "a run counts as non-trivial when two or more universes of one process came from the same config object"
    shrink_to = SHRINK

    def generate(self, rng, tier):
        group = rng.choice([calab.CONTINUOUS + ["CCA"], calab.CONTINUOUS + ["CCA"], ["CCA"], ["NCA"], ["RxnDfn"]])
        fam0 = rng.choice(group)
        kw0 = calab.gen_kwargs(rng, fam0)
        source = rng.choice(["literal", "made", "made", "loaded"])
        if fam0 == "NCA":
            source = "made"
        kw = {k: kw0[k] for k in ("external_channels", "internal_channels", "alive_threshold") if k in kw0}
        c = {"source": source, "family": fam0, "kw": kw0, "init_seed": rng.getrandbits(20),
             "history": calab.gen_history(rng, fam0, kw0, rng.choice([0, 1, 2])),
             "config": calab.gen_config(rng, fam0, kw0.get("internal_channels", 1)),
             "seed": rng.getrandbits(20), "steps": rng.choice([1, 3]), "batch": 1, "faults": [],
             "mutate": rng.random() < .4, "schedule": {"seed": rng.getrandbits(32)}, "unis": []}
        for i in range(rng.choice([2, 2, 3, 4])):
            f = rng.choice(group)
            u = {"family": f, "kw": dict(kw), "init_seed": rng.getrandbits(20),
                 "history": calab.gen_history(rng, f, kw, rng.choice([0, 1, 2, 4]))}
            c["unis"].append(u)
        n = sum(len(u["history"]) + 1 for u in c["unis"])
        c["order"] = rng.getrandbits(30)
        return c

    def smaller(self, case):
        yield from super().smaller(case)
        if len(case["unis"]) > 2:
            for k in range(len(case["unis"])):
                c = copy.deepcopy(case)
                del c["unis"][k]
                yield c
        for k, u in enumerate(case["unis"]):
            for j in range(len(u["history"])):
                c = copy.deepcopy(case)
                del c["unis"][k]["history"][j]
                yield c

    def execute(self, case):
        w = wm.World(case)
        viol = []
        alone, shared, extra = {}, {}, {}

        def config():
            """the shared config, and the universe it was taken from (if any)"""
            src = make(case) if case["source"] != "literal" else None
            if case["source"] == "literal":
                return calab.native(case["config"]), None
            if case["source"] == "loaded":
                src.load_config(src.make_config())
                return src.config, src
            return src.make_config(), src

        def solo(i):
            def main():
                cfg, _ = config()
                u = case["unis"][i]
                ca = calab.build(u["family"], u["kw"], u["init_seed"])
                ca.load_config(copy.deepcopy(cfg))
                for op in u["history"]:
                    calab.apply_op(ca, op)
                alone[i] = calab.behaviour(ca, case["seed"], case["steps"])
            return main

        def origin():
            _, src = config()
            if src is not None:
                alone["source"] = calab.behaviour(src, case["seed"], case["steps"])

        def together():
            rng = random.Random(case["order"])
            cfg, src = config()
            before = lab.digest(cfg)
            cas = []
            todo = {i: [None] + list(u["history"]) for i, u in enumerate(case["unis"])}
            for u in case["unis"]:
                cas.append(calab.build(u["family"], u["kw"], u["init_seed"]))
            while todo:
                i = rng.choice(sorted(todo))
                op = todo[i].pop(0)
                if not todo[i]:
                    del todo[i]
                if op is None:
                    cas[i].load_config(cfg)
                else:
                    calab.apply_op(cas[i], op)
            if lab.digest(cfg) != before:
                extra["changed"] = True
            if case["mutate"] and case["source"] != "loaded":
                scribble(cfg)
            for i, ca in enumerate(cas):
                shared[i] = calab.behaviour(ca, case["seed"], case["steps"])
            if src is not None:
                shared["source"] = calab.behaviour(src, case["seed"], case["steps"])

        ps = [w.spawn(f"alone{i}", lab.guarded(w, solo(i)), entropy=i) for i in range(len(case["unis"]))]
        ps.append(w.spawn("origin", lab.guarded(w, origin), entropy=50))
        ps.append(w.spawn("together", lab.guarded(w, together), entropy=99))
        w.run()
        for p in ps:
            if p.exit_code != 0:
                viol.append(("failed", f"{p.name}: {lab.proc_error(p)}"))
                break
        else:
            if extra.get("changed"):
                viol.append(("config-changed", "a config was changed by the universes that were loaded from it"))
            for i in alone:
                d = lab.diff(alone[i], shared[i])
                if d:
                    what = "the universe the config came from" if i == "source" else \
                        f"universe {i} ({case['unis'][i]['family']})"
                    viol.append(("not-isolated", f"{what} behaves differently when other universes share "
                                 f"its config: {d}"))
                    break
        return lab.finish([w], viol, len(shared) > 1, {"universes": len(case["unis"])})


def scribble(x, depth=0):
    """overwrite, in place, every array of a config the caller owns"""
    import torch
    if isinstance(x, dict):
        for k in list(x):
            if k == "instant_kwargs" and depth == 0:
                x[k].clear()
                continue
            if isinstance(x[k], (int, float)) and not isinstance(x[k], bool):
                x[k] = 7
            else:
                scribble(x[k], depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v, depth + 1)
    elif isinstance(x, torch.Tensor):
        with torch.no_grad():
            x.fill_(.77)
    elif isinstance(x, np.ndarray) and x.dtype != object:
        x.fill(.77)


# ------------------------------------------------------------------ C04
class C04(Check):
    id = "C04"
    quick = 3000
    real, stubs = REAL, STUBS
    assumptions = ["the file system journals metadata in order: renames are atomic, data that was not fsynced may be "
                   "lost or torn at a power failure", "two processes saving to one path: either one's config may win"]
    rule = "a run counts as non-trivial when a fault fired during a save or a reader loaded during one"
    shrink_to = {"readers": [0], "savers": [1], "saves": [1], "old": [True], "power": [False]}

    def generate(self, rng, tier):
        fam = rng.choice(["CCA", "CCA", "Lenia", "CODE", "NCA", "RxnDfn"])
        c = {"family": fam, "old": rng.random() < .8, "savers": rng.choice([1, 1, 2]), "saves": rng.choice([1, 2, 3]),
             "readers": rng.choice([0, 1, 3]), "entropy": rng.getrandbits(20),
             "machines": rng.random() < .4, "name": rng.choice(["/sim/work/configs/c.npy", "/sim/work/configs/c.npy", "/sim/work/configs/c",
                                 "configs/c.npy", "c.npy", "sim_c.npy"]),
             "faults": [], "schedule": lab.schedule(rng, ["saver0", "reader"]),
             "power": rng.random() < .5, "power_seed": rng.getrandbits(20)}
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice(["crash", "crash", "crash_after", "torn", "enospc", "eio", "short", "stall"])
            f = {"kind": k, "at": rng.choice([1, 1, 2, 3, 4, 6, 8, 12]), "scope": "proc",
                 "proc": rng.choice(["saver0", "saver0", "saver", "saver1"])}
            if k in ("torn", "short", "enospc"):
                f["frac"] = rng.choice([0., .01, .3, .9, .999])
                f["on"] = ["write", "create"] if k == "enospc" else ["write"]
                f["at"] = rng.choice([1, 1, 2, 3])
                f["sticky"] = rng.random() < .5
            if k == "eio":
                f["on"] = rng.choice([["write"], ["fsync"], ["rename"], ["create"], ["close"]])
                f["at"] = rng.choice([1, 1, 2])
            if k == "stall":
                f["secs"] = rng.choice([1., 600.])
            c["faults"].append(f)
        return c

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, "/sim/work/configs")
        given = case["name"]
        if given == "sim_c.npy":
            given = os.path.join(wm.ROOT, "ca_configs", given)
        path = given if given.startswith("/") else os.path.join("/sim/work", given)
        path = path if path.endswith(".npy") else path + ".npy"
        values, done, reads, viol = {}, [], [], []
        fam = case["family"]

        def config(k):
            ca = calab.build(fam, {"kernel_radius": 2, **({"hidden_channels": 2} if fam == "NCA" else {})}, k)
            calab.apply_op(ca, ["noise", k, .2])
            ca.set_dt(0.01 * (k + 1))
            return ca

        def before():
            if case["old"]:
                config(0).save_config(given)

        def saver(i):
            def main():
                for s in range(case["saves"]):
                    k = 1 + i * 10 + s
                    ca = config(k)
                    try:
                        ca.save_config(given)
                    except OSError as e:
                        done.append((k, str(e)))
                    else:
                        done.append((k, None))
            return main

        def reader():
            for _ in range(case["readers"]):
                if os.path.exists(given if given.endswith(".npy") else given + ".npy"):
                    ca = calab.family_of(fam)()
                    ca.restore_config(given if given.endswith(".npy") else given + ".npy")
                    reads.append(round(float(ca.dt), 6))
                w.point("reader", "again")

        p0 = w.spawn("before", lab.guarded(w, before), entropy=case["entropy"])
        p0.quiet_faults = True
        w.run()
        w.fs.commit()
        if p0.exit_code != 0:
            viol.append(("save-failed", lab.proc_error(p0)))
            return lab.finish([w], viol)

        def state():
            n = w.fs.get(path)
            if n is None:
                return None
            try:
                return round(float(np.asarray(lab.read_obj(bytes(n.data))["dt"]).reshape(-1)[0]), 6)
            except Exception as e:
                return f"unreadable: {type(e).__name__}"

        last = [None]

        def watch():
            n = w.fs.get(path)
            key = None if n is None else (n.ino, len(n.data), hash(bytes(n.data)))
            if key == last[0] or viol:
                return
            last[0] = key
            s = state()
            if s is None and case["old"]:
                viol.append(("config-lost", "the saved config disappeared while a new one was being saved"))
            elif isinstance(s, str):
                viol.append(("config-torn", f"a partly written config is visible under its name: {s}"))

        w.watch.append(watch)
        ps = [w.spawn(f"saver{i}", lab.guarded(w, saver(i)), entropy=case["entropy"] + 1 + i)
              for i in range(case["savers"])]
        for q in ps if case.get("machines") else []:
            q.pid = ps[0].pid            # on another machine that shares the disk
        r = None
        if case["readers"]:
            r = w.spawn("reader", lab.guarded(w, reader), entropy=case["entropy"] + 77)
            r.quiet_faults = True
        w.run()
        w.watch = []
        if w.deadlock or w.over_budget:
            viol.append(("stuck", str(w.deadlock)))
        for p in ps:
            if p.exit_code not in (0, -9):
                viol.append(("save-failed", f"{lab.proc_error(p)}"))
        if r is not None and r.exit_code != 0:
            viol.append(("reader-failed", f"a config could not be restored while it was being saved: "
                         f"{lab.proc_error(r)}"))
        possible = {round(.01 * (1 + i * 10 + s + 1), 6) for i in range(case["savers"]) for s in range(case["saves"])}
        if case["old"]:
            possible.add(.01)
        for x in reads:
            if x not in possible:
                viol.append(("foreign-config", f"a reader restored a config nobody saved (dt {x})"))
                break
        s = state()
        if not viol and s is None and (case["old"] or any(e is None for _, e in done)):
            viol.append(("config-lost", "the config is gone at the end"))
        if not viol and isinstance(s, str):
            viol.append(("config-torn", f"the config left behind is {s}"))
        if not viol and s is not None and s not in possible:
            viol.append(("foreign-config", f"the config left behind is not one that was saved (dt {s})"))
        hard = any(f["fired"] and f["kind"] not in ("stall", "short") for f in w.faults)
        if not hard and not viol:
            for k, e in done:
                if e:
                    viol.append(("save-failed", f"saving failed without a fault: {e}"))
                    break
            if len(done) != case["savers"] * case["saves"]:
                viol.append(("save-failed", "not every save came back"))
        if not viol and case["savers"] == 1:
            ok = [k for k, e in done if e is None]
            if ok and s is not None and s < round(.01 * (ok[-1] + 1), 6):
                viol.append(("save-lost", f"a save returned but the file still holds an earlier config (dt {s})"))
        if not viol and case["power"] and w.stats.get("crash"):
            w.fs.power_fail(random.Random(case["power_seed"]))
            w.stats["fault_power_failure"] += 1
            s = state()
            if isinstance(s, str):
                viol.append(("config-torn", f"after a power failure the config is {s}"))
            elif s is None and case["old"]:
                viol.append(("config-lost", "after a power failure the earlier config is gone"))
        return lab.finish([w], viol, hard or bool(reads), {"saves": len(done), "reads": len(reads)})


CHECKS = [C01(), C02(), C03(), C04()]
