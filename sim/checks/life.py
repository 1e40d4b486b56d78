"""U03: rules made ready play the game they are named after (yuca.configs,
with the universes that play them)."""
import copy
import os

import numpy as np
import torch

from .. import calab, lab
from .. import refca
from .. import world as wm
from ..runner import Check
from .universe import Failed, Scarce, Subject, Wrong, start_grid

DIR = "/sim/work/configs"


def life_next(g, birth, survive, edges):
    """the next generation of a life-like automaton; g: (..., h, w) of 0 and 1"""
    p = np.pad(g, [(0, 0)] * (g.ndim - 2) + [(1, 1), (1, 1)], mode=refca.PAD[edges])
    h, w = g.shape[-2:]
    n = sum(p[..., 1 + i:1 + i + h, 1 + j:1 + j + w] for i in (-1, 0, 1) for j in (-1, 0, 1) if i or j)
    return np.where(g > .5, np.isin(n, list(survive)), np.isin(n, list(birth))).astype(np.float64)


# ------------------------------------------------ rules, asked for and said
def ask(rule, lend):
    """the rule as riveSunder/yuca makes it"""
    from yuca import configs
    make = {"life": configs.get_life_like_config, "smooth": configs.get_smooth_life_config,
            "orbium": configs.get_orbium_config, "geminium": configs.get_geminium_config}[rule["name"]]
    kw = copy.deepcopy(rule["kw"])
    kept = copy.deepcopy(kw)
    c = make(**kw)
    if kw != kept:
        raise Wrong("argument", f"asking for {rule['name']} changed the lists it was asked with: {kept} became {kw}")
    lend(kw)
    if "edit" in rule:
        # made to measure
        where, v = rule["edit"]
        c[where]["parameters"][:] = torch.tensor(v)
    return c


def near(counts):
    return [[(2 * n - 1) / 16., (2 * n + 1) / 16.] for n in counts]


def said(rule):
    """the rule as its definition"""
    c = defined(rule)
    if "edit" in rule:
        where, v = rule["edit"]
        c[where] = dict(c[where], parameters=np.array(v))
    return c


def defined(rule):
    name, kw = rule["name"], rule["kw"]
    if name == "life":
        fn = lambda v: {"name": "SmoothIntervals", "parameters": np.array(near(v)).reshape(-1, 2), "mode": 1}
        return {"neighborhood_kernel_config": {"name": "MooreLike", "radius": kw.get("radius", 1)},
                "genesis_config": fn(kw.get("birth", [3])), "persistence_config": fn(kw.get("survival", [2, 3])), "dt": 1.}
    if name == "smooth":
        r = kw.get("radius", 10)
        fn = lambda v, a: {"name": "SmoothIntervals", "parameters": np.array(v), "alpha": a, "mode": 1}
        return {"identity_kernel_config": {"name": "SmoothLifeKernel", "radius": r, "kernel_kwargs": {"r_a": 1 / 3., "r_i": 0.}},
                "neighborhood_kernel_config": {"name": "SmoothLifeKernel", "radius": r, "kernel_kwargs": {"r_a": 1.05, "r_i": 1 / 3.}},
                "genesis_config": fn(kw.get("birth_intervals", [[.278, .365]]), .028),
                "persistence_config": fn(kw.get("survival_intervals", [[.267, .445]]), .147), "dt": 1.}
    if name == "orbium":
        fn = {"name": "GaussianMixture", "parameters": np.array([.15, .015]), "mode": 1}
        return {"neighborhood_kernel_config": {"name": "Gaussian", "radius": kw.get("radius", 13),
                                               "kernel_kwargs": {"mu": .5, "sigma": .15}},
                "genesis_config": fn, "persistence_config": copy.deepcopy(fn)}
    fn = {"name": "GaussianMixture", "parameters": np.array([.26, .036]), "mode": 1}
    rings = np.array([.5, .093809, .033, 1., .28143, .033, 2 / 3., .46904, .033])
    return {"neighborhood_kernel_config": {"name": "GaussianMixture", "radius": kw.get("radius", 31),
                                           "kernel_kwargs": {"parameters": rings}},
            "genesis_config": fn, "persistence_config": copy.deepcopy(fn)}


def radius(rule):
    return rule["kw"].get("radius", {"life": 1, "smooth": 10, "orbium": 13, "geminium": 31}[rule["name"]])


def exact(sub):
    """the rule is a life-like automaton of the usual neighbourhood"""
    return sub.rule["name"] == "life" and radius(sub.rule) == 1 and sub.fam == "CCA" and sub.m.dt == 1


def gen_rule(rng):
    k = rng.choice(["life"] * 6 + ["smooth", "smooth", "orbium", "geminium"])
    kw = {}
    if k == "life":
        some = lambda: sorted(rng.sample(range(9), rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 9])))
        for n in ("birth", "survival"):
            if rng.random() < .75:
                kw[n] = some()
                if rng.random() < .2:
                    rng.shuffle(kw[n])
        if rng.random() < .2:
            kw["radius"] = rng.choice([1, 2, 3, 5])
    elif k == "smooth":
        for n in ("birth_intervals", "survival_intervals"):
            if rng.random() < .4:
                kw[n] = [sorted([round(rng.uniform(.1, .5), 4), round(rng.uniform(.1, .5), 4)]) for _ in range(rng.choice([0, 1, 1, 2, 2]))]
    if k != "life" and rng.random() < (.7 if k != "geminium" else .85):
        kw["radius"] = rng.choice([2, 3, 4, 5, 6, 7, 9, 12])
    r = {"name": k, "kw": kw}
    if k in ("orbium", "geminium") and rng.random() < .3:
        r["edit"] = [rng.choice(["genesis_config", "persistence_config"]), [round(rng.uniform(.1, .4), 4), round(rng.uniform(.01, .1), 4)]]
    return r


def gen_start(rng):
    return {"seed": rng.getrandbits(20), "batch": rng.choice([1, 1, 2, 3]), "dim": rng.choice([5, 8, 12, 17, 24]),
            "wide": rng.choice([0, 0, 0, 3, 7]), "full": rng.choice([.08, .2, .35, .5, .7, .95]),
            "kind": rng.choice(["cells", "cells", "cells", "rand", "blob", "faint", "levels", "dead"])}


class Player(Subject):
    """one real universe that plays rules made ready"""
    rule = None

    def load(self, rule):
        self.ca.load_config(self.lend(ask(rule, self.lend)))
        self.says(rule)

    def says(self, rule):
        self.m.load(said(rule))
        self.rule = rule


class U03(Check):
    id = "U03"
    quick = 900
    real = ["yuca.configs", "yuca.ca.common, yuca.ca.continuous", "yuca.lenia, yuca.code, yuca.metaca, yuca.random_step_ca",
            "yuca.kernels, yuca.activations", "numpy (save, load), torch"]
    stubs = ["files, time, pids, os entropy", "torch's allocator fails where the case says so"]
    rule = "a run counts as non-trivial when a rule was played after another one was asked for or a file was restored"
    assumptions = ["torch's convolution is exact to a few units in the last place of float32",
                   "allocation failures reach Python as MemoryError"]
    shrink_lists = ("users", "faults")

    def generate(self, rng, tier):
        users = []
        for i in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([2, 4, 7, 10])):
                k = rng.choice(["rule", "rule", "play", "play", "play", "ask", "save", "restore", "op"])
                o = {"do": k, "fail": rng.choice([1, 2, 4, 8, 16]) + rng.randrange(4) if rng.random() < .2 else 0}
                if k in ("rule", "ask"):
                    o["rule"] = gen_rule(rng)
                elif k == "play":
                    o.update(grid=gen_start(rng), n=rng.choice([1, 2, 4, 12]))
                elif k in ("save", "restore"):
                    o.update(name=rng.choice(["a.npy", "a.npy", "b.npy"]))
                else:
                    o["op"] = rng.choice([["reset"], ["no_grad"], ["device"], ["include"], ["make"], ["reload"]])
                ops.append(o)
            ops.append({"do": "play", "fail": 0, "grid": gen_start(rng), "n": rng.choice([1, 3])})
            fam = rng.choice(["CCA"] * 6 + ["Lenia", "CODE", "RandomStepCA", "MetaCA"])
            kw = {"conv_mode": rng.choice(["circular", "circular", "zeros", "reflect"])} if fam == "CCA" else {}
            users.append({"family": fam, "kw": kw, "init": rng.getrandbits(20), "first": gen_rule(rng), "ops": ops})
        faults = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(["crash", "crash_after", "stall", "jump", "torn", "eio", "enospc"])
            f = {"kind": k, "at": rng.choice([1, 2, 3, 5, 8]), "scope": "proc", "proc": f"user{rng.randrange(len(users))}",
                 "secs": rng.choice([.5, 600.])}
            if k in ("torn", "enospc", "eio"):
                f.update(frac=rng.choice([0., .3, .9]), on=["write"], at=rng.choice([1, 1, 2]))
            faults.append(f)
        return {"users": users, "entropy": rng.getrandbits(20), "faults": faults,
                "schedule": lab.schedule(rng, [f"user{i}" for i in range(len(users))])}

    def smaller(self, case):
        yield from super().smaller(case)
        for k, u in enumerate(case["users"]):
            for j in range(len(u["ops"])):
                c = copy.deepcopy(case)
                del c["users"][k]["ops"][j]
                yield c

    # ------------------------------------------------ one user
    def grid(self, o, s):
        g = o["grid"]
        if g["kind"] != "cells":
            return start_grid(g, s.m)
        d = max(g["dim"], radius(s.rule) + 2)
        rs = np.random.RandomState(g["seed"])
        return (rs.rand(g["batch"], 1, d, d + g["wide"]) < g["full"]).astype(np.float32)

    def play(self, s, o, out):
        x = torch.tensor(self.grid(o, s))
        game = x.numpy().astype(np.float64) if o["grid"]["kind"] in ("cells", "dead") and exact(s) else None
        if s.fam == "MetaCA":
            s.apply(["reset"])
        many = o["n"] if radius(s.rule) < 13 else 1
        for k in range(many):
            x, failed = s.step(x, o["fail"] if k == many - 1 else 0)
            s.take_back()
            out["steps"] += 1
            out["failed"] += failed
            if game is not None:
                kw = s.rule["kw"]
                game = life_next(game, kw.get("birth", [3]), kw.get("survival", [2, 3]), s.m.mode)
                off = np.abs(x.numpy() - game)
                out["generations"] += 1
                if off.max() > 1e-5:
                    at = np.unravel_index(off.argmax(), off.shape)
                    raise Wrong("game", f"generation {k + 1} of {self.name(s.rule)} ({s.m.mode}) has {x.numpy()[at]:.6g} at "
                                f"{tuple(int(v) for v in at)} where the automaton has {game[at]:.0f}")

    def name(self, rule):
        return rule["name"] + "(" + ", ".join(f"{k}={v}" for k, v in sorted(rule["kw"].items())) + ")" + \
            (f" with {rule['edit'][0]} {rule['edit'][1]}" if "edit" in rule else "")

    def restored(self, s, path, tried):
        """the universe took its rule from a file: one of those saved there;
        whether it is clear which"""
        errors, fits = [], []
        rs = np.random.RandomState(5)
        # neighbourhoods of all kinds
        x = (rs.rand(1, 1, 44, 88) * np.linspace(0, 2, 88)).clip(0, 1).astype(np.float32)
        x[:, :, ::3] = x[:, :, ::3] > .5
        for fam, mode, rule in tried:
            s.says(rule)
            s.m.mode = mode
            if fam in calab.VARIABLE:
                # saved with the size of its last step
                s.m.dt = float(torch.as_tensor(s.ca.dt).reshape(-1)[0])
            try:
                s.apply(["reset"])
                s.size()
                s.step(torch.tensor(x))
                fits.append((copy.deepcopy(s.m), rule))
            except Wrong as e:
                errors.append(f"{self.name(rule)}: {e.msg}")
        if not fits:
            raise Wrong("restored", f"a universe restored from {path} plays none of the rules saved there: {'; '.join(errors)}")
        s.m, s.rule = fits[-1]
        s.apply(["reset"])
        return all(r == s.rule and m.mode == s.m.mode for m, r in fits)

    def player(self, u):
        s = Player(self, {"family": u["family"], "kw": u["kw"], "init": u["init"], "config": u["first"]})
        s.take_back()
        return s

    def user(self, w, case, i, out, tried):
        u = case["users"][i]
        s = self.player(u)
        for n, o in enumerate(u["ops"]):
            k = o["do"]
            w.point(k, i)
            out["at"][i] = f"user {i} ({u['family']}), operation {n} ({k})"
            if k == "play":
                self.play(s, o, out)
            elif k == "save":
                path = os.path.join(DIR, o["name"])
                tried.setdefault(path, []).append((s.fam, s.m.mode, s.rule))
                try:
                    s.ca.save_config(path)
                    out["saved"] += 1
                except OSError:
                    out["unsaved"] += 1
            elif k == "restore":
                path = os.path.join(DIR, o["name"])
                if os.path.exists(path):
                    s.ca.restore_config(path, verbose=False)
                    clear = self.restored(s, path, list(tried.get(path, [])))
                    out["restored"] += 1
                    if not clear:
                        # rules that look alike: on with a new universe
                        s = self.player(u)
            else:
                self.attempt(s, o, out)
            s.take_back()
            if k != "ask":
                s.size()

    def attempt(self, s, o, out):
        def go():
            if o["do"] == "rule":
                s.load(o["rule"])
            elif o["do"] == "ask":
                ask(o["rule"], s.lend)
                s.lend(ask(o["rule"], s.lend))
            else:
                s.apply(o["op"])
        if not o["fail"]:
            return go()
        keep = copy.deepcopy(s.m), s.rule, s.t, s.prev
        try:
            with Scarce(o["fail"]):
                go()
        except Failed:
            out["failed"] += 1
            s.m, s.rule, s.t, s.prev = keep
            go()

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, DIR)
        out = {"steps": 0, "generations": 0, "failed": 0, "saved": 0, "unsaved": 0, "restored": 0, "at": {}}
        viol, tried = [], {}

        def one(i):
            def main():
                try:
                    self.user(w, case, i, out, tried)
                except Wrong as e:
                    viol.append((e.sig, f"{out['at'].get(i, 'start')}: {e.msg}"))
            return main
        ps = [w.spawn(f"user{i}", lab.guarded(w, one(i)), entropy=case["entropy"] + i) for i in range(len(case["users"]))]
        w.run()
        for i, p in enumerate(ps):
            if p.exit_code not in (0, -9):
                viol.append(("failed", f"{out['at'].get(i, 'start')}: {lab.proc_error(p)}"))
        at = out.pop("at")
        return lab.finish([w], viol, out["steps"] > 0 and bool(at), {
            "ca_steps": out["steps"], "generations": out["generations"], "rules_saved": out["saved"],
            "rules_restored": out["restored"], "failed_saves": out["unsaved"], "fault_alloc_failure": out["failed"]})


CHECKS = [U03()]
