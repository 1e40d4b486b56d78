"""U04: the creatures of the zoo live in their universes (yuca.zoo, ca_configs,
yuca.ca.*, yuca.patterns, yuca.configs)."""
import contextlib
import copy
import io
import json
import os

import numpy as np
import torch

from .. import calab, lab
from .. import world as wm
from . import life
from ..runner import Check
from .universe import Failed, Scarce, Subject, Wrong

DIR = "/sim/work/zoo"
FAR = 40            # steps a creature is followed
NEAR = 12           # steps for which rounding does not tell in its course

CREATURES = [
    "discutium_solidus_6wide_waveglider000", "discutium_valvatus_5wide_waveglider000", "frog000", "geminium000",
    "gol_25P3H1V0_1000", "gol_large_spaceship000", "gol_medium_spaceship000", "gol_reflex_glider000", "gol_small_spaceship000",
    "neurorbium000", "neuroreflex_glider000", "o_bicaudatus_ignis_orbium000", "o_bicaudatus_orbium000", "orbium_orbium000",
    "p_arcus_saliens_ignis_5wide_waveglider000", "p_cavus_labens_4wide_waveglider000", "p_sinus_labens_6wide_waveglider000",
    "s113_amorphous_changing_glider000", "s11_config_evolved_ca_slow_glider000", "s613_s613_frog000", "s643_s643_frog000",
    "s7_config_spiky_frog_egg000", "scutium_gravidus_single000", "scutium_solidus_5wide_waveglider000",
    "scutium_valvatus_3wide_glider000", "smoothlife_single_glider000", "synorbium_orbium000", "triscutium_solidus_triscutium000",
    "uskate_daedalus001", "uskate_glider000", "uskate_glider001", "vagoptera_duorbium000", "wobbler000"]

# patterns made by functions, and the rules (made by functions) they are for
MADE = {"get_glider": {"name": "life", "kw": {}}, "get_puffer": {"name": "life", "kw": {"birth": [3, 6, 8], "survival": [2, 4, 5]}},
        "get_orbium": {"name": "orbium", "kw": {}}, "get_geminium": {"name": "geminium", "kw": {}},
        "get_smooth_glider": {"name": "smooth", "kw": {}}}
GROWING = ("get_puffer",)


def family(config):
    return "CCA" if not isinstance(config, str) else "NCA" if "neuro" in config else "RxnDfn" if "rxn" in config else "CCA"


def bare(pattern, config):
    """a pattern on a grid of its own, (1, channels, d, d)"""
    p = np.asarray(pattern, dtype=np.float32)
    while p.ndim < 4:
        p = p[None]
    h, w = p.shape[-2:]
    d = max(max(h, w) + 24, 72)
    g = np.zeros((1, p.shape[1], d, d), dtype=np.float32)
    if family(config) == "RxnDfn":
        g[:, 0] = 1
    g[:, :, 8:8 + h, 8:8 + w] = p
    return g


def moved(g, t):
    """the same elsewhere, turned and mirrored"""
    if t["flip"]:
        g = np.flip(g, -1)
    g = np.rot90(g, t["turn"], (-2, -1))
    return np.ascontiguousarray(np.roll(g, (t["down"], t["right"]), (-2, -1)))


def found(name, librarian):
    """(pattern, config or rule) of a creature"""
    if name in MADE:
        from yuca import patterns
        return getattr(patterns, name)(), MADE[name]
    p, meta = librarian.load(name)
    return p, meta["ca_config"].strip()


_courses = {}


def course(name):
    """(config, grids): what becomes of a creature left alone in a universe
    made for it"""
    if name not in _courses:
        from yuca.zoo.librarian import Librarian
        with contextlib.redirect_stdout(io.StringIO()):
            p, c = found(name, Librarian(verbose=False))
            ca = calab.family_of(family(c))()
            if name in MADE:
                ca.load_config(life.ask(c, lambda v: v))
            else:
                ca.restore_config(c)
        ca.eval()
        x = torch.tensor(bare(p, c))
        grids = [x.numpy().copy()]
        with torch.no_grad():
            for _ in range(FAR):
                x = ca(x)
                grids.append(x.detach().numpy().copy())
        _courses[name] = c, grids
    return _courses[name]


class U04(Check):
    id = "U04"
    quick = 400
    real = ["the shipped zoo and configs", "yuca.patterns, yuca.configs", "yuca.zoo.librarian", "yuca.ca.continuous, yuca.ca.neural, yuca.ca.reaction_diffusion, yuca.ca.common",
            "yuca.kernels, yuca.activations", "numpy, torch"]
    stubs = ["files, time, pids, os entropy", "torch's allocator fails where the case says so"]
    rule = "a run counts as non-trivial when a creature was followed in a universe that had held another one, or after it was kept"
    assumptions = ["rounding of float32 convolutions moves a creature's grid by less than 2e-3 in 12 steps (measured: 5e-4 at most)",
                   "allocation failures reach Python as MemoryError"]
    shrink_lists = ("visitors", "faults")

    def generate(self, rng, tier):
        visitors = []
        for i in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([2, 3, 5])):
                k = rng.choice(["visit", "visit", "visit", "keep", "revisit", "op"]) if ops else "visit"
                o = {"do": k, "fail": rng.choice([1, 2, 4, 8, 16, 30]) if rng.random() < .25 else 0}
                if k in ("visit", "revisit"):
                    o.update(n=rng.choice([1, 3, 6, 10]) if rng.random() < .9 else FAR, batch=rng.choice([1, 1, 2]),
                             move={"flip": rng.random() < .5, "turn": rng.randrange(4), "down": rng.randrange(-80, 80),
                                   "right": rng.randrange(-80, 80)})
                    o["slot"] = rng.randrange(o["batch"])
                    o["seed"] = rng.getrandbits(20)
                    o["which"] = rng.choice(CREATURES if rng.random() < .85 else sorted(MADE))
                    if ops and rng.random() < .3:
                        # the same again
                        o["which"] = ops[0]["which"]
                elif k == "keep":
                    o["name"] = rng.choice(["kept", "kept", "other"])
                else:
                    o["op"] = rng.choice([["reset"], ["no_grad"], ["device"], ["make"]])
                ops.append(o)
            visitors.append(ops)
        faults = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(["crash", "crash_after", "stall", "jump", "torn", "eio", "enospc"])
            f = {"kind": k, "at": rng.choice([1, 2, 3, 5, 8]), "scope": "proc", "proc": f"visitor{rng.randrange(len(visitors))}",
                 "secs": rng.choice([.5, 600.])}
            if k in ("torn", "enospc", "eio"):
                f.update(frac=rng.choice([0., .3, .9]), on=["write"], at=rng.choice([1, 1, 2]))
            faults.append(f)
        return {"visitors": visitors, "entropy": rng.getrandbits(20), "faults": faults,
                "schedule": lab.schedule(rng, [f"visitor{i}" for i in range(len(visitors))])}

    def smaller(self, case):
        yield from super().smaller(case)
        for k, ops in enumerate(case["visitors"]):
            for j in range(len(ops)):
                c = copy.deepcopy(case)
                del c["visitors"][k][j]
                yield c

    # ------------------------------------------------ one visitor
    def universe(self, mine, config, o, out):
        """the visitor's universe for a creature, used or new"""
        fam = family(config)
        if fam not in mine:
            mine[fam] = Subject(self, {"family": fam, "kw": {}, "init": 5, "fresh": True})
        else:
            out["reused"] += 1
        s = mine[fam]
        if o["fail"]:
            keep = copy.deepcopy(s.m), s.t
            try:
                with Scarce(o["fail"]):
                    self.settle(s, config)
                return s
            except Failed:
                out["failed"] += 1
                s.m, s.t = keep
        self.settle(s, config)
        return s

    def settle(self, s, config):
        if isinstance(config, str):
            s.apply(["restore", config])
        else:
            s.ca.load_config(s.lend(life.ask(config, s.lend)))
            s.m.load(life.said(config))

    def follow(self, s, name, start, move, grid, o, out):
        """n steps of a grid that holds the creature, compared with its course"""
        config, grids = course(name)
        rs = np.random.RandomState(o["seed"])
        d = grid.shape[-1]
        x = np.stack([grid[0] if k == o["slot"] else
                      (rs.rand(*grid.shape[1:]) * .5).astype(np.float32) for k in range(o["batch"])])
        x = torch.tensor(x)
        n = min(o["n"], FAR - start)
        whole = float(grids[0][:, -1].sum())
        s.ca.eval()
        for k in range(1, n + 1):
            if k == 1:
                # against its definition
                x, failed = s.step(x, o["fail"])
                out["failed"] += failed
            else:
                before = x.clone()
                with torch.no_grad():
                    y = s.ca(x)
                if not torch.equal(x, before):
                    raise Wrong("argument", "a step changed the grid it was given")
                s.t += s.size()
                x = y.detach()
            out["steps"] += 1
            got = x.numpy()[o["slot"]]
            if start + k <= NEAR:
                off = np.abs(got - moved(grids[start + k], move)[0])
                if not off.max() <= 2e-3:
                    raise Wrong("course", f"{name} (placed {move}, slot {o['slot']} of {o['batch']}) is off the course it takes alone, "
                                f"after {start + k} steps, by {off.max():.4g}")
            mass = float(got[-1].sum()) / whole
            if not .6 < mass < 1.6 and name not in GROWING:
                raise Wrong("dead", f"{name} in {config} has {mass:.3g} of its mass after {start + k} steps")
        s.time("after the visit")
        out["visits"] += 1
        return start + n, x.numpy()[o["slot"]][None].copy()

    def visitor(self, w, case, i, out):
        from yuca.zoo.librarian import Librarian
        mine, held = {}, None
        shipped = Librarian(verbose=False)
        own = Librarian(directory=DIR, verbose=False)
        for n, o in enumerate(case["visitors"][i]):
            k = o["do"]
            w.point(k, i)
            out["at"][i] = f"visitor {i}, operation {n} ({k} {o.get('which', '')})"
            if k == "visit":
                p, c = found(o["which"], shipped)
                s = self.universe(mine, c, o, out)
                g = moved(bare(p, c), o["move"])
                s.lend(p)
                at, g = self.follow(s, o["which"], 0, o["move"], g, o, out)
                held = {"which": o["which"], "move": o["move"], "at": at}, g, c
            elif k == "keep" and held:
                try:
                    own.store(held[1], o["name"], config_name=str(held[2]), notes=json.dumps(held[0]))
                    out["kept"] += 1
                except OSError:
                    out["unkept"] += 1
            elif k == "revisit":
                own.update_index()
                if not own.index:
                    continue
                entry = own.index[o["seed"] % len(own.index)]
                g, meta = own.load(entry)
                note, c = json.loads(meta["notes"]), meta["ca_config"]
                c = MADE.get(note["which"], c)
                s = self.universe(mine, c, o, out)
                if note["at"] < FAR:
                    at, g = self.follow(s, note["which"], note["at"], note["move"], np.asarray(g), o, out)
                    held = dict(note, at=at), g, c
                    out["revisits"] += 1
            elif k == "op":
                for s in mine.values():
                    s.apply(o["op"])
            for s in mine.values():
                s.take_back()

    def execute(self, case):
        out = {"steps": 0, "visits": 0, "revisits": 0, "reused": 0, "failed": 0, "kept": 0, "unkept": 0, "at": {}}
        viol = []
        w = wm.World(case)
        for ops in case["visitors"]:
            for o in ops:
                if "which" not in o:
                    continue
                try:
                    course(o["which"])
                except MemoryError:
                    raise
                except Exception as e:
                    return lab.finish([w], [("alone", f"{o['which']}, alone in a new universe: {type(e).__name__}: {e}")], False)
        lab.mkdir(w, DIR)

        def one(i):
            def main():
                try:
                    self.visitor(w, case, i, out)
                except Wrong as e:
                    viol.append((e.sig, f"{out['at'].get(i, 'start')}: {e.msg}"))
            return main
        ps = [w.spawn(f"visitor{i}", lab.guarded(w, one(i)), entropy=case["entropy"] + i) for i in range(len(case["visitors"]))]
        w.run()
        for i, p in enumerate(ps):
            if p.exit_code not in (0, -9):
                viol.append(("failed", f"{out['at'].get(i, 'start')}: {lab.proc_error(p)}"))
        del out["at"]
        out = {("fault_alloc_failure" if k == "failed" else "creature_" + k): v for k, v in out.items()}
        return lab.finish([w], viol, out["creature_reused"] + out["creature_revisits"] > 0, out)


CHECKS = [U04()]
