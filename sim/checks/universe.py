"""U01-U02: universes follow the rule they were given, and keep time (yuca.ca,
yuca.lenia, yuca.code, yuca.metaca, yuca.random_step_ca, yuca.kernels,
yuca.activations)."""
import copy
import os

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

from .. import calab, lab
from .. import refca
from .. import world as wm
from ..runner import Check


class Failed(MemoryError):
    """the injected failure of an allocation"""


class Scarce(TorchFunctionMode):
    """torch runs out of memory at the n-th thing it is asked for"""

    def __init__(self, n):
        super().__init__()
        self.n, self.asked = n, 0

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", "")
        if name not in ("__get__", "__set__", "size", "dim"):
            self.asked += 1
            if self.asked == self.n:
                raise Failed("cannot allocate memory")
        return func(*args, **(kwargs or {}))


class Wrong(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


def spoil(x):
    """overwrites everything inside what a caller lent, or was given"""
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
            if isinstance(x[k], bool) or x[k] is None:
                continue
            if isinstance(x[k], (int, float)):
                x[k] = type(x[k])(x[k] * 3 + 2)
            elif isinstance(x[k], str):
                x[k] = "Spoiled"
    elif isinstance(x, (list, tuple)):
        for n, v in enumerate(x):
            spoil(v)
            if isinstance(x, list) and isinstance(v, (int, float)):
                x[n] = v * 3 + 2
    elif isinstance(x, np.ndarray):
        if x.dtype.kind in "fiu" and x.flags.writeable:
            x[...] = 7
        elif x.dtype == object:
            for v in x.ravel():
                spoil(v)
    elif isinstance(x, torch.Tensor):
        x.detach().fill_(7)


def start_grid(op, m):
    """a grid for a universe, float32"""
    s, kind, batch = op["seed"], op["kind"], op["batch"]
    r = max((refca.kernel(m.kernel_cfg).shape[0] - 1) // 2, (refca.kernel(m.id_cfg).shape[0] - 1) // 2)
    dim = max(op["dim"], r + 2)
    rs = np.random.RandomState(s)
    shape = (batch, m.external, dim, dim + op["wide"])
    g = rs.rand(*shape)
    if kind == "band":
        g[:, :, : dim // 3] = 0
    elif kind == "blob":
        mask = np.zeros(shape)
        h = dim // 4
        mask[:, :, h:-h, h:-h] = 1
        g = g * mask
    elif kind == "cells":
        g = (g > .6) * 1.0
    elif kind == "levels":
        g = np.floor(g * 9) / 8
    elif kind == "faint":
        g = g * .2
    elif kind == "rxn":
        g = g * .1
        g[:, 0] = 1 - g[:, 0]
    elif kind == "dead":
        g = g * 0
    return g.astype(np.float32)


def gen_grid(rng, family):
    return {"seed": rng.getrandbits(20), "batch": rng.choice([1, 1, 2, 3]), "dim": rng.choice([8, 11, 12, 16]),
            "wide": rng.choice([0, 0, 0, 3]),
            "kind": rng.choice(["rxn", "rxn", "rand"]) if family == "RxnDfn" else
            rng.choice(["rand", "band", "blob", "cells", "faint", "levels", "dead"] if rng.random() < .9 else ["dead"])}


class Subject:
    """one real universe next to the description of what it should be"""

    def __init__(self, check, u):
        self.check, self.u = check, u
        fam, kw = u["family"], dict(u["kw"])
        self.fam = fam
        self.ca = calab.build(fam, kw, u["init"])
        if fam == "RxnDfn":
            kw = {"external_channels": 2, "internal_channels": 2, "conv_mode": "circular"}
        self.m = refca.Model(fam, kw.get("external_channels", 1), kw.get("internal_channels", 1),
                             kw.get("conv_mode", "circular"), kw.get("alive_threshold", .1))
        self.code_settings(kw)
        self.t = 0.0
        self.grid = None
        self.asked = 0               # what its last step asked of torch
        self.made = None             # a config that could not be loaded yet
        self.lent = []               # what it was given, and what it gave
        m = self.m
        if u.get("fresh"):
            # nothing is loaded: it is what another one made alike says it is
            self.as_said(calab.build(fam, kw if fam != "RxnDfn" else {}, u["init"]), kw)
        elif fam == "NCA":
            r, peaks = kw.get("kernel_radius", 13), kw.get("kernel_peaks", 3)
            m.act, m.hidden = kw.get("activation", "Gaussian"), kw.get("hidden_channels", 64)
            m.kernel_cfg = {"name": "GaussianMixture", "radius": r,
                            "kernel_kwargs": {"parameters": np.zeros(3 * peaks)}}
            self.net_shapes()
            n = len(m.get_params())
            rs = np.random.RandomState(u["init"])
            p = rs.rand(n) * .8 + .1
            p[:n - 3 * peaks] = rs.randn(n - 3 * peaks) * .6
            self.set_params(p)
        else:
            self.load(u["config"])

    def code_settings(self, kw):
        self.prev0 = kw.get("prev_dt", .3)
        self.max_dt, self.min_dt = kw.get("max_dt", .5), kw.get("min_dt", .01)
        self.thr = kw.get("error_threshold", 1e-3)
        self.prev = self.prev0

    def as_said(self, twin, kw):
        m, c = self.m, twin.make_config()
        if self.fam == "NCA":
            m.act, m.hidden = kw.get("activation", "Gaussian"), kw.get("hidden_channels", 64)
            m.id_cfg = c.get("identity_kernel_config", {"name": "InnerMoore"})
            m.kernel_cfg = copy.deepcopy(c["neighborhood_kernel_config"])
            m.dt = float(refca.arr(c.get("dt", .1)).reshape(-1)[0])
            self.net_shapes()
            m.set_params(refca.arr(c["params"]))
        else:
            m.load(copy.deepcopy(c))

    def net_shapes(self):
        m = self.m
        g = [np.zeros(1), np.zeros(1)] if m.act == "Gaussian" else []
        m.net = [np.zeros((m.hidden, m.external + m.internal, 1, 1))] + [v.copy() for v in g] + \
            [np.zeros((m.hidden, m.hidden, 1, 1))] + [v.copy() for v in g] + [np.zeros((m.external, m.hidden, 1, 1))]

    # ------------------------------------------------ what is done to it
    def restart(self):
        self.t, self.prev, self.m.dgrid = 0.0, self.prev0, None

    def lend(self, x):
        self.lent.append(x)
        return x

    def take_back(self):
        """what was lent is the caller's, who does with it as they please"""
        spoil(self.lent)
        self.lent = []

    def load(self, c):
        self.ca.load_config(self.lend(calab.native(c)))
        self.m.load(c)

    def set_params(self, p):
        self.ca.set_params(self.lend(np.array(p)))
        self.m.set_params(p)

    def apply(self, op):
        k, ca, m = op[0], self.ca, self.m
        lend = self.lend
        if k == "noise":
            p = m.get_params()
            n = np.random.RandomState(op[1]).randn(*p.shape)
            if self.fam == "RxnDfn":
                p = p * (1 + .2 * op[2] * n)
            else:
                p = p + op[2] * n
                p = np.where(np.abs(p) < .005, .005, p)
            self.set_params(p)
        elif k == "dt":
            ca.set_dt(lend(torch.tensor(op[1])) if op[2] else op[1])
            m.dt = op[1]
        elif k == "dx":
            ca.set_dx(lend(torch.tensor(op[1])) if int(op[1] * 1e6) % 2 else op[1])
            m.dx = op[1]
        elif k == "du":
            ca.set_diffusion_u(lend(torch.tensor([op[1]])))
            m.rxn[0] = op[1]
        elif k == "dv":
            ca.set_diffusion_v(lend(torch.tensor([op[1]])))
            m.rxn[1] = op[1]
        elif k == "reset":
            ca.reset()
            self.restart()
        elif k == "no_grad":
            ca.no_grad()
        elif k == "device":
            ca.to_device("cpu")
        elif k == "include":
            ca.include_parameters()
        elif k == "make":
            lend(ca.make_config())
        elif k == "reload":
            # a config that could not be loaded is tried again
            self.made = self.made or ca.make_config()
            c = copy.deepcopy(self.made)
            ca.load_config(lend(copy.deepcopy(c)))
            self.made = None
            if "instant_kwargs" in c:
                self.restart()
        elif k == "radius":
            ca.set_kernel_radius(op[1])
            m.kernel_cfg["radius"] = op[1]
        elif k == "kernel":
            ca.set_kernel_config(lend(calab.native({"neighborhood_kernel_config": op[1]})["neighborhood_kernel_config"]))
            m.kernel_cfg = copy.deepcopy(op[1])
        elif k == "kparams":
            ca.set_kernel_params(lend(np.array(op[1])))
            m.set_kernel_params(op[1])
        elif k == "load":
            self.load(op[1])
        elif k == "restore":
            ca.restore_config(op[1], verbose=False)
            c = np.load(os.path.join(wm.ROOT, "ca_configs", op[1]), allow_pickle=True).reshape(1)[0]
            kw = c.get("instant_kwargs")
            if kw is not None and self.fam != "RxnDfn":
                m.external, m.internal = kw.get("external_channels", 1), kw.get("internal_channels", 1)
                m.mode, m.threshold = kw.get("conv_mode", "circular"), kw.get("alive_threshold", .1)
                if self.fam == "NCA":
                    m.act, m.hidden = kw.get("activation", "Gaussian"), kw.get("hidden_channels", 64)
                self.code_settings(kw)
                self.restart()
            if self.fam == "NCA":
                m.id_cfg = c.get("identity_kernel_config", {"name": "InnerMoore"})
                m.kernel_cfg = copy.deepcopy(c["neighborhood_kernel_config"])
                m.dt = float(refca.arr(c.get("dt", .1)).reshape(-1)[0])
                self.net_shapes()
                m.set_params(refca.arr(c["params"]))
            else:
                m.load(c)
        else:
            raise ValueError(k)

    # ------------------------------------------------ what is seen of it
    def params(self):
        p, q = self.ca.get_params(), self.m.get_params()
        self.lend(p)
        p = np.array(p, dtype=np.float64)
        if p.shape != q.shape or not np.allclose(p, q, rtol=2e-6, atol=1e-8):
            raise Wrong("params", f"it reports params {np.round(p, 5)[:12]}, it was given {np.round(q, 5)[:12]}")

    def size(self):
        d = float(torch.as_tensor(self.ca.dt).reshape(-1)[0])
        if self.fam not in calab.VARIABLE and abs(d - self.m.dt) > 1e-6:
            raise Wrong("dt", f"its step size is {d}, it was given {self.m.dt}")
        return d

    def time(self, what):
        if self.fam == "MetaCA":
            return
        t = float(torch.as_tensor(self.ca.t_count).reshape(-1)[0])
        if abs(t - self.t) > 1e-5 * max(1, self.t) + 1e-6:
            raise Wrong("time", f"{what}: its time is {t}, the steps taken add up to {self.t}")

    def sizes(self, x):
        """the step sizes the adaptive rule may take on this grid"""
        ca = self.ca
        base = calab.family_of("CCA")
        keep, t = ca.dt, ca.t_count

        def euler(g, dt):
            ca.set_dt(dt)
            return base.forward(ca, g)
        out, tried = [], []
        try:
            with torch.no_grad():
                d = min(2 * self.prev, self.max_dt)
                while d >= self.min_dt:
                    big, small = euler(x, d), euler(euler(x, d / 2), d / 2)
                    e = ((big - small).abs() / small)[(small > 0) & (big != small)]
                    e = float(e.max()) if e.numel() else 0.0
                    tried.append((d, e))
                    if e < self.thr * (1 - 2e-3):
                        return out + [d], tried
                    if e < self.thr * (1 + 2e-3):
                        out.append(d)
                    d *= .75
        finally:
            ca.dt, ca.t_count = keep, t
        return out + [self.min_dt], tried

    def step(self, x, fail=0):
        """one step of the universe; x and what comes back are float32 tensors"""
        ca, m = self.ca, self.m
        if self.fam == "NCA":
            ca.eval()
        due = self.sizes(x) if self.fam == "CODE" else None
        before = x.clone()
        failed = False
        with torch.no_grad():
            # negative: so much before the end of a step like the last one
            scarce = Scarce(fail if fail >= 0 else max(1, self.asked + 1 + fail))
            try:
                with scarce:
                    y = ca(x)
                self.asked = scarce.asked
            except Failed:
                failed = True
                self.time("after a step that failed")
                if not torch.equal(x, before):
                    raise Wrong("argument", "a step that failed changed the grid it was given")
                y = ca(x)
        if not torch.equal(x, before):
            raise Wrong("argument", "a step changed the grid it was given")
        what = "a step" if not failed else "a step, tried again after one that failed,"
        d = self.size()
        if self.fam == "CODE":
            if not any(abs(d - v) < 1e-5 * v for v in due[0]):
                raise Wrong("step-size", f"{what} had size {d}; from previous size {self.prev}, the errors "
                            f"{[(round(a, 5), round(b, 6)) for a, b in due[1]][:6]} and threshold {self.thr} call for {due[0]}")
            self.prev = d
        elif self.fam == "RandomStepCA" and not .05 <= d <= .25:
            raise Wrong("step-size", f"{what} had size {d}, not one between 0.05 and 0.25")
        self.t += d
        self.time(what)
        u = x.numpy().astype(np.float64)
        if self.fam == "MetaCA":
            e, lo, hi, grown = m.meta_step(u)
        else:
            e, lo, hi = m.step(u, d)
        self.same(y, lo, hi, what, "step")
        if self.fam == "MetaCA":
            m.dgrid = grown
        grid = y.clone()
        self.lend([x, y])
        return grid, failed

    def same(self, y, lo, hi, what, sig, tol=1e-5):
        y = refca.arr(y)
        if y.shape != lo.shape:
            raise Wrong(sig, f"{what} gave a grid of shape {y.shape}, expected {lo.shape}")
        with np.errstate(invalid="ignore"):
            off = np.maximum(lo - y, y - hi) - tol * (1 + np.abs(lo))
        off = np.where(np.isnan(lo) & np.isnan(y), -1, off)
        if not (off <= 0).all():
            at = np.unravel_index(np.nanargmax(np.where(np.isnan(off), np.inf, off)), off.shape)
            raise Wrong(sig, f"{what} of {self.fam} gave {y[at]:.7g} at {tuple(int(v) for v in at)} where its rule gives "
                        f"{lo[at]:.7g} to {hi[at]:.7g}")

    def half_step(self, x):
        """a step of a grid of half the precision"""
        ca, m = self.ca, self.m
        x = x.to(torch.float16)
        before = x.clone()
        with torch.no_grad():
            y = ca(x)
        if not torch.equal(x, before):
            raise Wrong("argument", "a step changed the float16 grid it was given")
        if y.dtype != torch.float16:
            raise Wrong("step", f"a step of a float16 grid gave one of {y.dtype}")
        d = self.size()
        self.t += d
        self.time("a step of a float16 grid")
        e, lo, hi = m.step(x.numpy().astype(np.float64), d, True)
        # rounded five times on the way
        self.same(y.to(torch.float32), lo, hi, "a step of a float16 grid", "step", 3e-3)
        grid = y.to(torch.float32)
        self.lend([x, y])
        return grid

    def frame(self, x, mode):
        ca, m = self.ca, self.m
        if self.fam == "NCA":
            ca.eval()
        before, t = x.clone(), self.t
        with torch.no_grad():
            out = ca.get_frame(x, mode=mode)
        if not torch.equal(x, before):
            raise Wrong("argument", "making a frame changed the grid it was made from")
        self.time("after a frame")
        u = x.numpy().astype(np.float64)
        d = self.size()
        e, lo, hi = m.step(u, d)
        n, g = m.rate(u)
        out = (out,) if mode == 0 else tuple(out)
        self.lend([x, out])
        want = {0: "f", 1: "fn", 2: "fu", 3: "fnu", 4: "fxnu"}[mode]
        if len(out) != len(want):
            raise Wrong("frame", f"a frame in mode {mode} has {len(out)} parts, expected {len(want)}")
        for o, k in zip(out, want):
            if k == "f":
                self.same(o, lo, hi, f"a frame (mode {mode})", "frame")
            elif k == "x":
                self.same(o, m.masked(u), m.masked(u), f"the grid of a frame (mode {mode})", "frame")
            elif k == "n":
                s = 8e-6 if self.fam != "RxnDfn" else 2e-6
                self.same(o, n - s, n + s, f"the neighbourhoods of a frame (mode {mode})", "frame")
            else:
                self.same(o, g[1], g[2], f"the growth of a frame (mode {mode})", "frame", 1e-4)


class Histories(Check):
    real = ["yuca.ca.common, yuca.ca.continuous, yuca.ca.neural, yuca.ca.reaction_diffusion", "yuca.lenia, yuca.code, yuca.metaca, "
            "yuca.random_step_ca", "yuca.kernels, yuca.activations", "numpy, torch"]
    stubs = ["time, pids, os entropy", "torch's allocator fails where the case says so"]
    rule = "a run counts as non-trivial when a grid was stepped after at least two other operations"
    shrink_lists = ("ops", "unis")
    families = ()

    def gen_uni(self, rng, fam):
        kw = calab.gen_kwargs(rng, fam)
        ch = kw.get("internal_channels", 1)
        if rng.random() < .15:
            return {"family": fam, "kw": kw, "init": rng.getrandbits(20), "fresh": True, "config": None}
        return {"family": fam, "kw": kw, "init": rng.getrandbits(20),
                "config": None if fam == "NCA" else calab.gen_config(rng, fam, ch)}

    def generate(self, rng, tier):
        unis = [self.gen_uni(rng, rng.choice(self.families)) for _ in range(rng.choice([1, 1, 2, 3]))]
        ops = []
        for _ in range(rng.choice([2, 4, 7, 12]) + len(unis)):
            i = rng.randrange(len(unis))
            u = unis[i]
            r = rng.random()
            fail = rng.choice([1, 2, 4, 8, 16, 30]) + rng.randrange(4) if rng.random() < .25 else 0
            if r < self.steps:
                fail = rng.choice([fail, -rng.randint(1, 12)]) if fail else 0
                ops.append({"uni": i, "do": "steps", "n": rng.choice([1, 1, 2, 4, 8]), "fail": fail,
                            "grid": gen_grid(rng, u["family"]) if rng.random() < .4 else None, "again": gen_grid(rng, u["family"])})
                if rng.random() < .15:
                    ops[-1]["half"] = True
            elif r < self.steps + .12:
                ops.append({"uni": i, "do": "frame", "mode": rng.choice([0, 1, 2, 3, 4]), "grid": gen_grid(rng, u["family"])})
            else:
                shipped = u["kw"].get("external_channels", 1) == 1 and u["kw"].get("internal_channels", 1) == 1
                op = calab.gen_op(rng, u["family"], u["kw"].get("internal_channels", 1), shipped)
                while op[0] in ("steps", "frame"):
                    op = calab.gen_op(rng, u["family"], u["kw"].get("internal_channels", 1), shipped)
                ops.append({"uni": i, "do": "op", "op": op, "fail": fail})
        for i, u in enumerate(unis):
            ops.append({"uni": i, "do": "steps", "n": rng.choice([1, 3]), "fail": 0, "grid": gen_grid(rng, u["family"]),
                        "again": gen_grid(rng, u["family"])})
        return {"unis": unis, "ops": ops, "schedule": {"choices": []}, "faults": [], "entropy": rng.getrandbits(20)}

    def valid(self, sub, op):
        """operations a universe in this state is for"""
        m = sub.m
        if op[0] in ("load",) and not isinstance(op[1]["genesis_config"] if "genesis_config" in op[1] else [1], list):
            return m.internal == 1
        if op[0] == "load" and sub.fam != "RxnDfn":
            return len(op[1]["genesis_config"]) == m.internal
        return True

    def main(self, w, case, out):
        subs = [Subject(self, u) for u in case["unis"]]
        for n, o in enumerate(case["ops"]):
            if o["uni"] >= len(subs):
                continue
            s = subs[o["uni"]]
            w.point(o["do"], f"{o['uni']} {o.get('op', [''])[0]}")
            out["at"] = f"operation {n} ({o['do']}{' ' + str(o['op'][0]) if 'op' in o else ''}) on a {s.fam} universe"
            if o["do"] == "steps":
                if o["grid"] is not None or s.grid is None or s.grid.shape[1] != s.m.external or \
                        not self.fits(s):
                    s.grid = torch.tensor(start_grid(o["grid"] or o["again"], s.m))
                if o.get("half") and s.fam == "CCA" and s.m.internal == 1:
                    s.grid = s.half_step(s.grid)
                    out["half_steps"] = out.get("half_steps", 0) + 1
                for k in range(o["n"]):
                    s.grid, failed = s.step(s.grid, o["fail"] if k == o["n"] - 1 else 0)
                    s.take_back()
                    out["steps"] += 1
                    out["failed"] += failed
            elif o["do"] == "frame":
                s.frame(torch.tensor(start_grid(o["grid"], s.m)), o["mode"])
                out["frames"] += 1
            elif self.valid(s, o["op"]):
                self.operate(s, o, out)
                s.size()
            s.take_back()
            s.params()
            s.take_back()
            s.time("after " + out["at"])

    def fits(self, s):
        r = max((refca.kernel(s.m.kernel_cfg).shape[0] - 1) // 2, (refca.kernel(s.m.id_cfg).shape[0] - 1) // 2)
        return min(s.grid.shape[2:]) >= r + 2

    def operate(self, s, o, out):
        if o["fail"]:
            m, keep = copy.deepcopy(s.m), (s.t, s.prev, s.prev0, s.max_dt, s.min_dt, s.thr)
            try:
                with Scarce(o["fail"]):
                    s.apply(o["op"])
                return
            except Failed:
                # tried again once there is memory
                out["failed"] += 1
                s.m = m
                s.t, s.prev, s.prev0, s.max_dt, s.min_dt, s.thr = keep
        s.apply(o["op"])

    def execute(self, case):
        w = wm.World(case)
        out = {"steps": 0, "frames": 0, "failed": 0, "at": "start"}
        viol = []

        def main():
            try:
                self.main(w, case, out)
            except Wrong as e:
                if e.sig in self.about:
                    viol.append((e.sig, f"{out['at']}: {e.msg}"))
        p = w.spawn("user", lab.guarded(w, main), entropy=case["entropy"])
        w.run()
        if p.exit_code != 0:
            viol.append(("failed", f"{out['at']}: {lab.proc_error(p)}"))
        return lab.finish([w], viol, out["steps"] > 0 and len(case["ops"]) > 2,
                          {"ca_steps": out["steps"], "half_steps": out.get("half_steps", 0), "frames": out["frames"], "fault_alloc_failure": out["failed"]})


class U01(Histories):
    id = "U01"
    quick = 1500
    steps = .3
    about = ("step", "frame", "params", "dt", "argument")
    families = ("CCA", "CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")
    assumptions = ["torch's convolution is exact to a few units in the last place of float32",
                   "allocation failures reach Python as MemoryError"]


class U02(Histories):
    id = "U02"
    quick = 900
    steps = .55
    about = ("time", "step-size", "argument")
    families = ("CODE", "CODE", "CODE", "RandomStepCA", "CCA", "Lenia", "NCA", "RxnDfn")
    assumptions = ["a step of given size of an adaptive universe is what a plain universe makes of it (decided by U01)",
                   "allocation failures reach Python as MemoryError"]


CHECKS = [U01(), U02()]
