"""Runs the real evolution code (CMAES / CMACES mantle and arms, MPI messages,
log files) in a world, with agents and environments that record every
evaluation."""
import copy
import importlib
import os
import sys
import types

import numpy as np
import torch

from . import lab, mpi
from . import world as wm

LOGS = "/sim/work/logs"
CONFIGS = os.path.join(wm.ROOT, "ca_configs")


def no_gif(*a, **k):
    return None


def simmod(ev):
    """a module with the recording agents and environments, private to the
    current simulated process (so that its classes pickle by name)"""
    name = "yuca.simlab"
    if name in sys.modules:
        return sys.modules[name]
    m = types.ModuleType(name)
    m.__file__ = "/sim/simlab.py"
    sys.modules[name] = m
    importlib.import_module("yuca").simlab = m
    pa = importlib.import_module("yuca.params_agent")
    cppn = importlib.import_module("yuca.cppn")
    halting = importlib.import_module("yuca.wrappers.halting_wrapper")
    glider = importlib.import_module("yuca.wrappers.glider_wrapper")
    cont = importlib.import_module("yuca.ca.continuous")
    state = {"agent": None, "draws": None}
    rank = ev.w.current.rank

    def recording(base, **extra):
        class R(base):
            def __init__(self, **kw):
                kw = {**kw, **extra}
                super().__init__(**kw)

            def get_action(self, *a, **k):
                state["agent"] = np.array(self.get_params(), dtype=np.float64).copy()
                return super().get_action(*a, **k)
        R.__module__ = name
        return R

    def note(reward, ca, action):
        if state["draws"] is None:
            return
        ev.evals.append({"rank": rank, "params": state["agent"],
                         "reward": float(torch.as_tensor(reward).reshape(-1)[0]),
                         "draws": state["draws"],
                         "ca": np.array(ca.get_params(), dtype=np.float64).copy()})
        state["draws"] = None

    class StubEnv:
        def __init__(self, **kw):
            self.ca = kw.get("ca_fn", cont.CCA)(**kw)
            if kw.get("ca_config") is not None:
                self.ca.restore_config(kw["ca_config"])
            self.ca_steps = kw.get("ca_steps", 1)

        def reset(self):
            state["draws"] = (torch.rand(2).tolist(), np.random.rand(2).tolist())

        def eval(self):
            pass

        train = eval

        def to_device(self, device):
            pass

        def no_grad(self):
            pass

        def step(self, action):
            a = torch.as_tensor(np.asarray(action) if not torch.is_tensor(action) else action)
            a = a.detach().to(torch.float64).reshape(-1)
            k = torch.arange(1, a.numel() + 1, dtype=torch.float64)
            s = float((a * (torch.cos(k * 1.7) + 1.1)).sum())
            if "coevo" in ev.case["tag"]:
                p = torch.as_tensor(np.asarray(self.ca.get_params()), dtype=torch.float64)
                s += 30.0 * float((p * torch.sin(torch.arange(1, p.numel() + 1))).sum())
            d = state["draws"][0][0] if state["draws"] else 0.0
            r = ev.case.get("reward_scale", 1.0) * (np.sin(3.0 * s) + 0.3 * d) + ev.case.get("reward_bias", 0.0)
            ev.w.point("eval", f"{rank}")
            note(r, self.ca, action)
            return 0, torch.tensor(r, dtype=torch.float32), False, {"active_grid": torch.tensor(0.5)}

    def wrapped(base):
        class E(base):
            def reset(self):
                st = (torch.get_rng_state(), np.random.get_state())
                state["draws"] = (torch.rand(2).tolist(), np.random.rand(2).tolist())
                torch.set_rng_state(st[0])
                np.random.set_state(st[1])
                return super().reset()

            def step(self, action):
                ev.w.point("eval", f"{rank}")
                o, r, d, info = super().step(action)
                note(r, self.ca, action)
                return o, r, d, info
        E.__module__ = name
        return E

    for cls, n in ((recording(pa.ParamsAgent), "RecParams"),
                   (recording(cppn.CPPN, hidden_dim=2), "RecCPPN"),
                   (recording(cppn.CPPNPlus, hidden_dim=2), "RecCPPNPlus"),
                   (StubEnv, "StubEnv"),
                   (wrapped(halting.SimpleHaltingWrapper), "SimpleHalting"),
                   (wrapped(halting.HaltingWrapper), "Halting"),
                   (wrapped(glider.GliderWrapper), "Glider")):
        cls.__name__ = cls.__qualname__ = n
        cls.__module__ = name
        setattr(m, n, cls)
    return m


CA_FNS = {"CCA": "yuca.ca.continuous", "NCA": "yuca.ca.neural", "RxnDfn": "yuca.ca.reaction_diffusion",
          "CODE": "yuca.code", "Lenia": "yuca.lenia", "MetaCA": "yuca.metaca",
          "RandomStepCA": "yuca.random_step_ca"}


class Evolution:
    """one search: world + case -> evaluations, logs, exit codes"""

    def __init__(self, case, over=None, world=None):
        self.case = dict(case, **(over or {}))
        self.w = world or wm.World(self.case)
        lab.mkdir(self.w, LOGS)
        self.evals = []
        self.exp_id = None

    def build(self):
        c = self.case
        utils = importlib.import_module("yuca.utils")
        if not c.get("gif"):
            utils.save_fig_sequence = no_gif
        cm = importlib.import_module("yuca.cmaes")
        m = simmod(self)
        tag = c["tag"]
        agent = "RecCPPN" if "pattern" in tag else "RecCPPNPlus" if "coevo" in tag else "RecParams"
        ca_fn = getattr(importlib.import_module(CA_FNS[c.get("ca_fn", "CCA")]), c.get("ca_fn", "CCA"))
        kw = dict(workers=c["workers"], tag=tag, seed=copy.deepcopy(c["seeds"]), dim=c.get("dim", 8),
                  ca_steps=c.get("ca_steps", 1), replicates=c["replicates"],
                  batch_size=c.get("batch_size", 1), population_size=c["pop"],
                  generations=c["gens"], selection_mode=c.get("selection", 0),
                  kernel_radius=c.get("radius", 2), prediction_mode=c.get("prediction", 0),
                  env_fn=getattr(m, c.get("env", "StubEnv")), agent_fn=getattr(m, agent),
                  ca_fn=ca_fn, device="cpu", conv_mode="circular",
                  internal_channels=c.get("internal", 1), external_channels=1, hidden_channels=2,
                  input_filepath=c.get("input"), ca_config=c.get("ca_config"))
        if c.get("ca_fn") == "RxnDfn":
            kw["external_channels"] = 2
        if len(kw["seed"]) == 1 and c.get("scalar_seed"):
            kw["seed"] = kw["seed"][0]
        search = (cm.CMACES if "coevo" in tag else cm.CMAES)(**kw)
        return search

    def program(self):
        mpi.prepare(self.w)
        p = self.w.current
        s = self.build()
        if hasattr(s, "starting_means"):
            p.start = (np.array(s.starting_means, dtype=np.float64).copy(),)
        s.search()

    def start(self, name="cli", **kw):
        self.w.rank_main = lambda prog: self.program()
        self.parent = self.w.spawn(name, self.program, argv=["evolve"], env=dict(self.w.base_env),
                                   entropy=self.case.get("entropy", 0), **kw)
        return self.parent

    def run(self):
        self.start()
        self.w.run()
        return self

    # ---------------------------------------------------------------- after
    def ranks(self):
        return [q for q in self.w.procs if q.comm is not None]

    def mantle(self):
        for q in self.ranks():
            if q.rank == 0:
                return q
        return self.parent

    def failure(self):
        """why the run did not end as it should have, or None"""
        w = self.w
        if w.over_budget:
            return "livelock", f"still running after {w.max_steps} steps"
        if w.deadlock:
            return "deadlock", f"no process can go on: {w.deadlock}"
        for q in w.procs:
            if q.exit_code != 0:
                return "failed", f"process {q.name}: {lab.proc_error(q)}"
        return None

    def logs(self):
        return {p: b for p, b in lab.find_files(self.w, LOGS).items()
                if not os.path.basename(p).startswith(".")}

    def log(self, seed):
        """the log of one seed's search, parsed, or None"""
        for p, b in self.logs().items():
            if p.endswith(f"_seed{seed}.npy"):
                return lab.read_obj(b)
        return None

    def log_path(self, seed):
        return next((p for p in self.logs() if p.endswith(f"_seed{seed}.npy")), None)

    def config_path(self, seed):
        return next((p for p in lab.find_files(self.w, CONFIGS)
                     if p.endswith(f"_seed{seed}.npy")), None)

    def generations(self):
        """evaluations in order, in chunks of one generation each"""
        n = self.case["pop"] * self.case["replicates"]
        return [self.evals[i:i + n] for i in range(0, len(self.evals), n)]


def agents_of(chunk):
    """group one generation's evaluations by agent -> [(params, [evals])];
    ranks evaluate at the same time, each one agent after the other"""
    out = {}
    for e in sorted(chunk, key=lambda e: e["rank"] or 0):
        out.setdefault(e["params"].tobytes(), (e["params"], []))[1].append(e)
    return list(out.values())
