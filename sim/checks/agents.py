"""N01: what an agent does follows from its params alone (yuca.cppn,
yuca.params_agent)."""
import numpy as np
import torch

from .. import calab, lab
from .. import refca
from .. import world as wm
from ..runner import Check
from .universe import Failed, Scarce, Wrong

EPS = 1e-6


def features(dim):
    """(16, dim, dim): what a pattern network is shown of every cell"""
    a = -1 + np.arange(dim) * 2.0 / (dim - 1)
    x, y = np.meshgrid(a, a)
    r = np.sqrt(x ** 2 + y ** 2)
    top = lambda v: v / v.max()
    wave = lambda n: top(np.sin(np.pi * n * r) / (r + EPS))
    f = [x, 1 - r, abs(x), abs(y), top(2.0 ** x), top(x ** 2), top(x ** 3), np.cos(np.pi * y), np.sin(np.pi * x),
         np.cos(2 * np.pi * y), np.sin(2 * np.pi * x), np.cos(4 * np.pi * y), np.sin(4 * np.pi * x), wave(4), wave(8), wave(16)]
    return np.stack(f), r


def layout(channels, hidden):
    """shapes of the params of a pattern network, in order"""
    sizes = [16 * channels, hidden, hidden, hidden, channels]
    out = []
    for a, b in zip(sizes, sizes[1:]):
        out += [(b, a), (b,), (1,), (1,)]
    return out


def split(p, channels, hidden):
    out, i = [], 0
    for s in layout(channels, hidden):
        n = int(np.prod(s))
        out.append(p[i:i + n].reshape(s))
        i += n
    return out, p[i:]


def pattern(p, channels, hidden, dim):
    f, r = features(dim)
    h = np.concatenate([f] * channels).reshape(16 * channels, -1)
    net, _ = split(refca.f32(p), channels, hidden)
    for k in range(0, 16, 4):
        w, b, mu, sigma = net[k:k + 4]
        h = refca.bell(w @ h + b[:, None], mu[0], sigma[0])
    out = h.reshape(channels, dim, dim) * (1 - r) ** 2
    return np.maximum(np.where(r >= .75, out * 1e-6, out), 0)[None]


def draw(seed, kind, channels, hidden, n):
    """params for an agent"""
    rs = np.random.RandomState(seed)
    if kind == "ParamsAgent":
        return rs.randn(n) * .6
    parts = []
    for s in layout(channels, hidden):
        parts.append(rs.randn(*s).ravel() * .6 if s != (1,) else rs.rand(1) * .8 + .2)
    if kind == "CPPNPlus":
        parts.append(rs.randn(n) * .6)
    return np.concatenate(parts)


class Agent:
    def __init__(self, spec, real):
        self.s, self.real = spec, real
        self.p = None
        self.given = self.got = self.acted = None

    def filtered(self, p):
        return np.clip(np.abs(p), .0001, 1.0) if self.s.get("filter") else np.array(p)

    def set(self, seed, n):
        p = draw(seed, self.s["kind"], self.s.get("channels", 1), self.s.get("hidden", 4), n)
        self.given = p.copy()
        kept = p.copy()
        self.real.set_params(self.given)
        if not np.array_equal(self.given, kept):
            raise Wrong("argument", "the params it was given were changed")
        self.p = self.filtered(p)

    def look(self):
        q = np.asarray(self.real.get_params(), dtype=np.float64)
        if q.shape != self.p.shape or not np.allclose(q, self.p, rtol=2e-7, atol=1e-9):
            raise Wrong("params", f"{self.s['kind']} has params {np.round(q, 4)[-6:]}, it was given {np.round(self.p, 4)[-6:]}")

    def act(self):
        s = self.s
        with torch.no_grad():
            out = self.real.get_action()
        self.acted = out
        if s.get("filter"):
            self.p = np.abs(self.p)
        if s["kind"] == "ParamsAgent":
            rule, pat = out, None
        elif s["kind"] == "CPPNPlus":
            rule, pat = out
        else:
            rule, pat = None, out
        ch, hid = s.get("channels", 1), s.get("hidden", 4)
        if pat is not None:
            want = pattern(self.p, ch, hid, s["dim"])
            got = refca.arr(pat)
            if got.shape != want.shape:
                raise Wrong("action", f"a pattern of shape {got.shape}, expected {want.shape}")
            if not np.allclose(got, want, rtol=1e-3, atol=2e-4):
                raise Wrong("action", f"the pattern of {s['kind']} is off by {np.abs(got - want).max():.3g} from the one its params give")
        if rule is not None:
            want = self.p if s["kind"] == "ParamsAgent" else split(self.p, ch, hid)[1]
            got = np.asarray(rule, dtype=np.float64)
            if got.shape != want.shape or not np.allclose(got, want, rtol=2e-7, atol=1e-9):
                raise Wrong("action", f"the rule of {s['kind']} is {np.round(got, 4)[:6]}, its params say {np.round(want, 4)[:6]}")


class N01(Check):
    id = "N01"
    quick = 3000
    real = ["yuca.cppn", "yuca.params_agent", "yuca.activations.Gaussian", "numpy, torch"]
    stubs = ["time, pids, os entropy", "torch's allocator fails where the case says so"]
    assumptions = ["allocation failures reach Python as MemoryError"]
    rule = "a run counts as non-trivial when an agent acted after its params were set at least once"
    shrink_lists = ("ops", "agents")

    def generate(self, rng, tier):
        agents = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.choice(["CPPN", "CPPN", "CPPNPlus", "CPPNPlus", "ParamsAgent"])
            a = {"kind": k, "rules": rng.choice([1, 4, 8, 13]), "how": rng.choice(["default", "params", "apart"]),
                 "seed": rng.getrandbits(20)}
            if k == "ParamsAgent":
                a["filter"] = rng.random() < .4
            else:
                a.update(dim=rng.choice([4, 8, 15, 16]), hidden=rng.choice([2, 3, 8]), channels=rng.choice([1, 1, 1, 2, 3, 4]))
            agents.append(a)
        ops = []
        for _ in range(rng.choice([3, 6, 12])):
            ops.append({"agent": rng.randrange(len(agents)), "seed": rng.getrandbits(20),
                        "do": rng.choice(["set", "set", "act", "act", "get", "scribble", "copy", "device", "no_grad", "like"]),
                        "fail": rng.randint(1, 30) if rng.random() < .25 else 0, "rules": rng.choice([1, 4, 8])})
        for i in range(len(agents)):
            ops.append({"agent": i, "seed": 0, "do": "act", "fail": 0, "rules": 4})
        return {"agents": agents, "ops": ops, "schedule": {"choices": []}, "faults": [], "entropy": rng.getrandbits(20)}

    def make(self, s):
        from yuca.cppn import CPPN, CPPNPlus
        from yuca.params_agent import ParamsAgent
        calab.seed(s["seed"])
        kind, n = s["kind"], s["rules"]
        p = draw(s["seed"], kind, s.get("channels", 1), s.get("hidden", 4), n)
        if kind == "ParamsAgent":
            if s["how"] == "default":
                r = ParamsAgent(num_params=n, filter_params=s["filter"])
            else:
                r = ParamsAgent(**{"params" if s["how"] == "params" else "ca_params": p}, filter_params=s["filter"])
        else:
            kw = {"dim": s["dim"], "hidden_dim": s["hidden"], "external_channels": s["channels"]}
            if s["how"] == "params":
                kw["params"] = p
            elif s["how"] == "apart" and kind == "CPPNPlus":
                kw["ca_params"] = p[-n:]
            r = (CPPN if kind == "CPPN" else CPPNPlus)(**kw)
        a = Agent(s, r)
        a.given = p
        if s["how"] == "params" or s["how"] == "apart" and kind == "ParamsAgent":
            a.p = np.array(p)
        else:
            a.p = np.array(r.get_params(), dtype=np.float64)
            if s["how"] == "apart" and kind == "CPPNPlus" and not np.allclose(a.p[-n:], p[-n:]):
                raise Wrong("params", "a new agent does not have the params it was made with")
            # sharp functions leave no room for rounding
            a.set(s["seed"] + 1, n if kind == "ParamsAgent" or s["how"] == "apart" else 4)
        return a

    def main(self, w, case, out):
        agents = [self.make(s) for s in case["agents"]]
        for n, o in enumerate(case["ops"]):
            if o["agent"] >= len(agents):
                continue
            a = agents[o["agent"]]
            out["at"] = f"operation {n} ({o['do']}) on agent {o['agent']} ({a.s['kind']})"
            w.point(o["do"], o["agent"])
            if o["fail"]:
                keep = a.p
                try:
                    with Scarce(o["fail"]):
                        self.apply(agents, a, o, out)
                except Failed:
                    out["failed"] += 1
                    a.p = keep
                    self.apply(agents, a, o, out)
            else:
                self.apply(agents, a, o, out)
            for b in agents:
                b.look()

    def apply(self, agents, a, o, out):
        k = o["do"]
        if k == "set":
            n = o["rules"] if a.s["kind"] == "CPPNPlus" else len(a.p)
            a.set(o["seed"], n)
        elif k == "act":
            a.act()
            out["acts"] += 1
        elif k == "get":
            a.got = a.real.get_params()
        elif k == "scribble":
            # whoever holds params given or got before uses them for something else
            acted = a.acted if isinstance(a.acted, tuple) else (a.acted,)
            for v in (a.given, a.got, *acted):
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v += 7.0
                elif torch.is_tensor(v):
                    v += 7.0
        elif k == "device" and hasattr(a.real, "to_device"):
            a.real.to_device("cpu")
        elif k == "no_grad" and hasattr(a.real, "no_grad"):
            a.real.no_grad()
        elif k in ("copy", "like"):
            # params of one agent given to another
            for b in agents:
                if b is not a and len(b.p) == len(a.p) and b.s["kind"] == a.s["kind"] and \
                        all(b.s.get(x) == a.s.get(x) for x in ("channels", "hidden", "dim")):
                    b.real.set_params(a.real.get_params())
                    b.p = b.filtered(a.p)
                    b.given = b.got = None
                    break

    def execute(self, case):
        w = wm.World(case)
        out = {"acts": 0, "failed": 0, "at": "start"}
        viol = []

        def main():
            try:
                self.main(w, case, out)
            except Wrong as e:
                viol.append((e.sig, f"{out['at']}: {e.msg}"))
        p = w.spawn("user", lab.guarded(w, main), entropy=case["entropy"])
        w.run()
        if p.exit_code != 0:
            viol.append(("failed", f"{out['at']}: {lab.proc_error(p)}"))
        return lab.finish([w], viol, out["acts"] > 1, {"actions": out["acts"], "fault_alloc_failure": out["failed"]})


CHECKS = [N01()]
