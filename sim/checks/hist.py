"""W01: what an evaluation gives depends on its inputs only (yuca.wrappers)."""
import copy
import importlib

import numpy as np
import torch

from .. import calab, lab
from .. import world as wm
from ..runner import Check

WRAP = {"SimpleHalting": ("halting_wrapper", "SimpleHaltingWrapper"), "Halting": ("halting_wrapper", "HaltingWrapper"),
        "Glider": ("glider_wrapper", "GliderWrapper")}


class Failed(MemoryError):
    """the injected failure of an allocation"""


def gen_eval(rng):
    return {"kind": "eval", "seed": rng.getrandbits(20), "params": rng.getrandbits(20),
            "scale": rng.choice([0.0, .02, .1, .3, 1.0])}


class W01(Check):
    id = "W01"
    quick = 1500
    real = ["yuca.wrappers.halting_wrapper, yuca.wrappers.glider_wrapper", "all universe classes", "yuca.cppn, yuca.params_agent",
            "numpy, torch (training of the predictor included)"]
    stubs = ["processes: one interpreter, fresh modules and generator states for each", "time, pids, os entropy",
             "universes record the grids they make, and fail with a memory error where the case says so"]
    assumptions = ["torch and numpy compute the same result for the same input in one thread",
                   "an evaluation is reset, seeding and one step with the params (and pattern) given, as the search does it"]
    rule = "a run counts as non-trivial when at least two evaluations went through one environment"
    shrink_lists = ("ops",)
    shrink_to = {"ca_steps": [1, 2], "batch": [1], "family": ["CCA"], "fade": [None], "dropout": [0.0]}

    def generate(self, rng, tier):
        wrap = rng.choice(["SimpleHalting", "SimpleHalting", "Halting", "Glider", "Glider"])
        fam = rng.choice(["CCA", "CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn"])
        kw = {"kernel_radius": rng.choice([1, 2, 3])} if fam != "RxnDfn" else {"external_channels": 2}
        if fam == "NCA":
            kw.update(hidden_channels=rng.choice([2, 3]), dropout_rate=rng.choice([0., .2]))
        if wrap == "Halting" and fam == "CODE":
            fam = "RandomStepCA"
        if wrap == "Glider" and fam in ("RxnDfn", "NCA", "MetaCA"):
            fam = rng.choice(["CCA", "CODE", "Lenia", "RandomStepCA"])
            kw = {"kernel_radius": rng.choice([1, 2, 3])}
        if fam in ("CCA", "Lenia", "CODE", "MetaCA") and rng.random() < .4:
            kw["kernel_peaks"] = rng.choice([1, 2, 3])
        if fam == "CCA" and wrap == "SimpleHalting" and rng.random() < .25:
            ch = rng.choice([2, 3])
            kw.update(external_channels=ch, internal_channels=ch)
        if fam == "CODE" and rng.random() < .5:
            kw.update(rng.choice([{"max_dt": .4}, {"error_threshold": .01}, {"prev_dt": .05}]))
        c = {"wrapper": wrap, "family": fam, "kw": kw, "ca_steps": rng.choice([1, 2, 5, 12]) if fam != "CODE" else rng.choice([1, 3]),
             "batch": rng.choice([1, 2, 3]), "dim": rng.choice([12, 16]) if wrap != "Glider" else rng.choice([8, 12, 16]),
             "prediction": rng.choice([0, 1, 2]), "blocks": rng.choice([1, 2]), "init_seed": rng.getrandbits(20),
             "ops": [], "faults": [], "schedule": {"choices": []}, "entropy": rng.getrandbits(20)}
        if rng.random() < .2:
            c["fade"] = rng.choice([.3, .5, .7])     # a universe that dies away
        if wrap == "Halting" and rng.random() < .4:
            c["dropout"] = .5
        if rng.random() < .3 and fam != "NCA" and wrap != "SimpleHalting":
            c["config"] = rng.choice(calab.SHIPPED["plain"][:3] if fam != "RxnDfn" else calab.SHIPPED["RxnDfn"])
            c["dim"] = 16
        elif rng.random() < .2 and wrap == "Glider":
            c["log"] = rng.getrandbits(20)           # the rule of an earlier search
        for _ in range(rng.choice([1, 2, 3, 4, 6]) if wrap != "Halting" else rng.choice([1, 2, 3])):
            r = rng.random()
            if r < .55:
                c["ops"].append(gen_eval(rng))
            elif r < .75:
                c["ops"].append(dict(gen_eval(rng), kind="fail", at=rng.randint(1, 12 if wrap != "Halting" else 60)))
            elif r < .87:
                c["ops"].append(dict(gen_eval(rng), kind="other"))
            else:
                c["ops"].append({"kind": rng.choice(["device", "eval_mode", "run"]), "seed": rng.getrandbits(20)})
        c["ops"].append(gen_eval(rng))
        if rng.random() < .4:
            c["ops"].append(dict(rng.choice([o for o in c["ops"] if o["kind"] == "eval"])))
        return c

    def env(self, case, tape):
        calab.seed(case["init_seed"])
        base = calab.family_of(case["family"])

        class Recording(base):
            def forward(self, grid, *a, **k):
                if tape.get("fail") is not None:
                    tape["fail"] -= 1
                    if tape["fail"] <= 0:
                        tape["fail"] = None
                        raise Failed("cannot allocate memory")
                if not tape.get("grids") or grid is not tape.get("out"):
                    tape["start"] = (len(tape.get("grids", [])), grid.detach().clone())
                out = super().forward(grid, *a, **k)
                if case.get("fade"):
                    out = out * case["fade"]
                tape["out"] = out
                tape.setdefault("grids", []).append(out.detach().clone())
                return out
        Recording.__name__ = base.__name__
        mod, cls = WRAP[case["wrapper"]]
        W = getattr(importlib.import_module("yuca.wrappers." + mod), cls)

        class Watched(W):
            def forward(self, x):
                out = super().forward(x)
                tape["pred"] = out.detach().clone()
                tape["shown"] = x.detach().clone()
                return out
        more = {}
        if case.get("log"):
            more["input_filepath"] = "/sim/work/earlier.npy"
        return (Watched if case["wrapper"] == "Halting" else W)(
            **more, ca_fn=Recording, ca_steps=case["ca_steps"], batch_size=case["batch"], dim=case["dim"], device="cpu",
            prediction_mode=case["prediction"], num_blocks=case["blocks"], dropout=case.get("dropout", 0.0), ca_config=case.get("config"), **case["kw"])

    def evaluate(self, case, env, tape, op, p0):
        rs = np.random.RandomState(op["params"])
        params = p0 + op["scale"] * rs.randn(*p0.shape) * (np.abs(p0) if case["family"] == "RxnDfn" else 1)
        given = params.copy()
        pattern = torch.tensor(rs.rand(1, 1, case["dim"], case["dim"]) ** 2, dtype=torch.float32)
        shown = pattern.clone()
        calab.seed(op["seed"])
        env.reset()
        env.eval()
        tape["grids"] = []
        # rules are evolved along with patterns
        with torch.set_grad_enabled(case["wrapper"] == "Halting"):
            if case["wrapper"] == "Glider":
                env.ca.set_params(params)
                _, reward, _, info = env.step(pattern)
            else:
                _, reward, _, info = env.step(params)
        out = {"reward": float(torch.as_tensor(reward).detach().reshape(-1)[0]),
               "active": float(torch.as_tensor(info["active_grid"]).detach().reshape(-1)[0]),
               "params": np.array(env.ca.get_params(), dtype=np.float64)}
        if not np.array_equal(given, params) or not torch.equal(shown, pattern):
            raise AssertionError("the params or the pattern given to the environment were changed")
        want, why = self.due(case, env, tape, op, shown)
        out["due"] = want, why or self.unlike(case, env, tape, params, shown, out, info, op)
        return out

    def unlike(self, case, env, tape, params, pattern, out, info, op):
        """how the evaluation was made otherwise than described, or None"""
        n, start = tape["start"] if tape["grids"] else (0, None)
        run = tape["grids"][n:]
        if case["wrapper"] == "Halting":
            warm = getattr(env, "bigbang_steps", 8)
            if len(run) - warm - 1 != case["ca_steps"] and float(run[-2].max()) > 0:
                return f"{len(run) - warm - 1} steps of {case['ca_steps']} before the predictions were judged"
            if tuple(start.shape) != (case["batch"], env.ca.external_channels, case["dim"], case["dim"]) or not float(start.std()) > .1:
                return f"the predictor was judged on a start of shape {tuple(start.shape)}"
            # dropout is off and nothing is learned any more
            again = env.forward(tape["shown"]).detach()
            want = -float(((again > 0.5) == (self.labels(case, tape))).float().mean())
            if not np.isclose(want, out["reward"], atol=1e-4):
                return f"reward of another predictor, the one trained earns {want}"
            active = float(self.labels(case, tape).float().mean())
        else:
            active = None
            if run:
                active = np.mean([float(x.mean()) > 0 for x in run[-1]]) if case["wrapper"] == "SimpleHalting" else float(run[-1].mean())
            if start is not None and case["wrapper"] == "Glider" and not torch.equal(start, pattern):
                return "it began from another grid"
            if start is not None and case["wrapper"] == "SimpleHalting":
                h = case["dim"] // 4
                inside = start[:, :, h:-h, h:-h]
                if tuple(start.shape) != (case["batch"], env.ca.external_channels, case["dim"], case["dim"]) or \
                        not torch.isclose(inside.sum(), start.sum()) or not float(inside.std()) > .1:
                    return "it did not begin from a random patch in the middle"
        if active is not None and not np.isclose(active, out["active"], atol=1e-5, equal_nan=True):
            return f"an active grid of {active}, it says {out['active']}"
        if "params" in info and not np.array_equal(np.asarray(info["params"]), params):
            return "other params than were evaluated"
        return None

    def labels(self, case, tape):
        last, nxt = tape["grids"][-2], tape["grids"][-1]
        B = last.shape[0]
        moved = (nxt - last).abs().reshape(B, -1).max(dim=1)[0] > 0.00001
        alive = last.reshape(B, -1).max(dim=1)[0] > 0.00001
        return {0: alive[:, None], 1: moved[:, None], 2: torch.stack([alive, moved], dim=1)}[case["prediction"]]

    def due(self, case, env, tape, op, pattern):
        """the reward the recorded grids call for"""
        g = tape["grids"]
        if case["wrapper"] == "SimpleHalting":
            calab.seed(op["seed"])
            start = torch.rand(case["batch"], env.ca.external_channels, case["dim"], case["dim"])
            h = case["dim"] // 4
            m = torch.zeros_like(start)
            m[:, :, h:-h, h:-h] = 1
            last = g[-1] if g else start * m
            n = len(g)
            if n != case["ca_steps"] and float(last.mean()) > 0:
                return None, f"stopped after {n} steps"
            alive = np.mean([float(x.mean(dim=(1, 2)).mean()) > 0 for x in last])
            return -abs(0.5001 - alive), None
        if case["wrapper"] == "Halting":
            t = self.labels(case, tape)
            if tape["pred"].shape != t.shape:
                return None, f"{tuple(tape['pred'].shape)} predictions for {tuple(t.shape)} labels"
            return -float(((tape["pred"] > 0.5) == t).float().mean()), None
        # gliders: distance covered along one axis, less the growth at every step
        y = torch.arange(case["dim"]).reshape(1, -1).expand(case["dim"], -1).double() / env.ca.kernel_radius
        total, mean0, was = 0.0, float(pattern.mean()), 0.0
        span = float(y.max())
        for x in g:
            m = float(x.mean())
            at = float((y * x[0, 0].double()).sum() / (1e-6 + float(x.sum())))
            total -= abs(1 - m / (mean0 + 1e-6))
            mean0 = m
            if was != 0.0:
                total += at - was
                if was > span - 2 and at < 2:
                    total += span
            was = at
        return total, None

    def rule(self, case):
        """the rule the environment was asked for, or None"""
        calab.seed(case["init_seed"])
        ca = calab.family_of(case["family"])(**case["kw"])
        if case.get("config"):
            ca.restore_config(case["config"], verbose=False)
        elif case.get("log"):
            p = np.clip(np.random.RandomState(case["log"]).rand(*np.shape(ca.get_params())), .05, .95)
            np.save("/sim/work/earlier.npy", {"elite_params": [[p * 0 + .5], [p, p * .7]]})
            return p
        else:
            return None
        return np.array(ca.get_params(), dtype=np.float64)

    def main(self, w, case, order, out):
        rule = self.rule(case)
        tape = {}
        env = self.env(case, tape)
        ot = {}
        other = self.env(dict(case, init_seed=case["init_seed"] + 1), ot)
        p0 = np.array(env.ca.get_params(), dtype=np.float64)
        po = np.array(other.ca.get_params(), dtype=np.float64)
        if rule is not None and (rule.shape != p0.shape or not np.allclose(rule, p0, rtol=2e-6, atol=1e-8)):
            raise AssertionError(f"it begins with the params {p0[:8]}, not {rule[:8]}")
        for i in order:
            op = case["ops"][i]
            w.point(op["kind"], f"{lab.digest(np.array(env.ca.get_params()))[:8]}")
            if op["kind"] == "eval":
                out[i] = self.evaluate(case, env, tape, op, p0)
            elif op["kind"] == "fail":
                tape["fail"] = op["at"]
                try:
                    self.evaluate(case, env, tape, op, p0)
                except Failed:
                    out.setdefault("failed", []).append(i)
                tape["fail"] = None
            elif op["kind"] == "other":
                self.evaluate(case, other, ot, op, po)
            elif op["kind"] == "device":
                if case["wrapper"] != "Halting":
                    env.to_device("cpu")
            elif op["kind"] == "eval_mode":
                if case["wrapper"] != "Halting":
                    env.eval()
            elif op["kind"] == "run":
                calab.seed(op["seed"])
                with torch.no_grad():
                    x = calab.grid_for(env.ca, op["seed"], 1, case["dim"])
                    for _ in range(2):
                        x = env.ca(x)

    def execute(self, case):
        w = wm.World(case)
        viol, used, fresh = [], {}, {}
        evals = [i for i, o in enumerate(case["ops"]) if o["kind"] == "eval"]
        p = w.spawn("used", lab.guarded(w, lambda: self.main(w, case, range(len(case["ops"])), used)), entropy=case["entropy"])
        w.run()
        if p.exit_code != 0:
            viol.append(("failed", lab.proc_error(p)))
        else:
            for i in reversed(evals):
                q = lab.observe(w, lambda i=i: self.main(w, case, [i], fresh), f"fresh{i}", entropy=case["entropy"] + 10 + i)
                if q.exit_code != 0:
                    viol.append(("failed-fresh", lab.proc_error(q)))
                    break
        if not viol:
            for i in evals:
                a, b = used[i], fresh[i]
                for k in ("reward", "active", "params"):
                    d = lab.diff(a[k], b[k])
                    if d:
                        viol.append(("history", f"evaluation {i} of {case['wrapper']} on {case['family']}: {k} is "
                                     f"{a[k] if k != 'params' else d} after {i} earlier operations, {b[k] if k != 'params' else ''} in a fresh environment"))
                        break
                want, why = a["due"]
                if why or not np.isclose(a["reward"], want, rtol=2e-3, atol=2e-4 * max(1, case["ca_steps"]), equal_nan=True):
                    viol.append(("reward", f"evaluation {i} of {case['wrapper']} on {case['family']}: reward "
                                 f"{a['reward']}, the grids it went through call for {want if not why else why}"))
                if viol:
                    break
        return lab.finish([w], viol, len(case["ops"]) > 1, {"evaluations": len(evals), "fault_alloc_failure": len(used.get("failed", []))})


CHECKS = [W01()]
