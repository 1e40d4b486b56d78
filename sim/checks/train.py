"""K01, S01, A01: clones, step predictors, analyses."""
import copy
import importlib
import io
import os
import random
import re

import numpy as np
import torch

from .. import calab, lab
from .. import world as wm
from ..runner import Check
from .evo import crash_faults

STUBS = ["the file system: in-memory, journalled", "time, pids, os entropy", "processes: one interpreter, fresh "
         "modules and generator states for each"]
DISK = ["the file system journals metadata in order: renames are atomic, data that was not fsynced may be lost or torn "
        "at a power failure", "torch and numpy compute the same result for the same input in one thread"]
LOGS = os.path.join(wm.ROOT, "logs")
MODELS = os.path.join(wm.ROOT, "models")


def load_state(data):
    """tensors of a checkpoint; raises when it is not complete"""
    d = torch.load(io.BytesIO(data))
    return {k: v.detach().clone() for k, v in d.items()}


def same_state(a, b, tol=0.0):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and torch.allclose(a[k], b[k], rtol=tol, atol=tol) for k in a)


def gen_faults(rng, c, paths, n=40):
    crash_faults(rng, c, paths)
    for f in c["faults"]:
        f["scope"] = "proc"
        f["proc"] = "prog"
        if f["at"] > 8:
            f["at"] = rng.randint(1, n)
    for _ in range(rng.choice([0, 0, 1])):
        c["faults"].append({"kind": rng.choice(["jump", "stall"]), "at": rng.randint(1, 10), "secs": rng.choice([.5, 40., 5000.]),
                            "proc": "prog"})


def power(w, case, viol, stats):
    """crash -> power failure, when the case says so"""
    if case.get("power") and w.stats.get("crash"):
        w.fs.power_fail(random.Random(case["power_seed"]))
        w.stats["fault_power_failure"] += 1
        return True
    return False


def hard(w):
    return [f for f in w.faults if f["fired"] and f["kind"] in ("crash", "crash_after", "torn", "enospc", "eio")]


# ------------------------------------------------------------------ K01
CLONED = ["orbium.npy", "conway_life.npy", "morley.npy", "smoothlife.npy", "scutium_gravidus.npy", "p_sinus_labens.npy"]


def law(ca, update):
    """what a universe does to one grid: tells universes apart"""
    g = torch.tensor(np.random.RandomState(7).rand(1, ca.external_channels, 16, 16), dtype=torch.float32)
    with torch.no_grad():
        return update(ca, g).numpy().copy()


class K01(Check):
    id = "K01"
    quick = 1200
    real = ["yuca.clone", "yuca.ca.neural, yuca.ca.continuous", "yuca.utils (saving)", "torch training and checkpoints"]
    stubs = STUBS
    assumptions = DISK + ["the state 'at' a training step is the one before or the one after its optimizer step"]
    rule = "a run counts as non-trivial when training took two or more steps, or a fault fired"
    shrink_to = {"train_steps": [1, 2, 3], "max_iterations": [1, 2], "hidden": [2], "old": [False], "readers": [0], "as": [None]}

    def generate(self, rng, tier):
        cfgs = rng.sample(CLONED, rng.choice([1, 1, 2, 3]))
        many = len(cfgs) > 1
        c = {"configs": cfgs, "hidden": rng.choice([2, 3, 5, 8]), "max_hidden": rng.choice([4, 9, 2048, 2048]),
             "max_iterations": rng.choice([1, 2, 3]) if not many else rng.choice([1, 2]),
             "train_steps": rng.choice([1, 2, 3, 5, 8]) if not many else rng.choice([1, 2, 4]), "batch": rng.choice([1, 2]),
             "lr": rng.choice([1e-3, 1e-2, .3, 5.0]), "threshold": rng.choice([1e-3, 1e-3, 1.0, 2.0, 50.0]),
             "name": "x_ca_config_nca.pt" if many else rng.choice(["c.pt", "ca_config.pt", "default_nca.pt", "n_ca_config_ca_config.pt"]),
             "given": rng.choice(["name", "path", "list"]) if not many else "list",
             "old": rng.random() < .5, "readers": rng.choice([0, 0, 2]), "verbose": rng.random() < .3,
             # universes of the user's own, in files of any name
             "as": rng.sample(["x.1.npy", "x.2.npy", "x.npy", "a b.npy"], len(cfgs)) if rng.random() < .3 else None,
             "edges": rng.choice(["circular", "zeros"]),
             "entropy": rng.getrandbits(20), "t0": 1_600_000_000 + rng.random() * 1e6, "faults": [],
             "schedule": lab.schedule(rng, ["prog", "reader0"])}
        if rng.random() < .6:
            gen_faults(rng, c, ["/logs", "/logs", "/logs"], 20)
        elif rng.random() < .5:
            c["again"] = True
        return c

    def names(self, case):
        return {cfg: os.path.join(LOGS, case["name"].replace("ca_config", a[:-4]))
                for cfg, a in zip(case["configs"], case.get("as") or case["configs"])}

    def given(self, case):
        if case.get("as"):
            return [os.path.join("/sim/work", a) for a in case["as"]]
        return list(case["configs"])

    def prepare(self, w, case):
        lab.mkdir(w, LOGS)
        if case.get("as"):
            with w.host():
                for cfg, p in zip(case["configs"], self.given(case)):
                    d = np.load(os.path.join(wm.ROOT, "ca_configs", cfg), allow_pickle=True).reshape(1)[0]
                    if case.get("edges") == "zeros":
                        d["instant_kwargs"] = dict(d.get("instant_kwargs", {}), conv_mode="zeros")
                    np.save(p, d)
            w.fs.commit()

    def program(self, w, case, rec):
        def main():
            clone = importlib.import_module("yuca.clone")
            cont = importlib.import_module("yuca.ca.continuous")
            neural = importlib.import_module("yuca.ca.neural")
            last = {}
            runs = {}
            plain = cont.CCA.update_helper
            learn = neural.NCA.update_helper

            def target(ca, grid, *a, **k):
                out = plain(ca, grid, *a, **k)
                last["target"] = out.detach().clone() if torch.is_tensor(out) else out
                last["law"] = law(ca, plain)
                with torch.no_grad():
                    last["seen"] = [ca.neighborhood_conv(grid).numpy().copy(), ca.id_conv(grid).numpy().copy()]
                return out

            def predict(nca, grid, *a, **k):
                pre = copy.deepcopy(nca.state_dict())
                out = learn(nca, grid, *a, **k)
                for e in rec[-1:]:
                    if e["nca"] is nca and e["post"] is None:
                        e["post"] = pre
                w.point("train", "step")
                t = last["target"]
                with torch.no_grad():
                    seen = [nca.neighborhood_conv(grid).numpy().copy(), nca.id_conv(grid).numpy().copy()]
                rec.append({"nca": nca, "pre": pre, "post": None, "law": last["law"],
                            "senses": all(np.allclose(a, b, atol=1e-5) for a, b in zip(seen, last["seen"])),
                            "error": float(((out.detach() - t).abs() / (t.abs() + 1e-9)).mean())})
                return out

            cont.CCA.update_helper, neural.NCA.update_helper = target, predict
            cfg = self.given(case)
            if case["given"] == "path":
                cfg = os.path.join(wm.ROOT, "ca_configs", cfg[0])
            elif case["given"] == "name":
                cfg = cfg[0]
            clone.clone_from_ca(ca_config=cfg, max_steps=case["train_steps"], max_iterations=case["max_iterations"],
                                hidden_channels=case["hidden"], max_hidden_channels=case["max_hidden"],
                                batch_size=case["batch"], learning_rate=case["lr"],
                                error_threshold=case["threshold"], save_name=case["name"], verbose=case["verbose"])
            for i, e in enumerate(rec):
                if e["post"] is None:
                    e["post"] = copy.deepcopy(e["nca"].state_dict())
        return main

    def execute(self, case):
        w = wm.World(case)
        self.prepare(w, case)
        viol, rec, reads = [], [], []
        paths = self.names(case)
        old = {}
        if case["old"]:
            with w.host():
                for p in paths.values():
                    b = io.BytesIO()
                    torch.save({"old": torch.zeros(3)}, b)
                    with open(p, "wb") as f:
                        f.write(b.getvalue())
                    old[p] = b.getvalue()
            w.fs.commit()

        def inspect(when, durable=True):
            for p in paths.values():
                b = lab.find_files(w, LOGS, ".pt").get(p)
                if b is None:
                    if p in old:
                        viol.append(("lost", f"{when}: the checkpoint that was there before is gone"))
                    continue
                try:
                    load_state(b)
                except Exception as e:
                    viol.append(("torn", f"{when}: checkpoint {os.path.basename(p)} is not loadable: {type(e).__name__}: "
                                 f"{str(e)[:80]}"))
                    return

        key = [None]

        def watcher():
            if viol:
                return
            k = tuple((p, n.ino, len(n.data)) for p, n in w.fs.nodes.items()
                      if n is not None and not n.is_dir and p.endswith(".pt"))
            if k != key[0]:
                key[0] = k
                inspect("while cloning")

        w.watch.append(watcher)

        def reader():
            import time
            for _ in range(4):
                for p in paths.values():
                    try:
                        with open(p, "rb") as f:
                            load_state(f.read())
                        reads.append(p)
                    except FileNotFoundError:
                        pass
                    except Exception as e:
                        viol.append(("reader", f"a reader found an incomplete checkpoint: {type(e).__name__}"))
                        return
                time.sleep(.01)

        prog = w.spawn("prog", lab.guarded(w, self.program(w, case, rec)), entropy=case["entropy"])
        for i in range(case["readers"]):
            w.spawn(f"reader{i}", lab.guarded(w, reader), entropy=50 + i)
        w.run()
        if w.deadlock or w.over_budget:
            viol.append(("stuck", str(w.deadlock)))
        fired = hard(w)
        if prog.exit_code != 0 and not fired:
            viol.append(("failed", lab.proc_error(prog)))
        if not viol:
            inspect("at the end")
        if not viol and prog.exit_code == 0:
            self.fidelity(w, case, rec, paths, viol)
        if not viol and case.get("again") and prog.exit_code == 0:
            first = {p: load_state(b) for p, b in lab.find_files(w, LOGS, ".pt").items()}
            w2 = wm.World(dict(case, t0=case["t0"] + 12345.6, faults=[], schedule={"choices": []}))
            self.prepare(w2, case)
            p2 = lab.observe(w2, self.program(w2, case, []), "prog", entropy=case["entropy"] + 99)
            second = lab.find_files(w2, LOGS, ".pt")
            if p2.exit_code != 0:
                viol.append(("failed", lab.proc_error(p2)))
            elif any(p not in second or not same_state(first[p], load_state(second[p])) for p in paths.values()):
                viol.append(("not-reproducible", "cloning the same universes again gives other clones"))
        if not viol and power(w, case, viol, w.stats):
            inspect("after a power failure")
        return lab.finish([w], viol, len(rec) > 1 or bool(fired), {"steps_trained": len(rec), "reads": len(reads)})

    def fidelity(self, w, case, rec, paths, viol):
        # training steps of each universe, in the order given
        groups = []
        for e in rec:
            if not groups or not np.array_equal(groups[-1][0]["law"], e["law"]):
                groups.append([])
            groups[-1].append(e)
        if len(groups) != len(case["configs"]):
            viol.append(("universes", f"{len(groups)} universes were cloned, {len(case['configs'])} were given"))
            return
        want = []

        def truth():
            cont = importlib.import_module("yuca.ca.continuous")
            for cfg in self.given(case):
                ca = cont.CCA()
                ca.restore_config(cfg, verbose=False)
                want.append((law(ca, cont.CCA.update_helper), {k: v.clone() for k, v in ca.state_dict().items()
                                                               if k in ("id_layer.weight", "neighborhood_layer.weight")}))
        lab.observe(w, truth, "truth")
        files = lab.find_files(w, LOGS, ".pt")
        for cfg, evs, (rule, senses) in zip(case["configs"], groups, want):
            if not np.allclose(rule, evs[0]["law"], atol=1e-6):
                viol.append(("other-universe", f"the clone of {cfg} was trained on another universe"))
                return
            b = files.get(paths[cfg])
            if b is None:
                viol.append(("no-checkpoint", f"no checkpoint {os.path.basename(paths[cfg])} for {cfg}"))
                return
            try:
                got = load_state(b)
            except Exception as e:
                viol.append(("no-checkpoint", f"{os.path.basename(paths[cfg])} holds no clone: {type(e).__name__}"))
                return
            if any(k not in got or got[k].shape != v.shape or not torch.allclose(got[k], v, atol=1e-6) for k, v in senses.items()) \
                    or not all(e["senses"] for e in evs):
                viol.append(("senses", f"the clone of {cfg} sees other neighborhoods than the universe"))
                return
            sizes = []
            for e in evs:
                if not sizes or sizes[-1][0] is not e["nca"]:
                    sizes.append((e["nca"], e["pre"]["weights_layer.0.weight"].shape[0]))
            sizes = [n for _, n in sizes]
            if sizes[0] != case["hidden"] or any(n > case["max_hidden"] for n in sizes[1:]) or len(sizes) > case["max_iterations"]:
                viol.append(("size", f"cloning {cfg} tried networks of {sizes} hidden channels, asked for {case['hidden']} "
                             f"up to {case['max_hidden']} in {case['max_iterations']}"))
                return
            errs = np.array([e["error"] for e in evs])
            if np.isnan(errs).all():
                continue
            best = np.nanmin(errs)
            near = [e for e in evs if e["error"] <= best * (1 + 1e-5)]
            if not any(same_state(got, s) for e in near for s in (e["pre"], e["post"])):
                at = [i for i, e in enumerate(evs) if same_state(got, e["pre"]) or same_state(got, e["post"])]
                viol.append(("not-the-best", f"the checkpoint of {cfg} is the clone of step {at or 'none'} of {len(evs)}, the "
                             f"lowest error was at step {int(np.nanargmin(errs))}"))
                return


# ------------------------------------------------------------------ S01
class S01(Check):
    id = "S01"
    quick = 2000
    real = ["yuca.step_predictor", "yuca.utils (saving)", "torch training, data loaders (in the main process) and checkpoints"]
    stubs = STUBS
    assumptions = DISK + ["two predictors of the same kind and seed are not created in the same millisecond of the same "
                          "1000 seconds: they would share a name", "data loaders use no worker processes"]
    rule = "a run counts as non-trivial when at least one checkpoint was due, or a fault fired"
    shrink_to = {"epochs": [1, 2], "procs": [1], "repeats": [1], "fits": [1], "n": [4]}

    def generate(self, rng, tier):
        c = {"epochs": rng.choice([1, 2, 3, 5, 12]), "procs": rng.choice([1, 1, 2]), "repeats": rng.choice([1, 1, 2, 3, 4]),
             "radius": rng.choice([1, 2]), "hidden": rng.choice([1, 3]), "dropout": rng.choice([0., 0., .1, .5]),
             "disp": rng.choice([None, 1, 2, 5]), "lr": rng.choice([3e-4, .05]), "fits": rng.choice([1, 1, 2]),
             "n": rng.choice([4, 7, 10]), "batch": rng.choice([2, 3, 10]), "shuffle": rng.random() < .5,
             "data_seed": rng.getrandbits(20), "seed": rng.choice([0, 13, 42]), "tag": rng.choice(["none", "gem", "a b"]),
             "final": rng.random() < .5, "entropy": rng.getrandbits(20), "t0": 1_600_000_000 + rng.random() * 1e6,
             "faults": [], "schedule": lab.schedule(rng, ["prog0", "prog1"])}
        r = rng.random()
        if r < .5:
            gen_faults(rng, c, ["/logs", "/models", ".npy", "_model.pt"], 40)
        elif r < .75:
            c["procs"], c["again"] = 1, True
        return c

    def loaders(self, case):
        g = torch.Generator().manual_seed(case["data_seed"])
        out = []
        for k, n in enumerate((case["n"], max(2, case["n"] // 2), 3)):
            x = torch.rand(n, 1, 7, 7, generator=g)
            y = torch.clamp(x.roll(1, -1) * .7 + .1, 0, 1)
            out.append(torch.utils.data.DataLoader(torch.utils.data.TensorDataset(x, y), batch_size=case["batch"],
                                                   shuffle=case["shuffle"] and k == 0))
        return out

    def model(self, case, i):
        sp = importlib.import_module("yuca.step_predictor")
        return sp.StepPredictor(layer_repeats=case["repeats"], kernel_radius=case["radius"], hidden_channels=case["hidden"],
                                dropout=case["dropout"], seed=case["seed"] + i, tag=case["tag"], device="cpu")

    def program(self, w, case, i, out):
        def main():
            m = self.model(case, i)
            out["tag"] = m.exp_tag
            out["init"] = {k: v.detach().clone() for k, v in m.state_dict().items()}
            m.register_forward_pre_hook(lambda m, x: out.setdefault("modes", set()).add((torch.is_grad_enabled(), m.training)))
            tr, va, te = self.loaders(case)
            kw = {"disp_every": case["disp"]} if case["disp"] else {}
            for _ in range(case["fits"]):
                m.fit(tr, val_dataloader=va, max_epochs=case["epochs"], lr=case["lr"], **kw)
                out["fits"] = out.get("fits", 0) + 1
                b = lab.find_files(w, LOGS, ".npy").get(os.path.join(LOGS, m.exp_tag + ".npy"))
                out.setdefault("val", []).append(lab.read_obj(b)["val_loss"] if b is not None else [])
                out["state"] = {k: v.detach().clone() for k, v in m.state_dict().items()}
            if case["final"]:
                out["losses"] = [m.evaluate(x) for x in (tr, va, te)]
                m.end_evaluate(tr, va, te)
                out["final"] = True
        return main

    def trained(self, case, init):
        """where training leads from the first state when no random numbers are
        involved: the last state and the losses on the way"""
        p = {k: v.clone().requires_grad_() for k, v in init.items()}
        layers = range((case["repeats"] + 1) // 2)
        used = [k for k in p if any(k.startswith(f"layer{j}_") for j in layers)]
        conv = torch.nn.functional.conv2d

        def net(x):
            for j in layers:
                h = torch.relu(conv(x, p[f"layer{j}_param0"], p[f"layer{j}_param1"], padding=case["radius"]))
                x = x + torch.sigmoid(conv(h, p[f"layer{j}_1x1_param0"], p[f"layer{j}_1x1_param1"]))
            return x
        batches = list(self.loaders(case)[0])
        for _ in range(case["fits"]):
            opt = torch.optim.Adam([p[k] for k in used], lr=case["lr"])
            losses = []
            for _ in range(case["epochs"]):
                for x, y in batches:
                    loss = ((net(x) - y) ** 2).mean()
                    opt.zero_grad()
                    loss.backward()
                    opt.step()
                    losses.append(loss.item())
        return {k: v.detach() for k, v in p.items()}, losses

    def one_apart(self, case, i, losses, loss):
        """log and model are saved one after the other: when cut off they may be
        one save apart, compared with the same training undisturbed"""
        full = {}
        w = wm.World(dict(case, faults=[], schedule={"choices": []}))
        self.prepare(w)
        q = lab.observe(w, self.program(w, case, i, full), f"prog{i}", entropy=case["entropy"] + i)
        if q.exit_code != 0:
            raise RuntimeError(q.tb)
        logs, models, n = {0} if not losses else set(), set(), 0
        for vals in full["val"]:
            if losses and len(losses) <= len(vals) and np.allclose(losses, vals[:len(losses)], rtol=1e-5):
                logs.add(n + len(losses))
            models |= {n + j + 1 for j, v in enumerate(vals) if np.isclose(v, loss, rtol=1e-5)}
            n += len(vals)
        return any(abs(a - b) <= 1 for a in logs for b in models)

    def prepare(self, w):
        lab.mkdir(w, LOGS)
        lab.mkdir(w, MODELS)

    def check_training(self, case, o, log, viol):
        if o["modes"] & {(True, False), (False, True)}:
            viol.append(("mode", "the network was trained as for evaluation, or evaluated as for training"))
        elif not case["dropout"] and not case["shuffle"]:
            want, losses = self.trained(case, o["init"])
            off = max(float((want[k] - o["state"][k]).abs().mean()) for k in want)
            move = max(float((want[k] - o["init"][k]).abs().mean()) for k in want)
            if not off <= 1e-5 + .02 * move:
                viol.append(("training", f"the trained network is {off:.3g} from where training leads, {move:.3g} from the first"))
            smooth = lab.read_obj(log)["train_smooth_loss"]
            for a, b, c in zip([losses[0]] + list(smooth), smooth, losses):
                if not min(a, c) - 1e-3 * abs(c) <= b <= max(a, c) + 1e-3 * abs(c):
                    viol.append(("smooth", f"the log's smooth loss goes from {a:.6g} to {b:.6g} with a loss of {c:.6g}"))
                    break

    def check_progress(self, d, case, when, viol):
        n = len(d["val_loss"])
        if not (n == len(d["epochs"]) == len(d["wall_time_v"]) and n >= 1):
            viol.append(("log", f"{when}: the log has {n} losses for {len(d['epochs'])} epochs"))
        elif len(d["train_smooth_loss"]) != len(d["wall_time_t"]) or \
                len(d["train_smooth_loss"]) != (d["epochs"][-1] + 1) * -(-case["n"] // case["batch"]):
            viol.append(("log", f"{when}: {len(d['train_smooth_loss'])} training losses by epoch {d['epochs'][-1]}"))

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, LOGS)
        lab.mkdir(w, MODELS)
        viol = []
        outs = [{} for _ in range(case["procs"])]
        before = set(lab.find_files(w, LOGS, "")) | set(lab.find_files(w, MODELS, ""))

        def mine(top, suffix):
            return {p: b for p, b in lab.find_files(w, top, suffix).items()
                    if p not in before and not os.path.basename(p).startswith(".")}

        def inspect(when, last=None):
            for p, b in mine(LOGS, ".npy").items():
                try:
                    self.check_progress(lab.read_obj(b), case, when, viol)
                except Exception as e:
                    viol.append(("log-torn", f"{when}: the training log is not loadable: {type(e).__name__}: {str(e)[:80]}"))
            for p, b in mine(MODELS, ".pt").items():
                try:
                    load_state(b)
                except Exception as e:
                    viol.append(("model-torn", f"{when}: the model is not loadable: {type(e).__name__}: {str(e)[:80]}"))

        key = [None]

        def watcher():
            if viol:
                return
            k = tuple((p, n.ino, len(n.data)) for p, n in w.fs.nodes.items()
                      if n is not None and not n.is_dir and p.endswith((".pt", ".npy")))
            if k != key[0]:
                key[0] = k
                inspect("while training")
        w.watch.append(watcher)
        ps = [w.spawn(f"prog{i}", lab.guarded(w, self.program(w, case, i, outs[i])), entropy=case["entropy"] + i)
              for i in range(case["procs"])]
        w.run()
        fired = hard(w)
        if w.deadlock or w.over_budget:
            viol.append(("stuck", str(w.deadlock)))
        for p in ps:
            if p.exit_code != 0 and not fired:
                viol.append(("failed", lab.proc_error(p)))
                break
        if not viol:
            inspect("at the end")
        every = case["disp"] or max(1, case["epochs"] // 10)
        due = [e for e in range(case["epochs"]) if e % every == 0 or e == case["epochs"] - 1]
        for i, (p, o) in enumerate(zip(ps, outs)):
            if viol or "tag" not in o:
                continue
            log = mine(LOGS, ".npy").get(os.path.join(LOGS, o["tag"] + ".npy"))
            mod = mine(MODELS, ".pt").get(os.path.join(MODELS, o["tag"] + "_model.pt"))
            if p.exit_code == 0:
                if log is None or mod is None:
                    viol.append(("missing", f"training ended without its {'log' if log is None else 'model'}"))
                    continue
                if lab.read_obj(log)["epochs"] != due:
                    viol.append(("epochs", f"epochs {lab.read_obj(log)['epochs']} are in the log, expected {due}"))
                if not same_state(load_state(mod), o["state"]):
                    viol.append(("stale-model", "the model saved is not the one that was trained"))
                self.check_training(case, o, log, viol)
            if mod is not None and not viol:
                got = []

                def check(i=i, mod=mod):
                    m = self.model(case, i)
                    m.load_state_dict(load_state(mod))
                    got.append([m.evaluate(x) for x in self.loaders(case)])
                q = lab.observe(w, check, f"check{i}")
                if q.exit_code != 0:
                    viol.append(("model-unusable", lab.proc_error(q)))
                    continue
                losses = lab.read_obj(log)["val_loss"] if log is not None else []
                if p.exit_code == 0:
                    if not np.isclose(got[0][1], losses[-1], rtol=1e-5):
                        viol.append(("loss", f"the model saved has validation loss {got[0][1]:.6g}, the log says {losses[-1]:.6g}"))
                elif not self.one_apart(case, i, losses, got[0][1]):
                    viol.append(("loss", f"after a crash the model saved has validation loss {got[0][1]:.6g}, the log {losses}"))
                if p.exit_code == 0 and case["final"] and not viol:
                    txt = lab.find_files(w, LOGS, ".txt").get(os.path.join(LOGS, o["tag"] + "_final.txt"))
                    if txt is None:
                        viol.append(("no-final", "the final losses were not saved"))
                    else:
                        nums = [float(x) for x in re.findall(r"loss: ([-+.\deE]+|nan|inf)", txt.decode())]
                        if len(nums) != 3 or not np.allclose(nums, got[0], rtol=1e-4) or not np.allclose(o["losses"], got[0], rtol=1e-4):
                            viol.append(("final", f"final losses {nums}, the model gives {got[0]}"))
        if not viol and case.get("again") and ps[0].exit_code == 0:
            # some other day, in another process
            o2, files = {}, dict(mine(LOGS, ""), **mine(MODELS, ""))
            w.now += 54321.6
            q = lab.observe(w, self.program(w, case, 0, o2), "again", entropy=case["entropy"] + 77)
            now = dict(mine(LOGS, ""), **mine(MODELS, ""))
            if q.exit_code != 0:
                viol.append(("failed", lab.proc_error(q)))
            elif not same_state(o2["state"], outs[0]["state"]):
                viol.append(("not-reproducible", "the same seed and data train another model"))
            elif any(now.get(p) != b for p, b in files.items()) or len(now) != 2 * len(files):
                viol.append(("overwritten", "training again replaced the files of the first training"))
        if not viol and power(w, case, viol, w.stats):
            inspect("after a power failure")
        return lab.finish([w], viol, bool(due) or bool(fired), {"epochs": sum(o.get("fits", 0) for o in outs) * case["epochs"]})


# ------------------------------------------------------------------ A01
SHIPPED = ["orbium.npy", "conway_life.npy", "morley.npy", "smoothlife.npy", "scutium_gravidus.npy"]


class A01(Check):
    id = "A01"
    quick = 280
    real = ["yuca.analyze (Phanes)", "yuca.ca.continuous", "yuca.utils (saving)", "yuca.cppn"]
    stubs = STUBS + ["the random state is set from the run's seed before each universe is analysed"]
    assumptions = DISK + ["configs of continuous universes with one channel; other files in the directory do not end in .npy"]
    rule = "a run counts as non-trivial when two or more configs were analysed, or a fault fired"
    shrink_to = {"steps": [1, 2], "batch": [1], "readers": [0], "procs": [1], "cppn": [False], "other": [[]]}
    shrink_lists = ("configs",)

    def generate(self, rng, tier):
        cfgs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            if rng.random() < .35:
                cfgs.append({"shipped": rng.choice(SHIPPED)})
            else:
                c = calab.gen_config(rng, "CCA")
                c["neighborhood_kernel_config"]["radius"] = min(2, c["neighborhood_kernel_config"]["radius"])
                cfgs.append({"literal": c})
        big = any("shipped" in c for c in cfgs)
        c = {"configs": cfgs, "names": rng.sample(["a.npy", "b.npy", "zz.npy", "orb.ium.npy", "a b.npy", "0.npy"], len(cfgs)),
             "steps": rng.choice([1, 2, 4]), "batch": rng.choice([1, 2]) if not big else 1, "dim": 16 if big else rng.choice([8, 12]),
             "cppn": rng.random() < .2, "where": rng.choice(["/sim/work/cfg", "cfg", "cfg/", "./deep/cfg", "/sim/work/deep/cfg/"]),
             "other": rng.sample(["notes.txt", "x.npy.bak", "sub"], rng.choice([0, 1, 3])), "old": rng.random() < .3,
             "readers": rng.choice([0, 0, 1]), "procs": rng.choice([1, 1, 1, 2]), "seed": rng.getrandbits(20),
             "list_seed": rng.getrandbits(20), "entropy": rng.getrandbits(20), "t0": 1_600_000_000 + rng.random() * 1e6,
             "faults": [], "schedule": lab.schedule(rng, ["prog0", "prog1"])}
        if c["cppn"]:
            c["dim"] = max(c["dim"], 12)
        if c["steps"] > 2 and big:
            c["steps"] = 2
        if rng.random() < .2:
            # patterns that die or spread one after the other
            cfgs[:] = [{"shipped": rng.choice(SHIPPED[1:3])} if rng.random() < .5 else
                       {"literal": dict(calab.gen_config(rng, "CCA"))} for _ in cfgs[:2]]
            c["names"] = c["names"][:len(cfgs)]
            for k in cfgs:
                if "literal" in k:
                    k["literal"]["neighborhood_kernel_config"]["radius"] = 1
            c.update(dim=8, batch=rng.choice([4, 6]), steps=rng.choice([3, 5, 7]), cppn=False, procs=1)
        if rng.random() < .5:
            gen_faults(rng, c, ["ca_analysis", "ca_analysis", ""], 20)
        return c

    def config(self, c):
        if "literal" in c:
            return calab.native(c["literal"])
        with open(os.path.join(wm.ROOT, "ca_configs", c["shipped"]), "rb") as f:
            return np.load(f, allow_pickle=True).reshape(1)[0]

    def phanes(self, case):
        an = importlib.import_module("yuca.analyze")

        class Seeded(an.Phanes):
            def analyze_universe(self):
                calab.seed(case["seed"])
                return super().analyze_universe()
        return Seeded(ca_steps=case["steps"], batch_size=case["batch"], dim=case["dim"], device="cpu",
                      use_cppn=int(case["cppn"]), input_directory=case["where"])

    def reference(self, case, cfg):
        """the measures, from their description"""
        cont = importlib.import_module("yuca.ca.continuous")
        ca = cont.CCA()
        ca.load_config(self.config(cfg))
        ca.no_grad()
        calab.seed(case["seed"])
        B, D = case["batch"], case["dim"]
        b = D // 2
        grid = torch.zeros(B, 1, D, D)
        if case["cppn"]:
            cppn = importlib.import_module("yuca.cppn")
            for i in range(B):
                grid[i] = cppn.CPPN(dim=D).get_action()
                for s in (slice(None, b // 2), slice(D - b // 2, None)):
                    grid[:, :, s, :] *= 0
                    grid[:, :, :, s] *= 0
        else:
            grid[:, :, b // 2:-(b // 2), b // 2:-(b // 2)] = torch.rand(B, 1, b, b)
        win = 2 * ca.kernel_radius + 1
        out = {"step": [], "mortality_ratio": [], "fertility_ratio": [], "entropy_mean": [], "entropy_std_dev": [],
               "autocorrelation": [], "last_step": [-1] * B}
        old = grid.clone()
        for step in range(case["steps"]):
            grid = ca(grid)
            alive = [bool(grid[i].mean() > 0) for i in range(B)]
            g = grid.numpy()
            out["mortality_ratio"].append(1 - np.mean(alive))
            edge = [max(np.abs(g[i, :, 0]).max(), np.abs(g[i, :, -1]).max(), np.abs(g[i, :, :, 0]).max(),
                        np.abs(g[i, :, :, -1]).max()) > 0 for i in range(B)]
            out["fertility_ratio"].append(np.mean(edge))
            for i in range(B):
                if not alive[i] and out["last_step"][i] == -1:
                    out["last_step"][i] = step
            n = [(1e-7 + x - x.mean()) / (1e-7 + x.std()) for x in (grid, old)]
            ac = float((n[0] * n[1]).sum()) / g.size
            out["autocorrelation"].append(ac)
            old = grid.clone()
            hs = []
            h = ca.kernel_radius
            for i in range(B):
                pad = np.pad(g[i, 0], h, mode="wrap")
                for x in range(D):
                    for y in range(D):
                        p = pad[x:x + win, y:y + win]
                        q = np.uint8(255 * ((p - p.min()) / ((p - p.min()).max() + 1e-9)))
                        f = np.bincount(q.ravel(), minlength=256) / q.size
                        hs.append(-np.sum(f * np.log2(1e-9 + f)))
            out["entropy_mean"].append(np.mean(hs))
            out["entropy_std_dev"].append(np.std(hs))
            out["step"].append(step)
            if float(grid.mean()) == 0.0:
                break
        return out

    def compare(self, got, want, name, case):
        for k in ("step", "mortality_ratio", "fertility_ratio", "last_step"):
            a, b = np.asarray(got[k], dtype=float).ravel(), np.asarray(want[k], dtype=float).ravel()
            if a.shape != b.shape or not np.allclose(a, b, atol=1e-5):
                return f"{k} of {name} is {a.tolist()}, the universe gives {b.tolist()}"
        for k, tol in (("entropy_mean", 5e-2), ("entropy_std_dev", 5e-2), ("autocorrelation", 2e-3)):
            a = np.array([np.ravel(x)[0] for x in got[k]], dtype=float)
            b = np.array(want[k], dtype=float)
            if a.shape != b.shape or not np.allclose(a, b, atol=tol, rtol=tol, equal_nan=True):
                return f"{k} of {name} is {a.tolist()}, the universe gives {b.tolist()}"
        if got.get("name") != name or int(got.get("max_ca_steps", -1)) != case["steps"] or bool(got.get("use_cppn")) != case["cppn"]:
            return f"the analysis of {name} describes {got.get('name')}, {got.get('max_ca_steps')} steps"
        return None

    def execute(self, case):
        w = wm.World(case)
        viol = []
        where = os.path.normpath(os.path.join("/sim/work", case["where"]))
        target = os.path.join(os.path.dirname(where), "ca_analysis")
        lab.mkdir(w, where)
        cfgs = list(zip(case["names"], case["configs"]))

        def setup():
            for n, c in cfgs:
                np.save(os.path.join(where, n), self.config(c))
            for o in case["other"]:
                if o == "sub":
                    os.makedirs(os.path.join(where, o))
                else:
                    with open(os.path.join(where, o), "w") as f:
                        f.write("not a config")
            if case["old"]:
                os.makedirs(target)
                n = cfgs[0][0]
                np.save(self.saved(target, n, case), {"old": 1})
        p = w.spawn("setup", lab.guarded(w, setup), entropy=5)
        p.quiet_faults = True
        w.run()
        if p.exit_code != 0:
            raise RuntimeError(p.tb)
        w.fs.commit()
        inputs = dict(lab.find_files(w, where, ""))
        key, high = [None], set()

        def analyses():
            return {q: b for q, b in lab.find_files(w, "/sim/work", "_analysis.npy").items()
                    if not os.path.basename(q).startswith(".")}

        def inspect(when):
            for q, b in analyses().items():
                try:
                    lab.read_obj(b)
                    high.add(q)
                except Exception as e:
                    viol.append(("torn", f"{when}: {os.path.basename(q)} is not loadable: {type(e).__name__}: {str(e)[:80]}"))
                    return
            for q in high:
                if q not in analyses():
                    viol.append(("lost", f"{when}: the analysis {os.path.basename(q)} disappeared"))
                    return

        def watcher():
            if viol:
                return
            k = tuple((q, n.ino, len(n.data)) for q, n in w.fs.nodes.items()
                      if n is not None and not n.is_dir and q.endswith("_analysis.npy"))
            if k != key[0]:
                key[0] = k
                inspect("while analysing")
        w.watch.append(watcher)

        def prog():
            self.phanes(case).analyze_multiverse()
        ps = [w.spawn(f"prog{i}", lab.guarded(w, prog), entropy=case["entropy"] + i) for i in range(case["procs"])]
        w.run()
        fired = hard(w)
        if w.deadlock or w.over_budget:
            viol.append(("stuck", str(w.deadlock)))
        for q in ps:
            if q.exit_code != 0 and not fired:
                viol.append(("failed", lab.proc_error(q)))
                break
        if not viol:
            inspect("at the end")
        if not viol and {q: b for q, b in lab.find_files(w, where, "").items() if q in inputs} != inputs:
            viol.append(("inputs", "analysing changed the directory of configs"))
        if not viol:
            got = analyses()
            if any(q.exit_code == 0 for q in ps):
                missing = [n for n, _ in cfgs if self.saved(target, n, case) not in got]
                if missing or len(got) != len(cfgs):
                    viol.append(("missing", f"analyses {sorted(map(os.path.basename, got))} for configs {case['names']} "
                                 f"(expected in {target})"))
            want = {}

            def ref():
                for n, c in cfgs:
                    want[n] = self.reference(case, c)
            if not viol:
                q = lab.observe(w, ref, "reference")
                if q.exit_code != 0:
                    raise RuntimeError(q.tb)
                for n, c in cfgs:
                    b = got.get(self.saved(target, n, case))
                    d = lab.read_obj(b) if b is not None else None
                    if d is None or "old" in d and not any(q.exit_code == 0 for q in ps):
                        continue
                    e = self.compare(d, want[n], n, case) if "old" not in d else f"the analysis of {n} was not written"
                    if e:
                        viol.append(("measures", e))
                        break
        if not viol and power(w, case, viol, w.stats):
            high.clear()
            inspect("after a power failure")
        return lab.finish([w], viol, len(cfgs) > 1 or bool(fired), {"analyses": len(cfgs)})

    def saved(self, target, name, case):
        return os.path.join(target, f"{os.path.splitext(name)[0]}cppn{int(case['cppn'])}_analysis.npy")

    def smaller(self, case):
        for c in super().smaller(case):
            if len(c["configs"]) == len(c["names"]):
                yield c
        for i in range(len(case["configs"])):
            if len(case["configs"]) > 1:
                c = copy.deepcopy(case)
                del c["configs"][i], c["names"][i]
                yield c


CHECKS = [K01(), S01(), A01()]
