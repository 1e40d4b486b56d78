"""E01-E07: distributed evolution (yuca.cmaes, yuca.evolve)."""
import copy
import importlib
import os
import random
import runpy
import sys

import numpy as np

from .. import evolab, lab, mpi
from .. import world as wm
from ..evolab import Evolution, agents_of
from ..runner import Check

REAL = ["yuca.cmaes (CMAES, CMACES: mantle, arms, selection, logs)", "yuca.params_agent / yuca.cppn agents",
        "yuca.ca.continuous.CCA", "yuca.utils", "numpy, torch"]
STUBS = ["mpi4py and mpirun: in-memory communicator, delivery order and rendezvous decided by the scheduler",
         "the file system: in-memory, journalled", "time, pids, os entropy",
         "environments: a recording stub in most runs, the real wrappers (recorded) in the others",
         "save_fig_sequence: no-op (decided by G01/G02)"]
ASSUME = ["MPI is reliable and keeps the order of messages between two ranks, as the standard guarantees",
          "the interpreter of every rank is deterministic: torch and numpy use one thread"]


def base(rng, tier, modes=("rule", "rule", "pattern", "coevo")):
    mode = rng.choice(modes)
    c = {"tag": {"rule": "sim", "pattern": "simpattern", "coevo": "simcoevo"}[mode],
         "workers": rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]),
         "pop": rng.choice([2, 3, 4, 5, 7, 8, 9, 11, 16, 17, 24]),
         "replicates": rng.choice([1, 1, 2, 3]),
         "gens": rng.choice([1, 2, 2, 3, 4]),
         "selection": rng.choice([0, 0, 1, 2]),
         "seeds": [rng.choice([0, 1, 7, 13, 42, 1234])],
         "scalar_seed": rng.random() < 0.5,
         "entropy": rng.getrandbits(20),
         "t0": 1_600_000_000 + rng.random() * 1e8,
         "eager": rng.random() < 0.6,
         "faults": []}
    if mode != "rule":
        c["pop"] = min(c["pop"], 9)
        c["gens"] = min(c["gens"], 3)
    if rng.random() < 0.12:
        # converged populations: the search stops early
        c["gens"] = rng.choice([7, 8, 9, 10, 13])
        c["reward_scale"] = rng.choice([1e-3, 0.02, 0.03, 0.04, 0.06, 0.1])
        c["pop"] = min(c["pop"], 9)
    r = rng.random()
    if r < 0.22 and mode == "rule" and c["gens"] < 7:
        c["env"] = rng.choice(["SimpleHalting", "Halting"])
        c.update(dim=rng.choice([16, 32]), ca_steps=rng.choice([1, 2]), pop=min(c["pop"], 5),
                 gens=min(c["gens"], 2), replicates=min(c["replicates"], 2), batch_size=2)
        if c["env"] == "Halting":
            c["dim"] = 32
    elif r < 0.3 and mode != "rule" and c["gens"] < 7:
        c.update(env="Glider", dim=16, ca_steps=3)
    c["schedule"] = lab.schedule(rng, [f"rank{i}" for i in range(c["workers"])])
    c["skews"] = {str(r): rng.choice([-3600.0, -0.4, 0.7, 90.0]) for r in range(c["workers"])
                  if rng.random() < 0.3}
    return c


def slow_faults(rng, c, n=2):
    """stalls, slow ranks and clock jumps: nothing may be lost by them"""
    for _ in range(rng.choice([0, 1, n])):
        c["faults"].append({"kind": rng.choice(["stall", "stall", "jump", "skew"]),
                            "at": rng.randint(1, 12), "secs": rng.choice([0.3, 5.0, 500.0, -50.0])
                            if rng.random() < 0.7 else 2.0,
                            "proc": rng.choice(["", "rank0", "rank1", "rank2"])})
    for f in c["faults"]:
        if f["kind"] == "stall":
            f["secs"] = abs(f["secs"])


SHRINK = {"workers": [0, 1, 2, 3], "pop": [2, 3, 4, 5, 8], "replicates": [1, 2], "gens": [1, 2, 3],
          "selection": [0], "skews": [{}], "eager": [True], "entropy": [0], "env": ["StubEnv"],
          "tag": ["sim"], "seeds": [[1], [7]], "t0": [1_600_000_000.0]}


def expected_stop(c, log):
    """number of generations the search should have logged"""
    for g, s in enumerate(log["std_dev_fitness"]):
        if s < 0.02 and g > 6:
            return g + 1
    return c["gens"]


def fitness_of(evs):
    return float(np.mean(np.array([e["reward"] for e in evs], dtype=np.float32)))


# ------------------------------------------------------------------ oracles
def check_fidelity(ev, viol):
    """E01"""
    c = ev.case
    seed = c["seeds"][0]
    log = ev.log(seed)
    if log is None:
        viol.append(("no-log", f"search ended without a log for seed {seed}"))
        return
    gens = ev.generations()
    n = len(log["mean_fitness"])
    want = expected_stop(c, log)
    if n != want:
        viol.append(("generation-count", f"{n} generations logged, {want} expected"))
        return
    if len(gens) != n or len(gens[-1]) != c["pop"] * c["replicates"]:
        viol.append(("evaluation-count", f"{len(ev.evals)} evaluations for {n} generations of "
                     f"{c['pop']} agents x {c['replicates']} replicates"))
        return
    keep = c["pop"] // 8 + 1
    for g, chunk in enumerate(gens):
        groups = agents_of(chunk)
        total = 0
        for p, evs in groups:
            if len(evs) % c["replicates"]:
                viol.append(("agent-evaluations", f"generation {g}: an agent was evaluated {len(evs)} times, "
                             f"not {c['replicates']} (or a multiple, for duplicates)"))
                return
            total += len(evs) // c["replicates"]
        spread = g == 0 or "pattern" not in c["tag"] and \
            np.trace(np.asarray(log["distribution"][g - 1][1], dtype=np.float64)) > 1e-10
        if spread and total - len(groups) > keep:
            viol.append(("agents-skipped", f"generation {g}: only {len(groups)} different agents evaluated "
                         f"out of {c['pop']}"))
            return
        # the same randomness for every agent
        streams = {}
        for p, evs in groups:
            for e in evs[:c["replicates"]]:
                streams.setdefault(p.tobytes(), []).append(e["draws"])
        ref = next(iter(streams.values()))
        for s in streams.values():
            if s != ref:
                viol.append(("unequal-draws", f"generation {g}: agents were not evaluated under the "
                             f"same random stream"))
                return
        if "env" not in c and len(ref) > 1 and any(ref[0] == r for r in ref[1:]):
            viol.append(("repeated-draws", f"generation {g}: replicates repeat the same random draws"))
            return
        fit = []
        for p, evs in groups:
            for k in range(0, len(evs), c["replicates"]):
                fit.append(fitness_of(evs[k:k + c["replicates"]]))
        fit = np.array(fit)
        for key, val in (("mean_fitness", fit.mean()), ("max_fitness", fit.max()),
                         ("min_fitness", fit.min()), ("std_dev_fitness", fit.std())):
            got = float(log[key][g])
            if not np.isclose(got, val, rtol=1e-4, atol=2e-6):
                viol.append((key, f"generation {g}: logged {got}, the evaluations give {val}"))
                return
        if "coevo" in c["tag"]:
            for e in chunk:
                m = e["ca"].size
                if not np.allclose(e["ca"], e["params"][-m:], atol=1e-5):
                    viol.append(("rule-not-applied", f"generation {g}: agent evaluated under another rule"))
                    return
        if "pattern" in c["tag"] and g < n - 1:
            continue
        if c["selection"] == 0 or g == n - 1:
            best = max(groups, key=lambda a: max(fitness_of(a[1][k:k + c["replicates"]])
                                                 for k in range(0, len(a[1]), c["replicates"])))
            top = log["elite_params"][-1 if "pattern" in c["tag"] else g][0]
            f_best = max(fitness_of(best[1][k:k + c["replicates"]])
                         for k in range(0, len(best[1]), c["replicates"]))
            mine = [a for a in groups if np.array_equal(a[0], np.asarray(top, dtype=np.float64))]
            if not mine:
                viol.append(("best-not-evaluated", f"generation {g}: first elite was not evaluated"))
                return
            f_top = fitness_of(mine[0][1][:c["replicates"]])
            if f_top < f_best - 1e-6 * max(1, abs(f_best)):
                viol.append(("fitness-misattributed", f"generation {g}: first elite has fitness {f_top}, "
                             f"the best agent {f_best}"))
                return


def unlikely(rows, m, C, before):
    """why these (and the normalised ones drawn before) cannot be draws of a normal
    distribution (odds of 1e-9), or None"""
    if not rows:
        return None
    P = np.array([np.frombuffer(r) for r in rows])
    val, vec = np.linalg.eigh(C)
    top = val.max()
    if top < 1e-10:
        return None
    real = val > 1e-6 * top
    D = P - m
    off = np.abs(D @ vec[:, ~real]).max() if (~real).any() else 0.0
    if off > 6.5 * np.sqrt(1e-6 * top) + 1e-5 * np.abs(P).max():
        return f"off by {off:.3g} in a direction it does not vary in"
    Z = D @ vec[:, real] / np.sqrt(val[real])
    if np.abs(Z).max() > 7:
        return f"{np.abs(Z).max():.1f} deviations away"
    before.extend(Z.ravel())
    Z = np.array(before)
    k = Z.size
    if abs(Z.sum()) / np.sqrt(k) > 6.5:
        return f"around another mean ({Z.mean():.2f} deviations off in {k} numbers)"
    wh = (((Z ** 2).sum() / k) ** (1 / 3) - (1 - 2 / (9 * k))) / np.sqrt(2 / (9 * k))
    if abs(wh) > 6.5:
        return f"the spread of {k} numbers is {np.sqrt((Z ** 2).mean()):.3g} times the one expected"
    return None


def check_selection(ev, viol):
    """E04"""
    c = ev.case
    seed = c["seeds"][0]
    log = ev.log(seed)
    if log is None:
        return
    gens = ev.generations()
    n = len(log["mean_fitness"])
    keep = c["pop"] // 8 + 1
    means = ev.mantle().start[0] if ev.mantle().start else None
    draws = []
    if len(gens) < n:
        return
    if n != expected_stop(c, log):
        viol.append(("generation-count", f"{n} generations logged, {expected_stop(c, log)} expected"))
        return
    last_only = "pattern" in c["tag"]
    if len(log["elite_params"]) != (1 if last_only else n):
        viol.append(("elite-log", f"{len(log['elite_params'])} elites logged for {n} generations"))
        return
    for g in range(n):
        if last_only and g < n - 1:
            continue
        E = np.asarray(log["elite_params"][-1 if last_only else g], dtype=np.float64)
        if E.shape[0] != keep:
            viol.append(("elite-count", f"generation {g}: {E.shape[0]} elites, {keep} expected"))
            return
        groups = agents_of(gens[g])
        fit = []
        for p, evs in groups:
            for k in range(0, len(evs), c["replicates"]):
                fit.append((fitness_of(evs[k:k + c["replicates"]]), p))
        bykey = {}
        for f, p in fit:
            bykey[p.tobytes()] = f
        ef = []
        for row in E:
            f = bykey.get(row.tobytes())
            if f is None:
                viol.append(("elite-not-in-population", f"generation {g}: an elite is not a member of the "
                             f"evaluated population"))
                return
            ef.append(f)
        final = g == n - 1
        mode = 0 if final else c["selection"]
        top = sorted((f for f, _ in fit), reverse=True)[:keep]
        if mode == 0 and not np.allclose(ef, top, rtol=1e-5, atol=1e-6):
            viol.append(("not-the-fittest", f"generation {g}: elites have fitness {ef}, the best are {top}"))
            return
        if mode == 2:
            mult = {}
            for row in E:
                mult[row.tobytes()] = mult.get(row.tobytes(), 0) + 1
            have = {}
            for f, p in fit:
                have[p.tobytes()] = have.get(p.tobytes(), 0) + 1
            if any(v > have[k] for k, v in mult.items()):
                viol.append(("elite-repeated", f"generation {g}: proportional selection took a member twice"))
                return
        # distribution
        m, C = (np.asarray(x, dtype=np.float64) for x in log["distribution"][-1 if last_only else g])
        if not np.allclose(m, E.mean(axis=0), rtol=1e-6, atol=1e-9):
            viol.append(("mean", f"generation {g}: distribution mean is not the mean of the elites"))
            return
        if means is not None and (not last_only or n == 1):
            D = E - means
            if not np.allclose(C, D.T @ D / keep, rtol=1e-5, atol=1e-10):
                viol.append(("covariance", f"generation {g}: covariance is not that of the elites around "
                             f"the previous mean"))
                return
        means = m
        if g < n - 1:
            nxt = {e["params"].tobytes() for e in gens[g + 1]}
            for kk in range(keep // 2):
                if E[kk].tobytes() not in nxt:
                    viol.append(("elite-lost", f"generation {g + 1} does not contain elite {kk} of "
                                 f"generation {g}"))
                    return
            kept = {row.tobytes() for row in E[:keep // 2]}
            why = unlikely([e for e in nxt if e not in kept], m, C, draws) if not last_only else None
            if why:
                viol.append(("not-drawn", f"generation {g + 1} was not drawn from the distribution of generation {g}: {why}"))
                return
    # configs of the elites, and the best one on disk
    w = ev.w
    path = ev.config_path(seed)
    if path is None:
        viol.append(("no-config", f"no config of the best universe saved for seed {seed}"))
        return
    best = np.asarray(log["elite_params"][-1][0], dtype=np.float64)
    cfgs = log["elite_configs"]
    if len(cfgs) != n or any(len(x) != keep for x in cfgs):
        viol.append(("elite-configs", f"elite configs: {[len(x) for x in cfgs]} for {n} generations of {keep}"))
        return
    out = {}
    raw = ev.logs()[ev.log_path(seed)]

    def reader():
        evolab.simmod(ev)
        cont = importlib.import_module("yuca.ca.continuous")
        ca = cont.CCA(kernel_radius=c.get("radius", 2))
        ca.restore_config(path)
        out["best"] = np.array(ca.get_params(), dtype=np.float64)
        lg = lab.read_obj(raw)
        out["elites"] = []
        for h in range(keep):
            ca = cont.CCA(kernel_radius=c.get("radius", 2))
            ca.load_config(lg["elite_configs"][-1][h])
            out["elites"].append(np.array(ca.get_params(), dtype=np.float64))

    p = lab.observe(w, reader)
    if p.exit_code != 0:
        viol.append(("config-unreadable", f"saved config cannot be restored: {lab.proc_error(p)}"))
        return
    if "pattern" in c["tag"]:
        return
    k = out["best"].size
    if not np.allclose(out["best"], best[-k:], rtol=1e-4, atol=1e-5):
        viol.append(("best-config", "the saved config is not that of the best agent"))
        return
    E = np.asarray(log["elite_params"][-1], dtype=np.float64)
    for h in range(keep):
        if not np.allclose(out["elites"][h], E[h][-k:], rtol=1e-4, atol=1e-5):
            viol.append(("elite-config", f"logged config {h} of the last generation is not that of elite {h}"))
            return


class E01(Check):
    id = "E01"
    quick = 500
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = ("a run counts as non-trivial when at least one agent was evaluated and, with two or more "
            "workers, at least one context switch happened between ranks")
    shrink_to = SHRINK

    def generate(self, rng, tier):
        c = base(rng, tier)
        slow_faults(rng, c)
        return c

    def execute(self, case):
        ev = Evolution(case).run()
        viol = []
        f = ev.failure()
        if f:
            viol.append(f)
        else:
            check_fidelity(ev, viol)
        return lab.finish([ev.w], viol, bool(ev.evals), {"evaluations": len(ev.evals)})


class E04(Check):
    id = "E04"
    quick = 500
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = "a run counts as non-trivial when at least one generation was logged"
    shrink_to = SHRINK

    def generate(self, rng, tier):
        c = base(rng, tier)
        if rng.random() < 0.5:
            c["workers"] = rng.choice([0, 0, 1, 2, 3])
        if rng.random() < 0.12 and "env" not in c:
            # converges around the generation from which it may stop
            c.update(workers=rng.choice([0, 0, 2]), tag="sim", replicates=1, pop=rng.choice([4, 5, 8, 9]),
                     gens=rng.choice([10, 12]), reward_scale=round(rng.uniform(.015, .12), 3))
        elif rng.random() < .06 and "env" not in c:
            # enough draws to see what they are drawn from
            c.update(workers=rng.choice([0, 3]), tag="sim", replicates=1, pop=rng.choice([48, 64]), gens=rng.choice([3, 4]))
        slow_faults(rng, c, 1)
        return c

    def execute(self, case):
        ev = Evolution(case).run()
        viol = []
        f = ev.failure()
        if f:
            viol.append(f)
        else:
            check_selection(ev, viol)
        return lab.finish([ev.w], viol, bool(ev.evals), {"evaluations": len(ev.evals)})


def strip(x, drop=()):
    """what a log says, without how the run was started"""
    if isinstance(x, dict):
        return {k: strip(v, drop) for k, v in x.items()
                if k not in ("kwargs", "instant_kwargs") and k not in drop}
    if isinstance(x, (list, tuple)):
        return [strip(v, drop) for v in x]
    return x


def compare_logs(a, b, seeds, viol, sig, what, drop=()):
    for s in seeds:
        la, lb = a.log(s), b.log(s)
        if la is None or lb is None:
            viol.append(("no-log", f"no log for seed {s}"))
            return
        d = lab.diff(strip(la, drop), strip(lb, drop))
        if d:
            viol.append((sig, f"seed {s}: {what}: {d}"))
            return
        pa, pb = a.config_path(s), b.config_path(s)
        if (pa is None) != (pb is None):
            viol.append((sig, f"seed {s}: {what}: config saved in one run only"))
            return
        if pa is not None:
            ca = lab.read_obj(lab.find_files(a.w, evolab.CONFIGS)[pa])
            cb = lab.read_obj(lab.find_files(b.w, evolab.CONFIGS)[pb])
            d = lab.diff(strip(ca, drop), strip(cb, drop))
            if d:
                viol.append((sig, f"seed {s}: {what}: best config: {d}"))
                return


def disturb(rng, c):
    """other schedule, clock, entropy, worker count: everything but the inputs"""
    v = {"schedule": lab.schedule(rng, ["rank1", "rank2"]), "entropy": rng.getrandbits(20),
         "t0": 1_600_000_000 + rng.random() * 1e8, "eager": rng.random() < 0.5, "faults": []}
    v["workers"] = rng.choice([0, 1]) if c["workers"] <= 1 else rng.choice([2, 3, 4, 6])
    d = dict(c, **v)
    slow_faults(rng, d)
    v["faults"] = d["faults"]
    v["skews"] = {"1": rng.choice([0.0, 50.0]), "0": rng.choice([0.0, -7.5])}
    return v


def real_env(rng, c):
    """put a real wrapper and one of the universes behind the search"""
    if "sim" == c["tag"]:
        c["env"] = rng.choice(["SimpleHalting", "Halting", "Halting"])
        c["ca_fn"] = rng.choice(["CCA", "CCA", "CODE", "Lenia", "MetaCA", "RandomStepCA", "NCA", "RxnDfn"])
        if c["ca_fn"] == "CODE":         # its step size adapts: slow
            c["env"] = "SimpleHalting"
        c.update(dim=32, ca_steps=rng.choice([1, 2, 3]), pop=min(c["pop"], 4), radius=3,
                 gens=min(c["gens"], 2), replicates=min(c["replicates"], 2), batch_size=2)
    else:
        c.update(env="Glider", dim=16, ca_steps=3, pop=min(c["pop"], 5))
        c["ca_fn"] = rng.choice(["CCA", "CCA", "CODE", "Lenia"])
    c.pop("reward_scale", None)
    c["gens"] = min(c["gens"], 3)


class E03(Check):
    id = "E03"
    quick = 260
    real = REAL + ["yuca.wrappers.*", "yuca.code, yuca.lenia, yuca.metaca, yuca.random_step_ca, yuca.ca.neural, "
                   "yuca.ca.reaction_diffusion as universes of real-wrapper runs"]
    stubs, assumptions = STUBS, ASSUME
    rule = ("a run (two complete searches) counts as non-trivial when both searches logged at least one "
            "generation and differ in schedule")
    shrink_to = SHRINK

    def generate(self, rng, tier):
        c = base(rng, tier)
        for k in ("env", "dim", "ca_steps", "batch_size"):
            c.pop(k, None)
        if rng.random() < 0.4:
            real_env(rng, c)
        if rng.random() < 0.15:
            c["seeds"] = rng.sample([1, 5, 9, 13], 2)
            c["gens"] = min(c["gens"], 2)
        slow_faults(rng, c)
        c["other"] = disturb(rng, c)
        return c

    def smaller(self, case):
        yield from super().smaller(case)
        for k, v in (("faults", []), ("skews", {}), ("entropy", case.get("entropy", 0)),
                     ("t0", case["t0"]), ("workers", case["workers"]), ("eager", case["eager"]),
                     ("schedule", case["schedule"])):
            if case["other"].get(k) != v:
                c = copy.deepcopy(case)
                c["other"][k] = v
                yield c

    def execute(self, case):
        a = Evolution(case).run()
        b = Evolution(case, case["other"]).run()
        viol = []
        for e in (a, b):
            f = e.failure()
            if f:
                viol.append(f)
                break
        else:
            compare_logs(a, b, case["seeds"], viol, "not-reproducible",
                         f"{a.case['workers']} and {b.case['workers']} workers")
        return lab.finish([a.w, b.w], viol, bool(a.evals), {"evaluations": len(a.evals) + len(b.evals)})


class E07(Check):
    id = "E07"
    quick = 260
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = "a run (one search over several seeds and one over fewer of them) counts when both logged"
    shrink_to = dict(SHRINK, seeds=[])
    shrink_lists = ()

    def generate(self, rng, tier):
        c = base(rng, tier)
        for k in ("env", "dim", "ca_steps", "batch_size"):
            c.pop(k, None)
        if rng.random() < 0.3:
            real_env(rng, c)
        c["scalar_seed"] = False
        c["seeds"] = rng.sample([0, 1, 5, 9, 13, 77], rng.choice([2, 3, 3]))
        c["alone"] = rng.choice(c["seeds"])
        c["gens"] = min(c["gens"], 8)
        slow_faults(rng, c, 1)
        c["other"] = disturb(rng, c)
        if rng.random() < 0.35:
            c["from_log"] = True
        return c

    def smaller(self, case):
        yield from super().smaller(case)
        if len(case["seeds"]) > 2:
            for s in case["seeds"][1:]:
                if s != case["alone"]:
                    c = copy.deepcopy(case)
                    c["seeds"].remove(s)
                    yield c
        for k, v in (("faults", []), ("skews", {}), ("workers", case["workers"])):
            if case["other"].get(k) != v:
                c = copy.deepcopy(case)
                c["other"][k] = v
                yield c

    def execute(self, case):
        viol = []
        worlds = []
        data = None
        if case.get("from_log"):
            first = Evolution(case, {"seeds": [3], "faults": [], "gens": 1, "skews": {},
                                     "schedule": {"choices": []}}).run()
            if first.failure():
                viol.append(first.failure())
                return lab.finish([first.w], viol)
            data = first.logs()[first.log_path(3)]
        evs = []
        # the first seed also makes the universe: it stays
        few = [case["seeds"][0]] + [s for s in case["seeds"][1:] if s == case["alone"]]
        for over in ({"seeds": case["seeds"]}, dict(case["other"], seeds=few)):
            if data is not None:
                over = dict(over, input="/sim/work/start.npy")
            e = Evolution(case, over)
            if data is not None:
                with e.w.host():
                    with open("/sim/work/start.npy", "wb") as f:
                        f.write(data)
                e.w.fs.commit()
            e.run()
            evs.append(e)
            worlds.append(e.w)
            if e.failure():
                viol.append(e.failure())
                return lab.finish(worlds, viol)
        compare_logs(evs[0], evs[1], [case["alone"]], viol, "seeds-interfere",
                     f"searched among {case['seeds']} and among {few}",
                     # the step size these universes happen to be at
                     ("dt",) if case.get("ca_fn") in ("CODE", "RandomStepCA") else ())
        return lab.finish(worlds, viol, True, {"evaluations": sum(len(e.evals) for e in evs)})


# ------------------------------------------------------------------ E05
def crash_faults(rng, c, paths, power=True):
    k = rng.choice(["crash", "crash", "crash_after", "torn", "short", "enospc", "eio", "none"])
    if k == "none":
        return
    f = {"kind": k, "at": rng.choice([1, 1, 2, 3, 5, 8, rng.randint(1, 40)]), "scope": "all"}
    if rng.random() < 0.8:
        f["path"] = rng.choice(paths)
    if k in ("crash", "crash_after"):
        f["on"] = ["create", "write", "fsync", "rename", "close", "unlink"]
    elif k == "eio":
        f["on"] = [rng.choice(["create", "write", "fsync", "rename", "close"])]
    elif k in ("torn", "short"):
        f["frac"] = rng.random()
    elif k == "enospc":
        f["sticky"] = rng.random() < 0.5
        f["frac"] = rng.random()
    c["faults"].append(f)
    if k in ("crash", "crash_after", "torn"):
        c["power"] = power and rng.random() < 0.4
        c["power_seed"] = rng.getrandbits(20)


def reader_of(ev, out, n):
    """another program that looks at the logs while the search runs"""
    def main():
        evolab.simmod(ev)
        import time
        for i in range(n):
            time.sleep(0.002 * (1 + i % 3))
            try:
                names = os.listdir(evolab.LOGS)
            except OSError:
                continue
            for f in names:
                if f.startswith(".") or not f.endswith(".npy"):
                    continue
                try:
                    d = np.load(os.path.join(evolab.LOGS, f), allow_pickle=True).reshape(1)[0]
                    out.append(("ok", len(d["mean_fitness"])))
                except FileNotFoundError:
                    pass
                except Exception as e:
                    out.append(("bad", f"{type(e).__name__}: {e}"))
                    return
    return lab.guarded(ev.w, main)


class E05(Check):
    id = "E05"
    quick = 500
    real, stubs = REAL, STUBS
    assumptions = ASSUME + ["after a process crash every completed system call survives; after a power failure "
                            "a prefix of the directory operations and all fsynced file data survive",
                            "a torn write leaves a prefix of its bytes"]
    rule = "a run counts as non-trivial when a log was written, or a fault fired"
    shrink_to = SHRINK

    def generate(self, rng, tier):
        c = base(rng, tier)
        for k in ("env", "dim", "ca_steps", "batch_size"):
            c.pop(k, None)
        c["gens"] = min(max(c["gens"], 2), 4)
        c["pop"] = min(c["pop"], 8)
        c["replicates"] = 1
        c["workers"] = rng.choice([0, 0, 1, 2, 3])
        c.pop("reward_scale", None)
        if rng.random() < 0.15:
            c["seeds"] = rng.sample([1, 5, 9], 2)
            c["gens"] = 2
        crash_faults(rng, c, ["/logs", "/logs", "ca_configs"])
        if rng.random() < 0.3:
            c["readers"] = rng.choice([3, 8, 20])
        return c

    def execute(self, case):
        ev = Evolution(case)
        w = ev.w
        viol = []
        high = {}

        def inspect(when, floor=True):
            for p, b in ev.logs().items():
                try:
                    d = lab.read_obj(b)
                    n = len(d["mean_fitness"])
                    if not (len(d["max_fitness"]) == len(d["min_fitness"]) == n
                            == len(d["std_dev_fitness"])
                            and len(d["elite_configs"]) == n
                            and len(d["elite_params"]) == len(d["distribution"])
                            and len(d["elite_params"]) in ((1,) if "pattern" in case["tag"] else (n,))):
                        raise ValueError("generations missing in parts of the log")
                    if not all(lo - 1e-4 * abs(lo) <= mid <= hi + 1e-4 * abs(hi) for lo, mid, hi in zip(
                            d["min_fitness"], d["mean_fitness"], d["max_fitness"])
                            if np.isfinite([lo, mid, hi]).all()):
                        raise ValueError("figures of different generations side by side")
                except Exception as e:
                    viol.append(("log-torn", f"{when}: log not loadable: {type(e).__name__}: {str(e)[:120]}"))
                    return
                if floor and n < high.get(p, 0):
                    viol.append(("log-regressed", f"{when}: log fell from {high[p]} to {n} generations"))
                    return
                if floor:
                    high[p] = max(n, high.get(p, 0))
            for p in high:
                if floor and p not in ev.logs():
                    viol.append(("log-lost", f"{when}: the log disappeared"))
                    return
            for p, b in lab.find_files(w, evolab.CONFIGS).items():
                if os.path.basename(p).startswith("."):
                    continue
                try:
                    lab.read_obj(b)
                except Exception as e:
                    viol.append(("config-torn", f"{when}: saved config not loadable: {type(e).__name__}"))
                    return

        last = [None]

        def watcher():
            if viol:
                return
            key = tuple((p, n.ino, len(n.data)) for p, n in w.fs.nodes.items()
                        if n is not None and not n.is_dir and p.endswith(".npy"))
            if key != last[0]:
                last[0] = key
                inspect("while running")

        w.watch.append(watcher)
        seen = []
        ev.start()
        if case.get("readers"):
            w.spawn("reader", reader_of(ev, seen, case["readers"]), group="reader")
        w.run()
        for kind, msg in seen:
            if kind == "bad":
                viol.append(("reader-failed", f"a concurrent reader could not load the log: {msg}"))
        if w.over_budget or w.deadlock:
            viol.append(("stuck", f"{w.deadlock or 'step budget exceeded'}"))
        m = ev.mantle()
        crashed = w.stats.get("crash", 0) > 0
        if not viol:
            inspect("at the end")
        n = case["pop"] * case["replicates"]
        if not viol and crashed is False and ev.parent.exit_code == 0:
            for s in case["seeds"]:
                log = ev.log(s)
                if log is None or len(log["mean_fitness"]) != expected_stop(case, log):
                    viol.append(("success-without-log", f"the search ended normally but the log of seed {s} is "
                                 f"{'missing' if log is None else 'incomplete'}"))
                elif ev.config_path(s) is None:
                    viol.append(("success-without-config", f"the search ended normally without the best config "
                                 f"of seed {s}"))
        if not viol and len(case["seeds"]) == 1:
            done = max(0, (len(ev.evals) - 1) // n)
            log = ev.log(case["seeds"][0])
            have = 0 if log is None else len(log["mean_fitness"])
            if have < done:
                viol.append(("generation-not-logged", f"generation {done} was being evaluated but only {have} "
                             f"generations are in the log"))
        if not viol and crashed and case.get("power"):
            w.fs.power_fail(random.Random(case["power_seed"]))
            w.stats["fault_power_failure"] += 1
            inspect("after a power failure", floor=False)
        return lab.finish([w], viol, bool(ev.evals), {"evaluations": len(ev.evals), "reader_loads":
                          sum(1 for k, _ in seen if k == "ok")})


# ------------------------------------------------------------------ E06
class E06(Check):
    id = "E06"
    quick = 350
    real, stubs, assumptions = REAL, STUBS, E05.assumptions
    rule = "a run counts as non-trivial when a log survived the first search and a second one resumed from it"
    shrink_to = dict(SHRINK, gens2=[1], workers2=[0, 2])

    def generate(self, rng, tier):
        c = base(rng, tier)
        for k in ("env", "dim", "ca_steps", "batch_size", "reward_scale"):
            c.pop(k, None)
        c["gens"] = min(c["gens"], 4)
        c["workers2"] = rng.choice([0, 1, 2, 3, 5])
        c["pop2"] = rng.choice([c["pop"], c["pop"], 3, 8, 12, 20]) if c["tag"] == "sim" else c["pop"]
        c["gens2"] = rng.choice([1, 1, 2])
        c["seed2"] = rng.choice([2, 21])
        if rng.random() < 0.5:
            crash_faults(rng, c, ["/logs", "/logs", "ca_configs", ""])
        return c

    def execute(self, case):
        viol = []
        a = Evolution(case).run()
        w = a.w
        if w.over_budget or w.deadlock:
            viol.append(("stuck", f"{w.deadlock or 'step budget exceeded'}"))
            return lab.finish([w], viol)
        if not any(f["fired"] for f in w.faults) and a.failure():
            viol.append(a.failure())
            return lab.finish([w], viol)
        if case.get("power") and w.stats.get("crash"):
            w.fs.power_fail(random.Random(case["power_seed"]))
            w.stats["fault_power_failure"] += 1
        path = a.log_path(case["seeds"][0])
        if path is None:
            return lab.finish([w], viol, False)
        try:
            log = lab.read_obj(a.logs()[path])
        except Exception as e:
            viol.append(("log-torn", f"the log left by the first search is not loadable: {type(e).__name__}"))
            return lab.finish([w], viol)
        w.faults, w.disk_full = [], False
        b = Evolution(case, {"input": path, "workers": case["workers2"], "pop": case["pop2"], "faults": [],
                             "gens": case["gens2"], "seeds": [case["seed2"]]}, world=w)
        b.w.now += 5
        first = len(w.procs)
        b.start("resumed")
        w.run()
        procs = w.procs[first:]
        bad = [q for q in procs if q.exit_code != 0]
        if bad or w.deadlock or w.over_budget:
            viol.append(("resume-failed", lab.proc_error(bad[0]) if bad else f"{w.deadlock}"))
            return lab.finish([w], viol)
        keep = case["pop2"] // 8 + 1
        E = np.asarray(log["elite_params"][-1], dtype=np.float64)[:keep]
        new = b.log(case["seed2"])
        gens = b.generations()
        if new is None or not gens:
            viol.append(("no-log", "the resumed search left no log"))
            return lab.finish([w], viol)
        got = {e["params"].tobytes() for e in gens[0]}
        for i, row in enumerate(E):
            if row.tobytes() not in got:
                viol.append(("elite-not-resumed", f"elite {i} of the log is not evaluated in the first "
                             f"generation after resuming"))
                break
        if len(gens[0]) != case["pop2"] * case["replicates"]:
            viol.append(("evaluation-count", f"{len(gens[0])} evaluations in the first generation"))
        if len(new["mean_fitness"]) != case["gens2"]:
            viol.append(("generation-count", f"{len(new['mean_fitness'])} generations after resuming"))
        if not viol and ("pattern" not in case["tag"] or case["gens2"] == 1):
            E1 = np.asarray(new["elite_params"][0], dtype=np.float64)
            D = E1 - E.mean(axis=0)
            C = np.asarray(new["distribution"][0][1], dtype=np.float64)
            if not np.allclose(C, D.T @ D / len(E1), rtol=1e-5, atol=1e-9):
                viol.append(("resumed-mean", "the resumed search is not centred on the mean of the log's elites"))
        return lab.finish([w], viol, True, {"resumed": 1, "evaluations": len(a.evals) + len(b.evals)})


# ------------------------------------------------------------------ E02
class E02(Check):
    id = "E02"
    quick = 220
    real = ["yuca.evolve as a program, with its argument parsing", "yuca.cmaes", "yuca.cppn", "yuca.wrappers.*",
            "all universe classes", "yuca.utils animations (one run in eight)"]
    stubs = [s for s in STUBS if "environments" not in s and "save_fig" not in s] + \
        ["git rev-parse: fixed output", "save_fig_sequence: no-op in seven runs of eight"]
    assumptions = ASSUME + ["mpirun starts all ranks, kills the job when a rank dies and then exits non-zero"]
    rule = "a run counts as non-trivial when the program got as far as its first evaluation or a fault fired"

    shrink_to = {"workers": [0, 1, 2, 3], "pop": [2, 3, 4], "gens": [1, 2], "seeds": [[1]], "env": ["SimpleHaltingWrapper"],
                 "tag": ["x"], "ca_fn": ["CCA"], "gif": [False], "eager": [True], "skews": [{}], "replicates": [1]}

    def generate(self, rng, tier):
        c = {"workers": rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]), "pop": rng.choice([2, 3, 4, 5, 8]),
             "gens": rng.choice([1, 1, 2, 3]), "replicates": rng.choice([1, 1, 2]),
             "tag": rng.choice(["x", "x", "x", "xpattern", "xcoevo"]),
             "env": rng.choice(["HaltingWrapper", "HaltingWrapper", "SimpleHaltingWrapper"]),
             "selection": rng.choice([0, 1, 2]), "prediction": rng.choice([0, 0, 1, 2]),
             "seeds": rng.choice([[1], [13], [3, 4]]), "eager": rng.random() < 0.5,
             "ca_fn": rng.choice(["CCA", "CCA", "CCA", "CODE", "Lenia", "NCA", "RxnDfn"]),
             "ca_steps": rng.choice([1, 2, 4]), "gif": rng.random() < 0.12,
             "entropy": rng.getrandbits(20), "t0": 1_600_000_000 + rng.random() * 1e8, "faults": [],
             "give_env": rng.random() < 0.7, "max_steps": 60_000}
        if c["env"] == "HaltingWrapper":
            c["pop"] = min(c["pop"], 4)
            c["gens"] = min(c["gens"], 2)
            c["replicates"] = 1
        if c["tag"] != "x":
            c["pop"] = min(c["pop"], 4)
            c["ca_fn"] = rng.choice(["CCA", "CCA", "CODE", "Lenia"])
        if c["gif"]:
            c["seeds"], c["ca_fn"], c["pop"] = c["seeds"][:1], "CCA", min(c["pop"], 3)
        c["schedule"] = lab.schedule(rng, [f"rank{i}" for i in range(c["workers"])])
        c["skews"] = {str(r): rng.choice([-3600.0, 90.0]) for r in range(c["workers"]) if rng.random() < 0.2}
        slow_faults(rng, c, 1)
        r = rng.random()
        if r < 0.12:
            c["faults"].append({"kind": rng.choice(["crash", "crash_after"]), "at": rng.randint(1, 30),
                                "scope": "job", "proc": "rank" if c["workers"] > 1 else "cli"})
        elif r < 0.24:
            c["faults"].append({"kind": rng.choice(["eio", "enospc"]), "at": rng.randint(1, 4),
                                "path": "/logs", "on": ["create", "write", "rename", "fsync"], "sticky": True,
                                "frac": 0.5})
        return c

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, evolab.LOGS)
        c = case
        argv = ["-b", "2", "-c", c["ca_steps"], "-d", "cpu", "-g", c["gens"], "-k", 3, "-l", c["replicates"],
                "-m", 16, "-p", c["pop"], "-s", *c["seeds"], "-t", c["tag"], "-ca", c["ca_fn"],
                "-hc", 2, "-w", c["workers"], "-e", c["selection"], "-r", c["prediction"]]
        if c["give_env"] or c["env"] != "HaltingWrapper":
            argv += ["-f", c["env"]]
        argv = [str(a) for a in argv]
        reached = []

        def prepare():
            utils = importlib.import_module("yuca.utils")
            if not c.get("gif"):
                utils.save_fig_sequence = evolab.no_gif
            # smaller pattern networks: the covariance stays small
            cppn = importlib.import_module("yuca.cppn").CPPN
            init = cppn.__init__
            cppn.__init__ = lambda self, **kw: init(self, **{"hidden_dim": 2, **kw})
            reached.append(1)

        def rank(prog):
            mpi.prepare(w)
            prepare()
            mpi.python_main(prog)

        def cli():
            mpi.prepare(w)
            prepare()
            sys.argv = [os.path.join(wm.ROOT, "yuca", "evolve.py")] + argv
            runpy.run_module("yuca.evolve", run_name="__main__", alter_sys=False)

        w.rank_main = rank
        parent = w.spawn("cli", cli, argv=["evolve"], env=dict(w.base_env), entropy=c["entropy"])
        w.run()
        viol = []
        fired = [f for f in w.faults if f["fired"]]
        hard = [f for f in fired if f["kind"] in ("crash", "crash_after", "eio", "enospc")]
        if w.over_budget:
            viol.append(("livelock", f"still running after {w.max_steps} steps"))
        elif w.deadlock:
            viol.append(("deadlock", f"no process can go on: {w.deadlock}"))
        elif not hard:
            for q in w.procs:
                if q.exit_code != 0:
                    viol.append(("failed", f"process {q.name}: {lab.proc_error(q)}"))
                    break
            else:
                for comm, ranks in w.jobs:
                    if comm.sent != comm.received:
                        viol.append(("orphan-messages", f"{comm.sent - comm.received} messages were never received"))
                if c["workers"] > 1 and (len(w.jobs) != 1 or len(w.jobs[0][1]) != c["workers"]):
                    viol.append(("worker-count", f"{[len(r) for _, r in w.jobs]} ranks for {c['workers']} workers"))
                if c["workers"] <= 1 and w.jobs:
                    viol.append(("worker-count", "workers were started although none were asked for"))
                names = [os.path.basename(p) for p in lab.find_files(w, evolab.LOGS)]
                for s in c["seeds"]:
                    if not any(n.endswith(f"_seed{s}.npy") and not n.startswith(".") for n in names):
                        viol.append(("no-log", f"exit 0 without a log of seed {s}"))
                        break
        else:
            failed = [q for q in w.procs if q.exit_code != 0]
            if failed and parent.exit_code == 0:
                viol.append(("failure-hidden", f"process {failed[0].name} failed ({lab.proc_error(failed[0])}) but "
                             f"the program exits with 0"))
        return lab.finish([w], viol, bool(reached), {"ranks": len(w.procs) - 1})


# ------------------------------------------------------------------ E08
class E08(Check):
    """the search a command line asks for, against the same search put together by hand"""
    id = "E08"
    quick = 150
    real = ["yuca.evolve as a program, with its argument parsing", "yuca.cmaes", "yuca.cppn", "yuca.wrappers.*",
            "all universe classes"]
    stubs = [s for s in STUBS if "environments" not in s] + ["git rev-parse: fixed output"]
    assumptions = ASSUME
    rule = ("a run (the search of a command line and the search put together by hand) counts when both logged and a "
            "universe was stepped in every evaluating process")
    shrink_to = {"workers": [0, 1, 2], "pop": [2, 3], "gens": [1], "seeds": [[1]], "skews": [{}], "replicates": [1],
                 "eager": [True], "conv": ["circular"], "dtype": ["float32"], "x": [1], "ch": [1], "selection": [0],
                 "prediction": [0], "ca_steps": [1], "kp": [1], "k": [2], "dt": [None], "config": [None], "before": [None]}

    def generate(self, rng, tier):
        tag = rng.choice(["x", "x", "x", "xpattern", "xcoevo"])
        c = {"workers": rng.choice([0, 1, 2, 2, 3, 4]), "pop": rng.choice([2, 3, 4, 5]), "gens": rng.choice([1, 1, 2]),
             "replicates": rng.choice([1, 1, 2]), "tag": tag, "selection": rng.choice([0, 1, 2]),
             "env": rng.choice(["HaltingWrapper", "SimpleHaltingWrapper", "SimpleHaltingWrapper"]),
             "prediction": rng.choice([0, 0, 1, 2]), "seeds": rng.choice([[1], [13], [3, 4]]),
             "ca_fn": rng.choice(["CCA", "CCA", "NCA", "RxnDfn", "MetaCA", "CODE", "Lenia", "RandomStepCA"]),
             "ca_steps": rng.choice([1, 2, 3]), "batch": rng.choice([1, 2, 3]), "dim": rng.choice([16, 20]),
             "k": rng.choice([2, 3, 4]), "kp": rng.choice([1, 2, 3, 3]), "x": rng.choice([1, 1, 1, 2]),
             "ch": rng.choice([1, 1, 2, 3]), "hc": rng.choice([2, 3]), "conv": rng.choice(["circular", "circular", "reflect", "zeros"]),
             "dtype": rng.choice(["float32"] * 4 + ["float64"]), "eager": rng.random() < 0.5,
             "entropy": rng.getrandbits(20), "t0": 1_600_000_000 + rng.random() * 1e8, "faults": [], "max_steps": 60_000}
        if tag != "x":
            c["ca_fn"] = rng.choice(["CCA", "CCA", "CODE", "Lenia", "RandomStepCA", "NCA", "RxnDfn", "MetaCA"])
            c["pop"] = min(c["pop"], 3)
            c["env"] = "HaltingWrapper"
        elif c["env"] == "HaltingWrapper":
            c["pop"], c["dim"], c["replicates"] = min(c["pop"], 3), 32, 1
            if c["ca_fn"] == "CODE":         # its step size adapts: slow
                c["env"] = "SimpleHaltingWrapper"
        if rng.random() < 0.15 and c["ca_fn"] in ("CCA", "CODE", "Lenia", "RandomStepCA"):
            c["config"], c["dim"], c["x"], c["ch"] = rng.choice(["orbium.npy", "geminium.npy"]), 32, 1, 1
        if c["ca_fn"] == "NCA":              # has as many channels of the one kind as of the other
            c["ch"] = c["x"]
        if rng.random() < 0.1:
            c["dt"] = rng.choice([0.05, 0.2])
        if rng.random() < 0.1:
            c["tag"] += rng.choice(["_orbium", "_geminium"])
            c["k"] = 13 if rng.random() < 0.3 else c["k"]
            c["dim"] = 32
        if rng.random() < 0.12:
            c["from_log"] = True
        if c["workers"] == 0 and rng.random() < 0.5:
            # the process searched for something else before
            c["before"] = {"dtype": rng.choice(["float32", "float64"]), "ca_fn": rng.choice(["CCA", "NCA", "RxnDfn", "MetaCA", "Lenia"]),
                           "tag": rng.choice(["earlier", "earlierpattern", "earliercoevo"]), "batch": rng.choice([1, 2]),
                           "conv": rng.choice(["circular", "zeros"]), "failed": rng.random() < .3}
        c["named"] = rng.random() < 0.5
        c["activation"], c["device"] = rng.choice([None, "Gaussian", "ReLU"]), rng.choice([None, "cpu"])
        c["order"] = rng.getrandbits(16)
        c["schedule"] = lab.schedule(rng, [f"rank{i}" for i in range(c["workers"])])
        c["schedule2"] = lab.schedule(rng, [f"rank{i}" for i in range(c["workers"])])
        c["skews"] = {str(r): rng.choice([-3600.0, 90.0]) for r in range(c["workers"]) if rng.random() < 0.2}
        slow_faults(rng, c, 1)
        return c

    OPTIONS = [("b", "batch_size", "batch"), ("c", "ca_steps", "ca_steps"), ("ca", "ca_fn", "ca_fn"),
               ("ch", "internal_channels", "ch"), ("dtype", "dtype", "dtype"), ("e", "selection_mode", "selection"),
               ("f", "env_fn", "env"), ("g", "generations", "gens"), ("hc", "hidden_channels", "hc"),
               ("k", "kernel_radius", "k"), ("kp", "kernel_peaks", "kp"), ("l", "replicates", "replicates"),
               ("m", "dim", "dim"), ("p", "population_size", "pop"), ("r", "prediction_mode", "prediction"),
               ("s", "seed", "seeds"), ("t", "tag", "tag"), ("v", "conv_mode", "conv"), ("w", "workers", "workers"),
               ("x", "external_channels", "x"), ("cc", "ca_config", "config"), ("dt", "dt", "dt"),
               ("i", "input_filepath", "input"), ("a", "activation", "activation"), ("d", "device", "device")]

    def command(self, c):
        groups = []
        for short, long, key in self.OPTIONS:
            v = c.get(key)
            if v is None or (key == "env" and v == "HaltingWrapper" and c["order"] % 2):
                continue
            groups.append([("--" + long) if c["named"] else "-" + short] +
                          [str(a) for a in (v if isinstance(v, list) else [v])])
        random.Random(c["order"]).shuffle(groups)
        return [a for g in groups for a in g]

    def prepare(self):
        importlib.import_module("yuca.utils").save_fig_sequence = evolab.no_gif
        cppn = importlib.import_module("yuca.cppn").CPPN
        init = cppn.__init__
        cppn.__init__ = lambda self, **kw: init(self, **{"hidden_dim": 2, **kw})

    def asked(self, c):
        """the search the options describe, put together by hand"""
        import torch
        torch.set_default_dtype(getattr(torch, c["dtype"]))
        kw = {"device": "cpu", "activation": "Gaussian", "input_filepath": None, "ca_config": None, "dt": 0.3}
        for _, long, key in self.OPTIONS:
            if c.get(key) is not None:
                kw[long] = copy.deepcopy(c[key])
        kw["ca_fn"] = getattr(importlib.import_module(evolab.CA_FNS[c["ca_fn"]]), c["ca_fn"])
        cm, cppn = importlib.import_module("yuca.cmaes"), importlib.import_module("yuca.cppn")
        halting = importlib.import_module("yuca.wrappers.halting_wrapper")
        glider = importlib.import_module("yuca.wrappers.glider_wrapper")
        if c["ca_fn"] == "RxnDfn":
            kw["external_channels"] = 2
        if c["tag"].startswith("xpattern"):
            kw.update(env_fn=glider.GliderWrapper, agent_fn=cppn.CPPN)
        elif c["tag"].startswith("xcoevo"):
            kw.update(env_fn=glider.GliderWrapper, agent_fn=cppn.CPPNPlus)
        else:
            kw.update(env_fn=getattr(halting, c["env"]))
        return (cm.CMACES if c["tag"].startswith("xcoevo") else cm.CMAES)(**kw)

    def watched(self, w, seen):
        import torch

        def hook(module, args):
            name = type(module).__name__
            if name in evolab.CA_FNS and args and hasattr(args[0], "shape"):
                seen.setdefault(w.current.name, set()).add((name, tuple(args[0].shape), str(args[0].dtype)[6:]))
        return torch.nn.modules.module.register_module_forward_pre_hook(hook)

    def judge(self, c, a, argv, seen, viol):
        """what the logs and the universes that were stepped say by themselves"""
        x = 2 if c["ca_fn"] == "RxnDfn" else c["x"]
        evaluate = [q.name for q in a.ranks() if c["workers"] <= 1 or q.rank] or [a.parent.name]
        for q in evaluate:
            if q not in seen and c["workers"] <= c["pop"]:
                viol.append(("no-universe", f"{q} never stepped a universe"))
        for q, calls in seen.items():
            for name, shape, dtype in sorted(calls):
                if dtype != c["dtype"]:
                    viol.append(("other-dtype", f"{q} stepped a grid of {dtype}, {c['dtype']} was asked for"))
                if name != c["ca_fn"]:
                    viol.append(("other-universe", f"{q} stepped a {name}, {c['ca_fn']} was asked for"))
                elif shape[1:] != (x, c["dim"], c["dim"]):
                    viol.append(("other-grid", f"{q} stepped a grid {shape} instead of "
                                 f"{(c['batch'], x, c['dim'], c['dim'])}"))
                elif c["tag"].startswith("xpattern") or c["tag"].startswith("xcoevo"):
                    continue
                elif shape[0] not in (1, c["batch"]):
                    viol.append(("other-batch", f"{q} stepped {shape[0]} grids at once, {c['batch']} were asked for"))
        if not c["tag"].startswith(("xpattern", "xcoevo")) and seen and \
                not any(s[0] == c["batch"] for v in seen.values() for _, s, _ in v):
            viol.append(("other-batch", f"no process stepped {c['batch']} grids at once: {seen}"))
        for s in c["seeds"]:
            log = a.log(s)
            kw = log["kwargs"]
            for _, long, key in self.OPTIONS:
                v = c.get(key)
                if v is None or key in ("env", "ca_fn") or long == "external_channels":
                    continue
                if kw.get(long) != v:
                    viol.append(("log-option", f"seed {s}: the log says {long}={kw.get(long)!r}, {v!r} was asked for"))
            if getattr(kw.get("ca_fn"), "__name__", kw.get("ca_fn")) != c["ca_fn"]:
                viol.append(("log-option", f"seed {s}: the log says ca_fn={kw.get('ca_fn')!r}"))
            env = "GliderWrapper" if c["tag"].startswith(("xpattern", "xcoevo")) else c["env"]
            if getattr(kw.get("env_fn"), "__name__", kw.get("env_fn")) != env:
                viol.append(("log-option", f"seed {s}: the log says env_fn={kw.get('env_fn')!r}"))
            flat = [t for g in kw.get("entry_point", [])[1:] for t in g]
            if sorted(flat) != sorted(argv) or kw["entry_point"][0] != "evolve.py":
                viol.append(("log-entry-point", f"seed {s}: the log gives the command as {kw.get('entry_point')}"))
            if len(log["mean_fitness"]) != c["gens"]:
                viol.append(("generation-count", f"seed {s}: {len(log['mean_fitness'])} generations logged, "
                             f"{c['gens']} were asked for"))
            for config in log["elite_configs"][-1]:
                if c["ca_fn"] == "RxnDfn":
                    break
                k = config["neighborhood_kernel_config"]
                if c.get("config") is None and np.size(k.get("kernel_kwargs", {}).get("parameters", ())) != 3 * c["kp"] \
                        and k["name"] == "GaussianMixture":
                    viol.append(("kernel-peaks", f"seed {s}: kernel {k}, {c['kp']} peaks were asked for"))
                if c.get("config") is None and config["instant_kwargs"].get("conv_mode") != c["conv"]:
                    viol.append(("conv-mode", f"seed {s}: {config['instant_kwargs'].get('conv_mode')} borders, "
                                 f"{c['conv']} was asked for"))
                tag = next((t for t in ("orbium", "geminium") if t in c["tag"]), None)
                if c.get("config") is None and k["radius"] != c["k"]:
                    viol.append(("kernel-radius", f"seed {s}: kernel of radius {k['radius']}, {c['k']} was asked for"))
                if tag and c.get("config") is None and not self.is_kernel(k, tag):
                    viol.append((f"tag-kernel:{tag}", f"seed {s}: the tag has {tag} in it, but the kernel is {k}"))
                if c["ca_fn"] not in ("CODE", "RandomStepCA") and c.get("dt") and c.get("config") is None and \
                        abs(float(config["dt"]) - c["dt"]) > 1e-6:
                    viol.append(("dt-ignored", f"seed {s}: universes of step size {float(config['dt']):.3g}, "
                                 f"{c['dt']} was asked for"))

    def is_kernel(self, k, tag):
        """the kernels of the two universes, as published"""
        kw = k.get("kernel_kwargs", {})
        if tag == "orbium":
            return k["name"] == "Gaussian" and kw.get("mu") == 0.5 and kw.get("sigma") == 0.15
        rings = [0.5, 0.093809, 0.033, 1.0, 0.28143, 0.033, 2 / 3.0, 0.46904, 0.033]
        got = np.asarray(kw.get("parameters", ())).ravel()
        return k["name"] == "GaussianMixture" and got.shape == (9,) and np.allclose(got, rings, atol=1e-6)

    def execute(self, case):
        c = case
        viol = []
        worlds = []
        data = None
        if c.get("from_log"):
            first = self.by_hand(c, {"seeds": [3], "faults": [], "gens": 1, "skews": {}, "schedule": {"choices": []}})
            worlds.append(first.w)
            if first.failure():
                viol.append(("by-hand-failed", first.failure()[1]))
                return lab.finish(worlds, viol)
            data = first.logs()[first.log_path(3)]
            c = dict(c, input="/sim/work/start.npy")
        a = Evolution(c)
        worlds.append(a.w)
        argv = self.command(c)
        w = a.w
        self.put(a, data)
        w.rank_main = lambda prog: (mpi.prepare(w), self.prepare(), mpi.python_main(prog))

        def cli():
            mpi.prepare(w)
            self.prepare()
            if c.get("before"):
                self.earlier(c["before"])
                seen.clear()
            sys.argv = [os.path.join(wm.ROOT, "yuca", "evolve.py")] + argv
            runpy.run_module("yuca.evolve", run_name="__main__", alter_sys=False)

        seen = {}
        a.parent = w.spawn("cli", cli, argv=["evolve"], env=dict(w.base_env), entropy=c["entropy"])
        handle = self.watched(w, seen)
        try:
            w.run()
        finally:
            handle.remove()
        if a.failure():
            viol.append(a.failure())
            return lab.finish(worlds, viol)
        b = self.by_hand(c, {"schedule": c["schedule2"], "faults": [], "skews": {}}, data)
        worlds.append(b.w)
        if b.failure():
            viol.append(("by-hand-failed", b.failure()[1]))
            return lab.finish(worlds, viol)
        compare_logs(a, b, c["seeds"], viol, "not-as-asked", "asked for on the command line and put together by hand",
                     ("dt",) if c["ca_fn"] in ("CODE", "RandomStepCA") else ())
        if not viol:
            self.judge(c, a, argv, seen, viol)
        return lab.finish(worlds, viol, True, {"processes_that_stepped": len(seen)})

    def earlier(self, b):
        """another search in the same process, perhaps one that fails"""
        try:
            importlib.import_module("yuca.evolve").evolve(
                activation="Gaussian", batch_size=b["batch"], ca_steps=1, ca_fn=b["ca_fn"], ca_config=None, internal_channels=1,
                device="cpu", dt=0.3, dtype=b["dtype"], selection_mode=0, generations=1, hidden_channels=2, kernel_radius=2,
                kernel_peaks=1, replicates=1, dim=16, population_size=2, prediction_mode=0, seed=[77], tag=b["tag"], workers=0,
                conv_mode=b["conv"], external_channels=1, git_hash="h", entry_point=["evolve.py"],
                env_fn="HaltingWrapper", input_filepath="/sim/work/none.npy" if b["failed"] else None)
        except Exception:
            if not b["failed"]:
                raise

    def put(self, e, data):
        if data is not None:
            with e.w.host():
                with open("/sim/work/start.npy", "wb") as f:
                    f.write(data)
            e.w.fs.commit()

    def by_hand(self, c, over, data=None):
        b = Evolution(c, over)
        self.put(b, data)

        def program():
            mpi.prepare(b.w)
            self.prepare()
            self.asked(b.case).search()

        b.w.rank_main = lambda prog: program()
        b.parent = b.w.spawn("cli", program, argv=["evolve"], env=dict(b.w.base_env), entropy=c["entropy"])
        b.w.run()
        return b


CHECKS = [E01(), E02(), E03(), E04(), E05(), E06(), E07(), E08()]
