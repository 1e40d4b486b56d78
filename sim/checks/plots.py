"""P01: plots made of a log, at any time (yuca.plot)."""
import importlib
import os
import random

import numpy as np

from .. import evolab, lab, refca
from ..evolab import Evolution
from ..runner import Check
from .evo import ASSUME, SHRINK, base, crash_faults, slow_faults


def figures():
    """what every open figure shows: its lines and its filled areas"""
    import matplotlib.pyplot as plt
    out = []
    for n in plt.get_fignums():
        f = plt.figure(n)
        lines, areas = [], []
        for ax in f.axes:
            for l in ax.lines:
                lines.append((np.array(l.get_xdata(orig=True), dtype=np.float64), np.array(l.get_ydata(orig=True), dtype=np.float64)))
            for c in ax.collections:
                areas += [np.array(p.vertices, dtype=np.float64) for p in c.get_paths()]
        out.append((lines, areas))
    plt.close("all")
    return out


def curve(cfg, x):
    y = refca.Fn(cfg)(x)
    return np.asarray(y, dtype=np.float64)


def compare(figs, log):
    """None when the figures show this log, or what they show otherwise"""
    want = []
    for c in log["elite_configs"][-1]:
        g, p = c["genesis_config"], c["persistence_config"]
        pairs = [(g, p)] if isinstance(g, dict) else list(zip(g, p))
        want += pairs
    if len(figs) != len(want) + 1:
        return f"{len(figs)} figures, expected {len(want)} of elites and one of fitness"
    for k, (g, p) in enumerate(want):
        lines = figs[k][0]
        if len(lines) != 2:
            return f"figure {k} has {len(lines)} lines"
        for cfg, (x, y), what in ((g, lines[0], "genesis"), (p, lines[1], "persistence")):
            if len(x) < 2 or len(x) != len(y) or x.min() > 0 or x.max() < 1:
                return f"figure {k}: {what} is not shown for neighbourhoods from 0 to 1"
            if not np.allclose(y, curve(cfg, x), rtol=1e-3, atol=1e-4):
                return f"figure {k} shows another {what} function than its config has"
    lines, areas = figs[-1]
    mean, top, low, std = (np.array(log[k], dtype=np.float64) for k in
                           ("mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness"))
    n = len(mean)
    shown = [y for x, y in lines if np.array_equal(x, np.arange(n))]
    for v, what in ((mean, "mean"), (top, "best"), (low, "worst")):
        if not any(len(y) == n and np.allclose(y, v, equal_nan=True) for y in shown):
            return f"no line shows the {what} fitness of {n} generations"
    if len(lines) != 3:
        return f"{len(lines)} lines of fitness"
    a = np.concatenate(areas) if areas else np.zeros((0, 2))
    for i in range(n if n > 1 else 0):
        ys = a[a[:, 0] == i, 1]
        if not len(ys) or not np.allclose([ys.min(), ys.max()], [mean[i] - std[i], mean[i] + std[i]], atol=1e-6):
            return f"the band around generation {i} is not mean +- deviation"
    return None


class P01(Check):
    id = "P01"
    quick = 900
    real = ["yuca.plot", "yuca.cmaes, evolve and below (search)", "yuca.ca.continuous", "yuca.activations", "numpy, torch, matplotlib"]
    stubs = ["MPI, file system, clocks, pids, os entropy", "the environment of the search (rewards drawn)", "no display: figures are read, not shown"]
    assumptions = ASSUME
    rule = "a run counts as non-trivial when at least one plot was finished"
    shrink_to = dict(SHRINK, plots=[[1]], internal=[1])

    def generate(self, rng, tier):
        c = base(rng, tier)
        for k in ("env", "dim", "ca_steps", "batch_size", "reward_scale"):
            c.pop(k, None)
        c.update(pop=min(c["pop"], 8), gens=min(max(c["gens"], 2), 4), replicates=1, workers=rng.choice([0, 0, 1, 2, 3]))
        c["ca_fn"] = rng.choice(["CCA", "CCA", "CODE", "Lenia", "MetaCA", "RandomStepCA"])
        c["internal"] = rng.choice([1, 1, 2, 3]) if c["ca_fn"] in ("CCA", "CODE", "RandomStepCA") else 1
        # a plot is made after so many looks at the logs
        c["plots"] = [rng.choice([1, 1, 2, 3, 5, 9]) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .6:
            crash_faults(rng, c, ["/logs", "/logs", "ca_configs"])
        else:
            slow_faults(rng, c)
        return c

    def plotter(self, w, path):
        """plots one log; what it showed and which versions it may have read"""
        plot = importlib.import_module("yuca.plot")
        first = len(self.versions(path)) - 1
        try:
            plot.plot_exp(input_filepath=path, show=0)
        finally:
            figs = figures()
        return path, figs, self.versions(path)[max(first, 0):]

    def versions(self, path):
        return self.seen.setdefault(path, [])

    def execute(self, case):
        ev = Evolution(case)
        w = ev.w
        viol, made = [], []
        self.seen = seen = {}

        def watcher():
            for p, n in w.fs.nodes.items():
                if n is not None and not n.is_dir and p.startswith(evolab.LOGS) and p.endswith(".npy") \
                        and not os.path.basename(p).startswith("."):
                    v = seen.setdefault(p, [])
                    if not v or v[-1] != bytes(n.data):
                        v.append(bytes(n.data))
        w.watch.append(watcher)

        def program(looks):
            def main():
                evolab.simmod(ev)
                import time
                for _ in range(60):
                    time.sleep(.004)
                    names = sorted(f for f in os.listdir(evolab.LOGS) if f.endswith(".npy") and not f.startswith("."))
                    if names:
                        looks_left[0] -= 1
                        if looks_left[0] <= 0:
                            made.append(self.plotter(w, os.path.join(evolab.LOGS, names[0])))
                            return
            looks_left = [looks]
            return main
        ev.start()
        procs = [w.spawn(f"plot{i}", lab.guarded(w, program(n)), group="reader") for i, n in enumerate(case["plots"])]
        w.run()
        for p in procs:
            if p.exit_code not in (0, None) and not any(f["fired"] for f in w.faults):
                viol.append(("plot-failed", lab.proc_error(p)))
        if w.over_budget or w.deadlock:
            viol.append(("stuck", f"{w.deadlock or 'step budget exceeded'}"))
        if not viol:
            if case.get("power") and w.stats.get("crash", 0):
                w.fs.power_fail(random.Random(case["power_seed"]))
                w.stats["fault_power_failure"] += 1
            for path, data in sorted(ev.logs().items()):
                seen[path] = [data]

                def again(path=path):
                    evolab.simmod(ev)
                    made.append(self.plotter(w, path))
                p = lab.observe(w, again)
                if p.exit_code != 0:
                    viol.append(("plot-failed", f"of the log that is left: {lab.proc_error(p)}"))
        for path, figs, versions in made:
            why = [compare(figs, lab.read_obj(b)) for b in versions]
            if None not in why:
                viol.append(("plot-differs", f"{why[-1] if why else 'no log was there'} ({len(why)} versions of the log while it was plotted)"))
        return lab.finish([w], viol, bool(made), {"plots": len(made)})


CHECKS = [P01()]
