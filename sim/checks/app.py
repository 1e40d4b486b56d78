"""B01: the pattern viewer (gecco_bokeh_app)."""
import contextlib
import csv
import importlib
import io
import os
import re
import types

import numpy as np
import torch

from .. import calab, lab
from .. import world as wm
from ..runner import Check
from .zoo import librarian

MAIN = os.path.join(wm.ROOT, "gecco_bokeh_app", "main.py")
ZOO = os.path.join(wm.ROOT, "yuca", "zoo")
LABELS = {"next": ("Next pattern",), "prev": ("Previous pattern",), "this": ("Reset current pattern",),
          "go": ("Run >", "Pause"), "faster": ("Faster >>",), "slower": ("<< Slower",)}
SIDE = 96


def gen_extra(rng):
    name = rng.choice(["aa_first", "zz_last", "orbium_mine", "m", "zz_last", "gol_mine"])
    return {"name": name, "shape": rng.choice([[1, 1, 20, 20], [1, 1, 5, 9], [30, 12], [1, 1, 64, 33], [1, 8, 8], [90, 90], [1, 1, 1, 1]]),
            "seed": rng.getrandbits(20), "dtype": rng.choice(["float32", "float64"]),
            "config": rng.choice(calab.SHIPPED["plain"] + calab.SHIPPED["wide"]),
            "hash": rng.choice(["none", "none", "abc123", "not_specified"]), "notes": rng.choice([None, "", "a note"])}


def array(e):
    return np.random.RandomState(e["seed"]).rand(*e["shape"]).astype(e["dtype"])


class Session:
    """what one browser tab sees and does: the document of one session of the server"""

    def __init__(self, w, code):
        from bokeh.document import Document
        self.w, self.doc, self.due = w, Document(), {}
        self.mod = types.ModuleType("bokeh_app_session")
        self.mod.__file__ = MAIN
        with self.current():
            exec(code, self.mod.__dict__)
        self.timers()

    @contextlib.contextmanager
    def current(self):
        """as the server does: the document of the session is the current one"""
        from bokeh.io import doc
        doc._PATCHED_CURDOCS[:] = []
        try:
            with doc.patch_curdoc(self.doc):
                yield
        finally:
            doc._PATCHED_CURDOCS[:] = []

    def models(self, *names):
        return [m for m in self.doc.models if type(m).__name__ in names]

    def button(self, what):
        got = [b for b in self.models("Button") if b.label in LABELS[what]]
        if len(got) != 1:
            raise AssertionError(f"{len(got)} buttons labelled {LABELS[what]}")
        return got[0]

    def click(self, what):
        from bokeh.events import ButtonClick
        b = self.button(what)
        with self.current():
            b._trigger_event(ButtonClick(b))
        self.timers()

    def timers(self):
        cbs = self.doc.session_callbacks
        self.due = {c: self.due.get(c, self.w.now + c.period / 1000) for c in cbs}

    def fire(self, c):
        self.due[c] = max(self.due[c] + c.period / 1000, self.w.now)
        with self.current():
            c.callback()
        self.timers()

    def view(self):
        src = [m for m in self.models("ColumnDataSource") if "my_image" in m.data or any(
            len(v) and np.ndim(v[-1]) == 2 for v in m.data.values())]
        img = [v[-1] for m in src for v in m.data.values() if len(v) and np.ndim(v[-1]) == 2]
        text = "\n".join(m.text for m in self.models("Paragraph"))
        g = lambda p: (re.findall(p, text) or [None])[-1]
        return {"image": np.array(img[0]) if len(img) == 1 else None, "alias": g(r"alias: (.*)"), "config": g(r"CA config: (\S*)"),
                "step": g(r"Step (\d+)"), "period": g(r"period: ([\d.]+)"), "text": text,
                "running": self.button("go").label == "Pause", "timers": sorted(c.period for c in self.due)}


class B01(Check):
    id = "B01"
    quick = 700
    real = ["gecco_bokeh_app/main.py", "bokeh documents, models, events and session callbacks", "yuca.zoo.librarian, yuca.ca.continuous",
            "the shipped zoo and configs, numpy, torch"]
    stubs = ["the bokeh server and browser: an event loop over simulated time which delivers clicks and periodic callbacks",
             "the file system: in-memory over the repository, journalled", "time, pids, os entropy"]
    assumptions = ["sessions of one server run in one thread, as tornado runs them",
                   "added patterns have one channel and leave the margin the display needs"]
    rule = "a run counts as non-trivial when a pattern was shown and stepped or changed by a click"
    shrink_lists = ("ops", "extras")

    def generate(self, rng, tier):
        c = {"extras": [gen_extra(rng) for _ in range(rng.choice([0, 0, 0, 1, 2, 3, 5]))], "ops": [["open"]], "faults": [],
             "schedule": {"choices": []}, "entropy": rng.getrandbits(20), "list_seed": rng.getrandbits(20), "eager_zoo": rng.random() < .5}
        mood = rng.choice(["walk", "walk", "run", "mixed", "mixed", "mixed", "tour"])
        sessions = 1
        for _ in range(rng.choice([3, 8, 15, 25]) if mood != "tour" else rng.choice([40, 60])):
            s = rng.randrange(sessions)
            r = rng.random()
            if mood == "tour":
                op = [rng.choice(["next", "next", "next", "next", "next", "this"] if rng.random() < .9 else ["prev"]), s]
            elif r < .06 and sessions < 3:
                op, sessions = ["open"], sessions + 1
            elif r < .08 and sessions > 1:
                op = ["close", s]
            elif r < .10:
                op = ["store", gen_extra(rng)]
            elif r < (.3 if mood == "walk" else .6 if mood == "run" else .4):
                op = ["wait", rng.choice([.05, .3, .6, 1.1, 2.5])]
            elif mood == "walk":
                op = [rng.choice(["next", "prev", "prev", "next", "this", "go"]), s]
            elif mood == "run":
                op = [rng.choice(["go", "go", "faster", "slower", "this"]), s]
            else:
                op = [rng.choice(["next", "prev", "this", "go", "go", "faster", "slower"]), s]
            c["ops"] += [op] * (1 if rng.random() < .8 or op[0] == "open" else rng.choice([2, 3, 6]))
        if rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(["eio", "eio", "jump", "stall"])
                f = {"kind": k, "at": rng.randint(1, 60), "proc": "server", "on": ["open", "read"],
                     "path": rng.choice(["/zoo/", "/ca_configs/", ".npy", ".csv"])}
                if k == "jump":
                    f["secs"] = rng.choice([-3600., -1., 5., 86400.])
                c["faults"].append(f)
        return c

    # ------------------------------------------------------------ the server
    def server(self, w, case, seen):
        with open(MAIN) as f:
            code = compile(f.read(), MAIN, "exec")
        tabs = []

        def stored():
            return {os.path.basename(p)[:-4] for p in lab.find_files(w, ZOO)}
        for i, op in enumerate(case["ops"]):
            kind = op[0]
            w.point(kind, str(op[1:])[:40])
            before = sum(f["fired"] for f in w.faults)
            try:
                if kind == "open":
                    tabs.append(None)
                    tabs[-1] = Session(w, code)
                    seen.append((i, kind, len(tabs) - 1, None, tabs[-1].view()))
                elif kind == "store":
                    e = op[1]
                    librarian().store(array(e), pattern_name=e["name"], config_name=e["config"], commit_hash=e["hash"], notes=e["notes"])
                    seen.append((i, kind, None, None, stored()))
                elif kind == "wait":
                    end = w.now + op[1]
                    while True:
                        due = [(t.due[c], k, c) for k, t in enumerate(tabs) if t for c in t.due]
                        if not due or min(due, key=lambda d: d[:2])[0] > end:
                            break
                        at, k, c = min(due, key=lambda d: d[:2])
                        w.sleep(max(0.0, min(at, end) - w.now))
                        err = None
                        try:
                            tabs[k].fire(c)
                        except Exception as e:
                            err = (type(e).__name__, str(e)[:150], False)
                            tabs[k].timers()
                        seen.append((i, "tick", k, err, tabs[k].view()))
                    w.sleep(max(0.0, end - w.now))
                elif op[1] < len(tabs) and tabs[op[1]] is not None:
                    if kind == "close":
                        tabs[op[1]] = None
                        seen.append((i, kind, op[1], None, None))
                    else:
                        tabs[op[1]].click(kind)
                        seen.append((i, kind, op[1], None, tabs[op[1]].view()))
            except Exception as e:
                k = len(tabs) - 1 if kind == "open" else None if kind in ("store", "wait") else op[1]
                if k is not None and tabs[k] is not None:
                    tabs[k].timers()
                seen.append((i, kind, k, (type(e).__name__, str(e)[:150], sum(f["fired"] for f in w.faults) > before),
                             stored() if kind == "store" else tabs[k].view() if k is not None and tabs[k] is not None else None))
                if kind == "wait":
                    raise

    # ------------------------------------------------------------ what it must show
    def zoo(self, w):
        """name -> (array, metadata), read with nothing of the code under test"""
        out = {}
        names = [n for n in os.listdir(ZOO) if n.endswith(".npy")]
        data = {n: open(os.path.join(ZOO, n), "rb").read() for n in names}
        for p, n in w.fs.nodes.items():
            if n is not None and p.startswith(ZOO + "/") and p.endswith(".npy"):
                data[os.path.basename(p)] = bytes(n.data)
        for n, b in data.items():
            c = os.path.join(ZOO, n[:-4] + ".csv")
            v = w.fs.nodes.get(c)
            text = bytes(v.data).decode() if v is not None else open(c, newline="").read()
            rows = {r[0].strip(): r[1].strip() for r in csv.reader(io.StringIO(text, newline="")) if len(r) > 1}
            out[n[:-4]] = (np.load(io.BytesIO(b)), rows)
        return out

    def main(self, w, zoo, wanted, out):
        for name, n in wanted.items():
            a, rows = zoo[name]
            a = torch.tensor(a)
            grid = torch.zeros(1, 1, SIDE, SIDE)
            h, x = (SIDE - a.shape[-2]) // 2 - 3, (SIDE - a.shape[-1]) // 2 - 3
            grid[:, :, h:h + a.shape[-2], x:x + a.shape[-1]] = a
            frames = [grid[0, 0].numpy().copy()]
            if n:
                ca = importlib.import_module("yuca.ca.continuous").CCA()
                ca.restore_config(rows["ca_config"])
                ca.no_grad()
                for _ in range(n):
                    grid = ca(grid)
                    frames.append(grid[0, 0].detach().numpy().copy())
            out[name] = frames

    def execute(self, case):
        w = wm.World(case)
        viol, seen = [], []

        def store():
            lib = librarian()
            for e in case["extras"]:
                lib.store(array(e), pattern_name=e["name"], config_name=e["config"], commit_hash=e["hash"], notes=e["notes"])
        faults, w.faults = w.faults, []
        p = w.spawn("storer", lab.guarded(w, store), entropy=1)
        w.run()
        w.faults = faults
        names0 = self.zoo(w)
        p1 = w.spawn("server", lab.guarded(w, lambda: self.server(w, case, seen)), entropy=case["entropy"])
        w.run()
        for q in (p, p1):
            if q.exit_code != 0:
                viol.append(("failed", lab.proc_error(q)))
        zoo = self.zoo(w)
        wanted, checks = {}, []
        if not viol:
            self.follow(case, seen, sorted(names0), zoo, viol, wanted, checks)
        if not [v for v in viol if not v[0].startswith("cannot-show")]:
            frames = {}
            q = lab.observe(w, lambda: self.main(w, zoo, wanted, frames))
            if q.exit_code != 0:
                viol.append(("failed-fresh", lab.proc_error(q)))
            else:
                for what, name, n, image in checks:
                    ref = frames[name][n]
                    if image is None or image.shape != ref.shape or not np.allclose(image, ref, atol=1e-4):
                        viol.append(("image", f"{what}: the image is not {name} after {n} steps"))
                        break
        return lab.finish([w], viol, len(seen) > 2, {"clicks": sum(s[1] in LABELS for s in seen), "ticks": sum(s[1] == "tick" for s in seen),
                                                     "images": len(checks), "sessions": sum(s[1] == "open" for s in seen)})

    @staticmethod
    def capable(entry):
        a, rows = entry
        cfg = os.path.join(wm.ROOT, "ca_configs", rows["ca_config"])
        return max(a.shape[-2:]) <= SIDE - 6 and "genesis_config" in np.load(cfg, allow_pickle=True).reshape(1)[0]

    def follow(self, case, seen, names, zoo, viol, wanted, checks):
        """replays the clicks on a model and compares what each session shows"""
        tabs = {}
        used = set(names)

        def hidden(n):
            return zoo[n][1].get("commit_hash", "none") == "none"

        def walk(order, at, d):
            """positions passed through, the last one is shown"""
            path = []
            for _ in range(len(order)):
                at = (at + d) % len(order)
                path.append(at)
                if not hidden(order[at]):
                    return path
            return path

        def bad(sig, msg):
            viol.append((sig, msg))
            return False

        for i, kind, k, err, v in seen:
            what = f"operation {i} ({kind}) on session {k}"
            if kind == "store":
                if err and not err[2]:
                    return bad("store", f"{what}: {err}")
                used = used | v
                continue
            if kind == "close":
                tabs.pop(k, None)
                continue
            if kind == "open":
                if err:
                    if err[2]:
                        continue
                    return bad("open", f"{what}: the app does not start: {err[:2]}")
                order = sorted(n for n in zoo if n in used)
                t = tabs[k] = {"order": order, "at": {len(order) - 1}, "n": 0, "run": False, "period": 512, "known": True}
                target = {len(order) - 1}
            else:
                t = tabs[k]
                order = t["order"]
                target = None
            if kind in ("next", "prev", "this"):
                paths = {a: walk(order, a, 1 if kind == "next" else -1) if kind != "this" else [a] for a in t["at"]}
                target = {p[-1] for p in paths.values()}
                if err:
                    at = {x for a, p in paths.items() for x in [a] + p}
                    if not err[2]:
                        # nothing was injected: the pattern itself is at fault
                        stop = {next((x for x in p if not self.capable(zoo[order[x]])), p[-1]) for p in paths.values()}
                        name = min((order[a] for a in stop), key=lambda n: (self.capable(zoo[n]), n))
                        bad(f"cannot-show:{name}", f"{what}: {name}: {err[0]}: {err[1]}")
                        at = stop if len(stop) == 1 else at
                    t["at"], t["known"] = at, False
                    target = None
                    if self.controls(t, v, what, bad) is False:
                        return
                    continue
            elif err and kind == "tick" and not t["known"]:
                continue
            elif err:
                return bad("click", f"{what}: {err[0]}: {err[1]}")
            if kind == "go":
                t["run"] = not t["run"]
            elif kind == "faster":
                t["period"] = max(t["period"] / 2, 128)
            elif kind == "slower":
                t["period"] = min(t["period"] * 2, 8192)
            if target is not None:
                got = {a for a in target if order[a] == v["alias"]}
                if not got:
                    return bad("order", f"{what}: shows {v['alias']!r} instead of {[order[a] for a in target]}")
                t.update(at=got, n=0, known=True)
                rows = zoo[v["alias"]][1]
                cfg = os.path.splitext(rows["ca_config"])[0]
                for key, want in (("ca_config", cfg), ("commit_hash", rows.get("commit_hash", "")), ("entry_point", rows.get("entry_point", ""))):
                    if want not in v["text"]:
                        return bad("texts", f"{what}: {key} {want!r} of {v['alias']} is not shown")
            elif kind == "tick":
                t["n"] += 1
                if t["known"] and (v["step"] is None or int(v["step"]) != t["n"]):
                    return bad("step", f"{what}: shows step {v['step']} after {t['n']} steps")
                if float(v["period"] or 0) != t["period"]:
                    return bad("step", f"{what}: shows period {v['period']}, it is {t['period']}")
            if self.controls(t, v, what, bad) is False:
                return
            if t["known"]:
                name = order[next(iter(t["at"]))]
                wanted[name] = max(wanted.get(name, 0), t["n"])
                checks.append((what, name, t["n"], v["image"]))

    def controls(self, t, v, what, bad):
        if v is None:
            return True
        if v["running"] != t["run"] or len(v["timers"]) != int(t["run"]):
            return bad("control", f"{what}: {'Pause' if v['running'] else 'Run'} is offered with {len(v['timers'])} timers, "
                       f"the universe should be {'running' if t['run'] else 'paused'}")
        if t["run"] and v["timers"][0] != int(t["period"]):
            return bad("control", f"{what}: updates every {v['timers'][0]} ms instead of {t['period']}")
        return True


CHECKS = [B01()]
