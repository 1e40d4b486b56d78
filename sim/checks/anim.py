"""G01-G02: animations (yuca.utils.save_fig_sequence)."""
import copy
import importlib
import io
import os
import random
import re

import numpy as np
import torch
from PIL import Image, ImageSequence

from .. import calab, lab
from .. import world as wm
from ..runner import Check

REAL = ["yuca.utils (save_fig_sequence, make_gif)", "all universe classes", "scikit-image and imageio PNG writing, "
        "PIL GIF writing", "numpy, torch, matplotlib colormaps"]
STUBS = ["the file system: in-memory, journalled", "time, pids, os entropy", "processes: one interpreter, fresh "
         "modules and generator states for each"]
ASSUME = ["the picture of a grid is what PIL makes of its exact colours; runs of equal frames may be merged into one "
          "longer frame, as PIL does"]
WORK = "/sim/work"


def gen_job(rng):
    fam = rng.choice(["CCA", "CCA", "CCA", "Lenia", "CODE", "NCA", "RxnDfn", "RandomStepCA", "MetaCA"])
    kw = {"kernel_radius": rng.choice([1, 2, 3])} if fam != "RxnDfn" else {}
    if fam == "NCA":
        kw["hidden_channels"] = 3
    if fam not in ("RxnDfn", "NCA", "MetaCA"):
        ch = rng.choice([1, 1, 1, 1, 2, 3, 4, 5])
        if ch > 1:
            kw.update(external_channels=ch, internal_channels=ch)
        if ch == 4:
            kw["alive_threshold"] = .05
    job = {"family": fam, "kw": kw, "init_seed": rng.getrandbits(20), "grid_seed": rng.getrandbits(20),
           "dim": rng.choice([12, 14, 17]), "scale": rng.choice([1.0, 1.0, 1.0, .3, 0.0005, 0.02]),
           "noise": rng.random() < .3, "steps": rng.choice([1, 2, 3, 4, 5, 8, 11, 13]),
           "speedup": rng.choice([1, 1, 2, 3]), "invert": rng.random() < .7,
           "tag": rng.choice(["a", "a", "no_tag", ["sub", "b"], ["a", "a"], "t_1"])}
    if rng.random() < .06:
        job["steps"], job["dim"] = rng.choice([51, 60, 101]), 12
    if rng.random() < .2:
        job["cmap"] = rng.choice(["viridis", "gray"])
    if rng.random() < .4:
        job["gif_path"] = rng.choice(["./assets", "out/gifs", "/sim/work/elsewhere"])
    if rng.random() < .4:
        job["frames_path"] = rng.choice(["./assets/gif_frames/", "frames", "/sim/work/deep/er/frames", "./assets/gif_frames"])
    if fam == "CODE":
        job["steps"] = min(job["steps"], 5)
    return job


def start(job):
    ca = calab.build(job["family"], job["kw"], job["init_seed"])
    if job["noise"]:
        calab.apply_op(ca, ["noise", job["grid_seed"], .1])
    g = calab.grid_for(ca, job["grid_seed"], 1, job["dim"]) * job["scale"]
    calab.seed(job["grid_seed"])
    ca.reset()
    return ca, g


def animate(job):
    ca, g = start(job)
    kw = {k: job[k] for k in ("gif_path", "frames_path") if k in job}
    if "cmap" in job:
        import matplotlib.pyplot as plt
        kw["cmap"] = plt.get_cmap(job["cmap"])
    tag = job["tag"] if isinstance(job["tag"], str) else list(job["tag"])
    importlib.import_module("yuca.utils").save_fig_sequence(
        g, ca, num_steps=job["steps"], tag=tag, speedup=job["speedup"], invert_colors=job["invert"], **kw)


def place(job):
    """(directory, name pattern) of the animation"""
    top = os.path.normpath(os.path.join(WORK, job.get("gif_path", "./assets")))
    tag = job["tag"] if isinstance(job["tag"], str) else job["tag"][0]
    name = job["tag"] if isinstance(job["tag"], str) else job["tag"][1]
    return os.path.join(top, tag), rf"gif_{re.escape(name)}_\d{{4,}}\.gif"


def picture(job, g):
    """the colours of one grid"""
    a = g[0].detach().cpu().numpy()
    if a.shape[0] >= 3:
        img = np.uint8(255 * a[:4] if a.shape[0] >= 4 else 255 * a[:3]).transpose(1, 2, 0).copy()
    elif a.shape[0] == 2:
        z = np.zeros(a.shape[1:], dtype=np.uint8)
        img = np.stack([z, np.uint8(255 * a[0]), np.uint8(255 * a[1])], axis=-1)
    else:
        import matplotlib.pyplot as plt
        img = np.uint8(255 * plt.get_cmap(job.get("cmap", "magma"))(a[0]))
    if job["invert"]:
        img[..., :3] = 255 - img[..., :3]
    return img


def expected(job):
    """the frames the animation must show: [] when there must be none"""
    ca, g = start(job)
    grids = []
    vanished = False
    for _ in range(job["steps"]):
        if float(g.max()) < 0.001:
            vanished = True
            break
        grids.append(g)
        for _ in range(job["speedup"]):
            g = ca.get_frame(g)
    if not grids or (len(grids) == 1 and not vanished):
        return []
    ims = [Image.fromarray(picture(job, x)) for x in grids]
    f = io.BytesIO()
    ims[0].save(f, format="GIF", append_images=ims[1:], save_all=True, duration=42, loop=0)
    return decode(f.getvalue())


def decode(data):
    """[(hash of the picture, milliseconds)] ; raises when not a complete GIF"""
    im = Image.open(io.BytesIO(data))
    if im.format != "GIF" or im.info.get("loop") != 0:
        raise ValueError("not a looping gif")
    out = []
    for f in ImageSequence.Iterator(im):
        out.append((lab.digest(np.asarray(f.convert("RGBA"))), f.info.get("duration")))
    if not data.endswith(b";"):
        raise ValueError("truncated")
    return out


def merge(fr):
    """runs of equal frames as one"""
    out = []
    for h, d in fr:
        if out and out[-1][0] == h:
            out[-1] = (h, out[-1][1] + d)
        else:
            out.append((h, d))
    return out


def gifs(w):
    return lab.find_files(w, WORK, ".gif")


def others(w):
    """every file that is not an animation"""
    return {p: b for p, b in lab.find_files(w, WORK, "").items() if not p.endswith(".gif")}


def oracle(w, jobs, out):
    """frames of every job, by an independent renderer in a process of its own each"""
    for i, job in enumerate(jobs):
        def main(job=job, i=i):
            out[i] = merge(expected(job))
        p = lab.observe(w, main, f"oracle{i}")
        if p.exit_code != 0:
            raise RuntimeError(p.tb)


def foreign(w, case):
    """files of others in the directories the animations use"""
    keep = {}
    for f in case.get("foreign", ()):
        lab.mkdir(w, os.path.dirname(f))
        with w.host():
            if f.endswith(".png"):
                b = io.BytesIO()
                Image.fromarray(np.full((12, 12, 3), 77, dtype=np.uint8)).save(b, format="PNG")
                data = b.getvalue()
            else:
                data = b"not a gif of ours " + f.encode()
            with open(f, "wb") as h:
                h.write(data)
        keep[f] = data
    if case.get("crowd"):
        d, name = place(case["crowd"])
        lab.mkdir(w, d)
        stem = name.split(r"\d")[0].replace("\\", "")
        with w.host():
            for i in range(case["crowd_from"], 1000):
                f = os.path.join(d, f"{stem}{i:04d}.gif")
                with open(f, "wb") as h:
                    h.write(b"old")
                keep[f] = b"old"
    w.fs.commit()
    return keep


def gen_foreign(rng, c, jobs):
    if rng.random() < .5:
        c["foreign"] = rng.sample(["/sim/work/assets/gif_frames/frame_00000.png", "/sim/work/assets/gif_frames/frame_00003.png",
                                   "/sim/work/frames/x.png", "/sim/work/deep/er/frames/frame_00001.png",
                                   "/sim/work/assets/a/gif_a_0000.gif", "/sim/work/assets/gif_frames/a.txt",
                                   "/sim/work/assets/gif_frames_old/frame_00000.png"], rng.choice([1, 2, 4]))
    if rng.random() < .25:
        c["crowd"] = rng.choice(jobs)
        c["crowd_from"] = rng.choice([0, 0, 500, 990])


def judge(w, jobs, done, started, keep, viol, before):
    """compare everything on the disk with what the finished jobs must have left"""
    exp = {}
    oracle(w, jobs, exp)
    files = {p: b for p, b in gifs(w).items() if p not in keep}
    for f, b in keep.items():
        now = lab.find_files(w, os.path.dirname(f), "").get(f)
        if now != b:
            viol.append(("foreign-file", f"{f}, which was there before, was {'deleted' if now is None else 'overwritten'}"))
            return 0
    left = {}
    for p, b in sorted(files.items()):
        try:
            left[p] = merge(decode(b))
        except Exception as e:
            left[p] = f"{type(e).__name__}: {e}"
    n = 0
    for i in done:
        if not exp[i]:
            continue
        n += 1
        d, name = place(jobs[i])
        hit = [p for p in left if os.path.dirname(p) == d and re.fullmatch(name, os.path.basename(p)) and left[p] == exp[i]]
        if hit:
            del left[hit[0]]
            continue
        cand = [v for p, v in left.items() if os.path.dirname(p) == d and re.fullmatch(name, os.path.basename(p))]
        if not cand:
            viol.append(("missing", f"the animation of {jobs[i]['family']} in {d} is missing"))
        else:
            v = cand[0]
            if isinstance(v, str):
                m = v
            else:
                m = f"{len(v)} frames in {sum(x[1] for x in v)} ms, expected {len(exp[i])} in {sum(x[1] for x in exp[i])} ms"
                if len(v) == len(exp[i]):
                    m += "; frames " + str([k for k in range(len(v)) if v[k] != exp[i][k]][:8]) + " differ"
            viol.append(("frames", f"no animation shows what the universe ({jobs[i]['family']}) went through: {m}"))
        return n
    if len(left) > len(started) - len(done):
        p = sorted(left)[0]
        viol.append(("extra", f"{p} is not an animation that was asked for"))
        return n
    if len(started) == len(done):
        extra = set(others(w)) - set(keep) - before
        if extra:
            viol.append(("litter", f"left behind: {sorted(extra)[:3]}"))
    return n


class G01(Check):
    id = "G01"
    quick = 900
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = "a run counts as non-trivial when at least one animation of two or more frames was due"
    shrink_to = {"foreign": [[]], "crowd": [None], "jumps": [[]]}
    shrink_lists = ("jobs",)

    def generate(self, rng, tier):
        jobs = [gen_job(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        c = {"jobs": jobs, "faults": [], "entropy": rng.getrandbits(20), "schedule": {"choices": []},
             "t0": 1_600_000_000 + rng.choice([0.0, 0.999, rng.random()]), "list_seed": rng.getrandbits(20)}
        for _ in range(rng.choice([0, 0, 1, 2])):
            c["faults"].append({"kind": rng.choice(["jump", "jump", "stall", "short"]), "at": rng.randint(1, 60),
                                "secs": rng.choice([-1.0, -.01, .5, -1000.0]), "frac": rng.random()})
            if c["faults"][-1]["kind"] == "stall":
                c["faults"][-1]["secs"] = 3.
            if c["faults"][-1]["kind"] == "short":
                c["faults"][-1]["on"] = ["write"]
        gen_foreign(rng, c, jobs)
        return c

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, WORK)
        viol, done, started = [], [], []
        keep = foreign(w, case)
        before = set(others(w))

        def main():
            for i, job in enumerate(case["jobs"]):
                started.append(i)
                animate(job)
                done.append(i)

        p = w.spawn("animator", lab.guarded(w, main), entropy=case["entropy"])
        w.run()
        n = 0
        if p.exit_code != 0 or w.deadlock or w.over_budget:
            viol.append(("failed", lab.proc_error(p)))
        else:
            n = judge(w, case["jobs"], done, started, keep, viol, before)
        return lab.finish([w], viol, n > 0, {"animations": n})


class G02(Check):
    id = "G02"
    quick = 500
    real, stubs = REAL, STUBS
    assumptions = ASSUME + ["creating a file exclusively and making a temporary directory are atomic between processes"]
    rule = "a run counts as non-trivial when two or more processes made animations and at least one of them finished"
    shrink_to = {"foreign": [[]], "crowd": [None], "machines": [False]}

    def generate(self, rng, tier):
        shared = {k: v for k, v in gen_job(rng).items() if k in ("tag", "gif_path", "frames_path")}
        procs = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            js = []
            for _ in range(rng.choice([1, 1, 2])):
                j = gen_job(rng)
                j["steps"] = min(j["steps"], 8)
                j["scale"] = rng.choice([1., 1., .3])
                if rng.random() < .8:
                    for k in ("tag", "gif_path", "frames_path"):
                        j.pop(k, None)
                    j.update(copy.deepcopy(shared))
                js.append(j)
            procs.append(js)
        names = [f"animator{i}" for i in range(len(procs))]
        c = {"procs": procs, "faults": [], "entropy": rng.getrandbits(20) if rng.random() < .6 else None,
             "schedule": lab.schedule(rng, names), "t0": 1_600_000_000 + rng.choice([0.0, 0.999, rng.random()]),
             "list_seed": rng.getrandbits(20)}
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(["jump", "stall", "crash", "crash", "eio", "enospc", "torn"])
            f = {"kind": k, "at": rng.randint(1, 40), "proc": rng.choice(names), "scope": "proc", "secs": rng.choice([2., -1., -.3]),
                 "frac": rng.random()}
            if k == "stall":
                f["secs"] = abs(f["secs"])
            if k == "eio":
                f["on"] = [rng.choice(["create", "write", "close"])]
                f["at"] = rng.randint(1, 8)
            c["faults"].append(f)
        # processes of one number on several machines that share the disk
        c["machines"] = rng.random() < .4
        gen_foreign(rng, c, procs[0])
        return c

    def smaller(self, case):
        yield from super().smaller(case)
        for i in range(len(case["procs"])):
            if len(case["procs"]) > 1:
                c = copy.deepcopy(case)
                del c["procs"][i]
                yield c
            for k in range(len(case["procs"][i])):
                if len(case["procs"][i]) > 1:
                    c = copy.deepcopy(case)
                    del c["procs"][i][k]
                    yield c
                for key, v in (("steps", 2), ("steps", 3), ("speedup", 1), ("family", "CCA"), ("kw", {"kernel_radius": 1})):
                    if case["procs"][i][k][key] != v:
                        c = copy.deepcopy(case)
                        c["procs"][i][k][key] = v
                        yield c

    def execute(self, case):
        w = wm.World(case)
        lab.mkdir(w, WORK)
        viol, done, started, jobs = [], [], [], []
        keep = foreign(w, case)
        before = set(others(w))
        ps = []
        for n, js in enumerate(case["procs"]):
            ids = range(len(jobs), len(jobs) + len(js))
            jobs += js

            def main(ids=ids):
                for i in ids:
                    started.append(i)
                    animate(jobs[i])
                    done.append(i)
            ps.append(w.spawn(f"animator{n}", lab.guarded(w, main),
                              entropy=n if case["entropy"] is None else case["entropy"] + n))
            if case.get("machines"):
                ps[-1].pid = ps[0].pid
        w.run()
        if w.deadlock or w.over_budget:
            viol.append(("stuck", str(w.deadlock)))
        hit = [f.get("proc") for f in w.faults if f["fired"] and f["kind"] in ("crash", "torn", "eio", "enospc")]
        for p in ps:
            if p.exit_code != 0 and p.name not in hit and not any(f["fired"] and f["kind"] == "enospc" for f in w.faults):
                viol.append(("failed", f"{p.name}: {lab.proc_error(p)}"))
                break
        n = 0
        if not viol:
            n = judge(w, jobs, done, started, keep, viol, before)
        return lab.finish([w], viol, n > 0 and len(case["procs"]) > 1, {"animations": n})


CHECKS = [G01(), G02()]
