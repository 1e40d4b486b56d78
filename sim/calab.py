"""Universes with seeded histories: what was done to them, and how they behave
afterwards. Used wherever a property speaks about 'any history'."""
import copy
import importlib

import numpy as np
import torch

from .evolab import CA_FNS

SHIPPED = {
    "plain": ["orbium.npy", "conway_life.npy", "morley.npy", "smoothlife.npy", "scutium_gravidus.npy",
              "p_sinus_labens.npy", "discutium_valvatus.npy", "exp_test_tag_1671048884_seed13.npy"],
    "wide": ["s613.npy", "geminium2.npy", "hedgehog.npy", "vagoptera.npy", "o_unicaudatus_fixed.npy",
             "exp_local_glaberish_geminium_simple_halt_1649264299_seed11_config.npy"],
    "NCA": ["neurolife_a.npy", "neurorbium_a.npy", "neurop_sinus_labens_a.npy"],
    "RxnDfn": ["uskate_rxndfn.npy"],
}

SHADOWED = ["s643.npy", "synorbium.npy", "vagorbium.npy"]

CONTINUOUS = ["CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA"]
VARIABLE = ("CODE", "RandomStepCA")


# ------------------------------------------------------------ generation
def gen_fn(rng):
    k = rng.choice(["Gaussian", "GaussianMixture", "GaussianMixture", "DoGaussian", "DoubleGaussian",
                    "Polynomial", "SmoothIntervals", "Identity", "Tanh", "ReLU"])
    r = lambda a, b: round(rng.uniform(a, b), 4)
    c = {"name": k, "mode": rng.choice([0, 1])}
    if k in ("Gaussian", "DoGaussian"):
        c.update(mu=r(.1, .4), sigma=r(.01, .1))
    elif k == "DoubleGaussian":
        c.update(mu=[r(.1, .2), r(.3, .5)], sigma=[r(.01, .1), r(.02, .1)])
    elif k == "GaussianMixture":
        n = rng.choice([2, 2, 3, 4, 6, 9])
        c["parameters"] = [r(.05, .5) for _ in range(n)]
        if n % 3 == 0 and rng.random() < .4:
            c["parameters"][::3] = [1.0] * (n // 3)
    elif k == "Polynomial":
        c["coefficients"] = [r(-1, 1) for _ in range(rng.choice([1, 2, 4, 8]))]
    elif k == "SmoothIntervals":
        c["parameters"] = [[r(.1, .2), r(.25, .4)] for _ in range(rng.choice([1, 2]))]
        c["alpha"] = r(.01, .15)
    elif k in ("Identity", "Tanh", "ReLU"):
        c = {"name": k}
    if k == "DoGaussian" and rng.random() < .3:
        c["dx"] = r(.005, .05)
    return leave_out(rng, c, .12)


def leave_out(rng, c, often):
    """not everything has to be said: there are defaults"""
    keys = [k for k in sorted(c) if k != "name"]
    if keys and rng.random() < often:
        del c[rng.choice(keys)]
    return c


def gen_kernel(rng, rxn=False):
    r = lambda a, b: round(rng.uniform(a, b), 4)
    if rxn:
        return {"name": "LaplacianOfGaussian", "kernel_kwargs": {"sigma": r(.3, .9)},
                "radius": rng.choice([1, 2, 3])}
    k = rng.choice(["Gaussian", "Gaussian", "GaussianMixture", "GaussianMixture", "CosOverX2", "DoGaussian",
                    "SmoothLifeKernel", "MooreLike"])
    c = {"name": k, "radius": rng.choice([1, 2, 3, 4, 5])}
    if k == "Gaussian":
        c["kernel_kwargs"] = {"mu": r(.2, .8), "sigma": r(.1, .3)}
    elif k == "GaussianMixture":
        c["kernel_kwargs"] = {"parameters": [r(.1, 1.) for _ in range(3 * rng.choice([1, 2, 3]))]}
    elif k == "CosOverX2":
        c["kernel_kwargs"] = {"mu": r(0., .5), "omega": r(5, 25)}
    elif k == "DoGaussian":
        c["kernel_kwargs"] = {"mu": r(.2, .8), "sigma": r(.1, .3)}
    elif k == "SmoothLifeKernel":
        c["kernel_kwargs"] = {"r_a": 1.0, "r_i": r(.2, .6)}
    if k == "CosOverX2" and rng.random() < .5:
        c["kernel_kwargs"]["mode"] = 1
    if k in ("CosOverX2", "DoGaussian"):
        leave_out(rng, c["kernel_kwargs"], .1)
    return c


def gen_config(rng, family, channels=1):
    """a literal config, as a user would write one (no instant_kwargs)"""
    if family == "RxnDfn":
        c = {"neighborhood_kernel_config": gen_kernel(rng, True),
             "params": [round(rng.uniform(1e-5, 3e-5), 7), round(rng.uniform(5e-6, 2e-5), 7),
                        round(rng.uniform(.01, .07), 4), round(rng.uniform(.03, .07), 4)]}
        if rng.random() < .6:
            c["dt"] = rng.choice([.25, .5, .75])
        if rng.random() < .6:
            c["dx"] = round(1 / rng.choice([143., 256., 330.]), 6)
        return c
    c = {"neighborhood_kernel_config": gen_kernel(rng)}
    one = channels == 1
    c["genesis_config"] = gen_fn(rng) if one else [gen_fn(rng) for _ in range(channels)]
    c["persistence_config"] = gen_fn(rng) if one else [gen_fn(rng) for _ in range(channels)]
    if rng.random() < .5:
        c["dt"] = rng.choice([.05, .2, 1.0])
    if rng.random() < .3:
        c["identity_kernel_config"] = rng.choice([
            {"name": "InnerMoore"},
            {"name": "SmoothLifeKernel", "kernel_kwargs": {"r_a": .34, "r_i": 0.}, "radius": 3},
            {"name": "SmoothLifeKernel", "kernel_kwargs": {"r_a": .75, "r_i": 0.}, "radius": 2}])
    return c


def gen_kwargs(rng, family):
    kw = {}
    if family in CONTINUOUS:
        kw["kernel_radius"] = rng.choice([1, 2, 3, 4, 6])
        if rng.random() < .5:
            kw["kernel_peaks"] = rng.choice([1, 2, 3])
        if rng.random() < .5:
            kw["conv_mode"] = rng.choice(["circular", "zeros", "reflect"])
        if rng.random() < .4:
            kw["internal_channels"] = rng.choice([1, 2, 3, 4, 9])
        if rng.random() < .3:
            kw["external_channels"] = rng.choice([1, 2, 4, 4, 5, 6])
            if kw["external_channels"] >= 4:
                kw["alive_threshold"] = rng.choice([.05, .3, .25, 0.])
        # one neighbourhood for each internal channel
        e, i = kw.get("external_channels", 1), kw.get("internal_channels", 1)
        if i % e:
            kw["internal_channels"] = e * (1 + i // e)
        if i == 1 and e > 1:
            kw["internal_channels"] = e
        if rng.random() < .2:
            kw["use_grad"] = True
        if family == "CODE" and rng.random() < .6:
            kw.update(rng.choice([{"max_dt": .4}, {"min_dt": .05}, {"prev_dt": .1}, {"error_threshold": .01},
                                  {"max_dt": .2, "min_dt": .02, "prev_dt": .05}]))
    elif family == "NCA":
        kw.update(hidden_channels=rng.choice([2, 3, 5]), kernel_radius=rng.choice([1, 2, 4]),
                  kernel_peaks=rng.choice([1, 2, 3]), activation=rng.choice(["Tanh", "ReLU", "SiLU", "Gaussian",
                                                                             "Identity", "ELU", "Sigmoid"]))
        if rng.random() < .4:
            kw["external_channels"] = rng.choice([1, 2, 4])
            kw["internal_channels"] = kw["external_channels"]
            if kw["external_channels"] == 4:
                kw["alive_threshold"] = rng.choice([.05, .25, 0.])
        if rng.random() < .4:
            kw["dropout_rate"] = rng.choice([0., .3])
        if rng.random() < .3:
            kw["conv_mode"] = rng.choice(["circular", "zeros"])
    return kw


def gen_op(rng, family, channels=1, shipped=True):
    """one operation on a universe"""
    s = rng.getrandbits(30)
    ops = [["noise", s, rng.choice([.01, .1, .3])], ["noise", s, .05], ["noise", s, .3],
           ["dt", rng.choice([.03, .1, .25, .5, 1.0]), rng.choice([True, False])],
           ["steps", s, rng.choice([1, 2, 3])], ["reset"], ["no_grad"], ["device"], ["frame", s, rng.choice([0, 1, 2, 3, 4])],
           ["make"], ["reload"], ["reload"]]
    if family == "RxnDfn":
        ops += [["radius", rng.choice([1, 2, 3])], ["dx", round(1 / rng.choice([143., 200., 330.]), 6)],
                ["du", round(rng.uniform(1e-5, 3e-5), 7)], ["dv", round(rng.uniform(5e-6, 2e-5), 7)],
                ["load", gen_config(rng, family)], ["include"]]
        if shipped:
            ops.append(["restore", SHIPPED["RxnDfn"][0]])
        return rng.choice(ops)
    ops += [["kernel", gen_kernel(rng)], ["kernel", gen_kernel(rng)],
            ["kparams", [round(rng.uniform(.1, 1.), 4) for _ in range(3 * rng.choice([1, 2, 3]))]]]
    ops += [["radius", rng.choice([1, 2, 3, 5, 7])]] * 2
    if family == "NCA":
        if shipped:
            ops.append(["restore", rng.choice(SHIPPED["NCA"])])
    else:
        ops += [["load", gen_config(rng, family, channels)]] * 2 + [["include"]]
        if shipped and channels == 1:
            ops.append(["restore", rng.choice(SHIPPED["plain"] + SHIPPED["wide"][:1 + rng.randrange(6)])])
    return rng.choice(ops)


def gen_history(rng, family, kw, n, shipped=True):
    ops = []
    ch = kw.get("internal_channels", 1)
    if kw.get("external_channels", 1) > 1:
        shipped = False
    for _ in range(n):
        ops.append(gen_op(rng, family, ch, shipped))
    return ops


# ------------------------------------------------------------ execution
def family_of(name):
    return getattr(importlib.import_module(CA_FNS[name]), name)


def seed(n):
    np.random.seed(n % (1 << 32))
    torch.manual_seed(n)


def build(name, kw, s=0, **more):
    seed(s)
    return family_of(name)(**{**kw, **more})


def native(c):
    """the config as the libraries write them (arrays, tensors)"""
    c = copy.deepcopy(c)
    for key in ("genesis_config", "persistence_config"):
        for f in (c.get(key) if isinstance(c.get(key), list) else [c.get(key)]):
            if not f:
                continue
            for k in ("parameters", "coefficients"):
                if k in f:
                    f[k] = torch.tensor(f[k]) if f["name"] == "SmoothIntervals" else np.array(f[k])
            for k in ("mu", "sigma"):
                if f["name"] == "DoubleGaussian" and k in f:
                    f[k] = torch.tensor(f[k])
    kk = c.get("neighborhood_kernel_config", {}).get("kernel_kwargs", {})
    if "parameters" in kk:
        kk["parameters"] = np.array(kk["parameters"])
    if "params" in c:
        c["params"] = np.array(c["params"])
    return c


def grid_for(ca, s, batch=1, dim=None):
    r = max(getattr(ca, "kernel_radius", 1), (getattr(ca, "neighborhood_dim", 3) - 1) // 2,
            (getattr(ca, "id_dim", 3) - 1) // 2)
    dim = dim or max(12, r + 2)
    rs = np.random.RandomState(s % (1 << 32))
    ch = ca.external_channels
    g = rs.rand(batch, ch, dim, dim)
    g[:, :, : dim // 3] *= 0.0
    return torch.tensor(g, dtype=torch.float32)


def apply_op(ca, op):
    k = op[0]
    seed(op[1] if len(op) > 1 and isinstance(op[1], int) else 5)
    if k == "noise":
        p = np.asarray(ca.get_params(), dtype=np.float64)
        n = np.random.RandomState(op[1]).randn(*p.shape)
        p = p * (1 + .2 * op[2] * n) if type(ca).__name__ == "RxnDfn" else p + op[2] * n
        ca.set_params(p)
    elif k == "dt":
        ca.set_dt(torch.tensor(op[1]) if op[2] else op[1])
    elif k == "dx":
        ca.set_dx(op[1])
    elif k == "du":
        ca.set_diffusion_u(torch.tensor([op[1]]))
    elif k == "dv":
        ca.set_diffusion_v(torch.tensor([op[1]]))
    elif k == "steps":
        g = grid_for(ca, op[1])
        with torch.no_grad():
            for _ in range(op[2]):
                g = ca(g)
    elif k == "frame":
        with torch.no_grad():
            ca.get_frame(grid_for(ca, op[1]), mode=op[2])
    elif k == "reset":
        ca.reset()
    elif k == "no_grad":
        ca.no_grad()
    elif k == "device":
        ca.to_device("cpu")
    elif k == "make":
        ca.make_config()
    elif k == "reload":
        ca.load_config(ca.make_config())
    elif k == "radius":
        ca.set_kernel_radius(op[1])
    elif k == "kernel":
        ca.set_kernel_config(native({"neighborhood_kernel_config": op[1]})["neighborhood_kernel_config"])
    elif k == "kparams":
        ca.set_kernel_params(np.array(op[1]))
    elif k == "load":
        ca.load_config(native(op[1]))
    elif k == "restore":
        ca.restore_config(op[1], verbose=False)
    elif k == "include":
        ca.include_parameters()
    else:
        raise ValueError(k)


def behaviour(ca, s, steps=3, batch=1, dim=None):
    """what a user observes of a universe: the frames it makes from a given
    start, its parameters and its step sizes (everything as numpy)"""
    name = type(ca).__name__
    if name == "NCA":
        ca.eval()
    seed(s)
    ca.reset()
    g = grid_for(ca, s, batch, dim)
    out = {"params": np.array(ca.get_params(), dtype=np.float64), "frames": [], "radius": int(ca.get_kernel_radius()),
           "channels": (ca.external_channels, ca.internal_channels), "conv_mode": ca.conv_mode}
    if name not in VARIABLE:
        out["dt"] = float(torch.as_tensor(ca.dt).reshape(-1)[0])
        out["dx"] = float(torch.as_tensor(ca.get_dx()).reshape(-1)[0])
    with torch.no_grad():
        if name not in VARIABLE:
            f = ca.get_frame(g, mode=3)
            out["growth"] = [x.numpy().copy() for x in f]
            ca.reset()
        for _ in range(steps):
            g = ca(g)
            out["frames"].append(g.numpy().copy())
    t = getattr(ca, "t_count", None)
    if t is not None:
        out["time"] = float(torch.as_tensor(t).reshape(-1)[0])
    return out
