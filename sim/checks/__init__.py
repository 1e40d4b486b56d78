import importlib

MODULES = ["evo", "configs", "zoo", "anim", "train", "hist", "app", "universe", "agents", "plots", "life", "fauna"]


def all_checks():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module(f"sim.checks.{m}")
        except ModuleNotFoundError as e:
            if f"sim.checks.{m}" in str(e):
                continue
            raise
        for c in mod.CHECKS:
            out[c.id] = c
    return out


def get(pid):
    return all_checks()[pid]
