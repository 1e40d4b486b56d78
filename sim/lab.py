"""Helpers shared by the checks: running programs in a world, reading what they
left on the simulated disk, and comparing it."""
import hashlib
import io
import os
import pickle
import random
import sys
import types

import numpy as np
import torch

from . import mpi
from . import world as wm


# ------------------------------------------------------------ reading npy
class Ghost:
    """stands for an object of a class of the code under test"""

    def __init__(self, *a, **k):
        pass

    def __setstate__(self, s):
        self.state = s


def ghost(module, name):
    return type(name, (Ghost,), {"__module__": module})


class _Unpickler(pickle.Unpickler):
    def find_class(self, module, name):
        if wm._is_private(module) or module.startswith("sim"):
            return ghost(module, name)
        return super().find_class(module, name)


def read_npy(data):
    """parse the bytes of an .npy file; raises on anything incomplete"""
    f = io.BytesIO(data)
    v = np.lib.format.read_magic(f)
    shape, fortran, dtype = np.lib.format._read_array_header(f, v)
    if dtype.hasobject:
        a = _Unpickler(f).load()
        if not isinstance(a, np.ndarray):
            raise ValueError("not an array")
        return a.reshape(shape)
    n = int(np.prod(shape, dtype=np.int64)) if shape else 1
    raw = f.read(n * dtype.itemsize)
    if len(raw) != n * dtype.itemsize:
        raise ValueError("truncated array data")
    a = np.frombuffer(raw, dtype=dtype)
    return a.reshape(shape[::-1]).T if fortran else a.reshape(shape)


def read_obj(data):
    return read_npy(data).reshape(1)[0]


def find_files(w, top, suffix=".npy"):
    """simulated files (path -> bytes) below `top`, without scheduling"""
    out = {}
    for p, n in list(w.fs.nodes.items()):
        if n is not None and p.startswith(top.rstrip("/") + "/") and not n.is_dir \
                and p.endswith(suffix):
            out[p] = bytes(n.data)
    return out


def mkdir(w, path):
    acc = ""
    for p in path.strip("/").split("/"):
        acc += "/" + p
        if w.fs.get(acc) is None:
            w.fs.nodes[acc] = w.fs._new(True, 0o755)
    w.fs.commit()


# ------------------------------------------------------------ comparing
def digest(x, h=None):
    """hash of nested dict/list/array data"""
    top = h is None
    h = h or hashlib.sha1()
    if isinstance(x, dict):
        h.update(b"{")
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            digest(x[k], h)
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for v in x:
            digest(v, h)
    elif isinstance(x, torch.Tensor):
        digest(x.detach().cpu().numpy(), h)
    elif isinstance(x, np.ndarray) and x.dtype != object:
        a = np.ascontiguousarray(x)
        h.update(str((a.shape, str(a.dtype))).encode() + a.tobytes())
    elif isinstance(x, np.ndarray):
        digest(list(x.ravel()), h)
    elif isinstance(x, (np.floating, np.integer)):
        h.update(repr(x.item()).encode())
    elif isinstance(x, Ghost) or isinstance(x, type):
        h.update((x if isinstance(x, type) else type(x)).__name__.encode())
    else:
        h.update(repr(x).encode())
    return h.hexdigest() if top else None


def diff(a, b, path="", tol=0.0):
    """first difference between two nested structures, or None"""
    if isinstance(a, torch.Tensor):
        a = a.detach().cpu().numpy()
    if isinstance(b, torch.Tensor):
        b = b.detach().cpu().numpy()
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys differ: {sorted(set(a) ^ set(b), key=str)}"
        for k in sorted(a, key=str):
            d = diff(a[k], b[k], f"{path}.{k}", tol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} against {len(b)} items"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]", tol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and a.dtype == object or \
            isinstance(b, np.ndarray) and b.dtype == object:
        return diff(list(np.ravel(a)), list(np.ravel(b)), path, tol)
    if isinstance(a, (np.ndarray, np.number, float)) or isinstance(b, (np.ndarray, np.number, float)):
        try:
            x, y = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
        except (TypeError, ValueError):
            return f"{path}: {a!r:.80} against {b!r:.80}"
        if x.shape != y.shape:
            return f"{path}: shape {x.shape} against {y.shape}"
        if x.size and not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
            e = np.nanmax(np.abs(x - y))
            return f"{path}: values differ by up to {e:.3g}"
        return None
    if isinstance(a, (type, Ghost)) or isinstance(b, (type, Ghost)):
        na = getattr(a, "__name__", type(a).__name__)
        nb = getattr(b, "__name__", type(b).__name__)
        return None if na == nb else f"{path}: {na} against {nb}"
    return None if a == b else f"{path}: {a!r:.80} against {b!r:.80}"


# ------------------------------------------------------------ running
def guarded(w, fn):
    """a process main: fresh mpi module, then fn()"""
    def main():
        mpi.prepare(w)
        return fn()
    return main


def observe(w, fn, name="observer", **kw):
    """run fn as one more simulated process, undisturbed; returns the Proc"""
    w.faults = []
    w.disk_full = False
    w.watch = []
    w.hooks = []
    w.deadlock = None
    kw.setdefault("entropy", 7_000_000 + len(w.procs))
    p = w.spawn(name, guarded(w, fn), **kw)
    p.quiet_faults = True
    w.run()
    return p


def finish(worlds, viol, nontrivial=True, extra=None):
    """the result dictionary of a run over one or more worlds"""
    stats = {}
    for w in worlds:
        for k, v in w.stats.items():
            stats[k] = stats.get(k, 0) + v
    for k, v in (extra or {}).items():
        stats[k] = stats.get(k, 0) + v
    h = hashlib.sha1("".join(w.trace_hash() for w in worlds).encode()).hexdigest()
    stats["steps"] = sum(w.steps for w in worlds)
    seen, out = set(), []
    for s, m in viol:
        if s not in seen:
            seen.add(s)
            out.append((s, str(m)[:600]))
    return {"viol": out, "stats": stats, "hash": h, "nontrivial": nontrivial,
            "simtime": sum(w.now - w.t_start for w in worlds),
            "choices": worlds[0].chooser.made,
            "trace": [list(map(str, e)) for e in worlds[0].trace[-400:]] if viol else []}


def schedule(rng, names=()):
    s = {"seed": rng.getrandbits(32), "stick": rng.choice([0.0, 0.3, 0.6, 0.9])}
    if names and rng.random() < 0.4:
        s["slow"] = [rng.choice(list(names))]
    return s


def proc_error(p):
    """one line on how a process failed"""
    if p.tb:
        lines = [l for l in p.tb.strip().splitlines() if l.strip()]
        where = [l.strip() for l in lines if "/yuca/" in l or "/repo/" in l]
        return f"{lines[-1]} ({where[-1] if where else ''})"
    return f"exit code {p.exit_code}"
