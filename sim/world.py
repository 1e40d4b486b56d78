"""The simulated world: one machine, its processes, clock, network and disk.

Real threads run the code under test, but exactly one holds the baton at any
time and the scheduler alone decides who gets it: every simulated system call,
message operation, clock read and sleep is a point where the baton can move.
Every simulated process has its own fresh import of yuca, its own environment,
argv, working directory and random-generator states.
"""
import builtins
import collections
import errno
import fnmatch
import gc
import glob as globmod
import hashlib
import importlib.abc
import importlib.util
import io
import os
import pickle
import random
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import types

import numpy as np
import torch

from . import vfs as vfsmod
from .vfs import VFS, VBuf, VRaw, err

ROOT = os.environ.get("YUCA_ROOT", "/repo")

W = None                    # the world whose processes are being run


class SimKill(BaseException):
    """unwinds a simulated process that has crashed / been killed"""


class SimExit(BaseException):
    def __init__(self, code=0):
        self.code = code


class HarnessError(Exception):
    pass


class Budget(Exception):
    pass


# ---------------------------------------------------------------- choices
class Chooser:
    """all scheduling decisions of a run, from one seed or from a recorded list"""

    def __init__(self, spec):
        self.rng = None
        self.list = None
        if "choices" in spec:
            self.list = list(spec["choices"])
        else:
            self.rng = random.Random(spec["seed"])
        self.stick = spec.get("stick", 0.5)
        self.slow = set(spec.get("slow", ()))
        self.made = []
        self.i = 0

    def pick(self, options, can_stay):
        """options: list of keys, options[0] is 'carry on' when can_stay"""
        n = len(options)
        if n == 1:
            return 0
        if self.list is not None:
            c = self.list[self.i] if self.i < len(self.list) else 0
            c = min(c, n - 1)
        else:
            if can_stay and self.rng.random() < self.stick:
                c = 0
            else:
                w = [0.03 if any(s in o for s in self.slow) else 1.0 for o in options]
                r = self.rng.random() * sum(w)
                c = 0
                for c, x in enumerate(w):
                    r -= x
                    if r <= 0:
                        break
        self.i += 1
        self.made.append(c)
        return c


# ---------------------------------------------------------------- imports
_code_cache = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def get_code(self, name=None):
        c = _code_cache.get(self.path)
        if c is None:
            with vfsmod.R_open(self.path, "rb") as f:
                src = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c = compile(src, self.path, "exec", dont_inherit=True)
            _code_cache[self.path] = c
        return c

    def get_source(self, name=None):
        with vfsmod.R_open(self.path, "r") as f:
            return f.read()

    def is_package(self, name):
        return self.is_pkg

    def get_filename(self, name=None):
        return self.path

    def exec_module(self, module):
        exec(self.get_code(), module.__dict__)


def atomic_imports():
    """no context switch while the interpreter holds its import locks"""
    import importlib._bootstrap as ib
    orig = ib._find_and_load

    def _find_and_load(*a, **k):
        p = W.current if W is not None else None
        if p is None:
            return orig(*a, **k)
        p.importing += 1
        try:
            return orig(*a, **k)
        finally:
            p.importing -= 1
    ib._find_and_load = _find_and_load


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "yuca" and not name.startswith("yuca."):
            return None
        base = os.path.join(ROOT, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            try:
                vfsmod.R["stat"](p)
            except OSError:
                continue
            ld = _Loader(name, p, pkg)
            return importlib.util.spec_from_file_location(
                name, p, loader=ld,
                submodule_search_locations=[base] if pkg else None)
        return None


def _is_private(mod):
    return mod == "yuca" or mod.startswith("yuca.") or mod == "mpi4py" or mod.startswith("mpi4py.") \
        or mod == "__main__sim__"


# ---------------------------------------------------------------- process
class Proc:
    def __init__(self, world, name, fn, argv=None, env=None, cwd=None, group=None,
                 entropy=0, rank=0, size=1, comm=None, skew=0.0):
        self.world, self.name, self.fn = world, name, fn
        self.argv = argv or ["sim"]
        self.env = dict(env if env is not None else world.base_env)
        self.cwd = cwd or world.default_cwd
        self.group = group or name
        self.rank, self.size, self.comm = rank, size, comm
        self.skew = skew
        self.state = "ready"          # ready | blocked | done
        self.wait = None              # predicate when blocked
        self.wake_at = None
        self.dead = False
        self.exit_code = None
        self.exc = None
        self.tb = None
        self.result = None
        self.start = None
        self.importing = 0            # imports are atomic: real import locks are held
        self.nsys = 0
        self.sem = threading.Semaphore(0)
        self.mods = {}
        self.pid = world.next_pid
        self.crash_after = None          # dies once its next call has succeeded
        world.next_pid += 1
        self.quiet_faults = False
        self.stdout = Sink()
        er = random.Random(f"proc-{entropy}")
        self.rng_np = np.random.RandomState(er.getrandbits(32)).get_state()
        g = torch.Generator()
        g.manual_seed(er.getrandbits(40))
        self.rng_torch = g.get_state()
        self.rng_py = random.Random(er.getrandbits(64)).getstate()
        self.dtype = torch.float32
        self.grad = True
        self.figs = None
        self.ur = random.Random(er.getrandbits(64))
        self.thread = None

    # context switching of process-global interpreter state
    def enter(self):
        for k in [k for k in sys.modules if _is_private(k)]:
            del sys.modules[k]
        sys.modules.update(self.mods)
        os.environ = self.env
        sys.argv = self.argv
        np.random.set_state(self.rng_np)
        torch.set_rng_state(self.rng_torch)
        random.setstate(self.rng_py)
        torch.set_default_dtype(self.dtype)
        sys.stdout = self.stdout
        pl = sys.modules.get("matplotlib._pylab_helpers")
        if pl:                        # open figures
            pl.Gcf.figs = self.figs if self.figs is not None else collections.OrderedDict()

    def leave(self):
        self.mods = {k: v for k, v in sys.modules.items() if _is_private(k)}
        self.env = os.environ
        self.argv = sys.argv
        self.rng_np = np.random.get_state()
        self.rng_torch = torch.get_rng_state()
        self.rng_py = random.getstate()
        self.dtype = torch.get_default_dtype()
        pl = sys.modules.get("matplotlib._pylab_helpers")
        self.figs = pl.Gcf.figs if pl else None


class Sink(io.TextIOBase):
    """captured standard output (bounded)"""

    def __init__(self):
        self.parts = collections.deque(maxlen=400)

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return "".join(self.parts)


class World:
    def __init__(self, case, cwd="/sim/work"):
        self.case = case
        self.chooser = Chooser(case.get("schedule", {"choices": []}))
        self.now = float(case.get("t0", 1_700_000_000.25))
        self.t_start = self.now
        self.tick = float(case.get("tick", 1e-4))
        self.default_cwd = cwd
        self.base_env = {"PATH": "/usr/bin", "HOME": "/sim/home", "MPLBACKEND": "Agg"}
        self.procs = []
        self.next_pid = 4000
        self.current = None
        self.host_mode = False
        self.ctl = threading.Semaphore(0)
        self.fs = VFS(self)
        self.stats = collections.Counter()
        self.faults = [dict(f, seen=0, fired=False) for f in case.get("faults", [])]
        self.trace = []
        self.steps = 0
        self.max_steps = case.get("max_steps", 200_000)
        self.channels = {}
        self.deadlock = None
        self.over_budget = False
        self.fds = {}
        self.next_fd = 1_000_000
        self.hooks = []             # observers: f(event, proc, *args)
        self.watch = []             # called after every mutating syscall
        self.jobs = []
        self.eager = case.get("eager", True)
        self.list_shuffle = random.Random(case.get("list_seed", 0))
        self.disk_full = False
        for d in ("/sim", cwd, "/sim/home", "/sim/tmp"):
            acc = ""
            for p in d.strip("/").split("/"):
                acc += "/" + p
                if self.fs.get(acc) is None:
                    self.fs.nodes[acc] = self.fs._new(True, 0o755)
        self.fs.commit()

    # ------------------------------------------------------------ helpers
    def cwd(self):
        p = self.current
        return p.cwd if p is not None else self.default_cwd

    def can_act(self, owner):
        """may code running now perform actions of process `owner`?"""
        if self.host_mode:
            return owner is None
        return self.current is owner and owner is not None and not owner.dead

    def host(self):
        return _Host(self)

    def log(self, *ev):
        self.trace.append(ev)

    def trace_hash(self):
        h = hashlib.sha1()
        for e in self.trace:
            h.update(repr(e).encode())
        return h.hexdigest()

    # ------------------------------------------------------------ syscalls
    def point(self, kind, detail=""):
        """scheduling point of the current process"""
        p = self.current
        if p is None or self.host_mode or p.importing:
            return
        if p.dead:
            raise SimKill()
        self.steps += 1
        if self.steps > self.max_steps:
            self.over_budget = True
            self._kill_all()
            raise SimKill()
        self.now += self.tick
        self.log(p.name, kind, detail)
        self._reschedule()

    def syscall(self, kind, path="", size=0):
        """numbered system call; returns a partial-effect instruction or None"""
        p = self.current
        if p is None or self.host_mode or p.importing or self.outside(path, kind):
            return None
        self.point(kind, f"{path}:{size}" if size else path)
        p.nsys += 1
        self.stats["syscall"] += 1
        if self.disk_full and kind in ("write", "mkdir", "create") and not p.quiet_faults:
            self.stats["enospc_fired"] += 1
            if kind == "write":
                return ("enospc", 0)
            raise err(errno.ENOSPC, path)
        if p.quiet_faults:
            return None
        for f in self.faults:
            if f["fired"] and not f.get("repeat"):
                continue
            if f.get("proc") and f["proc"] not in p.name:
                continue
            if f.get("on") and kind not in f["on"]:
                continue
            if f.get("path") and f["path"] not in path:
                continue
            f["seen"] += 1
            if f["seen"] < f["at"]:
                continue
            k = f["kind"]
            if k in ("torn", "short") and kind != "write":
                continue
            if k == "enospc" and kind not in ("write", "mkdir", "create", "rename"):
                continue
            f["fired"] = True
            self.stats["fault_" + k] += 1
            self.log(p.name, "FAULT", k, kind, path)
            if k == "crash":
                self.crash_now(f"crash before {kind} {path}", f)
            if k == "crash_after":
                f["_pending"] = True
                p.crash_after = f
                return None
            if k in ("torn", "short"):
                self._last_fault = f
                return (k, None if f.get("frac") is None else int(size * f["frac"]))
            if k == "enospc":
                if f.get("sticky"):
                    self.disk_full = True
                if kind == "write":
                    return ("enospc", int(size * f.get("frac", 0.5)))
                raise err(errno.ENOSPC, path)
            if k == "eio":
                raise err(errno.EIO, path)
            if k == "stall":
                p.wake_at = self.now + f.get("secs", 3.0)
                self._block(p, lambda: self.now >= p.wake_at)
                p.wake_at = None
            if k == "jump":
                self.now += f.get("secs", 0.0)
            if k == "skew":
                p.skew += f.get("secs", 0.0)
        return None

    _last_fault = None

    def outside(self, path, kind):
        """lookups of the interpreter and its libraries are not events"""
        return kind in ("open", "stat", "list", "close", "read") and path.startswith("/") and \
            not path.startswith(("/sim", ROOT)) or "__pycache__" in path

    def after_syscall(self):
        if self.current is None or self.host_mode:
            return
        f = self.current.crash_after
        if f is not None:
            self.current.crash_after = None
            self.crash_now("crash after call", f)
        for w in self.watch:
            w()

    def crash_now(self, why, f=None):
        p = self.current
        f = f or self._last_fault or {}
        self.log(p.name, "CRASH", why)
        scope = f.get("scope", "job")
        self.stats["crash"] += 1
        for q in self.procs:
            if q.state == "done":
                continue
            if scope == "all" or q is p or (scope == "job" and q.group == p.group):
                q.dead = True
                q.exit_code = -9
        raise SimKill()

    def kill(self, q):
        q.dead = True
        q.exit_code = -9

    def _kill_all(self):
        for q in self.procs:
            if q.state != "done":
                q.dead = True
                q.exit_code = -9

    # ------------------------------------------------------------ scheduler
    def _runnable(self):
        out = []
        for q in self.procs:
            if q.state == "ready":
                out.append(q)
            elif q.state == "blocked" and (q.dead or q.wait()):
                out.append(q)
        return out

    def _pending_msgs(self):
        return [c for c in self.channels.values() if c.flight]

    def _pick(self, cur):
        """choose what happens next; returns the process to run, or None"""
        while True:
            run = self._runnable()
            opts = []
            can_stay = False
            if cur is not None and cur in run:
                opts.append(cur)
                can_stay = True
            opts += [q for q in run if q is not cur]
            msgs = self._pending_msgs()
            keys = [q.name for q in opts] + [f"deliver:{c.key}" for c in msgs]
            if not keys:
                timed = [q.wake_at for q in self.procs
                         if q.state == "blocked" and q.wake_at is not None]
                if timed:
                    self.now = max(self.now, min(timed))
                    continue
                return None
            i = self.chooser.pick(keys, can_stay)
            if i < len(opts):
                return opts[i]
            c = msgs[i - len(opts)]
            it = c.flight.popleft()
            it.append(self.stats["delivered"])      # order of arrival
            c.arrived.append(it)
            self.stats["delivered"] += 1
            self.log("net", "deliver", c.key)

    def _reschedule(self):
        p = self.current
        q = self._pick(p)
        if q is p:
            if p.dead:
                raise SimKill()
            return
        self._switch(p, q)

    def _switch(self, p, q):
        """give the baton from p to q (q may be None: controller decides)"""
        self.stats["switch"] += 1
        p.leave()
        self.current = None
        self.next_proc = q
        self.ctl.release()
        p.sem.acquire()
        # back
        self.current = p
        p.enter()
        if p.dead:
            raise SimKill()

    def _block(self, p, pred):
        p.state = "blocked"
        p.wait = pred
        q = self._pick(None)
        if q is p:
            p.state, p.wait = "ready", None
            if p.dead:
                raise SimKill()
            return
        self._switch_blocked(p, q)
        p.state, p.wait = "ready", None

    def _switch_blocked(self, p, q):
        self.stats["switch"] += 1
        p.leave()
        self.current = None
        self.next_proc = q
        self.ctl.release()
        p.sem.acquire()
        p.state = "ready"
        self.current = p
        p.enter()
        if p.dead:
            raise SimKill()

    def spawn(self, name, fn, **kw):
        p = Proc(self, name, fn, **kw)
        self.procs.append(p)
        p.thread = threading.Thread(target=self._main, args=(p,), daemon=True, name=name)
        p.thread.start()
        return p

    def _main(self, p):
        p.sem.acquire()
        self.current = p
        p.enter()
        try:
            if p.dead:
                raise SimKill()
            p.result = p.fn()
            if p.exit_code is None:
                p.exit_code = 0
        except SimKill:
            if p.exit_code is None:
                p.exit_code = -9
        except SimExit as e:
            p.exit_code = e.code
        except SystemExit as e:
            p.exit_code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e:        # noqa
            p.exc = e
            p.tb = traceback.format_exc()
            p.exit_code = 1
            # a failing MPI rank takes the whole job down, as mpirun does
            if p.comm is not None:
                for q in self.procs:
                    if q.comm is p.comm and q is not p and q.state != "done":
                        q.dead = True
                        q.exit_code = -15
        finally:
            p.state = "done"
            p.fn = None
            self.log(p.name, "exit", p.exit_code)
            p.leave()
            self.current = None
            self.next_proc = None
            self.ctl.release()

    def run(self):
        """run until every process has finished or nothing can move"""
        global W
        W = self
        saved = _save_globals()
        gc.disable()
        try:
            self.next_proc = None
            while True:
                q = self.next_proc
                self.next_proc = None
                if q is None or q.state == "done":
                    live = [x for x in self.procs if x.state != "done"]
                    if not live:
                        break
                    q = self._pick(None)
                    if q is None:
                        self.deadlock = [(x.name, str(x.dead)) for x in live]
                        self.log("DEADLOCK", tuple(x.name for x in live))
                        self._kill_all()
                        continue
                q.sem.release()
                self.ctl.acquire()
        finally:
            _restore_globals(saved)
            W = None
            gc.enable()

    def sleep(self, secs):
        p = self.current
        self.point("sleep", f"{secs:.6f}")
        p.wake_at = self.now + max(0.0, secs)
        self._block(p, lambda: self.now >= p.wake_at)
        p.wake_at = None

    def time(self):
        if self.host_mode or self.current is None:
            return self.now
        self.point("clock")
        return self.now + self.current.skew

    # ------------------------------------------------------------ fds
    def register_fd(self, raw):
        self.next_fd += 1
        self.fds[self.next_fd] = raw
        return self.next_fd

    def close_fd(self, buf):
        if buf._fd is not None:
            self.fds.pop(buf._fd, None)
        self.syscall("close", buf._raw.path)
        self.after_syscall()

    def owner(self):
        return None if self.host_mode else self.current


class _Host:
    """the oracle looks at the simulated disk: no scheduling, no faults"""

    def __init__(self, world):
        self.w = world

    def __enter__(self):
        global W
        self.old = (W, self.w.host_mode, self.w.current)
        W = self.w
        self.w.host_mode = True
        return self.w

    def __exit__(self, *a):
        global W
        W, self.w.host_mode, self.w.current = self.old[0], self.old[1], self.old[2]


def _save_globals():
    return (os.environ, sys.argv, np.random.get_state(), torch.get_rng_state(),
            random.getstate(), torch.get_default_dtype(), sys.stdout,
            {k: v for k, v in sys.modules.items() if _is_private(k)})


def _restore_globals(s):
    os.environ, sys.argv = s[0], s[1]
    np.random.set_state(s[2])
    torch.set_rng_state(s[3])
    random.setstate(s[4])
    torch.set_default_dtype(s[5])
    sys.stdout = s[6]
    for k in [k for k in sys.modules if _is_private(k)]:
        del sys.modules[k]
    sys.modules.update(s[7])
