"""In-memory mpi4py: lower-case (pickling) communicator on the simulated network.

Guarantees kept: messages between one pair of ranks with one tag do not
overtake; nothing is lost.  Left open, and decided by the scheduler: when each
message arrives relative to every other channel, and whether a send returns at
once (eager) or waits for the receiver (rendezvous)."""
import os
import pickle
import runpy
import sys
import types
from collections import deque

from . import world as wm

ANY = -1


class Channel:
    def __init__(self, key):
        self.key = key
        self.flight = deque()
        self.arrived = deque()


class Comm:
    """state shared by all ranks of one job"""

    def __init__(self, world, size, name):
        self.world, self.size, self.name = world, size, name
        self.sent = 0
        self.received = 0
        self.finalized = set()

    def chan(self, s, d):
        k = f"{self.name}:{s}>{d}"
        c = self.world.channels.get(k)
        if c is None:
            c = self.world.channels[k] = Channel(k)
        return c


class Status:
    def __init__(self):
        self.source = None
        self.tag = None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request:
    def __init__(self, fn):
        self._fn = fn
        self._done = False
        self._val = None

    def wait(self, status=None):
        if not self._done:
            self._val = self._fn(status)
            self._done = True
        return self._val

    def test(self, status=None):
        return True, self.wait(status)


class CommHandle:
    """MPI.COMM_WORLD as one rank sees it"""

    def __init__(self, comm, rank, proc):
        self._c, self._r, self._p = comm, rank, proc

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._c.size

    rank = property(Get_rank)
    size = property(Get_size)

    def send(self, obj, dest, tag=0):
        w = self._c.world
        if not 0 <= dest < self._c.size:
            raise RuntimeError(f"MPI_ERR_RANK: invalid rank {dest}")
        data = pickle.dumps(obj)
        w.point("send", f"{self._r}>{dest} {len(data)}")
        w.stats["msg"] += 1
        ch = self._c.chan(self._r, dest)
        item = [tag, data, False]
        ch.flight.append(item)
        self._c.sent += 1
        for h in w.hooks:
            h("send", w.current, self._r, dest, obj)
        if not w.eager:
            w.stats["rendezvous"] += 1
            w._block(w.current, lambda: item[2])

    ssend = send

    def bsend(self, obj, dest, tag=0):
        w = self._c.world
        old, w.eager = w.eager, True
        try:
            self.send(obj, dest, tag)
        finally:
            w.eager = old

    def isend(self, obj, dest, tag=0):
        self.bsend(obj, dest, tag)
        return Request(lambda st: None)

    def _find(self, source, tag):
        srcs = range(self._c.size) if source in (ANY, None) else [source]
        for s in srcs:
            ch = self._c.world.channels.get(f"{self._c.name}:{s}>{self._r}")
            if ch is None:
                continue
            for it in ch.arrived:
                if tag in (ANY, None) or it[0] == tag:
                    return s, ch, it
        return None

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        w = self._c.world
        w.point("recv", f"{source}>{self._r}")
        if source not in (ANY, None) and not 0 <= source < self._c.size:
            raise RuntimeError(f"MPI_ERR_RANK: invalid rank {source}")
        if self._find(source, tag) is None:
            w._block(w.current, lambda: self._find(source, tag) is not None)
        if source in (ANY, None):
            # arrival order, not rank order
            best = None
            for s in range(self._c.size):
                ch = w.channels.get(f"{self._c.name}:{s}>{self._r}")
                if ch:
                    for it in ch.arrived:
                        if tag in (ANY, None) or it[0] == tag:
                            k = it[3] if len(it) > 3 else 0
                            if best is None or k < best[0]:
                                best = (k, s, ch, it)
                            break
            _, s, ch, it = best
        else:
            s, ch, it = self._find(source, tag)
        ch.arrived.remove(it)
        it[2] = True
        self._c.received += 1
        if status is not None:
            status.source, status.tag = s, it[0]
        obj = pickle.loads(it[1])
        for h in w.hooks:
            h("recv", w.current, s, self._r, obj)
        return obj

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Request(lambda st: self.recv(None, source, tag, st))

    def iprobe(self, source=ANY, tag=ANY, status=None):
        self._c.world.point("probe", f"{source}>{self._r}")
        return self._find(source, tag) is not None

    Iprobe = iprobe

    def probe(self, source=ANY, tag=ANY, status=None):
        w = self._c.world
        w.point("probe", f"{source}>{self._r}")
        if self._find(source, tag) is None:
            w._block(w.current, lambda: self._find(source, tag) is not None)
        f = self._find(source, tag)
        if status is not None:
            status.source, status.tag = f[0], f[2][0]
        return True

    Probe = probe

    def bcast(self, obj, root=0):
        if self._r == root:
            for d in range(self._c.size):
                if d != root:
                    self.bsend(obj, d, tag=-7)
            return obj
        return self.recv(None, root, -7)

    def scatter(self, objs, root=0):
        if self._r == root:
            for d in range(self._c.size):
                if d != root:
                    self.bsend(objs[d], d, tag=-8)
            return objs[root]
        return self.recv(None, root, -8)

    def gather(self, obj, root=0):
        if self._r != root:
            self.bsend(obj, root, tag=-9)
            return None
        return [obj if s == root else self.recv(None, s, -9) for s in range(self._c.size)]

    def allgather(self, obj):
        return self.bcast(self.gather(obj, 0), 0)

    def barrier(self):
        self.allgather(None)

    Barrier = barrier

    def Abort(self, code=1):
        w = self._c.world
        for q in w.procs:
            if q.comm is self._c and q.state != "done":
                q.dead = True
                q.exit_code = code
        raise wm.SimKill()


def fake_module(world):
    """modules to put into sys.modules for the current process"""
    p = world.current
    pkg = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    comm = p.comm if p.comm is not None else Comm(world, 1, f"self{p.pid}")
    if p.comm is None:
        p.solo = comm
    mpi.COMM_WORLD = CommHandle(comm, p.rank, p)
    mpi.ANY_SOURCE = ANY
    mpi.ANY_TAG = ANY
    mpi.Status = Status
    mpi.Request = Request
    mpi.Wtime = lambda: world.time()
    mpi.Finalize = lambda: None
    pkg.MPI = mpi
    pkg.__path__ = []
    return {"mpi4py": pkg, "mpi4py.MPI": mpi}


def prepare(world):
    """run at the start of every simulated process"""
    sys.modules.update(fake_module(world))


def mpirun(world, args, env):
    """what `mpirun -np N prog args...` does: N ranks in the simulated machine"""
    parent = world.current
    i = 1
    n = None
    while i < len(args) and args[i].startswith("-"):
        if args[i] in ("-np", "-n"):
            n = int(args[i + 1])
            i += 2
        elif args[i] in ("--oversubscribe", "--allow-run-as-root"):
            i += 1
        else:
            raise wm.HarnessError(f"mpirun option not simulated: {args}")
    prog = args[i:]
    comm = Comm(world, n, f"job{len(world.jobs)}")
    ranks = []
    rank_main = getattr(world, "rank_main", None) or python_main
    world.stats["mpirun"] += 1
    for r in range(n):
        ranks.append(world.spawn(
            f"{comm.name}.rank{r}", lambda: rank_main(prog), env=dict(env or parent.env),
            argv=list(prog), cwd=parent.cwd, group=comm.name, rank=r, size=n, comm=comm,
            entropy=f"{world.case.get('entropy', 0)}-{comm.name}-{r}",
            skew=world.case.get("skews", {}).get(str(r), 0.0)))
    world.jobs.append((comm, ranks))
    world._block(parent, lambda: all(q.state == "done" for q in ranks))
    return max((abs(q.exit_code or 0) for q in ranks), default=0)


def python_main(prog):
    """`python -u -m yuca.evolve args` / `python path/evolve.py args`"""
    world = wm.W
    prepare(world)
    a = list(prog[1:])
    while a and a[0] in ("-u", "-O", "-B"):
        a.pop(0)
    if a[0] == "-m":
        mod, rest = a[1], a[2:]
    else:
        mod = os.path.splitext(os.path.basename(a[0]))[0]
        mod, rest = f"yuca.{mod}", a[1:]
    sys.argv = [os.path.join(wm.ROOT, *mod.split(".")) + ".py"] + rest
    import importlib
    importlib.import_module(mod.rsplit(".", 1)[0])
    runpy.run_module(mod, run_name="__main__", alter_sys=False)
