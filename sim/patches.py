"""Route every source of nondeterminism and every side effect of the code under
test into the current World.  Installed once per checking process; everything
passes straight through when no world is running."""
import builtins
import errno
import glob as globmod
import io
import os
import pickle
import random
import shlex
import shutil
import stat as statmod
import subprocess
import sys
import tempfile
import time
import types
from collections import deque

import torch

from . import world as wm
from .vfs import VBuf, VRaw, err, R_open

O = {}          # originals


def active():
    w = wm.W
    if w is None:
        return None
    if w.host_mode or w.current is not None:
        return w
    return None


def _sys(w, kind, path=""):
    return w.syscall(kind, str(path))


# ------------------------------------------------------------------ open
def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
          closefd=True, opener=None):
    w = active()
    if w is None:
        return O["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    fd = None
    if isinstance(file, int):
        if file not in w.fds:
            return O["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = file
    elif str(os.fspath(file)) in ("/dev/null", "/dev/urandom", "/dev/zero"):
        return O["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    writing = bool(m & set("wax+"))
    reading = "r" in m or "+" in m
    flags = (os.O_RDWR if reading and writing else os.O_WRONLY if writing else os.O_RDONLY)
    if "w" in m:
        flags |= os.O_CREAT | os.O_TRUNC
    if "a" in m:
        flags |= os.O_CREAT | os.O_APPEND
    if "x" in m:
        flags |= os.O_CREAT | os.O_EXCL
    if fd is None and opener is not None:
        fd = opener(file, flags)
        if fd not in w.fds:
            raise wm.HarnessError("opener returned a real descriptor")
    if fd is not None:
        raw = w.fds[fd]
        name = file
    else:
        path = w.fs.abspath(file)
        if writing and w.fs.get(path) is None:
            _sys(w, "create", path)
        else:
            _sys(w, "open", path)
        node, path = w.fs.open_node(path, flags)
        if node is None or node.is_dir:
            raise err(errno.EISDIR, path)
        raw = VRaw(w, node, path, flags, w.owner())
        w.after_syscall()
        name = file
    buf = VBuf(raw, reading, writing, name, fd)
    if "b" in m:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    t.mode = mode
    return t


# ------------------------------------------------------------------ os
def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = active()
    if w is None:
        return O["os.open"](path, flags, mode, dir_fd=dir_fd)
    p = w.fs.abspath(path)
    _sys(w, "create" if flags & os.O_CREAT and w.fs.get(p) is None else "open", p)
    node, p = w.fs.open_node(p, flags, mode)
    raw = VRaw(w, node, p, flags, w.owner())
    w.after_syscall()
    return w.register_fd(raw)


def _fdop(name, fn):
    def f(fd, *a, **k):
        w = active()
        if w is None or fd not in w.fds:
            return O["os." + name](fd, *a, **k)
        return fn(w, w.fds[fd], fd, *a, **k)
    return f


def _fd_close(w, raw, fd):
    w.fds.pop(fd)
    _sys(w, "close", raw.path)


def _fd_sync(w, raw, fd):
    _sys(w, "fsync", raw.path)
    if raw.node is None or raw.node.is_dir:
        w.fs.meta = []
    else:
        w.fs.fsync_node(raw.node)
    w.stats["fsync"] += 1
    w.after_syscall()


def _fd_seek(w, raw, fd, off, whence=0):
    raw.pos = (0, raw.pos, len(raw.node.data))[whence] + off
    return raw.pos


def _fd_trunc(w, raw, fd, size):
    _sys(w, "write", raw.path)
    w.fs.truncate_node(raw.node, size)
    w.after_syscall()


def _fd_stat(w, raw, fd):
    return w.fs.stat(raw.path)


def _path1(name, kind, fn, passthru_fd=True):
    def f(path=".", *a, **k):
        w = active()
        if w is None:
            return O["os." + name](path, *a, **k)
        if isinstance(path, int):
            if path in w.fds:
                return fn(w, w.fds[path].path, *a, **k)
            return O["os." + name](path, *a, **k)
        if kind:
            _sys(w, kind, w.fs.abspath(path))
        r = fn(w, path, *a, **k)
        if kind in ("mkdir", "rmdir", "unlink"):
            w.after_syscall()
        return r
    return f


def _chk(k):
    if k.get("dir_fd") is not None:
        raise wm.HarnessError("dir_fd not simulated")


def _stat(w, p, *, dir_fd=None, follow_symlinks=True):
    _chk({"dir_fd": dir_fd})
    return w.fs.stat(p, follow_symlinks)


def _lstat(w, p, *, dir_fd=None):
    return w.fs.stat(p, False)


def _access(w, p, mode, **k):
    return w.fs.exists(p)


def _listdir(w, p="."):
    names = w.fs.listdir(p)
    # the kernel promises no order
    w.list_shuffle.shuffle(names)
    if isinstance(p, bytes):
        names = [os.fsencode(n) for n in names]
    return names


class _DirEntry:
    def __init__(self, w, d, name):
        self._w, self.name = w, name
        self.path = os.path.join(d, name)

    def _ent(self):
        return self._w.fs.get(self._w.fs.abspath(self.path))

    def is_dir(self, *, follow_symlinks=True):
        return self._w.fs.is_dir(self._ent())

    def is_file(self, *, follow_symlinks=True):
        e = self._ent()
        return e is not None and not self._w.fs.is_dir(e)

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._w.fs.stat(self.path)

    def inode(self):
        return self.stat().st_ino

    def __fspath__(self):
        return self.path


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class _ScanIt:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(w, p="."):
    return _ScanIt([_DirEntry(w, p, n) for n in _listdir(w, p)])


def _mkdir(w, p, mode=0o777, *, dir_fd=None):
    _chk({"dir_fd": dir_fd})
    w.fs.mkdir(p, mode)


def _rmdir(w, p, *, dir_fd=None):
    _chk({"dir_fd": dir_fd})
    w.fs.rmdir(p)


def _unlink(w, p, *, dir_fd=None):
    _chk({"dir_fd": dir_fd})
    w.fs.unlink(p)


def _rename(src, dst, **k):
    w = active()
    if w is None:
        return O["os.rename"](src, dst, **k)
    _chk({"dir_fd": k.get("src_dir_fd") or k.get("dst_dir_fd")})
    _sys(w, "rename", w.fs.abspath(dst))
    w.fs.rename(src, dst)
    w.after_syscall()


def _link(src, dst, **k):
    w = active()
    if w is None:
        return O["os.link"](src, dst, **k)
    _sys(w, "rename", w.fs.abspath(dst))
    w.fs.link(src, dst)
    w.after_syscall()


def _truncate(w, p, size):
    node, p = w.fs.open_node(p, os.O_WRONLY)
    w.fs.truncate_node(node, size)


def _readlink(w, p, **k):
    return O["os.readlink"](p, **k)


def _noop(w, p, *a, **k):
    if not w.fs.exists(p):
        raise err(errno.ENOENT, str(p))


def _getcwd():
    w = active()
    return O["os.getcwd"]() if w is None else w.cwd()


def _chdir(path):
    w = active()
    if w is None:
        return O["os.chdir"](path)
    p = w.fs.abspath(path)
    if not w.fs.is_dir(w.fs.get(p)):
        raise err(errno.ENOENT if w.fs.get(p) is None else errno.ENOTDIR, p)
    w.current.cwd = p


def _exit(code):
    w = active()
    if w is None:
        return O["os._exit"](code)
    raise wm.SimExit(code)


def _getpid():
    w = active()
    if w is None or w.current is None:
        return O["os.getpid"]()
    return w.current.pid


def _urandom(n):
    w = active()
    if w is None or w.current is None:
        return O["os.urandom"](n)
    return w.current.ur.randbytes(n)


def _sync():
    w = active()
    if w is None:
        return O["os.sync"]()
    _sys(w, "fsync", "/")
    w.fs.commit()


# ------------------------------------------------------------- mini shell
def shell(w, cmd):
    """what `sh -c cmd` does for the file commands the code uses"""
    status = 0
    lex = shlex.shlex(cmd, posix=True, punctuation_chars=";&|")
    lex.whitespace_split = True
    words, cmds = [], []
    for t in lex:
        if t in (";", "&&", "||", "&"):
            cmds.append((words, t))
            words = []
        elif t == "|":
            raise wm.HarnessError(f"pipeline in shell command: {cmd}")
        else:
            words.append(t)
    cmds.append((words, ";"))
    prev = ";"
    for words, sep in cmds:
        if words and not (prev == "&&" and status) and not (prev == "||" and not status):
            status = _one(w, words)
        prev = sep
    return status


def _glob(w, pat):
    if not any(c in pat for c in "*?["):
        return [pat]
    got = sorted(globmod.glob(pat))
    return got or [pat]


def _one(w, words):
    name = os.path.basename(words[0])
    out = [x for x in words[1:] if not x.startswith("-")]
    flags = "".join(x[1:] for x in words[1:] if x.startswith("-") and not x.startswith("--"))
    longf = [x for x in words[1:] if x.startswith("--")]
    rest = []
    skip = False
    for x in out:
        if skip:
            skip = False
            continue
        if x in (">", "2>", ">>"):
            skip = True
            continue
        if x.startswith("2>") or x.startswith(">"):
            continue
        rest.append(x)
    args = [g for x in rest for g in _glob(w, x)]
    st = 0
    # the child process: its own pid, scheduling points at every call
    w.point("exec", " ".join(words))
    try:
        if name == "mkdir":
            for a in args:
                try:
                    if "p" in flags or "--parents" in longf:
                        os.makedirs(a, exist_ok=True)
                    else:
                        os.mkdir(a)
                except OSError:
                    st = 1
        elif name == "rm":
            force = "f" in flags
            rec = "r" in flags or "R" in flags or "--recursive" in longf
            for a in args:
                ent = w.fs.get(w.fs.abspath(a))
                if ent is None:
                    st = st or (0 if force else 1)
                    continue
                try:
                    if w.fs.is_dir(ent):
                        if not rec:
                            st = 1
                            continue
                        for sub in w.fs.listdir(a):
                            st = _one(w, [words[0], "-rf" if force else "-r",
                                          os.path.join(a, sub)]) or st
                        os.rmdir(a)
                    else:
                        os.unlink(a)
                except OSError:
                    st = 1
        elif name == "rmdir":
            for a in args:
                try:
                    os.rmdir(a)
                except OSError:
                    st = 1
        elif name == "touch":
            for a in args:
                open(a, "ab").close()
        elif name in ("mv", "cp"):
            dst = args[-1]
            for a in args[:-1]:
                d = os.path.join(dst, os.path.basename(a)) if os.path.isdir(dst) else dst
                if name == "mv":
                    os.replace(a, d)
                else:
                    with open(a, "rb") as f, open(d, "wb") as g:
                        g.write(f.read())
        elif name in ("true", "echo", "sync", "ls", "chmod"):
            pass
        else:
            raise wm.HarnessError(f"shell command not simulated: {words}")
    except OSError:
        st = 1
    return st


def _system(cmd):
    w = active()
    if w is None:
        return O["os.system"](cmd)
    return shell(w, cmd) << 8


# ------------------------------------------------------------- subprocess
class _Completed:
    def __init__(self, args, rc, out=b""):
        self.args, self.returncode, self.stdout, self.stderr = args, rc, out, b""

    def check_returncode(self):
        if self.returncode:
            raise subprocess.CalledProcessError(self.returncode, self.args)


def _spawn(w, args, env=None, **k):
    if isinstance(args, str):
        return shell(w, args), b""
    args = [str(a) for a in args]
    name = os.path.basename(args[0])
    if name == "git":
        return 0, b"0123456789abcdef0123456789abcdef01234567\n"
    if name in ("mpirun", "mpiexec"):
        from . import mpi
        return mpi.mpirun(w, args, env), b""
    return _one(w, args), b""


def _sp(kind):
    def f(args, *a, **k):
        w = active()
        if w is None:
            return O["subprocess." + kind](args, *a, **k)
        rc, out = _spawn(w, args, **k)
        if kind == "call":
            return rc
        if kind == "run":
            r = _Completed(args, rc, out.decode() if k.get("text") else out)
            if k.get("check"):
                r.check_returncode()
            return r
        if rc:
            raise subprocess.CalledProcessError(rc, args)
        return 0 if kind == "check_call" else (
            out.decode() if k.get("text") or k.get("universal_newlines") else out)
    return f


# ------------------------------------------------------------------ time
def _t(name, conv=lambda w: w.time()):
    def f():
        w = active()
        if w is None:
            return O["time." + name]()
        return conv(w)
    return f


def _sleep(s):
    w = active()
    if w is None or w.current is None:
        return O["time.sleep"](s)
    w.stats["sleep"] += 1
    w.sleep(s)


def _tsave(obj, f, *a, **k):
    w = active()
    if w is None or hasattr(f, "write"):
        return O["torch.save"](obj, f, *a, **k)
    with _open(f, "wb") as fh:
        return O["torch.save"](obj, fh, *a, **k)


def _names_next(self):
    w = active()
    if w is None or w.current is None:
        return O["tempnames"](self)
    return "".join(w.current.ur.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    O["open"] = builtins.open
    builtins.open = _open
    io.open = _open
    for n in ("open", "close", "fsync", "fdatasync", "fstat", "lseek", "ftruncate", "read",
              "write", "stat", "lstat", "access", "listdir", "scandir", "mkdir", "rmdir",
              "unlink", "remove", "rename", "replace", "link", "truncate", "readlink",
              "chmod", "utime", "getcwd", "chdir", "_exit", "getpid", "urandom", "sync",
              "system"):
        O["os." + n] = getattr(os, n)
    os.open = _os_open
    os.close = _fdop("close", _fd_close)
    os.fsync = _fdop("fsync", _fd_sync)
    os.fdatasync = _fdop("fdatasync", _fd_sync)
    os.fstat = _fdop("fstat", _fd_stat)
    os.lseek = _fdop("lseek", _fd_seek)
    os.ftruncate = _fdop("ftruncate", _fd_trunc)
    os.read = _fdop("read", lambda w, raw, fd, n: raw.read(n))
    os.write = _fdop("write", lambda w, raw, fd, b: raw.write(b))
    os.stat = _path1("stat", "stat", _stat)
    os.lstat = _path1("lstat", "stat", _lstat)
    os.access = _path1("access", "stat", _access)
    os.listdir = _path1("listdir", "list", _listdir)
    os.scandir = _path1("scandir", "list", _scandir)
    os.mkdir = _path1("mkdir", "mkdir", _mkdir)
    os.rmdir = _path1("rmdir", "rmdir", _rmdir)
    os.unlink = _path1("unlink", "unlink", _unlink)
    os.remove = _path1("remove", "unlink", _unlink)
    os.truncate = _path1("truncate", "write", _truncate)
    os.readlink = _path1("readlink", None, _readlink)
    os.chmod = _path1("chmod", None, _noop)
    os.utime = _path1("utime", None, _noop)
    os.rename = _rename
    os.replace = _rename
    os.link = _link
    os.getcwd = _getcwd
    os.chdir = _chdir
    os._exit = _exit
    os.getpid = _getpid
    os.urandom = _urandom
    os.sync = _sync
    os.system = _system
    shutil._use_fd_functions = False
    for n in ("call", "check_call", "check_output", "run"):
        O["subprocess." + n] = getattr(subprocess, n)
        setattr(subprocess, n, _sp(n))
    O["time.time"], O["time.sleep"] = time.time, time.sleep
    O["time.time_ns"], O["time.monotonic"] = time.time_ns, time.monotonic
    O["time.perf_counter"] = time.perf_counter
    time.time = _t("time")
    time.time_ns = _t("time_ns", lambda w: int(w.time() * 1e9))
    time.monotonic = _t("monotonic", lambda w: w.time() - w.t_start)
    time.perf_counter = _t("perf_counter", lambda w: w.time() - w.t_start)
    time.sleep = _sleep
    O["torch.save"] = torch.save
    torch.save = _tsave
    torch.serialization.save = _tsave
    O["tempnames"] = tempfile._RandomNameSequence.__next__
    tempfile._RandomNameSequence.__next__ = _names_next
    tempfile.tempdir = None
    # shutil picked up os.open-independent fast paths
    shutil._USE_CP_SENDFILE = False
