"""In-memory copy-on-write file system for one simulated machine.

Nothing here touches the real disk except read-only look-ups of files that the
overlay does not know (the checked-out tree, shipped configs, fonts ...).

Every mutation is a numbered "system call": it is journalled, so that a power
failure can rebuild a state in which un-synced data is lost, and it passes the
fault plan, so that it can fail, be torn, or be the last thing a process does.
"""
import errno
import io
import os
import stat as statmod
import sys

# originals, captured before patching
R = {n: getattr(os, n) for n in (
    "stat", "lstat", "listdir", "scandir", "access", "readlink", "open", "close",
    "read", "write", "fsync", "fstat", "lseek", "getcwd")}
R_open = io.open

WHITEOUT = None


class Node:
    __slots__ = ("ino", "is_dir", "data", "synced", "mtime", "mode", "opaque", "log")

    def __init__(self, ino, is_dir, mode, mtime):
        self.ino = ino
        self.is_dir = is_dir
        self.data = None if is_dir else bytearray()
        self.mode = mode
        self.mtime = mtime
        self.opaque = True          # directory with no base underneath
        self.log = None             # un-synced data operations (files)
        self.synced = None if is_dir else b""   # content as of the last fsync


def err(e, path=None):
    return OSError(e, os.strerror(e), path)


class VFS:
    def __init__(self, world):
        self.world = world
        self.nodes = {}          # abs path -> Node | WHITEOUT
        self.next_ino = 10_000_000
        self.tx = None           # the rename in progress: all or nothing
        self.meta = []           # un-committed namespace operations (for power failure)
        self.durable_ns = {}     # namespace as of the last directory commit
        self.base_gone = False
        self.quota = None
        self._base_cache = {}

    # ---- lookup -------------------------------------------------------
    def abspath(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = self.world.cwd() + "/" + path
        parts = []
        for p in path.split("/"):
            if p in ("", "."):
                continue
            if p == "..":
                if parts:
                    parts.pop()
                continue
            parts.append(p)
        return "/" + "/".join(parts)

    def _base_visible(self, path):
        """is the base (real) entry at path still visible through the overlay?"""
        p = path
        while True:
            p = p.rsplit("/", 1)[0]
            if p == "":
                return True
            if p in self.nodes:
                n = self.nodes[p]
                if n is WHITEOUT or not n.is_dir or n.opaque:
                    return False

    def base_stat(self, path, follow=True):
        if not self._base_visible(path):
            return None
        try:
            return R["stat"](path) if follow else R["lstat"](path)
        except OSError:
            return None

    def get(self, path):
        """Node in overlay, or ('base', st) or None."""
        if path == "/":
            return ("base", R["stat"]("/"))
        if path in self.nodes:
            return self.nodes[path]
        st = self.base_stat(path)
        if st is None:
            return None
        return ("base", st)

    @staticmethod
    def is_dir(ent):
        if ent is None:
            return False
        if isinstance(ent, tuple):
            return statmod.S_ISDIR(ent[1].st_mode)
        return ent.is_dir

    def parent_check(self, path):
        par = path.rsplit("/", 1)[0] or "/"
        ent = self.get(par)
        if ent is None:
            raise err(errno.ENOENT, path)
        if not self.is_dir(ent):
            raise err(errno.ENOTDIR, path)
        return par

    def exists(self, path):
        return self.get(self.abspath(path)) is not None

    def read_bytes(self, path):
        path = self.abspath(path)
        ent = self.get(path)
        if ent is None:
            raise err(errno.ENOENT, path)
        if self.is_dir(ent):
            raise err(errno.EISDIR, path)
        if isinstance(ent, tuple):
            with R_open(path, "rb") as f:
                return f.read()
        return bytes(ent.data)

    def listdir(self, path):
        path = self.abspath(path)
        ent = self.get(path)
        if ent is None:
            raise err(errno.ENOENT, path)
        if not self.is_dir(ent):
            raise err(errno.ENOTDIR, path)
        names = set()
        if isinstance(ent, tuple) or not ent.opaque:
            try:
                names.update(R["listdir"](path))
            except OSError:
                pass
        pre = path if path.endswith("/") else path + "/"
        for p, n in self.nodes.items():
            if p.startswith(pre) and "/" not in p[len(pre):]:
                if n is WHITEOUT:
                    names.discard(p[len(pre):])
                else:
                    names.add(p[len(pre):])
        return sorted(names)

    def tree(self, root):
        """all overlay + base files below root (relative names), sorted"""
        out = []

        def rec(p, rel):
            for n in self.listdir(p):
                q = p.rstrip("/") + "/" + n
                if self.is_dir(self.get(q)):
                    rec(q, rel + n + "/")
                else:
                    out.append(rel + n)
        if self.get(self.abspath(root)) is not None:
            rec(self.abspath(root), "")
        return sorted(out)

    def stat(self, path, follow=True):
        path = self.abspath(path)
        ent = self.get(path)
        if ent is None:
            raise err(errno.ENOENT, path)
        if isinstance(ent, tuple):
            return R["stat"](path) if follow else R["lstat"](path)
        kind = statmod.S_IFDIR if ent.is_dir else statmod.S_IFREG
        size = 4096 if ent.is_dir else len(ent.data)
        return os.stat_result((kind | ent.mode, ent.ino, 7, 1, 0, 0, size,
                               int(ent.mtime), int(ent.mtime), int(ent.mtime)))

    # ---- namespace mutation ------------------------------------------
    def _new(self, is_dir, mode):
        self.next_ino += 1
        return Node(self.next_ino, is_dir, mode, self.world.now)

    def _set(self, path, node):
        self.meta.append((path, self.nodes.get(path, "absent"), self.tx or object()))
        self.nodes[path] = node

    def mkdir(self, path, mode=0o777):
        path = self.abspath(path)
        if self.get(path) is not None:
            raise err(errno.EEXIST, path)
        self.parent_check(path)
        self._set(path, self._new(True, mode & 0o755))

    def rmdir(self, path):
        path = self.abspath(path)
        ent = self.get(path)
        if ent is None:
            raise err(errno.ENOENT, path)
        if not self.is_dir(ent):
            raise err(errno.ENOTDIR, path)
        if self.listdir(path):
            raise err(errno.ENOTEMPTY, path)
        self._set(path, WHITEOUT)

    def unlink(self, path):
        path = self.abspath(path)
        ent = self.get(path)
        if ent is None:
            raise err(errno.ENOENT, path)
        if self.is_dir(ent):
            raise err(errno.EISDIR, path)
        self._set(path, WHITEOUT)

    def _copy_up(self, path, truncate=False):
        ent = self.get(path)
        if isinstance(ent, tuple):
            n = self._new(False, statmod.S_IMODE(ent[1].st_mode))
            with R_open(path, "rb") as f:
                n.data = bytearray(f.read())
            n.synced = bytes(n.data)
            n.log = None
            self.nodes[path] = n       # copy-up is not a user-visible change
            return n
        return ent

    def rename(self, src, dst):
        self.tx = object()
        try:
            return self._rename(src, dst)
        finally:
            self.tx = None

    def _rename(self, src, dst):
        src, dst = self.abspath(src), self.abspath(dst)
        ent = self.get(src)
        if ent is None:
            raise err(errno.ENOENT, src)
        self.parent_check(dst)
        dent = self.get(dst)
        if self.is_dir(ent):
            if dent is not None:
                if not self.is_dir(dent):
                    raise err(errno.ENOTDIR, dst)
                if self.listdir(dst):
                    raise err(errno.ENOTEMPTY, dst)
            if dst.startswith(src + "/"):
                raise err(errno.EINVAL, dst)
            files = self.tree(src)
            dirs = {""}
            for p, n in list(self.nodes.items()):
                if p.startswith(src + "/") and n is not WHITEOUT and n.is_dir:
                    dirs.add(p[len(src) + 1:])
            for f in files:
                while "/" in f:
                    f = f.rsplit("/", 1)[0]
                    dirs.add(f)
            moved = {f: self._copy_up(src + "/" + f) for f in files}
            for d in sorted(dirs):
                self._set((dst + "/" + d).rstrip("/"), self._new(True, 0o755))
            for f, n in moved.items():
                self._set(dst + "/" + f, n)
            for p in [p for p in self.nodes if p.startswith(src + "/")]:
                self._set(p, WHITEOUT)
            self._set(src, WHITEOUT)
        else:
            if dent is not None and self.is_dir(dent):
                raise err(errno.EISDIR, dst)
            if src == dst:
                return
            n = self._copy_up(src)
            self._set(dst, n)
            self._set(src, WHITEOUT)

    def link(self, src, dst):
        src, dst = self.abspath(src), self.abspath(dst)
        ent = self.get(src)
        if ent is None:
            raise err(errno.ENOENT, src)
        if self.get(dst) is not None:
            raise err(errno.EEXIST, dst)
        self.parent_check(dst)
        self._set(dst, self._copy_up(src))

    def open_node(self, path, flags, mode=0o666):
        path = self.abspath(path)
        ent = self.get(path)
        acc = flags & os.O_ACCMODE
        writing = acc in (os.O_WRONLY, os.O_RDWR)
        if ent is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            self.parent_check(path)
            n = self._new(False, mode & 0o644)
            self._set(path, n)
            return n, path
        if flags & os.O_CREAT and flags & os.O_EXCL:
            raise err(errno.EEXIST, path)
        if self.is_dir(ent):
            if writing:
                raise err(errno.EISDIR, path)
            return ent if not isinstance(ent, tuple) else None, path
        if not writing:
            if isinstance(ent, tuple):
                n = Node(0, False, 0o644, 0)
                with R_open(path, "rb") as f:
                    n.data = bytearray(f.read())
                return n, path
            return ent, path
        n = self._copy_up(path)
        if flags & os.O_TRUNC and len(n.data):
            self.truncate_node(n, 0)
        return n, path

    # ---- data --------------------------------------------------------
    def _dirty(self, n):
        if n.log is None:
            n.log = []

    def truncate_node(self, n, size):
        self._dirty(n)
        n.log.append(("t", size))
        if size < len(n.data):
            del n.data[size:]
        else:
            n.data.extend(b"\0" * (size - len(n.data)))
        n.mtime = self.world.now

    def write_node(self, n, pos, b):
        self._dirty(n)
        n.log.append(("w", pos, bytes(b)))
        if pos > len(n.data):
            n.data.extend(b"\0" * (pos - len(n.data)))
        n.data[pos:pos + len(b)] = b
        n.mtime = self.world.now

    def fsync_node(self, n):
        if n is not None and not n.is_dir:
            n.synced = bytes(n.data)
            n.log = None

    def commit(self):
        self.meta = []
        for n in self.nodes.values():
            if n is not WHITEOUT and not n.is_dir:
                n.synced = bytes(n.data)
                n.log = None

    # ---- crash models -------------------------------------------------
    def power_fail(self, rng):
        """Keep a prefix of the un-committed namespace operations (metadata
        journalling is ordered) and, per file, the last synced content plus a
        random subset of the later data operations."""
        lost_meta = 0
        if self.meta:
            keep = rng.randint(max(0, len(self.meta) - 6), len(self.meta))
            while 0 < keep < len(self.meta) and self.meta[keep][2] is self.meta[keep - 1][2]:
                keep -= 1
            for path, old, _ in reversed(self.meta[keep:]):
                lost_meta += 1
                if old == "absent":
                    self.nodes.pop(path, None)
                else:
                    self.nodes[path] = old
            self.meta = []
        lost_data = 0
        seen = set()
        for n in list(self.nodes.values()):
            if n is WHITEOUT or n.is_dir or n.log is None or id(n) in seen:
                continue
            seen.add(id(n))
            data = bytearray(n.synced)
            mode = rng.randrange(3)
            for op in n.log:
                if mode == 0 or (mode == 1 and rng.random() < 0.5):
                    lost_data += 1
                    if mode == 1 and op[0] == "w":
                        # size reached the disk, the block did not
                        end = op[1] + len(op[2])
                        if end > len(data):
                            data.extend(b"\0" * (end - len(data)))
                    elif op[0] == "t":
                        del data[op[1]:]
                    continue
                if op[0] == "t":
                    if op[1] < len(data):
                        del data[op[1]:]
                    else:
                        data.extend(b"\0" * (op[1] - len(data)))
                else:
                    pos, b = op[1], op[2]
                    if pos > len(data):
                        data.extend(b"\0" * (pos - len(data)))
                    data[pos:pos + len(b)] = b
            n.data = data
            n.synced = bytes(data)
            n.log = None
        return lost_meta, lost_data


class VRaw:
    """open file description"""
    __slots__ = ("world", "node", "path", "flags", "pos", "closed", "owner")

    def __init__(self, world, node, path, flags, owner):
        self.world, self.node, self.path, self.flags = world, node, path, flags
        self.pos = 0
        self.closed = False
        self.owner = owner

    def read(self, n):
        self.world.syscall("read", self.path)
        d = self.node.data
        out = bytes(d[self.pos:] if n is None or n < 0 else d[self.pos:self.pos + n])
        self.pos += len(out)
        return out

    def write(self, b):
        b = bytes(b)
        if self.flags & os.O_APPEND:
            self.pos = len(self.node.data)
        act = self.world.syscall("write", self.path, len(b))
        if act is not None:
            kind, arg = act
            if kind in ("torn", "enospc", "short"):
                part = b[:max(0, min(len(b), arg if arg is not None else len(b) // 2))]
                if part:
                    self.world.fs.write_node(self.node, self.pos, part)
                    self.pos += len(part)
                if kind == "torn":
                    self.world.crash_now("torn write " + self.path)
                if kind == "enospc":
                    raise err(errno.ENOSPC, self.path)
                return len(part)
        self.world.fs.write_node(self.node, self.pos, b)
        self.pos += len(b)
        self.world.after_syscall()
        return len(b)


class VBuf(io.BufferedIOBase):
    """user-space buffered file on a VRaw; deliberately not an io.BufferedWriter
    so that numpy writes through write() and not through the descriptor"""

    CHUNK = 8192

    def __init__(self, raw, readable, writable, name, fd=None):
        self._raw = raw
        self._r, self._w = readable, writable
        self._buf = []
        self._n = 0
        self._closed = False
        self.name = name
        self._fd = fd
        self.mode = ("rb+" if readable and writable else "wb" if writable else "rb")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    @property
    def closed(self):
        return self._closed

    def fileno(self):
        # PIL writes encoded data straight to a descriptor when there is one;
        # it must take its pure write() path here
        if sys._getframe(1).f_globals.get("__name__", "").startswith("PIL"):
            raise io.UnsupportedOperation("fileno")
        if self._fd is None:
            self._fd = self._raw.world.register_fd(self._raw)
        return self._fd

    def isatty(self):
        return False

    def _check(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, b):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation("write")
        b = bytes(memoryview(b).cast("B")) if not isinstance(b, (bytes, bytearray)) else bytes(b)
        self._buf.append(b)
        self._n += len(b)
        if self._n >= self.CHUNK:
            self._flush_raw()
        return len(b)

    def _flush_raw(self):
        if not self._n:
            return
        data = b"".join(self._buf)
        self._buf, self._n = [], 0
        off = 0
        while off < len(data):
            off += self._raw.write(data[off:off + 65536])

    def flush(self):
        if self._closed:
            raise ValueError("flush of closed file")
        self._flush_raw()

    def read(self, n=-1):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation("read")
        self._flush_raw()
        return self._raw.read(n)

    read1 = read

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    readinto1 = readinto

    def peek(self, n=0):
        self._flush_raw()
        return bytes(self._raw.node.data[self._raw.pos:self._raw.pos + max(n, 512)])

    def seek(self, off, whence=0):
        self._check()
        self._flush_raw()
        r = self._raw
        if whence == 0:
            r.pos = off
        elif whence == 1:
            r.pos += off
        else:
            r.pos = len(r.node.data) + off
        return r.pos

    def tell(self):
        self._check()
        return self._raw.pos + self._n

    def truncate(self, size=None):
        self._flush_raw()
        size = self._raw.pos if size is None else size
        self._raw.world.syscall("write", self._raw.path, 0)
        self._raw.world.fs.truncate_node(self._raw.node, size)
        return size

    def close(self):
        if self._closed:
            return
        w = self._raw.world
        try:
            if w.can_act(self._raw.owner):
                self._flush_raw()
        finally:
            self._closed = True
            self._buf, self._n = [], 0
            if w.can_act(self._raw.owner):
                w.close_fd(self)

    def __del__(self):
        try:
            if not self._closed and self._raw.world.can_act(self._raw.owner):
                self.close()
        except BaseException:
            pass
