"""Abstract file system: a closed-world tree that modelled library calls read and update.

it.vfs is None (unknown file system, existence is an opaque leaf) or a VFS.  Every effect is
logged in .log as (operation, path) so that checks can bound what a run may touch.
"""
import posixpath

from .arrays import PyErr, Unsupported
from .interp import Native, Opaque


class PickleBytes:
    def __init__(self, obj):
        self.obj = obj


class VFS:
    def __init__(self, it):
        self.it = it
        self.tree = {"/": "dir", "/cwd": "dir"}
        self.log = []

    # ---------------------------------------------------------------- paths
    def norm(self, p):
        if isinstance(p, Path):
            p = p.s
        if isinstance(p, Opaque):
            p = f"<{p.name}>"
        if not isinstance(p, str):
            raise PyErr("TypeError", f"expected str, bytes or os.PathLike object, not {type(p).__name__}")
        q = posixpath.normpath(posixpath.join("/cwd", p))
        return "/" + q.lstrip("/")

    def kind(self, p):
        v = self.tree.get(self.norm(p))
        return None if v is None else ("dir" if v == "dir" else "file")

    def children(self, p):
        p = self.norm(p)
        pre = p.rstrip("/") + "/"
        return [q for q in self.tree if q.startswith(pre) and q != p]

    def _set(self, p, v):
        self.it.setkey(self.tree, p, v)

    def _del(self, p):
        self.it.delkey(self.tree, p)

    def _log(self, op, p):
        self.log.append((op, p))
        self.it.event("fs", op, p)

    # ---------------------------------------------------------------- scenario setup
    def seed(self, p, content=None):
        """put a file (with its parents) into the scenario"""
        p = self.norm(p)
        d = posixpath.dirname(p)
        while d not in self.tree:
            self.tree[d] = "dir"
            d = posixpath.dirname(d)
        self.tree[p] = "dir" if content is None else list(content)

    def snapshot(self):
        from .libmods import deepcopy

        return {p: v if v == "dir" else list(v) for p, v in self.tree.items()}

    # ---------------------------------------------------------------- operations
    def need_parent(self, p):
        d = posixpath.dirname(p)
        if self.tree.get(d) != "dir":
            raise PyErr("FileNotFoundError" if d not in self.tree else "NotADirectoryError", f"[Errno 2] No such file or directory: '{p}'")

    def mkdir(self, p, exist_ok=False, parents=False):
        p = self.norm(p)
        if p in self.tree:
            if exist_ok and self.tree[p] == "dir":
                return
            raise PyErr("FileExistsError", f"[Errno 17] File exists: '{p}'")
        if parents:
            d = posixpath.dirname(p)
            if d not in self.tree:
                self.mkdir(d, exist_ok=True, parents=True)
        self.need_parent(p)
        self._set(p, "dir")
        self._log("mkdir", p)

    def remove(self, p, missing_ok=False):
        p = self.norm(p)
        if p not in self.tree:
            if missing_ok:
                return
            raise PyErr("FileNotFoundError", f"[Errno 2] No such file or directory: '{p}'")
        if self.tree[p] == "dir":
            raise PyErr("IsADirectoryError", f"[Errno 21] Is a directory: '{p}'")
        self._del(p)
        self._log("remove", p)

    def rmdir(self, p):
        p = self.norm(p)
        if self.tree.get(p) != "dir":
            raise PyErr("FileNotFoundError" if p not in self.tree else "NotADirectoryError", p)
        if self.children(p):
            raise PyErr("OSError", f"[Errno 39] Directory not empty: '{p}'")
        self._del(p)
        self._log("remove", p)

    def rmtree(self, p, ignore_errors=False):
        p = self.norm(p)
        if self.tree.get(p) != "dir":
            if ignore_errors:
                return
            raise PyErr("FileNotFoundError" if p not in self.tree else "NotADirectoryError", p)
        for q in self.children(p):
            self._del(q)
            self._log("remove", q)
        self._del(p)
        self._log("remove", p)

    def rename(self, a, b, replace=True):
        a, b = self.norm(a), self.norm(b)
        if a not in self.tree:
            raise PyErr("FileNotFoundError", a)
        self.need_parent(b)
        if b in self.tree:
            if self.tree[b] == "dir" and (self.tree[a] != "dir" or self.children(b)):
                raise PyErr("OSError", f"[Errno 39] Directory not empty: '{b}'")
            if self.tree[b] != "dir" and self.tree[a] == "dir":
                raise PyErr("NotADirectoryError", b)
            self._del(b)
            self._log("remove", b)
        for q in [a] + self.children(a):
            v = self.tree[q]
            self._del(q)
            self._log("remove", q)
            self._set(b + q[len(a):], v)
            self._log("write", b + q[len(a):])

    def copy(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if self.kind(a) != "file":
            raise PyErr("FileNotFoundError", a)
        if self.kind(b) == "dir":
            b = posixpath.join(b, posixpath.basename(a))
        self.need_parent(b)
        self._set(b, list(self.tree[a]))
        self._log("write", b)
        return b

    def copytree(self, a, b, dirs_exist_ok=False):
        a, b = self.norm(a), self.norm(b)
        if self.kind(a) != "dir":
            raise PyErr("FileNotFoundError", a)
        self.mkdir(b, exist_ok=dirs_exist_ok, parents=True)
        for q in self.children(a):
            self._set(b + q[len(a):], self.tree[q] if self.tree[q] == "dir" else list(self.tree[q]))
            self._log("write", b + q[len(a):])
        return b

    def listdir(self, p="."):
        p = self.norm(p)
        if self.tree.get(p) != "dir":
            raise PyErr("FileNotFoundError" if p not in self.tree else "NotADirectoryError", p)
        pre = p.rstrip("/") + "/"
        return sorted(q[len(pre):] for q in self.children(p) if "/" not in q[len(pre):])

    def open(self, p, mode):
        p = self.norm(p)
        k = self.kind(p)
        if k == "dir":
            raise PyErr("IsADirectoryError", f"[Errno 21] Is a directory: '{p}'")
        if "r" in mode and k is None:
            raise PyErr("FileNotFoundError", f"[Errno 2] No such file or directory: '{p}'")
        if "x" in mode and k is not None:
            raise PyErr("FileExistsError", f"[Errno 17] File exists: '{p}'")
        if "w" in mode or "x" in mode or ("a" in mode and k is None):
            self.need_parent(p)
            self._set(p, [])
            self._log("write", p)
        return p

    def append(self, p, item):
        p = self.norm(p)
        if p not in self.tree:
            return
        self._set(p, self.tree[p] + [item])
        self._log("write", p)

    def put(self, p, item):
        p = self.norm(p)
        self.need_parent(p)
        self._set(p, [item])
        self._log("write", p)


class Path:
    """pathlib.Path"""

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s

    def __eq__(self, o):
        return isinstance(o, Path) and o.s == self.s

    def __hash__(self):
        return hash(("path", self.s))

    def model_getattr(self, it, name):
        from .lib import FileObj

        v = it.vfs
        P = lambda s: Path(posixpath.normpath(s) if s else ".")
        if name == "parent":
            return P(posixpath.dirname(self.s) or ".")
        if name == "name":
            return posixpath.basename(self.s)
        if name == "stem":
            return posixpath.splitext(posixpath.basename(self.s))[0]
        if name == "suffix":
            return posixpath.splitext(self.s)[1]
        if name == "parts":
            return tuple(x for x in self.s.split("/") if x)
        if name == "joinpath":
            return Native(name, lambda *a: P(posixpath.join(self.s, *[getattr(x, "s", x) for x in a])))
        if name == "with_suffix":
            return Native(name, lambda s: P(posixpath.splitext(self.s)[0] + s))
        if name == "with_name":
            return Native(name, lambda s: P(posixpath.join(posixpath.dirname(self.s), s)))
        if name in ("resolve", "absolute", "expanduser"):
            return Native(name, lambda **k: P(posixpath.join("/cwd", self.s)) if name != "expanduser" else self)
        if name == "as_posix":
            return Native(name, lambda: self.s)
        if name == "open":
            return Native(name, lambda mode="r", *a, **k: it.lib.fs_open(self, mode))
        osm = it.lib.module("os").ns
        pth = osm["path"].ns
        if name == "exists":
            return Native(name, lambda: pth["exists"].fn(self.s))
        if name == "is_dir":
            return Native(name, lambda: pth["isdir"].fn(self.s))
        if name == "is_file":
            return Native(name, lambda: pth["isfile"].fn(self.s))
        if name == "mkdir":
            return Native(name, lambda mode=None, parents=False, exist_ok=False: osm["makedirs" if parents else "mkdir"].fn(self.s, exist_ok=exist_ok))
        if name == "unlink":
            return Native(name, lambda missing_ok=False: osm["remove"].fn(self.s, missing_ok=missing_ok))
        if name == "rmdir":
            return Native(name, lambda: osm["rmdir"].fn(self.s))
        if name in ("rename", "replace"):
            return Native(name, lambda t: osm["rename"].fn(self.s, getattr(t, "s", t)))
        if name == "iterdir":
            return Native(name, lambda: [P(posixpath.join(self.s, x)) for x in it.iterate(osm["listdir"].fn(self.s))])
        if name in ("write_text", "write_bytes"):
            def w(x, *a, **k):
                f = it.lib.fs_open(self, "w")
                it.call(it.getattr(f, "write"), [x], {})

            return Native(name, w)
        if name in ("read_text", "read_bytes"):
            return Native(name, lambda *a, **k: it.call(it.getattr(it.lib.fs_open(self, "r"), "read"), [], {}))
        raise Unsupported(f"Path.{name}")


def path_module(lib):
    from .interp import Module, TypeModel

    def mk(*a):
        return Path(posixpath.normpath(posixpath.join(*[getattr(x, "s", x) for x in a])) if a else ".")

    t = TypeModel("pathlib.Path", lambda v: isinstance(v, Path), mk)
    t.sub = {"cwd": Native("cwd", lambda: Path("/cwd")), "home": Native("home", lambda: Path("/home/user"))}
    return Module("pathlib", {"Path": t, "PurePath": t, "PosixPath": t}, opaque=True)
