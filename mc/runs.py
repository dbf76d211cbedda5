"""Whole-run exploration helpers: source trees, solo results, audit of opened files, known findings."""
import os
import sys

from . import fresh, ref, sut
from .core import ROOT

# ------------------------------------------------------------- audit of opens --
_opens = None
_installed = False


def _hook(ev, args):
    if _opens is not None and ev == "open":
        p = args[0]
        if isinstance(p, (str, bytes)):
            _opens.append((os.fsdecode(p), args[1]))


class opens:
    """Records every file opened (in order) inside the block."""

    def __enter__(self):
        global _opens, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _opens = self.list = []
        return self

    def __exit__(self, *a):
        global _opens
        _opens = None

    def order(self, paths):
        """Order in which the given files were first opened."""
        out = []
        for p, _m in self.list:
            p = os.path.abspath(p)
            if p in paths and (not out or out[-1] != p):
                out.append(p)
        return out


def known(prop):
    """Keys of the recorded findings of a property."""
    out = {}
    try:
        for ln in open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8"):
            if ln.startswith(f"known: property={prop} key="):
                k, txt = ln.split(" key=", 1)[1].strip().split(" ", 1)
                out[k] = txt
    except OSError:
        pass
    return out


# ---------------------------------------------------------------------- trees --
def snapshot(root):
    """{relative path: content} with None for directories."""
    out = {}
    for d, sub, fs in os.walk(root):
        for s in sub:
            p = os.path.join(d, s)
            out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else None
        for f in fs:
            p = os.path.join(d, f)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as h:
                    out[r] = h.read()
    return out


def folder_of(path, fmt):
    return os.path.splitext(path)[0] + "-" + fmt


def stem(path):
    return os.path.splitext(os.path.basename(path))[0]


HERE = b"\0folder\0"


class Solo:
    """What converting one source alone leaves in its folder: {relative path: bytes}; the log with the
    directory of the source replaced by @."""

    def __init__(self):
        self.c = {}

    def get(self, name, data, fmt, ini):
        k = (name, data, fmt, ini)
        if k not in self.c:
            self.c[k] = fresh.call(_solo, name, data, fmt, ini)
        return self.c[k]


def _solo(name, data, fmt, ini):
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ini)
        p = sc.put("s/" + name, data)
        sut.main(["-o", fmt, p], argv=True)
        t = snapshot(folder_of(p, fmt)) if os.path.isdir(folder_of(p, fmt)) else None
        return t if t is None else norm(t, sc.src)


def norm(tree, directory):
    out = {}
    for p, b in tree.items():
        if isinstance(b, bytes) and p.endswith("-log.txt"):
            b = b.replace(directory.encode(), HERE)
        out[p] = b
    return out


def tree_diff(want, got):
    if set(want) != set(got):
        return (f"missing {sorted(set(want) - set(got))[:4]}, unexpected {sorted(set(got) - set(want))[:4]}")
    for p in want:
        if want[p] != got[p]:
            return f"{p} differs"
    return None


def ini(**kw):
    return ref.Cfg(**kw).ini()
