"""Fault injection at the I/O calls a writer makes under a given directory."""
import builtins
import contextlib
import errno
import os
import resource
import shutil
import signal
import threading

import safetensors
import safetensors.torch
import torch

from vp.core import Violation


class Injected(OSError):
    pass


def _mk(kind, what):
    if kind == "enospc":
        return Injected(errno.ENOSPC, f"injected: no space left ({what})")
    if kind == "runtime":
        return RuntimeError(f"injected failure ({what})")
    if kind == "safetensors":
        return safetensors.SafetensorError(f"injected failure ({what})")
    if kind == "value":
        return ValueError(f"injected failure ({what})")
    return Injected(errno.EIO, f"injected: I/O error ({what})")


class Injector:
    """Counts I/O calls on paths under `root`; fails the chosen ones."""

    def __init__(self, root, fail_at=None, persistent=False, kind="eio", partial=False):
        self.root = os.path.realpath(root)
        self.fail_at = fail_at
        self.persistent = persistent
        self.kind = kind
        self.partial = partial
        self.n = 0
        self.fired = []
        self.log = []
        self.lock = threading.Lock()

    def inside(self, p):
        try:
            p = os.path.realpath(os.fspath(p))
        except TypeError:
            return False
        if isinstance(p, bytes):
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    def hit(self, what, path):
        with self.lock:
            i = self.n
            self.n += 1
            self.log.append((what, os.path.basename(str(path))))
            if self.fail_at is None:
                return
            if i == self.fail_at or (self.persistent and i > self.fail_at):
                self.fired.append((what, str(path)))
                fire = True
            else:
                fire = False
        if fire:
            if self.partial and what in ("serialize", "torch.save"):
                with self.orig_open(path, "wb") as f:
                    f.write(b"\x10\x00\x00\x00\x00\x00\x00\x00{")
            raise _mk(self.kind, f"{what} {os.path.basename(str(path))}")


class Handle:
    """A text file whose first write is one more call that can fail."""

    def __init__(self, fp, inj, path):
        self.__dict__.update(_fp=fp, _inj=inj, _path=path, _wrote=False)

    def write(self, data):
        if not self._wrote:
            self.__dict__["_wrote"] = True
            self._inj.hit("write", self._path)
        return self._fp.write(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def __getattr__(self, name):
        return getattr(self._fp, name)

    def __setattr__(self, name, value):
        setattr(self._fp, name, value)

    def __enter__(self):
        self._fp.__enter__()
        return self

    def __exit__(self, *a):
        return self._fp.__exit__(*a)

    def __iter__(self):
        return iter(self._fp)


@contextlib.contextmanager
def injecting(inj):
    saved = []

    def patch(obj, name, make):
        if not hasattr(obj, name):
            return
        orig = getattr(obj, name)
        saved.append((obj, name, orig))
        setattr(obj, name, make(orig))

    inj.orig_open = builtins.open

    def mk_open(orig):
        def f(file, mode="r", *a, **k):
            watched = any(c in str(mode) for c in "wax+") and not isinstance(file, int) and inj.inside(file)
            if watched:
                inj.hit("open", file)
            fp = orig(file, mode, *a, **k)
            return Handle(fp, inj, file) if watched and "b" not in str(mode) else fp
        return f

    def mk_1(what):
        def make(orig):
            def f(p, *a, **k):
                if not isinstance(p, int) and inj.inside(p):
                    inj.hit(what, p)
                return orig(p, *a, **k)
            return f
        return make

    def mk_2(what):
        def make(orig):
            def f(src, dst, *a, **k):
                if inj.inside(dst):
                    inj.hit(what, dst)
                return orig(src, dst, *a, **k)
            return f
        return make

    def mk_ser(orig):
        def f(data, filename, *a, **k):
            if inj.inside(filename):
                inj.hit("serialize", filename)
            return orig(data, filename, *a, **k)
        return f

    patch(builtins, "open", mk_open)
    for name in ("remove", "unlink", "makedirs", "mkdir"):
        patch(os, name, mk_1(name))
    for name in ("rename", "replace"):
        patch(os, name, mk_2(name))
    for name in ("copy", "copyfile", "move", "copy2"):
        patch(shutil, name, mk_2(name))
    patch(safetensors.torch, "serialize_file", mk_ser)
    patch(safetensors, "serialize_file", mk_ser)
    patch(torch.serialization, "_open_zipfile_writer", mk_1("torch.save"))
    try:
        yield inj
    finally:
        for obj, name, orig in reversed(saved):
            setattr(obj, name, orig)


@contextlib.contextmanager
def file_size_limit(n):
    """Real write failures: no file may grow beyond n bytes."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


@contextlib.contextmanager
def no_hang(seconds, what):
    def handler(signum, frame):
        raise Violation(f"{what} did not return within {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
