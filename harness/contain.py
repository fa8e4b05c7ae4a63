"""Writes of code under test stay inside one scratch directory: anything else is refused before it happens."""
from __future__ import annotations

import os
import shutil
import sys
import tempfile

_allowed = None
_installed = False
_WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_ONE = {"os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.utime", "shutil.rmtree", "os.symlink", "os.link"}


def _hook(event, args):
    if _allowed is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or not ((flags or 0) & _WRITES or (isinstance(mode, str) and set(mode) & set("wax+"))):
            return
        _check(path)
    elif event in _ONE:
        if event in ("os.remove", "os.rmdir") and len(args) > 1 and args[1] not in (-1, None):
            return  # relative to an open directory (inside of rmtree, which was checked itself)
        _check(args[0])
        if event in ("os.symlink", "os.link"):
            _check(args[1])
    elif event == "os.rename":
        _check(args[0])
        _check(args[1])
    elif event in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.kill", "os.putenv"):
        raise PermissionError(1, f"{event} is not for this run")


def _check(path):
    if isinstance(path, int):
        return
    p = os.path.realpath(os.fsdecode(path))
    if p != _allowed and not p.startswith(_allowed + os.sep):
        if p.endswith(".pyc") or "__pycache__" in p:
            raise PermissionError(13, "outside of the scratch directory")
        raise PermissionError(13, f"write outside of the scratch directory: {p}")


class Contained:
    """A scratch directory; while it is on, this process can change nothing else."""

    def __init__(self, path=None):
        global _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        if path is None:
            path = tempfile.mkdtemp(prefix="symx-")
        else:
            os.makedirs(path)
        self.dir = os.path.realpath(path)
        self.old = None

    def on(self):
        global _allowed
        self.tmp = tempfile.tempdir
        tempfile.tempdir = os.path.join(self.dir, "tmp")
        os.makedirs(tempfile.tempdir, exist_ok=True)
        self.cwd = os.getcwd()
        os.makedirs(os.path.join(self.dir, "cwd"), exist_ok=True)
        os.chdir(os.path.join(self.dir, "cwd"))
        _allowed = self.dir
        return self

    def off(self):
        global _allowed
        _allowed = None
        tempfile.tempdir = self.tmp
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)
