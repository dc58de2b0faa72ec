"""Faults below the statements: the system calls with which sqlite changes its files (in this
process: fork before) fail, or the process dies, at a chosen one of them. The calls are replaced
through the documented interface of sqlite's VFS (xSetSystemCall)."""
import ctypes
import os
import sqlite3  # noqa: F401  (loads the library)

_P = ctypes.c_void_p


class _Vfs(ctypes.Structure):
    pass


_Set = ctypes.CFUNCTYPE(ctypes.c_int, _P, ctypes.c_char_p, _P)
_Get = ctypes.CFUNCTYPE(_P, _P, ctypes.c_char_p)
_Vfs._fields_ = [("iVersion", ctypes.c_int), ("szOsFile", ctypes.c_int), ("mxPathname", ctypes.c_int), ("pNext", _P),
                 ("zName", ctypes.c_char_p), ("pAppData", _P)] + [(n, _P) for n in (
                     "xOpen", "xDelete", "xAccess", "xFullPathname", "xDlOpen", "xDlError", "xDlSym", "xDlClose", "xRandomness",
                     "xSleep", "xCurrentTime", "xGetLastError", "xCurrentTimeInt64")] + [("xSetSystemCall", _Set), ("xGetSystemCall", _Get)]

_WRITE = ctypes.CFUNCTYPE(ctypes.c_ssize_t, ctypes.c_int, _P, ctypes.c_size_t, ctypes.c_int64, use_errno=True)
_UNLINK = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_char_p, use_errno=True)
_TRUNC = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int64, use_errno=True)
_WRITE1 = ctypes.CFUNCTYPE(ctypes.c_ssize_t, ctypes.c_int, _P, ctypes.c_size_t, use_errno=True)
_CALLS = {"pwrite": _WRITE, "pwrite64": _WRITE, "write": _WRITE1, "ftruncate": _TRUNC, "unlink": _UNLINK}

MODES = ["die before", "die after", "die within", "fail once", "fail from then on"]
DIED = 7


def _library():
    with open("/proc/self/maps") as f:
        paths = {line.split()[-1] for line in f if "libsqlite3" in line}
    return ctypes.CDLL(paths.pop()) if paths else None


class Storage:
    """counts the calls; at call number ``at`` (from 0) the fault of ``mode`` happens"""

    def __init__(self, at=None, mode=None):
        self.at, self.mode, self.count, self.keep = at, mode, 0, []
        self.failed = False
        lib = _library()
        lib.sqlite3_vfs_find.restype = ctypes.POINTER(_Vfs)
        self.vfs = lib.sqlite3_vfs_find(None)
        v = self.vfs.contents
        assert v.iVersion >= 3
        for name, proto in _CALLS.items():
            ptr = v.xGetSystemCall(ctypes.cast(self.vfs, _P), name.encode())
            if not ptr:
                continue
            new = proto(self._replacement(name, proto(ptr)))
            self.keep.append(new)
            rc = v.xSetSystemCall(ctypes.cast(self.vfs, _P), name.encode(), ctypes.cast(new, _P))
            assert rc == 0, "xSetSystemCall %s: %d" % (name, rc)

    def restore(self):
        v = self.vfs.contents
        for name in _CALLS:
            v.xSetSystemCall(ctypes.cast(self.vfs, _P), name.encode(), None)

    def _replacement(self, name, real):
        def call(*args):
            n = self.count
            self.count += 1
            if self.at is not None and (n == self.at or (n > self.at and self.mode == "fail from then on")):
                if self.mode == "die before":
                    os._exit(DIED)
                if self.mode == "die within" and "write" in name and args[2] > 1:
                    real(*args[:2], args[2] // 2, *args[3:])
                    os._exit(DIED)
                if self.mode in ("die after", "die within"):
                    real(*args)
                    os._exit(DIED)
                self.failed = True
                ctypes.set_errno(28)        # no space left on the device
                return -1
            return real(*args)
        return call


def available():
    try:
        lib = _library()
        lib.sqlite3_vfs_find.restype = ctypes.POINTER(_Vfs)
        return lib.sqlite3_vfs_find(None).contents.iVersion >= 3
    except (OSError, AttributeError, TypeError):
        return False


def count(fn):
    """number of calls of fn (in a process of its own)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            s = Storage()
            fn()
            os.write(w, b"%d" % s.count)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        got = f.read()
    os.waitpid(pid, 0)
    return int(got) if got else None


def run(fn, at, mode):
    """fn in a process of its own with the fault: "died", "done" or "error" (fn raised)"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            keep = Storage(at, mode)  # noqa: F841 (sqlite calls into it)
            fn()
            code = 0
        except BaseException:
            code = 4
        finally:
            os._exit(code)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    return {DIED: "died", 0: "done", 4: "error"}.get(code, "ended with %r" % code)
