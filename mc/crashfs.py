"""Python side of crashfs.c: file system faults below one directory of this process."""
import ctypes
import os
import subprocess
import sys

import env

HERE = os.path.dirname(os.path.abspath(__file__))
COUNT, CRASH, FAULT, SWITCH, SCHEDULE = 0, 1, 2, 3, 4
_CB = ctypes.CFUNCTYPE(None)
_lib = None
_keep = None


def rerun():
    """Run this program again with the library loaded first; -> its exit status"""
    so = os.path.join(env.SCRATCH, "crashfs.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-w", "-o", so, os.path.join(HERE, "crashfs.c"), "-ldl"], check=True)
    e = dict(os.environ, LD_PRELOAD=so, BRELMC_CRASHFS=so)
    return subprocess.call([sys.executable, "-B", os.path.join(HERE, "main.py")] + sys.argv[1:], env=e)


def lib():
    global _lib
    if _lib is None:
        os.environ.pop("LD_PRELOAD", None)
        _lib = ctypes.CDLL(os.environ["BRELMC_CRASHFS"])
        _lib.cf_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_int]
        for f in ("cf_count", "cf_size"):
            getattr(_lib, f).restype = ctypes.c_long
    return _lib


class armed:
    """with armed(prefix, mode, k, n): the operations below prefix are controlled"""

    def __init__(self, prefix, mode, k=-1, n=0, reads=False, errno=0, callback=None):
        self.args = (prefix.encode(), mode, k, n, int(reads), errno)
        self.callback = callback
        self.ops = []

    def __enter__(self):
        global _keep
        L = lib()
        _keep = _CB(self.callback) if self.callback else _CB(lambda: None)
        L.cf_callback(_keep)
        L.cf_arm(*self.args)
        return self

    def __exit__(self, *a):
        L = lib()
        self.ops = [(chr(L.cf_kind(i)), L.cf_size(i)) for i in range(min(L.cf_count(), 4096))]
        L.cf_disarm()
        return False
