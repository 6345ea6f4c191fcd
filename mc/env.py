"""Sandboxed access to the brel package of /repo's working tree.

* imports brel from /repo (never from anywhere else) without writing bytecode,
* every HOME (brel's document cache lives there) is a scratch directory,
* the network is replaced by a controllable fake server (`NET`).
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
SCRATCH = tempfile.mkdtemp(prefix="brelmc.", dir=_base)
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)


class Broken:
    """A reply whose body breaks off after the bytes `sent`."""

    def __init__(self, sent):
        self.sent = sent


def _broken_response():
    import requests

    class BrokenResponse(requests.models.Response):
        sent = b""

        @property
        def content(self):
            raise requests.exceptions.ChunkedEncodingError("connection broken")

        def iter_content(self, *a, **k):
            yield self.sent
            raise requests.exceptions.ChunkedEncodingError("connection broken")

    return BrokenResponse()


BrokenResponse = _broken_response


class FakeNet:
    """The only network there is.  `docs` maps URI -> bytes | Exception | int (HTTP status)
    | callable(uri) returning one of these."""

    def __init__(self):
        self.docs = {}
        self.log = []

    def reset(self, docs=None):
        self.docs = dict(docs or {})
        self.log = []

    def get(self, session, url, **kw):
        import requests

        self.log.append(url)
        v = self.docs.get(url, 404)
        if callable(v) and not isinstance(v, type):
            v = v(url)
        if isinstance(v, BaseException):
            raise v
        r = requests.models.Response()
        if isinstance(v, Broken):  # the connection ends while the body is read
            r = BrokenResponse()
            r.sent = v.sent
            v = b""
        r.url = url
        r.encoding = "utf-8"
        if isinstance(v, int):
            r.status_code = v
            r._content = b"<html>error</html>"
        else:
            r.status_code = 200
            r._content = v
        return r


NET = FakeNet()


def setup():
    sys.dont_write_bytecode = True
    home = os.path.join(SCRATCH, "home0")
    os.makedirs(home)
    os.environ["HOME"] = home
    for k in ("LANG", "LC_ALL"):
        os.environ.setdefault(k, "C.UTF-8")
    os.environ.pop("PYTHONPATH", None)
    os.chdir(REPO)
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import socket

    def _no(*a, **k):
        raise OSError("network is disabled in this harness")

    socket.create_connection = _no
    import requests

    requests.Session.get = lambda self, url, **kw: NET.get(self, url, **kw)
    requests.get = lambda url, **kw: NET.get(None, url, **kw)
    requests.Session.request = lambda self, method, url, **kw: NET.get(self, url, **kw)
    import time

    time.sleep = lambda *_a: None
    import brel

    want = os.path.realpath(os.path.join(REPO, "brel", "__init__.py"))
    assert os.path.realpath(brel.__file__) == want, brel.__file__
    return brel


_n = 0


def fresh_dir(prefix="c"):
    """A new empty directory private to this process."""
    global _n
    _n += 1
    d = os.path.join(SCRATCH, f"{prefix}.{os.getpid()}.{_n}")
    os.makedirs(d)
    return d


def fresh_home():
    h = fresh_dir("home")
    os.environ["HOME"] = h
    return h


def drop(d):
    assert d.startswith(SCRATCH + "/")
    shutil.rmtree(d, ignore_errors=True)
