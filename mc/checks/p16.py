"""P16: the document cache never changes what a report contains."""
import errno
import os
import shutil
import threading
from collections import Counter

import crashfs
import env
import obs
import xb
from core import Prune, Result, Scenario, Violation

CRASHFS = True
TECHNIQUE = "exhaustive enumeration of operation histories, crash points (every file operation and byte prefix), single faults, torn files and interleavings of two opens on the real cache code under an intercepting file layer; oracle: the same open with an empty cache"
NOTE = "File operations below the cache folder are intercepted in libc (LD_PRELOAD), so that a crash freezes the folder exactly as a killed process leaves it."
ASSUMPTIONS = [
    "remote documents do not change between two opens (the cache has no expiry)",
    "a crash keeps the file operations that were done before it in their order; torn files after a power loss are explored separately as byte prefixes of the stored files",
]

# remote documents at easily confused addresses; each declares a concept of its own
REMOTE = {
    "http://ex.org/t/x_a.xsd": [],
    "https://ex.org/t/x_a.xsd": [],
    "http://ex.org/t_x/a.xsd": [],
    "http://ex.org/t/x/a.xsd": ["../x_a.xsd"],
    "http://www.ex.org/t/x_a.xsd": [],
    "http://ex.org/t/x_a.xsd?v=1": [],
    "http://ex.org/t/x_a.xsd?v=2": [],
    "http://ex.org/t/X_a.xsd": [],
    "http://ex.org/t-x/a.xsd": [],
}
URLS = sorted(REMOTE)


def name_of(u):
    return "C%d" % URLS.index(u)


def remote_doc(u):
    return xb.schema(
        {"ns": "http://ns.org/%d" % URLS.index(u), "prefix": "r", "elements": [{"n": name_of(u)}], "imports": [("urn:x%d" % i, r) for i, r in enumerate(REMOTE[u])]}
    ).encode()


DOCS = {u: remote_doc(u) for u in URLS}

# reports: local entry schemas with equal names in different folders
REPORTS = {
    "A": ["http://ex.org/t/x_a.xsd"],
    "B": ["http://ex.org/t_x/a.xsd", "http://ex.org/t/x/a.xsd"],
    "C": ["https://ex.org/t/x_a.xsd", "http://www.ex.org/t/x_a.xsd"],
    "D": ["http://ex.org/t/x_a.xsd?v=1", "http://ex.org/t/X_a.xsd", "http://ex.org/t-x/a.xsd"],
    "E": ["http://ex.org/t/x_a.xsd?v=2", "http://ex.org/t/x_a.xsd"],
}


def reach(r):
    out, todo = set(), list(REPORTS[r])
    while todo:
        u = todo.pop()
        if u in out:
            continue
        out.add(u)
        if u.endswith("/t/x/a.xsd"):
            todo.append("http://ex.org/t/x_a.xsd")
    return out


def local_files(r, version):
    return {
        "main.xsd": xb.schema(
            {
                "ns": f"http://local.org/{r}",
                "prefix": "m",
                "elements": [{"n": f"Main{r}{version}"}],
                "imports": [(f"http://ns.org/{URLS.index(u)}", u) for u in REPORTS[r]] + [("urn:part", "part.xsd")],
            }
        ),
        "part.xsd": xb.schema({"ns": f"http://local.org/{r}/part", "prefix": "p", "elements": [{"n": f"Part{r}{version}"}]}),
    }


def dump(fl):
    return [sorted(obs.clark(e.get_name()) for e in fl.get_all_report_elements()), obs.errs(fl)]


class World:
    def __init__(self):
        self.dir = env.fresh_dir("w")
        self.home = env.fresh_home()
        self.version = {}
        for r in REPORTS:
            self.edit(r, 0)
        self.keep = []

    def edit(self, r, v):
        # keep the time stamp and the size: nothing tells the versions apart but the content
        self.version[r] = v
        d = os.path.join(self.dir, r)
        xb.write(d, local_files(r, v))
        for f in os.listdir(d):
            os.utime(os.path.join(d, f), (1000000000, 1000000000))

    def path(self, r):
        return os.path.join(self.dir, r)

    def open(self, r, docs=None, home=None):
        """-> (dump, counter of requests)"""
        from brel import Filing

        os.environ["HOME"] = home or self.home
        env.NET.reset(DOCS if docs is None else docs)
        fl = Filing.open(self.path(r))
        self.keep.append(fl)
        return dump(fl), Counter(env.NET.log)

    def close(self):
        env.drop(self.dir)
        env.drop(self.home)


_want = {}


def want(r, version, failing=None):
    """what an open with an empty cache reports; cached per process (it is itself an execution)"""
    k = (r, version, failing)
    if k not in _want:
        w = World()
        try:
            w.edit(r, version)
            docs = dict(DOCS)
            if failing:
                docs[failing] = 404
            _want[k] = w.open(r, docs)[0]
        finally:
            w.close()
        model = sorted(
            [f"{{http://local.org/{r}}}Main{r}{version}", f"{{http://local.org/{r}/part}}Part{r}{version}"]
            + [f"{{http://ns.org/{URLS.index(u)}}}{name_of(u)}" for u in reach_without(r, failing)]
        )
        assert _want[k][0] == model, (k, _want[k], model)
    return _want[k]


def reach_without(r, failing):
    out, todo = set(), list(REPORTS[r])
    while todo:
        u = todo.pop()
        if u in out or u == failing:
            continue
        out.add(u)
        if u.endswith("/t/x/a.xsd"):
            todo.append("http://ex.org/t/x_a.xsd")
    return out


FAILS = {
    "404": lambda u: 404,
    "500": lambda u: 500,
    "refused": lambda u: __import__("requests").exceptions.ConnectionError("refused"),
    "timeout": lambda u: __import__("requests").exceptions.ReadTimeout("timeout"),
    "broken": lambda u: env.Broken(DOCS[u][: len(DOCS[u]) // 2]),
    "html": lambda u: b"<html><body>please log in<br></body></html>",
    "cut": lambda u: DOCS[u][: len(DOCS[u]) // 2],
}


def check(w, r, cached, label, failing=None, maybe=frozenset(), bad=None):
    """open report r now: -> violations; updates the set of completely cached documents"""
    docs = dict(DOCS)
    if failing:
        docs[failing] = bad
    got, req = w.open(r, docs)
    effective = failing if failing and failing not in cached else None
    vs = []
    exp = want(r, w.version[r], effective)
    if got[0] != exp[0]:
        vs.append(Violation(f"{label}:content", f"report {r}: {got[0]} instead of {exp[0]}", {"got": got, "want": exp}))
    elif effective is None and got[1] != exp[1]:
        vs.append(Violation(f"{label}:errors", f"report {r}: errors {got[1]} instead of {exp[1]}"))
    elif effective is not None and not got[1]:
        vs.append(Violation(f"{label}:silent", f"report {r}: the missing document {failing} is not reported"))
    for u in req:
        if u in cached:
            vs.append(Violation(f"{label}:refetched", f"report {r}: {u} was in the cache and fetched again"))
        elif req[u] > 1:
            vs.append(Violation(f"{label}:fetched-twice", f"report {r}: {u} was fetched {req[u]} times"))
    for u in reach_without(r, effective):
        if u not in cached and u not in maybe and u not in req:
            vs.append(Violation(f"{label}:not-fetched", f"report {r}: {u} cannot be known but was not fetched"))
    cached |= reach_without(r, effective)
    return vs


# --- histories ---------------------------------------------------------------------------
def history_build(n, reports, fails):
    def build(ch):
        ops = []
        for i in range(ch.pick("length", range(1, n + 1), free=True)):
            kind = ch.pick("op", ["open", "fail", "edit"], free=True)
            if kind == "open":
                ops.append(["open", ch.pick("report", reports, free=True)])
            elif kind == "edit":
                if i == 0:
                    raise Prune()
                ops.append(["edit", ch.pick("report", reports[:2], free=True)])
            else:
                r = ch.pick("report", ["A", "B", "E"], free=True)
                u = ch.pick("document", REPORTS[r], free=True)
                ops.append(["fail", r, u, ch.pick("how", fails, free=True)])
        if ops[-1][0] == "edit":
            raise Prune()
        return {"ops": ops}

    return build


def history_run(case):
    w = World()
    cached, vs = set(), []
    n = 0
    try:
        for op in case["ops"]:
            if op[0] == "edit":
                w.edit(op[1], w.version[op[1]] + 1)
            elif op[0] == "open":
                vs += check(w, op[1], cached, "history")
                n += 1
            else:
                vs += check(w, op[1], cached, "history", op[2], bad=FAILS[op[3]](op[2]))
                n += 1
            if vs:
                break
        return Result(vs, {"opens": n})
    finally:
        w.close()


# --- crashes and faults --------------------------------------------------------------------
_ops = {}


def ops_of(r, prior, reads=False):
    k = (r, prior, reads)
    if k not in _ops:
        w = World()
        try:
            if prior:
                w.open(prior)
            os.environ["HOME"] = w.home
            with crashfs.armed(w.home, crashfs.COUNT, reads=reads) as a:
                w.open(r)
            _ops[k] = a.ops
            assert a.ops or not any(f for _, _, f in os.walk(w.home)), "file operations were not intercepted"
        finally:
            w.close()
    return _ops[k]


def prefixes(ch, size, every):
    if size <= 0:
        return 0
    opts = range(0, size + 1) if every else sorted({0, 1, size // 2, size - 1, size})
    return ch.pick("bytes", list(opts), free=True)


def crash_build(reports, priors, every):
    def build(ch):
        r = ch.pick("report", reports, free=True)
        prior = ch.pick("prior", priors, free=True)
        ops = ops_of(r, prior)
        if not ops:
            raise Prune()
        k = ch.pick("operation", len(ops), free=True)
        n = prefixes(ch, ops[k][1], every) if ops[k][0] == "w" else 0
        return {"report": r, "prior": prior, "operation": k, "kind": ops[k][0], "bytes": n}

    return build


def crash_run(case):
    w = World()
    vs, cached, opens = [], set(), 1
    try:
        if case["prior"]:
            vs += check(w, case["prior"], cached, "crash:before")
        with crashfs.armed(w.home, crashfs.CRASH, case["operation"], case["bytes"]):
            try:
                w.open(case["report"])
            except Exception:
                pass  # the process is dead
        maybe = reach(case["report"]) - cached
        for r in [case["report"]] + [x for x in REPORTS if x != case["report"]] + [case["report"]]:
            vs += check(w, r, cached, "crash", maybe=maybe)
            opens += 1
        return Result(vs, {"opens": opens, "crashes": 1})
    finally:
        w.close()


def crash2_build(reports):
    def build(ch):
        steps = []
        for i in range(2):
            r = ch.pick("report", reports, free=True)
            ops = ops_of(r, None)
            if not ops:
                raise Prune()
            k = ch.pick("operation", len(ops), free=True)
            steps.append([r, k, prefixes(ch, ops[k][1], False) if ops[k][0] == "w" else 0])
        return {"crashes": steps}

    return build


def crash2_run(case):
    w = World()
    vs, cached, maybe = [], set(), set()
    try:
        for r, k, n in case["crashes"]:
            with crashfs.armed(w.home, crashfs.CRASH, k, n):
                try:
                    w.open(r)
                except Exception:
                    pass
            maybe |= reach(r)
        for r in list(REPORTS) + [case["crashes"][0][0]]:
            vs += check(w, r, cached, "crash2", maybe=maybe)
        return Result(vs, {"opens": 3 + len(REPORTS), "crashes": 2})
    finally:
        w.close()


def fault_build(reports, priors, errors, every):
    def build(ch):
        r = ch.pick("report", reports, free=True)
        prior = ch.pick("prior", priors, free=True)
        ops = ops_of(r, prior)
        if not ops:
            raise Prune()
        k = ch.pick("operation", len(ops), free=True)
        n = prefixes(ch, ops[k][1], every) if ops[k][0] == "w" else 0
        return {"report": r, "prior": prior, "operation": k, "kind": ops[k][0], "bytes": n, "errno": ch.pick("errno", errors, free=True)}

    return build


def fault_run(case):
    w = World()
    vs, cached = [], set()
    try:
        if case["prior"]:
            vs += check(w, case["prior"], cached, "fault:before")
        before = set(cached)
        with crashfs.armed(w.home, crashfs.FAULT, case["operation"], case["bytes"], errno=case["errno"]):
            got, _ = w.open(case["report"])
        exp = want(case["report"], 0)
        if got != exp:
            vs.append(Violation("fault:during", f"report {case['report']}: {got} instead of {exp}"))
        maybe = reach(case["report"]) - before
        for r in [case["report"]] + [x for x in REPORTS if x != case["report"]] + [case["report"]]:
            vs += check(w, r, cached, "fault", maybe=maybe)
        return Result(vs, {"opens": 2 + len(REPORTS), "faults": 1})
    finally:
        w.close()


# --- torn files ------------------------------------------------------------------------------
def files_of(home):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(home) for f in fs)


def torn_build(reports, every):
    def build(ch):
        r = ch.pick("report", reports, free=True)
        size = max(len(DOCS[u]) for u in reach(r))
        i = ch.pick("file", len(reach(r)), free=True)
        how = ch.pick("how", ["prefix", "zeros", "garbage"], free=True)
        n = 0
        if how == "prefix":
            n = ch.pick("bytes", list(range(size)) if every else [0, 1, 40, size // 2, size - 10, size - 5, size - 2], free=True)
        return {"report": r, "file": i, "how": how, "bytes": n}

    return build


def torn_run(case):
    w = World()
    vs, cached = [], set()
    try:
        r = case["report"]
        vs += check(w, r, cached, "torn:before")
        fs = files_of(w.home)
        if case["file"] >= len(fs):
            return Result(vs, {"not_stored": 1})
        f = fs[case["file"]]
        data = open(f, "rb").read()
        if case["how"] == "prefix":
            if case["bytes"] >= len(data.rstrip()):
                return Result(vs, {"complete": 1})
            data = data[: case["bytes"]]
        elif case["how"] == "zeros":
            data = b"\0" * len(data)
        else:
            data = b"\x1f\x8b" + data[::-1]
        with open(f, "wb") as o:
            o.write(data)
        maybe = set(cached)
        cached = set()
        for x in [r] + [x for x in REPORTS if x != r] + [r]:
            vs += check(w, x, cached, "torn", maybe=maybe)
        return Result(vs, {"opens": 2 + len(REPORTS)})
    finally:
        w.close()


# --- two processes ---------------------------------------------------------------------------
def nested_build(reports, priors):
    def build(ch):
        a = ch.pick("first", reports, free=True)
        b = ch.pick("second", reports, free=True)
        prior = ch.pick("prior", priors, free=True)
        ops = ops_of(a, prior, True)
        k = ch.pick("switch", len(ops), free=True) if ops else 0
        return {"first": a, "second": b, "prior": prior, "switch": k}

    return build


def nested_run(case):
    """the second report is opened completely before file operation k of the first open"""
    w = World()
    vs, cached = [], set()
    other = {}
    try:
        if case["prior"]:
            vs += check(w, case["prior"], cached, "together:before")

        def switch():
            try:
                saved = env.NET.log
                other["got"], _ = w.open(case["second"])
                env.NET.log = saved
            except BaseException as e:
                other["error"] = e

        def in_thread():  # a parser of lxml cannot be used again while it reads
            t = threading.Thread(target=switch)
            t.start()
            t.join()

        with crashfs.armed(w.home, crashfs.SWITCH, case["switch"], reads=True, callback=in_thread):
            got, _ = w.open(case["first"])
        if "error" in other:
            raise other["error"]
        for r, g in ((case["first"], got), (case["second"], other.get("got"))):
            if g is not None and g != want(r, 0):
                vs.append(Violation("together:content", f"report {r}: {g} instead of {want(r, 0)}"))
        maybe = reach(case["first"]) | reach(case["second"])
        for r in REPORTS:
            vs += check(w, r, cached, "together:after", maybe=maybe)
        return Result(vs, {"opens": 2 + len(REPORTS), "switched": int("got" in other)})
    finally:
        w.close()


class Scheduler:
    """Two threads run one at a time.  Each stops before every file operation; `plan` is the
    list of (number of operations to run) of alternating turns, the rest runs to the end."""

    def __init__(self, plan):
        self.plan = list(plan)
        self.cond = threading.Condition()
        self.turn = 0
        self.left = self.plan.pop(0)
        self.done = [False, False]
        self.ids = {}
        self.steps = [0, 0]
        self.stuck = 0

    def switch(self):
        other = 1 - self.turn
        if self.done[other]:
            self.left = 1 << 30
            return
        self.turn = other
        self.left = self.plan.pop(0) if self.plan else 1 << 30
        self.cond.notify_all()

    def point(self):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        with self.cond:
            self.wait(me)
            if self.left == 0:
                self.switch()
                self.wait(me)
            self.left -= 1
            self.steps[me] += 1

    def wait(self, me):
        while self.turn != me:
            if not self.cond.wait(1.0) and self.turn != me:
                # the other one waits for something that this one holds
                self.stuck += 1
                self.turn = me
                self.left = 1 << 30

    def body(self, me, f):
        def run():
            self.ids[threading.get_ident()] = me
            with self.cond:
                self.wait(me)
            try:
                self.result[me] = f()
            except BaseException as e:
                self.error = e
            with self.cond:
                self.done[me] = True
                if self.turn == me:
                    self.switch()
                self.cond.notify_all()

        return run

    def run(self, fs):
        self.result, self.error = [None, None], None
        ts = [threading.Thread(target=self.body(i, f)) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.error:
            raise self.error
        return self.result


def threads_build(reports, more=False):
    def build(ch):
        a = ch.pick("first", reports, free=True)
        b = ch.pick("second", reports, free=True)
        if a > b:
            raise Prune()
        na, nb = len(ops_of(a, None, True)), len(ops_of(b, None, True))
        i = ch.pick("operations of the first", na + 1, free=True)
        j = ch.pick("operations of the second", range(1, nb + 1), free=True) if nb else 0
        turns = [i, j]
        if more:
            turns += [ch.pick("operations of the first", range(1, na + 1), free=True), ch.pick("operations of the second", range(1, nb + 1), free=True)]
        return {"first": a, "second": b, "turns": turns}

    return build


def threads_run(case):
    """the first runs i operations, the second j, the first to its end, the second to its end"""
    w = World()
    vs, cached = [], set()
    try:
        os.environ["HOME"] = w.home
        for r in ("A", "E"):
            want(r, 0)  # everything is imported before the threads start
        os.environ["HOME"] = w.home
        env.NET.reset(DOCS)
        s = Scheduler(case["turns"])

        def opener(r):
            def f():
                from brel import Filing

                return dump(Filing.open(w.path(r)))

            return f

        with crashfs.armed(w.home, crashfs.SCHEDULE, reads=True, callback=s.point):
            got = s.run([opener(case["first"]), opener(case["second"])])
        for r, g in zip((case["first"], case["second"]), got):
            if g != want(r, 0):
                vs.append(Violation("threads:content", f"report {r}: {g} instead of {want(r, 0)}"))
        maybe = reach(case["first"]) | reach(case["second"])
        os.environ["HOME"] = w.home
        for r in REPORTS:
            vs += check(w, r, cached, "threads:after", maybe=maybe)
        return Result(vs, {"opens": 2 + len(REPORTS), "operations": sum(s.steps), "stuck": s.stuck})
    finally:
        w.close()


# --- the place of the cache -------------------------------------------------------------------
def place_build(ch):
    return {
        "place": ch.pick("place", ["missing", ".brel is a file", "cache is a file", "read only", "stray files", "stray folder", "relative"], free=True),
        "reports": [ch.pick("first", ["A", "B"], free=True), ch.pick("second", ["A", "B"], free=True)],
    }


def place_run(case):
    w = World()
    vs = []
    try:
        p, h = case["place"], w.home
        cwd = os.getcwd()
        k = None
        if p == "missing":
            w.home = os.path.join(h, "not", "there")
        elif p == ".brel is a file":
            open(os.path.join(h, ".brel"), "w").close()
        elif p == "cache is a file":
            os.mkdir(os.path.join(h, ".brel"))
            open(os.path.join(h, ".brel", "dts_cache"), "w").close()
        elif p.startswith("stray"):
            w.open("C")
            d = os.path.dirname(files_of(h)[0])
            if p == "stray files":
                for n in ("x_a.xsd", "main.xsd", "http___ex.org_t_x_a.xsd", ".hidden", "a.tmp"):
                    open(os.path.join(d, n), "w").write("<a>")
            else:
                os.makedirs(os.path.join(d, "ex.org", "t"))
        elif p == "relative":
            os.chdir(h)
            w.home = "."
        seen = []
        for r in case["reports"]:
            if p == "read only":
                # every change fails, from the first on
                with crashfs.armed(h, crashfs.CRASH, 0):
                    got, req = w.open(r)
            else:
                got, req = w.open(r)
            if got != want(r, 0):
                vs.append(Violation(f"place:{p}", f"report {r}: {got} instead of {want(r, 0)}"))
            if p in ("missing", "stray files", "stray folder", "relative") and r in seen and req:
                vs.append(Violation(f"place:{p}:refetched", f"report {r}: {dict(req)} were fetched again"))
            seen.append(r)
        return Result(vs, {"opens": 2})
    finally:
        os.chdir(cwd)
        w.home = h
        w.close()


def scenarios(tier):
    t = tier == "thorough"
    R = list(REPORTS)
    return [
        Scenario("history", history_build(4 if t else 3, R, list(FAILS) if t else ["404", "broken", "cut"]), history_run, desc="all histories of opens, opens with one failing download and edits of local files; every open compared with an open with an empty cache and with the set of documents that may be requested"),
        Scenario("failures", history_build(2, R, list(FAILS)), history_run, desc="all histories of length 2 with every report and every way in which a download fails"),
        Scenario("crash", crash_build(R, [None, "A", "B"] if t else [None, "A"], t), crash_run, desc="a crash at every file operation of an open (writes: at byte prefixes; thorough: at all), then every report is opened"),
        Scenario("crashbytes", crash_build(["A"] if not t else R, [None], True), crash_run, desc="a crash at every byte of every write"),
        Scenario("crash2", crash2_build(R if t else ["A", "E"]), crash2_run, desc="two crashes one after the other, each at every file operation"),
        Scenario("fault", fault_build(R, [None, "A"], [errno.ENOSPC, errno.EACCES, errno.EIO] if t else [errno.ENOSPC, errno.EACCES], t), fault_run, desc="every single file operation of an open fails; the open itself and all later ones are judged"),
        Scenario("torn", torn_build(R if t else ["A", "B"], t), torn_run, desc="a stored file was left incomplete or damaged"),
        Scenario("nested", nested_build(R if t else ["A", "B", "E"], [None, "A"]), nested_run, desc="another process opens a report between any two file operations of an open"),
        Scenario("threads", threads_build(R if t else ["A", "B", "E"]), threads_run, desc="two opens alternate: all schedules with up to 3 switches at file operations"),
        *([Scenario("threads4", threads_build(["A"], True), threads_run, desc="two opens of the same report alternate: all schedules with up to 5 switches")] if t else []),
        Scenario("place", place_build, place_run, desc="the cache folder is missing, not a folder, not writable or has other files"),
    ]
