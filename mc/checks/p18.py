"""P18: reports that are open together do not influence each other."""
import json
import os
import pickle
import sys
import threading
import zipfile

import common as k
import dump
import env
import faulty
import xb
from core import Prune, Result, Scenario, Violation

TECHNIQUE = "stateless model checking of the real code: (1) all histories of open, query, configure and change-the-files operations on several reports up to a length, (2) all schedules of two threads with one (thorough: two) preemptions at executed lines of the library, under a scheduler built on the interpreter's trace hook; oracle: the same session alone in a process of its own"
ASSUMPTIONS = [
    "threads are preempted between lines of the library's Python code and within a line only at the calls it makes; a preempted thread is resumed after the other one came to its end or to its second preemption",
    "the reports share the folder of the document cache and documents at remote addresses",
]
REMOTE = "http://ex.org/shared/r.xsd"
RDOC = xb.schema({"ns": "http://ex.org/shared", "prefix": "s", "elements": [k.C("Shared"), k.C("Other")]}).encode()


# ------------------------------------------------------------------ the reports
def changed(files, *subs):
    out = {}
    for n, t in files.items():
        for a, b in subs:
            t = t.replace(a, b)
        out[n] = t
    return out


def with_remote(files):
    return changed(files, ('<xs:import namespace="http://ex.org/u"', f'<xs:import namespace="http://ex.org/shared" schemaLocation="{REMOTE}"/>\n<xs:import namespace="http://ex.org/u"'))


PLAIN, INLINE = with_remote(faulty.BASE["plain"][1]), with_remote(faulty.BASE["inline"][1])
# the same names everywhere, other contents
OTHER = changed(
    PLAIN,
    (">100<", ">200<"),
    (">some text<", ">other text<"),
    ("2023-12-30", "2019-06-30"),
    (">E1<", ">E2<"),
    ("iso4217:EUR", "iso4217:CHF"),
    ("Cash label", "Bargeld"),
    ("Kosten", "Costs"),
    ('xml:lang="de"', 'xml:lang="fr"'),
    ("01 - Statement - A", "01 - Bilanz - A"),
    ('name="Total" id="t_Total" type="xbrli:monetaryItemType"', 'name="Total" id="t_Total" type="xbrli:sharesItemType"'),
    (' order="1" weight="1"', ' order="3" weight="1"'),
    ("first note", "another note"),
    ('">t:M2<', '">t:M9<'),
    ('contextRef="c2" unitRef="usd"', 'contextRef="c2" unitRef="eur"'),
    ('<t:Note id="f5" contextRef="c3">', '<t:Note id="f5" contextRef="c33">'),
    ('<xs:element name="Shares"', '<xs:element name="Extra2" id="t_Extra2" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>\n<xs:element name="Shares"'),
)
# the same prefixes and ids, other namespaces
ELSEWHERE = changed(INLINE, ("http://ex.org/t", "http://ex.org/v"), (">100<", ">300<"), ("Cash label", "Cash elsewhere"), ('href="#f3"', 'href="#f33"'), ('fromRefs="f3"', 'fromRefs="f33"'))
ZIPPED = changed(PLAIN, (">100<", ">400<"), ("http://ex.org/role/", "http://ex.org/other-role/"), ("Cash label", "Cash zipped"))
REPORTS = {"plain": ("i.xml", PLAIN), "other": ("i.xml", OTHER), "inline": ("i.xhtml", ELSEWHERE), "zip": (None, ZIPPED)}
NAMES = ["t:Cash", "t:Shares", "{http://ex.org/v}Cash", "u:Extra", "t:Extra2"]
SETTINGS = {"none": {}, "german": {"languages": ["de"]}, "french": {"languages": ["fr", "es"], "allow_mixed": True, "match_locale": False}, "nothing": {"allow_default": True, "allow_report_language": False, "languages": []}}


def place(root, name, report):
    """write a report -> the path to open"""
    main, files = REPORTS[report]
    d = os.path.join(root, name)
    if main is None:
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "r.zip")
        with zipfile.ZipFile(p, "w") as z:
            for n, t in files.items():
                z.writestr(n, t)
        return p
    xb.write(d, files)
    return os.path.join(d, main)


def query(fl):
    from lxml import etree

    d = dump.full(fl, NAMES, prints=False)
    d["places"] = [etree.tostring(c, encoding="unicode")[:300] if (c := e.get_context()) is not None and not hasattr(c, "getroot") else None for e in fl.get_all_errors()]
    d["languages"] = fl.get_preferred_languages(None, True, True, True)
    d["xsd"] = [str(x.get_name()) for x in fl.get_all_concepts() if "shared" in x.get_name().get_URL()]
    return d


def opening(path):
    from brel import Filing

    return Filing.open(path)


def library(setting):
    from brel.config.brel_config import BrelConfig

    BrelConfig.set_library_output_parameters(**SETTINGS[setting])


def begin():
    env.NET.reset({REMOTE: RDOC})
    root = env.fresh_dir()
    os.environ["HOME"] = os.path.join(root, "home")
    os.makedirs(os.environ["HOME"])
    return root


def elsewhere(f):
    """f() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = pickle.dumps(("ok", f()))
        except BaseException as e:
            import traceback

            out = pickle.dumps(("failed", traceback.format_exc()))
        with os.fdopen(w, "wb") as o:
            o.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        kind, v = pickle.loads(i.read())
    os.waitpid(pid, 0)
    if kind == "failed":
        raise RuntimeError(v)
    return v


_alone = {}


def alone(report, own="none", lib="none"):
    """what one report in one process says with these settings"""
    key = (report, own, lib)
    if key not in _alone:

        def f():
            root = begin()
            fl = opening(place(root, "r", report))
            if own != "none":
                fl.set_filing_output_params(**SETTINGS[own])
            library(lib)
            return query(fl)

        _alone[key] = elsewhere(f)
    return _alone[key]


def compare(got, report, own, lib, what):
    want = alone(report, own, lib)
    if got == want:
        return []
    d = dump.first_difference(want, got)
    place = d[0] if d else "?"
    return [Violation(f"{report} {own} {lib} {place.split('[')[0]}", f"{what}: report {report} (own settings {own}, library settings {lib}) says {str(d[2])[:300]} instead of {str(d[1])[:300]} at {place}")]


# ------------------------------------------------------------------ histories
def histories(length, handles):
    def build(ch):
        ops, opened = [], []
        files = "plain"  # what is at the first place
        while len(ops) < length:
            can = [["stop"]]
            if len(opened) < handles:
                can += [["open", r] for r in ("first", "other", "inline", "zip")]
            if opened:
                can += [["set", h, s] for h in range(len(opened)) for s in ("german", "french")]
                can += [["query", h] for h in range(len(opened))]
                can += [["lib", s] for s in ("german", "nothing")]
            can += [["rewrite"]]
            op = ch.pick("operation", can, free=True)
            if op[0] == "stop":
                break
            if ops and op == ops[-1]:
                raise Prune()  # the same operation twice in a row
            if ops and op[0] == "query" and ops[-1][0] == "query" and ops[-1][1] > op[1]:
                raise Prune()  # two queries commute
            if op[0] == "open":
                opened.append(op[1])
            ops.append(op)
        if len(opened) < 2:
            raise Prune()
        return {"ops": ops}

    return build


def history_run(case):
    root = begin()
    v = []
    library("none")
    try:
        kind = "plain"
        paths = {"first": place(root, "p", kind)}
        for r in ("other", "inline", "zip"):
            if any(o == ["open", r] for o in case["ops"]):
                paths[r] = place(root, r, r)
        fls, lib = [], "none"
        for op in case["ops"] + [["query", h] for h in range(3)]:
            if op[0] == "open":
                fls.append([opening(paths[op[1]]), kind if op[1] == "first" else op[1], "none"])
            elif op[0] == "set":
                fls[op[1]][0].set_filing_output_params(**SETTINGS[op[2]])
                fls[op[1]][2] = op[2]
            elif op[0] == "lib":
                library(op[1])
                lib = op[1]
            elif op[0] == "rewrite":
                kind = "other" if kind == "plain" else "plain"
                place(root, "p", kind)
            elif op[0] == "query" and op[1] < len(fls):
                fl, r, own = fls[op[1]]
                v += compare(query(fl), r, own, lib, f"after {case['ops']}")
    finally:
        library("none")
        env.drop(root)
    return Result(v[:3])


# ------------------------------------------------------------------ schedules
BREL = os.path.join(env.REPO, "brel") + os.sep
SESSIONS = {
    "plain": ("plain", "none"),
    "other": ("other", "german"),
    "inline": ("inline", "none"),
    "zip": ("zip", "french"),
}


def session(report, own, path, fl=None):
    fl = fl or opening(path)
    if own != "none":
        fl.set_filing_output_params(**SETTINGS[own])
    return query(fl)


def tracer(event_of, file=None):
    """a trace function for the current thread that calls event_of(location) at every line of brel
    (of one of its files)"""

    def local(frame, event, arg):
        if event == "line":
            event_of((frame.f_code.co_filename[len(BREL) :], frame.f_lineno))
        return local

    def top(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(BREL) else None

    def one(frame, event, arg):
        return local if frame.f_code.co_filename == want else None

    if file is not None:
        want = BREL + file
        return one

    return top


_points = {}


def points(name, most, only_query=False):
    """the preemption points of a session: every line, its first `most` occurrences and (if they are
    more than one) the last one"""
    key = (name, most, only_query)
    if key not in _points:

        def f():
            root = begin()
            report, own = SESSIONS[name]
            path = place(root, "r", report)
            library("none")
            session(report, own, path)  # modules that are loaded lazily
            fl = opening(path) if only_query else None
            seen = {}

            def at(loc):
                seen[loc] = seen.get(loc, 0) + 1

            sys.settrace(tracer(at))
            try:
                session(report, own, path, fl)
            finally:
                sys.settrace(None)
                env.drop(root)
            return [[*loc, o] for loc, n in seen.items() for o in sorted(set(list(range(1, min(n, most) + 1)) + ([n] if most > 1 else [])))]

        _points[key] = elsewhere(f)
    return _points[key]


def by_function(pts):
    """the first point that runs in every forty lines of a file"""
    out, seen = [], set()
    for f, l, o in pts:
        if o == 1 and (f, l // 40) not in seen:
            seen.add((f, l // 40))
            out.append([f, l, o])
    return out


def schedules(pairs, most, preemptions=1, same=False, new=False):
    """new: only at lines that the first threads of the pairs before do not run"""

    def build(ch):
        a, b = ch.pick("threads", pairs, free=True)
        if preemptions == 1:
            ps = points(a, most, same)
            if new:
                old = {tuple(p) for x, _ in pairs[: pairs.index((a, b))] for p in points(x, most, same)}
                ps = [p for p in ps if tuple(p) not in old]
            case = {"first": a, "second": b, "at": ch.pick("switch", ps, free=True)}
        else:
            case = {"first": a, "second": b, "at": ch.pick("switch", by_function(points(a, 1)), free=True), "back": ch.pick("switch back", by_function(points(b, 1)), free=True)}
        return dict(case, same=same)

    return build


class Switch:
    """two threads, one at a time: the first runs to a point, the second to its point or its end,
    then the first and then the second to the end"""

    def __init__(self, at, back=None):
        self.points = [tuple(at), tuple(back) if back else None]
        self.go = [threading.Event(), threading.Event()]
        self.count = [0, 0]
        self.result = [None, None]
        self.reached = 0
        self.stuck = 0

    def body(self, me, f):
        def at(loc):
            p = self.points[me]
            if p is not None and loc == p[:2]:
                self.count[me] += 1
                if self.count[me] == p[2]:
                    self.points[me] = None
                    sys.settrace(None)
                    self.reached += 1
                    self.go[me].clear()
                    self.go[1 - me].set()
                    if not self.go[me].wait(20):  # the other one waits for something that this one holds
                        self.stuck += 1

        def run():
            self.go[me].wait()
            if self.points[me] is not None:
                sys.settrace(tracer(at, self.points[me][0]))
            try:
                self.result[me] = ("value", f())
            except BaseException as e:
                import traceback

                self.result[me] = ("raised", f"{type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3:-1]}")
            finally:
                sys.settrace(None)
                self.go[1 - me].set()

        return run

    def run(self, fs):
        ts = [threading.Thread(target=self.body(i, f)) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        self.go[0].set()
        for t in ts:
            t.join()
        return self.result


def schedule_run(case):
    root = begin()
    library("none")
    v = []
    try:
        fs = []
        for i, name in enumerate((case["first"], case["second"])):
            report, own = SESSIONS[name]
            if case["same"] and i:
                fs.append(lambda: query(fl))
                continue
            path = place(root, f"r{i}", report)
            if case["same"]:
                fl = opening(path)
                if own != "none":
                    fl.set_filing_output_params(**SETTINGS[own])
                fs.append(lambda: query(fl))
            else:
                fs.append(lambda report=report, own=own, path=path: session(report, own, path))
        s = Switch(case["at"], case.get("back"))
        for name, (kind, got) in zip((case["first"], case["first"] if case["same"] else case["second"]), s.run(fs)):
            report, own = SESSIONS[name]
            what = f"preempted at {case['at']}" + (f", resumed at {case['back']}" if "back" in case else "") + f", threads {case['first']} and {case['second']}"
            if kind == "raised":
                v.append(Violation(f"{report} raises {got.split(':')[0]}", f"{what}: report {report} raises {got}"))
            else:
                v += compare(got, report, own, "none", what)
    finally:
        library("none")
        env.drop(root)
    return Result(v[:3], {"reached": s.reached, "stuck": s.stuck})


def scenarios(tier):
    for r in REPORTS:
        for own in ("none", "german", "french"):
            for lib in ("none", "german", "nothing"):
                alone(r, own, lib)
    q = tier != "thorough"
    pairs = [("plain", "other"), ("inline", "plain"), ("zip", "other")] if q else [(a, b) for a in SESSIONS for b in SESSIONS]
    for a in SESSIONS:
        for same in (False, True):
            points(a, 1 if q else 6, same)
        points(a, 1)
    out = [
        Scenario("histories", histories(4 if q else 5, 2 if q else 3), history_run, None, "histories of open, configure, query and change operations"),
        Scenario("preempt", schedules(pairs, 1 if q else 6, new=q), schedule_run, None, "one preemption at every line that a session runs: the first time (thorough: the first six times and the last)"),
        Scenario("same", schedules([(a, a) for a in (("plain", "inline") if q else SESSIONS)], 1 if q else 6, same=True, new=q), schedule_run, None, "two threads query one report, one preemption"),
    ]
    if not q:
        out.append(Scenario("preempt twice", schedules([("plain", "other"), ("inline", "plain"), ("zip", "inline")], 1, 2), schedule_run, None, "two preemptions, each at the first line of every forty that runs"))
    return out
