"""P22: EDGAR filings are selected exactly, with a reliable metadata cache."""
import contextlib
import importlib
import io
import json
import os
import threading
import time

import crashfs
import env
import obs
import xb
from core import Prune, Result, Scenario, Violation

CRASHFS = True
TECHNIQUE = "exhaustive enumeration of small submission indexes with all queries, of histories of calls, index changes, cache ages, damages and server failures, of all crash points (file operation and byte prefix) and single faults of a metadata download, and of switches to a second call at every file operation, on the real open_edgar with a fake SEC server; oracle: a model of the index and of the cache's age"
NOTE = "The SEC server is a stand-in inside the process; file operations below the scratch HOME are intercepted in libc (LD_PRELOAD). Ages are set through the time stamps of the stored files."
ASSUMPTIONS = [
    "the cached copy's age is told by its file's time stamp; ages within an hour of the one-day limit and time stamps in the future are not judged",
    "filings that the index lists only in its older parts (filings.files) are outside the property",
    "the instance of a filing with the document x.htm is x_htm.xml in the same folder, as EDGAR generates it",
    "a filing without a report date ranks below all others when no date is given; whether one is opened when there is nothing else is not judged",
]
CIK, CIK2 = "320193", "3201930"
FORMS = ["10-K", "10-Q", "8-K"]


def meta_uri(cik):
    return f"https://data.sec.gov/submissions/CIK{cik.zfill(10)}.json"


def folder(cik, f):
    return f"https://www.sec.gov/Archives/edgar/data/{cik.zfill(10)}/{f['acc'].replace('-', '')}"


def doc_uri(cik, f):
    d = f["doc"]
    return folder(cik, f) + "/" + (d[:-4] + "_htm.xml" if d.endswith(".htm") else d)


def metadata(cik, filings):
    return {
        "cik": cik,
        "name": "Acme Corp",
        "filings": {
            "recent": {
                "accessionNumber": [f["acc"] for f in filings],
                "filingDate": ["2024-01-01" for f in filings],
                "reportDate": [f["date"] for f in filings],
                "form": [f["form"] for f in filings],
                "isXBRL": [f["xbrl"] for f in filings],
                "isInlineXBRL": [1 for f in filings],
                "primaryDocument": [f["doc"] for f in filings],
            },
            "files": [],
        },
    }


def report(what):
    return xb.instance(
        {
            "schemaRefs": ["m.xsd"],
            "nsmap": {"m": "http://ex.org/m"},
            "contexts": [{"id": "c", "period": ("i", "2023-01-01")}],
            "facts": [{"c": "m:Which", "ctx": "c", "val": what}],
        }
    ).encode()


SCHEMA = xb.schema({"ns": "http://ex.org/m", "prefix": "m", "elements": [{"n": "Which", "type": "xbrli:stringItemType"}]}).encode()


def serve(world):
    """world: {cik: filings} -> documents of the server"""
    docs = {}
    for cik, filings in world.items():
        docs[meta_uri(cik)] = json.dumps(metadata(cik, filings)).encode()
        for f in filings:
            if not f.get("gone"):
                docs[doc_uri(cik, f)] = report(ident(cik, f))
            docs[folder(cik, f) + "/m.xsd"] = SCHEMA
    return docs


def ident(cik, f):
    return f"{cik}|{f['acc']}|{f['doc']}"


def choose(filings, form, date):
    """the filing that the index lists for the query, or None"""
    best = None
    for f in filings:
        if f["form"] == form and str(f["xbrl"]) == "1" and date in (None, f["date"]):
            if best is None or f["date"] > best["date"]:
                best = f
    return best


def call(cik, form, date=None, docs=None, keyword=False):
    """-> (identities of the facts | exception, requests)"""
    if docs is not None:
        env.NET.reset(docs)
    from brel.utils import edgar

    edgar = importlib.reload(edgar)  # a new process
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            if keyword:
                fl = edgar.open_edgar(cik=cik, filing_type=form, date=date)
            elif date is None:
                fl = edgar.open_edgar(cik, form)
            else:
                fl = edgar.open_edgar(cik, form, date)
            got = [f.get_value_as_str() for f in fl.get_all_facts()]
            e = obs.errs(fl)
            if e:
                got.append(e)
        except Exception as e:
            got = e
    return got, list(env.NET.log)


def judge(sig, got, cik, f, what):
    """violations of a call whose answer is the filing f (None: not found)"""
    if f is None:
        if isinstance(got, ValueError):
            return []
        return [Violation(f"{sig}:not-found", f"{what}: no such filing, but the answer was {got!r}")]
    if f.get("gone"):
        # refused, or a report without facts that tells the error
        if isinstance(got, Exception) or (got and not any(isinstance(x, str) for x in got)):
            return []
        return [Violation(f"{sig}:gone", f"{what}: the filing cannot be downloaded, but the answer was {got!r}")]
    if isinstance(got, Exception):
        if f["date"] == "" and isinstance(got, ValueError):
            return []
        return [Violation(f"{sig}:fails", f"{what}: {ident(cik, f)} is listed, but the answer was {got!r}")]
    if got != [ident(cik, f)]:
        return [Violation(f"{sig}:wrong", f"{what}: {got} instead of {ident(cik, f)}")]
    return []


# --- selection ---------------------------------------------------------------------------------
DATES = ["2023-09-30", "2022-12-31", "2023-10-01", "2009-09-30", ""]
NAMES = ["a.htm", "r.xml", "a.htm-2023.htm", "b_htm.htm"]


def select_build(maxn, queries):
    def build(ch):
        n = ch.pick("filings", range(1, maxn + 1), free=True)
        fs = []
        for i in range(n):
            fs.append(
                {
                    "acc": f"0000320193-2{i}-00000{i}",
                    "form": ch.pick("form", ["10-K", "10-Q", "8-K", "10-K/A", "10-KT", "K", "10-k"]),
                    "date": ch.pick("date", DATES[i:] + DATES[:i]),
                    "xbrl": ch.pick("isXBRL", [1, 0, "1", "0"]),
                    "doc": ch.pick("document", NAMES),
                }
            )
            if ch.flag("gone"):
                fs[-1]["gone"] = True
        return {"filings": fs, "queries": queries}

    return build


def select_run(case):
    home = env.fresh_home()
    vs, n, found = [], 0, 0
    try:
        docs = serve({CIK: case["filings"]})
        for form in FORMS:
            for date in [None] + sorted({f["date"] for f in case["filings"]} | {"2023-09-30", "2023-09-29"} - {""}):
                if date == "":
                    continue
                want = choose(case["filings"], form, date)
                got, log = call(CIK, form, date, docs)
                n += 1
                found += want is not None
                vs += judge("select", got, CIK, want, f"{form} {date}")
                if n > 1 and meta_uri(CIK) in log:
                    vs.append(Violation("select:refetched", f"{form} {date}: the fresh index was fetched again"))
            if vs:
                break
        return Result(vs, {"calls": n, "found": found})
    finally:
        env.drop(home)


# --- histories -----------------------------------------------------------------------------------
def F(acc, form, date, xbrl=1, doc="a.htm"):
    return {"acc": acc, "form": form, "date": date, "xbrl": xbrl, "doc": doc}


OLD = [F("0000320193-22-000001", "10-K", "2022-12-31"), F("0000320193-22-000002", "10-Q", "2022-09-30")]
VERSIONS = [OLD, [F("0000320193-23-000001", "10-K", "2023-12-31")] + OLD, [F("0000320193-24-000009", "8-K", "2024-01-09")] + OLD[1:]]
OTHER = [F("0003201930-21-000001", "10-K", "2021-12-31", doc="o.htm")]
QUERIES = [("10-K", None), ("10-K", "2023-12-31"), ("8-K", None), ("10-Q", "2022-09-30")]
BAD = {
    "404": lambda b: 404,
    "403": lambda b: 403,
    "500": lambda b: 500,
    "refused": lambda b: __import__("requests").exceptions.ConnectionError("refused"),
    "timeout": lambda b: __import__("requests").exceptions.ReadTimeout("timeout"),
    "broken": lambda b: env.Broken(b[: len(b) // 2]),
    "cut": lambda b: b[: len(b) // 2],
    "empty": lambda b: b"",
    "html": lambda b: b"<html>Request rate threshold exceeded</html>",
    "other json": lambda b: b'{"message": "try again later"}',
    "no filings": lambda b: b'{"name": "Acme", "filings": {}}',
    "null": lambda b: b"null",
    "no forms": lambda b: b'{"name": "Acme", "filings": {"recent": {"form": ["10-K"]}}}',
}
DAMAGE = ["cut 0", "cut 1", "cut half", "cut last", "zeros", "garbage", "{}", "[]", "null", "filings {}", "not utf-8", "removed", "all removed"]
AGES = {"23h": (23, False), "now": (0, False), "25h": (25, True), "47h": (47, True), "49h": (49, True), "400d": (9600, True)}


class World:
    def __init__(self):
        self.home = env.fresh_home()
        self.version = 0
        self.state = None  # of the cached index: (version, stale?)
        self.calls = 0

    def docs(self, bad=None):
        d = serve({CIK: VERSIONS[self.version], CIK2: OTHER})
        for f in sum(VERSIONS, []):  # old filings stay where they are
            d[doc_uri(CIK, f)] = report(ident(CIK, f))
            d[folder(CIK, f) + "/m.xsd"] = SCHEMA
        if bad:
            for cik in (CIK, CIK2):
                d[meta_uri(cik)] = BAD[bad](d[meta_uri(cik)])
        return d

    def files(self):
        return sorted(os.path.join(d, f) for d, _, fs in os.walk(self.home) for f in fs)

    def age(self, hours, stale):
        t = time.time() - hours * 3600
        for f in self.files():
            os.utime(f, (t, t))
        if self.state:
            self.state = (self.state[0], stale)

    def damage(self, how):
        for f in self.files():
            st = os.stat(f)
            b = open(f, "rb").read()
            if how == "removed" or how == "all removed":
                os.remove(f)
                continue
            elif how.startswith("cut"):
                b = b[: {"0": 0, "1": 1, "half": len(b) // 2, "last": len(b.rstrip()) - 1}[how[4:]]]
            elif how == "zeros":
                b = b"\0" * len(b)
            elif how == "garbage":
                b = b"\x1f\x8b" + b[::-1]
            elif how == "filings {}":
                b = b'{"name": "Acme", "filings": {}}'
            elif how == "not utf-8":
                b = b'{"name": "\xff\xfe"' + b[1:]
            else:
                b = how.encode()
            with open(f, "wb") as o:
                o.write(b)
            os.utime(f, (st.st_mtime, st.st_mtime))
        if how == "all removed":
            import shutil

            for n in os.listdir(self.home):
                shutil.rmtree(os.path.join(self.home, n))
        self.state = None

    def query(self, sig, form, date, bad=None, maybe=False):
        """one call, judged; maybe: the cached copy may or may not be usable"""
        os.environ["HOME"] = self.home
        got, log = call(CIK, form, date, self.docs(bad))
        self.calls += 1
        asked = log.count(meta_uri(CIK))
        what = f"{form} {date}"
        fresh = self.state is not None and not self.state[1]
        if fresh and not maybe:
            vs = judge(sig, got, CIK, choose(VERSIONS[self.state[0]], form, date), what + " from the fresh cache")
            if asked:
                vs.append(Violation(f"{sig}:refetched", f"{what}: the fresh index was fetched again"))
            return vs
        if not asked and not maybe:
            return [Violation(f"{sig}:not-fetched", f"{what}: the index is {'stale' if self.state else 'not cached'}, but it was not fetched")]
        if bad:
            if not isinstance(got, Exception):
                return [Violation(f"{sig}:no-error", f"{what}: the index could not be fetched, but the answer was {got!r}")]
            return []
        self.state = (self.version, False)
        return judge(sig, got, CIK, choose(VERSIONS[self.version], form, date), what + " after a download")

    def other(self, sig):
        got, log = call(CIK2, "10-K", None, self.docs())
        self.calls += 1
        return judge(sig, got, CIK2, OTHER[0], "the other company")

    def close(self):
        env.drop(self.home)


def history_build(n, bads, damages, ages):
    def build(ch):
        ops = []
        called = False
        for i in range(ch.pick("length", range(1, n + 1), free=True)):
            kind = ch.pick("op", ["call", "fail", "change", "age", "damage", "other"], free=True)
            if kind == "call":
                ops.append(["call", ch.pick("query", range(len(QUERIES)), free=True)])
                called = True
            elif kind == "fail":
                ops.append(["fail", ch.pick("how", bads, free=True)])
            else:
                if kind != "other" and ops and ops[-1][0] == kind:
                    raise Prune()
                if kind in ("age", "damage") and not called:
                    raise Prune()
                what = {"change": [1, 2], "age": ages, "damage": damages, "other": [0]}[kind]
                ops.append([kind, ch.pick("what", what, free=True)])
        if ops[-1][0] not in ("call", "fail"):
            raise Prune()
        return {"ops": ops}

    return build


def history_run(case):
    w = World()
    vs = []
    try:
        for op, x in case["ops"]:
            if op == "call":
                vs += w.query("history", *QUERIES[x])
            elif op == "fail":
                vs += w.query("history", "10-K", None, bad=x)
            elif op == "change":
                w.version = (w.version + x) % 3
            elif op == "age":
                w.age(*AGES[x])
            elif op == "damage":
                w.damage(x)
            else:
                vs += w.other("history")
            if vs:
                break
        if not vs:
            vs += w.query("history:end", "10-K", None)
            vs += w.query("history:end", "10-Q", "2022-09-30", bad="404")  # fresh: no server is needed
        return Result(vs, {"calls": w.calls})
    finally:
        w.close()


# --- crashes, faults, two processes ------------------------------------------------------------
PRIORS = ["nothing", "stale", "other company"]
_ops = {}


def prepare(w, prior, vs):
    if prior == "stale":
        vs += w.query("before", "10-K", None)
        w.age(*AGES["49h"])
        w.version = 1
    elif prior == "other company":
        vs += w.other("before")


def ops_of(prior, reads=False):
    k = (prior, reads)
    if k not in _ops:
        w = World()
        try:
            prepare(w, prior, [])
            with crashfs.armed(w.home, crashfs.COUNT, reads=reads) as a:
                w.query("count", "10-K", None)
            _ops[k] = a.ops
            assert a.ops or not w.files(), "file operations were not intercepted"
        finally:
            w.close()
    return _ops[k]


def point_build(priors, every, extra):
    def build(ch):
        prior = ch.pick("prior", priors, free=True)
        ops = ops_of(prior)
        if not ops:
            raise Prune()
        k = ch.pick("operation", len(ops), free=True)
        kind, size = ops[k]
        n = 0
        if kind == "w" and size > 0:
            opts = range(size + 1) if every else sorted({0, 1, size // 2, size - 1, size})
            n = ch.pick("bytes", list(opts), free=True)
        c = {"prior": prior, "operation": k, "kind": kind, "bytes": n}
        for name, options in extra.items():
            c[name] = ch.pick(name, options, free=True)
        return c

    return build


def after(w, sig):
    """after the interrupted call: everything must work as if it had not happened"""
    vs = w.query(sig, "10-K", None, maybe=True)
    vs += w.query(sig, "10-Q", "2022-09-30", bad="refused")
    w.version = (w.version + 1) % 3
    w.age(*AGES["25h"])
    vs += w.query(sig, "10-K", None, bad="html")
    vs += w.query(sig, "10-K", None)
    vs += w.other(sig)
    return vs


def crash_run(case):
    w = World()
    vs = []
    try:
        prepare(w, case["prior"], vs)
        saved = w.state
        with crashfs.armed(w.home, crashfs.CRASH, case["operation"], case["bytes"]):
            call(CIK, "10-K", None, w.docs())
        w.state = saved
        if case["then"] == "down":  # nothing wrong may come out while the server is down
            got, _ = call(CIK, "10-K", None, w.docs("404"))
            if not isinstance(got, Exception):
                vs += judge("crash:down", got, CIK, choose(VERSIONS[w.version], "10-K", None), "10-K")
        vs += after(w, "crash")
        return Result(vs, {"calls": w.calls, "crashes": 1})
    finally:
        w.close()


def fault_run(case):
    w = World()
    vs = []
    try:
        prepare(w, case["prior"], vs)
        saved = w.state
        with crashfs.armed(w.home, crashfs.FAULT, case["operation"], case["bytes"], errno=case["errno"]):
            got, _ = call(CIK, "10-K", None, w.docs())
        if not isinstance(got, Exception):  # the call may fail, but not answer wrongly
            vs += judge("fault", got, CIK, choose(VERSIONS[w.version], "10-K", None), "10-K")
        w.state = saved
        vs += after(w, "fault")
        return Result(vs, {"calls": w.calls, "faults": 1})
    finally:
        w.close()


def together_build(priors, queries):
    def build(ch):
        prior = ch.pick("prior", priors, free=True)
        q = ch.pick("second", queries, free=True)
        ops = ops_of(prior, True)
        if not ops:
            raise Prune()
        return {"prior": prior, "second": q, "switch": ch.pick("switch", len(ops), free=True)}

    return build


def together_run(case):
    """a second call is made completely before file operation k of the first"""
    w = World()
    vs, other = [], {}
    try:
        prepare(w, case["prior"], vs)
        docs = w.docs()
        saved_state = w.state
        from brel.utils import edgar

        edgar = importlib.reload(edgar)
        second = case["second"]

        def ask(cik, form, date):
            try:
                fl = edgar.open_edgar(cik, form, date)
                return [f.get_value_as_str() for f in fl.get_all_facts()]
            except Exception as e:
                return e

        def switch():
            t = threading.Thread(target=lambda: other.update(got=ask(CIK2 if second == "other" else CIK, *(("10-K", None) if second == "other" else QUERIES[second]))))
            t.start()
            t.join()

        os.environ["HOME"] = w.home
        env.NET.reset(docs)
        with contextlib.redirect_stdout(io.StringIO()):
            with crashfs.armed(w.home, crashfs.SWITCH, case["switch"], reads=True, callback=switch):
                got = ask(CIK, "10-K", None)
        vs += judge("together", got, CIK, choose(VERSIONS[w.version], "10-K", None), "the first call")
        if "got" in other:
            if second == "other":
                vs += judge("together", other["got"], CIK2, OTHER[0], "the second call")
            else:
                vs += judge("together", other["got"], CIK, choose(VERSIONS[w.version], *QUERIES[second]), "the second call")
        w.state = saved_state
        vs += after(w, "together:after")
        return Result(vs, {"calls": w.calls + 2, "switched": int("got" in other)})
    finally:
        w.close()


# --- arguments -----------------------------------------------------------------------------------
ARGS = {
    "cik": ["", "12345678901", "abc", "../x", "../../../x", "-320193", "+320193", " 320193", "320193 ", "32 193", "3.2", "320193\n", "CIK320193", 320193, None, ["320193"], b"320193", "\u0663\u0662"],
    "form": ["10-K/A", "10-k", "", None, "10K", "10-K ", " 10-K", "S-1", 10, "10-KT"],
    "date": ["2023/12/31", "2023-13-01", "2023-02-29", "", "2023-12-31 ", " 2023-12-31", "20231231", "31-12-2023", "2023-12-31T00:00:00", "23-12-31", 20231231, 1.5, ["2023-12-31"], "latest", "2023-12", "2023-9-30"],
}
ODD_TYPES = {"datetime.date": __import__("datetime").date(2023, 12, 31)}


def args_build(ch):
    which = ch.pick("argument", list(ARGS), free=True)
    i = ch.pick("value", len(ARGS[which]), free=True)
    return {"argument": which, "value": i, "shown": repr(ARGS[which][i]), "cached": ch.flag("cached", free=True), "others": ch.pick("others", ["plain", "dated"], free=True)}


def args_run(case):
    w = World()
    w.version = 1
    vs = []
    try:
        if case["cached"]:
            vs += w.query("arguments", "10-K", None)
            # files that an unchecked number could reach
            for p in ("x.json", ".brel/x.json"):
                os.makedirs(os.path.dirname(os.path.join(w.home, p)), exist_ok=True)
                with open(os.path.join(w.home, p), "w") as f:
                    json.dump(metadata(CIK, VERSIONS[1]), f)
        v = ARGS[case["argument"]][case["value"]]
        a = {"cik": CIK, "form": "10-K", "date": None if case["others"] == "plain" else "2023-12-31"}
        a[case["argument"]] = v
        docs = w.docs()
        before = w.files()
        got, log = call(a["cik"], a["form"], a["date"], lambda_docs(docs), keyword=True)
        if not isinstance(got, ValueError):
            vs.append(Violation("arguments:accepted", f"{case['argument']}={v!r}: {got!r} instead of a ValueError"))
        elif log and not (case["argument"] == "date" and v == "2023-9-30"):
            vs.append(Violation("arguments:network", f"{case['argument']}={v!r}: asked the network for {log}"))
        elif w.files() != before and not log:
            vs.append(Violation("arguments:files", f"{case['argument']}={v!r}: changed the cache"))
        # good arguments still work, with and without leading zeros
        for cik in (CIK, CIK.zfill(10), "000" + CIK):
            got, _ = call(cik, "10-K", "2023-12-31", docs)
            f = VERSIONS[1][0]
            if got != [ident(CIK, f)]:
                vs.append(Violation("arguments:good", f"{cik}: {got!r}"))
        return Result(vs, {"calls": 4})
    finally:
        w.close()


def lambda_docs(docs):
    return docs


def scenarios(tier):
    q = tier != "thorough"
    bads = list(BAD)
    few = ["404", "html", "other json"]
    if q:
        return [
            Scenario("select", select_build(3, None), select_run, {"quick": 2}, "indexes of up to 3 filings with up to 2 unusual traits; all queries"),
            Scenario("history", history_build(3, bads, DAMAGE, list(AGES)), history_run, {}, "histories of up to 3 operations"),
            Scenario("crash", point_build(PRIORS, False, {"then": ["up", "down"]}), crash_run, {}, "a crash at every file operation"),
            Scenario("fault", point_build(PRIORS, False, {"errno": [5, 28]}), fault_run, {}, "one failing file operation"),
            Scenario("together", together_build(PRIORS, ["other", 0, 3]), together_run, {}, "a second call at every file operation of the first"),
            Scenario("arguments", args_build, args_run, {}, "invalid arguments"),
        ]
    return [
        Scenario("select", select_build(4, None), select_run, {"thorough": 3}, "indexes of up to 4 filings with up to 3 unusual traits; all queries"),
        Scenario("history", history_build(4, bads, DAMAGE, list(AGES)), history_run, {}, "histories of up to 4 operations"),
        Scenario("crash", point_build(PRIORS, True, {"then": ["up", "down"]}), crash_run, {}, "a crash at every byte of every file operation"),
        Scenario("fault", point_build(PRIORS, True, {"errno": [5, 13, 28]}), fault_run, {}, "one failing file operation, at every byte"),
        Scenario("together", together_build(PRIORS, ["other", 0, 1, 2, 3]), together_run, {}, "a second call at every file operation of the first"),
        Scenario("arguments", args_build, args_run, {}, "invalid arguments"),
    ]
