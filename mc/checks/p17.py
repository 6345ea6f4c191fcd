"""P17: the result of opening a report is deterministic."""
import json
import os
import subprocess
import sys

import common as k
import detsets
import dump
import env
import nets
import obs
import xb
from core import Prune, Result, Scenario, Violation

TECHNIQUE = "exhaustive enumeration of the iteration orders of every set inside the real code (one deviation per execution, thorough: two; and all of them at once) and of folder listing orders, under a controller that replaces set iteration; plus complete runs in processes with different hash seeds"
NOTE = "Sets of the package are replaced by ordinary sets whose iteration order is chosen by the explorer; the complete ordered dump of the public interface must not change."
ASSUMPTIONS = ["sets made inside of libraries (lxml, pandas) are not controlled, only compared over hash seeds"]


def reports():
    """name -> (files, what to open, names to look up)"""
    R1, R2 = "http://ex.org/role/1", "http://ex.org/role/2"
    used = ["link:presentationLink", "link:calculationLink", "link:definitionLink"]
    names = ["Cash", "t:Cash", "u:Cash", "p:Cash", "{%s}Cash" % k.T, "Cost", "t:Nope", "s:Text"]

    def lab(el, texts):
        out = [xb.locator("l" + el, el)]
        for i, (t, lang, role) in enumerate(texts):
            out += [xb.resource("label", f"r{i}", t, role, lang), xb.arc("labelArc", "l" + el, f"r{i}", xb.AR_LABEL)]
        return out

    H = "t.xsd#t_"
    LB2 = "http://www.xbrl.org/2003/role/terseLabel"
    labels = xb.link(
        "labelLink",
        xb.ROLE_LINK,
        lab(H + "Cash", [("Cash", "en", xb.LBL), ("Geld", "de", xb.LBL), ("Bargeld", "de-CH", xb.LBL), ("C", "en", LB2), ("Argent", "fr", xb.LBL)]),
    ) + xb.link("labelLink", xb.ROLE_LINK, lab(H + "Cost", [("Cost", "en-US", xb.LBL), ("Kosten", "de", xb.LBL)]))
    refs = xb.link(
        "referenceLink", xb.ROLE_LINK,
        [xb.locator("c", H + "Cash"), xb.resource("reference", "r", "<x:Name xmlns:x='urn:r'>IAS</x:Name><x:No xmlns:x='urn:r'>1</x:No>", xb.R_REF, raw=True), xb.arc("referenceArc", "c", "r", xb.AR_REF)],
    )

    def loc(*els):
        return [xb.locator(e, (H if e in [x["n"] for x in k.base_schema()["elements"]] else "u.xsd#u_") + e) for e in els]

    P = lambda a, b, o, **kw: xb.arc("presentationArc", a, b, xb.AR_PC, order=o, **kw)
    pres = xb.link("presentationLink", R1, loc("Abs", "Cash", "Cost", "Shares", "Ratio", "Flag") + [P("Abs", "Cash", "1"), P("Abs", "Cost", "1"), P("Abs", "Shares", "0.5"), P("Cost", "Ratio", "1"), P("Cost", "Flag", "1")])
    pres += xb.link("presentationLink", R1, loc("Text", "Day", "Cash") + [P("Text", "Day", "1"), P("Text", "Cash", "1")])
    pres += xb.link("presentationLink", R2, loc("Count", "Day", "Flag") + [P("Count", "Day", "2"), P("Count", "Flag", "1"), P("Day", "Flag", "1")])
    C = lambda a, b, o, w: xb.arc("calculationArc", a, b, xb.AR_SUM, order=o, weight=w)
    calc = xb.link("calculationLink", R1, loc("Cash", "Cost", "Ratio", "Shares") + [C("Cash", "Cost", "1", "1"), C("Cash", "Ratio", "1", "-1"), C("Shares", "Cost", "1", "1")])
    D = lambda a, b, o, r: xb.arc("definitionArc", a, b, xb.DIM + r, order=o)
    defi = xb.link(
        "definitionLink", R1,
        loc("StatementLineItems", "Cube", "AxisA", "AxisB", "AxisT", "M1", "M2", "M3", "Cash")
        + [D("StatementLineItems", "Cube", "1", "all"), D("Cube", "AxisA", "1", "hypercube-dimension"), D("Cube", "AxisB", "1", "hypercube-dimension"), D("Cube", "AxisT", "1", "hypercube-dimension"),
           D("AxisA", "M1", "1", "dimension-domain"), D("M1", "M2", "1", "domain-member"), D("M1", "M3", "1", "domain-member"), D("AxisB", "M3", "1", "dimension-default"), D("StatementLineItems", "Cash", "1", "domain-member")],
    )
    defi += xb.link("definitionLink", R2, loc("M1", "M2", "M3", "AxisA") + [D("AxisA", "M2", "1", "dimension-domain"), D("M2", "M3", "1", "domain-member"), D("M2", "M1", "1", "domain-member")])
    roles = [{"uri": u, "id": f"r{i}", "definition": f"def {i}", "usedOn": used} for i, u in enumerate((R1, R2, "http://ex.org/role/3"))]
    tax = {
        "t.xsd": xb.schema(k.base_schema(refs=["p.xml", "c.xml", "l.xml"], roles=roles, imports=[(k.U, "u.xsd")], nsmap={"s": k.T, "p": k.U, "u": k.U})),
        "u.xsd": xb.schema(k.other_schema(nsmap={"t": k.U, "s": k.U, "p": k.T})),
        "p.xml": xb.linkbase([pres]),
        "c.xml": xb.linkbase([calc, defi]),
        "l.xml": xb.linkbase([labels, refs]),
    }
    ctx = [
        {"id": "c1", "period": k.D23},
        {"id": "c2", "period": k.I23, "dims": (("e", "t:AxisA", "t:M1"), ("e", "t:AxisB", "t:M3"), ("t", "t:AxisT", "t:dom", "x"))},
        {"id": "c3", "period": k.D23, "dims": (("e", "u:AxisA", "u:M1"),)},
    ]
    units = [k.USD, {"id": "q", "nums": ["iso4217:USD", "xbrli:pure"], "dens": ["xbrli:shares", "iso4217:EUR"]}]
    facts = [
        {"c": "t:Cash", "id": "f1", "ctx": "c1", "unit": "usd", "val": "1", "dec": "0"},
        {"c": "t:Cash", "id": "f2", "ctx": "c2", "unit": "usd", "val": "2", "dec": "2"},
        {"c": "u:Cash", "id": "f3", "ctx": "c3", "unit": "q", "val": "3", "dec": "0"},
        {"c": "t:Text", "id": "f4", "ctx": "c1", "val": "txt"},
        {"c": "t:Cash", "ctx": "c1", "unit": "usd", "val": "9", "dec": "0"},
    ]
    foot = xb.link(
        "footnoteLink", xb.ROLE_LINK,
        [xb.locator("a", "#f1"), xb.locator("b", "#f2"), xb.resource("footnote", "n", "note", xb.R_FOOT, "en"), xb.resource("footnote", "m", "zwei", xb.R_FOOT, "de"),
         xb.arc("footnoteArc", "a", "n", xb.AR_FOOT), xb.arc("footnoteArc", "b", "n", xb.AR_FOOT), xb.arc("footnoteArc", "a", "m", xb.AR_FOOT), xb.arc("footnoteArc", "a", "m", "http://ex.org/other")],
    )
    out = {}
    out["xml"] = ({**tax, "i.xml": xb.instance({"schemaRefs": ["t.xsd"], "nsmap": k.NS, "contexts": ctx, "units": units, "facts": facts, "links": [foot]})}, None, names)
    bad = [
        {"c": "t:Cash", "id": "b1", "ctx": "nope", "unit": "usd", "val": "1", "dec": "0"},
        {"c": "t:Cash", "id": "b2", "ctx": "c1", "unit": "nope", "val": "1", "dec": "0"},
        {"c": "t:Nope", "id": "b3", "ctx": "c1", "unit": "usd", "val": "1", "dec": "0"},
    ]
    badnet = xb.link("presentationLink", R2, loc("Count") + [P("Count", "zip", "1"), P("zap", "Count", "1"), xb.locator("q", "t.xsd#nowhere"), P("Count", "q", "1"), xb.locator("w", "gone.xsd#w"), xb.locator("v", "away.xsd#w")])
    out["defects"] = (
        {**tax, "p.xml": xb.linkbase([pres, badnet]), "i.xml": xb.instance({"schemaRefs": ["t.xsd"], "nsmap": k.NS, "contexts": ctx, "units": units, "facts": facts + bad, "links": [foot]})},
        None,
        names,
    )
    nf = lambda i, v, c="c1", x="": f'<ix:nonFraction name="t:Cash" id="{i}" contextRef="{c}" unitRef="usd" decimals="0" {x}>{v}</ix:nonFraction>'
    body = (
        f"<p>{nf('f1', '1')}{nf('f2', '2', 'c2')}{nf('f3', '3', 'nope')}"
        '<ix:nonNumeric name="t:Text" id="t1" contextRef="c1" continuedAt="k1">a</ix:nonNumeric><ix:continuation id="k1" continuedAt="k2">b</ix:continuation><ix:continuation id="k2">c</ix:continuation>'
        '<ix:continuation id="k3">unused</ix:continuation><ix:continuation id="k4">unused</ix:continuation><ix:continuation id="k5">unused</ix:continuation>'
        '<ix:footnote id="n1" xml:lang="en">one</ix:footnote><ix:footnote id="n2" xml:lang="de">zwei</ix:footnote></p>'
    )
    rel = (
        '<ix:relationship fromRefs="f1 f2 t1" toRefs="n1 n2"/><ix:relationship fromRefs="f1" toRefs="f2 t1" arcrole="http://ex.org/other"/>'
        '<ix:relationship fromRefs="f1 gone" toRefs="n1 lost" linkRole="http://ex.org/role/2"/>'
    )
    page = lambda b, r: xb.xhtml(b, resources="".join(map(xb.context_xml, ctx)) + "".join(map(xb.unit_xml, units)) + r, refs=xb.schema_ref("t.xsd"), nsmap=k.NS)
    out["inline"] = ({**tax, "i.xhtml": page(body, rel)}, None, names)
    body2 = f"<p>{nf('g1', '7')}{nf('g2', '8', 'd2')}<ix:footnote id='n3' xml:lang='en'>three</ix:footnote></p>"
    page2 = xb.xhtml(body2, resources=xb.context_xml({"id": "d2", "period": k.D23}) + '<ix:relationship fromRefs="g1 f1" toRefs="n3 n1"/>', nsmap=k.NS)
    out["pages"] = ({**tax, "a.xhtml": page(body, rel), "b.xhtml": page2}, None, names)
    fs = {}
    for i, n in enumerate(("b/z.xml", "a.xml", "b/a.xml", "c.xml")):
        up = "../" if "/" in n else ""
        fs[n] = xb.instance({"schemaRefs": [up + "t/t.xsd"], "nsmap": k.NS, "contexts": ctx, "units": units, "facts": [dict(facts[0], id=f"f{i}", val=str(i))]})
    out["folder"] = ({**{"t/" + n: s for n, s in tax.items()}, **fs}, None, names)
    return out


_reports, _base = None, {}


def get(name):
    global _reports
    if _reports is None:
        _reports = reports()
    return _reports[name]


LISTING = {"order": None}
_listdir, _scandir, _walk = os.listdir, os.scandir, os.walk


def _reorder(items, key):
    how = LISTING["order"]
    if how is None:
        return items
    items = sorted(items, key=key)
    n = len(items)
    if how == "rev":
        return items[::-1]
    i = int(how) % max(1, n)
    return items[i:] + items[:i]


class _Scan:
    def __init__(self, it):
        self.items = _reorder(list(it), lambda e: e.name)
        self.i = iter(self.items)

    def __iter__(self):
        return self.i

    def __next__(self):
        return next(self.i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


os.listdir = lambda *a: _reorder(_listdir(*a), lambda n: n)
os.scandir = lambda *a: _Scan(_scandir(*a))


def observe(name, plan=None, default=None, listing=None):
    """-> (dump, sizes of the sets that were iterated over)"""
    files, what, names = get(name)
    detsets.CTRL.reset(plan, default)
    LISTING["order"] = listing
    try:
        # the same place every time: paths are part of what is reported
        d = os.path.join(env.SCRATCH, f"p17.{os.getpid()}")
        os.makedirs(d)
        env.fresh_home()
        try:
            xb.write(d, files)
            from brel import Filing

            fl = Filing.open(os.path.join(d, what) if what else d)
            return json.loads(json.dumps(dump.full(fl, names)).replace(d, "DIR")), list(detsets.CTRL.sizes)
        finally:
            LISTING["order"] = None
            env.drop(d)
            env.drop(os.environ["HOME"])
    finally:
        detsets.CTRL.reset()


def base(name):
    if name not in _base:
        _base[name] = observe(name)
    return _base[name]


def order_build(names, pairs):
    def build(ch):
        name = ch.pick("report", names, free=True)
        sizes = base(name)[1]
        if not sizes:
            raise Prune()
        plan = []
        i = ch.pick("iteration", len(sizes), free=True)
        plan.append([i, ch.pick("order", detsets.alternatives(sizes[i]), free=True)])
        if pairs and i + 1 < len(sizes):
            j = ch.pick("second iteration", [None] + list(range(i + 1, len(sizes))), free=True)
            if j is not None:
                plan.append([j, "rev"])
        return {"report": name, "plan": plan}

    return build


def compare(label, name, got):
    d = dump.first_difference(base(name)[0], got)
    if d is None:
        return []
    import re

    sig = re.sub(r"\[\d+:?\]", "[]", d[0])[:80]
    return [Violation(f"{label}:{name}:{sig}", f"report {name}: {d[0]}: {str(d[1])[:300]} became {str(d[2])[:300]}")]


def order_run(case):
    got, _ = observe(case["report"], {i: h for i, h in case["plan"]})
    return Result(compare("set-order", case["report"], got), {"orders": 1})


def all_build(names):
    def build(ch):
        return {"report": ch.pick("report", names, free=True), "all": ch.pick("order", ["rev", "rot"], free=True), "listing": ch.pick("listing", [None, "rev", "1", "2", "3"], free=True)}

    return build


def all_run(case):
    got, sizes = observe(case["report"], None, case["all"], case["listing"])
    return Result(compare("all-orders", case["report"], got), {"iterations": len(sizes)})


def listing_build(names):
    def build(ch):
        return {"report": ch.pick("report", names, free=True), "listing": ch.pick("listing", ["rev"] + [str(i) for i in range(8)], free=True)}

    return build


def listing_run(case):
    got, _ = observe(case["report"], listing=case["listing"])
    return Result(compare("listing", case["report"], got), {"listings": 1})


CHILD = r"""
import sys, json, os
sys.path.insert(0, %(here)r)
sys.dont_write_bytecode = True
import env
env.setup()
from checks import p17
import core
out = {}
so, sys.stdout = sys.stdout, open(os.devnull, "w")
for n in %(names)r:
    out[n] = p17.observe(n)[0]
sys.stdout = so
print("DUMP" + json.dumps(out))
"""


def seeds_build(names, n):
    def build(ch):
        return {"seed": ch.pick("hash seed", [str(i) for i in range(1, n + 1)], free=True), "reports": names, "fs": ch.pick("language", ["C.UTF-8", "de_DE.UTF-8"], free=True) if False else "C.UTF-8"}

    return build


def seeds_run(case):
    e = dict(os.environ, PYTHONHASHSEED=case["seed"], VERIF_REPO=env.REPO)
    p = subprocess.run([sys.executable, "-B", "-c", CHILD % {"here": os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "names": case["reports"]}], env=e, capture_output=True, text=True, timeout=120)
    lines = [l for l in p.stdout.splitlines() if l.startswith("DUMP")]
    if not lines:
        raise RuntimeError("child failed: " + p.stderr[-2000:])
    got = json.loads(lines[0][4:])
    vs = []
    for n in case["reports"]:
        vs += compare("hash-seed", n, got[n])
    return Result(vs, {"processes": 1})


def again_build(names):
    def build(ch):
        return {"first": ch.pick("first", names, free=True), "then": ch.pick("then", names, free=True)}

    return build


def again_run(case):
    """opening something before, in the same process, changes nothing"""
    observe(case["first"])
    got, _ = observe(case["then"])
    return Result(compare("again", case["then"], got), {"opens": 2})


def scenarios(tier):
    import core

    core.LIMIT_S = 120
    t = tier == "thorough"
    N = list(get("xml") and _reports)
    return [
        Scenario("set-orders", order_build(N, False), order_run, desc="every iteration over every set of the package in every alternative order, one at a time"),
        *([Scenario("set-order-pairs", order_build(N, True), order_run, desc="pairs of deviating iterations")] if t else []),
        Scenario("all-orders", all_build(N), all_run, desc="all sets reversed / rotated at once x folder listing orders"),
        Scenario("listing", listing_build(N), listing_run, desc="folder listing orders"),
        Scenario("hash-seeds", seeds_build(N, 32 if t else 8), seeds_run, desc="complete processes with other hash seeds, sets uncontrolled"),
        Scenario("again", again_build(N), again_run, desc="a second open in the same process"),
    ]
