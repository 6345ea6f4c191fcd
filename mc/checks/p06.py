"""P06: nothing bleeds between facts, contexts, units, entities, prefixes or documents."""
import common as k
import obs
import xb
from checks.p01 import compare
from core import Result, Scenario

ASSUMPTIONS = ["within one context element a prefix has one meaning", "ids are unique within one document set of an inline report, but not across XML instance documents"]

SW = {"t": k.U, "u": k.T}  # the two prefixes swapped
ENTS = [("http://s1", "E1"), ("http://s2", "E1"), ("http://s1", "E2"), ("http://s1", "E1 "), ("http://s1", "e1"), ("http://S1", "E1")]
PERS = [("d", "2023-01-01", "2023-12-31"), ("i", "2023-12-31"), ("d", "2023-01-01", "2023-12-30"), ("d", "2022-01-01", "2023-12-31"), ("i", "2023-01-01")]
# (dims as written, namespaces rebound on the context)
DIMS = [
    ((), {}),
    ((("e", "t:AxisA", "t:M1"),), {}),
    ((("e", "t:AxisA", "t:M1"),), SW),
    ((("e", "t:AxisA", "u:M1"),), {}),
    ((("e", "t:AxisA", "t:M2"),), {}),
    ((("e", "t:AxisB", "t:M1"),), {}),
    ((("t", "t:AxisT", "t:dom", "x"),), {}),
    ((("t", "t:AxisS", "t:dom", "x"),), {}),
    ((("t", "t:AxisT", "t:dom", "x y"),), {}),
    ((("t", "t:AxisT", "t:dom", "X"),), {}),
    ((("e", "t:axisa", "t:M1"),), {}),
    ((("e", "t:AxisA", "t:m1"),), {}),
    ((("t", "u:AxisT", "u:dom", "x"),), SW),
    ((("e", "t:AxisA", "t:M1"), ("e", "t:AxisB", "t:M2")), {}),
]
UNITS = [
    (("iso4217:USD",), (), {}),
    (("iso4217:EUR",), (), {}),
    (("iso4217:usd",), (), {}),
    (("m:USD",), (), {"m": xb.ISO}),
    (("m:USD",), (), {"m": k.T}),
    (("iso4217:USD",), ("xbrli:shares",), {}),
    (("xbrli:shares",), ("iso4217:USD",), {}),
    (("iso4217:USD",), (), {"iso4217": k.U}),
    (("iso4217:USD",), ("xbrli:shares", "t:Day"), {}),
    (("iso4217:USD",), ("xbrli:shares", "t:Hour"), {}),
    (("iso4217:USD", "t:Day"), (), {}),
    (("iso4217:USD", "iso4217:USD"), (), {}),
]
CONCEPTS = [("t:Cash", {}), ("t:Cash", SW), ("u:Cash", {}), ("t:Cost", {}), ("t:cash", {})]


def pick_fact(ch, i):
    e = ch.pick(f"ent{i}", ENTS)
    p = ch.pick(f"per{i}", PERS)
    d, dn = ch.pick(f"dims{i}", DIMS)
    n, m, un = ch.pick(f"unit{i}", UNITS)
    c, cn = ch.pick(f"concept{i}", CONCEPTS)
    dec = ch.pick(f"dec{i}", ["0", "2"])
    ids = f"{i}"
    return {
        "ctx": {"id": f"c{ids}", "period": p, "scheme": e[0], "ident": e[1], "dims": d, "ns": dn},
        "unit": {"id": f"u{ids}", "nums": n, "dens": m, "ns": un},
        "fact": {"c": c, "ns": cn, "id": f"f{ids}", "ctx": f"c{ids}", "unit": f"u{ids}", "val": f"{i + 1}1", "dec": dec},
        "want": {
            "id": f"f{ids}",
            "val": f"{i + 1}1",
            "c": k.q(c, cn),
            "per": list(p),
            "ent": [e[0], e[1].strip()],
            "unit": k.want_unit({"nums": n, "dens": m}, un),
            "dims": k.want_dims(d, dn),
            "dec": obs.num(dec),
            "prec": None,
        },
    }


def build_single(n):
    def build(ch):
        return {"facts": [pick_fact(ch, i) for i in range(n)], "share": ch.pick("share", ["own", "ctx", "unit", "ids differ in case"])}

    return build


def spec(case, facts):
    ctxs, units, fs = [], [], []
    for x in facts:
        ctxs.append(x["ctx"])
        units.append(x["unit"])
        fs.append(x["fact"])
    return ctxs, units, fs


def share(case):
    """Optionally let all facts use the context or the unit of the first."""
    facts = [dict(x) for x in case["facts"]]
    if case.get("share") == "ids differ in case":
        for i, x in enumerate(facts[1:]):
            for key in ("ctx", "unit", "fact", "want"):
                x[key] = dict(x[key], id=x[key]["id"])
            x["ctx"]["id"], x["unit"]["id"], x["fact"]["id"] = ("C0", "U0", "F0") if i == 0 else ("c0x", "u0x", "f0x")
            x["fact"].update(ctx=x["ctx"]["id"], unit=x["unit"]["id"])
            x["want"]["id"] = x["fact"]["id"]
    elif case.get("share", "own") != "own":
        key = {"ctx": ("ctx", ("per", "ent", "dims")), "unit": ("unit", ("unit",))}[case["share"]]
        for x in facts[1:]:
            x["fact"] = dict(x["fact"], **{key[0]: facts[0]["fact"][key[0]]})
            x["want"] = dict(x["want"], **{w: facts[0]["want"][w] for w in key[1]})
    return facts


def schemas():
    o = k.other_schema()
    o["elements"] = o["elements"] + [
        {"n": "Cost", "kind": "concept"},
        {"n": "AxisB", "kind": "dimension"},
        {"n": "M2", "kind": "member"},
        {"n": "AxisT", "kind": "dimension", "typedDomainRef": "#u_dom"},
    ]
    o["raw"] = '<xs:element name="dom" id="u_dom" type="xs:string"/>\n'
    t = k.base_schema()
    t["elements"] = t["elements"] + [{"n": "cash", "kind": "concept"}, {"n": "axisa", "kind": "dimension"}, {"n": "m1", "kind": "member"}]
    return {"t.xsd": xb.schema(t), "u.xsd": xb.schema(o)}


def check(name, fl, wants):
    vs = compare(name, fl, wants)
    # two facts have equal characteristics exactly if what they were built from is equal
    facts = {f.get_value(): f for f in fl.get_all_facts()}
    from core import Violation

    for i, a in enumerate(wants):
        for b in wants[i + 1 :]:
            fa, fb = facts.get(a["val"]), facts.get(b["val"])
            if fa is None or fb is None:
                continue
            for what, get, key in (
                ("entity", lambda f: f.get_entity(), "ent"),
                ("period", lambda f: f.get_period(), "per"),
                ("unit", lambda f: f.get_unit(), "unit"),
                ("concept", lambda f: f.get_concept(), "c"),
            ):
                if a[key] != b[key] and get(fa) == get(fb):
                    vs.append(Violation(f"{name}:conflated:{what}", f"{what} of two facts compare equal but are {a[key]} and {b[key]}"))
            if (a["dims"], a["per"], a["ent"], a["unit"], a["c"]) != (b["dims"], b["per"], b["ent"], b["unit"], b["c"]) and fa.get_context() == fb.get_context() and name == "docs":
                vs.append(Violation(f"{name}:conflated:context", "contexts of facts with different aspects compare equal"))
    return vs


def run_single(case):
    facts = share(case)
    ctxs, units, fs = spec(case, facts)
    inst = xb.instance({"nsmap": k.NS, "schemaRefs": ["t.xsd", "u.xsd"], "contexts": ctxs, "units": units, "facts": fs})
    fl = obs.open_files({**schemas(), "i.xml": inst}, "i.xml")
    return Result(check("single", fl, [x["want"] for x in facts]))


def run_inline(case):
    facts = share(case)
    ctxs, units, fs = spec(case, facts)
    res = "".join(map(xb.context_xml, ctxs)) + "".join(map(xb.unit_xml, units))
    body = "".join(
        f"<p><ix:nonFraction{xb.nsdecl(f['ns'])}{xb.attrs({'name': f['c'], 'id': f['id'], 'contextRef': f['ctx'], 'unitRef': f['unit'], 'decimals': f['dec']})}>{f['val']}</ix:nonFraction></p>\n"
        for f in fs
    )
    page = xb.xhtml(body, resources=res, refs=xb.schema_ref("t.xsd") + xb.schema_ref("u.xsd"), nsmap=k.NS)
    fl = obs.open_files({**schemas(), "p.xhtml": page}, "p.xhtml")
    return Result(check("inline", fl, [x["want"] for x in facts]))


def build_docs(ch):
    """The same ids (of contexts, units and facts) mean different things in two documents."""
    facts = [pick_fact(ch, i) for i in range(2)]
    same = ch.pick("same", [("ctx", "unit", "fact"), ("ctx", "unit"), ("ctx",), ("unit",), ()], free=True)
    swap = ch.flag("doc2 swaps prefixes", free=True)
    x = facts[1]
    if "ctx" in same:
        x["ctx"]["id"] = x["fact"]["ctx"] = "c0"
    if "unit" in same:
        x["unit"]["id"] = x["fact"]["unit"] = "u0"
    if "fact" in same:
        x["fact"]["id"] = x["want"]["id"] = "f0"
    return {"facts": facts, "swap": swap}


def run_docs(case):
    fs = schemas()
    wants = []
    for i, x in enumerate(case["facts"]):
        nsmap = k.NS
        if case["swap"] and i == 1:
            nsmap = SW
            x = dict(x)
            c = x["ctx"]
            ns = {**SW}
            x["want"] = dict(
                x["want"],
                c=k.q(x["fact"]["c"], {**ns, **x["fact"]["ns"]}),
                dims=k.want_dims(c["dims"], {**ns, **c["ns"]}),
                unit=k.want_unit(x["unit"], {**ns, **x["unit"]["ns"]}),
            )
            if not valid(x):
                return Result([])
        fs[f"i{i}.xml"] = xb.instance(
            {"nsmap": nsmap, "schemaRefs": ["t.xsd", "u.xsd"], "contexts": [x["ctx"]], "units": [x["unit"]], "facts": [x["fact"]]}
        )
        wants.append(x["want"])
    fl = obs.open_files(fs)
    return Result(check("docs", fl, wants))


EXIST = {f"{{{k.T}}}{n}" for n in ("Cash", "Cost", "AxisA", "AxisB", "AxisT", "AxisS", "M1", "M2")} | {
    f"{{{k.U}}}{n}" for n in ("Cash", "Cost", "AxisA", "AxisB", "AxisT", "M1", "M2")
}


def valid(x):
    names = [x["want"]["c"]] + [n for d in x["want"]["dims"] for n in (d[1:] if d[0] == "e" else d[1:2])]
    return all(n in EXIST for n in names)


def scenarios(tier):
    return [
        Scenario("single", build_single(2), run_single, {"quick": 2, "thorough": 4}, "two facts with colliding attributes in one instance"),
        Scenario("three", build_single(3), run_single, {"quick": 2, "thorough": 3}, "three facts in one instance"),
        Scenario("inline", build_single(2), run_inline, {"quick": 2, "thorough": 3}, "two inline facts with colliding attributes"),
        Scenario("docs", build_docs, run_docs, {"quick": 2, "thorough": 3}, "two instance documents that reuse ids and prefixes"),
    ]
