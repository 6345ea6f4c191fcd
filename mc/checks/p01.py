"""P01: XML instance facts are reported completely and exactly."""
import common as k
import obs
import xb
from core import Result, Scenario, Violation, borrowed

ASSUMPTIONS = [
    "schemas are self-contained (no remote imports); the values of facts are compared as raw lexical strings",
]

# ------------------------------------------------------------------ scenario 1: one fact, all attributes
VALUES = [  # (concept, xml text, reported value)
    ("t:Cash", "100", "100"),
    ("t:Cash", "-12345678901234567890.123456789", "-12345678901234567890.123456789"),
    ("t:Cash", "0", "0"),
    ("t:Cash", "1.50E+3", "1.50E+3"),
    ("t:Text", "a &amp; b &lt;p&gt;x&lt;/p&gt;", "a & b <p>x</p>"),
    ("t:Text", "<![CDATA[<p>x & y</p>]]>", "<p>x & y</p>"),
    ("t:Text", "left<!-- note -->right", "leftright"),
    ("t:Text", "left<?pi data?>right", "leftright"),
    ("t:Text", "<!-- lead -->value", "value"),
    ("t:Cash", "1<!-- a -->2<!-- b -->3", "123"),
    ("t:Text", "line 1\n  line 2\t", "line 1\n  line 2\t"),
    ("t:Text", "\u00e4\u20ac\u4e2d", "\u00e4\u20ac\u4e2d"),
    ("t:Text", "x" * 70000, "x" * 70000),
    ("t:Text", "&#160;", "\u00a0"),
    ("t:Flag", "true", "true"),
    ("t:Day", "2023-02-28", "2023-02-28"),
    ("t:Count", "42", "42"),
    ("t:Ratio", "0.05", "0.05"),
    ("t:Shares", "7", "7"),
    ("u:Cash", "5", "5"),
]
ACC = [(None, None), ("0", None), ("-3", None), ("2", None), ("INF", None), (None, "4"), (None, "INF"), ("+2", None), ("00", None), (" INF ", None), ("\n2 ", None), (None, " 4")]
PERIODS = [
    ("d", "2023-01-01", "2023-12-31"),
    ("i", "2023-12-31"),
    ("i", "2024-02-29"),
    ("d", "2023-01-01", "2023-01-01"),
    ("d", "1999-12-31", "2000-01-01"),
    ("x", "<xbrli:instant> 2023-11-05 </xbrli:instant>", ("i", "2023-11-05")),
    ("x", "<xbrli:instant>\n2023-05-04\n</xbrli:instant>", ("i", "2023-05-04")),
    ("x", "<xbrli:startDate>2022-03-04</xbrli:startDate>\n<xbrli:endDate>2022-04-03</xbrli:endDate>", ("d", "2022-03-04", "2022-04-03")),
    ("x", "<xbrli:endDate>2022-04-03</xbrli:endDate><xbrli:startDate>2022-03-04</xbrli:startDate>", ("d", "2022-03-04", "2022-04-03")),
    # an instant and an end date stand for the end of their day, a start date for its beginning
    ("x", "<xbrli:instant>2024-01-01T00:00:00</xbrli:instant>", ("i", "2023-12-31")),
    ("x", "<xbrli:instant>2023-12-31T12:30:00Z</xbrli:instant>", ("i", "2023-12-31")),
    ("x", "<xbrli:startDate>2023-01-01T00:00:00</xbrli:startDate><xbrli:endDate>2024-03-01T00:00:00</xbrli:endDate>", ("d", "2023-01-01", "2024-02-29")),
    ("x", "<!-- c --><xbrli:instant>2021-01-02</xbrli:instant>", ("i", "2021-01-02")),
    ("x", "<xbrli:instant>2021-01<!-- c -->-02</xbrli:instant>", ("i", "2021-01-02")),
]
UNITS = [
    {"id": "usd", "nums": ["iso4217:USD"]},
    {"id": "EUR", "nums": ["iso4217:EUR"]},
    {"id": "u1", "nums": ["xbrli:shares"]},
    {"id": "u2", "nums": ["xbrli:pure"]},
    {"id": "u3", "nums": ["iso4217:USD"], "dens": ["xbrli:shares"]},
    {"id": "u4", "nums": ["xbrli:shares"], "dens": ["iso4217:USD"]},
    {"id": "u5", "nums": ["t:Barrel"]},
    {"id": "u6", "nums": ["USD"], "ns": {"": xb.ISO}, "want": [["{%s}USD" % xb.ISO], []]},
    {"id": "u8", "nums": ["iso4217:USD"], "dens": ["iso4217:USD"]},
    {"id": "u9", "nums": ["iso4217:USD"], "dens": ["xbrli:shares", "t:Day"]},
    {"id": "u10", "nums": ["t:Barrel", "t:Mile"], "dens": ["t:Day"]},
    {"id": "u11", "nums": ["t:Mile", "t:Mile"]},
    {"id": "u12", "nums": ["t:Day", "t:Mile", "t:Barrel"], "dens": ["xbrli:shares", "t:Day", "t:Day"]},
    {"id": "u7", "nums": [" iso4217:CHF "], "want": [["{%s}CHF" % xb.ISO], []]},
    None,
]
DIMS = [
    ((), "segment"),
    ((("e", "t:AxisA", "t:M1"),), "segment"),
    ((("e", "t:AxisA", "t:M1"), ("e", "t:AxisB", "t:M2")), "segment"),
    ((("e", "t:AxisB", "t:M2"), ("e", "t:AxisA", "t:M3")), "segment"),
    ((("t", "t:AxisT", "t:dom", "v 1"),), "segment"),
    ((("t", "t:AxisT", "t:dom", "a&b"), ("e", "t:AxisA", "t:M1")), "segment"),
    ((("t", "t:AxisT", "t:dom", "x"), ("t", "t:AxisS", "t:dom", "x")), "segment"),
    ((("e", "t:AxisA", "t:M1"),), "scenario"),
    ((("t", "t:AxisT", "t:dom", "v1"), ("e", "t:AxisA", "t:M2")), "scenario"),
    ((("e", "t:AxisA", "u:M1"),), "segment"),
    ((("e", "u:AxisA", "u:M1"), ("e", "t:AxisA", "t:M1")), "segment"),
    ((("x", '<xbrldi:explicitMember dimension="t:AxisA"> t:M1 </xbrldi:explicitMember>'),), "segment", [["e", "{%s}AxisA" % k.T, "{%s}M1" % k.T]]),
    ((("x", '<!-- c --><xbrldi:explicitMember dimension="t:AxisA">t:M2</xbrldi:explicitMember>'),), "segment", [["e", "{%s}AxisA" % k.T, "{%s}M2" % k.T]]),
    ((("x", '<xbrldi:typedMember dimension="t:AxisT"><!-- c --><t:dom>q</t:dom></xbrldi:typedMember>'),), "segment", [["t", "{%s}AxisT" % k.T, "q"]]),
    ((("x", '<xbrldi:typedMember dimension="t:AxisT"><t:dom>a<!-- c -->b</t:dom></xbrldi:typedMember>'),), "segment", [["t", "{%s}AxisT" % k.T, "ab"]]),
]
ENTS = [
    ("http://ex.org/scheme", "E1"),
    ("http://www.sec.gov/CIK", "0000320193"),
    ("http://ex.org/scheme#x", "a b"),
    ("urn:lei", "X&Y"),
]
ORDERS = [("refs", "ctx", "units", "facts", "links"), ("refs", "facts", "ctx", "units", "links"), ("refs", "units", "facts", "ctx", "links")]


def build_one(ch):
    v = ch.pick("value", list(range(len(VALUES)))) if True else 0
    concept, text, want = VALUES[v]
    numeric = concept in ("t:Cash", "t:Count", "t:Ratio", "t:Shares", "u:Cash")
    fid = ch.pick("id", ["f1", None, "F-1.2_3"])
    acc = ch.pick("acc", ACC if numeric else [(None, None)])
    nil = ch.flag("nil")
    p = ch.pick("period", PERIODS)
    u = ch.pick("unit", UNITS if numeric else [None])
    d = ch.pick("dims", DIMS)
    e = ch.pick("entity", ENTS)
    order = ch.pick("order", ORDERS)
    nested = ch.pick("tuple", [False, True])
    if nil:
        text, want = "", ""
        acc = (None, None)
    return {
        "fact": {"c": concept, "id": fid, "ctx": "c1", "unit": u["id"] if u else None, "dec": acc[0], "prec": acc[1], "rawval": text, "nil": nil},
        "ctx": {"id": "c1", "period": p[:2] if p[0] == "x" else p, "dims": d[0], "where": d[1], "scheme": e[0], "ident": e[1]},
        "unit": u,
        "order": order,
        "nested": nested,
        "want": {
            "id": fid,
            "val": want,
            "c": k.q(concept),
            "per": list(p[2] if p[0] == "x" else p),
            "ent": list(e),
            "unit": (u.get("want") or k.want_unit(u)) if u else None,
            "dims": d[2] if len(d) > 2 else k.want_dims(d[0]),
            "dec": obs.num(acc[0]),
            "prec": obs.num(acc[1]),
        },
    }


def files(contexts, units, facts, order=ORDERS[0], raw=None):
    inst = xb.instance(
        {"nsmap": k.NS, "schemaRefs": ["t.xsd", "u.xsd"], "contexts": contexts, "units": units, "facts": facts, "order": order}
    )
    return {"t.xsd": xb.schema(k.base_schema()), "u.xsd": xb.schema(k.other_schema()), "i.xml": inst}


def compare(name, fl, wants):
    got = [obs.fact_full(f) for f in fl.get_all_facts()]
    missing, extra = obs.diff_multiset(got, wants)
    out = []
    if len(missing) == 1 and len(extra) == 1:
        bad = [x for x in missing[0] if missing[0][x] != extra[0].get(x)]
        out.append(Violation(f"{name}:wrong:{'+'.join(bad)}", f"fact differs in {bad}: got {trim(extra[0])} want {trim(missing[0])}"))
    else:
        if missing:
            out.append(Violation(f"{name}:missing", f"{len(missing)} fact(s) missing, e.g. {trim(missing[0])}; {len(extra)} unexpected; errors {[str(e) for e in fl.get_all_errors()][:3]}"))
        elif extra:
            out.append(Violation(f"{name}:extra", f"unexpected fact {trim(extra[0])}"))
    es = [str(e) for e in fl.get_all_errors()]
    if es:
        out.append(Violation(f"{name}:errors", f"valid report has errors: {es[:2]}"))
    return out


def trim(x):
    s = str(x)
    return s if len(s) < 700 else s[:700] + "..."


def run_one(case):
    f = case["fact"]
    fs = files([case["ctx"]], [case["unit"]] if case["unit"] else [], [f], case["order"])
    if case["nested"]:
        # facts inside a tuple are facts all the same
        fs["i.xml"] = fs["i.xml"].replace(xb.fact_xml(f), f"<t:Tup>{xb.fact_xml(f)}</t:Tup>\n")
    fl = obs.open_files(fs, "i.xml")
    vs = compare("one", fl, [case["want"]])
    if not vs:
        vs += typed("one", fl.get_all_facts()[0], case)
    return Result(vs, {"facts": 1})


def typed(name, f, case):
    """get_value() is the value in the type of the concept."""
    t, v = f.get_concept().get_data_type().split(":")[-1], case["want"]["val"]
    if case["fact"]["nil"]:
        return []
    if t == "integerItemType":
        want = int(v)
    elif t in ("monetaryItemType", "pureItemType", "sharesItemType"):
        want = float(v)
    elif t == "booleanItemType":
        want = v == "true"
    else:
        want = v
    got = f.get_value()
    if got != want or type(got) is not type(want):
        return [Violation(f"{name}:typed-value:{t}", f"get_value() of {t} '{trim(v)}' is {got!r}")]
    return []


# ------------------------------------------------------------------ scenario 2: multiplicity
POOL = [
    {"c": "t:Cash", "id": "a", "ctx": "c1", "unit": "usd", "dec": "0", "val": "1"},
    {"c": "t:Cash", "id": None, "ctx": "c1", "unit": "usd", "dec": "0", "val": "1"},
    {"c": "t:Cash", "id": "b", "ctx": "c2", "unit": "usd", "dec": "-3", "val": "2"},
    {"c": "t:Text", "id": None, "ctx": "c1", "val": "x"},
    {"c": "t:Cost", "id": "d", "ctx": "c1", "unit": "eur", "prec": "3", "val": "1"},
    {"c": "u:Cash", "id": "e", "ctx": "c3", "unit": "usd", "dec": "0", "val": "1"},
    {"c": "t:Text", "id": "g", "ctx": "c1", "val": "", "nil": True},
    {"c": "t:Text", "id": "h", "ctx": "c4", "val": "x"},
]
MCTX = {
    "c1": {"id": "c1", "period": k.D23},
    "c2": {"id": "c2", "period": k.I23},
    "c3": {"id": "c3", "period": k.D23, "dims": [("e", "t:AxisA", "t:M1")]},
    "c4": {"id": "c4", "period": k.D23},
}
MU = {"usd": {"id": "usd", "nums": ["iso4217:USD"]}, "eur": {"id": "eur", "nums": ["iso4217:EUR"]}}


def want_of(f, ctxs=MCTX, units=MU):
    c = ctxs[f["ctx"]]
    return {
        "id": f.get("id"),
        "val": f.get("val", ""),
        "c": k.q(f["c"]),
        "per": list(c["period"]),
        "ent": [c.get("scheme", "http://ex.org/scheme"), c.get("ident", "E1")],
        "unit": k.want_unit(units[f["unit"]]) if f.get("unit") else None,
        "dims": k.want_dims(c.get("dims")),
        "dec": obs.num(f.get("dec")),
        "prec": obs.num(f.get("prec")),
    }


def build_many(n):
    def build(ch):
        facts, seen = [], set()
        m = ch.pick("n", [n] + list(range(0, n)), free=True)
        for i in range(m):
            j = ch.pick(f"fact{i}", len(POOL), free=True)
            f = dict(POOL[j])
            if f["id"] is not None:
                if j in seen:
                    f["id"] = f["id"] + str(i)  # a duplicate fact with an id of its own
                seen.add(j)
            facts.append(f)
        return {"facts": facts}

    return build


def run_many(case):
    fl = obs.open_files(files(list(MCTX.values()), list(MU.values()), case["facts"]), "i.xml")
    return Result(compare("many", fl, [want_of(f) for f in case["facts"]]), {"facts": len(case["facts"])})


# ------------------------------------------------------------------ scenario 3: several instance documents in a folder
def build_docs(ch):
    out = []
    for d in range(2):
        n = ch.pick(f"n{d}", [1, 0, 2], free=True)
        out.append([dict(POOL[ch.pick(f"f{d}{i}", len(POOL), free=True)]) for i in range(n)])
    ids = [f["id"] for fs in out for f in fs if f["id"]]
    for d, fs in enumerate(out):
        for i, f in enumerate(fs):
            if f["id"] and ids.count(f["id"]) > 1:
                f["id"] = f"{f['id']}_{d}{i}"
    return {"docs": out, "sub": ch.flag("subfolder", free=True)}


def run_docs(case):
    fs = {}
    for i, facts in enumerate(case["docs"]):
        ff = files(list(MCTX.values()), list(MU.values()), facts)
        inst = ff.pop("i.xml")
        name = f"i{i}.xml"
        if case["sub"] and i == 1:
            inst = inst.replace('href="t.xsd"', 'href="../t.xsd"').replace('href="u.xsd"', 'href="../u.xsd"')
            name = "sub/" + name
        fs.update(ff)
        fs[name] = inst
    fl = obs.open_files(fs)
    return Result(compare("docs", fl, [want_of(f) for fs_ in case["docs"] for f in fs_]))


# ------------------------------------------------------------------ scenario 4: the period "forever"
def build_forever(ch):
    return {
        "facts": [j for j in range(len(POOL)) if ch.flag(f"f{j}")],
        "kind": ch.pick("kind", ["t:Cash", "t:Text", "u:Cash"], free=True),
        "dims": ch.pick("dims", [(), (("e", "t:AxisA", "t:M1"),)], free=True),
        "first": ch.flag("first", free=True),
    }


def run_forever(case):
    ctx = {"id": "cf", "period": ("x", "<xbrli:forever/>"), "dims": case["dims"]}
    f = {"c": case["kind"], "id": "z", "ctx": "cf", "val": "1"}
    if case["kind"] != "t:Text":
        f.update(unit="usd", dec="0")
    rest = [POOL[j] for j in case["facts"]]
    fl = obs.open_files(files(list(MCTX.values()) + [ctx], list(MU.values()), [f] + rest if case["first"] else rest + [f]), "i.xml")
    # a fact that always holds has no period
    want = want_of(f, {"cf": {"period": (), "dims": case["dims"]}})
    want["per"] = None
    vs = compare("forever", fl, [want_of(x) for x in rest] + [want])
    if fl.has_any_errors():
        vs.append(Violation("forever:error", f"an error for a report without defects: {[str(e) for e in fl.get_all_errors()]}"))
    return Result(vs, {"facts": 1 + len(rest)})


def build_sizes(ch):
    return {"big": ch.pick("big", ["value", "id", "entity", "typed", "comment", "facts"]), "n": ch.pick("n", [1, 260, 600])}


def run_sizes(case):
    big, n = case["big"], case["n"]
    much = "x" * (n * 40000)  # XML parsers have limits at ten million characters
    f = {"c": "t:Text", "id": much if big == "id" else "z", "ctx": "cf", "val": much if big == "value" else "1"}
    ctx = {"id": "cf", "period": ("d", "2023-01-01", "2023-12-31"), "dims": (("t", "t:AxisT", "t:dom", much),) if big == "typed" else ()}
    if big == "entity":
        ctx["ident"] = much
    fs = [f] + ([dict(f, id=f"z{i}", val=str(i)) for i in range(n * 5)] if big == "facts" else [])
    docs = files([ctx], [], fs)
    if big == "comment":
        docs["i.xml"] = docs["i.xml"].replace("<context ", f"<!-- {much} --><context ", 1) if "<context " in docs["i.xml"] else docs["i.xml"].replace("<xbrli:context ", f"<!-- {much} --><xbrli:context ", 1)
    fl = obs.open_files(docs, "i.xml")
    vs = compare("sizes", fl, [want_of(x, {"cf": ctx}, {}) for x in fs])
    if fl.has_any_errors():
        vs.append(Violation("sizes:error", f"an error for a report without defects: {[str(e)[:300] for e in fl.get_all_errors()]}   [{case}]"))
    return Result(vs, {"facts": len(fs)})


def scenarios(tier):
    from checks import p06

    return [
        *borrowed("p06", tier, docs=1),
        *borrowed("p25", tier, nil=None),
        Scenario("collide", p06.build_single(2), p06.run_single, {"quick": 2, "thorough": 3}, "two facts whose aspects and ids resemble each other"),
        Scenario("sizes", build_sizes, run_sizes, desc="long values, identifiers and comments, many facts", batch=2),
        Scenario("forever", build_forever, run_forever, {"quick": 2, "thorough": 8}, "a fact whose period is 'forever' among others"),
        Scenario("one", build_one, run_one, {"quick": 2, "thorough": 3}, "one fact, every attribute varied"),
        Scenario("many", build_many(5 if tier == "thorough" else 3), run_many, desc="all sequences of facts from a pool"),
        Scenario("docs", build_docs, run_docs, desc="facts spread over two instance documents"),
    ]
