"""P20: tables and dictionaries show exactly the facts, elements, labels and components."""
import common as k
import nets
import obs
import texts
import xb
from core import Prune, Result, Scenario, Violation

TECHNIQUE = "explicit-state enumeration of all small sequences of facts (over a pool of aspect combinations and awkward values), report elements, labels and components, with and without labels in several languages; every state is opened with Filing.open and every table and dictionary is compared cell by cell with rows computed from the model"
ASSUMPTIONS = [
    "the heading of the column of a dimension is the name of the dimension",
    "the cell of a unit is its id or the library's text for that id",
    "Spark tables are not covered (they are made from the pandas tables)",
]
D, I = k.D23, k.I23
A1, A2, B1 = ("e", "t:AxisA", "t:M1"), ("e", "t:AxisA", "t:M2"), ("e", "t:AxisB", "t:M1")
CTX = {
    "c1": {"id": "c1", "period": D},
    "ci": {"id": "ci", "period": I},
    "ce": {"id": "ce", "period": D, "ident": "E2"},
    "ca1": {"id": "ca1", "period": D, "dims": [A1]},
    "ca2": {"id": "ca2", "period": I, "dims": [A2], "where": "scenario"},
    "cb1": {"id": "cb1", "period": D, "dims": [B1]},
    "cab": {"id": "cab", "period": D, "dims": [A1, ("e", "t:AxisB", "t:M2")]},
    "cba": {"id": "cba", "period": D, "dims": [B1, A2]},
    "ct": {"id": "ct", "period": D, "dims": [("t", "t:AxisT", "t:dom", "x y")]},
    "cts": {"id": "cts", "period": D, "dims": [("t", "t:AxisT", "t:dom", "1"), ("t", "t:AxisS", "t:dom", "2")]},
    "cat": {"id": "cat", "period": D, "dims": [A2, ("t", "t:AxisS", "t:dom", "nan")]},
    "cu": {"id": "cu", "period": D, "dims": [("e", "u:AxisA", "u:M1")]},
    "cf": {"id": "cf", "period": ("x", "<xbrli:forever/>")},
    "cfa": {"id": "cfa", "period": ("x", "<xbrli:forever/>"), "dims": [A1]},
    "cau": {"id": "cau", "period": D, "dims": [("e", "u:AxisA", "t:M1"), A2]},
}
UNITS = [k.USD, {"id": "EUR", "nums": ["iso4217:EUR"]}, {"id": "shares", "nums": ["xbrli:shares"]}, {"id": "usdPerShare", "nums": ["iso4217:USD"], "dens": ["xbrli:shares"]}]
M = lambda c, ctx, unit, val, **kw: {"c": "t:" + c, "ctx": ctx, "unit": unit, "val": val, **kw}
POOL = {
    "core": M("Cash", "c1", "usd", "1"),
    "cost": M("Cost", "c1", "EUR", "2.50"),
    "text": M("Text", "c1", None, "some text"),
    "shares": M("Shares", "ci", "shares", "007"),
    "ratio": M("Ratio", "c1", "usdPerShare", "1e5"),
    "noid": M("Cash", "ce", "usd", "-3", noid=True),
    "entity": M("Cash", "ce", "usd", "1"),
    "nil": M("Cash", "ci", "usd", "", nil=True),
    "A1": M("Cash", "ca1", "usd", "1"),
    "A2": M("Cost", "ca2", "usd", "10"),
    "B1": M("Cash", "cb1", "usd", "1"),
    "AB": M("Cash", "cab", "usd", "1"),
    "BA": M("Cost", "cba", "EUR", "1"),
    "T": M("Cash", "ct", "usd", "5"),
    "TS": M("Text", "cts", None, "typed"),
    "AT": M("Flag", "cat", None, "true"),
    "uA": M("Cash", "cu", "usd", "4"),
    "AuA": M("Cash", "cau", "usd", "6"),
    "forever": M("Cash", "cf", "usd", "9"),
    "foreverA": M("Text", "cfa", None, "always"),
    "nan": M("Text", "c1", None, "nan"),
    "none": M("Text", "ce", None, "None", noid=True),
    "quoted": M("Text", "ca1", None, 'a,"b"\n<c>&\t;é表'),
    "space": M("Text", "c1", None, "  x  "),
    "u": {"c": "u:Cash", "ctx": "c1", "unit": "usd", "val": "8"},
}
# name -> labels: element -> [(text, language)]
ALL = ["Cash", "Cost", "Text", "Shares", "Ratio", "Flag", "AxisA", "AxisB", "AxisT", "AxisS", "M1", "M2"]
LABELS = {
    "none": {},
    "en": {"t:" + n: [(f"{n} en", "en")] for n in ALL},
    "two": {"t:" + n: [(f"{n} de", "de"), (f"{n} en", "en")] for n in ALL},
    "some": {"t:Cash": [("Kasse", "de-DE"), ("Cash!", "en-US")], "t:M1": [("Mitglied", "de-DE")], "t:AxisB": [("Achse", "de-DE")]},
    "alike": {"t:" + n: [("same", "en"), ("gleich", "de-DE")] for n in ALL},
    "awkward": {"t:Cash": [("Value", "en-US"), ("nan", "de")], "t:AxisA": [("Value", "en-US"), ("Id", "en-US")], "t:AxisB": [("Concept [Axis]", "en-US")], "t:M1": [("", "en-US"), (" <b> ", "de")]},
}
OPTIONS = {
    "default": {},
    "en-US": {"languages": "en-US"},
    "de": {"languages": ["de-DE", "de"]},
    "fr": {"languages": ["fr-FR"], "allow_report_language": False},
    "loose": {"languages": "de", "match_locale": False},
    "single": {"languages": ["de-DE", "en-US"], "allow_mixed": False},
    "single2": {"languages": ["en-US", "de-DE", "fr-FR"], "allow_mixed": False, "match_locale": False},
    "strict": {"languages": ["en-US"], "allow_default": False, "allow_report_language": False, "allow_system_language": False},
}


def label_link(labels):
    out = []
    for i, (el, ls) in enumerate(labels.items()):
        p, n = el.split(":")
        out.append(xb.locator(f"l{i}", f"{p}.xsd#{p}_{n}"))
        for text, lang in ls:
            out.append(xb.resource("label", f"r{i}", text, xb.LBL, lang))
        out.append(xb.arc("labelArc", f"l{i}", f"r{i}", xb.AR_LABEL))
    return xb.linkbase([xb.link("labelLink", xb.ROLE_LINK, out)])


def languages(labels):
    return list(dict.fromkeys(lang for ls in labels.values() for _, lang in ls))


def settings(opt, report):
    """-> (languages, match locale, mixed); the system has no language"""
    o = dict({"allow_report_language": True, "allow_default": True, "match_locale": True, "allow_mixed": True}, **opt)
    ls = o.get("languages", [])
    ls = [ls] if isinstance(ls, str) else list(ls)
    if o["allow_report_language"]:
        ls += report
    if o["allow_default"]:
        ls.append("")
    return list(dict.fromkeys(ls)), o["match_locale"], o["allow_mixed"]


def compare(df, want, what, problems):
    got = texts.rows(df)
    if len(got) != len(want):
        problems.append((what, f"{len(got)} rows for {len(want)} items: {got}"))
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            problems.append((what, f"row {i} is {g}, want {w}"))
    if want and set(df.columns) != {c for w in want for c in w}:
        problems.append((what, f"columns {list(df.columns)}, want {sorted({c for w in want for c in w})}"))
    if list(df.index) != list(range(len(want))):
        problems.append((what, f"index {list(df.index)}"))


def fact_model(f, i):
    ctx = CTX[f["ctx"]]
    p = ctx["period"]
    asp = [
        ("concept", "concept", f["c"]),
        *([("period", "plain", p[1] if p[0] == "i" else f"{p[1]}/{p[2]}")] if p[0] != "x" else []),
        ("entity", "plain", "{http://ex.org/scheme}" + ctx.get("ident", "E1")),
    ]
    if f["unit"]:
        asp.append(("unit", "unit", f["unit"]))
    for d in ctx.get("dims", ()):
        asp.append((d[1], "member", d[2]) if d[0] == "e" else (d[1], "plain", d[3]))
    return {"aspects": asp, "id": None if f.get("noid") else f"f{i}", "val": f["val"], "core": not ctx.get("dims")}


def plain_row(m):
    return dict({a: v for a, _, v in m["aspects"]}, id=m["id"] or "", value=m["val"])


def run_facts(case):
    labels = LABELS[case["labels"]]
    fs = [POOL[n] for n in case["facts"]]
    ctxs = list(dict.fromkeys(f["ctx"] for f in fs))
    inst = xb.instance(
        {
            "schemaRefs": ["t.xsd", "u.xsd"],
            "nsmap": k.NS,
            "contexts": [CTX[c] for c in ctxs],
            "units": UNITS,
            "facts": [dict(f, id=None if f.get("noid") else f"f{i}") for i, f in enumerate(fs)],
        }
    )
    files = {"i.xml": inst, "t.xsd": xb.schema(k.base_schema(refs=["lab.xml"])), "u.xsd": xb.schema(k.other_schema()), "lab.xml": label_link(labels)}
    fl = obs.open_files(files, "i.xml")
    model = [fact_model(f, i) for i, f in enumerate(fs)]
    problems = []
    got = fl.get_all_facts()
    if [f.get_id() for f in got] != [m["id"] for m in model]:
        return Result([Violation("facts:listing", f"{[f.get_id() for f in got]} {case}")])
    for f, m in zip(got, model):
        for what, d in (("dictionary", f.convert_to_dict()), ("iteration", dict(f))):
            if d != plain_row(m):
                problems.append((what, f"{d}, want {plain_row(m)}"))
    opt = OPTIONS[case["options"]]
    ls, locale, mixed = settings(opt, languages(labels))
    for kind, make in (("facts", fl.generate_fact_table_pandas_df), ("core", fl.generate_core_fact_table_pandas_df)):
        items = [m for m in model if kind == "facts" or m["core"]]
        want = texts.table(kind, items, labels, ls, locale, mixed)
        if want is None:
            try:
                df = make(**opt)
            except (KeyError, ValueError):
                continue
            if len(df):
                problems.append((kind, f"a table without any text that may be used: {texts.rows(df)}"))
            continue
        compare(make(**opt), want, kind, problems)
    if [id(f) for f in fl.get_all_core_facts()] != [id(f) for f, m in zip(got, model) if m["core"]]:
        problems.append(("core", f"core facts {[f.get_id() for f in fl.get_all_core_facts()]}"))
    return Result([Violation(f"facts:{a}", b + f"   [{case}]") for a, b in problems])


def build_facts(n):
    def build(ch):
        c = {"labels": ch.pick("labels", list(LABELS)), "options": ch.pick("options", list(OPTIONS))}
        m = ch.pick("n", list(range(n, -1, -1)), free=True)
        c["facts"] = [ch.pick(f"f{i}", list(POOL)) for i in range(m)]
        return c

    return build


# ------------------------------------------------------------------ report elements and labels
ELS = {
    "money": {"n": "Cash", "kind": "concept", "type": "xbrli:monetaryItemType", "balance": "debit"},
    "credit": {"n": "Debt", "kind": "concept", "type": "xbrli:monetaryItemType", "balance": "credit", "period": "instant"},
    "string": {"n": "Text", "kind": "concept", "type": "xbrli:stringItemType", "nillable": "false"},
    "own type": {"n": "Own", "kind": "concept", "type": "t:ownItemType"},
    "abstract": {"n": "Head", "kind": "abstract"},
    "cube": {"n": "Cube", "kind": "hypercube"},
    "axis": {"n": "Axis", "kind": "dimension"},
    "typed axis": {"n": "AxisT", "kind": "dimension", "typedDomainRef": "#t_dom", "domain": "xs:string"},
    "member": {"n": "Mem", "kind": "member"},
    "lines": {"n": "TheLineItems", "kind": "lineitems"},
    "empty": None,
}
LABSETS = [[], [("X en", "en")], [("X de", "de"), ("X en", "en-US"), ("X fr", "fr-FR")], [("first", "fr"), ("second", "EN-GB")], [("one", "de-DE"), ("two", "de-DE")], [("", "en")], [("nan", "en-US")], [("same", "en"), ("same", "en")], [("same", "en"), ("same", "de"), ("same", "en")]]


def build_elements(ch):
    n = ch.pick("n", [2, 1, 3], free=True)
    names = [x for x in ELS]
    els = []
    for i in range(n):
        e = ch.pick(f"e{i}", names)
        names = [x for x in names if x != e]
        els.append([e, ch.pick(f"l{i}", LABSETS)])
    return {"els": els, "options": ch.pick("options", list(OPTIONS))}


def run_elements(case):
    els, labels, model = [], {}, {}
    for name, ls in case["els"]:
        e = ELS[name]
        if e is None:
            continue
        els.append(e)
        n = "t:" + e["n"]
        if ls:
            labels[n] = [tuple(x) for x in ls]
        model[n] = {
            "n": n,
            "kind": e["kind"],
            "period": e.get("period", "duration"),
            "balance": e.get("balance"),
            "nillable": e.get("nillable", "true") == "true",
            "type": e.get("type"),
            "domain": e.get("domain"),
        }
    files = {
        "i.xml": xb.instance({"schemaRefs": ["t.xsd"], "nsmap": k.NS}),
        "t.xsd": xb.schema({"ns": k.T, "prefix": "t", "elements": els, "refs": ["lab.xml"], "raw": '<xs:element name="dom" id="t_dom" type="xs:string"/>\n'}),
        "lab.xml": label_link(labels),
    }
    fl = obs.open_files(files, "i.xml")
    problems = []
    got = fl.get_all_report_elements()
    names = [e.get_name().prefix_local_name_notation() for e in got]
    if sorted(names) != sorted(model):
        return Result([Violation("elements:listing", f"{names} {case}")])
    items = [model[n] for n in names]
    opt = OPTIONS[case["options"]]
    ls, locale, mixed = settings(opt, languages(labels))
    want = texts.table("elements", items, labels, ls, locale, mixed)
    if want is not None:
        compare(fl.generate_report_elements_as_pandas_df(**opt), want, "elements", problems)
    else:
        try:
            df = fl.generate_report_elements_as_pandas_df(**opt)
            if len(df):
                problems.append(("elements", f"a table without any text that may be used: {texts.rows(df)}"))
        except (KeyError, ValueError):
            pass
    for e, m in zip(got, items):
        d = e.convert_to_dict()
        w = {"name": m["n"], "label": texts.main(labels.get(m["n"], [])), "report-element-type": {"lineitems": "line item"}.get(m["kind"], m["kind"])}
        if m["kind"] == "concept":
            w.update({"period-type": m["period"], "balance-type": m["balance"], "nillable": m["nillable"], "data-type": m["type"]})
        if m["kind"] == "dimension":
            w.update({"is-explicit": m["domain"] is None, "dimension_type": m["domain"]})
        if d != w:
            problems.append(("dictionary", f"{d}, want {w}"))
    # labels
    rows = [{"text": t, "language": l, "label_role": xb.LBL, "report_element": n} for n in names for t, l in labels.get(n, [])]
    text = lambda r: dict(r, report_element=r["report_element"].prefix_local_name_notation())
    got = [text(r) for r in fl.get_all_labels()]
    if got != rows:
        problems.append(("labels", f"{got}, want {rows}"))
    df = fl.generate_labels_as_pandas_df()
    got = [text(r) for r in texts.rows(df)]
    if got != rows:
        problems.append(("label table", f"{got}, want {rows}"))
    return Result([Violation(f"elements:{a}", b + f"   [{case}]") for a, b in problems])


# ------------------------------------------------------------------ components
def build_components(ch):
    n = ch.pick("n", [2, 0, 1, 3], free=True)
    comps = []
    for i in range(n):
        links = "".join(x for x in "pcd" if ch.flag(f"{x}{i}"))
        comps.append([links, ch.pick(f"info{i}", ["Statement %d" % i, None, "same", "a < b & nan", "nan"])])
    return {"comps": comps, "options": ch.pick("options", list(OPTIONS))}


def run_components(case):
    from checks import p13

    roles, links, model = [], [], []
    for i, (ls, info) in enumerate(case["comps"]):
        uri = f"http://ex.org/role/c{i}"
        roles.append({"uri": uri, "id": f"c{i}", "definition": info, "usedOn": ["link:presentationLink", "link:calculationLink", "link:definitionLink"]})
        links += [p13.the_link(p13.LET[x], uri, i) for x in ls]
        model.append({"uri": uri, "info": info or "", **{x: x in ls for x in "pcd"}})
    files = {
        "i.xml": nets.INSTANCE,
        "t.xsd": xb.schema({"ns": nets.T, "prefix": "t", "elements": [{"n": x} for x in nets.NAMES], "roles": roles, "refs": ["lb.xml"]}),
        "lb.xml": nets.linkbase(links),
    }
    fl = obs.open_files(files, "i.xml")
    problems = []
    uris = fl.get_all_component_uris()
    if sorted(uris) != sorted(m["uri"] for m in model):
        return Result([Violation("components:listing", f"{uris} {case}")])
    items = [m for u in uris for m in model if m["uri"] == u]
    opt = OPTIONS[case["options"]]
    ls, locale, mixed = settings(opt, [])
    want = texts.table("components", items, {}, ls, locale, mixed)
    if want is not None:
        compare(fl.generate_components_as_pandas_df(**opt), want, "components", problems)
    for c, m in zip(fl.get_all_components(), items):
        d = c.convert_to_dict()
        if list(d.values()) != [m["uri"], m["info"], m["p"], m["c"], m["d"]]:
            problems.append(("dictionary", f"{d}, want {m}"))
    return Result([Violation(f"components:{a}", b + f"   [{case}]") for a, b in problems])


# ------------------------------------------------------------------ dimensions whose names share a prefix
OWNERS = ["t", "u", "v"]


def build_prefixes(ch):
    facts = []
    for i in range(2):
        dims = []
        for j in range(ch.pick(f"n{i}", [1, 2])):
            owner = ch.pick(f"o{i}{j}", [o for o in OWNERS if o not in [d[0] for d in dims]], free=True)
            dims.append((owner, ch.pick(f"p{i}{j}", ["p", "q"], free=True)))
        facts.append(dims)
    return {"prefixes": facts}


def open_prefixes(case):
    """each namespace declares a typed dimension D and an element dom; the taxonomies and contexts choose their prefixes"""
    files, contexts, facts = {}, "", ""
    for o in OWNERS:
        files[f"{o}.xsd"] = xb.schema({"ns": k.T if o == "t" else f"http://ex.org/{o}", "prefix": "p", "elements": [
            {"n": "D", "kind": "dimension", "typedDomainRef": "#p_dom"},
            *([{"n": "Text", "kind": "concept", "type": "xbrli:stringItemType"}] if o == "t" else []),
        ], "raw": '<xs:element name="dom" id="p_dom" type="xs:string"/>\n'})
    for i, dims in enumerate(case["prefixes"]):
        seg = "".join(f'<xbrldi:typedMember xmlns:{p}="{k.T if o == "t" else "http://ex.org/" + o}" dimension="{p}:D"><{p}:dom>{o}{i}</{p}:dom></xbrldi:typedMember>' for o, p in dims)
        contexts += f'<xbrli:context id="c{i}"><xbrli:entity><xbrli:identifier scheme="http://ex.org/scheme">E1</xbrli:identifier><xbrli:segment>{seg}</xbrli:segment></xbrli:entity><xbrli:period><xbrli:startDate>2023-01-01</xbrli:startDate><xbrli:endDate>2023-12-31</xbrli:endDate></xbrli:period></xbrli:context>'
    files["i.xml"] = xb.instance({"schemaRefs": [f"{o}.xsd" for o in OWNERS], "nsmap": {**k.NS, "xbrldi": "http://xbrl.org/2006/xbrldi"}, "links": [contexts], "facts": [{"c": "t:Text", "ctx": f"c{i}", "unit": None, "id": f"f{i}", "val": "x"} for i in range(2)]})
    return obs.open_files(files, "i.xml")


def judge_columns(case, rows, problems):
    """rows: one dictionary per fact; the values of a namespace are in one column, and each column belongs to one namespace"""
    columns = {}
    for i, dims in enumerate(case["prefixes"]):
        for o, _ in dims:
            at = [c for c, v in rows[i].items() if v == f"{o}{i}"]
            if len(at) != 1:
                problems.append(("lost", f"the value {o}{i} is in the columns {at} of {rows[i]}"))
            else:
                columns.setdefault(o, set()).add(at[0])
        core = 5
        if sum(1 for v in rows[i].values() if v not in ("", "-", "None")) != core + len(dims):
            problems.append(("cells", f"{rows[i]}"))
    if any(len(c) != 1 for c in columns.values()) or len(set().union(*columns.values())) != len(columns):
        problems.append(("columns", f"{columns}"))


def run_prefixes(case):
    fl = open_prefixes(case)
    problems = []
    facts = fl.get_all_facts()
    if [f.get_id() for f in facts] != ["f0", "f1"]:
        return Result([Violation("prefixes:listing", f"{[str(e) for e in fl.get_all_errors()]}")])
    judge_columns(case, [f.convert_to_dict() for f in facts], problems)
    judge_columns(case, texts.rows(fl.generate_fact_table_pandas_df()), problems)
    return Result([Violation(f"prefixes:{a}", b + f"   [{case}]") for a, b in problems])


def scenarios(tier):
    q = tier != "thorough"
    return [
        Scenario("facts", build_facts(3 if q else 4), run_facts, {"quick": 2, "thorough": 3}, "sequences of facts x labels x output options"),
        Scenario("elements", build_elements, run_elements, {"quick": 2, "thorough": 3}, "report elements x labels x output options; the label listing"),
        Scenario("components", build_components, run_components, {"quick": 3, "thorough": 5}, "components x networks x definition texts x output options"),
        Scenario("prefixes", build_prefixes, run_prefixes, {"quick": 2, "thorough": 4}, "dimensions of the same local name in namespaces with the same prefix"),
    ]
