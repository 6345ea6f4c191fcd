"""P08: lookups and filters agree with the complete listings."""
import env
import obs
import xb
from core import Prune, Result, Scenario, Violation

TECHNIQUE = "exhaustive explicit-state enumeration of small universes (equal local names in several namespaces, kinds, prefix bindings) with every name form of every present and absent item, replayed on the lookups and filters of Filing"
NOTE = "A name that several items match is answered with an error or one of them; everything else is determined by the model."
ASSUMPTIONS = ["a prefix of a lookup may stand for any namespace that it is bound to anywhere in the report"]

N1, N2, N3 = "http://n1.org", "http://n2.org", "http://n3.org/absent"
KINDS = ["absent", "concept", "abstract", "hypercube", "dimension", "member"]


def build(kinds1, kinds2, pfx1, pfx2, extras, inline=(False,)):
    def b(ch):
        return {
            "k1": ch.pick("kind of n1:Cash", kinds1, free=True),
            "k2": ch.pick("kind of n2:Cash", kinds2, free=True),
            "p1": ch.pick("prefix of n1", pfx1, free=True),
            "p2": ch.pick("prefix of n2", pfx2, free=True),
            "extra": ch.pick("other bindings", extras, free=True),
            "inline": ch.pick("inline", inline, free=True),
            "nfacts": ch.pick("facts", [1, 2], free=True),
        }

    return b


EXTRAS = {
    "none": [],
    "x=n1": [("x", N1, "root")],
    "x=n2": [("x", N2, "root")],
    "x=n1 inside": [("x", N1, "fact")],
    "t=n2": [("t", N2, "fact")],
    "a=n1": [("a", N1, "fact")],
    "x=n1,y=n1,z=n2": [("x", N1, "root"), ("y", N1, "fact"), ("z", N2, "root")],
    "x=absent": [("x", N3, "root")],
}


def files(case):
    def els(k, pfx, extra):
        out = []
        if k != "absent":
            out.append({"n": "Cash", "kind": k, "id": pfx + "_Cash"})
        if pfx == "a":
            out.append({"n": "CashLineItems", "kind": "lineitems", "id": "a_LI"})
        return out + [{"n": e, "kind": "concept", "id": pfx + "_" + e} for e in extra]

    p1, p2 = case["p1"], case["p2"]
    fs = {
        "a.xsd": xb.schema({"ns": N1, "prefix": p1, "elements": els(case["k1"], "a", ["Cost", "Total", "Cashier", "COST"])}),
        "b.xsd": xb.schema({"ns": N2, "prefix": p2, "elements": els(case["k2"], "b", ["Cost", "Share", "ash"])}),
    }
    nsmap = {"i1": N1, "i2": N2}
    inner = {}
    for p, u, where in EXTRAS[case["extra"]]:
        (nsmap if where == "root" else inner)[p] = u
    facts = []
    names = [("i1", "Cost", N1), ("i2", "Cost", N2), ("i1", "Total", N1)]
    if case["k1"] == "concept":
        names.append(("i1", "Cash", N1))
    if case["k2"] == "concept":
        names.append(("i2", "Cash", N2))
    n = 0
    for p, l, u in names:
        for _ in range(case["nfacts"]):
            n += 1
            facts.append({"c": f"{p}:{l}", "id": f"f{n}", "ctx": "c1", "unit": "usd", "val": str(n), "dec": "0", "ns": inner, "u": u, "l": l})
    ctx = {"id": "c1", "period": ("d", "2023-01-01", "2023-12-31")}
    usd = {"id": "usd", "nums": ["iso4217:USD"]}
    if case["inline"]:
        body = "".join(
            f'<p{xb.nsdecl(f["ns"])}><ix:nonFraction name="{f["c"]}" id="{f["id"]}" contextRef="c1" unitRef="usd" decimals="0">{f["val"]}</ix:nonFraction></p>' for f in facts
        )
        fs["i.xhtml"] = xb.xhtml(body, resources=xb.context_xml(ctx) + xb.unit_xml(usd), refs=xb.schema_ref("a.xsd") + xb.schema_ref("b.xsd"), nsmap=nsmap)
    else:
        fs["i.xml"] = xb.instance({"schemaRefs": ["a.xsd", "b.xsd"], "nsmap": nsmap, "contexts": [ctx], "units": [usd], "facts": facts})
    bind = {}
    for p, u in list(xb.STD_NS.items()) + [("xml", "http://www.w3.org/XML/1998/namespace"), (p1, N1), (p2, N2)] + list(nsmap.items()) + list(inner.items()):
        bind.setdefault(p, set()).add(u)
    return fs, facts, bind


def universe(case):
    out = {(N1, "CashLineItems"): "lineitems"}
    for ns, k, extra in ((N1, case["k1"], ["Cost", "Total", "Cashier", "COST"]), (N2, case["k2"], ["Cost", "Share", "ash"])):
        if k != "absent":
            out[(ns, "Cash")] = k
        for e in extra:
            out[(ns, e)] = "concept"
    return out


def ident(e):
    return (e.get_name().get_URL(), e.get_name().get_local_name())


def run(case):
    from brel import Filing, QName
    from brel.reportelements import Abstract, Concept, Dimension, Hypercube, LineItems, Member

    fs, facts, bind = files(case)
    what = "i.xhtml" if case["inline"] else None
    fl = obs.open_files(fs, what)
    uni = universe(case)
    vs, n = [], 0

    def bad(sig, msg):
        vs.append(Violation("lookup:" + sig, msg))

    # listings
    allel = fl.get_all_report_elements()
    if sorted(map(ident, allel)) != sorted(uni):
        bad("listing", f"report elements {sorted(map(ident, allel))} instead of {sorted(uni)}")
        return Result(vs)
    typed = {
        "concept": (fl.get_all_concepts, Concept),
        "abstract": (fl.get_all_abstracts, Abstract),
        "hypercube": (fl.get_all_hypercubes, Hypercube),
        "dimension": (fl.get_all_dimensions, Dimension),
        "member": (fl.get_all_members, Member),
        "lineitems": (fl.get_all_line_items, LineItems),
    }
    for kind, (f, cls) in typed.items():
        n += 1
        got = f()
        if [id(e) for e in got] != [id(e) for e in allel if type(e) is cls] or any(uni[ident(e)] != kind for e in got) or len(got) != sum(1 for k in uni.values() if k == kind):
            bad("typed-listing", f"{kind}: {[ident(e) for e in got]}")

    ffacts = fl.get_all_facts()
    by_id = {f.get_id(): f for f in ffacts}
    if sorted(by_id) != sorted(f["id"] for f in facts) or len(ffacts) != len(facts):
        bad("facts", f"facts {sorted(by_id)}")
        return Result(vs)

    def matches(form):
        kind, a, l = form
        if kind == "local":
            return [k for k in uni if k[1] == l]
        if kind == "prefixed":
            return [k for k in uni if k[1] == l and k[0] in bind.get(a, ())]
        return [k for k in uni if k == (a, l)]

    forms = []
    for l in ("Cash", "Cost", "Total", "Share", "Cashier", "CashLineItems", "ash", "cash", "COST", "total", "Absent", "Cas"):
        forms.append(("local", None, l))
        for p in sorted(set(bind) - set(xb.STD_NS)) + ["xbrli", "nowhere"]:
            forms.append(("prefixed", p, l))
        for u in (N1, N2, N3, N1 + "/", "http://N1.org"):
            forms.append(("expanded", u, l))
            for p in (case["p1"], "q", ""):
                forms.append(("object:" + p, u, l))

    def name(form):
        kind, a, l = form
        if kind == "local":
            return l
        if kind == "prefixed":
            return f"{a}:{l}"
        if kind == "expanded":
            return "{%s}%s" % (a, l)
        return QName(a, kind.split(":")[1], l)

    def ask(f, form):
        try:
            return f(name(form)), None
        except (KeyError, ValueError) as e:
            return None, e

    for form in forms:
        m = matches(form)
        mc = [k for k in m if uni[k] == "concept"]
        for what, f, want in (
            ("get_report_element_by_name", fl.get_report_element_by_name, m),
            ("get_concept_by_name", fl.get_concept_by_name, mc),
            ("get_concept", fl.get_concept, mc),
        ):
            n += 1
            got, err = ask(f, form)
            if err is not None or got is None:
                if len(want) == 1:
                    bad(f"{what}:{form[0].split(':')[0]}:not-found", f"{what}({name(form)!r}): {err!r} although {want[0]} is in the report")
            elif ident(got) not in want:
                bad(f"{what}:{form[0].split(':')[0]}:other-item", f"{what}({name(form)!r}) is {ident(got)}; matches: {want}")
            elif not any(got is e for e in allel):
                bad(f"{what}:copy", f"{what}({name(form)!r}) is not the listed element")
        n += 1
        got, err = ask(fl.get_facts_by_concept_name, form)
        if err is not None:
            if len(mc) == 1:
                bad(f"facts_by_name:{form[0].split(':')[0]}:not-found", f"get_facts_by_concept_name({name(form)!r}): {err!r} although {mc[0]} is in the report")
        else:
            if not mc:
                bad(f"facts_by_name:{form[0].split(':')[0]}:unknown-name", f"get_facts_by_concept_name({name(form)!r}) is {[x.get_id() for x in got]}")
            elif [x.get_id() for x in got] not in [[x["id"] for x in facts if (x["u"], x["l"]) == c] for c in mc]:
                bad(f"facts_by_name:{form[0].split(':')[0]}:facts", f"get_facts_by_concept_name({name(form)!r}) is {[x.get_id() for x in got]}")
    # by object
    for e in fl.get_all_concepts():
        n += 1
        want = [x["id"] for x in facts if (x["u"], x["l"]) == ident(e)]
        if [x.get_id() for x in fl.get_facts_by_concept(e)] != want:
            bad("facts_by_concept", f"{ident(e)}: {[x.get_id() for x in fl.get_facts_by_concept(e)]} instead of {want}")
        if fl.get_concept(e.get_name()) is not e:
            bad("own-name", f"{ident(e)} is not found by its own name")
    want = sorted({(x["u"], x["l"]) for x in facts})
    got = [ident(c) for c in fl.get_all_reported_concepts()]
    if sorted(got) != want:
        bad("reported", f"reported concepts {got} instead of {want}")
    # the concept of a fact is the listed element
    for x in facts:
        c = by_id[x["id"]].get_concept()
        if ident(c) != (x["u"], x["l"]):
            bad("concept-of-fact", f"{x['id']}: {ident(c)}")
    return Result(vs, {"lookups": n})


# --- filters: core facts, components, errors ------------------------------------------------
def filters_build(ch):
    n = ch.pick("facts", [0, 1, 2, 3], free=True)
    return {
        "facts": [ch.pick(f"context{i}", ["core", "explicit", "typed", "both"], free=True) for i in range(n)],
        "roles": [u for u in ["http://r.org/a", "http://r.org/a/", "http://r.org/A"] if ch.flag("role " + u, free=True)],
        "defects": [d for d in ["unit", "context", "arc"] if ch.flag("defect " + d, free=True)],
    }


def filters_run(case):
    import common as k
    from brel.errors.area import Area
    from brel.errors.severity import Severity

    dims = {"core": (), "explicit": (("e", "t:AxisA", "t:M1"),), "typed": (("t", "t:AxisT", "t:dom", "x"),), "both": (("e", "t:AxisA", "t:M1"), ("t", "t:AxisT", "t:dom", "x"))}
    ctxs = [{"id": c, "period": k.D23, "dims": d} for c, d in dims.items()]
    fcts = [{"c": "t:Cash", "id": f"f{i}", "ctx": c, "unit": "usd", "val": str(i), "dec": "0"} for i, c in enumerate(case["facts"])]
    if "unit" in case["defects"]:
        fcts.append({"c": "t:Cash", "id": "bad1", "ctx": "core", "unit": "nope", "val": "1", "dec": "0"})
    if "context" in case["defects"]:
        fcts.append({"c": "t:Cash", "id": "bad2", "ctx": "nope", "unit": "usd", "val": "1", "dec": "0"})
    lnk = []
    if "arc" in case["defects"]:
        lnk.append(xb.link("presentationLink", xb.ROLE_LINK, [xb.locator("a", "t.xsd#t_Cash"), xb.arc("presentationArc", "a", "nope", xb.AR_PC)]))
    fs = {
        "t.xsd": xb.schema(k.base_schema(roles=[{"uri": u, "id": f"r{i}", "definition": "D" + u, "usedOn": ["link:presentationLink"]} for i, u in enumerate(case["roles"])], embedded=["<link:linkbase>" + "".join(lnk) + "</link:linkbase>"] if lnk else [])),
        "i.xml": xb.instance({"schemaRefs": ["t.xsd"], "nsmap": k.NS, "contexts": ctxs, "units": [k.USD], "facts": fcts}),
    }
    fl = obs.open_files(fs)
    vs = []

    def bad(sig, msg):
        vs.append(Violation("filter:" + sig, msg))

    ids = [f"f{i}" for i, c in enumerate(case["facts"])]
    got = [f.get_id() for f in fl.get_all_facts()]
    if got != ids:
        bad("facts", f"{got} instead of {ids}")
    got = [f.get_id() for f in fl.get_all_core_facts()]
    want = [f"f{i}" for i, c in enumerate(case["facts"]) if c == "core"]
    if got != want:
        bad("core", f"core facts {got} instead of {want}")
    comps = fl.get_all_components()
    uris = [c.get_URI() for c in comps]
    if fl.get_all_component_uris() != uris:
        bad("component-uris", f"{fl.get_all_component_uris()} instead of {uris}")
    if not set(case["roles"]) <= set(uris):
        bad("components", f"{uris} for {case['roles']}")
    for u in ["http://r.org/a", "http://r.org/a/", "http://r.org/A", "http://r.org/", "", "a", "D"]:
        try:
            c = fl.get_component(u)
        except (ValueError, KeyError):
            c = None
        if u in uris:
            if c is None or not any(c is x for x in comps) or c.get_URI() != u:
                bad("component", f"get_component({u!r}) is {c and c.get_URI()}")
        elif c is not None:
            bad("component-absent", f"get_component({u!r}) is {c.get_URI()}")
    errs = fl.get_all_errors()
    if fl.has_any_errors() != bool(errs) or bool(errs) != bool(case["defects"]) or len(errs) < len(case["defects"]):
        bad("errors", f"{obs.errs(fl)} for {case['defects']}")
    for a in Area:
        if [id(e) for e in fl.get_errors_by_area(a)] != [id(e) for e in errs if e.get_area() == a]:
            bad("errors-by-area", str(a))
    for s in Severity:
        if [id(e) for e in fl.get_errors_by_severity(s)] != [id(e) for e in errs if e.get_severity() == s]:
            bad("errors-by-severity", str(s))
    for s, f in ((Severity.ERROR, fl.get_errors), (Severity.WARNING, fl.get_warnings), (Severity.INFO, fl.get_infos)):
        if [id(e) for e in f()] != [id(e) for e in errs if e.get_severity() == s]:
            bad("errors-shortcut", str(s))
    return Result(vs, {"filters": 8})


def scenarios(tier):
    t = tier == "thorough"
    ex = list(EXTRAS)
    return [
        Scenario(
            "names",
            build(KINDS if t else ["absent", "concept", "dimension", "abstract"], KINDS if t else ["absent", "concept", "member"], ["t", "a"], ["t", "u", "a"], ex, (False, True) if t else (False,)),
            run,
            desc="two namespaces with equal local names: kinds x prefix bindings; every lookup with every name form of present and absent names, compared with the model and the listings",
        ),
        Scenario("inline", build(["concept", "abstract"], ["absent", "concept"], ["t"], ["t", "u"], ex, (True,)), run, desc="the same for inline reports"),
        Scenario("filters", filters_build, filters_run, desc="core facts, components by address, errors by area and severity against the listings"),
    ]
