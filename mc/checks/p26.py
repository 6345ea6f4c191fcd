"""P26: names and aspects compare equal exactly if they mean the same."""
import common as k
import obs
import xb
from checks.p06 import CONCEPTS, DIMS, ENTS, PERS, UNITS, schemas
from core import Result, Scenario, Violation

TECHNIQUE = "explicit-state model checking: all pairs of facts whose aspects differ in at most a bounded number of respects, in one report or two, plain or inline, are opened with Filing.open; every comparison between their names, aspects, characteristics and contexts is compared with the equality of what the model wrote"
ASSUMPTIONS = ["the documents are without defects", "segments and scenarios are not told apart"]

MORE_PERS = PERS + [("d", "2023-01-01T00:00:00", "2024-01-01T00:00:00"), ("i", "2024-01-01T00:00:00"), ("x", "<xbrli:forever/>")]
MEANT = {("d", "2023-01-01T00:00:00", "2024-01-01T00:00:00"): ["d", "2023-01-01", "2023-12-31"], ("i", "2024-01-01T00:00:00"): ["i", "2023-12-31"], ("x", "<xbrli:forever/>"): None}
MORE_UNITS = UNITS + [
    (("t:Day", "iso4217:USD"), (), {}),
    (("iso4217:USD",), ("t:Day", "xbrli:shares"), {}),
    (("iso4217:USD",), ("iso4217:USD",), {}),
    None,
]
MORE_DIMS = DIMS + [
    ((("e", "t:AxisB", "t:M2"), ("e", "t:AxisA", "t:M1")), {}),
    ((("e", "t:AxisB", "t:M1"), ("e", "t:AxisA", "t:M2")), {}),
    ((("t", "t:AxisT", "t:dom", "X"),), {}),
    ((("t", "t:AxisT", "t:dom", "x"), ("e", "t:AxisA", "t:M1")), {}),
]
FORMS = ["one plain", "one inline", "two plain", "two inline", "plain and inline", "two documents"]


def pick(ch, i):
    d, dn = ch.pick(f"dims{i}", MORE_DIMS)
    e = ch.pick(f"ent{i}", ENTS)
    p = ch.pick(f"per{i}", MORE_PERS)
    u = ch.pick(f"unit{i}", MORE_UNITS)
    c, cn = ch.pick(f"concept{i}", CONCEPTS)
    return {"dims": d, "dn": dn, "ent": e, "per": p, "unit": u, "c": c, "cn": cn}


def build(ch):
    form = ch.pick("form", FORMS, free=True)
    own = ch.flag("own ids")
    return {
        "form": form,
        "own": own,
        "rename": ch.flag("other prefixes", free=True) if form not in ("one plain", "one inline") else False,
        "facts": [pick(ch, 0), pick(ch, 1)],
        "share": ch.flag("share", free=True) if form in ("one plain", "one inline") else False,
        "val": ch.pick("val", [("1", "2"), ("1", "1")]),
    }


def rn(name):
    p, l = name.split(":")
    return {"t": "a", "u": "b"}.get(p, p) + ":" + l


def parts(x, i, own, rename):
    """-> context, unit, fact as for xb, and what they mean"""
    s = str(i) if own else ""
    r, rk = (rn, lambda ns: {{"t": "a", "u": "b"}.get(p, p): u for p, u in ns.items()}) if rename else (lambda n: n, lambda ns: ns)
    dims = tuple((d[0], r(d[1]), r(d[2])) + d[3:] for d in x["dims"])
    ctx = {"id": f"c{s}", "period": x["per"], "scheme": x["ent"][0], "ident": x["ent"][1], "dims": dims, "ns": rk(x["dn"])}
    unit = None
    if x["unit"]:
        n, m, un = x["unit"]
        unit = {"id": f"u{s}", "nums": tuple(map(r, n)), "dens": tuple(map(r, m)), "ns": rk(un)}
    f = {"c": r(x["c"]), "ns": rk(x["cn"]), "id": f"f{i}", "ctx": ctx["id"], "unit": unit and unit["id"], "val": "1", "dec": "0" if unit else None}
    want = {
        "concept": k.q(x["c"], x["cn"]),
        "period": MEANT.get(x["per"], list(x["per"])),
        "entity": [x["ent"][0], x["ent"][1].strip()],
        "unit": k.want_unit({"nums": x["unit"][0], "dens": x["unit"][1]}, x["unit"][2]) if x["unit"] else None,
        "dims": sorted(k.want_dims(x["dims"], x["dn"])),
    }
    return ctx, unit, f, want


def document(ps, kind, rename):
    ns = {"a": k.T, "b": k.U} if rename else k.NS
    ctxs = list({p[0]["id"]: p[0] for p in ps}.values())
    units = list({p[1]["id"]: p[1] for p in ps if p[1]}.values())
    fs = [p[2] for p in ps]
    if kind == "plain":
        return xb.instance({"nsmap": ns, "schemaRefs": ["t.xsd", "u.xsd"], "contexts": ctxs, "units": units, "facts": fs})
    res = "".join(map(xb.context_xml, ctxs)) + "".join(map(xb.unit_xml, units))
    body = "".join(
        f"<p><ix:{'nonFraction' if f['unit'] else 'nonNumeric'}{xb.nsdecl(f['ns'])}{xb.attrs({'name': f['c'], 'id': f['id'], 'contextRef': f['ctx'], 'unitRef': f['unit'], 'decimals': f['dec']})}>{f['val']}</ix:{'nonFraction' if f['unit'] else 'nonNumeric'}></p>\n"
        for f in fs
    )
    return xb.xhtml(body, resources=res, refs=xb.schema_ref("t.xsd") + xb.schema_ref("u.xsd"), nsmap=ns)


def run(case):
    form = case["form"]
    one = form in ("one plain", "one inline")
    a = parts(case["facts"][0], 0, case["own"] or one, False)
    b = parts(case["facts"][1], 1, case["own"] or one, case["rename"])
    wa, wb = a[3], b[3]
    a[2]["val"], b[2]["val"] = case["val"]
    if one:
        if case["share"]:
            # the context and the unit of the first fact
            b[2]["ctx"] = a[2]["ctx"]
            wb = dict(wb, period=wa["period"], entity=wa["entity"], dims=wa["dims"])
            if b[1] and a[1]:
                b[2]["unit"] = a[2]["unit"]
                wb["unit"] = wa["unit"]
        fl = obs.open_files({**schemas(), "i.xhtml" if "inline" in form else "i.xml": document([a, b], form.split()[1], False)}, "i.xhtml" if "inline" in form else "i.xml")
        filings = [fl]
        facts = {f.get_id(): f for f in fl.get_all_facts()}
        fa, fb = facts.get("f0"), facts.get("f1")
    elif form == "two documents":
        fl = obs.open_files({**schemas(), "i.xml": document([a], "plain", False), "j.xml": document([b], "plain", case["rename"])}, None)
        filings = [fl]
        facts = {f.get_id(): f for f in fl.get_all_facts()}
        fa, fb = facts.get("f0"), facts.get("f1")
    else:
        kinds = {"two plain": ("plain", "plain"), "two inline": ("inline", "inline"), "plain and inline": ("plain", "inline")}[form]
        filings, fs = [], []
        for p, kd, rename in ((a, kinds[0], False), (b, kinds[1], case["rename"])):
            n = "i.xml" if kd == "plain" else "i.xhtml"
            fl = obs.open_files({**schemas(), n: document([p], kd, rename)}, n)
            filings.append(fl)
            fs.append((fl.get_all_facts() + [None])[0])
        fa, fb = fs
    errors = [str(e) for fl in filings for e in fl.get_all_errors()]
    if fa is None or fb is None or errors:
        return Result([Violation(f"{form}:open", f"facts {fa}, {fb}, errors {errors}   [{case}]")])
    ps = []

    def same(what, x, y, want):
        for l, r in ((x, y), (y, x)):
            if (l == r) is not want or (l != r) is want:
                ps.append((what, f"{l} {'does not equal' if want else 'equals'} {r}"))
                return
        for z in (x, y):
            if not z == z:
                ps.append((what + ":self", f"{z} does not equal itself"))
        try:
            hx, hy = hash(x), hash(y)
        except TypeError:
            return  # not hashable
        if want and hx != hy:
            ps.append((what + ":hash", f"{x} and {y} are equal, but their hashes differ"))

    from brel.characteristics import Aspect

    same("name", fa.get_concept().get_name(), fb.get_concept().get_name(), wa["concept"] == wb["concept"])
    same("concept", fa.get_concept(), fb.get_concept(), wa["concept"] == wb["concept"])
    for what, aspect in (("concept", Aspect.CONCEPT), ("period", Aspect.PERIOD), ("entity", Aspect.ENTITY), ("unit", Aspect.UNIT)):
        x, y = fa.get_characteristic(aspect), fb.get_characteristic(aspect)
        same(f"characteristic:{what}", x, y, wa[what] == wb[what])
    same("period", fa.get_period(), fb.get_period(), wa["period"] == wb["period"])
    same("entity", fa.get_entity(), fb.get_entity(), wa["entity"] == wb["entity"])
    same("unit", fa.get_unit(), fb.get_unit(), wa["unit"] == wb["unit"])
    chars = []
    for f, w in ((fa, wa), (fb, wb)):
        out = {}
        for aspect in f.get_aspects():
            c = f.get_characteristic(aspect)
            if not aspect.is_core():
                name = obs.clark(c.get_dimension().get_name())
                out[name] = (aspect, c, [d for d in w["dims"] if d[1] == name][0])
        chars.append(out)
    for na, (asp, c, d) in chars[0].items():
        same("aspect:core", asp, Aspect.CONCEPT, False)
        for nb, (asp2, c2, d2) in chars[1].items():
            same("aspect", asp, asp2, na == nb)
            same("dimension", c, c2, d == d2)
            same("dimension name", c.get_dimension().get_name(), c2.get_dimension().get_name(), na == nb)
            if d[0] == d2[0] == "e":
                same("member name", c.get_member().get_name(), c2.get_member().get_name(), d[2] == d2[2])
    # the aspects of one fact looked up in the other
    for asp, c, d in chars[0].values():
        if fb.get_context().has_characteristic(asp) != any(x[1] == d[1] for x in wb["dims"]):
            ps.append(("lookup", f"the other context {'has' if fb.get_context().has_characteristic(asp) else 'lacks'} {asp}"))
    same("context", fa.get_context(), fb.get_context(), wa == wb)
    if (set(fa.get_aspects()) == set(fb.get_aspects())) != ([d[1] for d in wa["dims"]] == [d[1] for d in wb["dims"]] and (wa["unit"] is None) == (wb["unit"] is None) and (wa["period"] is None) == (wb["period"] is None)):
        ps.append(("aspects", f"{list(map(str, fa.get_aspects()))} and {list(map(str, fb.get_aspects()))} as sets"))
    for x in (fa.get_context(), fa.get_concept(), fa.get_entity(), fa.get_concept().get_name(), *fa.get_aspects()):
        if x == None or x == "x" or x == 1:  # noqa: E711
            ps.append(("other", f"{x} equals an object of another kind"))
    return Result([Violation(f"{form}:{w}", m + f"   [{case}]") for w, m in ps])


def scenarios(tier):
    return [
        Scenario("pairs", build, run, {"quick": 2, "thorough": 3}, "pairs of facts in one report or two", batch=8),
    ]
