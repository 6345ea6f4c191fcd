"""P07: taxonomy elements are reported once, with the right kind and attributes."""
import common as k
import obs
import xb
from core import Prune, Result, Scenario, Violation

TECHNIQUE = "explicit-state enumeration of schemas with one to three element declarations: every combination of substitution group (direct, derived, other), type, abstract, period type, balance, nillability, name, id and place of the declaration, typed domain, namespace prefixes and order of two schemas, up to a number of deviations from a plain concept; every state is opened with Filing.open and compared with a decision table written from the specification"
ASSUMPTIONS = [
    "elements whose name contains LineItems are line items, as the code and the US GAAP taxonomy have it",
    "a member is an item whose type is called domainItemType",
    "schemas without a target namespace (chameleon includes) and items with an anonymous type are not covered; hypercubes and dimensions that are not abstract are invalid and not judged",
]
T, U = k.T, k.U
OTHER = "http://ex.org/types"
STYLES = {
    "usual": {"xs": xb.XS, "xbrli": xb.XBRLI, "xbrldt": xb.XBRLDT, "nn": xb.NONNUM, "t": T, "u": U, "o": OTHER},
    "short": {"x": xb.XS, "i": xb.XBRLI, "d": xb.XBRLDT, "nonnum": xb.NONNUM, "us": OTHER, "e1": T, "e2": U},
    "xs default": {"": xb.XS, "instance": xb.XBRLI, "dim": xb.XBRLDT, "dtr": xb.NONNUM, "own": T, "they": U, "other": OTHER},
    "xbrli default": {"": xb.XBRLI, "xsd": xb.XS, "item": xb.XBRLDT, "nn": xb.NONNUM, "a": T, "b": U, "c": OTHER},
    "swapped": {"xs": xb.XS, "xbrldt": xb.XBRLI, "xbrli": xb.XBRLDT, "nn": T, "t": xb.NONNUM, "u": U, "o": OTHER},
}


class Names:
    def __init__(self, style):
        self.ns = STYLES[style]
        self.back = {u: p for p, u in self.ns.items()}

    def q(self, uri, local):
        p = self.back[uri]
        return f"{p}:{local}" if p else local

    def attr(self, uri, local):
        """attributes have no default namespace"""
        for p, u in self.ns.items():
            if u == uri and p:
                return f"{p}:{local}", ""
        return f"pf:{local}", f' xmlns:pf="{uri}"'


XI, XH, XD, TU = (xb.XBRLI, "item"), (xb.XBRLDT, "hypercubeItem"), (xb.XBRLDT, "dimensionItem"), (xb.XBRLI, "tuple")
# what an element may substitute; the heads of the derived groups are declared in the second schema
GROUPS = {
    "item": (XI, "item"),
    "hypercube": (XH, "hypercube"),
    "dimension": (XD, "dimension"),
    "none": (None, None),
    "tuple": (TU, None),
    "part": (("http://www.xbrl.org/2003/linkbase", "part"), None),
    "derived item": ((U, "headOne"), "item"),
    "derived twice": ((U, "headTwo"), "item"),
    "derived dimension": ((U, "headDim"), "dimension"),
    "derived hypercube": ((U, "headCube"), "hypercube"),
    "like item": ((U, "itemish"), None),
    "like dimension": ((U, "dimensionItem"), None),
    "undeclared": ((U, "noitem"), None),
    "circle": ((U, "circleitem"), None),
}
TYPES = {
    "monetary": (xb.XBRLI, "monetaryItemType"),
    "string": (xb.XBRLI, "stringItemType"),
    "domain": (xb.NONNUM, "domainItemType"),
    "other domain": (OTHER, "domainItemType"),
    "like domain": (OTHER, "subdomainItemType2"),
    "own": (T, "ownItemType"),
    "missing": None,
}
NAMES = ["Plain", "ThingLineItems", "LineItemsThing", "ThingAbstract", "plain", "item", "hypercubeItem", "Ünï.b-c_1", "domainItemType"]
BOOLS = {None: False, "true": True, "false": False, "1": True, "0": False, " true ": True}
PLACES = ["top", "commented", "local", "group"]
DOMAINS = ["none", "here", "there", "simple", "complex", "missing", "xs type"]


def build(n, maxel):
    def go(ch):
        c = {"style": ch.pick("style", list(STYLES)), "style2": ch.pick("style2", list(STYLES)), "second first": ch.flag("second first"), "els": []}
        m = ch.pick("n", [x for x in (2, 1, 3) if x <= maxel], free=True)
        names = list(NAMES)
        for i in range(m):
            e = {"in": ch.pick(f"{i}.in", ["t", "u"]), "group": ch.pick(f"{i}.group", list(GROUPS))}
            e["abstract"] = ch.pick(f"{i}.abstract", list(BOOLS))
            kind = GROUPS[e["group"]][1]
            if kind in ("hypercube", "dimension"):
                if not BOOLS[e["abstract"]]:
                    if e["abstract"] is not None:
                        raise Prune()
                    e["abstract"] = "true"
                e["type"] = "string"
            else:
                e["type"] = ch.pick(f"{i}.type", list(TYPES))
            e["name"] = ch.pick(f"{i}.name", names)
            names.remove(e["name"])
            e["id"] = ch.pick(f"{i}.id", ["own", None, "same"])
            e["period"] = ch.pick(f"{i}.period", ["duration", "instant", None, "forever"])
            e["balance"] = ch.pick(f"{i}.balance", [None, "debit", "credit", "both"])
            e["nillable"] = ch.pick(f"{i}.nillable", ["true", None, "false", "1", "0", "perhaps"])
            e["place"] = ch.pick(f"{i}.place", PLACES)
            if kind == "dimension":
                e["domain"] = ch.pick(f"{i}.domain", DOMAINS)
            c["els"].append(e)
        c["arcs"] = ch.flag("definition arcs")
        return c

    return go


def declare(e, i, N, ns):
    """the declaration of an element, in the prefixes of its schema"""
    a, extra = [("name", e["name"])], ""
    if e["id"]:
        a.append(("id", f"{ns}_{i}" if e["id"] == "own" else "same" + ns))
    g = GROUPS[e["group"]][0]
    if g:
        uri, local = g
        if uri not in N.back:
            extra += f' xmlns:lb="{uri}"'
            a.append(("substitutionGroup", f"lb:{local}"))
        else:
            a.append(("substitutionGroup", N.q(uri, local)))
    t = TYPES[e["type"]]
    if t:
        a.append(("type", N.q(*t)))
    for x in ("abstract", "nillable"):
        if e[x] is not None:
            a.append((x, e[x]))
    for x, uri, local in (("period", xb.XBRLI, "periodType"), ("balance", xb.XBRLI, "balance")):
        if e[x] is not None:
            name, decl = N.attr(uri, local)
            a.append((name, e[x]))
            extra += decl if decl not in extra else ""
    if e.get("domain", "none") != "none":
        name, decl = N.attr(xb.XBRLDT, "typedDomainRef")
        other = "u" if e["in"] == "t" else "t"
        ref = {"here": f"#dom_{e['in']}", "there": f"{other}.xsd#dom_{other}", "simple": f"#simple_{e['in']}", "complex": f"{other}.xsd#complex_{other}", "missing": "#nothing", "xs type": f"{e['in']}.xsd#int_{e['in']}"}[e["domain"]]
        a.append((name, ref))
        extra += decl if decl not in extra else ""
    x = N.q(xb.XS, "")
    s = f"<{x}element{extra}{xb.attrs(dict(a))}/>"
    if e["place"] == "commented":
        return f"<!-- {s} -->\n"
    if e["place"] == "local":
        return f'<{x}complexType name="ct{i}"><{x}sequence>{s}</{x}sequence></{x}complexType>\n'
    if e["place"] == "group":
        return f'<{x}group name="gr{i}"><{x}choice>{s}</{x}choice></{x}group>\n'
    return s + "\n"


def the_schema(ns, uri, style, els, imports, refs=()):
    N = Names(style)
    x = N.q(xb.XS, "")
    d = dict(N.ns)
    out = [f'<?xml version="1.0"?>\n<{x}schema{xb.nsdecl(d)} targetNamespace="{uri}">\n']
    for r in refs:
        out.append(
            f'<{x}annotation><{x}appinfo><lk:linkbaseRef xmlns:lk="{xb.LINK}" xmlns:xlink="{xb.XLINK}" xlink:type="simple" xlink:href="{r}" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/></{x}appinfo></{x}annotation>\n'
        )
    for i in imports:
        out.append(i.replace("<import", f"<{x}import"))
    if ns == "u":
        p, decl = N.attr(xb.XBRLI, "periodType")
        head = lambda name, group, abstract="true": out.append(f'<{x}element{decl} name="{name}" abstract="{abstract}" type="{N.q(xb.XBRLI, "stringItemType")}" {p}="duration"' + (f' substitutionGroup="{group}"' if group else "") + "/>\n")
        head("headOne", N.q(*XI))
        head("headTwo", N.q(U, "headOne"))
        head("headDim", N.q(*XD))
        head("headCube", N.q(*XH))
        head("itemish", None)
        head("dimensionItem", N.q(U, "itemish"))
        head("circleitem", N.q(U, "circleitem"))
    for e, i in els:
        out.append(declare(e, i, N, ns))
    st = N.q(xb.XS, "string")
    out.append(f'<{x}element name="dom" id="dom_{ns}" type="{st}"/>\n<{x}element name="int" id="int_{ns}" type="{N.q(xb.XS, "int")}"/>\n')
    out.append(f'<{x}element name="simple" id="simple_{ns}"><{x}simpleType><{x}restriction base="{st}"/></{x}simpleType></{x}element>\n')
    out.append(f'<{x}element name="complex" id="complex_{ns}"><{x}complexType><{x}sequence><{x}element name="inner" type="{st}"/></{x}sequence></{x}complexType></{x}element>\n')
    out.append(f"</{x}schema>\n")
    return "".join(out)


def expected(case):
    """-> ({name: description}, number of broken declarations)"""
    out, broken = {}, 0
    for h, kind in (("headOne", "abstract"), ("headTwo", "abstract"), ("headDim", "dimension"), ("headCube", "hypercube")):
        out["{%s}%s" % (U, h)] = {"kind": kind, "id": None, **({"type": None} if kind == "dimension" else {})}
    for i, e in enumerate(case["els"]):
        kind = GROUPS[e["group"]][1]
        name = "{%s}%s" % (T if e["in"] == "t" else U, e["name"])
        if kind is None or e["place"] != "top":
            continue
        d = {"id": {"own": f"{e['in']}_{i}", None: None, "same": "same" + e["in"]}[e["id"]]}
        if kind == "hypercube":
            d["kind"] = "hypercube"
        elif kind == "dimension":
            d["kind"] = "dimension"
            dom = e["domain"]
            d["type"] = None
            if dom in ("here", "there", "simple"):
                d["type"] = [k_ for k_ in ["{%s}string" % xb.XS]]
            elif dom == "xs type":
                d["type"] = ["{%s}int" % xb.XS]
            elif dom == "complex":
                d["type"] = ["{%s}anyType" % xb.XS]
            elif dom == "missing":
                broken += 1
        elif e["type"] in ("domain", "other domain"):
            d["kind"] = "member"
        elif BOOLS[e["abstract"]]:
            d["kind"] = "lineitems" if "LineItems" in e["name"] else "abstract"
        else:
            d["kind"] = "concept"
            if e["period"] not in ("instant", "duration") or e["balance"] == "both" or e["nillable"] == "perhaps" or e["type"] == "missing":
                broken += 1
                continue
            st = Names(case["style"] if e["in"] == "t" else case["style2"])
            d.update(period=e["period"], balance=e["balance"], nillable=e["nillable"] in ("true", "1"), data=st.q(*TYPES[e["type"]]))
        out[name] = d
    return out, broken


def describe(e):
    from brel.reportelements import Abstract, Concept, Dimension, Hypercube, LineItems, Member

    kind = {Abstract: "abstract", Concept: "concept", Dimension: "dimension", Hypercube: "hypercube", LineItems: "lineitems", Member: "member"}[type(e)]
    d = {"kind": kind, "id": e.get_id()}
    if kind == "dimension":
        d["type"] = None if e.is_explicit() else [obs.clark(e.get_type())]
    if kind == "concept":
        d.update(period=e.get_period_type(), balance=e.get_balance_type(), nillable=e.is_nillable(), data=e.get_data_type())
    return d


STANDARD = (xb.XBRLI, xb.XBRLDT, xb.LINK, xb.XLINK)


def run(case):
    els = list(enumerate(case["els"]))
    imp = lambda u, l: f'<import namespace="{u}" schemaLocation="{l}"/>\n'
    link = []
    if case["arcs"]:
        tops = [(i, e) for i, e in els if e["id"] == "own" and e["place"] == "top" and GROUPS[e["group"]][1] and expected(case)[0].get("{%s}%s" % (T if e["in"] == "t" else U, e["name"]))]
        locs = [xb.locator(f"l{i}", f"{e['in']}.xsd#{e['in']}_{i}") for i, e in tops]
        arcs = [xb.arc("definitionArc", f"l{a[0]}", f"l{b[0]}", xb.DIM + "domain-member") for a, b in zip(tops, tops[1:])]
        link = [xb.link("definitionLink", xb.ROLE_LINK, locs + arcs)] if arcs else []
    two = [imp(T, "t.xsd"), imp(U, "u.xsd")]
    files = {
        "t.xsd": the_schema("t", T, case["style"], [(e, i) for i, e in els if e["in"] == "t"], [imp(U, "u.xsd")], ["def.xml"] if link else []),
        "u.xsd": the_schema("u", U, case["style2"], [(e, i) for i, e in els if e["in"] == "u"], [imp(T, "t.xsd")]),
        "i.xml": xb.instance({"schemaRefs": ["u.xsd", "t.xsd"] if case["second first"] else ["t.xsd"], "nsmap": k.NS}),
    }
    if link:
        files["def.xml"] = xb.linkbase(link)
    fl = obs.open_files(files, "i.xml")
    want, broken = expected(case)
    all_els = fl.get_all_report_elements()
    got = {}
    problems = []
    for e in all_els:
        n = obs.clark(e.get_name())
        if n.startswith(tuple("{" + s + "}" for s in STANDARD)):
            continue
        if n in got:
            problems.append(("twice", f"{n} is reported twice"))
        got[n] = describe(e)
    for n in sorted(set(got) | set(want)):
        if got.get(n) != want.get(n):
            problems.append((f"{(want.get(n) or {}).get('kind', 'no item')}", f"{n} is {got.get(n)}, want {want.get(n)}"))
    listings = {
        "concept": fl.get_all_concepts(),
        "abstract": fl.get_all_abstracts(),
        "hypercube": fl.get_all_hypercubes(),
        "dimension": fl.get_all_dimensions(),
        "lineitems": fl.get_all_line_items(),
        "member": fl.get_all_members(),
    }
    for kind, l in listings.items():
        if [id(e) for e in l] != [id(e) for e in all_els if describe(e)["kind"] == kind]:
            problems.append(("listing", f"the {kind} listing is {[str(e) for e in l]}"))
    errors = [str(e) for e in fl.get_all_errors()]
    if bool(errors) != bool(broken):
        problems.append(("errors", f"{broken} broken declarations, errors {errors}"))
    return Result([Violation(a, f"{b}   [{case}]") for a, b in problems])


def build_table(ch):
    """the whole decision table of one declaration"""
    e = {"in": "t", "group": ch.pick("group", list(GROUPS)), "abstract": ch.pick("abstract", list(BOOLS))}
    kind = GROUPS[e["group"]][1]
    if kind in ("hypercube", "dimension"):
        if not BOOLS[e["abstract"]]:
            raise Prune()
        e["type"] = "string"
    else:
        e["type"] = ch.pick("type", list(TYPES))
    e["name"] = ch.pick("name", NAMES[:4])
    e["period"] = ch.pick("period", ["duration", "instant", None, "forever"]) if kind == "item" else "duration"
    e["balance"] = ch.pick("balance", [None, "debit", "credit", "both"]) if kind == "item" else None
    e["nillable"] = ch.pick("nillable", ["true", None, "false", "1", "0", "perhaps"]) if e["group"] == "item" and e["type"] in ("monetary", "domain") else "true"
    e["domain"] = ch.pick("domain", DOMAINS) if kind == "dimension" else "none"
    return {"style": "usual", "style2": "usual", "second first": False, "arcs": False, "els": [dict(e, id="own", place="top")]}


def scenarios(tier):
    q = tier != "thorough"
    return [
        Scenario("table", build_table, run, {"quick": 4, "thorough": None}, "all rows of the decision table of one declaration"),
        Scenario("one", build(1, 1), run, {"quick": 3, "thorough": 4}, "one declaration"),
        Scenario("schemas", build(2, 2 if q else 3), run, {"quick": 2, "thorough": 3}, "declarations in two schemas"),
    ]
