"""P11: labels and references are attached to exactly their element."""
import itertools
import json
from collections import Counter

import common as k
import obs
import xb
from core import Prune, Result, Scenario, Violation

TECHNIQUE = "explicit-state enumeration of all attachments of a few label and reference resources to a few elements (shared and separate labels, locators, arcs, links and files), of resource contents, languages and roles, and of language requests; every state is opened with Filing.open and the labels and references reported on every element are compared with the declarations"
ASSUMPTIONS = ["reference parts of one reference have distinct local names (the API reports them as a dictionary by local name)"]
ELS = ("Cash", "Abs", "AxisA")
TOTAL = "http://www.xbrl.org/2003/role/totalLabel"
DOC = "http://www.xbrl.org/2003/role/documentation"
OWN = "http://ex.org/role/own"
R1 = "http://ex.org/role/1"
REF_NS = "http://www.xbrl.org/2004/ref"


def docs(files, embedded=(), **over):
    names = [f"lb{i}.xml" for i in range(len(files))]
    s = xb.schema(k.base_schema(refs=names, embedded=list(embedded), roles=[{"uri": R1, "id": "r1", "usedOn": ["link:labelLink", "link:referenceLink"]}], **over))
    i = xb.instance({"nsmap": {"t": k.T}, "schemaRefs": ["t.xsd"], "contexts": [k.CTX], "units": [k.USD], "facts": [{"id": "f", "c": "t:Cash", "ctx": "c1", "unit": "usd", "val": "1"}]})
    return {"t.xsd": s, "i.xml": i, **dict(zip(names, files))}


def linkbase(links, **a):
    s = xb.linkbase(links, nsmap={"ref": REF_NS})
    return s.replace("<link:linkbase", f"<link:linkbase{xb.attrs(a)}", 1)


def labels(fl):
    """element -> multiset of [text, language, role]"""
    out = {}
    for e in fl.get_all_report_elements():
        out[e.get_name().get_local_name()] = sorted([l.get_content(), l.get_language(), l.get_label_role()] for l in e.get_labels())
    return out


def references(fl):
    """element -> [role, parts, order], through the reference networks"""
    from brel.networks import ReferenceNetwork

    out = {}
    for net in fl.get_all_physical_networks():
        if not isinstance(net, ReferenceNetwork):
            continue
        for r in net.get_roots():
            if r.points_to() != "report element":
                out.setdefault("?", []).append(str(r.get_resource()))
                continue
            for c in r.get_children():
                out.setdefault(r.get_report_element().get_name().get_local_name(), []).append([c.get_resource().get_role(), sorted(c.get_resource().get_content().items()), float(c.get_order())])
    return {e: sorted(map(json.dumps, v)) for e, v in out.items()}


def network_labels(fl):
    """element -> labels, through the label networks"""
    from brel.networks import LabelNetwork

    out = {}
    for net in fl.get_all_physical_networks():
        if isinstance(net, LabelNetwork):
            for r in net.get_roots():
                if r.points_to() == "report element":
                    e = out.setdefault(r.get_report_element().get_name().get_local_name(), [])
                    e += [[c.get_resource().get_content(), c.get_resource().get_language(), c.get_resource().get_label_role()] for c in r.get_children()]
    return {e: sorted(v) for e, v in out.items() if v}


def compare(fl, want_labels, want_refs, ps):
    got = labels(fl)
    for e, l in got.items():
        w = sorted(want_labels.get(e, []))
        if l != w:
            ps.append(("labels", f"{e}: {l}, want {w}"))
    w = {e: sorted(v) for e, v in want_labels.items() if v}
    n = network_labels(fl)
    if n != w:
        ps.append(("label-network", f"{n}, want {w}"))
    al = Counter((d["report_element"].get_local_name(), d["text"], d["language"], d["label_role"]) for d in fl.get_all_labels())
    wl = Counter((e, *l) for e, v in want_labels.items() for l in v)
    if al != wl:
        ps.append(("all-labels", f"{al - wl} too much, {wl - al} missing"))
    for el in fl.get_all_report_elements():
        e = el.get_name().get_local_name()
        w = want_labels.get(e, [])
        for lang in {"en", "de", "x"} | {l[1] for l in w}:
            if el.has_label_with_language(lang) != any(l[1] == lang for l in w):
                ps.append(("has-language", f"{e} {lang}"))
        for role in {xb.LBL, TOTAL, "x"} | {l[2] for l in w}:
            if el.has_label_with_role(role) != any(l[2] == role for l in w):
                ps.append(("has-role", f"{e} {role}"))
        main = el.select_main_label()
        m = [main.get_content(), main.get_language(), main.get_label_role()]
        if w and m not in w:
            ps.append(("main", f"{e}: {m}"))
        if any(l[1] in ("en", "en-US") for l in w) and not m[1].startswith("en"):
            ps.append(("main", f"{e}: {m}, although there is an english label"))
    refs = references(fl)
    wr = {e: sorted(map(json.dumps, v)) for e, v in want_refs.items() if v}
    if refs != wr:
        ps.append(("references", f"{refs}, want {wr}"))


def result(name, fl, wl, wr, case, errors=False):
    ps = []
    compare(fl, wl, wr, ps)
    got = [str(e) for e in fl.get_all_errors()]
    if bool(got) != errors:
        ps.append(("errors", f"{got}"))
    return Result([Violation(f"{name}:{a}", b + f"   [{case}]") for a, b in ps])


# ------------------------------------------------------------------ all attachments
def build_attach(kind, maxarcs):
    def build(ch):
        el = {"Cash": "a", "Abs": ch.pick("Abs", ["b", "a"], free=True), "AxisA": ch.pick("AxisA", ["c", "b"], free=True)}
        if el["Abs"] == "a" and el["AxisA"] == "b":
            el["AxisA"] = "a"
        rs = {"r0": "A", "r1": ch.pick("r1", ["A", "B"], free=True), "r2": ch.pick("r2", ["B", "C"], free=True)}
        fl, rl = sorted(set(el.values())), sorted(set(rs.values()))
        arcs = []
        for p in itertools.product(fl, rl):
            if ch.flag(f"{p}", free=True):
                if len(arcs) == maxarcs:
                    raise Prune()
                arcs.append([*p, ch.pick("link", [0, 1, 2])])
        if not arcs:
            raise Prune()
        return {
            "kind": kind,
            "els": el,
            "res": rs,
            "arcs": arcs,
            "files": ch.pick("files", ["one", "each", "embedded"]),
            "layout": ch.pick("layout", ["normal", "arcs", "reverse", "mixed"]),
            "role": ch.pick("role", ["standard", "own", "first own"]),
            "twice": ch.flag("two locators of one element"),
            "lang": ch.pick("lang", ["same", "different"]),
        }

    return build


def resource(kind, lab, i, lang, n):
    """-> (xml, what it means)"""
    if kind == "label":
        t = f"label {n} of link"
        return xb.resource("label", lab, t, role=TOTAL if i % 2 else None, lang=lang), [t, lang, TOTAL if i % 2 else xb.LBL]
    parts = {"Name": f"ref {n}", "Number": str(i)}
    raw = "".join(f"<ref:{p}>{v}</ref:{p}>" for p, v in parts.items())
    return xb.resource("reference", lab, raw, role=OWN if i % 2 else None, raw=True), [OWN if i % 2 else xb.R_REF, sorted(parts.items())]


def arrange(locs, res, arcs, layout):
    b = {"normal": [*locs, *res, *arcs], "arcs": [*arcs, *res, *locs], "reverse": [*locs, *res, *arcs][::-1]}
    if layout == "mixed":
        return [x for t in itertools.zip_longest(arcs, res, locs) for x in t if x]
    return b[layout]


def run_attach(case):
    kind = case["kind"]
    links, wl, wr = [], {}, {}
    for n in range(3):
        arcs = [a for a in case["arcs"] if a[2] == n]
        if not arcs:
            continue
        used = {x for a in arcs for x in a[:2]}
        locs = [xb.locator(l, "t.xsd#t_" + e) for e, l in case["els"].items() if l in used]
        if case["twice"]:
            locs += locs[:1]
        res, mean = [], {}
        for i, (r, l) in enumerate(case["res"].items()):
            if l in used:
                x, m = resource(kind, l, i, "de" if case["lang"] == "different" and i else "en", f"{r}.{n}")
                res.append(x)
                mean.setdefault(l, []).append(m)
        xs = []
        for j, (f, t, _) in enumerate(arcs):
            order = str(len(arcs) - j)
            xs.append(xb.arc(kind + "Arc", f, t, xb.AR_LABEL if kind == "label" else xb.AR_REF, order=order))
            for e in [e for e, l in case["els"].items() if l == f]:
                for m in mean[t]:
                    (wl if kind == "label" else wr).setdefault(e, []).append(m if kind == "label" else [*m, float(order)])
        role = R1 if case["role"] == "own" or (case["role"] == "first own" and not links) else xb.ROLE_LINK
        links.append(xb.link(kind + "Link", role, arrange(locs, res, xs, case["layout"])))
    if case["files"] == "embedded":
        fs = docs([], embedded=["<link:linkbase>" + "".join(links) + "</link:linkbase>\n"])
        fs["t.xsd"] = fs["t.xsd"].replace("<xs:schema", f'<xs:schema xmlns:ref="{REF_NS}"', 1)
    elif case["files"] == "each":
        fs = docs([linkbase([l]) for l in links])
    else:
        fs = docs([linkbase(links)])
    return result("attach", obs.open_files(fs, "i.xml"), wl, wr, case)


# ------------------------------------------------------------------ content
TEXT = {
    "plain": ("a label", "a label"),
    "space": ("  two  words \n", "  two  words \n"),
    "entities": ("1 &lt; 2 &amp; &quot;3&quot; &#x20AC;", '1 < 2 & "3" €'),
    "cdata": ("<![CDATA[x <b> y]]>", "x <b> y"),
    "comment": ("one<!-- no --> two", "one two"),
    "comment first": ("<!-- no -->one", "one"),
    "pi": ("one<?p no?> two", "one two"),
    "markup": ('one <b xmlns="http://www.w3.org/1999/xhtml">two</b> three', "one two three"),
    "empty": ("", ""),
    "unicode": ("Überschuß 𝄞 脚注", "Überschuß 𝄞 脚注"),
}
LANG = ["en", "en-US", "de", ("link", "fr"), ("base", "it"), ("link over base", "fr")]
LROLE = [None, xb.LBL, TOTAL, DOC, OWN]


def build_content(ch):
    return {
        "text": ch.pick("text", list(TEXT), free=True),
        "lang": ch.pick("lang", LANG, free=True),
        "role": ch.pick("role", LROLE, free=True),
        "second": ch.pick("second", [None, "same", "lang", "role"], free=True),
        "prefix": ch.pick("prefix", ["link", "", "l"]),
        "id": ch.flag("id"),
        "label": ch.pick("label", ["x", "label_Cash", "a"]),
        "bad": ch.pick("bad", [None, "no lang", "to", "from", "dangling"]),
    }


def reprefix(s, p):
    if p == "link":
        return s
    c = p + ":" if p else ""
    return s.replace("xmlns:link=", f"xmlns{p and ':' + p}=").replace("<link:", "<" + c).replace("</link:", "</" + c)


def run_content(case):
    raw, text = TEXT[case["text"]]
    where, lang = case["lang"] if not isinstance(case["lang"], str) else (None, case["lang"])
    x = case["label"]
    res = [xb.resource("label", x, raw, role=case["role"], lang=None if where else lang, raw=True, **({"id": "lab"} if case["id"] else {}))]
    w = [[text, lang, case["role"] or xb.LBL]]
    s = case["second"]
    if s:
        l2, r2 = ("nl" if s == "lang" else lang), ("http://ex.org/role/second" if s == "role" else case["role"])
        res.append(xb.resource("label", x, "second", role=r2, lang=l2))
        w.append(["second", l2, r2 or xb.LBL])
    loc = [xb.locator("a" if x != "a" else "b", "t.xsd#t_Cash")]
    a = "a" if x != "a" else "b"
    arcs = [xb.arc("labelArc", a, x, xb.AR_LABEL)]
    bad = case["bad"]
    if bad == "no lang":
        res.append('<link:label xlink:type="resource" xlink:label="nl">no</link:label>')
        arcs.append(xb.arc("labelArc", a, "nl", xb.AR_LABEL))
        if where:
            # the language is inherited: not a defect
            w.append(["no", lang, xb.LBL])
    elif bad == "to":
        arcs.append(xb.arc("labelArc", a, "zz", xb.AR_LABEL))
    elif bad == "from":
        arcs.append(xb.arc("labelArc", "zz", x, xb.AR_LABEL))
    elif bad == "dangling":
        loc.append(xb.locator("d", "t.xsd#t_zz"))
        arcs.append(xb.arc("labelArc", "d", x, xb.AR_LABEL))
    l = xb.link("labelLink", xb.ROLE_LINK, loc + res + arcs, **({"xml:lang": "fr"} if where in ("link", "link over base") else {}))
    lb = reprefix(linkbase([l], **({"xml:lang": {"base": "it", "link over base": "es"}[where]} if where in ("base", "link over base") else {})), case["prefix"])
    return result("content", obs.open_files(docs([lb]), "i.xml"), {"Cash": w}, {}, case, errors=bool(bad) and not (bad == "no lang" and where))


PART = {
    "plain": ("IAS 1", "IAS 1"),
    "entities": ("a &amp; b &lt;", "a & b <"),
    "comment": ("a<!-- no -->b", "ab"),
    "space": ("  a b ", ("a b", "  a b ")),
    "cdata": ("<![CDATA[a<b]]>", "a<b"),
    "uri": ("http://ex.org/?a=1&amp;b=2#x", "http://ex.org/?a=1&b=2#x"),
    "empty": ("", ("", None)),
}


def build_refs(ch):
    return {
        "parts": [ch.pick(f"part{i}", list(PART), free=i < 2) for i in range(ch.pick("n", [2, 1, 0, 3], free=True))],
        "role": ch.pick("role", [None, xb.R_REF, OWN], free=True),
        "ns": ch.pick("ns", ["ref", "other", "two"]),
        "order": ch.pick("order", [None, "2", "0.5"]),
        "comment": ch.flag("comment between parts"),
        "prefix": ch.pick("prefix", ["link", "", "l"]),
        "label": ch.pick("label", ["x", "label_1", "footnote"]),
        "shared": ch.flag("shared"),
    }


def run_refs(case):
    names = ["Name", "Paragraph", "URI"]
    raw, want = "", []
    for i, p in enumerate(case["parts"]):
        pre = {"ref": "ref", "other": "o", "two": "ref" if i % 2 else "o"}[case["ns"]]
        raw += f"<{pre}:{names[i]}>{PART[p][0]}</{pre}:{names[i]}>\n"
        if case["comment"]:
            raw += "<!-- c --><?pi x?>"
        want.append((names[i], PART[p][1]))
    x = case["label"]
    locs = [xb.locator("a", "t.xsd#t_Cash")] + ([xb.locator("a", "t.xsd#t_Abs")] if case["shared"] else [])
    l = xb.link("referenceLink", xb.ROLE_LINK, locs + [xb.resource("reference", x, raw, role=case["role"], raw=True), xb.arc("referenceArc", "a", x, xb.AR_REF, order=case["order"])])
    lb = reprefix(xb.linkbase([l], nsmap={"ref": REF_NS, "o": "http://ex.org/parts"}), case["prefix"])
    fl = obs.open_files(docs([lb]), "i.xml")
    got = references(fl)
    ps = []
    els = ["Abs", "Cash"] if case["shared"] else ["Cash"]
    if sorted(got) != els:
        ps.append(("references", f"{got}"))
    for e in els:
        for g in got.get(e, [])[:1]:
            role, parts, order = json.loads(g)
            d = dict(parts)
            ok = set(d) == {n for n, _ in want} and all(d[n] == v or (isinstance(v, tuple) and d[n] in v) for n, v in want)
            if not ok or role != (case["role"] or xb.R_REF) or order != float(case["order"] or 1):
                ps.append(("parts", f"{role} {d} {order}, want {want}"))
        if len(got.get(e, [])) != 1:
            ps.append(("references", f"{got}"))
    if fl.get_all_errors():
        ps.append(("errors", f"{[str(e) for e in fl.get_all_errors()]}"))
    return Result([Violation(f"refs:{a}", b + f"   [{case}]") for a, b in ps])


# ------------------------------------------------------------------ elements of every kind, same names and ids elsewhere
KINDS = ["Cash", "Text", "Abs", "Cube", "AxisA", "AxisT", "M1", "StatementLineItems", "dom"]


def build_kinds(ch):
    return {
        "el": ch.pick("el", KINDS, free=True),
        "other": ch.pick("other", [None, "same id", "same name", "both", "in the instance", "other case"], free=True),
        "href": ch.pick("href", ["t.xsd#t_{}", "./t.xsd#t_{}", "sub/../t.xsd#t_{}"], free=True),
        "kind": ch.pick("kind", ["label", "reference"], free=True),
        "order": ch.pick("order", ["first", "last"], free=True),
        "deflink": ch.flag("deflink", free=True),
    }


def run_kinds(case):
    e = case["el"]
    kind = case["kind"]
    x, m = resource(kind, "x", 0, "en", "0")
    lb = linkbase([xb.link(kind + "Link", xb.ROLE_LINK, [xb.locator("a", case["href"].format(e)), x, xb.arc(kind + "Arc", "a", "x", xb.AR_LABEL if kind == "label" else xb.AR_REF)])])
    files = [lb]
    if case["deflink"]:
        D = xb.linkbase(
            [
                xb.link(
                    "definitionLink",
                    xb.ROLE_LINK,
                    [xb.locator(n, "t.xsd#t_" + n) for n in ("Cash", "Abs", "Cube", "AxisA", "M1", "M2", "StatementLineItems")]
                    + [
                        xb.arc("definitionArc", "Abs", "Cube", xb.DIM + "all", order="1", **{"xbrldt_contextElement": "segment"}),
                        xb.arc("definitionArc", "Cube", "AxisA", xb.DIM + "hypercube-dimension", order="1"),
                        xb.arc("definitionArc", "AxisA", "M1", xb.DIM + "dimension-domain", order="1"),
                        xb.arc("definitionArc", "M1", "M2", xb.DIM + "domain-member", order="1"),
                        xb.arc("definitionArc", "Abs", "Cash", xb.DIM + "domain-member", order="1"),
                        xb.arc("definitionArc", "Abs", "StatementLineItems", xb.DIM + "domain-member", order="2"),
                    ],
                )
            ]
        )
        files = [lb, D] if case["order"] == "first" else [D, lb]
    fs = docs(files)
    o = case["other"]
    if o in ("same id", "same name", "both"):
        s = k.other_schema()
        name = e if o != "same id" else "Zzz"
        s["elements"] = [{"n": name, "kind": "concept", "id": f"t_{e}" if o != "same name" else None}]
        if o == "same name":
            s["elements"][0]["id"] = "u_x"
        fs["u.xsd"] = xb.schema(s)
        if case["order"] == "first":
            fs["i.xml"] = fs["i.xml"].replace("<link:schemaRef", '<link:schemaRef xlink:type="simple" xlink:href="u.xsd"/><link:schemaRef', 1)
        else:
            fs["i.xml"] = fs["i.xml"].replace("<xbrli:context ", '<link:schemaRef xlink:type="simple" xlink:href="u.xsd"/><xbrli:context ', 1)
    elif o == "other case":
        d = f'<xs:element name="{e.upper()}X" id="{("t_" + e).upper()}" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>'
        i = fs["t.xsd"].index("<xs:element") if case["order"] == "first" else fs["t.xsd"].rindex("</xs:schema>")
        fs["t.xsd"] = fs["t.xsd"][:i] + d + fs["t.xsd"][i:]
    elif o == "in the instance":
        fs["i.xml"] = fs["i.xml"].replace('id="f"', f'id="t_{e}"')
    fl = obs.open_files(fs, "i.xml")
    ps = []
    got = {}
    for el in fl.get_all_report_elements():
        if el.get_labels():
            got[obs.clark(el.get_name())] = [[l.get_content(), l.get_language(), l.get_label_role()] for l in el.get_labels()]
    from brel.networks import ReferenceNetwork

    for net in fl.get_all_physical_networks():
        if isinstance(net, ReferenceNetwork):
            for r in net.get_roots():
                if r.points_to() == "report element":
                    got[obs.clark(r.get_report_element().get_name())] = [[c.get_resource().get_role(), sorted(c.get_resource().get_content().items())] for c in r.get_children()]
    want = {} if e == "dom" else {"{%s}%s" % (k.T, e): [m]}
    if got != want:
        ps.append(("element", f"{got}, want {want}"))
    if bool(fl.get_all_errors()) != (e == "dom"):
        ps.append(("errors", f"{[str(x) for x in fl.get_all_errors()]}"))
    return Result([Violation(f"kinds:{a}", b + f"   [{case}]") for a, b in ps])


# ------------------------------------------------------------------ choice of a label
CL = [("en", xb.LBL), ("de", xb.LBL), ("en-US", xb.LBL), ("en", TOTAL), ("de-CH", xb.LBL), ("fr", DOC)]


def build_choice(n):
    def build(ch):
        ls = []
        for i in range(n):
            x = ch.pick(f"l{i}", [None] + [c for c in range(len(CL)) if c not in ls], free=True)
            if x is None:
                break
            ls.append(x)
        return {"labels": ls, "el": ch.pick("el", ["Cash", "M1", "AxisA"], free=True)}

    return build


REQ = ["en", "de", "fr", "en-US", "de-CH", "EN", "it", ["it", "de"], ["de", "en"], ["fr", "en-US"]]


def run_choice(case):
    e = case["el"]
    ls = [(f"{l} {r[-5:]} {i}", l, r) for i, (l, r) in enumerate(CL[c] for c in case["labels"])]
    body = [xb.locator("a", "t.xsd#t_" + e)] + [xb.resource("label", "x", t, role=r, lang=l) for t, l, r in ls] + [xb.arc("labelArc", "a", "x", xb.AR_LABEL)]
    fl = obs.open_files(docs([linkbase([xb.link("labelLink", xb.ROLE_LINK, body)])]), "i.xml")
    ps = []
    idx = next(i for i, el in enumerate(fl.get_all_report_elements()) if el.get_name().get_local_name() == e)
    for req in REQ:
        langs = req if isinstance(req, list) else [req]
        for match in (True, False):
            fits = lambda want, have: want.lower() == have.lower() if match else want.split("-")[0].lower() == have.split("-")[0].lower()
            ok = next(([t for t, l, _ in ls if fits(w, l)] for w in langs if any(fits(w, l) for _, l, _ in ls)), None)
            try:
                df = fl.generate_report_elements_as_pandas_df(languages=req, match_locale=match, allow_system_language=False, allow_report_language=False, allow_default=True, allow_mixed=True)
            except Exception as x:
                ps.append(("exception", f"{req} {match}: {x!r}"))
                continue
            row = [v for v in df.iloc[idx].tolist() if isinstance(v, str)]
            if ok is not None and not any(v in ok for v in row):
                ps.append(("choice", f"languages {req}, match_locale {match}: {row}, want one of {ok}"))
            if ok is not None:
                other = [t for t, _, _ in ls if t not in ok]
                if any(v in other for v in row):
                    ps.append(("choice", f"languages {req}, match_locale {match}: {row}, not {other}"))
    return Result([Violation(f"choice:{a}", b + f"   [{case}]") for a, b in ps])


def scenarios(tier):
    q = tier != "thorough"
    return [
        Scenario("attach-labels", build_attach("label", 3 if q else 5), run_attach, {"quick": 1, "thorough": 2}, "labels: assignments of 3 elements and 3 resources to xlink labels x arcs x links x files x layouts", batch=8),
        Scenario("attach-references", build_attach("reference", 3 if q else 5), run_attach, {"quick": 1, "thorough": 2}, "the same for references", batch=8),
        Scenario("content", build_content, run_content, {"quick": 1, "thorough": 3}, "text x language x role of a label, a second label, and a defect next to it", batch=8),
        Scenario("refs", build_refs, run_refs, {"quick": 1, "thorough": 3}, "parts, roles and orders of a reference", batch=8),
        Scenario("kinds", build_kinds, run_kinds, None, "labels and references of elements of every kind, next to elements with the same id or name", batch=8),
        Scenario("choice", build_choice(3 if q else 5), run_choice, None, "sets of up to three labels x requested languages", batch=8),
    ]
