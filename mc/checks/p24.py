"""P24: printed facts, networks and components show exactly what they contain."""
import contextlib
import io
import re

import common as k
import nets
import obs
import xb
from checks import p20
from core import Result, Scenario, Violation

TECHNIQUE = "explicit-state enumeration of all small lists of facts (over a pool of aspect combinations and awkward values), relationship graphs, resources and component texts; every state is opened with Filing.open, printed with brel.utils.pprint, and the printed text is parsed back and compared with the model"
ASSUMPTIONS = [
    "values have no line breaks and no '|' (the printed table has no escape for them)",
    "wrapping of long component headings at the width of the terminal is not judged",
    "an aspect that a fact does not have is printed as an empty cell or None",
]


def printed(what):
    from brel.utils import pprint

    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        pprint(what)
    return buf.getvalue()


def table(text):
    """-> list of rows (lists of cells), the first is the heading"""
    rows = [[c.strip() for c in l.strip()[1:-1].split("|")] for l in text.splitlines() if l.startswith("|")]
    return rows[1:]  # without the title


# ------------------------------------------------------------------ facts
POOL = {n: f for n, f in p20.POOL.items() if "\n" not in f["val"]}
POOL["markup"] = p20.M("Text", "c1", None, "[bold]x[/] :smile:")
POOL["two lines"] = p20.M("Text", "c1", None, "x")
ORDER = {"concept": "1", "period": "2", "entity": "3", "unit": "4"}


def run_facts(case):
    fs = [POOL[n] for n in case["facts"]]
    inst = xb.instance(
        {
            "schemaRefs": ["t.xsd", "u.xsd"],
            "nsmap": k.NS,
            "contexts": [p20.CTX[c] for c in dict.fromkeys(f["ctx"] for f in fs)],
            "units": p20.UNITS,
            "facts": [dict(f, id=None if f.get("noid") else f"f{i}") for i, f in enumerate(fs)],
        }
    )
    fl = obs.open_files({"i.xml": inst, "t.xsd": xb.schema(k.base_schema()), "u.xsd": xb.schema(k.other_schema())}, "i.xml")
    model = [p20.fact_model(f, i) for i, f in enumerate(fs)]
    facts = fl.get_all_facts()
    problems = []
    if [f.get_id() for f in facts] != [m["id"] for m in model]:
        return Result([Violation("facts:listing", f"{[f.get_id() for f in facts]} {case}")])
    rows = table(printed(facts))
    cols = sorted({a for m in model for a, _, _ in m["aspects"]}, key=lambda a: (ORDER.get(a, "5"), a))
    if not rows or rows[0] != ["id"] + cols + ["value"]:
        problems.append(("columns", f"{rows[:1]}, want {cols}"))
    else:
        want = []
        for m in model:
            d = {a: v for a, _, v in m["aspects"]}
            want.append([m["id"] or ""] + [d.get(c, "").strip() for c in cols] + [m["val"].strip()])
        got = [[x if w == len(cols) + 1 else {"None": ""}.get(x, x) for w, x in enumerate(r)] for r in rows[1:]]
        if sorted(got) != sorted(want):
            problems.append(("rows", f"{got}, want {want}"))
    for f, m in zip(facts, model):
        rows = table(printed(f))
        want = sorted([a, v.strip()] for a, _, v in m["aspects"])
        if rows[:1] != [["aspect", "value"]] or sorted(rows[1:-1]) != want or rows[-1] != ["value", m["val"].strip()]:
            problems.append(("fact", f"{rows}, want {want} and value {m['val']}"))
    return Result([Violation(f"facts:{a}", b + f"   [{case}]") for a, b in problems])


def build_facts(n):
    def build(ch):
        m = ch.pick("n", list(range(n, -1, -1)), free=True)
        return {"facts": [ch.pick(f"f{i}", list(POOL), free=True) for i in range(m)]}

    return build


def run_prefixes(case):
    fl = p20.open_prefixes(case)
    rows = table(printed(fl.get_all_facts()))
    problems = []
    if len(rows) != 3:
        problems.append(("rows", f"{rows}"))
    else:
        p20.judge_columns(case, [dict(zip(rows[0], r)) for r in rows[1:]], problems)
    return Result([Violation(f"prefixes:{a}", b + f"   [{case}]") for a, b in problems])


# ------------------------------------------------------------------ networks
def tree(text):
    """-> (heading lines, [(depth, header, text)])"""
    head, nodes = [], []
    for l in text.splitlines():
        m = re.match(r"((?:│  |   )*)(└──|├──)(.*)$", l)
        if m:
            nodes.append((len(m[1]) // 3, m[1] + m[2], m[3]))
        elif l.strip():
            head.append(l)
    return head, nodes


def wanted(roots):
    """[(header, node)] in the order in which they are to be printed"""
    out = []

    def go(node, header, last, anc):
        out.append((header + ("└──" if last else "├──"), node))
        if any(a is node for a in anc):
            return
        ch = node.get_children()
        for i, c in enumerate(ch):
            go(c, header + ("   " if last else "│  "), i == len(ch) - 1, anc + (node,))

    for i, r in enumerate(roots):
        go(r, "", i == len(roots) - 1, ())
    return out


def parts(node):
    """what the line of a node has to show"""
    out = []
    kind = node.points_to()
    if kind == "report element":
        out.append(str(node.get_report_element().get_name()))
    elif kind == "fact":
        out.append(str(node.get_fact()))
    else:
        r = node.get_resource()
        c = r.get_content()
        out += [str(v) for v in c.values()] if isinstance(c, dict) else [str(c)]
    if hasattr(node, "get_weight"):
        out.append(("weight", float(node.get_weight())))
    return out


def check_tree(what, text, roots, problems, heading=None):
    head, nodes = tree(text)
    want = wanted(roots)
    if [n[1] for n in nodes] != [w[0] for w in want]:
        problems.append(("shape", f"{what}: {[n[1:] for n in nodes]}, want {[w[0] for w in want]}"))
        return
    for (d, h, t), (_, node) in zip(nodes, want):
        names = re.split(r"[\s\]]+", t)
        for p in parts(node):
            if isinstance(p, tuple):
                m = re.search(r"W=\s*([-+.\deE]+)", t)
                ok = m and float(m[1]) == p[1]
            elif node.points_to() == "report element":
                ok = p in names
            else:
                ok = p in t
            if not ok:
                problems.append(("node", f"{what}: the line '{t}' does not show {p}"))
    for h in heading or []:
        if not any(h in l for l in head):
            problems.append(("heading", f"{what}: {head} does not show {h}"))


def check_networks(networks, problems):
    for n in networks:
        what = type(n).__name__
        check_tree(what, printed(n), n.get_roots(), problems, [n.get_link_role()])
        for r in n.get_roots():
            check_tree(what + " node", printed(r), [r], problems)


def build_graph(nn, kinds):
    pairs = [(a, b) for a in range(nn) for b in range(nn) if a != b]

    def build(ch):
        kind = ch.pick("kind", kinds, free=True)
        arcs = []
        for a, b in pairs:
            if ch.flag(f"{a}{b}", free=True):
                at = {"order": ch.pick(f"o{a}{b}", ["1", "2", "0.5"])}
                if kind == "calculation":
                    at["weight"] = ch.pick(f"w{a}{b}", ["1.0", "-1.0", "-12.5", "0.25", "1000000", "0.3333333333", "-0.0000001", "12345.678"])
                arcs.append([f"l{a}", f"l{b}", nets.ROLE_OF[kind], at])
        return {"kind": kind, "n": nn, "arcs": arcs}

    return build


def run_graph(case):
    link = {"kind": case["kind"], "role": nets.R1, "locs": [(f"l{i}", nets.NAMES[i]) for i in range(case["n"])], "arcs": [tuple(a) for a in case["arcs"]]}
    fl = obs.open_files(nets.documents([[link]], case["n"]), "i.xml")
    problems = []
    networks = [n for c in fl.get_all_components() for n in c.get_networks()] + fl.get_all_physical_networks()
    check_networks(networks, problems)
    for c in fl.get_all_components():
        check_component(c, nets.R1, f"def {nets.R1}", problems)
    return Result([Violation(f"graph:{a}", b + f"   [{case}]") for a, b in problems])


# ------------------------------------------------------------------ components
INFO = [
    "0001 - Statement - Balance Sheet",
    None,
    "Sheet [Abstract]",
    "a [/b] c",
    "[bold]x[/bold] [link=http://a]y[/link]",
    ":smile: and \\[x]",
    "a < b & c é表",
    "12.5 true None 'x' \"y\" http://ex.org/a?b=[c]",
]
URIS = ["http://ex.org/role/1", "http://ex.org/role/:100:", "urn:x:[red]", "http://ex.org/role/" + "long" * 30]
squeeze = lambda s: re.sub(r"\s+", "", s)


def check_component(c, uri, info, problems):
    text = printed(c)
    head = text.splitlines()
    first = next((i for i, l in enumerate(head) if l.startswith("Network (link role")), len(head))
    top = squeeze("".join(head[:first])).replace(squeeze("No networks in this component."), "")
    want = squeeze(f"Component: {uri}Info: {info or ''}")
    if top != want:
        problems.append(("heading", f"{top!r}, want {want!r}"))
    body = "\n".join(head[first:])
    got = re.split(r"(?m)^(?=Network \(link role)", body)
    got = [g for g in got if g.strip()]
    ns = c.get_networks()
    if len(got) != len(ns):
        problems.append(("networks", f"{len(got)} of {len(ns)} networks are printed"))
        return
    for g, n in zip(got, ns):
        check_tree("component", g, n.get_roots(), problems, [n.get_link_role()])


def build_components(ch):
    n = ch.pick("n", [1, 0, 2], free=True)
    uris = list(URIS)
    comps = []
    for i in range(n):
        u = ch.pick(f"uri{i}", uris)
        uris = [x for x in uris if x != u]
        comps.append([u, ch.pick(f"info{i}", INFO), "".join(x for x in "pcd" if ch.flag(f"{x}{i}"))])
    return {"comps": comps}


def run_components(case):
    from checks import p13

    roles, links = [], []
    for i, (u, info, ls) in enumerate(case["comps"]):
        roles.append({"uri": u, "id": f"c{i}", "definition": info, "usedOn": ["link:presentationLink", "link:calculationLink", "link:definitionLink"]})
        links += [p13.the_link(p13.LET[x], u, i) for x in ls]
    files = {
        "i.xml": nets.INSTANCE,
        "t.xsd": xb.schema({"ns": nets.T, "prefix": "t", "elements": [{"n": x} for x in nets.NAMES], "roles": roles, "refs": ["lb.xml"]}),
        "lb.xml": nets.linkbase(links),
    }
    fl = obs.open_files(files, "i.xml")
    problems = []
    comps = {c.get_URI(): c for c in fl.get_all_components()}
    if sorted(comps) != sorted(c[0] for c in case["comps"]):
        return Result([Violation("components:listing", f"{sorted(comps)} {case}")])
    for u, info, ls in case["comps"]:
        if len(comps[u].get_networks()) != len(ls):
            problems.append(("listing", f"networks of {u}"))
        check_component(comps[u], u, info, problems)
    if comps:
        text = printed(fl.get_all_components())
        if text != "".join(printed(c) for c in fl.get_all_components()):
            problems.append(("list", "the list of components is not printed like its components"))
    return Result([Violation(f"components:{a}", b + f"   [{case}]") for a, b in problems])


# ------------------------------------------------------------------ resources
TEXTS = ["plain", "a [b] c", "  padded ", "é表 & < >", "└── not a node", "x" * 200]


def build_resources(ch):
    out = []
    for i in range(ch.pick("n", [2, 1, 3], free=True)):
        out.append([ch.pick(f"k{i}", ["label", "reference"]), ch.pick(f"el{i}", ["A", "B"]), ch.pick(f"t{i}", TEXTS), ch.pick(f"lang{i}", ["en", "de-DE"]), ch.pick(f"r{i}", [xb.LBL, "http://ex.org/role/own"])])
    return {"res": out}


def run_resources(case):
    links = []
    for kind in ("label", "reference"):
        rs = [(i, r) for i, r in enumerate(case["res"]) if r[0] == kind]
        if not rs:
            continue
        els = list(dict.fromkeys(r[1] for _, r in rs))
        body = [xb.locator(f"l{e}", f"t.xsd#t_{e}") for e in els]
        for i, (_, e, t, lang, role) in rs:
            if kind == "label":
                body += [xb.resource("label", f"r{i}", t, role, lang), xb.arc("labelArc", f"l{e}", f"r{i}", xb.AR_LABEL)]
            else:
                part = f'<t:Part xmlns:t="{nets.T}">{xb.escape(t)}</t:Part>'
                body += [
                    f'<link:reference xlink:type="resource" xlink:label="r{i}" xlink:role="{role}">{part}</link:reference>',
                    xb.arc("referenceArc", f"l{e}", f"r{i}", "http://www.xbrl.org/2003/arcrole/concept-reference"),
                ]
        links.append(xb.link(kind + "Link", xb.ROLE_LINK, body))
    files = {"i.xml": nets.INSTANCE, "t.xsd": nets.schema(2, [], refs=["lb.xml"]), "lb.xml": xb.linkbase(links)}
    fl = obs.open_files(files, "i.xml")
    problems = []
    networks = fl.get_all_physical_networks()
    check_networks(networks, problems)
    shown = sorted(t for n in networks for _, _, t in tree(printed(n))[1])
    for kind, e, t, lang, role in case["res"]:
        need = [t, role.split("/")[-1]] + ([lang] if kind == "label" else [])
        if not any(all(x in s for x in need) for s in shown):
            problems.append(("resource", f"{need} is not printed: {shown}"))
    return Result([Violation(f"resources:{a}", b + f"   [{case}]") for a, b in problems])


def scenarios(tier):
    q = tier != "thorough"
    kinds = ["presentation", "calculation", "definition"]
    return [
        Scenario("facts", build_facts(2 if q else 3), run_facts, desc="all lists of facts from a pool, and each of them"),
        Scenario("prefixes", p20.build_prefixes, run_prefixes, {"quick": 2, "thorough": 4}, "dimensions of the same local name in namespaces with the same prefix"),
        Scenario("graph2", build_graph(2, kinds), run_graph, {"quick": 2, "thorough": 4}, "all graphs of two nodes"),
        Scenario("graph3", build_graph(3, kinds), run_graph, {"quick": 1, "thorough": 3}, "all graphs of three nodes"),
        Scenario("components", build_components, run_components, {"quick": 2, "thorough": 4}, "components with awkward texts and all combinations of networks"),
        Scenario("resources", build_resources, run_resources, {"quick": 2, "thorough": 4}, "labels and references"),
    ]
