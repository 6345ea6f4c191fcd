"""P10: how relationships are split over links and files does not change the networks."""
import itertools

import nets
import obs
import xb
from core import Prune, Result, Scenario, Violation

TECHNIQUE = "explicit-state enumeration of all distributions of the arcs of small relationship graphs over extended links, linkbase files and schema-embedded linkbases, in all orders; every state is opened with Filing.open and its networks are compared with those of the undivided graph"
ASSUMPTIONS = [
    "the order of siblings whose arcs have equal order attributes, and the arc role reported for a root (which has no arc of its own), may depend on the distribution",
    "physical definition networks are per extended link by definition; they are compared with the relationships of each link",
]

SHAPES = {
    "chain": [("A", "B"), ("B", "C"), ("C", "D")],
    "star": [("A", "B"), ("A", "C"), ("A", "D")],
    "fork": [("A", "B"), ("B", "C"), ("B", "D")],
    "mixed": [("A", "B"), ("A", "C"), ("C", "D")],
    "roots": [("A", "C"), ("B", "C"), ("C", "D")],
    "forest": [("A", "B"), ("C", "D")],
    "diamond": [("A", "B"), ("A", "C"), ("B", "D"), ("C", "D")],
    "cycle": [("A", "B"), ("B", "C"), ("C", "B")],
    "loop": [("B", "C"), ("A", "B"), ("C", "A"), ("D", "A")],
}
ORD = ["2", "1", "3.5", "0.5"]


def the_arc(kind, i, a, b):
    at = {"order": ORD[i]}
    if kind == "calculation":
        at["weight"] = ["1", "-1", "0.5", "2"][i]
    if kind == "presentation":
        at["preferredLabel"] = f"http://ex.org/role/pl{i}"
    return (a, b, nets.ROLE_OF[kind], at)


def mklink(kind, arcs, style, layout, role=nets.R1, extra=()):
    l = {"kind": kind, "role": role, "locs": [], "arcs": [], "layout": layout}
    if style == "shared":
        l["locs"] = [(x, x) for x in dict.fromkeys(x for a in arcs for x in a[:2])]
        l["arcs"] = list(arcs)
    else:
        for i, (a, b, ar, at) in enumerate(arcs):
            l["locs"] += [(f"f{i}", a), (f"t{i}", b)]
            l["arcs"].append((f"f{i}", f"t{i}", ar, at))
    l["locs"] += [("x" + e, e) for e in extra]
    return l


def build(shapes, kinds):
    def b(ch):
        shape = ch.pick("shape", shapes, free=True)
        kind = ch.pick("kind", kinds, free=True)
        arcs = SHAPES[shape]
        # set partitions of the arcs into at most 3 links (restricted growth), then all orders
        where, top = [], 0
        for i in range(len(arcs)):
            w = ch.pick(f"link{i}", min(top + 1, 3), free=True)
            where.append(w)
            top = max(top, w + 1)
        n = top
        order = ch.pick("order", list(itertools.permutations(range(n))), free=True)
        files = []  # which links share a file: restricted growth again
        ft = 0
        for i in range(n):
            f = ch.pick(f"file{i}", min(ft + 1, 3), free=True)
            files.append(f)
            ft = max(ft, f + 1)
        return {
            "shape": shape,
            "kind": kind,
            "where": where,
            "order": order,
            "files": files,
            "style": ch.pick("style", ["shared", "own"]),
            "layout": ch.pick("layout", ["locs", "reverse", "arcs"]),
            "embed": ch.flag("embed"),  # the first file is embedded in the schema
            "chain": ch.flag("chain"),  # later files are found through the first only
            "iso": ch.pick("iso", [None, "B", "D"]),  # an extra locator without arcs
            "dup": ch.pick("dup", [None] + list(range(len(arcs)))),  # this arc also stands in the last link
        }

    return b


def run(case):
    kind = case["kind"]
    arcs = [the_arc(kind, i, a, b) for i, (a, b) in enumerate(SHAPES[case["shape"]])]
    n = max(case["where"]) + 1
    links = []
    for j in range(n):
        mine = [a for a, w in zip(arcs, case["where"]) if w == j]
        if case["layout"] == "reverse":
            mine = mine[::-1]
        if j == n - 1 and case["dup"] is not None and case["where"][case["dup"]] != j:
            mine.append(arcs[case["dup"]])
        links.append(mklink(kind, mine, case["style"], case["layout"], extra=[case["iso"]] if case["iso"] and j == 0 else []))
    links = [links[j] for j in case["order"]]
    nf = max(case["files"]) + 1
    files = [[l for l, f in zip(links, case["files"]) if f == i] for i in range(nf)]
    whole = mklink(kind, arcs, "shared", "locs", extra=[case["iso"]] if case["iso"] else [])
    docs = nets.documents(files, 4)
    if case["embed"]:
        body = "".join(nets.link_xml(l) for l in files[0])
        docs["t.xsd"] = docs["t.xsd"].replace(
            "</xs:appinfo>", f"<link:linkbase>{body}</link:linkbase></xs:appinfo>"
        ).replace('<link:linkbaseRef xlink:type="simple" xlink:href="lb0.xml" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>\n', "")
        docs.pop("lb0.xml")
    elif case["chain"] and nf > 1:
        ref = '<link:loc xlink:type="locator" xlink:href="lb%d.xml#x" xlink:label="z"/>'
        for i in range(1, nf):
            docs["t.xsd"] = docs["t.xsd"].replace(f'<link:linkbaseRef xlink:type="simple" xlink:href="lb{i}.xml" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>\n', "")
            docs[f"lb{i-1}.xml"] = docs[f"lb{i-1}.xml"].replace("<link:linkbase", "<link:linkbase", 1).replace(
                "</link:linkbase>", f'<link:arcroleRef xlink:type="simple" arcroleURI="http://ex.org/ar{i}" xlink:href="lb{i}.xml#q"/></link:linkbase>'
            )
    fl = obs.open_files(docs, "i.xml")
    problems = []
    c = nets.component(fl, nets.R1)
    want = nets.denote([whole])
    got = nets.observe(getattr(c, nets.GET[kind])() if c else None, problems, kind)
    if got != want:
        problems.append(("network", f"got {got}, want {want}"))
    problems += nets.check(fl, files, views=False)
    return Result([Violation(f"split:{k}", m + f"   [{case}]") for k, m in problems])


def scenarios(tier):
    q = tier != "thorough"
    small = ["chain", "star", "fork", "mixed", "roots", "forest", "cycle"]
    return [
        Scenario("three", build(small, list(nets.GET)), run, {"quick": 2, "thorough": None}, "graphs of up to 3 relationships: all distributions over up to 3 links and files, in all orders"),
        Scenario("four", build(["diamond", "loop"], ["presentation"] if q else list(nets.GET)), run, {"quick": 0, "thorough": 2}, "graphs of 4 relationships: all distributions over up to 3 links and files, in all orders"),
    ]
