"""P09: networks mirror the declared relationships exactly."""
import itertools

import nets
import obs
import xb
from core import Prune, Result, Scenario, Violation, borrowed

TECHNIQUE = "explicit-state enumeration of all relationship graphs over a few elements and of all spellings of their arcs (order, weight, preferred label, arc roles, shared labels, several locators, layouts); every state is written as a linkbase, opened with Filing.open, and the reported networks and all their traversals are compared with the graph"
ASSUMPTIONS = [
    "relationships that cannot be reached from any root (components of the graph that are pure cycles) cannot be represented by a network and are not expected",
    "use='prohibited' and priorities are not covered",
]
KINDS = ("presentation", "calculation", "definition")


def result(sc, problems, case):
    return Result([Violation(f"{sc}:{k}", m + f"   [{case}]") for k, m in problems])


# ------------------------------------------------------------------ all graphs
ORDERS = [1.5, 1, 3, 2.25, 10, 2, 0.5, 7, 4, 1.75, 6, 5]


def build_graphs(n, loops):
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b or loops]

    def build(ch):
        kind = ch.pick("kind", KINDS, free=True)
        edges = [p for p in pairs if ch.flag(f"{p}", free=True)]
        return {"kind": kind, "n": n, "edges": edges, "locs": ch.pick("locs", ["shared", "own"], free=True)}

    return build


def graph_link(kind, n, edges, locs="shared", role=nets.R1):
    l = {"kind": kind, "role": role, "locs": [], "arcs": []}
    if locs == "shared":
        l["locs"] = [(nets.NAMES[i], nets.NAMES[i]) for i in range(n)]
    else:
        l["locs"] = [("L" + nets.NAMES[i], nets.NAMES[i]) for i in range(n) if not any(i in e for e in edges)]
    for i, (a, b) in enumerate(edges):
        at = {"order": str(ORDERS[i % len(ORDERS)])}
        if kind == "calculation":
            at["weight"] = ["1", "-1", "0.5"][i % 3]
        if kind == "presentation" and i % 2:
            at["preferredLabel"] = f"http://ex.org/role/pl{i % 3}"
        la, lb = nets.NAMES[a], nets.NAMES[b]
        if locs == "own":
            la, lb = f"f{i}", f"t{i}"
            l["locs"] += [(la, nets.NAMES[a]), (lb, nets.NAMES[b])]
        l["arcs"].append((la, lb, nets.ROLE_OF[kind], at))
    return l


def run_graphs(case):
    l = graph_link(case["kind"], case["n"], case["edges"], case["locs"])
    fl = obs.open_files(nets.documents([[l]], case["n"]), "i.xml")
    return result("graphs", nets.check(fl, [[l]]), case)


# ------------------------------------------------------------------ arc spellings
SHAPES = {
    "chain": [(0, 1), (1, 2)],
    "fork": [(0, 1), (0, 2), (0, 3)],
    "diamond": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "multi": [(0, 1), (0, 1), (0, 2)],
}
ORDER = [None, "1", "1.0", "2", "0", "-1", "1.5", "1.25", "10", "+3", ".5", "007", "1000000", " 2 ", "4."]
WEIGHT = ["1", "-1", "1.0", "-0.5", "2"]
PREF = [None, xb.LBL, "http://www.xbrl.org/2003/role/totalLabel", "http://ex.org/role/own"]


def build_arcs(ch):
    kind = ch.pick("kind", KINDS, free=True)
    shape = ch.pick("shape", list(SHAPES), free=True)
    es = SHAPES[shape]
    arcs = []
    for i, e in enumerate(es):
        a = {"order": ch.pick(f"order{i}", [str(len(es) - i)] + ORDER)}
        if kind == "calculation":
            a["weight"] = ch.pick(f"weight{i}", WEIGHT)
        if kind == "presentation":
            a["preferredLabel"] = ch.pick(f"pref{i}", PREF)
        if kind == "definition":
            a["role"] = ch.pick(f"role{i}", [nets.AR_GS, nets.AR_EA])
        arcs.append(a)
    return {
        "kind": kind,
        "shape": shape,
        "arcs": arcs,
        "layout": ch.pick("layout", ["locs", "arcs", "reverse", "mixed"]),
        "prefix": ch.pick("prefix", ["link", "", "l"]),
        "locs": ch.pick("locs", ["shared", "own", "twice", "letter case"]),
        "isolated": ch.flag("isolated"),
        "comment": ch.flag("comment"),
    }


def run_arcs(case):
    kind, es = case["kind"], SHAPES[case["shape"]]
    l = {"kind": kind, "role": nets.R1, "locs": [], "arcs": [], "layout": case["layout"]}
    N = nets.NAMES
    multi = case["shape"] == "multi"
    used = sorted({x for e in es for x in e})
    if case["locs"] != "own":
        l["locs"] = [(N[i], N[i]) for i in used]
        if case["locs"] == "twice":
            l["locs"] += [(N[i], N[i]) for i in used[:1]]
        if multi:
            l["locs"].append(("B2", "B"))
    for i, ((a, b), s) in enumerate(zip(es, case["arcs"])):
        at = {k: v for k, v in s.items() if k != "role" and v is not None}
        la, lb = N[a], N[b]
        if case["locs"] == "own":
            la, lb = f"f{i}", f"t{i}"
            l["locs"] += [(la, N[a]), (lb, N[b])]
        elif multi and i == 1:
            lb = "B2"
        l["arcs"].append((la, lb, s.get("role", nets.ROLE_OF[kind]), at))
    if case["isolated"]:
        l["locs"].append(("iso", "E"))
    if case["locs"] == "letter case":
        other = {"A": "x", "B": "X", "C": "xx", "D": "xX", "E": "XX", "B2": "Xx"}
        l["locs"] = [(other.get(a, a), e) for a, e in l["locs"]]
        l["arcs"] = [(other.get(a, a), other.get(b, b), *r) for a, b, *r in l["arcs"]]
    docs = nets.documents([[l]], 5, prefix=case["prefix"])
    if case["comment"]:
        docs["lb0.xml"] = docs["lb0.xml"].replace("/>\n", "/><!-- c --><?pi x?>\n")
    fl = obs.open_files(docs, "i.xml")
    ps = nets.check(fl, [[l]])
    if fl.get_all_errors():
        ps.append(("errors", f"{[str(e) for e in fl.get_all_errors()]}"))
    return result("arcs", ps, case)


# ------------------------------------------------------------------ labels shared by locators
def build_labels(ch):
    """every assignment of 4 elements to 3 labels, and every set of arcs between the labels"""
    kind = ch.pick("kind", KINDS, free=True)
    labs = [ch.pick(f"lab{i}", ["x", "X", "z"], free=True) for i in range(4)]
    arcs = [p for p in itertools.permutations("xXz", 2) if p[0] in labs and p[1] in labs and ch.flag(str(p), free=True)]
    return {"kind": kind, "labs": labs, "arcs": arcs}


def run_labels(case):
    kind = case["kind"]
    l = {"kind": kind, "role": nets.R1, "locs": [(x, nets.NAMES[i]) for i, x in enumerate(case["labs"])], "arcs": []}
    for i, (a, b) in enumerate(case["arcs"]):
        at = {"order": str(6 - i)}
        if kind == "calculation":
            at["weight"] = "1"
        l["arcs"].append((a, b, nets.ROLE_OF[kind], at))
    fl = obs.open_files(nets.documents([[l]], 4), "i.xml")
    return result("labels", nets.check(fl, [[l]]), case)


# ------------------------------------------------------------------ several roles and kinds
def build_roles(ch):
    """three links, each with its role, kind and graph"""
    links = []
    for i in range(3):
        links.append(
            {
                "role": ch.pick(f"role{i}", [nets.R1, nets.R2], free=True),
                "kind": ch.pick(f"kind{i}", KINDS, free=True),
                "edges": ch.pick(f"graph{i}", [[(0, 1)], [(1, 2)], [(0, 2), (2, 1)]], free=True),
            }
        )
    return {"links": links, "files": ch.pick("files", [1, 3], free=True)}


def run_roles(case):
    ls = [graph_link(l["kind"], 0, l["edges"], "own", l["role"]) for l in case["links"]]
    for i, l in enumerate(ls):
        for j, a in enumerate(l["arcs"]):
            a[3]["order"] = str(10 * i + j)
    files = [ls] if case["files"] == 1 else [[l] for l in ls]
    fl = obs.open_files(nets.documents(files, 3, (nets.R1, nets.R2)), "i.xml")
    return result("roles", nets.check(fl, files, (nets.R1, nets.R2)), case)


# ------------------------------------------------------------------ arc roles of definition links
def build_arcroles(ch):
    n = 3
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    edges = []
    for p in pairs:
        r = ch.pick(str(p), [None, "gs", "ea", "both"], free=True)
        if r:
            edges.append((p, r))
    return {"edges": edges}


def run_arcroles(case):
    l = {"kind": "definition", "role": nets.R1, "locs": [(x, x) for x in "ABC"], "arcs": []}
    for i, ((a, b), r) in enumerate(case["edges"]):
        for k, ar in (("gs", nets.AR_GS), ("ea", nets.AR_EA)):
            if r in (k, "both"):
                l["arcs"].append((nets.NAMES[a], nets.NAMES[b], ar, {"order": str(7 - i)}))
    fl = obs.open_files(nets.documents([[l]], 3), "i.xml")
    return result("arcroles", nets.check(fl, [[l]]), case)


def scenarios(tier):
    q = tier != "thorough"
    return [
        *borrowed("p10", tier, three=0),
        *borrowed("p13", tier, texts=1),
        *borrowed("p11", tier, refs=0),
        Scenario("graphs", build_graphs(3, True), run_graphs, desc="all directed graphs with loops over 3 elements"),
        Scenario("graphs4", build_graphs(4, False) if not q else build_graphs4_quick, run_graphs, desc="directed graphs over 4 elements (quick: at most 4 relationships, presentation links)"),
        Scenario("arcs", build_arcs, run_arcs, {"quick": 2, "thorough": 3}, "spellings of arcs, locators and layouts"),
        Scenario("labels", build_labels, run_labels, desc="labels that stand for several elements: all assignments and all arcs"),
        Scenario("roles", build_roles, run_roles, desc="three links over two roles, all kinds"),
        Scenario("arcroles", build_arcroles, run_arcroles, desc="all graphs over 3 elements whose relationships have one or both of two arc roles"),
    ]


def build_graphs4_quick(ch):
    pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
    edges = []
    for p in pairs:
        if len(edges) < 4 and ch.flag(str(p), free=True):
            edges.append(p)
    return {"kind": "presentation", "n": 4, "edges": edges, "locs": ch.pick("locs", ["own", "shared"], free=True)}
