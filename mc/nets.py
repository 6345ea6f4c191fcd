"""Relationship networks: abstract links -> documents, what they denote, and what brel reports.

A link is {"kind", "role", "locs": [(label, element)], "arcs": [(from label, to label, arcrole,
attrs)], "layout"}; a file is a list of links."""
from collections import defaultdict

import obs
import xb

T = "http://ex.org/t"
R1, R2, R3 = "http://ex.org/role/1", "http://ex.org/role/2", "http://ex.org/role/3"
NAMES = "ABCDEFGH"
ARC = {"presentation": "presentationArc", "calculation": "calculationArc", "definition": "definitionArc"}
ROLE_OF = {"presentation": xb.AR_PC, "calculation": xb.AR_SUM, "definition": "http://www.xbrl.org/2003/arcrole/general-special"}
AR_GS = ROLE_OF["definition"]
AR_EA = "http://www.xbrl.org/2003/arcrole/essence-alias"


def schema(n, roles, refs=(), extra=(), **el):
    return xb.schema(
        {
            "ns": T,
            "prefix": "t",
            "elements": [{"n": NAMES[i], "kind": "concept", **el} for i in range(n)] + list(extra),
            "roles": [
                {"uri": r, "id": f"r{i}", "definition": f"def {r}", "usedOn": ["link:presentationLink", "link:calculationLink", "link:definitionLink"]}
                for i, r in enumerate(roles)
            ],
            "refs": refs,
        }
    )


INSTANCE = (
    '<?xml version="1.0"?>\n<xbrli:xbrl' + xb.nsdecl(xb.STD_NS) + '><link:schemaRef xlink:type="simple" xlink:href="t.xsd"/></xbrli:xbrl>'
)


def link_xml(l):
    kind = l["kind"]
    locs = [xb.locator(lab, l.get("href", "t.xsd#t_") + el) for lab, el in l["locs"]]
    arcs = [xb.arc(l.get("arc") or ARC[kind], f, t, ar, **at) for f, t, ar, at in l["arcs"]]
    lay = l.get("layout", "locs")
    if lay == "arcs":
        body = arcs + locs
    elif lay == "reverse":
        body = (locs + arcs)[::-1]
    elif lay == "mixed":
        body = []
        ls, as_ = list(locs), list(arcs)
        while ls or as_:
            body += ls[:1] + as_[:1]
            ls, as_ = ls[1:], as_[1:]
    else:
        body = locs + arcs
    return xb.link(kind + "Link", l["role"], body)


def linkbase(links, prefix="link"):
    s = xb.linkbase([link_xml(l) for l in links])
    if prefix == "":
        s = s.replace("xmlns:link=", "xmlns=").replace("<link:", "<").replace("</link:", "</")
    elif prefix != "link":
        s = s.replace("xmlns:link=", f"xmlns:{prefix}=").replace("<link:", f"<{prefix}:").replace("</link:", f"</{prefix}:")
    return s


def documents(files, n, roles=(R1,), prefix="link", **el):
    out = {"i.xml": INSTANCE}
    names = [f"lb{i}.xml" for i in range(len(files))]
    out["t.xsd"] = schema(n, roles, refs=names, **el)
    for name, links in zip(names, files):
        out[name] = linkbase(links, prefix)
    return out


# ------------------------------------------------------------------ denotation
def relationships(link):
    """All (from, to, arcrole, order, weight, preferred label) of a link"""
    ends = defaultdict(list)
    for lab, el in link["locs"]:
        ends[lab].append(el)
    out = []
    for f, t, ar, at in link["arcs"]:
        for a in dict.fromkeys(ends[f]):
            for b in dict.fromkeys(ends[t]):
                out.append(
                    (
                        a,
                        b,
                        ar,
                        float(at.get("order", 1)),
                        float(at.get("weight", 0)) if link["kind"] == "calculation" else None,
                        at.get("preferredLabel") if link["kind"] == "presentation" else None,
                    )
                )
    return out


def denote(links):
    """The logical network of links of one role and kind:
    {"roots": [...], "rels": [...]}: only what can be reached from a root."""
    rels = list(dict.fromkeys(r for l in links for r in relationships(l)))
    els = list(dict.fromkeys(el for l in links for _, el in l["locs"]))
    targets = {r[1] for r in rels}
    roots = [e for e in els if e not in targets]
    reach, todo = set(), list(roots)
    while todo:
        e = todo.pop()
        if e in reach:
            continue
        reach.add(e)
        todo += [r[1] for r in rels if r[0] == e]
    if not roots:
        return None
    pref = any(l["kind"] == "presentation" for l in links)
    rels = [list(r[:5]) + [(r[5] or xb.LBL) if pref else None] for r in rels if r[0] in reach]
    return {"roots": sorted(roots), "rels": sorted(rels, key=str)}


def denote_physical(link):
    """arc role -> denotation; isolated locators under "unknown\""""
    out = {}
    rels = relationships(link)
    for ar in dict.fromkeys(r[2] for r in rels):
        sub = dict(link, arcs=[a for a in link["arcs"] if a[2] == ar])
        used = {e for r in rels if r[2] == ar for e in r[:2]}
        sub["locs"] = [x for x in link["locs"] if x[1] in used]
        out[ar] = denote([sub])
    conn = {e for r in rels for e in r[:2]}
    iso = [x for x in link["locs"] if x[1] not in conn]
    if iso:
        out["unknown"] = denote([dict(link, arcs=[], locs=iso)])
    return {k: v for k, v in out.items() if v}


# ------------------------------------------------------------------ observation
def name(node):
    if node.points_to() == "report element":
        q = node.get_report_element().get_name()
        return q.get_local_name() if q.get_URL() == T else obs.clark(q)
    return str(obs.foot_end(node))


def observe(net, problems, what=""):
    """-> {"roots", "rels"}; appends to `problems` what is wrong whatever the relationships"""
    if net is None:
        return None
    from brel.networks import CalculationNetworkNode, PresentationNetworkNode

    nodes, seen = [], set()
    for _, n in obs.walk(net):
        if id(n) not in seen:
            seen.add(id(n))
            nodes.append(n)
    kids = {}
    rels = []
    for n in nodes:
        ch = []
        for c in n.get_children():
            ch.append(
                (
                    name(n),
                    name(c),
                    c.get_arc_role(),
                    float(c.get_order()),
                    float(c.get_weight()) if isinstance(c, CalculationNetworkNode) else None,
                    c.get_preferred_label_role() if isinstance(c, PresentationNetworkNode) else None,
                )
            )
        if [x[3] for x in ch] != sorted(x[3] for x in ch):
            problems.append(("order", f"{what}: the children of {name(n)} are not in ascending order: {[(x[1], x[3]) for x in ch]}"))
        k = name(n)
        if k in kids and sorted(map(str, kids[k])) != sorted(map(str, ch)):
            problems.append(("children", f"{what}: {k} has different children in different places: {kids[k]} and {ch}"))
        if k not in kids:
            kids[k] = ch
            rels += ch
    roots = [name(r) for r in net.get_roots()]
    if len(set(roots)) != len(roots):
        problems.append(("roots", f"{what}: roots {roots}"))
    return {"roots": sorted(roots), "rels": sorted([list(r) for r in rels], key=str)}


def unfold(node, path=()):
    """preorder (depth, node), stopping where a node is its own ancestor"""
    out = [(len(path), node)]
    if any(p is node for p in path):
        return out
    for c in node.get_children():
        out += unfold(c, path + (node,))
    return out


def cyclic(net):
    color = {}

    def dfs(n):
        color[id(n)] = 1
        for c in n.get_children():
            s = color.get(id(c), 0)
            if s == 1 or (s == 0 and dfs(c)):
                return True
        color[id(n)] = 2
        return False

    return any(color.get(id(r), 0) == 0 and dfs(r) for r in net.get_roots())


def traversals(net, problems, what=""):
    """The derived views of a network visit every node exactly as the children lists say."""
    import contextlib
    import io

    from brel.utils import pprint

    every = []
    for _, n in obs.walk(net):
        if not any(n is m for m in every):
            every.append(n)
    alln = net.get_all_nodes()
    if len(alln) != len(every) or {id(n) for n in alln} != {id(n) for n in every}:
        problems.append(("all-nodes", f"{what}: get_all_nodes has {sorted(map(name, alln))}, the network {sorted(map(name, every))}"))
    roles = net.get_arc_roles()
    if sorted(roles) != sorted({n.get_arc_role() for n in every}):
        problems.append(("arc-roles", f"{what}: get_arc_roles is {roles}"))
    for n in every:
        want, todo = {}, list(n.get_children())
        while todo:
            m = todo.pop()
            if id(m) not in want:
                want[id(m)] = m
                todo += m.get_children()
        ds = n.get_all_descendants()
        got = {id(d) for d in ds}
        if got - {id(n)} != set(want) - {id(n)} or len(got) != len(ds):
            problems.append(("descendants", f"{what}: descendants of {name(n)}: {sorted(map(name, ds))}, want {sorted(map(name, want.values()))}"))
        if n.is_leaf() != (not n.get_children()):
            problems.append(("leaf", f"{what}: {name(n)}"))
    d = net.convert_to_dict()
    flat = []

    def rec(x, depth):
        flat.append([depth, x["arc_role"], float(x["order"])])
        for c in x["children"]:
            rec(c, depth + 1)

    for r in d["roots"]:
        rec(r, 0)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        pprint(net)
    lines = [l for l in buf.getvalue().splitlines() if "──" in l]
    if cyclic(net):
        if len(flat) < len(every):
            problems.append(("dict", f"{what}: {len(flat)} nodes in the dictionary, {len(every)} in the network"))
        for n in every:
            if not any(str(n.get_report_element()) in l for l in lines):
                problems.append(("print", f"{what}: {name(n)} is not printed: {lines}"))
    else:
        u = [x for r in net.get_roots() for x in unfold(r)]
        want = [[dep, n.get_arc_role(), float(n.get_order())] for dep, n in u]
        if flat != want:
            problems.append(("dict", f"{what}: dictionary {flat}, want {want}"))
        got = [(l.index("──") // 3, l) for l in lines]
        ok = len(got) == len(u) and all(g[0] == dep and str(n.get_report_element()) in g[1] for g, (dep, n) in zip(got, u))
        if not ok:
            problems.append(("print", f"{what}: printed {lines}, want {[(dep, name(n)) for dep, n in u]}"))
    if d["link_role"] != net.get_link_role():
        problems.append(("dict", f"{what}: link role {d['link_role']}"))


GET = {"presentation": "get_presentation_network", "calculation": "get_calculation_network", "definition": "get_definition_network"}


def component(fl, role):
    cs = [c for c in fl.get_all_components() if c.get_URI() == role]
    return cs[0] if len(cs) == 1 else None


def check(fl, files, roles=(R1,), views=True, physical=True):
    """-> list of (kind, message): networks of the filing that are not those of the files"""
    from brel.networks import DefinitionNetwork

    problems = []
    links = [l for f in files for l in f]
    for role in roles:
        c = component(fl, role)
        if c is None:
            problems.append(("component", f"no component {role}"))
            continue
        for kind in ("presentation", "calculation", "definition"):
            want = denote([l for l in links if l["role"] == role and l["kind"] == kind])
            net = getattr(c, GET[kind])()
            what = f"{kind} {role[-6:]}"
            got = observe(net, problems, what)
            if got != want:
                problems.append(("relationships", f"{what}: got {got}, want {want}"))
            if net is not None:
                if net.get_link_role() != role or net.is_physical():
                    problems.append(("network", f"{what}: role {net.get_link_role()}, physical {net.is_physical()}"))
                if net.get_link_name().get_local_name() != kind + "Link" or net.get_link_name().get_URL() != xb.LINK:
                    problems.append(("network", f"{what}: link name {net.get_link_name()}"))
                if views:
                    traversals(net, problems, what)
    if physical:
        want = []
        for l in links:
            if l["kind"] == "definition":
                want += [[l["role"], k, v] for k, v in denote_physical(l).items()]
        got = []
        for net in fl.get_all_physical_networks():
            if isinstance(net, DefinitionNetwork):
                o = observe(net, problems, "physical definition")
                rl = net.get_arc_roles()
                got.append([net.get_link_role(), rl[0] if len(rl) == 1 else rl, o])
        m, e = obs.diff_multiset(got, want)
        if m or e:
            problems.append(("physical", f"physical definition networks: missing {m}, extra {e}"))
    return problems
