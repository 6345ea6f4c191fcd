"""P13: every declared role is one component holding exactly its own networks."""
import itertools

import nets
import obs
import xb
from core import Prune, Result, Scenario, Violation, borrowed

TECHNIQUE = "explicit-state enumeration of all sets of declared roles x declared uses x links present per kind x distribution over schemas and linkbases; every state is opened with Filing.open and its components, their networks and the recorded usage errors are compared with the declarations"
ASSUMPTIONS = [
    "declarations of one role in several schemas are equal, as XBRL 2.1 requires",
    "definition texts are compared without leading and trailing whitespace",
]
KINDS = ("presentation", "calculation", "definition")
LET = {"p": "presentation", "c": "calculation", "d": "definition"}
SUBSETS = ["".join(x) for n in range(4) for x in itertools.combinations("pcd", n)]
ROLES = [nets.R1, nets.R1 + "0", nets.R1 + "/a", "http://ex.org/role/1".upper(), "http://ex.org/Role/1", nets.R1 + "/", nets.R1 + "#a", "urn:role:1", nets.R1 + "%20"]
INSTANCE = nets.INSTANCE


def els(i):
    """the elements of the links of role i: every role has a hierarchy of its own"""
    return nets.NAMES[2 * i : 2 * i + 2]


def the_link(kind, role, i, extra=None):
    a, b = els(i)
    at = {"order": str(i + 1)}
    if kind == "calculation":
        at["weight"] = "1"
    l = {"kind": kind, "role": role, "locs": [("a", a), ("b", b)], "arcs": [("a", "b", nets.ROLE_OF[kind], at)]}
    if extra:
        l["locs"].append(("c", extra))
        l["arcs"].append(("a", "c", nets.ROLE_OF[kind], dict(at, order="9")))
    return l


def spell(used, style):
    """the text of a usedOn element, and the namespaces it needs"""
    name = LET[used] + "Link"
    return {
        "plain": ("link:" + name, ""),
        "prefix": ("lk:" + name, f' xmlns:lk="{xb.LINK}"'),
        "default": (name, f' xmlns="{xb.LINK}"'),
        "space": (f"\n   link:{name}\n ", ""),
        "comment": (f"link:<!-- c -->{name}", ""),
        "other": ("link:" + name, ' xmlns:link2="x"'),
    }[style]


DEFS = {
    "text": ("<link:definition>0001 - Statement</link:definition>", "0001 - Statement"),
    "none": ("", ""),
    "empty": ("<link:definition/>", ""),
    "entity": ("<link:definition>A &amp; B &lt;c&gt;</link:definition>", "A & B <c>"),
    "cdata": ("<link:definition>A <![CDATA[& <B>]]> C</link:definition>", "A & <B> C"),
    "comment": ("<link:definition>A <!-- x -->B<?pi y?> C</link:definition>", "A B C"),
    "uni": ("<link:definition>Größe 表 {x} %s</link:definition>", "Größe 表 {x} %s"),
    "lines": ("<link:definition>\n A\n B \n</link:definition>", "A\n B"),
    "long": (f"<link:definition>{'word ' * 200}end</link:definition>", "word " * 200 + "end"),
}


def role_xml(r, spelling):
    u = ""
    for x in r["used"]:
        t, ns = spell(x, spelling)
        u += f"<link:usedOn{ns}>{t}</link:usedOn>"
    for x in r.get("usedraw", ()):
        u += f"<link:usedOn>{x}</link:usedOn>"
    d = DEFS[r.get("def", "text")][0].replace("0001", "000" + str(r["i"]))
    ident = f' id="r{r["i"]}"' if r.get("id", True) else ""
    return f"<link:roleType roleURI={xb.quoteattr(r['uri'])}{ident}>{d}{u}</link:roleType>\n"


def documents(case):
    roles = case["roles"]
    sp = case.get("spelling", "plain")
    texts = [role_xml(r, sp) for r in roles]
    split = case.get("split", "one")
    links = []
    for r in roles:
        links += [the_link(LET[x], r["uri"], r["i"], case.get("shared")) for x in r["links"]]
    for u in case.get("undeclared", ()):
        links += [the_link(LET[x], u["uri"], u["i"]) for x in u["links"]]
    if case.get("order") == "reverse":
        texts, links = texts[::-1], links[::-1]
    files, refs, lbs = {"i.xml": INSTANCE}, [], []
    per = case.get("files", "one")
    groups = {"one": [links], "each": [[l] for l in links], "kind": [[l for l in links if l["kind"] == k] for k in KINDS], "embedded": [links]}[per]
    groups = [g for g in groups if g]
    embedded = []
    for n, g in enumerate(groups):
        if per == "embedded":
            embedded.append(nets.linkbase(g).split("?>", 1)[1])
        else:
            files[f"lb{n}.xml"] = nets.linkbase(g)
            refs.append(f"lb{n}.xml")
    base = {"ns": nets.T, "prefix": "t", "elements": [{"n": x} for x in nets.NAMES], "refs": refs, "embedded": embedded}
    other = {"ns": "http://ex.org/v", "prefix": "v", "elements": [{"n": "X"}]}
    imp = [("http://ex.org/v", "v.xsd")]
    if split == "one":
        files["t.xsd"] = xb.schema(dict(base, embedded=texts + embedded))
    elif split == "other":
        files["t.xsd"] = xb.schema(dict(base, imports=imp))
        files["v.xsd"] = xb.schema(dict(other, embedded=texts))
    elif split == "both":
        files["t.xsd"] = xb.schema(dict(base, embedded=texts[:1] + embedded, imports=imp))
        files["v.xsd"] = xb.schema(dict(other, embedded=texts[1:]))
    else:  # the same declarations in both
        files["t.xsd"] = xb.schema(dict(base, embedded=texts + embedded, imports=imp))
        files["v.xsd"] = xb.schema(dict(other, embedded=texts))
    return files, groups


USE = {"p": "presentation network but without", "c": "calculation network but without", "d": "definition network but without"}


def check(case):
    files, groups = documents(case)
    fl = obs.open_files(files, "i.xml")
    problems = []
    roles = case["roles"]
    want = sorted(r["uri"] for r in roles)
    comps = fl.get_all_components()
    got = sorted(c.get_URI() for c in comps)
    if got != want:
        problems.append(("roles", f"components {got}, declared {want}"))
    if sorted(fl.get_all_component_uris()) != got:
        problems.append(("uris", f"get_all_component_uris {fl.get_all_component_uris()}"))
    for r in roles:
        c = fl.get_component(r["uri"])
        if c.get_URI() != r["uri"]:
            problems.append(("lookup", f"get_component({r['uri']}) is {c.get_URI()}"))
            continue
        text = DEFS[r.get("def", "text")][1].replace("0001", "000" + str(r["i"]))
        if c.get_info().strip() != text:
            problems.append(("definition", f"definition of {r['uri']} is {c.get_info()!r}, want {text!r}"))
        held = []
        for x in "pcd":
            net = getattr(c, nets.GET[LET[x]])()
            has = getattr(c, f"has_{LET[x]}_network")()
            if has != (net is not None):
                problems.append(("has", f"{r['uri']}: has_{LET[x]}_network is {has}"))
            if net is not None:
                held.append(net)
        if [id(n) for n in c.get_networks()] != [id(n) for n in held]:
            problems.append(("networks", f"{r['uri']}: get_networks has {len(c.get_networks())}, the component {len(held)}"))
        d = c.convert_to_dict()
        flat = [d["network-identifier"], d["info"]] + [v for k, v in d.items() if k.endswith("-network")]
        if flat != [c.get_URI(), c.get_info(), c.has_presentation_network(), c.has_calculation_network(), c.has_definition_network()]:
            problems.append(("dict", f"{r['uri']}: {d}"))
    for u in case.get("undeclared", ()):
        try:
            c = fl.get_component(u["uri"])
        except ValueError:
            continue
        problems.append(("undeclared", f"{u['uri']} is the component {c.get_URI()}"))
    if not any(p[0] in ("roles", "lookup") for p in problems):
        problems += nets.check(fl, groups, roles=want, views=False, physical=False)
    msgs = [str(e) for e in fl.get_all_errors()]
    expected = []
    for r in roles:
        for x in r["links"]:
            if x not in r["used"]:
                expected.append((r["uri"], x))
    for r in roles:
        for x in "pcd":
            n = sum(1 for m in msgs if f" {r['uri']} has a {USE[x]}" in m)
            w = 1 if (r["uri"], x) in expected else 0
            if n != w:
                problems.append(("usage", f"{n} errors about the {LET[x]} network of {r['uri']}, want {w}: {msgs}"))
    if len(msgs) != len(expected):
        problems.append(("errors", f"errors {msgs}, want {expected}"))
    for area in {e.get_area() for e in fl.get_all_errors()}:
        if len(fl.get_errors_by_area(area)) != sum(1 for e in fl.get_all_errors() if e.get_area() == area):
            problems.append(("errors", "by area"))
    return problems


def runner(sc):
    def run(case):
        return Result([Violation(f"{sc}:{k}", m + f"   [{case}]") for k, m in check(case)])

    return run


# ------------------------------------------------------------------ uses x links
def build_uses(ch):
    n = ch.pick("n", [1, 2], free=True)
    roles = []
    for i in range(n):
        if n == 1 or i == 0:
            used = ch.pick(f"used{i}", SUBSETS, free=True)
        else:
            used = ch.pick(f"used{i}", ["pcd", "", "p", "cd"], free=True)
        roles.append({"uri": ROLES[i], "i": i, "used": used, "links": ch.pick(f"links{i}", SUBSETS, free=True)})
    return {"roles": roles}


def build_three(ch):
    """three roles that declare what they use; everything about where things stand"""
    roles = []
    for i in range(3):
        roles.append({"uri": ROLES[i], "i": i, "used": "pcd", "links": ch.pick(f"links{i}", ["pcd", "", "p", "c", "d", "pd"])})
    split = ch.pick("split", ["one", "other", "both", "same"], free=True)
    return {
        "roles": roles,
        "split": split,
        "files": ch.pick("files", ["one", "each", "kind", "embedded"], free=True),
        "order": ch.pick("order", ["given", "reverse"], free=True),
        "shared": ch.pick("shared", [None, "H"]),
    }


def build_text(ch):
    """how roles, uses and definitions are written"""
    n = ch.pick("n", [2, 1, 0, 3], free=True)
    roles, left = [], list(ROLES)
    for i in range(n):
        u = ch.pick(f"uri{i}", left)
        left.remove(u)
        r = {
            "uri": u,
            "i": i,
            "used": ch.pick(f"used{i}", ["pcd", "pc", "dcp", "", "d"]),
            "links": ch.pick(f"links{i}", ["pcd", "pd", "c", ""]),
            "def": ch.pick(f"def{i}", list(DEFS)),
            "id": not ch.flag(f"noid{i}"),
            "usedraw": ch.pick(f"raw{i}", [[], ["link:footnoteLink"], ["t:presentationLink"], ["link:labelLink", "link:presentationLinkX"]]),
        }
        roles.append(r)
    und = ch.pick("undeclared", [[], [xb.ROLE_LINK], ["http://ex.org/role/9"], [nets.R1 + "00", nets.R1[:-1]]])
    return {
        "roles": roles,
        "spelling": ch.pick("spelling", ["plain", "prefix", "default", "space", "comment", "other"]),
        "split": ch.pick("split", ["one", "other", "both", "same"]),
        "undeclared": [{"uri": u, "i": 3, "links": ch.pick(f"ul{j}", ["pcd", "p", "d"])} for j, u in enumerate(und)],
    }


def scenarios(tier):
    return [
        *borrowed("p09", tier, roles=None),
        Scenario("uses", build_uses, runner("uses"), desc="one role: all declared uses x all kinds of links; two roles: all links of both"),
        Scenario("places", build_three, runner("places"), dev={"quick": 2, "thorough": None}, desc="three roles: distributions over schemas, linkbases and their order"),
        Scenario("texts", build_text, runner("texts"), dev={"quick": 2, "thorough": 3}, desc="role URIs that resemble each other, spellings of uses and definitions, links of undeclared roles"),
    ]
