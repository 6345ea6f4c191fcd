"""P12: footnotes connect exactly the facts and footnotes that were declared."""
import contextlib
import io
import itertools

import common as k
import nets
import obs
import xb
from core import Prune, Result, Scenario, Violation, borrowed

TECHNIQUE = "explicit-state enumeration of all footnote relationship graphs over a few facts and footnotes (shared labels, several sources and targets, link roles, arc roles, orders, unknown ends) in the plain and the inline syntax; every state is opened with Filing.open and the reported footnote networks are compared with the cross product that the declarations denote"
ASSUMPTIONS = [
    "two declarations of the same relationship (same ends, roles and order) are one relationship",
    "relationships among facts that no root reaches (pure cycles of facts) are not expected, since networks are rooted",
]
AR_FF = "http://ex.org/arcrole/fact-fact"
RL, RL2 = xb.ROLE_LINK, "http://ex.org/role/foot"
FACTS = ("F1", "F2", "F3")
NOTES = ("N1", "N2")


def facts(extra=()):
    return [{"id": f, "c": "t:Cash", "ctx": "c1", "unit": "usd", "val": str(10 + i)} for i, f in enumerate(FACTS)] + list(extra)


def note_row(n):
    return ["note", n.get("text", "text of " + n["id"]), n.get("lang") or "en", n.get("role") or xb.R_FOOT]


def reachable(rows):
    """the relationships of one (link role, arc role) that a root reaches"""
    out = []
    for g in {tuple(r[:2]) for r in rows}:
        rs = [r for r in rows if tuple(r[:2]) == g]
        tg = {str(r[3]) for r in rs}
        reach, todo = set(), [str(r[2]) for r in rs if str(r[2]) not in tg]
        while todo:
            e = todo.pop()
            if e not in reach:
                reach.add(e)
                todo += [str(r[3]) for r in rs if str(r[2]) == e]
        out += [r for r in rs if str(r[2]) in reach]
    return out


def unique(rows):
    return [list(x) for x in {obs.key(r): r for r in rows}.values()]


def compare(fl, want, problems):
    from brel.networks import FootnoteNetwork
    from brel.utils import pprint

    got = obs.footnotes(fl)
    m, e = obs.diff_multiset(unique(got), unique(reachable(want)))
    if m or e:
        problems.append(("relationships", f"missing {m}, extra {e}"))
    for net in fl.get_all_physical_networks():
        if not isinstance(net, FootnoteNetwork):
            continue
        o = nets.observe(net, problems, "footnotes")
        if o and len(unique(want)) == len(want) and len({str(r) for r in o["rels"]}) != len(o["rels"]):
            problems.append(("twice", f"a relationship is reported twice: {o['rels']}"))
        if len(net.get_arc_roles()) != 1:
            problems.append(("network", f"arc roles {net.get_arc_roles()}"))
        for _, n in obs.walk(net):
            if n.get_link_role() != net.get_link_role():
                problems.append(("network", f"link roles {net.get_link_role()} and {n.get_link_role()}"))
        every = {id(n): n for _, n in obs.walk(net)}
        if {id(n) for n in net.get_all_nodes()} != set(every):
            problems.append(("all-nodes", f"{len(net.get_all_nodes())} nodes, {len(every)} reachable"))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            pprint(net)
        n = sum(len(nets.unfold(r)) for r in net.get_roots())
        lines = [l for l in buf.getvalue().splitlines() if "──" in l]
        if len(lines) != n:
            problems.append(("print", f"{len(lines)} of {n} lines printed: {lines}"))


def result(name, fl, want, case, errors=0, vals=None):
    """errors: 0 none, 1 at least one, None any"""
    ps = []
    compare(fl, want, ps)
    got = [str(e) for e in fl.get_all_errors()]
    if errors == 0 and got:
        ps.append(("errors", f"{got}"))
    if errors == 1 and not got:
        ps.append(("no-error", "no error is reported"))
    v = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    if v != (vals or {f["id"]: f["val"] for f in facts()}):
        ps.append(("facts", f"{v}"))
    return Result([Violation(f"{name}:{a}", b + f"   [{case}]") for a, b in ps])


_T = None


def taxonomy():
    global _T
    _T = _T or xb.schema(
        k.base_schema(
            roles=[{"uri": RL2, "id": "rf", "usedOn": ["link:footnoteLink"]}, {"uri": "http://ex.org/role/fn", "id": "rn", "usedOn": ["link:footnote"]}],
            arcroles=[{"uri": AR_FF, "id": "aff", "usedOn": ["link:footnoteArc"]}],
        )
    )
    return _T


# ------------------------------------------------------------------ plain XBRL
def plain(links, fs=None, root_lang=None):
    i = xb.instance({"nsmap": {"t": k.T}, "schemaRefs": ["t.xsd"], "contexts": [k.CTX], "units": [k.USD], "facts": fs or facts(), "links": links})
    if root_lang:
        i = i.replace("<xbrli:xbrl", f'<xbrli:xbrl xml:lang="{root_lang}"', 1)
    return {"t.xsd": taxonomy(), "i.xml": i}


def loc(lab, f):
    return xb.locator(lab, "#" + f)


def note(lab, n):
    return xb.resource("footnote", lab, n.get("raw", n.get("text", "text of " + n["id"])), role=n.get("role"), lang=n.get("lang", "en"), raw="raw" in n)


def arrange(locs, notes, arcs, layout):
    b = {"normal": [*locs, *notes, *arcs], "arcs": [*arcs, *notes, *locs], "reverse": [*locs, *notes, *arcs][::-1]}
    if layout == "mixed":
        return [x for t in itertools.zip_longest(arcs, notes, locs) for x in t if x]
    return b[layout]


ENDS = {"a": "fact", "b": "fact", "c": "fact", "A": "note", "B": "note"}


def build_plain(maxarcs):
    def build(ch):
        fl = {"F1": "a", "F2": ch.pick("F2", ["b", "a"], free=True), "F3": ch.pick("F3", ["c", "b"], free=True)}
        if fl["F2"] == "a" and fl["F3"] == "b":
            raise Prune()
        nl = {"N1": "A", "N2": ch.pick("N2", ["B", "A", None], free=True)}
        froms = sorted(set(fl.values()))
        tos = sorted({x for x in nl.values() if x}) + froms
        cand = [(f, t) for f in froms for t in tos if not (t in froms and t <= f)]
        arcs = []
        for f, t in cand:
            if ch.flag(f"{f}->{t}", free=True):
                if len(arcs) == maxarcs:
                    raise Prune()
                arcs.append([f, t, ch.pick("order", [None, "2", "0.5"]), ch.flag("own link")])
        if not arcs:
            raise Prune()
        return {"facts": fl, "notes": nl, "arcs": arcs, "layout": ch.pick("layout", ["normal", "arcs", "reverse", "mixed"]), "role2": ch.pick("role of the second link", [RL2, RL])}

    return build


def run_plain(case):
    links, want = [], []
    for second in (False, True):
        arcs = [a for a in case["arcs"] if a[3] == second]
        if not arcs:
            continue
        role = case["role2"] if second else RL
        labs = {x for a in arcs for x in a[:2]}
        locs = [loc(l, f) for f, l in case["facts"].items() if l in labs]
        notes = [note(l, {"id": n}) for n, l in case["notes"].items() if l in labs]
        xs = []
        for f, t, o, _ in arcs:
            ar = xb.AR_FOOT if ENDS[t] == "note" else AR_FF
            xs.append(xb.arc("footnoteArc", f, t, ar, order=o))
            for a in [f_ for f_, l in case["facts"].items() if l == f]:
                for b in [["fact", f_] for f_, l in case["facts"].items() if l == t] + [note_row({"id": n}) for n, l in case["notes"].items() if l == t]:
                    want.append([role, ar, ["fact", a], b, float(o or 1)])
        links.append(xb.link("footnoteLink", role, arrange(locs, notes, xs, case["layout"])))
    return result("plain", obs.open_files(plain(links), "i.xml"), want, case)


# defects: every relationship may name an unknown end
BAD = [None, "href", "nofragment", "label-from", "label-to", "no-from", "no-to", "no-arcrole", "no-loc-label", "no-note-label", "note-lang", "order", "loc-element", "twice"]


def build_defects(ch):
    c = {"bad": ch.pick("bad", BAD, free=True), "bad2": ch.pick("bad2", BAD, free=True), "other": ch.pick("other", ["same link", "own link"], free=True), "layout": ch.pick("layout", ["normal", "arcs", "reverse"], free=True), "to": ch.pick("to", ["note", "fact"], free=True)}
    if c["to"] == "fact" and c["bad"] in ("note-lang", "no-note-label"):
        raise Prune()
    return c


def one_defect(i, bad, to):
    """-> (locs, notes, arcs, relationships that remain) of a relationship with a defect"""
    f, l, x, y = FACTS[i], f"l{i}", f"x{i}", f"y{i}"
    n = {"id": f"B{i}"}
    ar = xb.AR_FOOT if to == "note" else AR_FF
    href = {"href": "#zz", "nofragment": "", "loc-element": "#c1"}.get(bad, "#" + f)
    locs = [xb.locator(l, href)]
    if bad == "no-loc-label":
        locs = [locs[0].replace(f'xlink:label="{l}"', "")]
    if to == "note":
        if bad == "note-lang":
            n["lang"] = None
        nt = [note(x, n)]
        if bad == "no-note-label":
            nt = [nt[0].replace(f'xlink:label="{x}"', "")]
    else:
        nt = [loc(x, "F3")]
    a = xb.arc("footnoteArc", "zz" if bad == "label-from" else l, "zz" if bad == "label-to" else x, ar, order="one" if bad == "order" else None)
    for b, s in (("no-from", f'xlink:from="{l}"'), ("no-to", f'xlink:to="{x}"'), ("no-arcrole", f'xlink:arcrole="{ar}"')):
        if bad == b:
            a = a.replace(s, "")
    want = [] if bad and bad not in ("order", "twice") else [[RL, ar, ["fact", f], note_row(n) if to == "note" else ["fact", "F3"], 1.0]]
    return locs, nt, [a, a] if bad == "twice" else [a], want


def run_defects(case):
    d = [one_defect(0, case["bad"], case["to"]), one_defect(1, case["bad2"], "note")]
    good = ([loc("g", "F3")], [note("gn", {"id": "N1"})], [xb.arc("footnoteArc", "g", "gn", xb.AR_FOOT, order="3")], [[RL, xb.AR_FOOT, ["fact", "F3"], note_row({"id": "N1"}), 3.0]])
    groups = [d, [good]] if case["other"] == "own link" else [[*d, good]]
    links = []
    for g in groups:
        parts = [[x for y in g for x in y[j]] for j in range(3)]
        links.append(xb.link("footnoteLink", RL, arrange(*parts, case["layout"])))
    want = [w for x in [*d, good] for w in x[3]]
    bad = {case["bad"], case["bad2"]} - {None}
    return result("defects", obs.open_files(plain(links), "i.xml"), want, case, errors=1 if bad else 0)


# content of plain footnotes
CONTENT = {
    "plain": ("a note", "a note"),
    "entities": ("1 &lt; 2 &amp; 3 &#x20AC;", "1 < 2 & 3 €"),
    "cdata": ("<![CDATA[x <b> y]]>", "x <b> y"),
    "comment": ("one<!-- no --> two", "one two"),
    "pi": ("one<?p no?> two", "one two"),
    "markup": ('<p xmlns="http://www.w3.org/1999/xhtml">one <b>two</b> three</p>tail', "one two threetail"),
    "space": ("  two  words \n", "  two  words \n"),
    "empty": ("", ""),
    "unicode": ("Fußnote 𝄞 脚注", "Fußnote 𝄞 脚注"),
}
LANGS = ["en", "de", "en-US", ("link", "fr"), ("root", "it"), ("link over root", "fr")]


def build_content(ch):
    return {
        "content": [ch.pick("content", list(CONTENT), free=True), ch.pick("content2", ["plain", "comment"], free=True)],
        "lang": ch.pick("lang", LANGS, free=True),
        "role": ch.pick("role", [None, xb.R_FOOT, "http://ex.org/role/fn"]),
        "title": ch.flag("title"),
        "prefix": ch.pick("prefix", ["link", "", "l"]),
        "layout": ch.pick("layout", ["normal", "reverse"]),
        "linkrole": ch.pick("linkrole", [RL, RL2]),
        "href": ch.pick("href", ["#F1", "i.xml#F1"]),
    }


def run_content(case):
    where, lang = case["lang"] if not isinstance(case["lang"], str) else (None, case["lang"])
    want, notes, arcs = [], [], []
    for i, c in enumerate(case["content"]):
        raw, text = CONTENT[c]
        n = {"id": f"N{i}", "raw": raw, "text": text, "lang": None if where and not i else ("nl" if i else lang), "role": case["role"] if not i else None}
        x = note(f"n{i}", n)
        if case["title"]:
            x = x.replace("<link:footnote ", '<link:footnote xlink:title="a title" ', 1)
        notes.append(x)
        arcs.append(xb.arc("footnoteArc", "f", f"n{i}", xb.AR_FOOT, order=str(2 - i)))
        w = note_row(dict(n, lang=n["lang"] or lang))
        want.append([case["linkrole"], xb.AR_FOOT, ["fact", "F1"], w, float(2 - i)])
    a = {"xml:lang": "fr"} if where in ("link", "link over root") else {}
    l = xb.link("footnoteLink", case["linkrole"], arrange([xb.locator("f", case["href"])], notes, arcs, case["layout"]), **a)
    p = case["prefix"]
    if p != "link":
        c = (p + ":") if p else ""
        l = l.replace("<link:", "<" + c).replace("</link:", "</" + c).replace(f"<{c}footnoteLink", f'<{c}footnoteLink xmlns{p and ":" + p}="{xb.LINK}"')
    fl = obs.open_files(plain([l], root_lang={"root": "it", "link over root": "es"}.get(where)), "i.xml")
    # texts are compared as they are, without white space normalisation
    return result("content", fl, want, case)


# ------------------------------------------------------------------ inline XBRL
def page(body, rels, i, n, resources=True):
    return xb.xhtml(
        body,
        resources=(xb.context_xml(k.CTX) + xb.unit_xml(k.USD) if resources else "") + rels,
        refs=xb.schema_ref("t.xsd") if i == 0 else "",
        nsmap={"t": k.T},
    )


def ixfact(f, inner=None):
    v = inner if inner is not None else {x["id"]: x["val"] for x in facts()}[f]
    return f'<p><ix:nonFraction id="{f}" name="t:Cash" contextRef="c1" unitRef="usd" decimals="0">{v}</ix:nonFraction></p>\n'


def ixnote(n, inner=None, **a):
    d = {"id": n["id"], "xml:lang": n.get("lang", "en"), "footnoteRole": n.get("role")}
    d.update(a)
    return f'<div><ix:footnote{xb.attrs(d)}>{inner if inner is not None else "text of " + n["id"]}</ix:footnote></div>\n'


def ixrel(froms, tos, arcrole=None, role=None, order=None):
    return f'<ix:relationship{xb.attrs({"fromRefs": froms, "toRefs": tos, "arcrole": arcrole, "linkRole": role, "order": order})}/>\n'


SUB = {"F": [("F1",), ("F2",), ("F1", "F2"), ("F2", "F1", "F3"), ("F3",)], "N": [("N1",), ("N2",), ("N1", "N2"), ("N2", "N1")], "FF": [("F3",), ("F2", "F3"), ("F2",)]}


def build_inline(nrels):
    def build(ch):
        rels = []
        for i in range(nrels):
            kind = ch.pick("kind", ["N", "FF"] if i == 0 else [None, "N", "FF"], free=True)
            if kind is None:
                break
            fr = ch.pick("from", SUB["F"], free=True)
            to = ch.pick("to", SUB[kind], free=True)
            if set(fr) & set(to):
                raise Prune()
            rels.append(
                {
                    "from": list(fr),
                    "to": list(to),
                    "arcrole": ch.pick("arcrole", [None, AR_FF]) if kind == "N" else AR_FF,
                    "role": ch.pick("role", [None, RL2]),
                    "order": ch.pick("order", [None, "2", "0.5"]),
                }
            )
        return {"rels": rels, "sep": ch.pick("sep", [" ", "\n  ", "\t"]), "place": ch.pick("place", ["facts", "notes", "mix"]), "pages": ch.pick("pages", ["one", "notes apart", "rels apart", "facts apart"]), "order": ch.pick("order", ["given", "reverse"])}

    return build


def run_inline(case):
    fs = "".join(map(ixfact, FACTS))
    ns = "".join(ixnote({"id": n}) for n in NOTES)
    rs = [ixrel(case["sep"].join(r["from"]), case["sep"].join(r["to"]), r["arcrole"], r["role"], r["order"]) for r in case["rels"]]
    rels = "".join(rs if case["order"] == "given" else rs[::-1])
    body = {"facts": fs + ns, "notes": ns + fs, "mix": ixfact("F1") + ixnote({"id": "N1"}) + ixfact("F2") + ixnote({"id": "N2"}) + ixfact("F3")}[case["place"]]
    pg = case["pages"]
    if pg == "one":
        docs = {"a.xhtml": page(body, rels, 0, 1)}
    elif pg == "notes apart":
        docs = {"a.xhtml": page(fs, rels, 0, 2), "b.xhtml": page(ns, "", 1, 2, False)}
    elif pg == "rels apart":
        docs = {"a.xhtml": page(body, "", 0, 2), "b.xhtml": page("<p>x</p>", rels, 1, 2, False)}
    else:
        docs = {"a.xhtml": page(ns, rels, 0, 2, False), "b.xhtml": page(fs, "", 1, 2)}
    want = []
    for r in case["rels"]:
        for a in r["from"]:
            for b in r["to"]:
                want.append([r["role"] or RL, r["arcrole"] or xb.AR_FOOT, ["fact", a], ["fact", b] if b in FACTS else note_row({"id": b}), float(r["order"] or 1)])
    fl = obs.open_files({"t.xsd": taxonomy(), **docs}, "a.xhtml" if pg == "one" else None)
    return result("inline", fl, want, case)


IBAD = [None, "from", "to", "some-from", "some-to", "no-from", "no-to", "empty-from", "empty-to", "from-note", "mixed", "self", "arcrole", "role", "order", "no-id", "context"]


def build_ix_defects(ch):
    return {"bad": ch.pick("bad", IBAD, free=True), "bad2": ch.pick("bad2", IBAD, free=True), "at": ch.pick("at", ["before", "after"], free=True), "pages": ch.flag("pages", free=True)}


def ix_defect(i, bad):
    """-> (relationship, notes, remaining relationships)"""
    f, n = FACTS[i], f"B{i}"
    fr, to, ar, rl, o = f, n, None, None, None
    notes = ixnote({"id": n})
    row = lambda a=f, b=None, o=1.0: [RL, xb.AR_FOOT, ["fact", a], b or note_row({"id": n}), o]
    want = [row()]
    if bad == "from":
        fr, want = "zz", []
    elif bad == "to":
        to, want = "zz", []
    elif bad == "some-from":
        fr = f"zz {f} yy"
    elif bad == "some-to":
        to = f"zz {n} yy"
    elif bad in ("no-from", "empty-from"):
        fr, want = (None if bad == "no-from" else " "), []
    elif bad in ("no-to", "empty-to"):
        to, want = (None if bad == "no-to" else " "), []
    elif bad == "from-note":
        fr = f"{n} {f}"
    elif bad == "mixed":
        to, want = f"{n} F3", None
    elif bad == "self":
        to, want = f"{f} {n}", None
    elif bad == "arcrole":
        ar, want = "http://", None
    elif bad == "role":
        rl, want = "http://", None
    elif bad == "order":
        o = "one"
    elif bad == "no-id":
        notes, want = notes.replace(f' id="{n}"', ""), []
    elif bad == "context":
        fr, want = "c1", []
    return ixrel(fr, to, ar, rl, o), notes, want


def run_ix_defects(case):
    ds = [ix_defect(0, case["bad"]), ix_defect(1, case["bad2"])]
    good = ixrel("F3", "N1", None, RL2, "3")
    rels = good + ds[0][0] + ds[1][0] if case["at"] == "before" else ds[0][0] + ds[1][0] + good
    body = "".join(map(ixfact, FACTS))
    ns = ds[0][1] + ixnote({"id": "N1"}) + ds[1][1]
    docs = {"a.xhtml": page(body, rels, 0, 2), "b.xhtml": page(ns, "", 1, 2, False)} if case["pages"] else {"a.xhtml": page(body + ns, rels, 0, 1)}
    fl = obs.open_files({"t.xsd": taxonomy(), **docs}, None if case["pages"] else "a.xhtml")
    sure = [w for d in ds for w in d[2] or []] + [[RL2, xb.AR_FOOT, ["fact", "F3"], note_row({"id": "N1"}), 3.0]]
    if any(d[2] is None for d in ds):
        # how much of a contradictory relationship is kept is not specified: the others are
        got = unique(obs.footnotes(fl))
        keys = {obs.key(r) for r in got}
        open_ends = [f"F{i + 1}" for i, d in enumerate(ds) if d[2] is None]
        ps = []
        lost = [r for r in sure if obs.key(r) not in keys]
        more = [r for r in got if obs.key(r) not in {obs.key(x) for x in sure} and r[2][1] not in open_ends]
        if lost or more:
            ps.append(("relationships", f"missing {lost}, extra {more}"))
        if not fl.get_all_errors():
            ps.append(("no-error", "no error is reported"))
        if len(fl.get_all_facts()) != 3:
            ps.append(("facts", f"{len(fl.get_all_facts())} facts"))
        return Result([Violation(f"ix-defects:{a}", b + f"   [{case}]") for a, b in ps])
    bad = {case["bad"], case["bad2"]} - {None}
    return result("ix-defects", fl, sure, case, errors=1 if bad else 0)


# content and position of inline footnotes
IXCONTENT = {
    "text": ("a note", "a note"),
    "markup": ("one <b>two</b> three", "one two three"),
    "entities": ("1 &lt; 2 &amp; 3 &#x20AC;", "1 < 2 & 3 €"),
    "comment": ("one<!-- no --> two", "one two"),
    "exclude": ("one<ix:exclude> no <b>no</b></ix:exclude> two", "one two"),
    "exclude only": ("<ix:exclude>no</ix:exclude>", ""),
    "nested fact": ('see <ix:nonFraction id="X" name="t:Cash" contextRef="c1" unitRef="usd" decimals="0">77</ix:nonFraction> USD', "see 77 USD"),
    "nested text": ('see <ix:nonNumeric id="X" name="t:Text" contextRef="c1">abc</ix:nonNumeric> here', "see abc here"),
    "table": ("<table><tr><td>1</td><td>2</td></tr></table>", "12"),
    "nested note": ('out <ix:footnote id="N9" xml:lang="en">in</ix:footnote> side', "out in side"),
    "unicode": ("Fußnote 𝄞 脚注", "Fußnote 𝄞 脚注"),
}
POS = ["body", "in a fact", "in a text", "hidden", "table", "before its fact", "in a continuation"]


def build_ix_content(ch):
    c = {
        "content": ch.pick("content", list(IXCONTENT), free=True),
        "chain": ch.pick("chain", [0, 1, 2], free=True),
        "pos": ch.pick("pos", POS, free=True),
        "lang": ch.pick("lang", ["en", "de", ("div", "fr"), ("html", "it")]),
        "role": ch.pick("role", [None, "http://ex.org/role/fn"]),
        "title": ch.flag("title"),
        "shared": ch.flag("shared"),
        "around": ch.flag("around"),
    }
    if c["pos"] == "hidden" and c["lang"][0] == "div":
        raise Prune()
    return c


def run_ix_content(case):
    raw, text = IXCONTENT[case["content"]]
    where, lang = case["lang"] if not isinstance(case["lang"], str) else (None, case["lang"])
    pos = case["pos"]
    vals = {f["id"]: f["val"] for f in facts()}
    chain = case["chain"]
    if case["content"] == "nested fact":
        vals["X"] = "77"
    if case["content"] == "nested text":
        vals["X"] = "abc"
    n = {"id": "N1", "lang": lang, "role": case["role"], "text": text + "".join(f" more{i} x" for i in range(chain))}
    x = ixnote(dict(n, lang=None if where else lang), raw, **{"continuedAt": "k0" if chain else None, "title": "T" if case["title"] else None})
    if case["around"]:
        x = x.replace("<ix:footnote", "before <ix:footnote", 1) if case["content"] == "nested note" else x.replace("<ix:footnote", "before <ix:footnote").replace("</ix:footnote>", "</ix:footnote> after")
    if where == "div":
        x = f'<div xml:lang="fr">{x}</div>'
    ks = "".join(f'<div><ix:continuation id="k{i}"{xb.attrs({"continuedAt": f"k{i + 1}" if i + 1 < chain else None})}> more<i>{i}</i> x</ix:continuation></div>' for i in range(chain))
    fs = "".join(map(ixfact, FACTS))
    hidden = ""
    if pos == "in a fact":
        fs = fs + f'<div><ix:nonNumeric id="T" name="t:Text" contextRef="c1">A<ix:exclude>{x}</ix:exclude>B</ix:nonNumeric></div>'
        vals["T"] = "AB"
        x = ""
    elif pos == "in a text":
        fs = fs + f'<div><ix:nonNumeric id="T" name="t:Text" contextRef="c1">A{x}B</ix:nonNumeric></div>'
        vals["T"] = None
        x = ""
    elif pos == "in a continuation":
        fs = fs + f'<div><ix:nonNumeric id="T" name="t:Text" contextRef="c1" continuedAt="kt">A</ix:nonNumeric></div><div><ix:continuation id="kt">B{x}</ix:continuation></div>'
        vals["T"] = None
        x = ""
    elif pos == "hidden":
        hidden, x = x, ""
    elif pos == "table":
        x = f"<table><tr><td>{x}</td></tr></table>"
    elif pos == "before its fact":
        fs, x = x + fs, ""
    rels = ixrel("F1 F2" if case["shared"] else "F1", "N1")
    want = [[RL, xb.AR_FOOT, ["fact", f], note_row(n), 1.0] for f in (("F1", "F2") if case["shared"] else ("F1",))]
    if case["content"] == "nested note":
        rels += ixrel("F3", "N9")
        want.append([RL, xb.AR_FOOT, ["fact", "F3"], note_row({"id": "N9", "text": "in"}), 1.0])
    if hidden:
        hidden = hidden.replace("<div>", "").replace("</div>", "").replace('<div xml:lang="fr">', "")
    doc = xb.xhtml(fs + x + ks, hidden=hidden, resources=xb.context_xml(k.CTX) + xb.unit_xml(k.USD) + rels, refs=xb.schema_ref("t.xsd"), nsmap={"t": k.T})
    if where == "html":
        doc = doc.replace("<html", '<html xml:lang="it"', 1)
    fl = obs.open_files({"t.xsd": taxonomy(), "a.xhtml": doc}, "a.xhtml")
    got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    if vals.get("T", 0) is None:
        vals["T"] = got.get("T")
    return result("ix-content", fl, want, case, vals=vals)


def scenarios(tier):
    q = tier != "thorough"
    return [
        *borrowed("p05", tier, graphs_footnote=1),
        *borrowed("p06", tier, docs=0),
        Scenario("plain", build_plain(3 if q else 5), run_plain, {"quick": 1, "thorough": 2}, "footnoteLinks: assignments of 3 facts and 2 footnotes to labels x arcs between the labels x orders x links x layouts", batch=8),
        Scenario("defects", build_defects, run_defects, None, "plain footnotes with up to two defective relationships next to a valid one", batch=8),
        Scenario("content", build_content, run_content, {"quick": 1, "thorough": 3}, "texts, languages, roles and prefixes of plain footnotes", batch=8),
        Scenario("inline", build_inline(2), run_inline, {"quick": 1, "thorough": 2}, "up to two ix:relationships with several sources and targets x roles x orders x places x pages", batch=8),
        Scenario("ix-defects", build_ix_defects, run_ix_defects, None, "inline footnotes with up to two defective relationships next to a valid one", batch=8),
        Scenario("ix-content", build_ix_content, run_ix_content, {"quick": 1, "thorough": None}, "content x continuations x position of inline footnotes x language, role", batch=8),
    ]
