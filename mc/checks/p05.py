"""P05: continuations are assembled completely, in chain order, and always terminate."""
import itertools
import re
from xml.sax.saxutils import quoteattr

import common as k
import obs
import xb
from core import Prune, Result, Scenario, Violation, borrowed
from lxml import etree

TECHNIQUE = "explicit-state enumeration of all continuation graphs over a few pieces (chains, forks, joins, cycles, dangling ends), document orders, nestings and contents; every state is replayed through Filing.open and compared with the text the graph denotes"
ASSUMPTIONS = ["escaped content is compared as an XML fragment: element names, attributes and text, not the choice of quotes, entities or namespace declarations"]

HOLDERS = ("F1", "F2")
CONTS = ("k1", "K1", "k2")


def canon_fragment(s):
    """A comparable form of an XHTML fragment, or None if it is not one."""
    try:
        r = etree.fromstring(f'<r xmlns="{xb.XHTML}">{s}</r>')
    except etree.XMLSyntaxError:
        return None

    def f(e):
        out = [etree.QName(e).localname, sorted((k_, v) for k_, v in e.attrib.items())]
        kids = [e.text or ""]
        for c in e:
            if not isinstance(c.tag, str):
                kids[-1] += c.tail or ""
                continue
            kids.append(f(c))
            kids.append(c.tail or "")
        return out + [kids]

    return f(r)


def follow(graph, start):
    """-> (pieces after start, defect)"""
    out, cur = [], graph[start]
    while cur is not None:
        if cur not in graph:
            return out, "missing"
        if cur in out:
            return out, "cycle"
        out.append(cur)
        cur = graph[cur]
    return out, None


_T = None


def docs(body, pages=None):
    global _T
    _T = _T or xb.schema(k.base_schema())
    bodies = pages or [body]
    fs = {"t.xsd": _T}
    for i, b in enumerate(bodies):
        fs[f"p{i}.xhtml"] = xb.xhtml(
            b,
            resources=(xb.context_xml(k.CTX) + xb.unit_xml(k.USD) if i == 0 else "")
            + ("".join(RELS) if i == 0 else ""),
            refs=xb.schema_ref("t.xsd") if i == 0 else "",
            nsmap={"t": k.T},
        )
    return fs


RELS = []


def err_places(fl):
    out = []
    for e in fl.get_all_errors():
        c = e.get_context()
        out.append((c.get("id") if c is not None else None, str(e)))
    return out


# ------------------------------------------------------------------ all graphs
def build_graphs(n_holders, n_conts, footnote):
    hs = HOLDERS[:n_holders]
    cs = CONTS[:n_conts]

    def build(ch):
        g = {x: ch.pick(x, [None] + list(cs) + ["zz"], free=True) for x in hs + cs}
        order = ch.pick("order", ["FC", "CF", "mix"])
        return {"graph": g, "order": order, "footnote": footnote, "esc": ch.flag("escape")}

    return build


def run_graphs(case):
    g = case["graph"]
    pieces = {}
    for x, nxt in g.items():
        ca = f" continuedAt={quoteattr(nxt)}" if nxt else ""
        if x in CONTS:
            pieces[x] = f'<div><ix:continuation id="{x}"{ca}>[{x}]</ix:continuation></div>\n'
        elif case["footnote"] and x == "F2":
            pieces[x] = f'<p><ix:footnote id="{x}" xml:lang="en"{ca}>[{x}]</ix:footnote></p>\n'
        else:
            esc = ' escape="true"' if case["esc"] else ""
            pieces[x] = f'<p><ix:nonNumeric id="{x}" name="t:Text" contextRef="c1"{esc}{ca}>[{x}]</ix:nonNumeric></p>\n'
    names = list(pieces)
    if case["order"] == "CF":
        names = names[::-1]
    elif case["order"] == "mix":
        names = names[1::2] + names[0::2]
    body = '<p><ix:nonNumeric id="O" name="t:Text" contextRef="c1">other</ix:nonNumeric></p>' + "".join(pieces[x] for x in names)
    RELS[:] = ['<ix:relationship fromRefs="O" toRefs="F2"/>'] if case["footnote"] else []
    fl = obs.open_files({**docs(body)}, "p0.xhtml")
    vs = []
    got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    want, used, bad = {"O": "other"}, [], {}
    for h in [x for x in g if x not in CONTS]:
        ch, defect = follow(g, h)
        want[h] = "".join(f"[{x}]" for x in [h] + ch)
        if defect:
            bad[h] = defect
        used += ch
    for x in set(used):
        if used.count(x) > 1:
            bad[x] = "reused"
    unused = [x for x in g if x in CONTS and x not in used]
    if unused:
        bad["unused"] = "unused"
    if case["footnote"]:
        foot = {r[2][1]: r[3][1] for r in obs.footnotes(fl)}
        if foot != {"O": want["F2"]}:
            vs.append(Violation("graphs:footnote", f"{g}: footnote of O is {foot}, want {want['F2']}"))
        del want["F2"]
    if got != want:
        vs.append(Violation("graphs:value", f"{g}: got {got}, want {want}"))
    errs = err_places(fl)
    if bool(errs) != bool(bad):
        vs.append(Violation("graphs:errors", f"{g}: defects {bad}, errors {errs}"))
    kinds = {"missing": "invalid|not exist|does not", "cycle": ".", "reused": ".", "unused": "."}
    # every defect has an error of its own kind
    if len({d for d in bad.values()} - {"cycle"}) > len({e.split(":")[0] for _, e in errs}):
        vs.append(Violation("graphs:kinds", f"{g}: defects {bad}, errors {errs}"))
    return Result(vs)


# ------------------------------------------------------------------ contents and placement
# (as written, its text, its markup); {i} is the number of the piece
CONTENT = [
    ("A{i}", "A{i}", "A{i}"),
    ("a{i} <b>bold</b> z", "a{i} bold z", "a{i} <b>bold</b> z"),
    ("x<ix:exclude>no<b>no</b></ix:exclude>y{i}", "xy{i}", "xy{i}"),
    ("<ix:exclude>no</ix:exclude>y{i}<ix:exclude>no</ix:exclude>", "y{i}", "y{i}"),
    ("l<!-- c -->r{i}<!-- <b>x</b> -->", "lr{i}", "lr{i}"),
    ("&lt;p&gt; &amp;amp; \"q\" 'r' {i}", "<p> &amp; \"q\" 'r' {i}", "&lt;p&gt; &amp;amp; \"q\" 'r' {i}"),
    ("", "", ""),
    ("<b>only{i}</b>", "only{i}", "<b>only{i}</b>"),
    ('s<ix:nonNumeric name="t:Text" contextRef="c1" id="n{i}">in{i}</ix:nonNumeric>e', "sin{i}e", "sin{i}e"),
    ('s<ix:nonNumeric name="t:Text" contextRef="c1" id="n{i}" format="ixt:fixed-true">in{i}</ix:nonNumeric>e', "sin{i}e", "sin{i}e"),
    ('s<ix:exclude>q<ix:nonFraction name="t:Cash" unitRef="usd" contextRef="c1" id="n{i}" decimals="0">7</ix:nonFraction></ix:exclude>e{i}', "se{i}", "se{i}"),
    ('v<ix:nonFraction name="t:Cash" unitRef="usd" contextRef="c1" id="n{i}" decimals="0" format="ixt:num-dot-decimal" scale="3">1,000</ix:nonFraction>w{i}', "v1,000w{i}", "v1,000w{i}"),
    ("<div>\n<p>1</p>t{i}<ix:exclude>q</ix:exclude>u<p><i>2</i> </p></div>\n", "\n1t{i}u2 \n", "<div>\n<p>1</p>t{i}u<p><i>2</i> </p></div>\n"),
    ('<img alt="x &amp; y" src="a.png"/>after{i}<br/>', "after{i}", '<img alt="x &amp; y" src="a.png"/>after{i}<br/>'),
    ("\u00e4\u4e2d&#160;{i} <?pi x?>\U0001f600", "\u00e4\u4e2d\u00a0{i} \U0001f600", "\u00e4\u4e2d\u00a0{i} \U0001f600"),
    ("<b>d<ix:exclude><i>x</i></ix:exclude><u>e<ix:exclude>x</ix:exclude>f{i}</u>g</b>h", "def{i}gh", "<b>d<u>ef{i}</u>g</b>h"),
    ("\n  lead{i}\n\ttrail  ", "\n  lead{i}\n\ttrail  ", "\n  lead{i}\n\ttrail  "),
]
INNER = {8: "in{i}", 9: "true", 10: "7", 11: "1000000"}
PERMS = list(itertools.permutations(range(3)))


def build_content(ch):
    n = ch.pick("conts", [1, 0, 2])
    c = [ch.pick(f"content{i}", len(CONTENT)) for i in range(n + 1)]
    esc = ch.pick("escape", ["none", "true", "false"], free=True)
    order = ch.pick("order", PERMS if n == 2 else ([(0, 1), (1, 0)] if n == 1 else [(0,)]))
    wrap = ch.pick("wrap", ["div", "table", "none", "exclude", "hidden", "nested"])
    pages = ch.flag("second page") if n else False
    return {"n": n, "c": c, "esc": esc, "order": order, "wrap": wrap, "pages": pages}


def run_content(case):
    n = case["n"]
    piece, inner = [], {}
    for i in range(n + 1):
        src = CONTENT[case["c"][i]][0].format(i=i)
        ca = f' continuedAt="k{i + 1}"' if i < n else ""
        if i == 0:
            e = "" if case["esc"] == "none" else f' escape="{case["esc"]}"'
            p = f'<ix:nonNumeric id="F" name="t:Text" contextRef="c1"{e}{ca}>{src}</ix:nonNumeric>'
        else:
            p = f'<ix:continuation id="k{i}"{ca}>{src}</ix:continuation>'
        if case["c"][i] in INNER:
            inner[f"n{i}"] = INNER[case["c"][i]].format(i=i)
        piece.append(p)
    w = case["wrap"]
    placed = []
    for i in case["order"]:
        p = piece[i]
        if i and w == "exclude":
            p = f"<div><ix:exclude>{p}</ix:exclude></div>"
        elif i and w == "nested":
            p = f'<div><ix:nonNumeric id="W{i}" name="t:Text" contextRef="c1">w{p}w</ix:nonNumeric></div>'
        elif w == "table":
            p = f"<table><tr><td>x</td><td>{p}</td></tr></table>"
        elif w in ("div", "hidden", "exclude", "nested"):
            p = f"<div>{p}</div>tail"
        placed.append(p + "\n")
    hidden = ""
    o = '<p><ix:nonNumeric id="O" name="t:Text" contextRef="c1">other</ix:nonNumeric></p>'
    RELS[:] = []
    if case["pages"]:
        k_ = max(1, len(placed) // 2)
        fs = docs("", pages=[o + "".join(placed[:k_]), "".join(placed[k_:])])
        fl = obs.open_files(fs)
    else:
        fl = obs.open_files(docs(o + "".join(placed)), "p0.xhtml")
    vs = []
    text = "".join(CONTENT[c][1].format(i=i) for i, c in enumerate(case["c"]))
    markup = "".join(CONTENT[c][2].format(i=i) for i, c in enumerate(case["c"]))
    got = {}
    for f in fl.get_all_facts():
        if f.get_id() in got:
            vs.append(Violation("content:twice", f"{f.get_id()} twice"))
        got[f.get_id()] = f.get_value_as_str()
    v = got.pop("F", None)
    if case["esc"] == "true":
        if v is None or canon_fragment(v) is None or canon_fragment(v) != canon_fragment(markup):
            vs.append(Violation("content:markup", f"got {v!r}, want {markup!r}"))
    elif v != text:
        vs.append(Violation("content:text", f"got {v!r}, want {text!r}"))
    want = {"O": "other", **inner}
    if w == "nested":
        for i in case["order"]:
            if i:
                want[f"W{i}"] = "w" + CONTENT[case["c"][i]][1].format(i=i) + "w"
    if got != want:
        vs.append(Violation("content:others", f"got {got}, want {want}"))
    if fl.get_all_errors():
        vs.append(Violation("content:errors", str([str(e) for e in fl.get_all_errors()][:3])))
    return Result(vs)


# ------------------------------------------------------------------ long chains
def build_long(ch):
    n = ch.pick("n", [1, 2, 10, 300], free=True)
    order = ch.pick("order", ["fwd", "rev", "odd-even"], free=True)
    close = ch.pick("end", ["ok", "cycle-first", "cycle-last", "missing"], free=True)
    return {"n": n, "order": order, "end": close, "esc": ch.flag("esc", free=True)}


def run_long(case):
    n = case["n"]
    parts = []
    for i in range(n + 1):
        nxt = f"k{i + 1}" if i < n else {"ok": None, "cycle-first": "k1", "cycle-last": f"k{n}", "missing": "nope"}[case["end"]]
        ca = f' continuedAt="{nxt}"' if nxt else ""
        if i == 0:
            parts.append(f'<p><ix:nonNumeric id="F" name="t:Text" contextRef="c1"{" escape=" + chr(34) + "true" + chr(34) if case["esc"] else ""}{ca}>0.</ix:nonNumeric></p>')
        else:
            parts.append(f'<p><ix:continuation id="k{i}"{ca}><b>{i}</b>.</ix:continuation></p>')
    if case["order"] == "rev":
        parts.reverse()
    elif case["order"] == "odd-even":
        parts = parts[1::2] + parts[0::2]
    RELS[:] = []
    fl = obs.open_files(docs("".join(parts)), "p0.xhtml")
    got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    vs = []
    t = "0." + "".join((f"<b>{i}</b>." if case["esc"] else f"{i}.") for i in range(1, n + 1))
    v = got.get("F")
    if (canon_fragment(v or "<") != canon_fragment(t)) if case["esc"] else v != t:
        vs.append(Violation("long:value", f"got {v!r:.300}, want {t!r:.300}"))
    if bool(fl.get_all_errors()) != (case["end"] != "ok"):
        vs.append(Violation("long:errors", str([str(e) for e in fl.get_all_errors()][:3])))
    return Result(vs)


# ------------------------------------------------------------------ nested inside the own chain
def build_self(ch):
    return {"where": ch.pick("where", ["c1 in F", "c2 in c1", "c1 in c2", "F in c1", "c2 in F"], free=True), "esc": ch.flag("esc", free=True), "deep": ch.flag("deep", free=True)}


def run_self(case):
    """A piece within another piece of its own chain: a defect, which must stay local."""
    inner, outer = case["where"].split(" in ")
    g = {"F": "c1", "c1": "c2", "c2": None}

    def el(x, content):
        ca = f' continuedAt="{g[x]}"' if g[x] else ""
        if x == "F":
            e = ' escape="true"' if case["esc"] else ""
            return f'<ix:nonNumeric id="F" name="t:Text" contextRef="c1"{e}{ca}>{content}</ix:nonNumeric>'
        return f'<ix:continuation id="{x}"{ca}>{content}</ix:continuation>'

    body = ""
    for x in g:
        if x == inner:
            continue
        c = f"[{x}]"
        if x == outer:
            i = el(inner, f"[{inner}]")
            c += f"<div><b>{i}</b></div>" if case["deep"] else i
        body += f"<p>{el(x, c)}</p>"
    body += '<p><ix:nonNumeric id="O" name="t:Text" contextRef="c1">other</ix:nonNumeric></p>'
    RELS[:] = []
    fl = obs.open_files(docs(body), "p0.xhtml")
    vs = []
    got = {f.get_id(): f.get_value_as_str() for f in fl.get_all_facts()}
    if got.get("O") != "other" or set(got) - {"O", "F"}:
        vs.append(Violation("self:others", str(got)))
    if not fl.get_all_errors():
        vs.append(Violation("self:errors", f"{case['where']} is not reported"))
    return Result(vs)


def scenarios(tier):
    q = tier != "thorough"
    return [
        *borrowed("p12", tier, ix_content=1),
        Scenario("graphs", build_graphs(2, 3, False), run_graphs, {"quick": 1, "thorough": 2}, "all continuation graphs of 2 facts and 3 continuations"),
        Scenario("graphs-orders", build_graphs(2, 2, False), run_graphs, {"quick": 2, "thorough": 2}, "all continuation graphs of 2 facts and 2 continuations in several document orders, escaped or not"),
        Scenario("graphs-footnote", build_graphs(2, 2, True), run_graphs, {"quick": 1, "thorough": 2}, "all continuation graphs of a fact, a footnote and 2 continuations"),
        Scenario("content", build_content, run_content, {"quick": 3, "thorough": 4}, "contents, escaping, order, nesting and pages of a chain"),
        Scenario("long", build_long, run_long, None, "chains of up to 300 pieces, closed, circular or dangling"),
        Scenario("self", build_self, run_self, None, "pieces nested in their own chain"),
    ]
