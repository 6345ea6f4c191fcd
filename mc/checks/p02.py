"""P02: an inline XBRL report means the same as the equivalent plain XBRL instance."""
import itertools
from decimal import Decimal, InvalidOperation
from xml.sax.saxutils import escape

import common as k
import obs
import xb
from checks.p05 import canon_fragment
from core import Prune, Result, Scenario, Violation, borrowed

TECHNIQUE = "differential model checking: every state of a bounded model of reports (values, contexts, units, footnotes, positions in the page, distribution over pages, namespaces and syntax) is rendered both as a plain instance and as inline XBRL, both are opened with Filing.open, and everything that they report is compared with each other and with the model"
ASSUMPTIONS = [
    "numbers are compared as numbers and escaped content as XML fragments",
    "one target document, no inline fractions and tuples (reported by brel as not supported)",
]
AR_FF = "http://ex.org/arcrole/fact-fact"

# value -> (concept, plain text, inline element, attributes, inline content)
IXT = "ixt:"
VALUES = {
    "int": ("t:Cash", "1234", "nonFraction", {}, "1234"),
    "dec": ("t:Cash", "0.50", "nonFraction", {}, "0.50"),
    "dot": ("t:Cash", "1234567.5", "nonFraction", {"format": "ixt:num-dot-decimal"}, "1,234,567.5"),
    "comma": ("t:Cash", "1234567.5", "nonFraction", {"format": "ixt:num-comma-decimal"}, "1.234.567,5"),
    "scale": ("t:Cash", "1200000", "nonFraction", {"scale": "6"}, "1.2"),
    "scale-": ("t:Ratio", "0.125", "nonFraction", {"scale": "-2"}, "12.5"),
    "sign": ("t:Cash", "-42", "nonFraction", {"sign": "-"}, "42"),
    "zero": ("t:Cash", "0", "nonFraction", {"format": "ixt:fixed-zero"}, "-"),
    "nil": ("t:Cash", None, "nonFraction", {"xsi:nil": "true"}, ""),
    "nil 1": ("t:Cash", None, "nonFraction", {"xsi:nil": "1"}, ""),
    "escaped 1": ("t:Text", "one <b>two</b>", "nonNumeric", {"escape": "1"}, "one <b>two</b>"),
    "escaped 0": ("t:Text", "one two", "nonNumeric", {"escape": "0"}, "one <b>two</b>"),
    "escaped false": ("t:Text", "one two", "nonNumeric", {"escape": "false"}, "one <b>two</b>"),
    "nested": ("t:Cash", "77", "nonFraction", {}, '<ix:nonFraction id="IN" name="t:Cost" contextRef="{ctx}" unitRef="{unit}" decimals="0">77</ix:nonFraction>'),
    "text": ("t:Text", "a text", "nonNumeric", {}, "a text"),
    "space": ("t:Text", "  two  words ", "nonNumeric", {}, "  two  words "),
    "entities": ("t:Text", '1 < 2 & "3" €', "nonNumeric", {}, "1 &lt; 2 &amp; &quot;3&quot; &#x20AC;"),
    "markup": ("t:Text", "one two three", "nonNumeric", {}, "one <b>two</b> three"),
    "escaped": ("t:Text", "one <b>two &amp; x</b> three", "nonNumeric", {"escape": "true"}, "one <b>two &amp; x</b> three"),
    "escaped text": ("t:Text", "1 &lt; 2", "nonNumeric", {"escape": "true"}, "1 &lt; 2"),
    "escaped amp": ("t:Text", 'R&amp;D &lt;x&gt; <b>y &amp; "z"</b> &amp; \'q\' &gt;', "nonNumeric", {"escape": "true"}, 'R&amp;D &lt;x&gt; <b>y &amp; "z"</b> &amp; \'q\' &gt;'),
    "escaped attr": ("t:Text", '<i title="1 &lt; 2 &amp; &quot;x&quot;">l</i><br/> &amp; <i class="A b"/>', "nonNumeric", {"escape": "true"}, '<i title="1 &lt; 2 &amp; &quot;x&quot;">l</i><br/> &amp; <i class="A b"/>'),
    "escaped cdata": ("t:Text", 'a &lt;b&gt; <u>&amp;amp;</u>', "nonNumeric", {"escape": "true"}, 'a <![CDATA[<b>]]> <u><![CDATA[&amp;]]></u>'),
    "markup amp": ("t:Text", 'R&D <x> "y" & z &amp;', "nonNumeric", {}, 'R&amp;D &lt;x&gt; <b>"y" &amp; z</b> &amp;amp;'),
    "cdata": ("t:Text", "a <b> &amp; c", "nonNumeric", {}, "a <![CDATA[<b> &amp;]]> c"),
    "exclude": ("t:Text", "one three", "nonNumeric", {}, "one<ix:exclude> two<b> x</b></ix:exclude> three"),
    "comment": ("t:Text", "one two", "nonNumeric", {}, "one<!-- no --> two"),
    "nested text": ("t:Text", "A inner B", "nonNumeric", {}, 'A <ix:nonNumeric id="IN" name="t:Text" contextRef="{ctx}">inner</ix:nonNumeric> B'),
    "nested number": ("t:Text", "A 5 B", "nonNumeric", {}, 'A <ix:nonFraction id="IN" name="t:Cost" contextRef="{ctx}" unitRef="usd" decimals="0">5</ix:nonFraction> B'),
    "empty": ("t:Text", "", "nonNumeric", {}, ""),
    "date": ("t:Day", "2023-12-31", "nonNumeric", {"format": "ixt:date-day-monthname-year-en"}, "31 December 2023"),
    "flag": ("t:Flag", "true", "nonNumeric", {"format": "ixt:fixed-true"}, "yes"),
    "continued": ("t:Text", "one two three", "nonNumeric", {"continuedAt": "k1"}, "one "),
    "nil text": ("t:Text", None, "nonNumeric", {"xsi:nil": "true"}, ""),
}
INNER = {"nested": ("t:Cost", "77", True), "nested text": ("t:Text", "inner", False), "nested number": ("t:Cost", "5", True)}
CONT = '<p><ix:continuation id="k1" continuedAt="k2">two</ix:continuation></p>', '<p><ix:continuation id="k2"> three</ix:continuation></p>'

CTXS = {
    "duration": {"period": k.D23},
    "instant": {"period": k.I23},
    "dims": {"period": k.D23, "dims": [("e", "t:AxisA", "t:M1"), ("t", "t:AxisT", "t:dom", "x & y")]},
    "scenario": {"period": k.I23, "dims": [("e", "t:AxisB", "t:M2")], "where": "scenario"},
    "forever": {"period": ("x", "<xbrli:forever/>")},
    "time": {"period": ("x", "<xbrli:startDate>2023-01-01T00:00:00</xbrli:startDate><xbrli:endDate>2024-01-01T00:00:00</xbrli:endDate>", list(k.D23))},
    "entity": {"period": k.D23, "ident": "E2", "scheme": "http://ex.org/other"},
}
UNITS = {
    "usd": {"nums": ["iso4217:USD"]},
    "perShare": {"nums": ["iso4217:USD"], "dens": ["xbrli:shares"]},
    "E1": {"nums": ["xbrli:pure"]},
    "many": {"nums": ["t:Barrel", "iso4217:USD"], "dens": ["t:Day", "xbrli:shares"]},
}
_T = None


def taxonomy():
    global _T
    _T = _T or xb.schema(k.base_schema(arcroles=[{"uri": AR_FF, "id": "aff", "usedOn": ["link:footnoteArc"]}]))
    return _T


# ------------------------------------------------------------------ a report: facts, contexts, units, notes
def plain_fact(f):
    concept, text, el, at, _ = VALUES[f["v"]]
    num = el == "nonFraction"
    d = {"id": f.get("id"), "c": concept, "ctx": f["ctx"], "unit": f["unit"] if num else None, "rawval": escape(text or "")}
    if num and text is not None:
        d["dec"], d["prec"] = f.get("dec"), f.get("prec")
    if text is None:
        d["nil"] = True
    return d


def inner_fact(f):
    c, v, num = INNER[f["v"]]
    d = {"id": "IN", "c": c, "ctx": f["ctx"], "val": v}
    if num:
        d["unit"], d["dec"] = (f["unit"] if f["v"] == "nested" else "usd"), "0"
    return d


def inline_fact(f):
    concept, text, el, at, body = VALUES[f["v"]]
    a = {"id": f.get("id"), "name": concept, "contextRef": f["ctx"]}
    if el == "nonFraction":
        a["unitRef"] = f["unit"]
        if text is not None:
            a["decimals"], a["precision"] = f.get("dec"), f.get("prec")
    a.update(at)
    body = body.replace("{ctx}", f["ctx"]).replace("{unit}", f.get("unit") or "usd")
    return f"<ix:{el}{xb.attrs(a)}>{body}</ix:{el}>"


def plain_report(r):
    facts, links = [], []
    for f in r["facts"]:
        facts.append(plain_fact(f))
        if f["v"] in INNER:
            facts.append(inner_fact(f))
    for n, (frm, to, order) in enumerate(r.get("rels", ())):
        body = [xb.locator("f", "#" + x) for x in frm]
        note = [x for x in to if x in r["notes"]]
        body += [xb.resource("footnote", "n", r["notes"][x], lang="en") for x in note] + [xb.locator("n", "#" + x) for x in to if x not in r["notes"]]
        body.append(xb.arc("footnoteArc", "f", "n", xb.AR_FOOT if note else AR_FF, order=order))
        links.append(xb.link("footnoteLink", xb.ROLE_LINK, body))
    return xb.instance(
        {
            "nsmap": {"t": k.T},
            "schemaRefs": ["t.xsd"],
            "contexts": [dict(CTXS[c], id=c) for c in r["ctx"]],
            "units": [dict(UNITS[u], id=u) for u in r["units"]],
            "facts": facts,
            "links": links,
        }
    )


def ctx_xml(c):
    return xb.context_xml(dict(CTXS[c], id=c))


def unit_xml(u):
    return xb.unit_xml(dict(UNITS[u], id=u))


def rel_xml(rel, notes):
    frm, to, order = rel
    ar = None if to[0] in notes else AR_FF
    return f'<ix:relationship{xb.attrs({"fromRefs": " ".join(frm), "toRefs": " ".join(to), "arcrole": ar, "order": order})}/>'


def note_xml(n, text):
    return f'<div><ix:footnote id="{n}" xml:lang="en">{text}</ix:footnote></div>\n'


def canon_value(f):
    v = f.get_value_as_str()
    c = f.get_concept()
    if c.is_numeric():
        try:
            return format(Decimal(v).normalize(), "f").replace("-0", "0") if Decimal(v) == 0 else format(Decimal(v).normalize(), "f")
        except InvalidOperation:
            return v
    if "<" in v or "&" in v:
        return [canon_fragment(v) or v]
    return v


def view(fl):
    from brel.networks import FootnoteNetwork

    fs = []
    for f in fl.get_all_facts():
        d = obs.fact_full(f)
        d["val"] = canon_value(f)
        fs.append(d)
    els = sorted([type(e).__name__, obs.clark(e.get_name())] for e in fl.get_all_report_elements())
    foot = [list(x) for x in {obs.key(r): r for r in obs.footnotes(fl)}.values()]
    return {"facts": fs, "elements": els, "footnotes": foot, "errors": [str(e) for e in fl.get_all_errors()], "nets": sum(not isinstance(n, FootnoteNetwork) for n in fl.get_all_physical_networks()), "components": sorted(c.get_URI() for c in fl.get_all_components())}


_PLAIN = {}


def plain_view(r):
    key = obs.key(r)
    if key not in _PLAIN:
        if len(_PLAIN) > 500:
            _PLAIN.clear()
        _PLAIN[key] = view(obs.open_files({"t.xsd": taxonomy(), "i.xml": plain_report(r)}, "i.xml"))
    return _PLAIN[key]


def want_facts(r):
    """what the model says about the facts"""
    out = []
    for f in r["facts"]:
        concept, text, el, at, _ = VALUES[f["v"]]
        fs = [(f.get("id"), concept, text or "", el == "nonFraction", f, f.get("dec") if text is not None else None, f.get("prec") if text is not None else None, f["unit"])]
        if f["v"] in INNER:
            c, v, num = INNER[f["v"]]
            fs.append(("IN", c, v, num, f, "0" if num else None, None, f["unit"] if f["v"] == "nested" else "usd"))
        for i, c, v, num, f, dec, prec, unit in fs:
            x = CTXS[f["ctx"]]
            if num and v:
                v = format(Decimal(v).normalize(), "f")
            elif "<" in v or "&" in v:
                v = [canon_fragment(v) or v]
            out.append(
                {
                    "id": i,
                    "val": v,
                    "c": k.q(c),
                    "per": (x["period"] + (None,))[2] if x["period"][0] == "x" else list(x["period"]),
                    "ent": [x.get("scheme", "http://ex.org/scheme"), x.get("ident", "E1")],
                    "unit": k.want_unit(UNITS[unit]) if num else None,
                    "dims": k.want_dims(x.get("dims")),
                    "dec": obs.num(dec) if num else None,
                    "prec": obs.num(prec) if num else None,
                }
            )
    return out


def compare(name, r, docs, what, case):
    p = plain_view(r)
    i = view(obs.open_files({"t.xsd": taxonomy(), **docs}, what))
    ps = []
    m, e = obs.diff_multiset(i["facts"], p["facts"])
    if m or e:
        ps.append(("facts", f"only plain {m}, only inline {e}"))
    m, e = obs.diff_multiset(p["facts"], want_facts(r))
    if m or e:
        ps.append(("model", f"the plain instance misses {m} and has {e}"))
    for a in ("elements", "nets", "components", "errors"):
        if i[a] != p[a]:
            ps.append((a, f"plain {p[a]}, inline {i[a]}"))
    if p["errors"]:
        ps.append(("plain-errors", f"{p['errors']}"))
    m, e = obs.diff_multiset(i["footnotes"], p["footnotes"])
    if m or e:
        ps.append(("footnotes", f"only plain {m}, only inline {e}"))
    return Result([Violation(f"{name}:{a}", b + f"   [{case}]") for a, b in ps])


def header(hidden="", refs="", resources="", before_refs=False):
    h = f"<ix:hidden>{hidden}</ix:hidden>" if hidden else ""
    f = f"<ix:references>{refs}</ix:references>" if refs else ""
    s = f"<ix:resources>{resources}</ix:resources>" if resources else ""
    return f"<ix:header>{h}{f}{s}</ix:header>"


def page(body, hdr, ns=None, where="top"):
    n = {"": xb.XHTML, "ix": xb.IX, **xb.STD_NS, "ixt": "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12", "t": k.T, **(ns or {})}
    h = f'<div style="display:none">{hdr}</div>\n' if hdr else ""
    b = h + body if where == "top" else body + h
    return f'<?xml version="1.0" encoding="UTF-8"?>\n<html{xb.nsdecl(n)}><head><title>t</title></head><body>{b}</body></html>\n'


# ------------------------------------------------------------------ values and positions
PLACES = ["p", "table", "hidden", "deep", "in text", "in exclude", "in continuation", "in footnote", "before header", "attribute noise"]


def build_values(ch):
    v = ch.pick("v", list(VALUES), free=True)
    place = ch.pick("place", PLACES, free=True)
    if v in ("continued",) and place in ("in continuation",):
        raise Prune()
    return {
        "v": v,
        "place": place,
        "ctx": ch.pick("ctx", list(CTXS)),
        "unit": ch.pick("unit", list(UNITS)),
        "id": ch.pick("id", ["F", None]),
        "dec": ch.pick("dec", [("0", None), ("-6", None), ("INF", None), (None, "4"), (None, None), (" INF ", None), (" 2\n", None), (None, " 4 ")]),
        "second": ch.pick("second", [None] + [x for x in VALUES if x not in ("nested", "nested text", "nested number", "continued", "nil 1", "escaped 1", "escaped 0", "escaped false")]),
        "note": ch.flag("note"),
    }


def run_values(case):
    f = {"id": case["id"], "v": case["v"], "ctx": case["ctx"], "unit": case["unit"], "dec": case["dec"][0], "prec": case["dec"][1]}
    r = {"facts": [f], "ctx": list(dict.fromkeys([case["ctx"], "duration"])), "units": list(dict.fromkeys([case["unit"], "usd"])), "notes": {}, "rels": []}
    x = inline_fact(f)
    hidden, after = "", ""
    if case["second"]:
        g = {"id": "G", "v": case["second"], "ctx": "duration", "unit": "usd", "dec": "2"}
        r["facts"].append(g)
        after = f"<p>{inline_fact(g)}</p>"
    if case["v"] == "continued":
        after = CONT[1] + after + CONT[0]
    place = case["place"]
    outer = None
    if place == "p":
        body = f"<p>{x}</p>"
    elif place == "table":
        body = f"<table><tbody><tr><td>USD</td><td> {x} </td></tr></tbody></table>"
    elif place == "hidden":
        hidden, body = x, "<p>-</p>"
    elif place == "deep":
        body = "<div><span>" * 4 + x + "</span></div>" * 4
    elif place == "before header":
        body = f"<p>{x}</p>"
    elif place == "attribute noise":
        body = f'<p class="a b" style="color:red" id="p1">{x.replace("<ix:", chr(10) + "<ix:", 1)}</p><!-- {"x"} -->'
    else:
        outer = {"id": "O", "v": "text", "ctx": "duration", "unit": "usd"}
        w = '<ix:nonNumeric id="O" name="t:Text" contextRef="duration"'
        if place == "in text":
            # the text of the fact is part of the text of the outer one: make it invisible
            body = f"<div>{w}>a text<ix:exclude>{x}</ix:exclude></ix:nonNumeric></div>"
        elif place == "in exclude":
            body = f"<div>{w}>a<ix:exclude> no {x} no </ix:exclude> text</ix:nonNumeric></div>"
        elif place == "in continuation":
            body = f'<div>{w} continuedAt="kk">a </ix:nonNumeric></div><div><ix:continuation id="kk">text<ix:exclude>{x}</ix:exclude></ix:continuation></div>'
        else:
            body = f'<div>{w}>a text</ix:nonNumeric></div><div><ix:footnote id="NN" xml:lang="en">note<ix:exclude>{x}</ix:exclude></ix:footnote></div>'
            r["notes"]["NN"] = "note"
            r["rels"].append((["O"], ["NN"], None))
        r["facts"].append(outer)
    if case["note"] and case["id"]:
        r["notes"]["N"] = "a note"
        r["rels"].append((["F"], ["N"], "2"))
        after += note_xml("N", "a note")
    res = "".join(ctx_xml(c) for c in r["ctx"]) + "".join(unit_xml(u) for u in r["units"]) + "".join(rel_xml(y, r["notes"]) for y in r["rels"])
    doc = page(body + after, header(hidden, xb.schema_ref("t.xsd"), res), where="bottom" if place == "before header" else "top")
    return compare("values", r, {"a.xhtml": doc}, "a.xhtml", case)


# ------------------------------------------------------------------ distribution over pages
def build_pages(ch):
    n = ch.pick("pages", [2, 3], free=True)
    at = lambda nm: ch.pick(nm, n, free=True)
    return {
        "n": n,
        "f": [0, at("f1"), at("f2")],
        "ctx": [at("c0"), at("c1")],
        "unit": at("u"),
        "cont": [ch.pick("k1", n), at("k2")],
        "note": ch.pick("note", [None] + list(range(n))),
        "rel": ch.pick("rel", n),
        "refs": ch.pick("refs", n),
        "refs2": ch.pick("refs2", [None, 0, 1]),
        "headers": ch.pick("headers", ["one", "two per page"]),
        "open": ch.pick("open", ["folder", "names reversed"]),
    }


def run_pages(case):
    n = case["n"]
    fs = [
        {"id": "F0", "v": "scale", "ctx": "duration", "unit": "usd", "dec": "-3"},
        {"id": "F1", "v": "continued", "ctx": "dims", "unit": "usd"},
        {"id": "F2", "v": "dot", "ctx": "duration", "unit": "usd", "dec": "1"},
    ]
    r = {"facts": fs, "ctx": ["duration", "dims"], "units": ["usd"], "notes": {}, "rels": []}
    body, res, refs = [""] * n, [""] * n, [""] * n
    for f, p in zip(fs, case["f"]):
        body[p] += f"<p>{inline_fact(f)}</p>\n"
    for c, p in zip(r["ctx"], case["ctx"]):
        res[p] += ctx_xml(c)
    res[case["unit"]] += unit_xml("usd")
    for c, p in zip(CONT, case["cont"]):
        body[p] = c + body[p]
    if case["note"] is not None:
        r["notes"]["N"] = "a note"
        r["rels"].append((["F0", "F2"], ["N"], "2"))
        body[case["note"]] += note_xml("N", "a note")
        res[case["rel"]] += rel_xml(r["rels"][0], r["notes"])
    refs[case["refs"]] += xb.schema_ref("t.xsd")
    if case["refs2"] is not None and case["refs2"] != case["refs"] and case["refs2"] < n:
        refs[case["refs2"]] += xb.schema_ref("t.xsd")
    docs = {}
    names = "abc"[:n] if case["open"] == "folder" else "cba"[3 - n :]
    for p in range(n):
        h = ""
        if res[p] or refs[p]:
            if case["headers"] == "two per page" and res[p] and refs[p]:
                h = header("", refs[p]) + header("", "", res[p])
            else:
                h = header("", refs[p], res[p])
        docs[f"{names[p]}.xhtml"] = page(body[p] or "<p>x</p>", h)
    return compare("pages", r, docs, None, case)


# ------------------------------------------------------------------ syntax
def build_syntax(ch):
    return {
        "v": ch.pick("v", ["dot", "escaped", "nested", "continued", "date", "exclude"], free=True),
        "ix": ch.pick("ix", ["ix", "inline", "i", "xbrli2"]),
        "html": ch.pick("html", ["", "h", "html"]),
        "ixt": ch.pick("ixt", ["ixt", "ixt4", "t2", "xbrl-trans"]),
        "xbrli": ch.pick("xbrli", ["xbrli", "", "x"]),
        "tax": ch.pick("tax", ["t", "ex", "ix2", "xbrl"]),
        "link": ch.pick("link", ["link", "l"]),
        "xlink": ch.pick("xlink", ["xlink", "xl"]),
        "local": ch.flag("local declarations"),
        "enc": ch.pick("enc", ["UTF-8", "utf-8-sig", "UTF-16", "ISO-8859-1", "none"]),
        "space": ch.pick("space", ["none", "attributes", "newlines"]),
        "comment": ch.flag("comments"),
        "file": ch.pick("file", ["a.xhtml", "A B.xhtml", "a.b.xhtml", "folder", "ä.xhtml"]),
        "note": ch.flag("note", free=True),
        "title": ch.flag("title attributes"),
    }


def run_syntax(case):
    f = {"id": "F", "v": case["v"], "ctx": "dims", "unit": "perShare", "dec": "0"}
    g = {"id": "G", "v": "entities", "ctx": "instant", "unit": "usd"}
    r = {"facts": [f, g], "ctx": ["dims", "instant"], "units": ["perShare"], "notes": {}, "rels": []}
    body = f"<p>{inline_fact(f)}</p>\n<p>{inline_fact(g)}</p>\n" + (CONT[0] + CONT[1] if case["v"] == "continued" else "")
    if case["note"]:
        r["notes"]["N"] = "a note"
        r["rels"].append((["F"], ["N"], None))
        r["rels"].append((["F"], ["G"], "3"))
        body += note_xml("N", "a note")
    res = "".join(map(ctx_xml, r["ctx"])) + "".join(map(unit_xml, r["units"])) + "".join(rel_xml(y, r["notes"]) for y in r["rels"])
    doc = page(body, header("", xb.schema_ref("t.xsd"), res))
    # other prefixes for the same namespaces
    import re

    def rename(old, new, doc):
        doc = re.sub(rf"<(/?){old}:", (lambda m: f"<{m[1]}{new}:" if new else f"<{m[1]}"), doc)
        doc = re.sub(rf' {old}:(href|type|role|arcrole|from|to|label)=', rf" {new}:\1=", doc) if old == "xlink" else doc
        return doc

    if case["html"]:
        doc = re.sub(r"<(/?)(html|head|title|body|div|p|table|tbody|tr|td|b|span)\b", rf"<\1{case['html']}:\2", doc)
        doc = doc.replace(f'xmlns="{xb.XHTML}"', f'xmlns:{case["html"]}="{xb.XHTML}"', 1)
    if case["ix"] != "ix":
        doc = rename("ix", case["ix"], doc).replace(f'xmlns:ix="{xb.IX}"', f'xmlns:{case["ix"]}="{xb.IX}"')
    if case["ixt"] != "ixt":
        doc = doc.replace('"ixt:', f'"{case["ixt"]}:').replace("xmlns:ixt=", f"xmlns:{case['ixt']}=")
    if case["xbrli"] != "xbrli":
        p = case["xbrli"]
        if p:
            doc = rename("xbrli", p, doc).replace("xmlns:xbrli=", f"xmlns:{p}=").replace(">xbrli:", f">{p}:")
        else:
            # contexts and units in the default namespace; the measures still use a prefix
            doc = re.sub(r"<xbrli:(context|unit) ", rf'<\1 xmlns="{xb.XBRLI}" ', doc)
            doc = re.sub(r"<(/?)xbrli:", r"<\1", doc)
    if case["tax"] != "t":
        p = case["tax"]
        doc = doc.replace('name="t:', f'name="{p}:').replace('dimension="t:', f'dimension="{p}:').replace(">t:", f">{p}:").replace("<t:", f"<{p}:").replace("</t:", f"</{p}:").replace("xmlns:t=", f"xmlns:{p}=")
    if case["link"] != "link":
        doc = rename("link", case["link"], doc).replace("xmlns:link=", f"xmlns:{case['link']}=")
    if case["xlink"] != "xlink":
        doc = doc.replace(" xlink:", f" {case['xlink']}:").replace("xmlns:xlink=", f"xmlns:{case['xlink']}=")
    if case["local"]:
        p = case["tax"]
        decl = f' xmlns:{p}="{k.T}"'
        doc = doc.replace(decl, "", 1)
        doc = re.sub(r"(<(?:\w[\w-]*:)?(?:nonNumeric|nonFraction|explicitMember|typedMember)\b)", rf"\1{decl}", doc)
    if case["space"] == "attributes":
        doc = re.sub(r'="', r' = "', doc.split("?>", 1)[1])
        doc = '<?xml version="1.0" encoding="UTF-8"?>' + doc
    elif case["space"] == "newlines":
        doc = doc.replace(" contextRef=", "\n\t contextRef=").replace(" unitRef=", "\r\n unitRef=")
    if case["comment"]:
        doc = doc.replace("<p>", "<!-- <p>no</p> --><p>").replace("</p>", "<?pi x?></p>")
        c = case["ix"]
        doc = doc.replace(f"<{c}:resources>", f"<!-- x --><{c}:resources><!-- y --><?pi x?>")
    if case["title"]:
        doc = doc.replace(" contextRef=", ' data-x="1" contextRef=')
    enc = case["enc"]
    if enc == "none":
        raw = doc.replace('<?xml version="1.0" encoding="UTF-8"?>\n', "").encode()
    elif enc == "utf-8-sig":
        raw = doc.encode("utf-8-sig")
    else:
        raw = doc.replace('encoding="UTF-8"', f'encoding="{enc}"').encode(enc, "xmlcharrefreplace")
    name = case["file"] if case["file"] != "folder" else "a.xhtml"
    return compare("syntax", r, {name: raw}, None if case["file"] == "folder" else name, case)


# ------------------------------------------------------------------ several facts
def build_combos(ch):
    vs = list(VALUES)
    a = ch.pick("a", vs, free=True)
    b = ch.pick("b", vs, free=True)
    if a in INNER and b in INNER or (a == "continued" and b == "continued"):
        raise Prune()
    return {
        "vs": [a, b],
        "ctx": [ch.pick("ca", ["duration", "dims", "instant"]), ch.pick("cb", ["duration", "scenario", "entity"])],
        "unit": ch.pick("unit", ["usd", "perShare"]),
        "layout": ch.pick("layout", ["one paragraph", "two", "table", "nested exclude"]),
        "dup": ch.pick("dup", ["no", "same", "no ids"]),
    }


def run_combos(case):
    fs = []
    for i, (v, c) in enumerate(zip(case["vs"], case["ctx"])):
        fs.append({"id": None if case["dup"] == "no ids" else f"F{i}", "v": v, "ctx": c, "unit": case["unit"] if i else "usd", "dec": "1" if i else "0"})
    if case["dup"] == "same" and case["vs"][0] not in INNER and case["vs"][0] != "continued":
        fs.append(dict(fs[0], id="F9"))
    r = {"facts": fs, "ctx": list(dict.fromkeys(f["ctx"] for f in fs)), "units": list(dict.fromkeys(["usd", case["unit"]])), "notes": {}, "rels": []}
    xs = [inline_fact(f) for f in fs]
    lay = case["layout"]
    if lay == "one paragraph":
        body = "<p>" + " and ".join(xs) + "</p>"
    elif lay == "two":
        body = "".join(f"<div>{x}</div>" for x in xs)
    elif lay == "table":
        body = "<table>" + "".join(f"<tr><td>{x}</td><td>)</td></tr>" for x in xs) + "</table>"
    else:
        body = "".join(f"<div><span>{x}</span></div>" for x in xs[::-1])
    if "continued" in case["vs"]:
        body += "".join(CONT)
    res = "".join(map(ctx_xml, r["ctx"])) + "".join(map(unit_xml, r["units"]))
    return compare("combos", r, {"a.xhtml": page(body, header("", xb.schema_ref("t.xsd"), res))}, "a.xhtml", case)


# ------------------------------------------------------------------ large pages and values
def build_sizes(ch):
    return {
        "big": ch.pick("big", ["depth", "attribute", "attribute of the fact", "text", "comment", "value", "value of a continuation", "escaped value", "items"]),
        "n": ch.pick("n", [1, 250, 260, 600]),
        "v": ch.pick("v", ["dot", "text", "escaped"]),
    }


def run_sizes(case):
    f = {"id": "F", "v": case["v"], "ctx": "duration", "unit": "usd", "dec": "0"}
    n, big = case["n"], case["big"]
    r = {"facts": [f], "ctx": ["duration"], "units": ["usd"], "notes": {}, "rels": []}
    x = inline_fact(f)
    much = "x" * (n * 40000)  # the limits of XML parsers are 256 levels and ten million characters
    body, res = f"<p>{x}</p>", ctx_xml("duration") + unit_xml("usd")
    if big == "depth":
        body = "<div>" * n + body + "</div>" * n
    elif big == "attribute":
        body = f'<p><img alt="" src="data:image/png;base64,{much}"/></p>' + body
    elif big == "attribute of the fact":
        body = body.replace(" contextRef=", f' title="{much}" contextRef=', 1)
    elif big == "text":
        body = f"<p>{much}</p>" + body
    elif big == "comment":
        body = f"<!-- {much} -->" + body
    elif big == "items":
        r["facts"] = [dict(f, id=f"F{i}") for i in range(n)]
        body = "".join(f"<p>{inline_fact(g)}</p>" for g in r["facts"])
    else:
        a = ' escape="true"' if big == "escaped value" else ""
        c = ' continuedAt="kk"' if big == "value of a continuation" else ""
        body += f'<p><ix:nonNumeric id="G" name="t:Text" contextRef="duration"{a}{c}>{"a" if c else much}</ix:nonNumeric></p>'
        body += f'<p><ix:continuation id="kk">{much}</ix:continuation></p>' if c else ""
        docs = {"t.xsd": taxonomy(), "a.xhtml": page(body, header("", xb.schema_ref("t.xsd"), res))}
        fl = obs.open_files(docs, "a.xhtml")
        got = {g.get_id() if hasattr(g, "get_id") else g._get_id(): g.get_value_as_str() for g in fl.get_all_facts()}
        want = ("a" if c else "") + much
        if set(got) != {"F", "G"} or got["G"] != want or fl.get_all_errors():
            return Result([Violation("sizes:value", f"facts {[(i, len(v)) for i, v in got.items()]}, errors {[str(e)[:200] for e in fl.get_all_errors()]}   [{case}]")])
        return Result([])
    return compare("sizes", r, {"a.xhtml": page(body, header("", xb.schema_ref("t.xsd"), res))}, "a.xhtml", case)


def scenarios(tier):
    return [
        *borrowed("p06", tier, inline=1),
        *borrowed("p12", tier, inline=0, ix_defects=0),
        *borrowed("p05", tier, content=1, graphs_footnote=0, self=None),
        *borrowed("p03", tier, nested=0, attrs=None),
        *borrowed("p04", tier, fixed=None),
        Scenario("sizes", build_sizes, run_sizes, {"quick": None, "thorough": None}, "deep pages, long attributes, texts and values, many facts", batch=4),
        Scenario("values", build_values, run_values, {"quick": 1, "thorough": 3}, "value x place in the page x context, unit, id, decimals, second fact, footnote", batch=8),
        Scenario("pages", build_pages, run_pages, {"quick": 1, "thorough": 3}, "all distributions of facts, contexts, units, continuations, footnotes and references over two or three pages", batch=8),
        Scenario("syntax", build_syntax, run_syntax, {"quick": 2, "thorough": 3}, "prefixes, encodings, declarations, comments, file names", batch=8),
        Scenario("combos", build_combos, run_combos, {"quick": 1, "thorough": 3}, "pairs of values", batch=8),
    ]
