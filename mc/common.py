"""A small self-contained taxonomy shared by several checks."""
import xb

T = "http://ex.org/t"
U = "http://ex.org/u"


def C(n, type="xbrli:monetaryItemType", **k):
    return {"n": n, "kind": "concept", "type": type, **k}


def base_schema(**over):
    s = {
        "ns": T,
        "prefix": "t",
        "elements": [
            C("Cash"),
            C("Cost"),
            C("Text", "xbrli:stringItemType"),
            C("Shares", "xbrli:sharesItemType"),
            C("Ratio", "xbrli:pureItemType"),
            C("Flag", "xbrli:booleanItemType"),
            C("Day", "xbrli:dateItemType"),
            C("Count", "xbrli:integerItemType"),
            {"n": "Abs", "kind": "abstract"},
            {"n": "Cube", "kind": "hypercube"},
            {"n": "AxisA", "kind": "dimension"},
            {"n": "AxisB", "kind": "dimension"},
            {"n": "AxisT", "kind": "dimension", "typedDomainRef": "#t_dom"},
            {"n": "AxisS", "kind": "dimension", "typedDomainRef": "#t_dom"},
            {"n": "M1", "kind": "member"},
            {"n": "M2", "kind": "member"},
            {"n": "M3", "kind": "member"},
            {"n": "StatementLineItems", "kind": "lineitems"},
        ],
        "raw": '<xs:element name="dom" id="t_dom" type="xs:string"/>\n',
    }
    s.update(over)
    return s


def other_schema(**over):
    s = {
        "ns": U,
        "prefix": "u",
        "elements": [
            C("Cash"),
            C("Profit"),
            C("Text", "xbrli:stringItemType"),
            {"n": "AxisA", "kind": "dimension"},
            {"n": "M1", "kind": "member"},
        ],
    }
    s.update(over)
    return s


NS = {"t": T, "u": U}
D23 = ("d", "2023-01-01", "2023-12-31")
I23 = ("i", "2023-12-31")
CTX = {"id": "c1", "period": D23}
USD = {"id": "usd", "nums": ["iso4217:USD"]}


def q(name, ns=None):
    """prefixed -> clark"""
    p, l = name.split(":")
    m = dict(xb.STD_NS)
    m.update(NS)
    m.update(ns or {})
    return "{" + m[p] + "}" + l


def want_dims(dims, ns=None):
    out = []
    for d in dims or ():
        if d[0] == "e":
            out.append(["e", q(d[1], ns), q(d[2], ns)])
        else:
            out.append(["t", q(d[1], ns), d[3]])
    return sorted(out)


def want_period(p):
    return list(p)


def want_unit(u, ns=None):
    if u is None:
        return None
    return [sorted(q(x, ns) for x in u["nums"]), sorted(q(x, ns) for x in u.get("dens", ()))]
