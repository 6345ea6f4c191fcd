"""Writers of small XBRL documents from abstract models (dicts)."""
import os
from xml.sax.saxutils import escape, quoteattr

XLINK = "http://www.w3.org/1999/xlink"
LINK = "http://www.xbrl.org/2003/linkbase"
XBRLI = "http://www.xbrl.org/2003/instance"
XBRLDI = "http://xbrl.org/2006/xbrldi"
XBRLDT = "http://xbrl.org/2005/xbrldt"
ISO = "http://www.xbrl.org/2003/iso4217"
IX = "http://www.xbrl.org/2013/inlineXBRL"
XHTML = "http://www.w3.org/1999/xhtml"
XS = "http://www.w3.org/2001/XMLSchema"
NUM = "http://www.xbrl.org/dtr/type/numeric"
NONNUM = "http://www.xbrl.org/dtr/type/non-numeric"

STD_NS = {
    "xlink": XLINK,
    "link": LINK,
    "xbrli": XBRLI,
    "xbrldi": XBRLDI,
    "xbrldt": XBRLDT,
    "iso4217": ISO,
    "xs": XS,
    "num": NUM,
    "nonnum": NONNUM,
    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
}

ROLE_LINK = "http://www.xbrl.org/2003/role/link"
AR_PC = "http://www.xbrl.org/2003/arcrole/parent-child"
AR_SUM = "http://www.xbrl.org/2003/arcrole/summation-item"
AR_LABEL = "http://www.xbrl.org/2003/arcrole/concept-label"
AR_REF = "http://www.xbrl.org/2003/arcrole/concept-reference"
AR_FOOT = "http://www.xbrl.org/2003/arcrole/fact-footnote"
DIM = "http://xbrl.org/int/dim/arcrole/"
LBL = "http://www.xbrl.org/2003/role/label"
R_REF = "http://www.xbrl.org/2003/role/reference"
R_FOOT = "http://www.xbrl.org/2003/role/footnote"


def nsdecl(ns):
    return "".join(f" xmlns{':' + p if p else ''}={quoteattr(u)}" for p, u in ns.items())


def attrs(d):
    return "".join(f" {k}={quoteattr(str(v))}" for k, v in d.items() if v is not None)


KINDS = {
    "concept": {"substitutionGroup": "xbrli:item", "type": "xbrli:monetaryItemType"},
    "abstract": {"substitutionGroup": "xbrli:item", "type": "xbrli:stringItemType", "abstract": "true"},
    "hypercube": {"substitutionGroup": "xbrldt:hypercubeItem", "type": "xbrli:stringItemType", "abstract": "true"},
    "dimension": {"substitutionGroup": "xbrldt:dimensionItem", "type": "xbrli:stringItemType", "abstract": "true"},
    "member": {"substitutionGroup": "xbrli:item", "type": "nonnum:domainItemType", "abstract": "true"},
    "lineitems": {"substitutionGroup": "xbrli:item", "type": "xbrli:stringItemType", "abstract": "true"},
}


def element(spec, prefix):
    a = {"name": spec["n"], "id": spec.get("id", f"{prefix}_{spec['n']}")}
    if a["id"] == "":
        del a["id"]
    a.update(KINDS.get(spec.get("kind", "concept"), {}))
    a["xbrli:periodType"] = spec.get("period", "duration")
    a.setdefault("nillable", "true")
    for k in ("type", "abstract", "nillable", "substitutionGroup"):
        if k in spec:
            a[k] = spec[k]
    if spec.get("balance"):
        a["xbrli:balance"] = spec["balance"]
    if spec.get("typedDomainRef"):
        a["xbrldt:typedDomainRef"] = spec["typedDomainRef"]
    a.update(spec.get("extra", {}))
    return f"<xs:element{attrs(a)}{spec.get('body') and '>' + spec['body'] + '</xs:element>' or '/>'}\n"


def schema(spec):
    """spec: ns, prefix, elements[], roles[{uri,id,definition,usedOn}], arcroles, refs[str],
    imports[(ns, loc)], includes[str], raw"""
    ns = dict(STD_NS)
    ns.update(spec.get("nsmap", {}))
    ns[spec["prefix"]] = spec["ns"]
    for k in spec.get("drop_ns", ()):
        ns.pop(k, None)
    out = [f'<?xml version="1.0" encoding="UTF-8"?>\n<xs:schema{nsdecl(ns)} targetNamespace={quoteattr(spec["ns"])} elementFormDefault="qualified">\n']
    app = []
    for r in spec.get("roles", ()):
        d = f"<link:definition>{escape(r['definition'])}</link:definition>" if r.get("definition") is not None else ""
        u = "".join(f"<link:usedOn>{x}</link:usedOn>" for x in r.get("usedOn", ()))
        app.append(f"<link:roleType{attrs({'roleURI': r['uri'], 'id': r.get('id')})}>{d}{u}</link:roleType>\n")
    for r in spec.get("arcroles", ()):
        u = "".join(f"<link:usedOn>{x}</link:usedOn>" for x in r.get("usedOn", ()))
        app.append(f"<link:arcroleType{attrs({'arcroleURI': r['uri'], 'id': r.get('id'), 'cyclesAllowed': 'any'})}>{u}</link:arcroleType>\n")
    for r in spec.get("refs", ()):
        app.append(f'<link:linkbaseRef xlink:type="simple" xlink:href={quoteattr(r)} xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>\n')
    app += spec.get("embedded", ())
    if app:
        out.append("<xs:annotation><xs:appinfo>\n" + "".join(app) + "</xs:appinfo></xs:annotation>\n")
    for n, loc in spec.get("imports", ()):
        out.append(f"<xs:import namespace={quoteattr(n)} schemaLocation={quoteattr(loc)}/>\n")
    for loc in spec.get("includes", ()):
        out.append(f"<xs:include schemaLocation={quoteattr(loc)}/>\n")
    for e in spec.get("elements", ()):
        out.append(element(e, spec["prefix"]))
    out.append(spec.get("raw", ""))
    out.append("</xs:schema>\n")
    return "".join(out)


def period_xml(p, pfx="xbrli:"):
    if p[0] == "i":
        return f"<{pfx}instant>{p[1]}</{pfx}instant>"
    if p[0] == "d":
        return f"<{pfx}startDate>{p[1]}</{pfx}startDate><{pfx}endDate>{p[2]}</{pfx}endDate>"
    return p[1]


def context_xml(c, pfx="xbrli:"):
    seg = ""
    dims = "".join(dim_xml(d) for d in c.get("dims", ()))
    where = c.get("where", "segment")
    scen = ""
    if dims:
        if where == "segment":
            seg = f"<{pfx}segment>{dims}</{pfx}segment>"
        else:
            scen = f"<{pfx}scenario>{dims}</{pfx}scenario>"
    return (
        f"<{pfx}context id={quoteattr(c['id'])}{nsdecl(c.get('ns', {}))}><{pfx}entity>"
        f"<{pfx}identifier scheme={quoteattr(c.get('scheme', 'http://ex.org/scheme'))}>{escape(c.get('ident', 'E1'))}</{pfx}identifier>"
        f"{seg}</{pfx}entity><{pfx}period>{period_xml(c['period'], pfx)}</{pfx}period>{scen}</{pfx}context>\n"
    )


def dim_xml(d):
    if d[0] == "e":
        return f"<xbrldi:explicitMember dimension={quoteattr(d[1])}>{d[2]}</xbrldi:explicitMember>"
    if d[0] == "t":
        return f"<xbrldi:typedMember dimension={quoteattr(d[1])}><{d[2]}>{escape(d[3])}</{d[2]}></xbrldi:typedMember>"
    return d[1]


def unit_xml(u, pfx="xbrli:"):
    m = lambda q: f"<{pfx}measure>{q}</{pfx}measure>"
    if u.get("dens"):
        body = (
            f"<{pfx}divide><{pfx}unitNumerator>{''.join(map(m, u['nums']))}</{pfx}unitNumerator>"
            f"<{pfx}unitDenominator>{''.join(map(m, u['dens']))}</{pfx}unitDenominator></{pfx}divide>"
        )
    else:
        body = "".join(map(m, u["nums"]))
    return f"<{pfx}unit id={quoteattr(u['id'])}{nsdecl(u.get('ns', {}))}>{body}</{pfx}unit>\n"


def fact_xml(f):
    a = {"id": f.get("id"), "contextRef": f["ctx"], "unitRef": f.get("unit"), "decimals": f.get("dec"), "precision": f.get("prec")}
    if f.get("nil"):
        a["xsi:nil"] = "true"
    a.update(f.get("extra", {}))
    v = f.get("rawval", escape(f.get("val", "")))
    ns = nsdecl(f.get("ns", {}))
    if v == "":
        return f"<{f['c']}{ns}{attrs(a)}/>\n"
    return f"<{f['c']}{ns}{attrs(a)}>{v}</{f['c']}>\n"


def instance(spec):
    ns = dict(STD_NS)
    ns.update(spec.get("nsmap", {}))
    parts = {
        "refs": "".join(f'<link:schemaRef xlink:type="simple" xlink:href={quoteattr(r)}/>\n' for r in spec.get("schemaRefs", ()))
        + "".join(f'<link:linkbaseRef xlink:type="simple" xlink:href={quoteattr(r)} xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>\n' for r in spec.get("refs", ())),
        "ctx": "".join(context_xml(c) for c in spec.get("contexts", ())),
        "units": "".join(unit_xml(u) for u in spec.get("units", ())),
        "facts": "".join(fact_xml(f) for f in spec.get("facts", ())),
        "links": "".join(spec.get("links", ())),
    }
    order = spec.get("order", ("refs", "ctx", "units", "facts", "links"))
    return f'<?xml version="1.0" encoding="UTF-8"?>\n<xbrli:xbrl{nsdecl(ns)}>\n' + "".join(parts[k] for k in order) + "</xbrli:xbrl>\n"


def locator(label, href):
    return f'<link:loc xlink:type="locator" xlink:href={quoteattr(href)} xlink:label={quoteattr(label)}/>\n'


def arc(kind, frm, to, arcrole, **a):
    a = {k.replace("_", ":") if k.startswith("xbrldt_") else k: v for k, v in a.items()}
    return f'<link:{kind} xlink:type="arc" xlink:arcrole={quoteattr(arcrole)} xlink:from={quoteattr(frm)} xlink:to={quoteattr(to)}{attrs(a)}/>\n'


def resource(kind, label, text, role=None, lang=None, raw=False, **a):
    d = {"xlink:role": role, "xml:lang": lang}
    d.update(a)
    return f'<link:{kind} xlink:type="resource" xlink:label={quoteattr(label)}{attrs(d)}>{text if raw else escape(text)}</link:{kind}>\n'


def link(kind, role, body, **a):
    d = {"xlink:role": role}
    d.update(a)
    return f'<link:{kind} xlink:type="extended"{attrs(d)}>\n{"".join(body)}</link:{kind}>\n'


def linkbase(links, nsmap=None, refs=()):
    ns = dict(STD_NS)
    ns.update(nsmap or {})
    return f'<?xml version="1.0" encoding="UTF-8"?>\n<link:linkbase{nsdecl(ns)}>\n{"".join(refs)}{"".join(links)}</link:linkbase>\n'


def xhtml(body, hidden="", resources="", refs="", nsmap=None, head="", after=""):
    ns = {"": XHTML, "ix": IX, **STD_NS, "ixt": "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12"}
    ns.update(nsmap or {})
    hd = (
        f"<ix:header><ix:hidden>{hidden}</ix:hidden>" if hidden else "<ix:header>"
    ) + (f"<ix:references>{refs}</ix:references>" if refs else "") + f"<ix:resources>{resources}</ix:resources></ix:header>"
    return (
        f'<?xml version="1.0" encoding="UTF-8"?>\n<html{nsdecl(ns)}><head><title>t</title>{head}</head><body>'
        f'<div style="display:none">{hd}</div>\n{body}</body></html>\n{after}'
    )


def schema_ref(href):
    return f'<link:schemaRef xlink:type="simple" xlink:href={quoteattr(href)}/>'


def write(d, files):
    for name, content in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(content, str):
            content = content.encode("utf-8")
        with open(p, "wb") as f:
            f.write(content)
