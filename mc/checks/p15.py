"""P15: the document set of a report is found completely, each document once."""
import os
import posixpath
from collections import Counter
from urllib.parse import quote
from xml.sax.saxutils import quoteattr

import env
import obs
import xb
from core import Prune, Result, Scenario

TECHNIQUE = "exhaustive explicit-state enumeration of reference graphs, locations, spellings, catalogs and entry forms; each replayed on Filing.open with a recording network stand-in, compared with reachability in the model"
NOTE = "The documents that were read are recognised by the concepts, roles and label resources that each of them contributes (a document read twice contributes its labels twice) and by the recorded remote requests."
ASSUMPTIONS = [
    "remote documents are served by a stand-in for the network that answers by exact URI",
    "references that are schema location hints (xsi:schemaLocation) are followed too; they are only explored with reachable documents",
]

BASE = "http://ex.org/base/base.xsd"
BNS = "http://ex.org/base"
NS = "http://ex.org/d/"


def base_xsd():
    return xb.schema({"ns": BNS, "prefix": "b", "elements": [{"n": "Base"}]})


def label(text):
    return xb.link(
        "labelLink", xb.ROLE_LINK,
        [xb.locator("b", BASE + "#b_Base"), xb.resource("label", "l", text, xb.LBL, "en"), xb.arc("labelArc", "b", "l", xb.AR_LABEL)],
    )


SIMPLE = ' xlink:type="simple" xlink:href=%s'
LB_ARC = ' xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"'


def ref_xml(kind, href, quoted=None):
    q = quoted or quoteattr(href)
    s = SIMPLE % q
    return {
        "import": f'<xs:import namespace="urn:x" schemaLocation={q}/>',
        "include": f"<xs:include schemaLocation={q}/>",
        "redefine": f"<xs:redefine schemaLocation={q}/>",
        "schemaRef": f"<link:schemaRef{s}/>",
        "linkbaseRef": f"<link:linkbaseRef{s}{LB_ARC}/>",
        "roleRef": f'<link:roleRef{s} roleURI="http://ex.org/role/x"/>',
        "arcroleRef": f'<link:arcroleRef{s} arcroleURI="http://ex.org/arcrole/x"/>',
        "loc": f'<link:loc xlink:type="locator" xlink:href={q} xlink:label="z"/>',
    }[kind]


ROLE_TYPE = '<link:roleType roleURI="http://ex.org/role/x" id="r"/><link:arcroleType arcroleURI="http://ex.org/arcrole/x" id="a" cyclesAllowed="any"/>'


def xsd(name, refs, root="", label_in=True, prolog='<?xml version="1.0" encoding="UTF-8"?>\n'):
    """refs: [(kind, xml)] in the order in which they appear"""
    app = "".join(x for kd, x in refs if kd in ("linkbaseRef",))
    emb = "".join(x for kd, x in refs if kd in ("loc", "roleRef", "arcroleRef"))
    top = "".join(x for kd, x in refs if kd in ("import", "include", "redefine", "raw"))
    lk = xb.link("presentationLink", xb.ROLE_LINK, [x for kd, x in refs if kd == "loc"]) if any(kd == "loc" for kd, _ in refs) else ""
    other = "".join(x for kd, x in refs if kd in ("roleRef", "arcroleRef"))
    embedded = f"<link:linkbase>{other}{lk}{label(name)}</link:linkbase>" if label_in else ""
    return (
        f'{prolog}<xs:schema{xb.nsdecl(xb.STD_NS)} targetNamespace="{NS}{name}" xmlns:d="{NS}{name}"{root}>'
        f"<xs:annotation><xs:appinfo>{app}{embedded}{ROLE_TYPE.replace('role/x', 'role/' + name)}</xs:appinfo></xs:annotation>{top}"
        + xb.element({"n": name, "id": "c"}, "d")
        + "</xs:schema>"
    )


def lkb(name, refs, root="", prolog='<?xml version="1.0" encoding="UTF-8"?>\n'):
    other = "".join(x for kd, x in refs if kd in ("roleRef", "arcroleRef"))
    lk = xb.link("presentationLink", xb.ROLE_LINK, [x for kd, x in refs if kd == "loc"]) if any(kd == "loc" for kd, _ in refs) else ""
    raw = "".join(x for kd, x in refs if kd == "raw")
    return f"{prolog}<link:linkbase{xb.nsdecl(xb.STD_NS)}{root}>{raw}{other}{lk}{label(name)}</link:linkbase>"


def inst(refs, root="", extra="", prolog='<?xml version="1.0" encoding="UTF-8"?>\n'):
    order = {"schemaRef": 0, "linkbaseRef": 1, "roleRef": 2, "arcroleRef": 3}
    body = "".join(x for kd, x in sorted(refs, key=lambda r: order.get(r[0], 4)) if kd != "loc")
    return f"{prolog}<xbrli:xbrl{xb.nsdecl(xb.STD_NS)}{root}>{body}<link:schemaRef xlink:type='simple' xlink:href='{BASE}'/>{extra}</xbrli:xbrl>"


def page(refs, root="", extra=""):
    return xb.xhtml(f"<p>{extra}</p>", refs="".join(x for _, x in refs) + xb.schema_ref(BASE)).replace("<html", "<html" + root, 1)


TEXT = {"xsd": xsd, "lkb": lkb, "inst": inst, "page": page}


# ------------------------------------------------------------------ running

def observe(files, remote, what, cwd_relative=None):
    """files: {path: str|bytes} local, remote: {uri: content} -> observations"""
    from brel import Filing

    docs = {BASE: base_xsd()}
    docs.update(remote)
    env.NET.reset({u: (c.encode() if isinstance(c, str) else c) for u, c in docs.items()})
    d = env.fresh_dir()
    h = env.fresh_home()
    try:
        xb.write(d, {p: (c.replace("@DIR@", d) if isinstance(c, str) else c.replace(b"@DIR@", d.encode())) for p, c in files.items()})
        fl = Filing.open(what if what.startswith("http") else os.path.join(d, what))
        labels = Counter()
        concepts = Counter()
        for e in fl.get_all_report_elements():
            q = e.get_name()
            if q.get_URL().startswith(NS):
                concepts[q.get_local_name()] += 1
            else:
                for lb in e.get_labels():
                    labels[str(lb.get_content())] += 1
        roles = Counter(c.get_URI().split("/")[-1] for c in fl.get_all_components() if c.get_URI().startswith("http://ex.org/role/"))
        return {"concepts": concepts, "labels": labels, "roles": roles, "facts": len(fl.get_all_facts()), "errors": obs.errs(fl), "requests": Counter(env.NET.log)}
    finally:
        env.drop(d)
        env.drop(h)


def judge(sc, o, schemas, linkbases, requests, allow_errors=(), errors_about=()):
    """Compare with the names of the documents that should have been read."""
    v = []

    def bad(what, msg):
        from core import Violation

        v.append(Violation(f"{sc}:{what}", msg, {k: (dict(x) if isinstance(x, Counter) else x) for k, x in o.items()}))

    want_c = set(schemas)
    for n in sorted(want_c - set(o["concepts"])):
        bad("missing", f"schema {n} is reachable but was not read")
        break
    for n in sorted(set(o["concepts"]) - want_c):
        bad("extra", f"schema {n} is not reachable but was read")
        break
    for n in sorted(set(schemas) | set(linkbases)):
        k = o["labels"].get(n, 0)
        if k == 0 and n in linkbases:
            bad("missing", f"linkbase {n} is reachable but was not read")
        elif k == 0:
            bad("incomplete", f"the linkbase embedded in {n} was not read")
        elif k > 1:
            bad("twice", f"document {n} was read {k} times")
    for n in sorted(set(o["labels"]) - set(schemas) - set(linkbases)):
        bad("extra", f"document {n} is not reachable but was read")
    for n, k in sorted(o["roles"].items()):
        if k > 1:
            bad("twice", f"the role of {n} is reported {k} times")
    for u, k in sorted(o["requests"].items()):
        if u not in requests:
            bad("request", f"request for {u}, which no document refers to")
        elif k > 1:
            bad("requests", f"{k} requests for {u}")
    for e in o["errors"]:
        if not any(t in e for t in errors_about):
            bad("error", f"error without a defect: {e[:300]}")
            break
    for t in errors_about:
        if not any(t in e for e in o["errors"]):
            bad("no-error", f"no error names {t}")
    return v


# ------------------------------------------------------------------ A: graphs

KINDS = {"xsd": {"xsd": ["include", "import", "loc", "roleRef"], "lkb": ["linkbaseRef"]}, "lkb": {"xsd": ["loc", "roleRef", "arcroleRef"], "lkb": []}, "inst": {"xsd": ["schemaRef", "roleRef", "arcroleRef"], "lkb": ["linkbaseRef"]}}
KINDS["page"] = {"xsd": ["schemaRef"], "lkb": ["linkbaseRef"]}


def graph(n, patterns, entries=("inst",)):
    def build(ch):
        entry = ch.pick("entry", list(entries), free=True)
        pat = ch.pick("pattern", patterns, free=True)
        edges = []
        for i in range(-1, n):
            src = entry if i < 0 else pat[i]
            for j in range(n):
                if KINDS[src][pat[j]] and ch.flag(f"e{i}{j}", free=True):
                    edges.append([i, j])
        if not any(i < 0 for i, _ in edges):
            raise Prune()
        return {"entry": entry, "pattern": pat, "edges": edges}

    return build


def reach(n, edges):
    seen, todo = set(), [-1]
    while todo:
        i = todo.pop()
        for a, b in edges:
            if a == i and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def run_graph(case):
    pat, edges = case["pattern"], case["edges"]
    n = len(pat)
    fn = lambda j: f"d{j}." + ("xsd" if pat[j] == "xsd" else "xml")
    files = {}
    for i in range(-1, n):
        src = case["entry"] if i < 0 else pat[i]
        refs = []
        for a, b in edges:
            if a == i:
                kinds = KINDS[src][pat[b]]
                kd = kinds[(i + b + len(edges)) % len(kinds)]
                href = fn(b) + {"loc": "#c", "roleRef": "#r", "arcroleRef": "#a"}.get(kd, "")
                if i < 0:
                    href = "../ext/" + href
                refs.append((kd, ref_xml(kd, href)))
        if i < 0:
            files["rep/i." + ("xml" if src == "inst" else "xhtml")] = TEXT[src](refs)
        else:
            files["ext/" + fn(i)] = TEXT[src](f"d{i}", refs)
    r = reach(n, edges)
    o = observe(files, {}, "rep")
    return Result(judge("graph", o, [f"d{j}" for j in r if pat[j] == "xsd"], [f"d{j}" for j in r if pat[j] == "lkb"], {BASE}), {"graphs": 1, "documents": n + 1})


# ------------------------------------------------------------------ B: locations and spellings

PLACES = {
    "same": ("L", "ext/"),
    "sub": ("L", "ext/s/"),
    "up": ("L", ""),
    "far": ("L", "o/p/"),
    "http": ("R", "http://ex.org/a/"),
    "httpsub": ("R", "http://ex.org/a/s/"),
    "https": ("R", "https://ex.org/a/"),
    "cat": ("C", "c/v1/"),  # the same as http://cat.org/x/v1/
}
NAMES = ["d2.xsd", "d 2.xsd", "d%2.xsd", "d\u00e9.xsd", "d2", "d2.XSD", "d2.xml", "d#2.xsd", "d+2.xsd", "a.b.xsd", "d;2.xsd", "x.htm.xsd"]
SPELL = ["rel", "alias", "dot", "updown", "abs", "file", "backslash", "percent", "space", "newline", "upper", "dotseg", "base-root", "base-elem", "base-nested", "base-abs", "frag", "query-less"]


def parts(place):
    kind, p = PLACES[place]
    return ("R", p) if kind == "R" else ("L", p)


def spell(src, dst, name, s):
    """-> (href, xml:base of the root or None, xml:base of the element or None), None if there is no such spelling"""
    (sk, sp), (dk, dp) = parts(src), parts(dst)
    qn = quote(name, safe="+;")
    if dk == "L" and sk == "R":  # a local document that a remote one refers to: only through the catalog
        if dst == "cat" and s == "alias":
            return "http://cat.org/x/v1/" + qn, None, None
        return None
    same = sk == dk and (sk == "L" or sp.split("/")[:3] == dp.split("/")[:3])
    if dk == "R":
        full = dp + qn
        a, b = "/" + "/".join(sp.split("/")[3:]), "/" + "/".join(dp.split("/")[3:])
    else:
        full = "@DIR@/" + dp + qn
        a, b = "/" + sp, "/" + dp
    rel = posixpath.relpath(posixpath.join(b, qn), a) if same else full
    if s == "rel":
        return rel, None, None
    if s == "alias":
        return ("http://cat.org/x/v1/" + qn, None, None) if dst == "cat" else None
    if s == "dot":
        return ("./" + rel, None, None) if same else None
    if s == "updown":
        return ("nowhere/../" + rel, None, None) if same else None
    if s == "abs":
        return (full, None, None) if same else None
    if s == "file":
        return ("file://" + full, None, None) if dk == "L" else None
    if s == "backslash":
        return (rel.replace("/", "\\"), None, None) if dk == "L" and same and "/" in rel else None
    if s == "percent":
        return (rel.replace("d2", "%642"), None, None) if dk == "L" and "d2" in rel else None
    if s == "space":
        return " " + rel + " ", None, None
    if s == "newline":
        return "\n" + rel + "\t", None, None
    if s == "upper":
        return (full.replace("http://ex.org", "HTTP://EX.ORG").replace("https://ex.org", "HTTPS://Ex.Org"), None, None) if dk == "R" else None
    if s == "dotseg":
        return (dp + "x/./../" + qn, None, None) if dk == "R" else None
    if s == "base-root":
        return ("../" + rel, "deeper/", None) if same else None
    if s == "base-elem":
        return ("../" + rel, None, "deeper/") if same else None
    if s == "base-nested":
        return ("../../" + rel, "deeper/", "still/") if same else None
    if s == "base-abs":
        return (qn, dp if dk == "R" else "@DIR@/" + dp, None)
    if s == "frag":
        return rel + "#c", None, None
    if s == "query-less":
        return rel + "#", None, None
    raise AssertionError(s)


def build_spell(ch):
    ent = ch.pick("entry", ["file", "folder"])
    p1 = ch.pick("p1", list(PLACES), free=True)
    p2 = ch.pick("p2", list(PLACES), free=True)
    name = ch.pick("name", NAMES)
    s1 = ch.pick("s1", SPELL, free=True)  # d1 -> d2
    s2 = ch.pick("s2", SPELL)  # entry -> d2
    s0 = ch.pick("s0", SPELL)  # entry -> d1
    via = ch.pick("via", ["include", "import", "redefine", "linkbase", "loc", "hint"])
    if ent == "file" and ("cat" in (p1, p2) and "alias" in (s1, s2, s0)):
        ent = "folder"
    if spell("far", p1, "d1.xsd", s0) is None or spell("far", p2, name, s2) is None or spell(p1, p2, name, s1) is None:
        raise Prune()
    if p1 in ("http", "httpsub", "https") and PLACES[p2][0] != "R" and s1 != "alias":
        raise Prune()
    return {"entry": ent, "p1": p1, "p2": p2, "name": name, "s0": s0, "s1": s1, "s2": s2, "via": via}


CATALOG = '<catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">%s</catalog>'


def rewrite_uri(start, prefix):
    return f"<rewriteURI uriStartString={quoteattr(start)} rewritePrefix={quoteattr(prefix)}/>"


def run_spell(case):
    c = case
    files, remote = {}, {}

    def put(place, name, content):
        kind, p = parts(place)
        if kind == "L":
            files[p + name] = content
        else:
            remote[p + quote(name, safe="+;")] = content

    def ref(kind, src, dst, name, s):
        href, rb, eb = spell(src, dst, name, s)
        if kind == "loc" and "#" not in href:
            href = href.rstrip() + "#c" + href[len(href.rstrip()) :]
        elif kind == "loc" and href.endswith("#"):
            href += "c"
        q = quoteattr(href, {"\n": "&#10;", "\t": "&#9;"})
        if kind == "hint":
            x = f'<xs:annotation xsi:schemaLocation="urn:y {q[1:-1].strip()}"/>'
            return "raw", x.replace("/>", (f" xml:base={quoteattr(eb)}" if eb else "") + "/>"), rb
        x = ref_xml(kind, href, q)
        if eb:
            x = x.replace("/>", f" xml:base={quoteattr(eb)}/>")
        return kind, x, rb

    vk = c["via"]
    if vk == "hint" and any(ch in spell(c["p1"], c["p2"], c["name"], c["s1"])[0].strip() for ch in " \n"):
        return Result([], {"skipped": 1})
    if vk == "linkbase":
        k2 = "lkb"
        kd, x, rb = ref("linkbaseRef", c["p1"], c["p2"], c["name"], c["s1"])
    else:
        k2 = "xsd"
        kd, x, rb = ref(vk, c["p1"], c["p2"], c["name"], c["s1"])
    put(c["p2"], c["name"], TEXT[k2]("d2", []))
    put(c["p1"], "d1.xsd", xsd("d1", [(kd, x)], f" xml:base={quoteattr(rb)}" if rb else ""))
    # two references of the entry; a base on its root would apply to both, so it goes to the element
    erefs = []
    for kd, dst, nm, s in (("linkbaseRef" if k2 == "lkb" else "schemaRef", c["p2"], c["name"], c["s2"]), ("schemaRef", c["p1"], "d1.xsd", c["s0"])):
        kd, x, rb = ref(kd, "far", dst, nm, s)
        if rb:
            if " xml:base=" in x:
                x = x.replace(" xml:base=", " xml:base=", 1)
                eb = spell("far", dst, nm, s)[2]
                x = x.replace(quoteattr(eb), quoteattr(rb + eb), 1)
            else:
                x = x.replace("/>", f" xml:base={quoteattr(rb)}/>")
        erefs.append((kd, x))
    files["o/p/i.xml"] = inst(erefs)
    if c["entry"] == "folder":
        files["o/p/META-INF/catalog.xml"] = CATALOG % rewrite_uri("http://cat.org/x/", "../../../c/")
    what = "o/p/i.xml" if c["entry"] == "file" else "o/p"
    o = observe(files, remote, what)
    sch = ["d1"] + (["d2"] if k2 == "xsd" else [])
    v = judge("spelling", o, sch, ["d2"] if k2 == "lkb" else [], {BASE, *remote})
    return Result(v, {"spellings": 1})


# ------------------------------------------------------------------ C: the text of the documents

ENCS = ["utf-8", "utf-8-sig", "utf-16", "utf-16-le-bom", "utf-16-be-bom", "iso-8859-1", "windows-1252", "us-ascii", "none"]
DECOYS = {
    "comment": "<!-- %s -->",
    "comment2": "<!--\n%s\n-->",
    "pi": "<?x %s?>",
    "cdata": "<link:documentation><![CDATA[%s]]></link:documentation>",
    "escaped": "<link:documentation>%s</link:documentation>",
    "foreign": '<x:y xmlns:x="urn:x" href="no.xsd"/>',
    "image": '<s:image xmlns:s="http://www.w3.org/2000/svg" xlink:href="no.png"/>',
    "image2": '<s:image xmlns:s="http://www.w3.org/2000/svg" xlink:type="simple" xlink:href="data:image/png;base64,AA=="/>',
    "anchor": '<h:a xmlns:h="http://www.w3.org/1999/xhtml" href="no.xsd">x</h:a>',
    "text": "schemaLocation='no.xsd' x:href='no.xsd'",
    "attr": '<x:y xmlns:x="urn:x" title="schemaLocation=&apos;no.xsd&apos;"/>',
    "nohint": '<x:y xmlns:x="urn:x" xsi:noNamespaceSchemaLocation="" />',
}


def build_text(ch):
    where = ch.pick("where", ["xsd", "lkb", "inst", "page"], free=True)
    enc = ch.pick("enc", ENCS, free=True)
    quo = ch.pick("quote", ['"', "'", "spaced", "newline", "charref", "entity", "prefix"])
    decoy = ch.pick("decoy", [""] + list(DECOYS), free=True)
    pos = ch.pick("pos", ["before", "after"])
    return {"where": where, "enc": enc, "quote": quo, "decoy": decoy, "pos": pos}


def run_text(case):
    c = case
    href = "d2.xsd"
    kd = {"xsd": "include", "lkb": "loc", "inst": "schemaRef", "page": "schemaRef"}[c["where"]]
    href += "#c" if kd == "loc" else ""
    x = ref_xml(kd, href)
    q = quoteattr(href)
    if c["quote"] == "'":
        x = x.replace('"', "'")
    elif c["quote"] == "spaced":
        x = x.replace("=" + q, " =  " + q)
    elif c["quote"] == "newline":
        x = x.replace("=" + q, "\n=\n" + q)
    elif c["quote"] == "charref":
        x = x.replace("d2.xsd", "&#x64;2.&#120;sd")
    elif c["quote"] == "entity":
        x = x.replace("d2.xsd", "&two;.xsd")
    elif c["quote"] == "prefix":
        x = x.replace("xlink:", "q:").replace(" ", ' xmlns:q="http://www.w3.org/1999/xlink" ', 1)
    nasty = '<link:schemaRef xlink:type="simple" xlink:href="no.xsd"/> <xs:import namespace="u" schemaLocation="no.xsd"/>'
    dec = ""
    if c["decoy"]:
        t = DECOYS[c["decoy"]]
        if "%s" in t:
            dec = t % (nasty.replace("<", "&lt;").replace(">", "&gt;") if c["decoy"] == "escaped" else nasty)
        else:
            dec = t
    non = "" if c["enc"] == "us-ascii" else "\u00e4\u00f6"
    marker = f"<!-- {non} -->"
    decl = {"utf-8-sig": "UTF-8", "utf-16": "UTF-16", "utf-16-le-bom": "UTF-16", "utf-16-be-bom": "UTF-16"}.get(c["enc"], c["enc"])
    prolog = "" if c["enc"] == "none" else f'<?xml version="1.0" encoding="{decl}"?>\n'
    if c["quote"] == "entity":
        root = {"xsd": "xs:schema", "lkb": "link:linkbase", "inst": "xbrli:xbrl", "page": "html"}[c["where"]]
        prolog += f'<!DOCTYPE {root} [<!ENTITY two "d2">]>\n'
    seq = [marker, dec, x] if c["pos"] == "before" else [marker, x, dec]
    if c["where"] == "xsd":
        # what is not a schema component goes to an annotation
        body = "".join(f"<xs:annotation><xs:appinfo>{s}</xs:appinfo></xs:annotation>" if s == dec and dec else s for s in seq)
        doc = xsd("d1", [("raw", body)], prolog=prolog)
    elif c["where"] == "lkb":
        body = "".join(xb.link("presentationLink", xb.ROLE_LINK, [s]) if s == x else s for s in seq)
        doc = lkb("d1", [("raw", body)], prolog=prolog)
    elif c["where"] == "inst":
        doc = inst([("raw", "".join(seq))], prolog=prolog)
    else:
        doc = xb.xhtml(f"<p>{marker}{dec}</p>", refs=x + xb.schema_ref(BASE), nsmap={}).replace('<?xml version="1.0" encoding="UTF-8"?>\n', prolog)
    pyenc = {"utf-16-le-bom": "utf-16-le", "utf-16-be-bom": "utf-16-be", "none": "utf-8"}.get(c["enc"], c["enc"])
    data = doc.encode(pyenc)
    if c["enc"] == "utf-16-le-bom":
        data = b"\xff\xfe" + data
    elif c["enc"] == "utf-16-be-bom":
        data = b"\xfe\xff" + data
    files = {"ext/d2.xsd": xsd("d2", [])}
    schemas, lkbs = ["d2"], []
    if c["where"] in ("inst", "page"):
        what = "ext/i." + ("xml" if c["where"] == "inst" else "xhtml")
        files[what] = data
    else:
        ext = "xsd" if c["where"] == "xsd" else "xml"
        files["ext/d1." + ext] = data
        what = "rep/i.xml"
        kd1 = "schemaRef" if ext == "xsd" else "linkbaseRef"
        files[what] = inst([(kd1, ref_xml(kd1, "../ext/d1." + ext))])
        (schemas if ext == "xsd" else lkbs).append("d1")
    o = observe(files, {}, what)
    # a defect of the schema component order is not this check's business
    return Result(judge("text", o, schemas, lkbs, {BASE}), {"texts": 1})


# ------------------------------------------------------------------ D: catalogs

STARTS = ["http://cat.org/", "http://cat.org/x/", "http://cat.org/x/v1/", "http://cat.org/x/v1/d2.xsd", "http://other.org/", "http://CAT.org/x/", "http://cat.org/X/v1/"]
PREFIXES = ["../a/", "../b/", "c/", "./c/", "../a/../b/", "/abs/", "http://ex.org/mirror/", "../a b/", "../a%20b/"]


def build_catalog(ch):
    k = ch.pick("rules", [1, 2, 3], free=True)
    starts = []
    rules = []
    for i in range(k):
        rest = [s for s in STARTS if s not in starts]
        st = ch.pick(f"start{i}", rest, free=True)
        starts.append(st)
        rules.append([st, ch.pick(f"prefix{i}", PREFIXES, free=(k == 1))])
    pos = ch.pick("pos", ["META-INF", "pkg/META-INF", "two"])
    ns = ch.pick("ns", ["default", "prefixed"])
    uri = ch.pick("uri", ["http://cat.org/x/v1/d2.xsd", "http://cat.org/x/v1/d%202.xsd", "http://cat.org/x/./v1/d2.xsd"])
    return {"rules": rules, "pos": pos, "ns": ns, "uri": uri}


def run_catalog(case):
    c = case
    uri = c["uri"].replace("/./", "/")
    best = max((r for r in c["rules"] if uri.startswith(r[0])), key=lambda r: len(r[0]), default=None)
    files, remote = {}, {}
    root = "rep/pkg" if c["pos"] == "pkg/META-INF" else "rep"
    other = "out"  # where the prefixes lead to: outside of the opened folder

    rules = []
    for st, pf in c["rules"]:
        if pf.startswith("../"):
            up = "../" * (3 if root == "rep/pkg" else 2)
            rules.append((st, up + other + "/" + pf[3:]))
        elif pf == "/abs/":
            rules.append((st, "@DIR@/abs/"))
        else:
            rules.append((st, pf))
    d2 = xsd("d2", [])
    if best is None:
        remote[uri] = d2
        want_req = uri
    else:
        rest = uri[len(best[0]) :]
        pf = dict((a, b) for a, b in rules)[best[0]]
        if pf.startswith("http"):
            want_req = pf + rest
            remote[want_req] = d2
        else:
            want_req = None
            rest = rest.replace("%20", " ")
            pf = pf.replace("%20", " ")
            p = pf[len("@DIR@/") :] if pf.startswith("@DIR@/") else posixpath.normpath(posixpath.join(root, "META-INF", pf + "x"))[:-1]
            if not rest:
                p = p.rstrip("/") if p.endswith("/") else p
            # a rule that names the whole document maps it to the prefix itself
            if not rest:
                return Result([], {"skipped": 1})
            files[p + rest] = d2
    n = {"default": ("", ' xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog"'), "prefixed": ("k:", ' xmlns:k="urn:oasis:names:tc:entity:xmlns:xml:catalog"')}[c["ns"]]
    body = "".join(f"<{n[0]}rewriteURI uriStartString={quoteattr(a)} rewritePrefix={quoteattr(b)}/>" for a, b in rules)
    files[f"{root}/META-INF/catalog.xml"] = f"<{n[0]}catalog{n[1]}>{body}</{n[0]}catalog>"
    if c["pos"] == "two":
        files["rep/deeper/META-INF/catalog.xml"] = CATALOG % rewrite_uri("http://cat.org/", "nowhere/")
    files[f"{root}/i.xml"] = inst([("schemaRef", ref_xml("schemaRef", c["uri"]))])
    o = observe(files, remote, "rep")
    return Result(judge("catalog", o, ["d2"], [], {BASE, *( [want_req] if want_req else [])}), {"catalogs": 1})


# ------------------------------------------------------------------ E: entries

NAMES_E = ["i.xml", "sub/j.xml", "d1.xsd", "sub/d2.xsd", "sub/sub/d3.xsd", "lab.xml", "p.xhtml", "q.htm", "r.html", "note.txt", "x.json"]


def build_entries(ch):
    form = ch.pick("form", ["file", "folder", "folder/", "zip", "zipdir", "relative", "http"], free=True)
    first = ch.pick("first", ["inst", "page"], free=True)
    have = [n for n in ("d1.xsd", "sub/d2.xsd", "sub/sub/d3.xsd", "lab.xml", "two", "junk", "readme") if ch.flag(n, free=True)]
    spot = ch.pick("dirname", ["rep", "re p", "r%20p", "r\u00e9p", "rep.zip.d", "re'p"])
    return {"form": form, "first": first, "have": have, "dir": spot}


def run_entries(case):
    from brel import Filing

    c = case
    d = c["dir"]
    files = {}
    fact = lambda i: f'<xbrli:context id="c{i}"><xbrli:entity><xbrli:identifier scheme="http://s">E</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2023-12-31</xbrli:instant></xbrli:period></xbrli:context><xbrli:unit id="u{i}"><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unit>'
    bf = lambda i: f'<b:Base xmlns:b="{BNS}" contextRef="c{i}" unitRef="u{i}" decimals="0" id="f{i}">{i}</b:Base>'
    bx = lambda i: f'<ix:nonFraction xmlns:b="{BNS}" name="b:Base" contextRef="c{i}" unitRef="u{i}" decimals="0" id="f{i}">{i}</ix:nonFraction>'
    ext = "xml" if c["first"] == "inst" else "xhtml"

    def entry(i):
        if c["first"] == "inst":
            return inst([], extra=fact(i) + bf(i))
        return xb.xhtml(f"<p>{bx(i)}</p>", resources=fact(i), refs=xb.schema_ref(BASE))

    files[f"{d}/i.{ext}"] = entry(1)
    nf = 1
    schemas, lkbs = [], []
    whole = c["form"] not in ("file", "relative", "http")
    for n in c["have"]:
        if n == "two":
            files[f"{d}/sub/j.{ext}"] = entry(2)
            nf += 1 if whole else 0
        elif n == "junk":
            files[f"{d}/x.json"] = "{"
            files[f"{d}/sub/a.txt"] = "<"
            files[f"{d}/sub/pic.png"] = b"\x89"
        elif n == "readme":
            files[f"{d}/README"] = "xsd"
            files[f"{d}/xml"] = "<"
        elif n == "lab.xml":
            files[f"{d}/{n}"] = lkb("lab", [])
            if whole:
                lkbs.append("lab")
        else:
            nm = n.split("/")[-1][:2]
            files[f"{d}/{n}"] = xsd(nm, [])
            if whole:
                schemas.append(nm)
    env.NET.reset({BASE: base_xsd().encode()})
    root = env.fresh_dir()
    h = env.fresh_home()
    cwd = os.getcwd()
    try:
        xb.write(root, files)
        if c["form"].startswith("zip"):
            import zipfile

            z = os.path.join(root, "r.zip")
            with zipfile.ZipFile(z, "w") as zf:
                for p in sorted(files, reverse=True):
                    zf.write(os.path.join(root, p), p if c["form"] == "zipdir" else p[len(d) + 1 :])
            env.drop(os.path.join(root, d))
            what = z
        elif c["form"] == "http":
            u = "http://ex.org/r/i." + ext
            env.NET.docs[u] = files[f"{d}/i.{ext}"].encode()
            what = u
        elif c["form"] == "relative":
            os.chdir(os.path.join(root, d))
            what = f"i.{ext}"
        elif c["form"] == "file":
            what = os.path.join(root, d, f"i.{ext}")
        else:
            what = os.path.join(root, d) + ("/" if c["form"] == "folder/" else "")
        import tempfile

        before = set(os.listdir(tempfile.gettempdir()))
        fl = Filing.open(what)
        left = set(os.listdir(tempfile.gettempdir())) - before
        labels, concepts = Counter(), Counter()
        for e in fl.get_all_report_elements():
            if e.get_name().get_URL().startswith(NS):
                concepts[e.get_name().get_local_name()] += 1
            else:
                for lb in e.get_labels():
                    labels[str(lb.get_content())] += 1
        o = {"concepts": concepts, "labels": labels, "roles": Counter(), "errors": obs.errs(fl), "requests": Counter(env.NET.log)}
        v = judge("entries", o, schemas, lkbs, {BASE, *([what] if c["form"] == "http" else [])})
        got = sorted(f.get_id() for f in fl.get_all_facts())
        want = [f"f{i + 1}" for i in range(nf)]
        from core import Violation

        if got != want:
            v.append(Violation("entries:facts", f"facts {got} instead of {want}", {}))
        return Result(v, {"entries": 1})
    finally:
        os.chdir(cwd)
        env.drop(root)
        env.drop(h)


# ------------------------------------------------------------------ F: long chains

def build_chain(ch):
    return {"n": ch.pick("n", [60, 1200], free=True), "kind": ch.pick("kind", ["include", "linkbase"], free=True), "ring": ch.flag("ring", free=True)}


def run_chain(case):
    n = case["n"]
    files = {"rep/i.xml": inst([("schemaRef", ref_xml("schemaRef", "../e/d0.xsd"))])}
    for i in range(n):
        nxt = i + 1 if i + 1 < n else (0 if case["ring"] else None)
        refs = []
        if nxt is not None:
            refs = [("include", ref_xml("include", f"d{nxt}.xsd"))] if case["kind"] == "include" else [("loc", ref_xml("loc", f"d{nxt}.xsd#c"))]
        files[f"e/d{i}.xsd"] = xsd(f"d{i}", refs, label_in=(case["kind"] == "linkbase" or i == n - 1))
    o = observe(files, {}, "rep/i.xml")
    for i in range(n):
        o["labels"].setdefault(f"d{i}", 1)
    return Result(judge("chain", o, [f"d{i}" for i in range(n)], [], {BASE}), {"chains": 1})


# ------------------------------------------------------------------ G: documents that are not available

BREAK = ["missing-local", "404", "500", "refused", "timeout", "malformed-local", "malformed-remote", "truncated", "empty-local", "empty-remote", "html-remote", "directory", "hostless", "scheme"]


def build_lost(ch):
    how = ch.pick("how", BREAK, free=True)
    kind = ch.pick("kind", ["schemaRef", "linkbaseRef", "import", "loc", "roleRef", "appinfo"], free=True)
    times = ch.pick("times", [1, 2], free=True)
    return {"how": how, "kind": kind, "times": times}


def run_lost(case):
    import requests as rq

    c = case
    good = xsd("d3", []) if c["kind"] not in ("linkbaseRef", "appinfo") else lkb("d3", [])
    files, remote = {"ext/d2.xsd": xsd("d2", [])}, {}
    h = c["how"]
    u = "http://ex.org/lost/d3.xsd"
    if h in ("404", "500", "refused", "timeout", "malformed-remote", "truncated", "empty-remote", "html-remote"):
        href = u
        remote[u] = {
            "404": 404,
            "500": 500,
            "refused": rq.exceptions.ConnectionError("refused"),
            "timeout": rq.exceptions.ReadTimeout("timeout"),
            "malformed-remote": good[: len(good) // 2].encode(),
            "truncated": env.Broken(good[: len(good) // 2].encode()),
            "empty-remote": b"",
            "html-remote": b"<html><body><br>not found</body></html>",
        }[h]
    else:
        href = "../ext/lost/d3.xsd"
        if h == "malformed-local":
            files["ext/lost/d3.xsd"] = good[: len(good) // 2]
        elif h == "empty-local":
            files["ext/lost/d3.xsd"] = ""
        elif h == "directory":
            files["ext/lost/d3.xsd/x.txt"] = ""
        elif h == "hostless":
            href = "http:///lost/d3.xsd"
        elif h == "scheme":
            href = "urn:lost:d3.xsd"
    name = "d3.xsd"
    local = not href.startswith("http")
    refs1, refs0 = [], [("schemaRef", ref_xml("schemaRef", "../ext/d1.xsd"))]
    h1 = href.replace("../ext/", "") if local else href
    for _ in range(c["times"]):
        if c["kind"] in ("schemaRef", "linkbaseRef"):
            refs0.insert(0, (c["kind"], ref_xml(c["kind"], href)))
        else:
            kd = {"appinfo": "linkbaseRef"}.get(c["kind"], c["kind"])
            frag = {"loc": "#c", "roleRef": "#r"}.get(kd, "")
            refs1.append((kd, ref_xml(kd, h1 + frag)))
    refs1.append(("include", ref_xml("include", "d2.xsd")))
    files["ext/d1.xsd"] = xsd("d1", refs1)
    files["rep/i.xml"] = inst(refs0)
    o = observe(files, remote, "rep/i.xml")
    about = [name]
    allowed = [name, "locator element"] if c["kind"] == "loc" else about
    v = judge("lost", o, ["d1", "d2"], [], {BASE, u, "http:///lost/d3.xsd"}, errors_about=about if c["kind"] != "loc" else ())
    if c["kind"] == "loc":
        v = [x for x in v if not (x.sig == "lost:error")]
        if not any(name in e for e in o["errors"]):
            from core import Violation

            v.append(Violation("lost:no-error", "no error names the document", {"errors": o["errors"]}))
        for e in o["errors"]:
            if not any(t in e for t in allowed):
                from core import Violation

                v.append(Violation("lost:error", f"error without a defect: {e[:300]}", {}))
    n = sum(name in e and "locator element" not in e for e in o["errors"])
    if n > 1:
        from core import Violation

        v.append(Violation("lost:errors", f"{n} errors for one document", {"errors": o["errors"]}))
    return Result(v, {"lost": 1})


def scenarios(tier):
    t = tier == "thorough"
    pats3 = [["xsd", "lkb", "xsd"], ["xsd", "xsd", "xsd"]]
    out = [
        Scenario("graph", graph(3, pats3, ("inst", "page") if t else ("inst",)), run_graph, desc="all reference graphs on an entry and 3 documents (schemas, linkbases), with self references and cycles; the kinds of references vary with the edge"),
        Scenario("spelling", build_spell, run_spell, {"quick": 1, "thorough": 2}, desc="a document that is referenced from two documents: all pairs of places (folders, hosts, catalog) x all spellings of one reference x deviations of the other references, the file name, the entry form and the kind of reference"),
        Scenario("text", build_text, run_text, {"quick": 1, "thorough": None}, desc="kind of document x encoding x spelling of the attribute x text that looks like a reference"),
        Scenario("catalog", build_catalog, run_catalog, {"quick": 1, "thorough": 3}, desc="up to 3 rewrite rules in every order x replacement forms x places of the catalog"),
        Scenario("entries", build_entries, run_entries, {"quick": 1, "thorough": None}, desc="all ways to open a report x all sets of files in it"),
        Scenario("chain", build_chain, run_chain, desc="chains and rings of up to 1200 documents"),
        Scenario("lost", build_lost, run_lost, desc="every way in which a document can be unavailable x kind of reference x number of references"),
    ]
    if t:
        out.append(Scenario("graph4", graph(4, [["xsd", "lkb", "xsd", "xsd"]]), run_graph, desc="all reference graphs on an entry and 4 documents"))
    return out
