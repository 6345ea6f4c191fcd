"""P03: inline numbers: displayed text, format, scale and sign give the exact value."""
import decimal
import itertools
from xml.sax.saxutils import escape

import common as k
import obs
import xb
from core import Result, Scenario, Violation

TECHNIQUE = "exhaustive enumeration of displayed numbers (format x grouping x digits x scale x sign) and of all short texts over an alphabet, each replayed through Filing.open and compared with an independent scanner in decimal arithmetic"
ASSUMPTIONS = [
    "number formats of the transformation registry 2020-02-12 and the legacy names of registries 1 to 3",
    "texts without a format that are numbers but not plain decimals (exponents, trailing point) may be rejected or read exactly",
]
D = decimal.Decimal
decimal.getcontext().prec = 400
CTX = decimal.Context(prec=400, Emax=10**6, Emin=-(10**6))

# name -> (decimal separator, grouping characters)
FORMATS = {
    "num-dot-decimal": (".", ", \xa0"),
    "num-comma-decimal": (",", ". \xa0"),
    "num-dot-decimal-apos": (".", ",'`\u00b4\u2019\u2032 \xa0"),
    "num-comma-decimal-apos": (",", ".'`\u00b4\u2019\u2032 \xa0"),
    "num-unit-decimal": (None, ".,\uff0c"),
    "num-unit-decimal-apos": (None, ".,\uff0c'`\u00b4\u2019\u2032\uff07"),
}
LEGACY = {  # name -> (current name, grouping characters of the legacy format)
    "numdotdecimal": ("num-dot-decimal", ", "),
    "numcommadecimal": ("num-comma-decimal", ". "),
    "numunitdecimal": ("num-unit-decimal", ".,"),
    "numdotdecimalin": ("num-dot-decimal", ", "),
    "numcomma": ("num-comma-decimal", ""),
    "numcommadot": ("num-dot-decimal", ","),
    "numdotcomma": ("num-comma-decimal", "."),
    "numspacecomma": ("num-comma-decimal", " "),
    "numspacedot": ("num-dot-decimal", " "),
}
WIDE = {ord(str(i)): chr(0xFF10 + i) for i in range(10)}
REG = {
    "2020": "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12",
    "2015": "http://www.xbrl.org/inlineXBRL/transformation/2015-02-26",
    "2011": "http://www.xbrl.org/inlineXBRL/transformation/2011-07-31",
    "2010": "http://www.xbrl.org/inlineXBRL/transformation/2010-04-20",
}

WHOLE = ["", "0", "5", "07", "10", "123", "1200", "1234567", "000100", "9007199254740993", "12345678901234567890123456789"]
FRAC = [None, "0", "5", "05", "50", "00", "125", "000001", "123456789012345678901"]
WHOLE_T = [""] + ["".join(p) for n in (1, 2, 3) for p in itertools.product("0159", repeat=n)] + ["1000", "1001", "123456", "9999999999999999", "100000000000000000000000"]
FRAC_T = [None] + ["".join(p) for n in (1, 2, 3) for p in itertools.product("059", repeat=n)] + ["123456789012345678901234567890"]
SCALES = [None, "0", "3", "-2", "6", "-6", "1", "-1", "+3", "9", "-12", "27"]


def group(w, sep, style):
    if not sep or style == "plain":
        return w
    if style == "indian" and len(w) > 3:
        head, tail = w[:-3], w[-3:]
        parts = []
        while head:
            parts.insert(0, head[-2:])
            head = head[:-2]
        return sep.join(parts + [tail])
    parts = []
    while len(w) > 3:
        parts.insert(0, w[-3:])
        w = w[:-3]
    return sep.join([w] + parts)


def build_valid(ch):
    form = ch.pick("format", [("f", n) for n in FORMATS] + [("l", n) for n in LEGACY] + [("none", None), ("f", "fixed-zero"), ("l", "numdash"), ("l", "zerodash")], free=True)
    kind, name = form
    if kind == "none" or name in ("fixed-zero", "numdash", "zerodash"):
        cur, seps = None, ""
    elif kind == "f":
        cur, seps = name, FORMATS[name][1]
    else:
        cur, seps = LEGACY[name]
    sep = ch.pick("group", [""] + list(seps), free=True)
    style = ch.pick("style", ["west", "indian"], free=True) if sep else "plain"
    wide = ch.flag("wide", free=True) if cur and cur.startswith("num-unit") else False
    unit = ch.pick("unit words", [(" dollars ", " cents"), ("$", ""), ("\u5186", "\u92ad"), (" Rs ", " paise ")], free=True) if cur and cur.startswith("num-unit") else None
    scale = ch.pick("scale", SCALES, free=True)
    sign = ch.flag("sign", free=True)
    ns = ch.pick("registry", ["ixt"] if kind != "f" else ["ixt", "tr"])
    return {"kind": kind, "name": name, "cur": cur, "sep": sep, "style": style, "wide": wide, "unit": unit, "scale": scale, "sign": sign, "pfx": ns}


def display(case, w, f):
    """-> (text, number) or None if the format cannot show it"""
    if case["name"] in ("fixed-zero", "numdash", "zerodash"):
        return (w or "-") + "\u2014", D(0)
    cur = case["cur"]
    if cur and cur.startswith("num-unit"):
        if w == "" or (f is not None and len(f) > 2) or f is None:
            return None
        a, b = case["unit"]
        t = group(w, case["sep"], case["style"])
        n = D(w) + D(f) / 100
        if case["wide"]:
            t, f = t.translate(WIDE), f.translate(WIDE)
        return t + a + f + b, n
    if w == "" and f is None:
        return None
    dec = FORMATS[cur][0] if cur else "."
    t = group(w, case["sep"], case["style"])
    return t + ("" if f is None else dec + f), D((w or "0") + ("." + f if f is not None else ""))


def page(facts, pfx="ixt", reg="2020"):
    body = []
    for i, f in enumerate(facts):
        a = {"name": "t:Cash", "id": f"f{i}", "contextRef": "c1", "unitRef": "usd", "decimals": "2", "format": f.get("format"), "scale": f.get("scale"), "sign": f.get("sign")}
        body.append(f"<p><ix:nonFraction{xb.attrs(a)}>{escape(f['text'])}</ix:nonFraction></p>\n")
    return xb.xhtml(
        "".join(body),
        resources=xb.context_xml(k.CTX) + xb.unit_xml(k.USD),
        refs=xb.schema_ref("t.xsd"),
        nsmap={"t": k.T, "ixt": REG["2020"] if pfx == "ixt" else "http://ex.org/other", pfx: REG[reg]},
    )


_T = None


def tax():
    global _T
    _T = _T or xb.schema(k.base_schema())
    return _T


def num(s):
    try:
        if s.strip() != s or s == "":
            return None
        n = CTX.create_decimal(s)
        return n if n.is_finite() else None
    except decimal.InvalidOperation:
        return None


def evaluate(name, facts, fl):
    """facts: text/format/.. with 'want' Decimal | None (must be an error) | list of
    permitted outcomes (None means: an error)."""
    vs = []
    got = {}
    for x in fl.get_all_facts():
        if x.get_id() in got:
            vs.append(Violation(f"{name}:twice", f"fact {x.get_id()} is reported twice"))
        got[x.get_id()] = x.get_value_as_str()
    errs = {}
    for e in fl.get_all_errors():
        c = e.get_context()
        errs.setdefault(c.get("id") if c is not None else None, []).append(str(e))
    for i, f in enumerate(facts):
        fid = f"f{i}"
        what = f"text {f['text']!r} format {f.get('format')} scale {f.get('scale')} sign {f.get('sign')}"
        if fid not in got:
            vs.append(Violation(f"{name}:missing:{f.get('format')}", f"no fact for {what}"))
            continue
        v, e = got[fid], errs.get(fid)
        wants = f["want"] if isinstance(f["want"], list) else [f["want"]]
        n = num(v)
        if not e:
            if n is None or not any(w is not None and n == w for w in wants):
                vs.append(Violation(f"{name}:value:{f.get('format')}", f"{what}: got {v!r}, want {wants[0] if wants[0] is not None else 'an error'}", {"want": str(wants)}))
        else:
            if None not in wants:
                vs.append(Violation(f"{name}:error:{f.get('format')}", f"{what}: reported as error {e[0][:200]}, want {wants[0]}"))
            elif n is not None and v.strip() != f["text"].strip() and n != f.get("displayed"):
                # an inadmissible text must not become some other number
                vs.append(Violation(f"{name}:other-number:{f.get('format')}", f"{what}: is an error but has the value {v!r}"))
    return vs


def run_valid_with(whole, frac):
    def run(case):
        facts = []
        for w in whole:
            for f in frac:
                d = display(case, w, f)
                if d is None:
                    continue
                t, n = d
                s = int(case["scale"] or 0)
                if case["name"] not in ("fixed-zero", "numdash", "zerodash"):
                    n = CTX.scaleb(n, s)
                if case["sign"]:
                    n = -n
                facts.append(
                    {
                        "text": t,
                        "want": n,
                        "format": f"{case['pfx']}:{case['name']}" if case["name"] else None,
                        "scale": case["scale"],
                        "sign": "-" if case["sign"] else None,
                    }
                )
        reg = "2020" if case["kind"] != "l" else ("2011" if case["name"] in ("numdotdecimal", "numcommadecimal", "numunitdecimal", "numdotdecimalin", "zerodash") else "2010")
        fl = obs.open_files({"t.xsd": tax(), "p.xhtml": page(facts, case["pfx"], reg)}, "p.xhtml")
        return Result(evaluate("valid", facts, fl), {"facts": len(facts)})

    return run


# -------------------------------------------------------------- all short texts
def scan(fmt, text):
    """Independent reading of a text under a format: a list of admissible outcomes."""
    t = text.strip(" \t\r\n\xa0")
    if fmt is None:
        t = text.strip(" \t\r\n\xa0")
        if t and all(c in "0123456789." for c in t) and t.count(".") <= 1 and any(c.isdigit() for c in t):
            n = D(t)
            if t.endswith("."):
                return [None, n]
            return [n]
        try:
            if t and all(c in "0123456789.eE+-" for c in t):
                n = D(t)
                return [None, n] if not t.startswith("-") else [None]
        except decimal.InvalidOperation:
            pass
        return [None]
    dec, seps = FORMATS[fmt]
    if dec is None:
        digs = "0123456789" + "".join(WIDE.values())
        i = 0
        while i < len(t) and t[i] in digs + seps:
            i += 1
        j = i
        while j < len(t) and t[j] not in digs:
            j += 1
        l = j
        while l < len(t) and t[l] in digs:
            l += 1
        rest = t[l:]
        if i == 0 or j == i or not 1 <= l - j <= 2 or any(c in digs for c in rest):
            return [None]
        back = {v: chr(kk) for kk, v in WIDE.items()}
        w = "".join(back.get(c, c) for c in t[:i] if c in digs)
        f = "".join(back.get(c, c) for c in t[j:l])
        n = D(w or "0") + D(f) / 100
        return [n] if w else [None, n]
    if not any(c.isdigit() for c in t) or any(c not in "0123456789" + seps + dec for c in t) or t.count(dec) > 1:
        return [None]
    w, _, f = t.partition(dec)
    if dec in t:
        if f == "" or any(c not in "0123456789 \xa0" for c in f):
            return [None]
        f = "".join(c for c in f if c.isdigit())
        if f == "":
            return [None, D("".join(c for c in w if c.isdigit()))]
    return [D(("".join(c for c in w if c.isdigit()) or "0") + "." + (f or "0"))]


ALPHA = "10,. '-x"


def build_texts(n):
    def build(ch):
        fmt = ch.pick("format", list(FORMATS) + [None], free=True)
        head = "".join(ch.pick(f"c{i}", ALPHA, free=True) for i in range(n))
        return {"fmt": fmt, "head": head}

    return build


def run_texts_with(tail, scale, sign):
    def run(case):
        facts = []
        tails = [""] + ["".join(p) for n in range(1, tail + 1) for p in itertools.product(ALPHA, repeat=n)]
        for t in tails:
            t = case["head"] + t
            outs = scan(case["fmt"], t)
            outs = [None if o is None else CTX.scaleb(o, int(scale or 0)) * (-1 if sign else 1) for o in outs]
            facts.append({"text": t, "want": outs, "format": f"ixt:{case['fmt']}" if case["fmt"] else None, "scale": scale, "sign": "-" if sign else None})
        fl = obs.open_files({"t.xsd": tax(), "p.xhtml": page(facts)}, "p.xhtml")
        return Result(evaluate("texts", facts, fl), {"facts": len(facts)})

    return run


# -------------------------------------------------------------- attributes
BAD = [
    ({"format": "ixt:num-dot-decimal", "scale": "x"}, [None]),
    ({"format": "ixt:num-dot-decimal", "scale": "1.5"}, [None]),
    ({"format": "ixt:num-dot-decimal", "scale": "0_1"}, [None]),
    ({"format": "ixt:num-dot-decimal", "scale": "\u0661"}, [None]),
    ({"format": "ixt:num-dot-decimal", "scale": ""}, [None, D(1234)]),
    ({"format": "ixt:num-dot-decimal", "sign": "+"}, [None]),
    ({"format": "ixt:no-such-format"}, [None]),
    ({"format": "unknownprefix:num-dot-decimal"}, [None]),
    ({"format": "other:num-dot-decimal"}, [None]),
    ({"format": "num-dot-decimal"}, [None]),
    ({"format": "ixt:date-day-month-year"}, [None]),
    ({"format": "ixt:fixed-true"}, [None]),
    ({"format": "ixt:fixed-empty"}, [None]),
    ({"format": " ixt:num-dot-decimal "}, [D(1234), None]),
    ({"format": "ixt:num-dot-decimal", "scale": " 3 "}, [D(1234000), None]),
]


def build_attrs(ch):
    i = ch.pick("bad", len(BAD), free=True)
    j = ch.pick("other", [None] + list(range(len(BAD))), free=True)
    return {"i": i, "j": j}


def run_attrs(case):
    facts = []
    for x in (case["i"], case["j"]):
        if x is not None:
            a, w = BAD[x]
            facts.append({"text": "1,234", "want": w, "displayed": D(1234), **a})
    facts.append({"text": "7", "format": "ixt:num-dot-decimal", "want": D(7)})
    pg = page(facts).replace("xmlns:ixt=", 'xmlns:other="http://ex.org/other" xmlns:ixt=')
    fl = obs.open_files({"t.xsd": tax(), "p.xhtml": pg}, "p.xhtml")
    return Result(evaluate("attrs", facts, fl), {"facts": len(facts)})


# ------------------------------------------------------- nested elements, and what surrounds the text
def build_nested(ch):
    n = ch.pick("depth", [1, 2, 3], free=True)
    return {
        "signs": [ch.flag(f"sign{i}", free=True) for i in range(n)],
        "format": ch.pick("format", [("ixt:num-dot-decimal", "1,234.50"), (None, "1234.50"), ("ixt:num-comma-decimal", "1.234,50"), ("ixt:fixed-zero", "-")], free=True),
        "scale": ch.pick("scale", [None, "3", "-2"], free=True),
        "text": ch.pick("text", ["plain", "spaces", "newlines", "comment", "comment first", "instruction", "cdata", "reference", "nbsp"], free=True),
        "between": ch.pick("between", ["", " ", "\n", "<!-- c -->"]),
        "names": ch.flag("other concepts"),
        "ids": ch.flag("inner without id"),
        "decimals": ch.pick("decimals", ["2", "INF", "-3"]),
        "next": ch.flag("followed by a fact"),
    }


def run_nested(case):
    fmt, text = case["format"]
    shown = D("0") if fmt == "ixt:fixed-zero" else D("1234.50")
    body = {
        "plain": text,
        "spaces": f"  {text} ",
        "newlines": f"\n\t{text}\r\n",
        "comment": f"{text[:1]}<!-- 9 -->{text[1:]}",
        "comment first": f"<!-- 9 -->{text}",
        "instruction": f"{text[:2]}<?pi 9?>{text[2:]}",
        "cdata": f"<![CDATA[{text}]]>",
        "reference": "".join(f"&#{ord(c)};" for c in text),
        "nbsp": f"&#160;{text}&#160;",
    }[case["text"]]
    n = len(case["signs"])
    wants = {}
    for i in reversed(range(n)):
        a = {
            "name": ["t:Cash", "t:Cost", "t:Cash"][i] if case["names"] else "t:Cash",
            "id": None if case["ids"] and i == n - 1 and n > 1 else f"f{i}",
            "contextRef": "c1",
            "unitRef": "usd",
            "decimals": case["decimals"],
            "format": fmt,
            "scale": case["scale"],
            "sign": "-" if case["signs"][i] else None,
        }
        v = shown.scaleb(int(case["scale"] or 0))
        wants[a["id"]] = (-v if case["signs"][i] else v, k.q(a["name"]))
        body = f"<ix:nonFraction{xb.attrs(a)}>{body}</ix:nonFraction>"
        if i:
            body = case["between"] + body + case["between"]
    if case["next"]:
        body += '<ix:nonFraction name="t:Cash" id="g" contextRef="c1" unitRef="usd" decimals="0">7</ix:nonFraction>'
        wants["g"] = (D(7), k.q("t:Cash"))
    pg = xb.xhtml(f"<p>{body}</p>", resources=xb.context_xml(k.CTX) + xb.unit_xml(k.USD), refs=xb.schema_ref("t.xsd"), nsmap={"t": k.T})
    fl = obs.open_files({"t.xsd": tax(), "p.xhtml": pg}, "p.xhtml")
    got = {f.get_id(): (num(f.get_value_as_str()), obs.clark(f.get_concept().get_name())) for f in fl.get_all_facts()}
    if len(fl.get_all_facts()) == len(wants) and None in wants and None not in got:
        got = {(i if i in wants else None): v for i, v in got.items()}  # brel may name facts without an id
    if got != wants or fl.get_all_errors():
        return Result([Violation("nested", f"got {got}, want {wants}, errors {[str(e) for e in fl.get_all_errors()]}   [{case}]")])
    return Result([], {"facts": n})


def scenarios(tier):
    q = tier != "thorough"
    return [
        Scenario("valid", build_valid, run_valid_with(WHOLE if q else WHOLE_T, FRAC if q else FRAC_T), None, "every display of a family of numbers under every format, grouping, scale and sign"),
        Scenario("texts", build_texts(2 if q else 3), run_texts_with(2, None, False), None, "all texts over an alphabet of eight characters up to length 4 (thorough: 5)"),
        Scenario("texts-scaled", build_texts(1 if q else 2), run_texts_with(2, "-2", True), None, "all texts up to length 3 (thorough: 4), scaled and negated"),
        Scenario("nested", build_nested, run_nested, {"quick": 1, "thorough": 3}, "numbers nested up to three deep: signs of each, scale, format, what surrounds the text", batch=8),
        Scenario("attrs", build_attrs, run_attrs, None, "defective attributes, alone and in pairs"),
    ]
