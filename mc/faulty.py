"""A complete small report in two syntaxes and a catalogue of its possible defects."""
import common as k
import xb

R = "http://ex.org/role/"
H = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"


def roots():
    s = dict(xb.STD_NS, t=k.T)
    return s


SCHEMA = (
    H
    + f'<xs:schema{xb.nsdecl(roots())} targetNamespace="{k.T}" elementFormDefault="qualified">\n'
    + "<xs:annotation><xs:appinfo>\n"
    + f'<link:roleType roleURI="{R}A" id="A"><link:definition>01 - Statement - A</link:definition><link:usedOn>link:presentationLink</link:usedOn><link:usedOn>link:calculationLink</link:usedOn></link:roleType>\n'
    + f'<link:roleType roleURI="{R}B" id="B"><link:definition>02 - Statement - B</link:definition><link:usedOn>link:definitionLink</link:usedOn><link:usedOn>link:presentationLink</link:usedOn></link:roleType>\n'
    + "".join(f'<link:linkbaseRef xlink:type="simple" xlink:href="{f}" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>\n' for f in ("pre.xml", "cal.xml", "def.xml", "lab.xml", "ref.xml"))
    + "</xs:appinfo></xs:annotation>\n"
    + f'<xs:import namespace="{k.U}" schemaLocation="u.xsd"/>\n'
    + '<xs:element name="Cash" id="t_Cash" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant" xbrli:balance="debit" nillable="true"/>\n'
    + '<xs:element name="Cost" id="t_Cost" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration" xbrli:balance="credit" nillable="false"/>\n'
    + '<xs:element name="Text" id="t_Text" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration" nillable="true"/>\n'
    + '<xs:element name="Note" id="t_Note" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>\n'
    + '<xs:element name="Shares" id="t_Shares" type="xbrli:sharesItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>\n'
    + '<xs:element name="Ratio" id="t_Ratio" type="xbrli:pureItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>\n'
    + '<xs:element name="Total" id="t_Total" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration" xbrli:balance="debit"/>\n'
    + '<xs:element name="Head" id="t_Head" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration" abstract="true"/>\n'
    + '<xs:element name="Cube" id="t_Cube" type="xbrli:stringItemType" substitutionGroup="xbrldt:hypercubeItem" xbrli:periodType="duration" abstract="true"/>\n'
    + '<xs:element name="AxisA" id="t_AxisA" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" xbrli:periodType="duration" abstract="true"/>\n'
    + '<xs:element name="AxisT" id="t_AxisT" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" xbrli:periodType="duration" abstract="true" xbrldt:typedDomainRef="#t_dom"/>\n'
    + '<xs:element name="M1" id="t_M1" type="nonnum:domainItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration" abstract="true"/>\n'
    + '<xs:element name="M2" id="t_M2" type="nonnum:domainItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration" abstract="true"/>\n'
    + '<xs:element name="dom" id="t_dom" type="xs:string"/>\n'
    + "</xs:schema>\n"
)
OTHER = H + f'<xs:schema{xb.nsdecl(roots())} targetNamespace="{k.U}">\n<xs:element name="Extra" id="u_Extra" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>\n</xs:schema>\n'


def loc(n, label=None):
    return f'<link:loc xlink:type="locator" xlink:href="t.xsd#t_{n}" xlink:label="{label or n}"/>\n'


def arc(kind, a, b, role, **x):
    return xb.arc(kind, a, b, role, **x)


PRE = xb.linkbase(
    [
        xb.link("presentationLink", R + "A", [loc(n) for n in ("Head", "Total", "Cash", "Cost", "Text")] + [arc("presentationArc", "Head", "Total", xb.AR_PC, order="1"), arc("presentationArc", "Head", "Text", xb.AR_PC, order="2"), arc("presentationArc", "Total", "Cash", xb.AR_PC, order="1", preferredLabel=xb.LBL), arc("presentationArc", "Total", "Cost", xb.AR_PC, order="2")]),
        xb.link("presentationLink", R + "B", [loc(n, "B" + n) for n in ("Shares", "Ratio", "Note")] + [arc("presentationArc", "BShares", "BRatio", xb.AR_PC, order="1"), arc("presentationArc", "BShares", "BNote", xb.AR_PC, order="2")]),
    ]
)
CAL = xb.linkbase([xb.link("calculationLink", R + "A", [loc(n) for n in ("Total", "Cash", "Cost")] + [arc("calculationArc", "Total", "Cash", xb.AR_SUM, order="1", weight="1"), arc("calculationArc", "Total", "Cost", xb.AR_SUM, order="2", weight="-1")])])
DEF = xb.linkbase(
    [
        xb.link(
            "definitionLink",
            R + "B",
            [loc(n) for n in ("Head", "Cube", "AxisA", "AxisT", "M1", "M2", "Shares")]
            + [
                arc("definitionArc", "Head", "Cube", xb.DIM + "all", order="1", xbrldt_contextElement="segment", xbrldt_closed="true"),
                arc("definitionArc", "Cube", "AxisA", xb.DIM + "hypercube-dimension", order="1"),
                arc("definitionArc", "Cube", "AxisT", xb.DIM + "hypercube-dimension", order="2"),
                arc("definitionArc", "AxisA", "M1", xb.DIM + "dimension-domain", order="1"),
                arc("definitionArc", "M1", "M2", xb.DIM + "domain-member", order="1"),
                arc("definitionArc", "Head", "Shares", xb.DIM + "domain-member", order="2"),
            ],
        )
    ]
)
LABS = {"Cash": ("Cash label", "en"), "Cost": ("Kosten", "de"), "Text": ("Text label", "en"), "AxisA": ("Axis A", "en"), "M1": ("Member 1", "en")}
LAB = xb.linkbase([xb.link("labelLink", xb.ROLE_LINK, [loc(n) + xb.resource("label", "l_" + n, t, xb.LBL, l) + arc("labelArc", n, "l_" + n, xb.AR_LABEL) for n, (t, l) in LABS.items()])])
REF = xb.linkbase(
    [
        xb.link(
            "referenceLink",
            xb.ROLE_LINK,
            [loc(n) + f'<link:reference xlink:type="resource" xlink:label="r_{n}" xlink:role="{xb.R_REF}"><refs:Name xmlns:refs="http://www.xbrl.org/2006/ref">Standard {n}</refs:Name></link:reference>\n' + arc("referenceArc", n, "r_" + n, xb.AR_REF) for n in ("Cash", "Text")],
        )
    ]
)
ENT = '<xbrli:identifier scheme="http://ex.org/scheme">E1</xbrli:identifier>'
CONTEXTS = {
    "c1": f"<xbrli:context id=\"c1\"><xbrli:entity>{ENT}</xbrli:entity><xbrli:period><xbrli:startDate>2023-01-01</xbrli:startDate><xbrli:endDate>2023-12-31</xbrli:endDate></xbrli:period></xbrli:context>\n",
    "c2": f"<xbrli:context id=\"c2\"><xbrli:entity>{ENT}</xbrli:entity><xbrli:period><xbrli:instant>2023-12-30</xbrli:instant></xbrli:period></xbrli:context>\n",
    "c3": f"<xbrli:context id=\"c3\"><xbrli:entity>{ENT}<xbrli:segment><xbrldi:explicitMember dimension=\"t:AxisA\">t:M1</xbrldi:explicitMember></xbrli:segment></xbrli:entity><xbrli:period><xbrli:startDate>2022-01-01</xbrli:startDate><xbrli:endDate>2022-12-31</xbrli:endDate></xbrli:period></xbrli:context>\n",
    "c4": f"<xbrli:context id=\"c4\"><xbrli:entity>{ENT}</xbrli:entity><xbrli:period><xbrli:startDate>2021-01-01</xbrli:startDate><xbrli:endDate>2021-12-31</xbrli:endDate></xbrli:period><xbrli:scenario><xbrldi:typedMember dimension=\"t:AxisT\"><t:dom>north</t:dom></xbrldi:typedMember></xbrli:scenario></xbrli:context>\n",
    "c5": f"<xbrli:context id=\"c5\"><xbrli:entity>{ENT}<xbrli:segment><xbrldi:typedMember dimension=\"t:AxisT\"><t:dom>south</t:dom></xbrldi:typedMember><xbrldi:explicitMember dimension=\"t:AxisA\">t:M2</xbrldi:explicitMember></xbrli:segment></xbrli:entity><xbrli:period><xbrli:startDate>2020-01-01</xbrli:startDate><xbrli:endDate>2020-12-31</xbrli:endDate></xbrli:period></xbrli:context>\n",
}
UNITS = {
    "usd": '<xbrli:unit id="usd"><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unit>\n',
    "eur": '<xbrli:unit id="eur"><xbrli:measure>iso4217:EUR</xbrli:measure></xbrli:unit>\n',
    "shares": '<xbrli:unit id="shares"><xbrli:measure>xbrli:shares</xbrli:measure></xbrli:unit>\n',
    "ups": '<xbrli:unit id="ups"><xbrli:divide><xbrli:unitNumerator><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unitNumerator><xbrli:unitDenominator><xbrli:measure>xbrli:shares</xbrli:measure></xbrli:unitDenominator></xbrli:divide></xbrli:unit>\n',
}
# id -> concept, context, unit, decimals, value
FACTS = {
    "f1": ("Cash", "c2", "usd", "0", "100"),
    "f2": ("Cost", "c1", "usd", "-3", "40"),
    "f3": ("Text", "c1", None, None, "some text"),
    "f4": ("Cost", "c3", "eur", "INF", "7"),
    "f5": ("Note", "c3", None, None, "a note"),
    "f6": ("Shares", "c4", "shares", "2", "12.25"),
    "f7": ("Ratio", "c5", "ups", "3", "1.5"),
    "f8": ("Text", "c4", None, None, "more"),
    "f9": ("Total", "c1", "usd", "0", "60"),
    "f10": ("Total", "c5", "eur", "0", "61"),
}
PLAIN_FACTS = {i: f'<t:{c} id="{i}" contextRef="{x}"' + (f' unitRef="{u}" decimals="{d}"' if u else "") + f">{v}</t:{c}>\n" for i, (c, x, u, d, v) in FACTS.items()}
FOOTNOTES = (
    f'<link:footnoteLink xlink:type="extended" xlink:role="{xb.ROLE_LINK}">\n'
    + '<link:loc xlink:type="locator" xlink:href="#f1" xlink:label="a"/>\n<link:loc xlink:type="locator" xlink:href="#f3" xlink:label="b"/>\n'
    + f'<link:footnote xlink:type="resource" xlink:label="n1" xlink:role="{xb.R_FOOT}" xml:lang="en">first note</link:footnote>\n'
    + f'<link:footnote xlink:type="resource" xlink:label="n2" xlink:role="{xb.R_FOOT}" xml:lang="en">second note</link:footnote>\n'
    + f'<link:footnoteArc xlink:type="arc" xlink:from="a" xlink:to="n1" xlink:arcrole="{xb.AR_FOOT}"/>\n'
    + f'<link:footnoteArc xlink:type="arc" xlink:from="b" xlink:to="n2" xlink:arcrole="{xb.AR_FOOT}"/>\n'
    + "</link:footnoteLink>\n"
)
PLAIN = (
    H
    + f'<xbrli:xbrl{xb.nsdecl(roots())}>\n<link:schemaRef xlink:type="simple" xlink:href="t.xsd"/>\n'
    + "".join(CONTEXTS.values())
    + "".join(UNITS.values())
    + "".join(PLAIN_FACTS.values())
    + FOOTNOTES
    + "</xbrli:xbrl>\n"
)
IX_FACTS = {
    "f1": '<p><ix:nonFraction id="f1" name="t:Cash" contextRef="c2" unitRef="usd" decimals="0" format="ixt:num-dot-decimal">1,00</ix:nonFraction></p>\n'.replace("1,00", "100"),
    "f2": '<p><ix:nonFraction id="f2" name="t:Cost" contextRef="c1" unitRef="usd" decimals="-3" scale="1">4</ix:nonFraction></p>\n',
    "f3": '<p><ix:nonNumeric id="f3" name="t:Text" contextRef="c1" continuedAt="k1">some </ix:nonNumeric></p>\n<p><ix:continuation id="k1">text</ix:continuation></p>\n',
    "f4": '<p><ix:nonFraction id="f4" name="t:Cost" contextRef="c3" unitRef="eur" decimals="INF" format="ixt:num-dot-decimal">7</ix:nonFraction></p>\n',
    "f5": '<p><ix:nonNumeric id="f5" name="t:Note" contextRef="c3" escape="false">a <b>note</b></ix:nonNumeric></p>\n',
    "f6": '<p><ix:nonFraction id="f6" name="t:Shares" contextRef="c4" unitRef="shares" decimals="2" format="ixt:num-comma-decimal">12,25</ix:nonFraction></p>\n',
    "f7": '<p><ix:nonFraction id="f7" name="t:Ratio" contextRef="c5" unitRef="ups" decimals="3">1.5</ix:nonFraction></p>\n',
    "f8": '<p><ix:nonNumeric id="f8" name="t:Text" contextRef="c4">more</ix:nonNumeric></p>\n',
    "f9": '<p><ix:nonFraction id="f9" name="t:Total" contextRef="c1" unitRef="usd" decimals="0"><ix:nonFraction id="f11" name="t:Cash" contextRef="c1" unitRef="usd" decimals="0">60</ix:nonFraction></ix:nonFraction></p>\n',
    "f10": '<p><ix:nonFraction id="f10" name="t:Total" contextRef="c5" unitRef="eur" decimals="0" sign="-">61</ix:nonFraction></p>\n',
}
IX = (
    H
    + f'<html{xb.nsdecl({"": xb.XHTML, "ix": xb.IX, "ixt": "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12", **roots()})}><head><title>t</title></head><body>\n'
    + '<div><ix:header>\n<ix:hidden>\n<ix:nonNumeric id="f12" name="t:Note" contextRef="c1">hidden</ix:nonNumeric>\n</ix:hidden>\n'
    + '<ix:references>\n<link:schemaRef xlink:type="simple" xlink:href="t.xsd"/>\n</ix:references>\n<ix:resources>\n'
    + "".join(CONTEXTS.values())
    + "".join(UNITS.values())
    + '<ix:relationship fromRefs="f1" toRefs="n1"/>\n<ix:relationship fromRefs="f3" toRefs="n2"/>\n'
    + "</ix:resources>\n</ix:header></div>\n"
    + "".join(IX_FACTS.values())
    + '<p><ix:footnote id="n1" xml:lang="en">first note</ix:footnote></p>\n<p><ix:footnote id="n2" xml:lang="en">second note</ix:footnote></p>\n'
    + "</body></html>\n"
)
TAXONOMY = {"t.xsd": SCHEMA, "u.xsd": OTHER, "pre.xml": PRE, "cal.xml": CAL, "def.xml": DEF, "lab.xml": LAB, "ref.xml": REF}
BASE = {"plain": ("i.xml", dict(TAXONOMY, **{"i.xml": PLAIN})), "inline": ("i.xhtml", dict(TAXONOMY, **{"i.xhtml": IX}))}
INSTANCE = {"plain": "i.xml", "inline": "i.xhtml"}


def facts_in(*ctx, unit=None):
    return ["fact:" + i for i, (c, x, u, d, v) in FACTS.items() if (not ctx or x in ctx) and (unit is None or u == unit)]


# ------------------------------------------------------------------ the catalogue
# (name, file, old, new, touched items, texts one of which is in the place that the error names)
def catalogue(syntax):
    I = INSTANCE[syntax]
    inline = syntax == "inline"
    out = []

    def d(name, file, old, new, touches, marks, more=(), free=False):
        out.append({"name": name, "edits": [(file, old, new)] + list(more), "touches": list(touches), "marks": [marks] if isinstance(marks, str) else list(marks), "free": free})

    foot = ["net:FootnoteNetwork:" + xb.ROLE_LINK]
    c1 = facts_in("c1") + (["fact:f12", "fact:f11"] if inline else []) + foot
    c2 = facts_in("c2") + foot
    c3, c4, c5 = facts_in("c3"), facts_in("c4"), facts_in("c5")
    usd = facts_in(unit="usd") + (["fact:f11"] if inline else []) + foot
    eur, shares, ups = facts_in(unit="eur"), facts_in(unit="shares"), facts_in(unit="ups")
    # ---- contexts
    P1 = "<xbrli:period><xbrli:startDate>2023-01-01</xbrli:startDate><xbrli:endDate>2023-12-31</xbrli:endDate></xbrli:period>"
    P2 = "<xbrli:period><xbrli:instant>2023-12-30</xbrli:instant></xbrli:period>"
    P3 = "<xbrli:period><xbrli:startDate>2022-01-01</xbrli:startDate><xbrli:endDate>2022-12-31</xbrli:endDate></xbrli:period>"
    d("no period", I, P2, "", c2, 'id="c2"')
    d("empty period", I, P2, "<xbrli:period/>", c2, ['id="c2"', "period"])
    d("no entity", I, f'id="c2"><xbrli:entity>{ENT}</xbrli:entity>', 'id="c2">', c2, 'id="c2"')
    d("no identifier", I, f'id="c2"><xbrli:entity>{ENT}</xbrli:entity>', 'id="c2"><xbrli:entity/>', c2, ['id="c2"', "entity"])
    d("no scheme", I, f'id="c2"><xbrli:entity>{ENT}</xbrli:entity>', 'id="c2"><xbrli:entity><xbrli:identifier>E1</xbrli:identifier></xbrli:entity>', c2, ["identifier"])
    d("empty identifier", I, f'id="c2"><xbrli:entity>{ENT}</xbrli:entity>', 'id="c2"><xbrli:entity><xbrli:identifier scheme="http://ex.org/scheme"/></xbrli:entity>', c2, ["identifier"])
    d("blank identifier", I, f'id="c3"><xbrli:entity>{ENT}', 'id="c3"><xbrli:entity><xbrli:identifier scheme="http://ex.org/scheme"> </xbrli:identifier>', c3, ["identifier"])
    for n, x in (("words", "yesterday"), ("empty", ""), ("month", "2023-12"), ("day", "2023-12-32"), ("order", "31-12-2023"), ("slashes", "2023/12/30"), ("numbers", "20231230"), ("time", "10:30"), ("year", "2023")):
        d(f"instant {n}", I, "<xbrli:instant>2023-12-30<", f"<xbrli:instant>{x}<", c2, ["instant"])
    d("start date", I, "<xbrli:startDate>2022-01-01<", "<xbrli:startDate>2022-13-01<", c3, "startDate")
    d("end date", I, "<xbrli:endDate>2022-12-31<", "<xbrli:endDate>2022-02-30<", c3, "endDate")
    d("no start", I, "<xbrli:startDate>2022-01-01</xbrli:startDate>", "", c3, ["period"])
    d("no end", I, "<xbrli:endDate>2021-12-31</xbrli:endDate>", "", c4, ["period"])
    d("end before start", I, P1, P1.replace("2023-01-01", "2024-01-01"), c1, ["period", "startDate"])
    d("no context id", I, 'context id="c3"', "context", c3, ["<xbrli:context", 'contextRef="c3"'])
    d("no dimension", I, 'explicitMember dimension="t:AxisA">t:M1<', "explicitMember>t:M1<", c3, "explicitMember")
    d("unknown dimension", I, 'explicitMember dimension="t:AxisA">t:M1<', 'explicitMember dimension="t:AxisX">t:M1<', c3, "explicitMember")
    d("unknown dimension prefix", I, 'explicitMember dimension="t:AxisA">t:M1<', 'explicitMember dimension="zz:AxisA">t:M1<', c3, "explicitMember")
    d("concept as dimension", I, 'explicitMember dimension="t:AxisA">t:M1<', 'explicitMember dimension="t:Text">t:M1<', c3, "explicitMember")
    d("typed dimension without domain", I, 'explicitMember dimension="t:AxisA">t:M1<', 'explicitMember dimension="t:AxisA"><', c3, "explicitMember")
    d("blank member", I, 'explicitMember dimension="t:AxisA">t:M2<', 'explicitMember dimension="t:AxisA"> <', c5, "explicitMember")
    d("unknown member", I, 'explicitMember dimension="t:AxisA">t:M2<', 'explicitMember dimension="t:AxisA">t:M9<', c5, "explicitMember")
    d("unknown member prefix", I, 'explicitMember dimension="t:AxisA">t:M2<', 'explicitMember dimension="t:AxisA">qq:M2<', c5, "explicitMember")
    d("concept as member", I, 'explicitMember dimension="t:AxisA">t:M2<', 'explicitMember dimension="t:AxisA">t:Cash<', c5, "explicitMember")
    d("malformed member", I, 'explicitMember dimension="t:AxisA">t:M2<', 'explicitMember dimension="t:AxisA">t:M2:x<', c5, "explicitMember")
    d("no typed dimension", I, 'typedMember dimension="t:AxisT"><t:dom>north', "typedMember><t:dom>north", c4, "typedMember")
    d("unknown typed dimension", I, 'typedMember dimension="t:AxisT"><t:dom>north', 'typedMember dimension="t:AxisX"><t:dom>north', c4, "typedMember")
    d("member as typed dimension", I, 'typedMember dimension="t:AxisT"><t:dom>north', 'typedMember dimension="t:M1"><t:dom>north', c4, "typedMember")
    d("no typed value", I, "<t:dom>north</t:dom>", "", c4, "typedMember")
    d("text as typed value", I, "<t:dom>north</t:dom>", "north", c4, "typedMember")
    d("empty typed value", I, "<t:dom>north</t:dom>", "<t:dom/>", c4, "typedMember", free=True)
    d("two typed values", I, "<t:dom>north</t:dom>", "<t:dom>north</t:dom><t:dom>west</t:dom>", c4, "typedMember")
    d("other dimension content", I, '<xbrldi:explicitMember dimension="t:AxisA">t:M1</xbrldi:explicitMember>', "<t:other>x</t:other>", c3, "other")
    d("unknown container child", I, '<xbrldi:explicitMember dimension="t:AxisA">t:M1</xbrldi:explicitMember>', '<xbrldi:member dimension="t:AxisA">t:M1</xbrldi:member>', c3, "member")
    # ---- units
    M = lambda x: f"<xbrli:measure>{x}</xbrli:measure>"
    d("no measure", I, M("iso4217:EUR"), "", eur, 'id="eur"')
    d("empty measure", I, M("iso4217:EUR"), "<xbrli:measure/>", eur, "measure")
    d("blank measure", I, M("iso4217:EUR"), "<xbrli:measure> </xbrli:measure>", eur, "measure")
    d("unknown measure prefix", I, M("iso4217:EUR"), M("zz:EUR"), eur, "measure")
    d("other unit child", I, M("iso4217:EUR"), "<xbrli:times>iso4217:EUR</xbrli:times>", eur, 'id="eur"')
    d("two unit children", I, M("iso4217:EUR"), M("iso4217:EUR") + "<xbrli:divide/>", eur, 'id="eur"')
    N, D = "<xbrli:unitNumerator><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unitNumerator>", "<xbrli:unitDenominator><xbrli:measure>xbrli:shares</xbrli:measure></xbrli:unitDenominator>"
    d("no denominator", I, D, "", ups, 'id="ups"')
    d("empty divide", I, N + D, "", ups, 'id="ups"')
    d("two numerators", I, N + D, N + N, ups, 'id="ups"', free=True)
    d("empty numerator", I, N, "<xbrli:unitNumerator/>", ups, ['id="ups"', "unitNumerator"])
    d("other divide child", I, D, "<xbrli:per><xbrli:measure>xbrli:shares</xbrli:measure></xbrli:per>", ups, 'id="ups"')
    d("three divide children", I, D, D + D, ups, 'id="ups"', free=True)
    d("no unit id", I, 'unit id="shares"', "unit", shares, ["<xbrli:unit", 'unitRef="shares"'])
    # ---- facts
    if not inline:
        F = PLAIN_FACTS
        d("undeclared concept", I, F["f2"], F["f2"].replace("t:Cost", "t:Costs"), ["fact:f2"], 'id="f2"')
        d("undeclared concept namespace", I, F["f5"], F["f5"].replace("<t:Note", '<t:Note xmlns:t="http://ex.org/elsewhere"'), ["fact:f5"], 'id="f5"')
        d("abstract as concept", I, F["f3"], F["f3"].replace("t:Text", "t:Head"), ["fact:f3"] + foot, 'id="f3"')
        d("member as concept", I, F["f5"], F["f5"].replace("t:Note", "t:M1"), ["fact:f5"], 'id="f5"')
        for n, x in (("unknown", "c9"), ("empty", ""), ("quoted", "c'1"), ("double quoted", "c&quot;1"), ("bracketed", "c1]")):
            d(f"context {n}", I, F["f4"], F["f4"].replace('contextRef="c3"', f'contextRef="{x}"'), ["fact:f4"], 'id="f4"')
            d(f"unit {n}", I, F["f10"], F["f10"].replace('unitRef="eur"', f'unitRef="{x.replace("c", "u")}"'), ["fact:f10"], 'id="f10"')
        d("no context", I, F["f5"], F["f5"].replace(' contextRef="c3"', ""), ["fact:f5"], 'id="f5"')
        for n, x in (("words", "two"), ("fraction", "1.5"), ("empty", ""), ("infinite", "-INF"), ("underscore", "1_0"), ("other digits", "\u0663"), ("infinite in small letters", "inf")):
            d(f"decimals {n}", I, F["f6"], F["f6"].replace('decimals="2"', f'decimals="{x}"'), ["fact:f6"], 'id="f6"')
            d(f"precision {n}", I, F["f7"], F["f7"].replace('decimals="3"', f'precision="{x}"'), ["fact:f7"], 'id="f7"')
        d("no value", I, F["f2"], F["f2"].replace(">40<", "><"), ["fact:f2"], 'id="f2"', free=True)
        # ---- footnotes
        d("footnote locator", I, 'xlink:href="#f1"', 'xlink:href="#f99"', foot, "#f99")
        d("footnote locator without reference", I, ' xlink:href="#f1"', "", foot, 'xlink:label="a"')
        d("footnote locator without label", I, 'xlink:href="#f1" xlink:label="a"', 'xlink:href="#f1"', foot, ["#f1", 'xlink:from="a"'])
        d("footnote language", I, ' xml:lang="en">first', ">first", foot, "first note")
        d("footnote arc", I, 'xlink:from="a"', 'xlink:from="q"', foot, 'xlink:from="q"')
        d("footnote of another kind", I, "<link:footnote xlink:type=\"resource\" xlink:label=\"n1\"", "<link:remark xlink:type=\"resource\" xlink:label=\"n1\"", foot, "remark", more=[(I, "first note</link:footnote>", "first note</link:remark>")])
    else:
        F = IX_FACTS
        d("undeclared concept", I, F["f2"], F["f2"].replace("t:Cost", "t:Costs"), ["fact:f2"], 'id="f2"')
        d("undeclared prefix", I, F["f5"], F["f5"].replace("t:Note", "zz:Note"), ["fact:f5"], 'id="f5"')
        d("no name", I, F["f5"], F["f5"].replace(' name="t:Note"', ""), ["fact:f5"], 'id="f5"')
        d("malformed name", I, F["f5"], F["f5"].replace('"t:Note"', '"t:Note:x"'), ["fact:f5"], 'id="f5"')
        d("abstract as concept", I, F["f3"], F["f3"].replace("t:Text", "t:Head"), ["fact:f3"] + foot, 'id="f3"')
        for n, x in (("unknown", "c9"), ("empty", ""), ("quoted", "c'1"), ("double quoted", "c&quot;1")):
            d(f"context {n}", I, F["f4"], F["f4"].replace('contextRef="c3"', f'contextRef="{x}"'), ["fact:f4"], 'id="f4"')
            d(f"unit {n}", I, F["f10"], F["f10"].replace('unitRef="eur"', f'unitRef="{x.replace("c", "u")}"'), ["fact:f10"], 'id="f10"')
        d("no context", I, F["f5"], F["f5"].replace(' contextRef="c3"', ""), ["fact:f5"], 'id="f5"')
        d("no unit", I, F["f6"], F["f6"].replace(' unitRef="shares"', ""), ["fact:f6"], 'id="f6"')
        for n, x in (("words", "two"), ("fraction", "1.5"), ("empty", ""), ("infinite", "-INF"), ("underscore", "1_0"), ("other digits", "\u0663"), ("infinite in small letters", "inf")):
            d(f"decimals {n}", I, F["f6"], F["f6"].replace('decimals="2"', f'decimals="{x}"'), ["fact:f6"], 'id="f6"')
            d(f"precision {n}", I, F["f7"], F["f7"].replace('decimals="3"', f'precision="{x}"'), ["fact:f7"], 'id="f7"')
        d("decimals and precision", I, F["f7"], F["f7"].replace('decimals="3"', 'decimals="3" precision="2"'), ["fact:f7"], 'id="f7"', free=True)
        d("no value", I, F["f4"], F["f4"].replace(">7<", "><"), ["fact:f4"], 'id="f4"', free=True)
        d("number in words", I, F["f4"], F["f4"].replace(">7<", ">seven<"), ["fact:f4"], 'id="f4"', free=True)
        d("number in words without format", I, F["f7"], F["f7"].replace(">1.5<", ">one<"), ["fact:f7"], 'id="f7"', free=True)
        d("negative number", I, F["f7"], F["f7"].replace(">1.5<", ">-1.5<"), ["fact:f7"], 'id="f7"', free=True)
        d("unknown format", I, F["f6"], F["f6"].replace("num-comma-decimal", "num-strange"), ["fact:f6"], 'id="f6"', free=True)
        d("unknown format prefix", I, F["f6"], F["f6"].replace("ixt:num-comma", "zz:num-comma"), ["fact:f6"], 'id="f6"', free=True)
        for n, x in (("words", "two"), ("fraction", "1.5"), ("empty", ""), ("underscore", "0_1"), ("other digits", "\u0661")):
            d(f"scale {n}", I, F["f2"], F["f2"].replace('scale="1"', f'scale="{x}"'), ["fact:f2"], 'id="f2"', free=True)
        d("sign", I, F["f10"], F["f10"].replace('sign="-"', 'sign="+"'), ["fact:f10"], 'id="f10"', free=True)
        d("escape", I, F["f5"], F["f5"].replace('escape="false"', 'escape="maybe"'), ["fact:f5"], 'id="f5"', free=True)
        d("continuation", I, 'continuedAt="k1"', 'continuedAt="k9"', ["fact:f3"] + foot, ['id="f3"', 'id="k1"'], free=True)
        d("continuation without id", I, 'continuation id="k1"', "continuation", ["fact:f3"] + foot, ['id="f3"', "continuation"], free=True)
        d("nested format", I, F["f9"], F["f9"].replace('id="f11"', 'id="f11" scale="2"'), ["fact:f9", "fact:f11"], ['id="f11"', 'id="f9"'], free=True)
        d("nested unit", I, F["f9"], F["f9"].replace('id="f11" name="t:Cash" contextRef="c1" unitRef="usd"', 'id="f11" name="t:Cash" contextRef="c1" unitRef="eur"'), ["fact:f9", "fact:f11"], ['id="f11"', 'id="f9"'], free=True)
        d("text beside nested", I, F["f9"], F["f9"].replace("60</ix:nonFraction></ix", "60</ix:nonFraction> thousand</ix"), ["fact:f9", "fact:f11"], ['id="f11"', 'id="f9"'], free=True)
        d("two nested", I, F["f9"], F["f9"].replace("60</ix:nonFraction></ix", '60</ix:nonFraction><ix:nonFraction id="f13" name="t:Cash" contextRef="c1" unitRef="usd" decimals="0">1</ix:nonFraction></ix'), ["fact:f9", "fact:f11", "fact:f13"], ['id="f11"', 'id="f9"'], free=True)
        d("nil with text", I, F["f9"].replace("\n", ""), F["f9"].replace("\n", "").replace('id="f9"', 'id="f9" xsi:nil="true"'), ["fact:f9", "fact:f11"], ['id="f11"', 'id="f9"'], free=True)
        d("fraction", I, '<ix:nonNumeric id="f12"', '<ix:fraction id="f14" name="t:Ratio" contextRef="c1" unitRef="ups"/><ix:nonNumeric id="f12"', [], ["fraction"])
        d("other hidden element", I, '<ix:nonNumeric id="f12"', '<p>x</p><ix:nonNumeric id="f12"', [], ["hidden"])
        d("other resource", I, UNITS["usd"], UNITS["usd"] + "<xbrli:thing/>", [], ["resources", "thing"])
        d("other header child", I, "<ix:references>", "<ix:thing/><ix:references>", [], ["header", "thing"])
        d("other reference", I, "</ix:references>", "<xbrli:thing/></ix:references>", [], ["references", "thing"])
        # ---- footnotes
        d("footnote without id", I, 'footnote id="n1"', "footnote", foot, ["first note", 'toRefs="n1"'])
        d("footnote language", I, 'id="n1" xml:lang="en"', 'id="n1"', foot, "first note")
        d("relationship from", I, 'fromRefs="f1"', 'fromRefs="f99"', foot, "f99")
        d("relationship to", I, 'toRefs="n1"', 'toRefs="n99"', foot, "n99")
        d("relationship without from", I, ' fromRefs="f1"', "", foot, ['toRefs="n1"', "<ix:relationship "])
        d("relationship without to", I, ' toRefs="n1"', "", foot, ['fromRefs="f1"', "<ix:relationship "])
        for n, x in (("words", "first"), ("underscore", "1_0"), ("nan", "nan"), ("infinite", "inf"), ("exponent", "1e1")):
            d(f"relationship order {n}", I, 'fromRefs="f1" toRefs', f'fromRefs="f1" order="{x}" toRefs', foot, 'toRefs="n1"')
    # ---- taxonomy
    preA, preB, calA, defB = ["net:PresentationNetwork:" + R + "A", "comp:" + R + "A"], ["net:PresentationNetwork:" + R + "B", "comp:" + R + "B"], ["net:CalculationNetwork:" + R + "A", "comp:" + R + "A"], ["net:DefinitionNetwork:" + R + "B", "comp:" + R + "B"]
    lab, ref = ["net:LabelNetwork:" + xb.ROLE_LINK], ["net:ReferenceNetwork:" + xb.ROLE_LINK]
    gone = lambda c: ["element:t:" + c] + ["fact:" + i for i, f in FACTS.items() if f[0] == c]
    note = gone("Note") + preB + (["fact:f12"] if inline else [])
    X = lambda n: next(l for l in SCHEMA.splitlines(True) if f'name="{n}"' in l)
    d("no period type", "t.xsd", X("Note"), X("Note").replace(' xbrli:periodType="duration"', ""), note, 'name="Note"')
    d("unknown period type", "t.xsd", X("Note"), X("Note").replace('"duration"', '"forever"'), note, 'name="Note"')
    d("unknown balance", "t.xsd", X("Total"), X("Total").replace('balance="debit"', 'balance="both"'), gone("Total") + preA + calA + (["fact:f11"] if inline else []), 'name="Total"')
    d("unknown nillable", "t.xsd", X("Shares"), X("Shares").replace("/>", ' nillable="perhaps"/>'), gone("Shares") + preB + defB, 'name="Shares"')
    d("no type", "t.xsd", X("Ratio"), X("Ratio").replace(' type="xbrli:pureItemType"', ""), gone("Ratio") + preB, 'name="Ratio"')
    d("typed domain", "t.xsd", "#t_dom", "#t_nothing", ["element:t:AxisT"] + c4 + c5, 'name="AxisT"', free=True)
    d("typed domain schema", "t.xsd", "#t_dom", "nothing.xsd#t_dom", ["element:t:AxisT"] + c4 + c5, ['name="AxisT"', "nothing.xsd"], free=True)
    d("missing schema", "t.xsd", 'schemaLocation="u.xsd"', 'schemaLocation="v.xsd"', ["element:u:Extra"], "v.xsd")
    d("broken schema", "u.xsd", "</xs:schema>", "</xs:schem>", ["element:u:Extra"], "u.xsd")
    for f, touched in (("pre.xml", preA + preB), ("cal.xml", calA), ("def.xml", defB), ("lab.xml", lab + ["label:t:" + n for n in LABS]), ("ref.xml", ref)):
        d(f"missing {f}", "t.xsd", f'"{f}"', f'"x{f}"', touched, "x" + f)
        d(f"broken {f}", f, "</link:linkbase>", "</link:linkbase", touched, f)
    # ---- linkbases
    lp = ["label:t:Cash"] + lab
    for f, n, touched in (("pre.xml", "Cash", preA), ("cal.xml", "Cost", calA), ("def.xml", "M2", defB), ("lab.xml", "Cash", lp), ("ref.xml", "Text", ref)):
        L = loc(n)
        d(f"{f} locator", f, L, L.replace("#t_", "#t_no"), touched, "#t_no" + n)
        d(f"{f} locator document", f, L, L.replace("t.xsd", "no.xsd"), touched, "no.xsd")
        d(f"{f} locator without reference", f, L, L.replace(f' xlink:href="t.xsd#t_{n}"', ""), touched, f'xlink:label="{n}"')
        d(f"{f} locator to a type", f, L, L.replace("#t_" + n, "#A"), touched, "#A")
        d(f"{f} locator without label", f, L, L.replace(f' xlink:label="{n}"', ""), touched, "#t_" + n)
    A = lambda text, a, b: next(l for l in text.splitlines(True) if f'xlink:from="{a}"' in l and f'xlink:to="{b}"' in l)
    for f, text, a, b, touched in (("pre.xml", PRE, "Head", "Text", preA), ("cal.xml", CAL, "Total", "Cost", calA), ("def.xml", DEF, "M1", "M2", defB), ("lab.xml", LAB, "Text", "l_Text", lab + ["label:t:Text"]), ("ref.xml", REF, "Cash", "r_Cash", ref)):
        l = A(text, a, b)
        d(f"{f} arc from", f, l, l.replace(f'xlink:from="{a}"', 'xlink:from="nowhere"'), touched, "nowhere")
        d(f"{f} arc to", f, l, l.replace(f'xlink:to="{b}"', 'xlink:to="nowhere"'), touched, "nowhere")
        d(f"{f} arc without from", f, l, l.replace(f' xlink:from="{a}"', ""), touched, f'xlink:to="{b}"')
        d(f"{f} arc without to", f, l, l.replace(f' xlink:to="{b}"', ""), touched, f'xlink:from="{a}"')
        import re

        d(f"{f} arc without role", f, l, re.sub(' xlink:arcrole="[^"]*"', "", l), touched, f'xlink:to="{b}"')
        if "order=" in l:
            d(f"{f} order", f, l, re.sub(' order="[^"]*"', ' order="first"', l), touched, f'xlink:to="{b}"')
            d(f"{f} order nan", f, l, re.sub(' order="[^"]*"', ' order="NaN"', l), touched, f'xlink:to="{b}"')
        if "weight=" in l:
            d(f"{f} weight", f, l, re.sub(' weight="[^"]*"', ' weight="much"', l), touched, f'xlink:to="{b}"')
            d(f"{f} no weight", f, l, re.sub(' weight="[^"]*"', "", l), touched, f'xlink:to="{b}"')
    d("label language", "lab.xml", ' xml:lang="de"', "", ["label:t:Cost"] + lab, "Kosten")
    d("label of another kind", "lab.xml", "<link:label xlink:type=\"resource\" xlink:label=\"l_Cost\"", "<link:text xlink:type=\"resource\" xlink:label=\"l_Cost\"", ["label:t:Cost"] + lab, "Kosten", more=[("lab.xml", "Kosten</link:label>", "Kosten</link:text>")])
    d("link without role", "pre.xml", f' xlink:role="{R}B"', "", preB, "presentationLink")
    d("calculation without role", "cal.xml", f' xlink:role="{R}A"', "", calA, "calculationLink")
    d("label link without role", "lab.xml", f'labelLink xlink:type="extended" xlink:role="{xb.ROLE_LINK}"', 'labelLink xlink:type="extended"', lab + ["label:t:" + n for n in LABS], "labelLink")
    d("unused role", "t.xsd", "<link:usedOn>link:calculationLink</link:usedOn>", "", calA, ["calculationLink", 'roleURI="' + R + "A"])
    d("member in calculation", "cal.xml", "t.xsd#t_Cost", "t.xsd#t_M1", calA, "#t_M1")
    return out


def apply(files, defect):
    """-> the files with the defect, or None if it does not fit any more"""
    files = dict(files)
    for f, old, new in defect["edits"]:
        if files[f].count(old) != 1:
            return None
        files[f] = files[f].replace(old, new)
    return files
