"""Which text an output shows: labels, translations and preference lists, independent of brel."""
import csv
import os

import env

BASE = "http://www.brel.com/translations/"
_tr = None


def translations():
    global _tr
    if _tr is None:
        _tr = {}
        with open(os.path.join(env.REPO, "brel/config/translations.csv"), encoding="utf-8-sig", newline="") as f:
            for row in list(csv.reader(f))[1:]:
                _tr.setdefault((row[0][len(BASE) :], row[1]), {})[f"{row[2]}-{row[3]}"] = row[4]
    return _tr


class NoText(Exception):
    pass


def match(want, have, locale):
    want, have = want.lower(), have.lower()
    return want == have if locale else want.split("-")[0] == have.split("-")[0]


def lit(ns, name, langs, locale):
    """the text of a literal of the library in the first possible language"""
    t = translations().get((ns, name))
    for l in langs:
        if l == "" or t is None:
            return name
        for have, text in t.items():
            if match(l, have, locale):
                return text
    raise NoText(f"{ns}:{name}")


def label(labels, default, langs, locale):
    """labels: [(text, language)]"""
    for l in langs:
        if l == "":
            return default
        for text, have in labels:
            if match(l, have, locale):
                return text
    raise NoText(default)


MAIN = ("en", "en-US", "en-GB", "EN", "EN-US", "EN-GB")


def main(labels):
    for l in MAIN:
        for text, have in labels:
            if have == l:
                return text
    return labels[0][0] if labels else "NO_LABEL"


ASPECTS = {
    "concept": [("Concept [Axis]", "en-US"), ("Concept [Axe]", "fr-FR"), ("Konzept [Achse]", "de-DE"), ("Concepto [Eje]", "es-ES")],
    "period": [("Period [Axis]", "en-US"), ("Période [Axe]", "fr-FR"), ("Periode [Achse]", "de-DE"), ("Periodo [Eje]", "es-ES")],
    "entity": [("Entity [Axis]", "en-US"), ("Entité [Axe]", "fr-FR"), ("Organisation [Achse]", "de-DE"), ("Entidad [Eje]", "es-ES")],
    "unit": [("Unit [Axis]", "en-US"), ("Unité [Axe]", "fr-FR"), ("Einheit [Achse]", "de-DE"), ("Unidad [Eje]", "es-ES")],
}


# ------------------------------------------------------------------ expected rows
def fact_row(f, labels, langs, locale):
    """f: {"aspects": [(name, kind, value)], "id", "val"}; labels: element name -> [(text, language)].
    kinds: concept/member (value is (prefixed, local name)), unit, plain"""
    row = {}
    for name, kind, v in f["aspects"]:
        head = label(ASPECTS.get(name, []), name, langs, locale)
        if kind in ("concept", "member"):
            cell = label(labels.get(v, []), v.split(":")[-1], langs, locale)
        elif kind == "unit":
            cell = lit("unit", v, langs, locale)
        else:
            cell = v
        row[head] = cell
    row[lit("literal", "id", langs, locale)] = f["id"] or lit("literal", "none", langs, locale)
    row[lit("literal", "value", langs, locale)] = f["val"]
    return row


def element_row(e, labels, langs, locale):
    """e: {"n": prefixed name, "kind", "period", "balance", "nillable", "type"}"""
    L = lambda ns, n: lit(ns, n, langs, locale)
    mine = labels.get(e["n"], [])
    row = {L("literal", "name"): e["n"], L("literal", "label"): label(mine, main(mine), langs, locale)}
    kind = {"lineitems": "line-items"}.get(e["kind"], e["kind"])
    row[L("literal", "report-element-type")] = L("report-element", kind)
    if kind == "concept":
        row[L("literal", "period-type")] = L("period-type", e["period"])
        row[L("literal", "balance-type")] = L("balance-type", e["balance"]) if e.get("balance") else L("literal", "none")
        row[L("literal", "nillable")] = L("boolean", str(e["nillable"]).lower())
        row[L("literal", "data-type")] = L("data-type", e["type"].split(":")[-1])
    if kind == "dimension":
        row[L("literal", "is-explicit")] = L("boolean", str(e.get("domain") is None).lower())
        row[L("literal", "dimension-type")] = L("data-type", e["domain"].split(":")[-1]) if e.get("domain") else L("literal", "none")
    return row


def component_row(c, labels, langs, locale):
    """c: {"uri", "info", "p", "c", "d"}"""
    L = lambda ns, n: lit(ns, n, langs, locale)
    row = {L("literal", "network-identifier"): c["uri"], L("literal", "info"): c["info"]}
    for k, n in (("p", "presentation"), ("c", "calculation"), ("d", "definition")):
        row[L("literal", n + "-network")] = L("boolean", str(bool(c[k])).lower())
    return row


ROW = {"facts": fact_row, "core": fact_row, "elements": element_row, "components": component_row}


def table(kind, items, labels, langs, locale, mixed):
    """the rows of a table, or None if there is no language in which they can be shown"""
    try:
        if mixed:
            return [ROW[kind](i, labels, langs, locale) for i in items]
    except NoText:
        return None
    for l in langs:
        try:
            return [ROW[kind](i, labels, [l], locale) for i in items]
        except NoText:
            pass
    return None


def rows(df):
    """the rows of a DataFrame without its empty cells"""
    import pandas as pd

    out = []
    for i in range(len(df)):
        r = {}
        for j, c in enumerate(df.columns):
            v = df.iat[i, j]
            if isinstance(v, float) and pd.isna(v):
                continue
            if c in r:
                r[c + " (again)"] = v
            else:
                r[c] = v
        out.append(r)
    return out
