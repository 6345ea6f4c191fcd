"""P21: language preferences are honoured in the documented order."""
import os

import common as k
import env
import nets
import obs
import texts
import xb
from checks import p20
from core import Result, Scenario, Violation

TECHNIQUE = "explicit-state enumeration of all settings of the six output options at the call, report and library level, of the system's locale, of the working directory and of the languages of the labels, up to a number of deviations from the defaults; the tables of the real code are compared cell by cell with the text that the preference order selects in the model"
ASSUMPTIONS = [
    "with no allowed language at all (no preference, nothing allowed) the plain form is shown; this is not judged",
    "the languages of a report are those of its xml:lang attributes, in the order in which they appear",
    "a setting of the library or of a report replaces the earlier one of the same level; options that it does not name are as if never set",
]
LANGS = [None, "de", ["de-DE"], ["fr-FR", "en"], ["DE-at", "en-US"], ["xx", "it-IT"], [""], [], ["zh-Hans-CN", "zh-Hant-TW"], ["de-CH-1996", "de-CH-1901", "de-CH"]]
BOOL = [None, True, False]
SWITCHES = ["match_locale", "allow_mixed", "allow_default", "allow_system_language", "allow_report_language"]
DEFAULTS = {"languages": [], **{s: True for s in SWITCHES}}
LEVELS = ["call", "report", "library"]
# LC_ALL, LC_CTYPE, LANG -> the language of the system
LOCALES = {
    "none": ((None, None, None), None),
    "C": (("C", None, None), None),
    "de": (("de_DE.UTF-8", None, None), "de-DE"),
    "en": ((None, None, "en_US.UTF-8"), "en-US"),
    "fr": (("fr_FR.UTF-8", "de_DE.UTF-8", "en_US.UTF-8"), "fr-FR"),
    "es": ((None, "es_ES.UTF-8", "de_DE.UTF-8"), "es-ES"),
    "unknown": (("xx_YY", None, None), None),
}
LABELS = {
    "two": p20.LABELS["two"],
    "none": {},
    "regional": {"t:" + n: [(f"{n} AT", "de-AT"), (f"{n} US", "en-US"), (f"{n} DE", "de-DE"), (f"{n} FR", "fr-FR")] for n in p20.ALL},
    "some": {"t:Cash": [("Kasse", "de-DE"), ("Cash!", "en-US")], "t:M1": [("Mitglied", "de-DE")], "t:AxisB": [("Achse", "de-DE")]},
    "script": {"t:" + n: [(f"{n} Hant", "zh-Hant-TW"), (f"{n} 1901", "de-CH-1901")] for n in p20.ALL},
    "odd": {"t:Cash": [("cassa", "it-IT"), ("cash", "xx")], "t:Cost": [("cost", "XX"), ("costo", "it")], "t:Text": [("text", "xx-YY")]},
}
FACTS = ["core", "text", "A1", "AB", "ratio"]
COMPS = [["", "nothing"], ["p", "one"]]


def build(ch):
    c = {"labels": ch.pick("labels", list(LABELS)), "locale": ch.pick("locale", list(LOCALES)), "cwd": ch.pick("cwd", ["repository", "/", "parent"])}
    for level in LEVELS:
        o = {}
        v = ch.pick(level + ".languages", LANGS)
        if v is not None:
            o["languages"] = v
        for s in SWITCHES:
            v = ch.pick(f"{level}.{s}", BOOL)
            if v is not None:
                o[s] = v
        c[level] = o
    c["setter"] = ch.flag("library languages by their own setter")
    return c


def build_levels(ch):
    """every combination of the three levels: languages and one switch"""
    s = ch.pick("switch", SWITCHES, free=True)
    c = {"labels": ch.pick("labels", list(LABELS)), "locale": ch.pick("locale", ["fr", "none", "es"]), "cwd": "repository"}
    for level in LEVELS:
        v = ch.pick(level + ".languages", [None, "de", ["fr-FR", "en"], ["xx", "it-IT"]], free=True)
        c[level] = {} if v is None else {"languages": v}
    for level in LEVELS:
        v = ch.pick(f"{level}.{s}", BOOL, free=True)
        if v is not None:
            c[level][s] = v
    c["setter"] = False
    return c


def files(labels):
    inst = xb.instance(
        {
            "schemaRefs": ["t.xsd"],
            "nsmap": k.NS,
            "contexts": list({p20.POOL[f]["ctx"]: p20.CTX[p20.POOL[f]["ctx"]] for f in FACTS}.values()),
            "units": p20.UNITS,
            "facts": [dict(p20.POOL[f], id=f"f{i}") for i, f in enumerate(FACTS)],
        }
    )
    roles = [{"uri": f"http://ex.org/role/c{i}", "id": f"c{i}", "definition": d, "usedOn": ["link:presentationLink"]} for i, (_, d) in enumerate(COMPS)]
    net = xb.linkbase(
        [xb.link("presentationLink", "http://ex.org/role/c1", [xb.locator("a", "t.xsd#t_Cash"), xb.locator("b", "t.xsd#t_Cost"), xb.arc("presentationArc", "a", "b", xb.AR_PC)])]
    )
    return {"i.xml": inst, "t.xsd": xb.schema(k.base_schema(refs=["lab.xml", "pre.xml"], roles=roles)), "lab.xml": p20.label_link(labels), "pre.xml": net}


PREFERENCE = ["call", "report", "library"]


def expected(case):
    """-> (languages, match locale, mixed)"""
    at = lambda s: next((case[l][s] for l in PREFERENCE if s in case[l]), True)
    ls = []
    for l in PREFERENCE:
        v = case[l].get("languages", [])
        ls += [v] if isinstance(v, str) else list(v)
    system = LOCALES[case["locale"]][1]
    if at("allow_system_language") and system:
        ls.append(system)
    if at("allow_report_language"):
        ls += p20.languages(LABELS[case["labels"]])
    if at("allow_default"):
        ls.append("")
    return list(dict.fromkeys(ls)), at("match_locale"), at("allow_mixed")


ELEMENTS = None


def elements():
    global ELEMENTS
    if ELEMENTS is None:
        ELEMENTS = {}
        for e in k.base_schema()["elements"]:
            typed = e["n"] in ("AxisT", "AxisS")
            ELEMENTS["t:" + e["n"]] = {"n": "t:" + e["n"], "kind": e["kind"], "period": "duration", "balance": None, "nillable": True, "type": e.get("type"), "domain": "xs:string" if typed else None}
    return ELEMENTS


def run(case):
    from brel import Filing
    from brel.config.brel_config import BrelConfig

    if case["cwd"] != "repository":
        os.chdir("/" if case["cwd"] == "/" else os.path.dirname(env.REPO) or "/")
    saved = {v: os.environ.get(v) for v in ("LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE")}
    try:
        for v in saved:
            os.environ.pop(v, None)
        for v, x in zip(("LC_ALL", "LC_CTYPE", "LANG"), LOCALES[case["locale"]][0]):
            if x is not None:
                os.environ[v] = x
        Filing.set_global_output_params(**{a: (list(b) if a == "languages" else b) for a, b in DEFAULTS.items()})
        lib = {a: (list(b) if isinstance(b, list) else b) for a, b in case["library"].items()}
        late = None
        if case["setter"]:
            late = lib.pop("languages", None)
        if lib:
            Filing.set_global_output_params(**lib)
        if late is not None:
            BrelConfig.set_preferred_library_languages(late)
        return judge(case)
    finally:
        os.chdir(env.REPO)
        Filing.set_global_output_params(**{a: (list(b) if a == "languages" else b) for a, b in DEFAULTS.items()})
        for v, x in saved.items():
            os.environ.pop(v, None)
            if x is not None:
                os.environ[v] = x


def judge(case):
    labels = LABELS[case["labels"]]
    fl = obs.open_files(files(labels), "i.xml")
    problems = []
    report = {a: (list(b) if isinstance(b, list) else b) for a, b in case["report"].items()}
    if report:
        fl.set_filing_output_params(**report)
    ls, locale, mixed = expected(case)
    if not ls:
        return Result()
    call = {a: (list(b) if isinstance(b, list) else b) for a, b in case["call"].items()}
    el = elements()
    facts = [p20.fact_model(p20.POOL[f], i) for i, f in enumerate(FACTS)]
    order = [e.get_name().prefix_local_name_notation() for e in fl.get_all_report_elements()]
    if sorted(order) != sorted(el):
        return Result([Violation("elements", f"{order}")])
    comps = {f"http://ex.org/role/c{i}": {"uri": f"http://ex.org/role/c{i}", "info": d, **{x: x in n for x in "pcd"}} for i, (n, d) in enumerate(COMPS)}
    kinds = [
        ("facts", fl.generate_fact_table_pandas_df, facts),
        ("core", fl.generate_core_fact_table_pandas_df, [m for m in facts if m["core"]]),
        ("elements", fl.generate_report_elements_as_pandas_df, [el[n] for n in order]),
        ("components", fl.generate_components_as_pandas_df, [comps[u] for u in fl.get_all_component_uris()]),
    ]
    for kind, make, items in kinds:
        want = texts.table(kind, items, labels, ls, locale, mixed)
        if want is None:
            try:
                df = make(**call)
            except (KeyError, ValueError):
                continue
            if len(df):
                problems.append((kind, f"no allowed language has all texts, but the table is {texts.rows(df)[:2]}"))
            continue
        p20.compare(make(**call), want, kind, problems)
        # asking again gives the same answer, and the options are only read
        if kind in ("core", "components"):
            p20.compare(make(**call), want, kind + " again", problems)
    for name, have, given in (("call", call, case["call"]), ("report", report, case["report"])):
        if have != given:
            problems.append(("options", f"the options of the {name} became {have}"))
    # what is not output does not depend on any setting
    got = [(r["text"], r["language"]) for r in fl.get_all_labels()]
    if got != [x for n in order for x in labels.get(n, [])]:
        problems.append(("labels", f"{got}"))
    return Result([Violation(a, f"{b}   [{case}]  languages {ls}") for a, b in problems])


def root_build(ch):
    return {
        "where": ch.pick("where", ["root", "body", "label", "none"]),
        "lang": ch.pick("lang", ["de", "fr-FR", "xx"]),
        "allow": ch.pick("allow", [True, False]),
        "default": ch.pick("default", [True, False]),
        "mixed": ch.pick("mixed", [True, False]),
    }


def root_run(case):
    """the languages of a report, wherever its documents declare them"""
    at = lambda w: f' xml:lang="{case["lang"]}"' if case["where"] == w else ""
    doc = xb.instance({"schemaRefs": ["t.xsd"], "nsmap": k.NS, "contexts": [k.CTX], "units": [k.USD], "facts": [{"c": "t:Cash", "ctx": "c1", "unit": "usd", "val": "1", "id": "f0"}]})
    doc = doc.decode() if isinstance(doc, bytes) else doc
    labels = {"t:Cash": [("Y", case["lang"])]} if case["where"] == "label" else {}
    fs = {"i.xml": doc, "t.xsd": xb.schema(k.base_schema(refs=["lab.xml"])), "lab.xml": p20.label_link(labels)}
    if at("root"):
        i = fs["i.xml"].index("xbrl ", fs["i.xml"].index("<xbrl") if "<xbrl " in fs["i.xml"] else fs["i.xml"].index(":xbrl ")) + 4
        fs["i.xml"] = fs["i.xml"][:i] + at("root") + fs["i.xml"][i:]
    if at("body"):
        fs["i.xml"] = fs["i.xml"].replace('unitRef="usd"', 'unitRef="usd"' + at("body"))
    fl = obs.open_files(fs, "i.xml")
    ls = [case["lang"]] if case["where"] != "none" and case["allow"] else []
    ls += [""] if case["default"] else []
    if not ls:
        return Result()
    opt = {"allow_report_language": case["allow"], "allow_default": case["default"], "allow_mixed": case["mixed"], "allow_system_language": False}
    problems = []
    want = texts.table("facts", [p20.fact_model(p20.POOL["core"], 0)], labels, ls, True, case["mixed"])
    if want is None:
        try:
            df = fl.generate_fact_table_pandas_df(**opt)
            if len(df):
                problems.append(("report language", f"{texts.rows(df)}"))
        except (KeyError, ValueError):
            pass
    else:
        p20.compare(fl.generate_fact_table_pandas_df(**opt), want, "report language", problems)
    return Result([Violation(a, f"{b}   [{case}]") for a, b in problems])


def scenarios(tier):
    q = tier != "thorough"
    return [
        Scenario("options", build, run, {"quick": 2, "thorough": 3}, "options at three levels x locale x labels x working directory"),
        Scenario("levels", build_levels, run, {"quick": 0, "thorough": 2}, "all combinations of the three levels for the languages and one switch"),
        Scenario("report languages", root_build, root_run, None, "where a report declares its languages"),
    ]
