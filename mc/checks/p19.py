"""P19: a malformed item is reported and stays local."""
import faulty
import obs
import xb
from core import Prune, Result, Scenario, Violation, borrowed

TECHNIQUE = "exhaustive fault enumeration: every defect of a catalogue and every pair of defects that can influence each other (thorough: all pairs, and triples) is injected into a complete plain and a complete inline report; every state is opened with Filing.open and compared with the report without the defects: everything that does not depend on a defective item has to be equal, and every defect has to be recorded as an error with a place that shows it"
ASSUMPTIONS = [
    "which items depend on a defective item is part of the catalogue, written from the specification; items that depend on it may be missing or lack the defective part, but not have another value (except where the defect is the value)",
    "when two defects touch the same item, at least one of them has to be reported",
    "contexts and units that no fact uses are not examined in plain reports; the values of plain facts are reported as written",
]
_cat = {}
_base = {}


def cat(s):
    if s not in _cat:
        _cat[s] = faulty.catalogue(s)
    return _cat[s]


# ------------------------------------------------------------------ observation
def tree(n, path=()):
    kind = n.points_to()
    d = [kind, n.get_arc_role(), str(n.get_order()), str(getattr(n, "get_weight", lambda: None)()), str(getattr(n, "get_preferred_label_role", lambda: None)())]
    if kind == "report element":
        d.append(obs.clark(n.get_report_element().get_name()))
    elif kind == "resource":
        r = n.get_resource()
        d += [type(r).__name__, str(r.get_content()), r.get_role(), getattr(r, "get_language", lambda: None)()]
    else:
        d.append(n.get_fact().get_id())
    d.append("loop" if any(p is n for p in path) else [tree(c, path + (n,)) for c in n.get_children()])
    return d


def short(q):
    c = obs.clark(q)
    for p, u in (("t", faulty.k.T), ("u", faulty.k.U)):
        if c.startswith("{" + u + "}"):
            return p + ":" + c.split("}")[1]
    return c


def observe(fl):
    """-> (items by key, errors, fact order)"""
    out = {}

    def put(k, v):
        out.setdefault(k, []).append(v)

    order = []
    for f in fl.get_all_facts():
        d = obs.fact_full(f)
        put("fact:" + str(f.get_id()), d)
        order.append(str(f.get_id()))
    for e in fl.get_all_report_elements():
        d = [type(e).__name__] + [str(getattr(e, a)()) for a in ("get_data_type", "get_period_type", "get_balance_type", "is_nillable") if hasattr(e, a)]
        put("element:" + short(e.get_name()), d)
        put("label:" + short(e.get_name()), sorted([str(x), x.get_language(), x.get_role()] for x in e.get_labels()))
    for n in fl.get_all_physical_networks():
        put(f"net:{type(n).__name__}:{n.get_link_role()}", [tree(r) for r in n.get_roots()])
    for c in fl.get_all_components():
        put("comp:" + c.get_URI(), [c.get_info(), sorted(type(n).__name__ for n in c.get_networks())])
        for n in c.get_networks():
            put(f"compnet:{c.get_URI()}:{type(n).__name__}", [tree(r) for r in n.get_roots()])
    # every other way to ask has to work as well
    for f in ("generate_fact_table_pandas_df", "generate_core_fact_table_pandas_df", "generate_components_as_pandas_df", "generate_report_elements_as_pandas_df", "generate_labels_as_pandas_df"):
        getattr(fl, f)()
    fl.get_all_reported_concepts()
    return out, order


def errors(fl):
    from lxml import etree

    out = []
    for e in fl.get_all_errors():
        text = str(e)
        place = e.get_context()
        where, root = "", True
        if isinstance(place, etree._ElementTree):
            place = place.getroot()
        if place is not None:
            where = etree.tostring(place, encoding="unicode")
            root = place.getparent() is None and len(place) > 2
        out.append((text, where, root))
    return out


def base(s):
    if s not in _base:
        main, files = faulty.BASE[s]
        fl = obs.open_files(files, main)
        items, order = observe(fl)
        _base[s] = (items, order, [e[0] for e in errors(fl)])
    return _base[s]


# ------------------------------------------------------------------ scenario
def build(syntax, size, which="all"):
    """which: all combinations, only those that "meet" (touch the same item or the same file),
    or those of every "fifth" defect"""

    def go(ch):
        if size == 0:
            return {"syntax": syntax, "defects": []}
        every = list(range(0, len(cat(syntax)), 5 if which == "fifth" else 1))
        i = ch.pick("first", every, free=True)
        out = [i]
        for _ in range(size - 1):
            rest = [j for j in every if j > out[-1] and (which != "meet" or all(meet(syntax, i, j) for i in out))]
            if not rest:
                raise Prune()
            out.append(ch.pick("next", rest, free=True))
        files = faulty.BASE[syntax][1]
        for i in out:
            files = faulty.apply(files, cat(syntax)[i])
            if files is None:
                raise Prune()
        return {"syntax": syntax, "defects": [[i, cat(syntax)[i]["name"]] for i in out]}

    return go


def meet(syntax, i, j):
    a, b = cat(syntax)[i], cat(syntax)[j]
    return bool(related(a["touches"]) & related(b["touches"])) or (a["edits"][0][0] == b["edits"][0][0] and a["edits"][0][0] not in faulty.INSTANCE.values())


def related(touches):
    """the item keys that may differ"""
    out = set()
    for t in touches:
        out.add(t)
        if t.startswith("net:"):
            kind, role = t.split(":", 2)[1:]
            out.add(f"compnet:{role}:{kind}")
        if t.startswith("element:"):
            out.add("label:" + t.split(":", 1)[1])
    return out


def may_be(got, want):
    """a fact that depends on a defect: nothing but parts of what it was"""
    if len(got) > len(want):
        return f"it is reported {len(got)} times"
    for g, w in zip(got, want):
        for f, v in g.items():
            if v == w.get(f) or v is None or (f == "dims" and all(x in w[f] for x in v)):
                continue
            return f"{f} is {v!r} instead of {w.get(f)!r}"
    return None


def run(case):
    syntax = case["syntax"]
    main, files = faulty.BASE[syntax]
    defects = [cat(syntax)[i] for i, _ in case["defects"]]
    name = " + ".join(f"{syntax}/{d['name']}" for d in defects) or syntax
    want, order, errs = base(syntax)
    if not defects:
        return Result([Violation("errors without a defect", f"{syntax}: {errs[:3]}")] if errs else [])
    for d in defects:
        files = faulty.apply(files, d)
    try:
        fl = obs.open_files(files, main)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, TimeoutError)):
            raise
        return Result([Violation(f"opening fails: {name}", f"{name}: Filing.open raises {type(e).__name__}: {e}")])
    try:
        got, got_order = observe(fl)
    except Exception as e:
        import traceback

        return Result([Violation(f"cannot be queried: {name}", f"{name}: {type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3:]}")])
    try:
        recorded = errors(fl)
    except Exception as e:
        return Result([Violation(f"errors cannot be read: {name}", f"{name}: {type(e).__name__}: {e}")])
    v = []
    touched = related(t for d in defects for t in d["touches"])
    gone = {t[5:] for t in touched if t.startswith("fact:")}
    free = any(d["free"] for d in defects)
    for key in want:
        if key in touched:
            continue
        if key not in got:
            v.append(Violation(f"lost {key}: {name}", f"{name}: {key} is not reported any more"))
        elif got[key] != want[key]:
            v.append(Violation(f"changed {key}: {name}", f"{name}: {key} is {got[key]} instead of {want[key]}"))
    for key in got:
        if key not in want and key not in touched and not (key.startswith("fact:None") or key.startswith("net:") or key.startswith("compnet:")):
            v.append(Violation(f"invented {key}: {name}", f"{name}: {key} is reported, {str(got[key])[:300]}"))
        elif key not in want and key.startswith(("net:", "compnet:")) and not touched & {t for t in touched if t.startswith("net:")}:
            v.append(Violation(f"invented {key}: {name}", f"{name}: {key} is reported"))
    if [i for i in got_order if i not in gone and i in order] != [i for i in order if i not in gone]:
        v.append(Violation(f"order of the facts: {name}", f"{name}: {got_order} instead of {order}"))
    if not free:
        for key in touched:
            if key.startswith("fact:") and key in got and key in want:
                m = may_be(got[key], want[key])
                if m:
                    v.append(Violation(f"made up {key}: {name}", f"{name}: {key}: {m}"))
    named = [any(not root and any(m in where for m in d["marks"]) for _, where, root in recorded) for d in defects]
    sets = [related(d["touches"]) for d in defects]
    apart = all(a and b and not a & b for n, a in enumerate(sets) for b in sets[n + 1 :])
    if not recorded:
        v.append(Violation(f"no error: {name}", f"{name}: nothing is recorded"))
    elif not any(named) or (apart and not all(named)):
        missing = [d["name"] for d, n in zip(defects, named) if not n]
        v.append(Violation(f"no place: {name}", f"{name}: no error shows {missing}; errors: {[(t, w[:200], r) for t, w, r in recorded][:4]}"))
    return Result(v[:4], {"errors": len(recorded)})


def scenarios(tier):
    out = [
        *borrowed("p12", tier, defects=None, ix_defects=None),
        *borrowed("p15", tier, lost=None),
        *borrowed("p05", tier, graphs_footnote=1, self=None),
        *borrowed("p03", tier, attrs=None),
    ]
    for s in ("plain", "inline"):
        out += [
            Scenario(f"{s}-0", build(s, 0), run, None, f"the {s} report without a defect"),
            Scenario(f"{s}-1", build(s, 1), run, None, f"every defect of the {s} report"),
        ]
        if tier == "quick":
            out += [Scenario(f"{s}-meet", build(s, 2, "meet"), run, None, f"every pair of defects of the {s} report that touch the same item or the same file of the taxonomy")]
            out += [Scenario(f"{s}-fifth", build(s, 2, "fifth"), run, None, f"every pair of every fifth defect of the {s} report")]
        else:
            out += [Scenario(f"{s}-2", build(s, 2), run, None, f"every pair of defects of the {s} report")]
            out += [Scenario(f"{s}-3", build(s, 3, "fifth"), run, None, f"every triple of every fifth defect of the {s} report")]
            out += [Scenario(f"{s}-meet-3", build(s, 3, "meet"), run, None, f"every triple of defects of the {s} report that touch the same item or the same file")]
    return out
