"""Everything that the public interface reports about a filing, in the reported order."""
import contextlib
import io
import json

import obs


def text_of(f, *a):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        f(*a)
    return o.getvalue()


def node(n, path):
    d = {"to": n.points_to(), "arcrole": n.get_arc_role(), "order": str(n.get_order()), "linkrole": n.get_link_role(), "str": str(n)}
    if n.points_to() == "report element":
        d["el"] = obs.clark(n.get_report_element().get_name())
    elif n.points_to() == "resource":
        r = n.get_resource()
        d["res"] = [type(r).__name__, str(r.get_content()), r.get_role(), getattr(r, "get_language", lambda: None)()]
    else:
        d["fact"] = [n.get_fact().get_id(), n.get_fact().get_value_as_str()]
    for a in ("get_weight", "get_preferred_label_role"):
        if hasattr(n, a):
            d[a] = str(getattr(n, a)())
    d["children"] = ["..."] if any(p is n for p in path) else [node(c, path + [n]) for c in n.get_children()]
    return d


def network(n):
    return {
        "type": type(n).__name__,
        "role": n.get_link_role(),
        "name": str(n.get_link_name()),
        "arcroles": n.get_arc_roles(),
        "arcname": str(n.get_arc_name()),
        "physical": n.is_physical(),
        "roots": [node(r, []) for r in n.get_roots()],
        "all": [str(x) for x in n.get_all_nodes()],
        "dict": repr(n.convert_to_dict()),
    }


def element(e):
    d = {"type": type(e).__name__, "name": obs.clark(e.get_name()), "str": str(e), "id": e.get_id()}
    d["labels"] = [[str(x), x.get_language(), x.get_role()] for x in e.get_labels()]
    d["main"] = str(e.select_main_label())
    for a in ("get_data_type", "get_period_type", "get_balance_type", "is_nillable"):
        if hasattr(e, a):
            d[a] = str(getattr(e, a)())
    return d


def fact(f):
    d = obs.fact_full(f)
    d["str"] = str(f)
    d["aspects"] = [[a.get_name(), str(f.get_characteristic(a))] for a in f.get_aspects()]
    d["dict"] = repr(f.convert_to_dict())
    return d


def error(e):
    out = [str(e)]
    for a in ("get_code", "get_message", "get_area", "get_severity"):
        if hasattr(e, a):
            out.append(str(getattr(e, a)()))
    return out


def table(df):
    return [list(map(str, df.columns)), df.astype(str).values.tolist()]


def outcome(f, *a):
    try:
        r = f(*a)
        if isinstance(r, list):
            return [str(x) for x in r]
        return str(r)
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def full(fl, names=(), prints=True):
    from brel.utils import pprint

    nets = fl.get_all_physical_networks()
    comps = fl.get_all_components()
    d = {
        "facts": [fact(f) for f in fl.get_all_facts()],
        "elements": [element(e) for e in fl.get_all_report_elements()],
        "networks": [network(n) for n in nets],
        "components": [[c.get_URI(), c.get_info(), str(c.convert_to_dict()), [network(n) for n in c.get_networks()]] for c in comps],
        "errors": [error(e) for e in fl.get_all_errors()],
        "labels": [{k: str(v) for k, v in x.items()} for x in fl.get_all_labels()],
        "reported": [str(c) for c in fl.get_all_reported_concepts()],
        "lookups": {n: [outcome(fl.get_report_element_by_name, n), outcome(fl.get_concept, n), outcome(fl.get_facts_by_concept_name, n)] for n in names},
        "tables": {},
    }
    for n in ("fact_table", "core_fact_table", "components_as", "report_elements_as", "labels_as"):
        f = getattr(fl, f"generate_{n}_pandas_df")
        d["tables"][n] = outcome(lambda: json.dumps(table(f())))
    if prints:
        d["prints"] = [outcome(text_of, pprint, x) for x in nets + comps + [fl.get_all_facts()]]
    return d


def first_difference(a, b, path=""):
    if type(a) is not type(b):
        return path, a, b
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}", a[k], None
            r = first_difference(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            r = first_difference(x, y, f"{path}[{i}]")
            if r:
                return r
        if len(a) != len(b):
            return f"{path}[{min(len(a), len(b))}:]", a[len(b) :][:2], b[len(a) :][:2]
        return None
    return None if a == b else (path, a, b)
