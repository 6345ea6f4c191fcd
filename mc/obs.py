"""Canonical observations of an opened filing, through the public API only."""
import os

import env
import xb


def clark(q):
    return "{" + q.get_URL() + "}" + q.get_local_name()


def open_files(files, what=None, home=None, keep=False):
    """Write `files` into a fresh folder, open `what` (default: the folder) with a fresh
    document cache."""
    from brel import Filing

    d = env.fresh_dir()
    h = home or env.fresh_home()
    os.environ["HOME"] = h
    try:
        xb.write(d, files)
        return Filing.open(os.path.join(d, what) if what else d)
    finally:
        if not keep:
            env.drop(d)
            if home is None:
                env.drop(h)


def unit(u):
    if u is None:
        return None
    return [sorted(clark(q) for q in u.get_numerators()), sorted(clark(q) for q in u.get_denominators())]


def period(p):
    if p is None:
        return None
    if p.is_instant():
        return ["i", str(p.get_instant_period())]
    return ["d", str(p.get_start_period()), str(p.get_end_period())]


def entity(e):
    return None if e is None else [e.get_schema(), e.get_value()[len(e.get_schema()) + 2 :]]


CORE = ("concept", "period", "entity", "unit")


def dims(f):
    from brel.characteristics import ExplicitDimensionCharacteristic, TypedDimensionCharacteristic

    out = []
    for a in f.get_aspects():
        c = f.get_characteristic(a)
        if isinstance(c, ExplicitDimensionCharacteristic):
            out.append(["e", clark(c.get_dimension().get_name()), clark(c.get_member().get_name())])
        elif isinstance(c, TypedDimensionCharacteristic):
            out.append(["t", clark(c.get_dimension().get_name()), c.get_value()])
        elif not a.is_core():
            out.append(["?", a.get_name(), str(c)])
    return sorted(out)


def fact(f):
    return {
        "id": f.get_id(),
        "val": f.get_value_as_str(),
        "c": clark(f.get_concept().get_name()),
        "per": period(f.get_period()),
        "ent": entity(f.get_entity()),
        "unit": unit(f.get_unit()),
        "dims": dims(f),
    }


def num(x):
    if x is None:
        return None
    if isinstance(x, str):
        x = x.strip()
        if x.upper() == "INF":
            return "INF"
    v = float(x)
    return "INF" if v == float("inf") else v


def fact_full(f):
    d = fact(f)
    d["dec"] = num(f.get_decimals())
    d["prec"] = num(f.get_precision())
    return d


def errs(fl):
    return sorted(_err(e) for e in fl.get_all_errors())


def _err(e):
    c = getattr(e, "get_code", None)
    try:
        return str(c().name) if c else str(e)
    except Exception:
        return str(e)


def key(x):
    import json

    return json.dumps(x, sort_keys=True, default=str)


def diff_multiset(got, want):
    """-> (missing, extra) as lists"""
    from collections import Counter

    g, w = Counter(map(key, got)), Counter(map(key, want))
    import json

    return ([json.loads(k) for k in (w - g).elements()], [json.loads(k) for k in (g - w).elements()])


def plain_text(s):
    """The text of a content that may be reported as markup."""
    from lxml import etree

    for t in (s, f"<r>{s}</r>"):
        try:
            return "".join(x for x in etree.fromstring(t).itertext())
        except (etree.XMLSyntaxError, ValueError):
            pass
    return s


def walk(net):
    """All (parent node or None, node) of a network, each node once; terminates on cycles."""
    seen, out = set(), []
    stack = [(None, r) for r in reversed(net.get_roots())]
    while stack:
        p, n = stack.pop()
        out.append((p, n))
        if id(n) in seen:
            continue
        seen.add(id(n))
        stack += [(n, c) for c in reversed(n.get_children())]
    return out


def foot_end(n, text=True):
    if n.points_to() == "fact":
        return ["fact", n.get_fact().get_id()]
    r = n.get_resource()
    c = r.get_content()
    return ["note", plain_text(str(c)) if text else str(c), r.get_language(), r.get_role()]


def footnotes(fl):
    """All relationships of the footnote networks: [link role, arc role, from, to, order]"""
    from brel.networks import FootnoteNetwork

    out = []
    for net in fl.get_all_physical_networks():
        if not isinstance(net, FootnoteNetwork):
            continue
        done = set()
        for p, n in walk(net):
            if p is None or (id(p), id(n)) in done:
                continue
            done.add((id(p), id(n)))
            out.append([net.get_link_role(), n.get_arc_role(), foot_end(p), foot_end(n), float(n.get_order())])
    return out
