"""P14: calculation checks accept exactly the consistent calculations."""
import itertools
from decimal import Decimal, InvalidOperation
from fractions import Fraction

import common as k
import nets
import obs
import xb
from core import Prune, Result, Scenario, Violation

TECHNIQUE = "explicit-state enumeration of calculation networks (all graphs over 3 concepts, trees, shared children, cycles) x balances x weights x values, and for each of all subsets of the reported facts in several orders; every state is opened with Filing.open and the verdicts of the balance and the aggregation check are compared with an independent evaluation in exact fractions"
ASSUMPTIONS = [
    "a total with a contributor that is missing, not a number, or reported with contradicting values in the same context is not decidable and must not fail the check",
    "weights of zero, which XBRL 2.1 forbids, are not covered",
    "a network with a concept that has no balance is not balance consistent (as the library documents)",
]
N = nets.NAMES


def schema(concepts, roles=(nets.R1,)):
    return xb.schema(
        {
            "ns": nets.T,
            "prefix": "t",
            "elements": concepts
            + [{"n": "Axis", "kind": "dimension"}, {"n": "AxisB", "kind": "dimension"}, {"n": "M", "kind": "member"}, {"n": "M2", "kind": "member"}, {"n": "AxisT", "kind": "dimension", "typedDomainRef": "#t_dom"}],
            "raw": '<xs:element name="dom" id="t_dom" type="xs:string"/>\n',
            "roles": [{"uri": r, "id": f"r{i}", "definition": "d", "usedOn": ["link:calculationLink"]} for i, r in enumerate(roles)],
            "refs": ["lb.xml"],
        }
    )


def the_link(n, arcs):
    """arcs: (from, to, weight)"""
    used = {x for a, b, _ in arcs for x in (a, b)}
    locs, out = [(N[i], N[i]) for i in range(n) if i not in used], []
    for j, (a, b, w) in enumerate(arcs):  # locators of its own for every arc
        locs += [(f"f{j}", N[a]), (f"t{j}", N[b])]
        out.append((f"f{j}", f"t{j}", xb.AR_SUM, {"order": str(j + 1), "weight": w}))
    return {"kind": "calculation", "role": nets.R1, "locs": locs, "arcs": out}


def reached(n, arcs):
    tg = {b for _, b, _ in arcs}
    todo, seen = [i for i in range(n) if i not in tg], set()
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += [b for a, b, _ in arcs if a == i]
    return seen


# ------------------------------------------------------------------ balances
PAIRS3 = [(a, b) for a in range(3) for b in range(3) if a != b]


def build_balance(ch):
    n = 3
    arcs = []
    for a, b in PAIRS3:
        w = ch.pick(f"{a}{b}", [None, "1", "-1"], free=True)
        if w:
            arcs.append((a, b, w))
    return {"n": n, "arcs": arcs}


def build_weights(ch):
    """other weights, loops, four concepts"""
    shape = ch.pick("shape", ["chain", "fork", "diamond", "double", "loop", "roots"], free=True)
    es = {"chain": [(0, 1), (1, 2), (2, 3)], "fork": [(0, 1), (0, 2), (0, 3)], "diamond": [(0, 1), (0, 2), (1, 3), (2, 3)], "double": [(0, 1), (0, 1), (1, 2)], "loop": [(0, 1), (1, 1), (1, 2), (2, 1)], "roots": [(0, 2), (1, 2), (2, 3)]}[shape]
    ws = ["1", "-1", "0.5", "-0.001", "+2", "1000000", "-1.0"]
    return {"n": 4, "arcs": [(a, b, ch.pick(f"w{i}", ws)) for i, (a, b) in enumerate(es)]}


BAL = ["debit", "credit", None]


def run_balance(case):
    """one graph with all assignments of balances: one role per assignment"""
    n, arcs = case["n"], [tuple(a) for a in case["arcs"]]
    asg = list(itertools.product(BAL if n == 3 else BAL[:2], repeat=n))
    if n == 4:
        asg += [tuple(None if i == j else "debit" for i in range(4)) for j in range(4)]
    roles = [f"http://ex.org/role/b{i}" for i in range(len(asg))]
    name = lambda i, b: f"{N[i]}{b or 'none'}"
    els = [{"n": name(i, b), "kind": "concept", **({"balance": b} if b else {})} for i in range(n) for b in BAL]
    links = []
    for r, bs in zip(roles, asg):
        l = the_link(n, arcs)
        l["role"] = r
        l["locs"] = [(lab, name(N.index(c), bs[N.index(c)])) for lab, c in l["locs"]]
        links.append(l)
    fl = obs.open_files({"i.xml": nets.INSTANCE, "t.xsd": schema(els, roles), "lb.xml": nets.linkbase(links)}, "i.xml")
    reach = reached(n, arcs)
    out = []
    for r, bs in zip(roles, asg):
        net = fl.get_component(r).get_calculation_network()
        if not reach:
            if net is not None:
                out.append(Violation("balance:network", f"a network without roots {case}"))
            continue
        want = all(bs[i] is not None for i in reach) and all((bs[a] == bs[b]) == (Fraction(w) > 0) for a, b, w in arcs if a in reach)
        got = net.is_balance_consistent()
        if got is not want:
            out.append(Violation("balance:verdict", f"is_balance_consistent is {got}, want {want}: balances {bs}, arcs {arcs}"))
    return Result(out, {"verdicts": len(asg)})


# ------------------------------------------------------------------ aggregation
SHAPES = {
    "one": (2, [(0, 1)]),
    "fork": (3, [(0, 1), (0, 2)]),
    "chain": (3, [(0, 1), (1, 2)]),
    "fork3": (4, [(0, 1), (0, 2), (0, 3)]),
    "two levels": (4, [(0, 1), (0, 2), (1, 3)]),
    "diamond": (4, [(0, 1), (0, 2), (1, 3), (2, 3)]),
    "two totals": (3, [(0, 2), (1, 2)]),
    "two arcs": (3, [(0, 1), (0, 1), (0, 2)]),
    "cycle": (3, [(0, 1), (1, 2), (2, 1)]),
    "loop": (2, [(0, 1), (1, 1)]),
    "isolated": (2, []),
}
LEAF = ["7", "0.1", "0.2", "-3", "0", "1234567890123456789012345678901.01", "0.0000000001", "1e2", "-0", "007.50"]
BAD = ["nil", "abc", "", "INF", "NaN"]
WEIGHTS = ["1", "-1", "0.1", "-2.5", "3"]


def values(n, arcs, leaf, dev):
    """value of every concept: leaves are given, totals are the exact sums, changed by `dev`"""
    val = dict(leaf)
    for i in sorted(set(range(n)), reverse=True):
        kids = [(b, w) for a, b, w in arcs if a == i]
        if not kids or i in val:
            continue
        s = Decimal(0)
        try:
            import decimal

            with decimal.localcontext() as c:
                c.prec = 100
                for b, w in kids:
                    s += Decimal(val[b]) * Decimal(w)
            if dev.get(i):
                with decimal.localcontext() as c:
                    c.prec = 100
                    s += Decimal(dev[i])
            val[i] = format(s, "f")
        except (InvalidOperation, KeyError):
            val[i] = "5"
    return val


def number(s):
    try:
        d = Decimal(s.strip())
    except InvalidOperation:
        return None
    return Fraction(d) if d.is_finite() else None


def verdict(arcs, reach, facts):
    """facts: (concept index, context key, value). True / False / None (undecidable duplicates are skipped)"""
    for i in reach:
        kids = [(b, w) for a, b, w in arcs if a == i]
        if not kids:
            continue
        for c, ctx, v in facts:
            if c != i or number(v) is None:
                continue
            s, ok = Fraction(0), True
            for b, w in kids:
                vs = {number(v2) for c2, ctx2, v2 in facts if c2 == b and ctx2 == ctx}
                if len(vs) != 1 or None in vs:
                    ok = False
                    break
                s += vs.pop() * Fraction(w)
            if ok and s != number(v):
                return False
    return True


CTX = {
    "c1": {"id": "c1", "period": k.D23},
    "year": {"id": "year", "period": ("d", "2022-01-01", "2022-12-31")},
    "instant": {"id": "instant", "period": k.I23},
    "entity": {"id": "entity", "period": k.D23, "ident": "E2"},
    "scheme": {"id": "scheme", "period": k.D23, "scheme": "http://ex.org/other"},
    "dim": {"id": "dim", "period": k.D23, "dims": [("e", "t:Axis", "t:M")]},
    "member": {"id": "member", "period": k.D23, "dims": [("e", "t:Axis", "t:M2")]},
    "dims": {"id": "dims", "period": k.D23, "dims": [("e", "t:Axis", "t:M"), ("e", "t:AxisB", "t:M")]},
    "typed": {"id": "typed", "period": k.D23, "dims": [("t", "t:AxisT", "t:dom", "x")]},
    "typed2": {"id": "typed2", "period": k.D23, "dims": [("t", "t:AxisT", "t:dom", "y")]},
    "same": {"id": "same", "period": k.D23},
    "eur": {"id": "eur", "period": k.D23},
}


def build_agg(shapes, contexts, most):
    def build(ch):
        shape = ch.pick("shape", shapes, free=True)
        n, es = SHAPES[shape]
        arcs = [(a, b, ch.pick(f"w{i}", WEIGHTS)) for i, (a, b) in enumerate(es)]
        parents = sorted({a for a, _ in es})
        leaves = [i for i in range(n) if i not in parents]
        leaf = {i: ch.pick(f"v{i}", LEAF + BAD) for i in leaves}
        if shape in ("cycle", "loop"):
            leaf = {i: ch.pick(f"v{i}", ["7", "0", "-3"]) for i in range(1, n)}
        dev = {}
        for i in parents:
            dev[i] = ch.pick(f"d{i}", ["0", "1", "-0.0000000001", "1e-29"])
        vals = values(n, arcs, leaf, dev)
        bad = ch.pick("bad total", [None] + BAD[:2])
        if bad and parents:
            vals[parents[0]] = bad
        facts = [(i, "c1", vals[i]) for i in range(n)]
        other = ch.pick("other context", [None] + contexts)
        if other:
            what = ch.pick("in it", ["same numbers", "off", "children", "total", "swapped"], free=True)
            for i in range(n):
                if what == "children" and i in parents or what == "total" and i not in parents:
                    continue
                v = vals[i]
                if what == "off" and i in leaves:
                    v = "11"
                if what in ("children", "total"):
                    v = "4"
                if what == "swapped":
                    v = vals[n - 1 - i]
                facts.append((i, other, v))
        dup = ch.pick("duplicate", [None] + [(i, same) for i in range(n) for same in (True, False)])
        if dup:
            facts.append((dup[0], "c1", vals[dup[0]] if dup[1] else "13"))
        if len(facts) > most:
            raise Prune()
        return {"n": n, "arcs": arcs, "facts": facts}

    return build


def run_agg(case):
    n, arcs = case["n"], [tuple(a) for a in case["arcs"]]
    ctxs = [CTX[c] for c in dict.fromkeys(f[1] for f in case["facts"])]
    fs = []
    for j, (c, ctx, v) in enumerate(case["facts"]):
        f = {"id": f"f{j}", "c": f"t:{N[c]}", "ctx": ctx, "unit": "eur" if ctx == "eur" else "usd", "val": v}
        if v == "nil":
            f.update(val="", nil=True)
        fs.append(f)
    els = [{"n": N[i], "kind": "concept", "balance": "debit"} for i in range(n)]
    inst = xb.instance({"schemaRefs": ["t.xsd"], "nsmap": {"t": nets.T}, "contexts": ctxs, "units": [k.USD, {"id": "eur", "nums": ["iso4217:EUR"]}], "facts": fs})
    fl = obs.open_files({"i.xml": inst, "t.xsd": schema(els), "lb.xml": nets.linkbase([the_link(n, arcs)])}, "i.xml")
    net = fl.get_component(nets.R1).get_calculation_network()
    by = {f.get_id(): f for f in fl.get_all_facts()}
    if sorted(by) != sorted(f["id"] for f in fs):
        return Result([Violation("agg:facts", f"facts {sorted(by)} of {case}")])
    # the abstract facts: contexts with the same content are the same context
    key = {"same": "c1"}
    abstract = [(c, key.get(ctx, ctx), v) for c, ctx, v in case["facts"]]
    reach = reached(n, arcs)
    out, count = [], 0
    m = len(fs)
    for bits in range(1 << m):
        sub = [j for j in range(m) if bits >> j & 1]
        want = verdict(arcs, reach, [abstract[j] for j in sub])
        orders = [sub, sub[::-1]] if bits == (1 << m) - 1 or len(sub) <= 3 else [sub]
        if bits == (1 << m) - 1 and m > 2:
            orders.append(sub[1:] + sub[:1])
        for o in orders:
            count += 1
            got = net.is_aggregation_consistent([by[f"f{j}"] for j in o])
            if got is not want:
                out.append(Violation("agg:verdict", f"is_aggregation_consistent is {got}, want {want}: arcs {arcs}, facts {[case['facts'][j] for j in o]}"))
    return Result(out[:5], {"verdicts": count})


def scenarios(tier):
    q = tier != "thorough"
    main = ["fork", "chain", "one", "fork3", "two levels", "diamond", "two totals", "two arcs", "cycle", "loop", "isolated"]
    others = [c for c in CTX if c != "c1"]
    return [
        Scenario("balance", build_balance, run_balance, None, "all graphs over 3 concepts with weights 1/-1, each with all 27 assignments of balances"),
        Scenario("weights", build_weights, run_balance, {"quick": 2, "thorough": None}, "other weights and shapes over 4 concepts, each with all assignments of debit and credit"),
        Scenario("agg", build_agg(main, others, 7 if q else 9), run_agg, {"quick": 2, "thorough": 3}, "networks x weights x leaf values x deviations of totals x second contexts x duplicates; for each all subsets of the facts"),
    ]
