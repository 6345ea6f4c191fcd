"""P25: values convert to the type of their concept exactly, or not at all."""
import datetime
import re

import common as k
import obs
import xb
from core import Result, Scenario, Violation

TECHNIQUE = "bounded exhaustive enumeration: every text up to a length over an alphabet of digits, signs, separators, letters and spaces, and a list of boundary values, as the value of a concept of every data type of XBRL 2.1 and the data type registry; every state is opened with Filing.open and all typed accessors are compared with the value that the text denotes in XML Schema"
ASSUMPTIONS = [
    "the classification of data types is by their local names, as in brel",
    "ranges of bounded integer types (byte, short, ...) are not judged",
    "texts in capital letters for booleans and exponents for decimals are judged only if they are accepted",
    "facts without a value (nil) may answer with an error, None or an empty text",
]
INTEGER = "noDecimalsMonetary nonNegativeNoDecimalsMonetary integer nonPositiveInteger negativeInteger long int short byte nonNegativeInteger unsignedLong unsignedInt unsignedShort unsignedByte positiveInteger".split()
NUMERIC = INTEGER + "decimal float double monetary shares pure percent perShare area volume mass weight energy power length memory nonNegativeMonetary insolation temperature pressure frequency irradiance speed planeAngle voltage electricCurrent force electricCharge flow massFlow monetaryPerLength monetaryPerArea monetaryPerVolume monetaryPerDuration monetaryPerEnergy monetaryPerMass ghgEmissions energyPerMonetary ghgEmissionsPerMonetary volumePerMonetary perUnit".split()
TEXT = "string hexBinary base64Binary anyURI QName duration dateTime time date gYearMonth gYear gMonthDay gDay gMonth normalizedString token language Name NCName textBlock escaped xmlNodes xml domain guidance noLangToken noLangString gYearList SQName".split()
TYPES = [t for t in NUMERIC + TEXT if t != "domain"] + ["boolean"]
kind = lambda t: "bool" if t == "boolean" else "int" if t in INTEGER else "num" if t in NUMERIC else "text"
# the data types whose texts are enumerated exhaustively
MAIN = {"int": "integer", "num": "monetary", "bool": "boolean", "text": "string"}

INT = re.compile(r"[+-]?[0-9]+")
NUM = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?")
SPECIAL = {"INF": float("inf"), "+INF": float("inf"), "-INF": float("-inf"), "NaN": float("nan")}
WS = " \t\n\r"


def denoted(t, text):
    """the value of the text in the type: ("value", v), "error" or "any" """
    s = text.strip(WS)
    kd = kind(t)
    if kd == "text":
        return ("value", text)
    if kd == "bool":
        if s in ("true", "1"):
            return ("value", True)
        if s in ("false", "0"):
            return ("value", False)
        return ("any", s.lower() == "true") if s.lower() in ("true", "false") else "error"
    if kd == "int":
        return ("value", int(s)) if INT.fullmatch(s) else "error"
    if NUM.fullmatch(s):
        return ("value", float(s))
    if s in SPECIAL:
        return ("any", SPECIAL[s])
    return "error"


def same(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b)


def attempt(f):
    try:
        return ("value", f())
    except ValueError:
        return "error"


def judge(what, got, want, problems):
    if want == "error":
        if got != "error":
            problems.append((what, f"{got[1]!r} for a text that is no value of the type"))
    elif want[0] == "any":
        if got != "error" and not same(got[1], want[1]):
            problems.append((what, f"{got[1]!r}, not {want[1]!r}"))
    elif got == "error" or not same(got[1], want[1]):
        problems.append((what, f"{got if got == 'error' else repr(got[1])}, not {want[1]!r}"))


def run(case):
    texts, types = case["texts"], case["types"]
    els = [{"n": f"C{i}", "kind": "concept", "type": f"xbrli:{t}ItemType"} for i, t in enumerate(types)]
    facts, ids = [], {}
    for i, t in enumerate(types):
        for j, s in enumerate(texts):
            ids[f"f{i}.{j}"] = (t, s)
            facts.append({"c": f"t:C{i}", "id": f"f{i}.{j}", "ctx": "c1", "unit": "usd" if t in NUMERIC else None, "dec": "0" if t in NUMERIC else None, "rawval": xb.escape(s).replace("\r", "&#13;"), **({"nil": True} if case.get("nil") else {})})
    fl = obs.open_files(
        {
            "i.xml": xb.instance({"schemaRefs": ["t.xsd"], "nsmap": k.NS, "contexts": [{"id": "c1", "period": k.D23}], "units": [k.USD], "facts": facts}),
            "t.xsd": xb.schema({"ns": k.T, "prefix": "t", "elements": els}),
        },
        "i.xml",
    )
    vs, seen = [], {f.get_id(): f for f in fl.get_all_facts()}
    if sorted(seen) != sorted(ids):
        return Result([Violation("listing", f"{len(seen)} facts for {len(ids)}; {[str(e) for e in fl.get_all_errors()][:2]}")])
    for i, (t, s) in ids.items():
        f, problems = seen[i], []
        c, kd = f.get_concept(), kind(t)
        flags = (c.is_numeric(), c.is_integer(), c.is_boolean())
        want = (kd in ("int", "num"), kd == "int", kd == "bool")
        if flags != want:
            problems.append(("kind", f"(numeric, integer, boolean) is {flags}, not {want}"))
        if case.get("nil"):
            got = attempt(f.get_value)
            if got != "error" and got[1] not in (None, ""):
                problems.append(("nil", f"{got[1]!r} for a fact without a value"))
        else:
            if f.get_value_as_str() != s or str(f) != s:
                problems.append(("text", f"{str(f)!r}"))
            judge("value", attempt(f.get_value), denoted(t, s), problems)
            # explicit conversions go by the text alone
            judge("int", attempt(lambda: int(f)), denoted("integer", s), problems)
            judge("float", attempt(lambda: float(f)), denoted("monetary", s), problems)
            judge("bool", attempt(lambda: bool(f)), denoted("boolean", s), problems)
            for n, fun, old in (("int", int, f.get_value_as_int), ("float", float, f.get_value_as_float), ("bool", bool, f.get_value_as_bool)):
                a, b = attempt(lambda: fun(f)), attempt(old)
                if (a == "error") != (b == "error") or a != "error" and not same(a[1], b[1]):
                    problems.append((n, f"{a} and {b}"))
        vs += [Violation(f"{a}:{kd}", f"{t} {s!r}: {b}") for a, b in problems]
    return Result(vs, {"facts": len(ids)})


BOUNDARY = [
    "0", "-0", "+0", "00", "7", "-7", "+7", "007", "9007199254740993", "-9007199254740993", "123456789012345678901234567890", "99999999999999999999999.5",
    "0.1", "-0.1", ".5", "5.", "1.0", "100.00", "1e5", "1E+3", "-2.5e-7", "1e400", "-1e400", "1e-400", "1.7976931348623157e308", "4.9e-324", "0.30000000000000004", "2.675",
    " 5 ", "\t5\n", "5 000", "5,000", "1_0", "1_000.5", "0x10", "0b1", "\u0665", "\uff15", "\u00a05", "5\u00a0", "--5", "+-5", "5-", "e5", "1e", "1e5.0", "", " ", ".", "+",
    "INF", "-INF", "+INF", "NaN", "inf", "infinity", "nan", "Infinity", "true", "false", "True", "FALSE", "1", "0 ", " true ", "yes", "no", "t", "truefalse", "\ttrue",
    "None", "null", "5%", "$5", "(5)", "2023-01-01", "a", "1 2", "1\n2", "01.10.", "1.2.3", "\u2212 5", "\u22125",
]


def build_boundary(ch):
    t = ch.pick("type", TYPES, free=True)
    return {"types": [t], "texts": BOUNDARY, "nil": False}


def build_nil(ch):
    return {"types": [ch.pick("type", TYPES, free=True)], "texts": [""], "nil": True}


def build_texts(alphabet, n):
    def build(ch):
        # the facts of one report are all the texts with one beginning
        m = ch.pick("n", list(range(n + 1)), free=True)
        head = "".join(ch.pick(f"c{i}", list(alphabet), free=True) for i in range(max(0, m - 2)))
        tails = [""]
        for _ in range(min(m, 2)):
            tails = [a + b for a in tails for b in alphabet]
        return {"types": list(MAIN.values()), "texts": [head + x for x in tails]}

    return build


def scenarios(tier):
    q = tier != "thorough"
    return [
        Scenario("boundary", build_boundary, run, desc="boundary values as values of every data type"),
        Scenario("nil", build_nil, run, desc="facts without a value of every data type"),
        Scenario("texts", build_texts("019+-.eE_ a", 4 if q else 6), run, desc="all texts up to a length as values of an integer, a number, a boolean and a text"),
        Scenario("booleans", build_texts("01tTrRuUeE ", 3 if q else 5), run, desc="all texts up to a length over the letters of boolean values"),
    ]
