"""P04: inline dates and fixed values."""
import calendar
import itertools
from xml.sax.saxutils import escape

import common as k
import obs
import xb
from core import Result, Scenario, Violation

TECHNIQUE = "exhaustive enumeration of dates under every supported date format (all days x months x years x month names x letter cases x separators), of all short texts over an alphabet, and of eras and calendars; each replayed through Filing.open and compared with an independent calendar"
ASSUMPTIONS = [
    "the formats of the transformation registry 2020-02-12 and the legacy names of registries 1 to 3",
    "month names: the abbreviations of the registry and the full names of each language; a full name the registry does not admit may be an error, but never another date",
    "two-digit years mean 20YY, one-digit years 200Y, as the registry says",
]

MONTHS = {  # full names; where several forms are in use they are separated by |
    "bg": "януари февруари март април май юни юли август септември октомври ноември декември",
    "cs": "ledna února|unora března|brezna dubna května|kvetna června|cervna července|cervence srpna září|zari října|rijna listopadu prosince",
    "cy": "Ionawr Chwefror Mawrth Ebrill Mai Mehefin Gorffennaf Awst Medi Hydref Tachwedd Rhagfyr",
    "da": "januar februar marts april maj juni juli august september oktober november december",
    "de": "Januar|Jänner|Jaenner Februar März|Maerz|Marz April Mai Juni Juli August September Oktober November Dezember",
    "el": "Ιανουαρίου Φεβρουαρίου Μαρτίου|Μάρτιος Απριλίου|Απρίλιος Μαΐου|Μάιος|Μαϊος Ιουνίου|Ιούνιος Ιουλίου|Ιούλιος Αυγούστου|Αύγουστος Σεπτεμβρίου Οκτωβρίου Νοεμβρίου|Νοέμβριος Δεκεμβρίου",
    "en": "January February March April May June July August September October November December",
    "es": "enero febrero marzo abril mayo junio julio agosto septiembre octubre noviembre diciembre",
    "et": "jaanuar veebruar märts|marts aprill mai juuni juuli august september oktoober november detsember",
    "fi": "tammikuu helmikuu maaliskuu huhtikuu toukokuu kesäkuu heinäkuu elokuu syyskuu lokakuu marraskuu joulukuu",
    "fr": "janvier février|fevrier mars avril mai juin juillet août|aout septembre octobre novembre décembre|decembre",
    "hi": "जनवरी फरवरी मार्च अप्रैल मई जून जुलाई अगस्त सितंबर अक्टूबर नवंबर दिसंबर",
    "hr": "siječnja veljače ožujka|ozujka travnja svibnja lipnja srpnja kolovoza rujna listopada studenog prosinca",
    "hu": "január február március|marcius április|aprilis május|majus június|junius július|julius augusztus szeptember október november december",
    "it": "gennaio febbraio marzo aprile maggio giugno luglio agosto settembre ottobre novembre dicembre",
    "lt": "sausio vasario kovo balandžio gegužės birželio liepos rugpjūčio rugsėjo spalio lapkričio gruodžio",
    "lv": "janvāris februāris marts aprīlis maijs jūnijs|junijs jūlijs|julijs augusts septembris oktobris novembris decembris",
    "nl": "januari februari maart april mei juni juli augustus september oktober november december",
    "no": "januar februar mars april mai juni juli august september oktober november desember",
    "pl": "stycznia lutego marca kwietnia maja czerwca lipca sierpnia września października|pazdziernika listopada grudnia",
    "pt": "janeiro fevereiro março abril maio junho julho agosto setembro outubro novembro dezembro",
    "ro": "ianuarie februarie martie aprilie mai iunie iulie august septembrie octombrie noiembrie decembrie",
    "sk": "januára februára marca apríla mája|maja júna|juna júla|jula augusta septembra októbra novembra decembra",
    "sl": "januar februar marec april maj junij julij avgust september oktober november december",
    "sv": "januari februari mars april maj juni juli augusti september oktober november december",
}
# names the registry lists: these must be read
ABBR = {
    "bg": "ян фев мар апр май|маи юни юли авг сеп окт ное дек",
    "cs": "led úno|uno bře|bre dub kvě|kve čvn|cvn čvc|cvc srp zář|zar říj|rij lis pro",
    "cy": "ion chwe maw ebr mai meh gor aws med hyd tach rhag",
    "da": "jan feb mar apr maj jun jul aug sep okt nov dec",
    "de": "jan|jän|jaen feb mär|maer|mar apr mai jun jul aug sep okt nov dez",
    "el": "ιαν φεβ μάρ|μαρ απρ μαΐ|μαι|μάι|μαϊ ιούν|ιουν ιούλ|ιουλ αύγ|αυγ σεπ οκτ νοέ|νοε δεκ",
    "en": "jan feb mar apr may jun jul aug sep oct nov dec",
    "es": "ene feb mar abr may jun jul ago sep oct nov dic",
    "et": "jaan veebr märts|marts apr mai juuni juuli aug sept okt nov dets",
    "fi": "tam hel maa huh tou kes hei elo syy lok mar jou",
    "fr": "janv févr|fevr mars avr mai juin juil août|aout sept oct nov déc|dec",
    "hr": "sij velj ožu|ozu tra svi lip srp kol ruj lis stu pro",
    "hu": "jan feb márc|marc ápr|apr máj|maj jún|jun júl|jul aug szept okt nov dec",
    "it": "gen feb mar apr mag giu lug ago set ott nov dic",
    "lt": "sau vas kov bal geg bir lie rugp|rgp rugs|rgs spa|spl lap gru|grd",
    "lv": "janv febr marts apr maijs jūn|jun jūl|jul aug sept okt nov dec",
    "nl": "jan feb maa|mrt apr mei jun jul aug sep okt nov dec",
    "no": "jan feb mar apr mai jun jul aug sep okt nov des",
    "pl": "sty lut mar kwi maj cze lip sie wrz paź|paz lis gru",
    "pt": "jan fev mar abr mai jun jul ago set out nov dez",
    "ro": "ian feb mar apr mai iun iul aug sep oct noi|nov dec",
    "sk": "jan feb mar apr máj|maj jún|jun júl|jul aug sep okt nov dec",
    "sl": "jan feb mar apr maj jun jul avg sep okt nov dec",
    "sv": "jan feb mar apr maj jun jul aug sep okt nov dec",
    "hi": MONTHS["hi"],
}
ROMAN = "I II III IV V VI VII VIII IX X XI XII".split()


def fmts(langs, pattern):
    return [(pattern.format(l), l) for l in langs.split()]


DM = "bg cs cy da de el en es et fi fr hr it lv nl no pl pt ro sk sl sv"
DMY = "bg cs cy da de el en es et fi fr hi hr it nl no pl pt ro sk sl sv"
NAMED = (  # (format, language, order)
    [(f, l, "dm") for f, l in fmts(DM, "date-day-monthname-{}")]
    + [(f, l, "dmy") for f, l in fmts(DMY, "date-day-monthname-year-{}")]
    + [(f, l, "my") for f, l in fmts(DMY, "date-monthname-year-{}")]
    + [(f, l, "md") for f, l in fmts("en hu lt", "date-monthname-day-{}")]
    + [("date-monthname-day-year-en", "en", "mdy"), ("date-year-day-monthname-lv", "lv", "ydm")]
    + [(f, l, "ymd") for f, l in fmts("hu lt", "date-year-monthname-day-{}")]
    + [(f, l, "ym") for f, l in fmts("en hu lt lv", "date-year-monthname-{}")]
    + [
        ("datedaymonthen", "en", "dm"), ("datedaymonthyearen", "en", "dmy"), ("datemonthdayen", "en", "md"),
        ("datemonthdayyearen", "en", "mdy"), ("datemonthyearen", "en", "my"), ("dateyearmonthen", "en", "ym"),
        ("datedaymonthdk", "da", "dm"), ("datedaymonthyeardk", "da", "dmy"), ("datemonthyeardk", "da", "my"),
        ("datemonthyearin", "hi", "my"),
        ("datelonguk", "en", "dmy"), ("datelongus", "en", "mdy"), ("dateshortuk", "en", "dmy"), ("dateshortus", "en", "mdy"),
        ("datelongdaymonthuk", "en", "dm"), ("datelongmonthdayus", "en", "md"), ("dateshortdaymonthuk", "en", "dm"),
        ("dateshortmonthdayus", "en", "md"), ("datelongyearmonth", "en", "ym"), ("dateshortyearmonth", "en", "ym"),
        ("datelongmonthyear", "en", "my"), ("dateshortmonthyear", "en", "my"),
    ]
)
NUMERIC = [  # (format, order, digit alphabets, trailing text admitted)
    ("date-day-month", "dm", ""),
    ("date-month-day", "md", ""),
    ("date-day-month-year", "dmy", "h"),
    ("date-month-day-year", "mdy", ""),
    ("date-year-month-day", "ymd", "jt"),
    ("date-year-month", "ym", "jt"),
    ("date-month-year", "my", "h"),
    ("date-day-monthroman", "dm", "r"),
    ("date-day-monthroman-year", "dmy", "r"),
    ("date-monthroman-year", "my", "r"),
    ("datedaymonth", "dm", ""),
    ("datedaymonthyear", "dmy", ""),
    ("datemonthday", "md", ""),
    ("datemonthdayyear", "mdy", ""),
    ("datemonthyear", "my", ""),
    ("dateyearmonthday", "ymd", ""),
    ("dateyearmonthdaycjk", "ymd", "jt"),
    ("dateyearmonthcjk", "ym", "jt"),
    ("datedoteu", "dmy", ""),
    ("datedotus", "mdy", ""),
    ("dateslasheu", "dmy", ""),
    ("dateslashus", "mdy", ""),
    ("dateslashdaymontheu", "dm", ""),
    ("dateslashmonthdayus", "md", ""),
    ("datedaymonthyearin", "dmy", "h"),
]
WIDE = {ord(str(i)): chr(0xFF10 + i) for i in range(10)}
DEVA = {ord(str(i)): chr(0x0966 + i) for i in range(10)}
YEARS = ["2023", "2024", "1900", "2000", "0001", "24", "00", "99", "5"]


def year(y):
    return {1: "200" + y, 2: "20" + y}.get(len(y), y) if len(y) != 3 else None


def iso(order, d, m, y):
    """The ISO form of the date or None if there is none. m: 1..12 or None"""
    if m is None or not 1 <= m <= 12:
        return None
    if "y" in order:
        y = year(y)
        if y is None or int(y) == 0:
            return None
        n = calendar.monthrange(int(y), m)[1]
    else:
        n = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    if "d" in order and not 1 <= int(d) <= n:
        return None
    if order in ("my", "ym"):
        return f"{y}-{m:02d}"
    if "y" in order:
        return f"{y}-{m:02d}-{int(d):02d}"
    return f"--{m:02d}-{int(d):02d}"


_T = None


def page(facts):
    body = []
    for i, f in enumerate(facts):
        a = {"name": "t:Text", "id": f"f{i}", "contextRef": "c1", "format": f.get("format")}
        body.append(f"<p><ix:nonNumeric{xb.attrs(a)}>{escape(f['text'])}</ix:nonNumeric></p>\n")
    return xb.xhtml("".join(body), resources=xb.context_xml(k.CTX), refs=xb.schema_ref("t.xsd"), nsmap={"t": k.T, "tr3": "http://www.xbrl.org/inlineXBRL/transformation/2015-02-26"})


def judge(name, facts, vs=None):
    """want: str | None (an error) ; 'may': also an error is fine"""
    global _T
    _T = _T or xb.schema(k.base_schema())
    fl = obs.open_files({"t.xsd": _T, "p.xhtml": page(facts)}, "p.xhtml")
    vs = []
    got = {x.get_id(): x.get_value_as_str() for x in fl.get_all_facts()}
    errs = {}
    for e in fl.get_all_errors():
        c = e.get_context()
        errs.setdefault(c.get("id") if c is not None else None, []).append(str(e))
    for i, f in enumerate(facts):
        fid = f"f{i}"
        what = f"text {f['text']!r} format {f.get('format')}"
        if fid not in got:
            vs.append(Violation(f"{name}:missing:{f.get('format')}", f"no fact for {what}"))
            continue
        v, e = got[fid], errs.get(fid)
        if e:
            if f["want"] is not None and not f.get("may"):
                vs.append(Violation(f"{name}:error:{f.get('format')}", f"{what}: reported as error {e[0][:200]}, want {f['want']!r}"))
            elif v != f["text"] and v.strip() != f["text"].strip() and v != "":
                vs.append(Violation(f"{name}:other-value:{f.get('format')}", f"{what}: is an error but has the value {v!r}"))
        elif v != f["want"]:
            vs.append(Violation(f"{name}:value:{f.get('format')}", f"{what}: got {v!r}, want {f['want']!r}" if f["want"] is not None else f"{what}: got {v!r}, want an error"))
    for i in errs:
        if i not in got:
            vs.append(Violation(f"{name}:stray-error", f"error without a place or at {i}: {errs[i][0][:200]}"))
    return Result(vs, {"facts": len(facts)})


# ---------------------------------------------------------------- numeric dates
SEPS = ["/", ".", "-", " ", ". ", "\u5e74", " x ", "\xa0"]


def build_numeric(ch):
    fmt, order, opts = ch.pick("format", NUMERIC, free=True)
    sep = ch.pick("sep", SEPS)
    y = ch.pick("year", YEARS if "y" in order else [None], free=True)
    digits = ch.pick("digits", ["ascii"] + (["wide"] if "j" in opts else []) + (["deva"] if "h" in opts else []), free=True)
    pad = ch.flag("pad")
    trail = ch.pick("trail", ["", "\u65e5", "."] if "t" in opts else [""])
    space = ch.flag("space")
    return {"fmt": fmt, "order": order, "opts": opts, "sep": sep, "y": y, "digits": digits, "pad": pad, "trail": trail, "space": space}


def run_numeric(case):
    facts = []
    order = case["order"]
    rng_m = range(0, 14) if "r" not in case["opts"] else range(1, 13)
    for m in rng_m:
        for d in range(0, 33) if "d" in order else [1]:
            for ms in [f"{m:02d}" if case["pad"] else str(m)] if "r" not in case["opts"] else [ROMAN[m - 1], ROMAN[m - 1].lower()]:
                ds = f"{d:02d}" if case["pad"] else str(d)
                t = case["sep"].join({"d": ds, "m": ms, "y": case["y"]}[c] for c in order)
                if case["digits"] == "wide":
                    t = t.translate(WIDE)
                if case["digits"] == "deva":
                    t = t.translate(DEVA)
                t += case["trail"]
                if case["space"]:
                    t = " " + t + "\n"
                facts.append({"text": t, "format": "ixt:" + case["fmt"], "want": iso(order, d, m, case["y"])})
    if case["sep"] == " x " and "r" in case["opts"]:
        return Result([])  # the separator reads like a numeral
    return judge("numeric", facts)


# ---------------------------------------------------------------- named months
def forms(s):
    return [w.split("|") for w in s.split(" ")]


def build_named(ch):
    fmt, lang, order = ch.pick("format", NAMED, free=True)
    m = ch.pick("month", 12, free=True)
    full = ch.pick("full", ["abbr", "full", "abbr."])
    sep = ch.pick("sep", [" ", "-", ". ", " x, "] if order != "ymd" else [" ", ". ", "-"])
    y = ch.pick("year", ["2023", "2024", "1900", "24", "07", "5"] if "y" in order else [None])
    return {"fmt": fmt, "lang": lang, "order": order, "m": m, "full": full, "sep": sep, "y": y}


def run_named(case):
    facts = []
    lang, order, m = case["lang"], case["order"], case["m"]
    names = forms((MONTHS if case["full"] == "full" else ABBR)[lang])[m]
    for nm in names:
        for cs in dict.fromkeys([nm.lower(), nm[0].upper() + nm[1:].lower(), nm.upper()] if lang != "hi" else [nm]):
            for d in ["1", "01", "9", "28", "29", "30", "31", "0", "00", "32", "99"] if "d" in order else ["1"]:
                mn = cs + ("." if case["full"] == "abbr." else "")
                t = case["sep"].join({"d": d, "m": mn, "y": case["y"]}[c] for c in order)
                w = iso(order, d, m + 1, case["y"])
                facts.append({"text": t, "format": "ixt:" + case["fmt"], "want": w, "may": must_not_fail(case, nm, cs)})
                if lang == "hi" and w and "y" in order and len(case["y"]) != 1:
                    facts.append({"text": t.translate(DEVA), "format": "ixt:" + case["fmt"], "want": w, "may": case["full"] == "abbr."})
    return judge("named", facts)


def must_not_fail(case, nm, cs):
    """May the text be rejected? Only for the forms that the registry itself does not admit."""
    lang, full = case["lang"], case["full"]
    if full == "abbr":
        if case["sep"] == "-" or case["sep"] == " x, ":
            return True
        if lang == "hi" and case["y"] and len(case["y"]) == 1:
            return True
        # the registry has english names in title and upper case only
        if lang == "en" and cs == cs.lower():
            return True
        # upper case words of greek lose their accents
        if lang == "el" and cs == cs.upper():
            return True
        return False
    if full == "full" and lang in ("en", "hi"):
        return cs == cs.lower() != cs.upper() or case["sep"] in ("-", " x, ") or len(case["y"] or "") == 1 and lang == "hi"
    return True


def build_hi(ch):
    return {"digits": ch.flag("deva", free=True), "pad": ch.flag("pad", free=True), "year": ch.pick("y", ["1900", "1944", "1945", "1946", "1921", "1922", "44", "22", "21", "99", "00"], free=True), "form": ch.pick("form", 2, free=True), "fmt": ch.pick("fmt", ["date-ind-day-monthname-year-hi", "calindaymonthyear"], free=True)}


SAKA = [
    ("Chaitra", "चैत्र"), ("Vaisakha", "वैशाख"), ("Jyaistha", "ज्येष्ठ"), ("Asadha", "आषाढ"), ("Sravana", "श्रावण"), ("Bhadra", "भाद्रपद"),
    ("Asvina", "आश्विन"), ("Kartika", "कार्तिक"), ("Margasirsa", "मार्गशीर्ष"), ("Pausa", "पौष"), ("Magha", "माघ"), ("Phalguna", "फाल्गुन"),
]


def saka(y, m, d):
    """Independent conversion by counting days from 1 Caitra."""
    import datetime

    leap = calendar.isleap(y + 78)
    lens = [31 if leap else 30] + [31] * 5 + [30] * 6
    if not 1 <= d <= lens[m - 1]:
        return None
    start = datetime.date(y + 78, 3, 21 if leap else 22)
    return start + datetime.timedelta(days=sum(lens[: m - 1]) + d - 1)


def run_hi(case):
    facts = []
    for m in range(1, 13):
        nm = SAKA[m - 1][case["form"]]
        if case["form"] == 0 and m == 9:
            nm = "M\u0101rga\u015b\u012br\u1e63a"
        if case["form"] == 0 and m == 11:
            nm = "M\u0101gha"
        for d in range(0, 34):
            ds = f"{d:02d}" if case["pad"] else str(d)
            t = f"{ds} {nm} {case['year']}"
            if case["digits"]:
                t = t.translate(DEVA)
            ys = case["year"]
            want = None
            if len(ys) == 4:
                want = saka(int(ys), m, d) if d else None
            elif d:
                # two digits: the date in 2000..2099
                c = [saka(b + int(ys), m, d) for b in (1900, 2000)]
                c = [x for x in c if x is not None and 2000 <= x.year <= 2099]
                want = c[0] if c else None
            facts.append({"text": t, "format": "ixt:" + case["fmt"], "want": want.isoformat() if want else None})
    return judge("saka", facts)


# ---------------------------------------------------------------- eras
import datetime as _dt

ERAS = {
    "明治": (_dt.date(1868, 10, 23), _dt.date(1912, 7, 29)),
    "大正": (_dt.date(1912, 7, 30), _dt.date(1926, 12, 24)),
    "昭和": (_dt.date(1926, 12, 25), _dt.date(1989, 1, 7)),
    "平成": (_dt.date(1989, 1, 8), _dt.date(2019, 4, 30)),
    "令和": (_dt.date(2019, 5, 1), _dt.date(9999, 12, 31)),
}


def build_era(ch):
    era = ch.pick("era", list(ERAS), free=True)
    short = ch.flag("short", free=True)
    day = ch.flag("day", free=True)
    style = ch.pick("style", ["plain", "spaces", "wide"], free=True)
    chunk = ch.pick("years", 8, free=True)
    legacy = ch.flag("legacy", free=True)
    return {"era": era, "short": short, "day": day, "style": style, "chunk": chunk, "legacy": legacy}


def run_era(case):
    s, e = ERAS[case["era"]]
    name = case["era"][0] if case["short"] else case["era"]
    facts = []
    fmt = "date-jpn-era-year-month" + ("-day" if case["day"] else "")
    if case["legacy"]:
        fmt = "dateerayearmonthdayjp" if case["day"] else "dateerayearmonthjp"
    for y in ["元"] + [str(i) for i in range(1, 100)] if case["chunk"] == 0 else range(case["chunk"] * 9 - 8, case["chunk"] * 9 + 1):
        y = str(y)
        if case["chunk"] == 0 and y not in ("元", "0", "64", "65", "99", "31", "15", "45"):
            continue
        g = s.year + (1 if y == "元" else int(y)) - 1
        for m in range(0, 14):
            for d in [0, 1, 7, 8, 22, 23, 24, 25, 28, 29, 30, 31, 32] if case["day"] else [None]:
                sp = " " if case["style"] == "spaces" else ""
                t = f"{name}{sp}{y}{sp}年{sp}{m}{sp}月" + (f"{sp}{d}{sp}日" if d is not None else "")
                if case["style"] == "wide":
                    t = t.translate(WIDE)
                want = None
                if 1 <= m <= 12:
                    n = calendar.monthrange(g, m)[1]
                    if d is None:
                        if not (_dt.date(g, m, n) < s or _dt.date(g, m, 1) > e):
                            want = f"{g}-{m:02d}"
                    elif 1 <= d <= n and s <= _dt.date(g, m, d) <= e:
                        want = f"{g}-{m:02d}-{d:02d}"
                facts.append({"text": t, "format": "ixt:" + fmt, "want": want})
    return judge("era", facts)


# ---------------------------------------------------------------- all short texts
ALPHA = "120/ x"


def scan(order, opts, t):
    t = t.strip()
    runs = []
    for c in t:
        kind = c in "0123456789"
        if runs and runs[-1][0] == kind:
            runs[-1][1] += c
        else:
            runs.append([kind, c])
    if runs and not runs[-1][0]:
        if "t" not in opts:
            return None
        runs.pop()
    if len(runs) != 2 * len(order) - 1 or not all(r[0] == (i % 2 == 0) for i, r in enumerate(runs)):
        return None
    parts = {c: runs[2 * i][1] for i, c in enumerate(order)}
    for c, v in parts.items():
        if c == "y" and len(v) not in (1, 2, 4) or c != "y" and len(v) > 2:
            return None
    return iso(order, parts.get("d", "1"), int(parts["m"]), parts.get("y"))


def build_texts(n):
    def build(ch):
        f = ch.pick("format", [x for x in NUMERIC if "r" not in x[2] and x[0].startswith("date-")], free=True)
        return {"fmt": f, "head": "".join(ch.pick(f"c{i}", ALPHA, free=True) for i in range(n))}

    return build


def run_texts_with(tail):
    def run(case):
        facts = []
        for n in range(0, tail + 1):
            for p in itertools.product(ALPHA, repeat=n):
                t = case["head"] + "".join(p)
                facts.append({"text": t, "format": "ixt:" + case["fmt"][0], "want": scan(case["fmt"][1], case["fmt"][2], t)})
        return judge("texts", facts)

    return run


# ---------------------------------------------------------------- fixed values
FIXED = [
    ("fixed-true", "true"), ("fixed-false", "false"), ("fixed-empty", ""), ("booleantrue", "true"), ("booleanfalse", "false"), ("nocontent", ""),
    ("no-such", None), ("fixed-zero", None), ("num-dot-decimal", None), ("date-no-such", None), (None, ...), ("date-day-month-yearx", None),
]
TEXTS = ["x", "", " ", "yes", "no", "false", "true", "0", "\u2610", "12", "a\nb"]


def build_fixed(ch):
    f = ch.pick("fmt", FIXED, free=True)
    return {"fmt": f[0], "want": "=" if f[1] is ... else f[1], "pfx": ch.pick("pfx", ["ixt", "tr3"], free=True)}


def run_fixed(case):
    facts = []
    for t in TEXTS:
        w = t if case["want"] == "=" else case["want"]
        facts.append({"text": t, "format": f"{case['pfx']}:{case['fmt']}" if case["fmt"] else None, "want": w})
    return judge("fixed", facts)


def scenarios(tier):
    q = tier != "thorough"
    return [
        Scenario("numeric", build_numeric, run_numeric, {"quick": 1, "thorough": 4}, "numeric and roman dates: all days 0-32 x months 0-13 x years x separators x digits"),
        Scenario("named", build_named, run_named, {"quick": 2, "thorough": 3}, "dates with month names of every language, in three letter cases"),
        Scenario("saka", build_hi, run_hi, None, "the Indian national calendar: every day of selected years"),
        Scenario("era", build_era, run_era, None, "Japanese eras: every month of years 1-63, and boundary days"),
        Scenario("texts", build_texts(2 if q else 4), run_texts_with(3 if q else 3), None, "all texts over six characters up to length 5 (thorough: 7) under the numeric formats"),
        Scenario("fixed", build_fixed, run_fixed, None, "fixed values and unsupported formats"),
    ]
