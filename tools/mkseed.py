"""usage: mkseed.py FILE.py - creates /verif/seeded/<id>/ from a small description:
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO = python source (uses work = scratch dir)"""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + f"/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkseed.")
try:
    subprocess.check_call(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), t + "/r"])
    for p, a, b in ns["EDITS"]:
        s = open(f"{t}/r/{p}").read()
        assert s.count(a) == 1, (p, a, s.count(a))
        open(f"{t}/r/{p}", "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode()
finally:
    shutil.rmtree(t)
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.py", "w").write(HEAD + ns["DEMO"]) if False else None
head = '''import os, sys, shutil, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
work = tempfile.mkdtemp(prefix="brel-demo-")
os.environ["HOME"] = work + "/home"
os.makedirs(os.environ["HOME"])


def write(**files):
    """write(a_xsd="...") writes a.xsd; returns the folder"""
    d = tempfile.mkdtemp(dir=work)
    for n, s in files.items():
        n = ".".join(n.rsplit("_", 1))
        with open(os.path.join(d, n), "w", encoding="utf-8") as f:
            f.write(s)
    return d


XBRLI = "http://www.xbrl.org/2003/instance"
LINK = "http://www.xbrl.org/2003/linkbase"
XLINK = "http://www.w3.org/1999/xlink"
DECL = f'xmlns="{XBRLI}" xmlns:xbrli="{XBRLI}" xmlns:link="{LINK}" xmlns:xlink="{XLINK}" xmlns:t="http://ex.org/t" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xbrldt="http://xbrl.org/2005/xbrldt"'


def schema(body, ns="http://ex.org/t", refs=""):
    return f"""<?xml version="1.0" encoding="utf-8"?>
<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" {DECL} targetNamespace="{ns}">
<xs:annotation><xs:appinfo>{refs}</xs:appinfo></xs:annotation>
{body}</xs:schema>"""


def concept(name, extra='xbrli:periodType="duration"', type="xbrli:monetaryItemType", sg="xbrli:item"):
    return f'<xs:element name="{name}" id="t_{name}" type="{type}" substitutionGroup="{sg}" nillable="true" {extra}/>\\n'


def instance(body, schemas=("t.xsd",)):
    refs = "".join(f'<link:schemaRef xlink:type="simple" xlink:href="{s}"/>' for s in schemas)
    return f'<?xml version="1.0" encoding="utf-8"?>\\n<xbrl {DECL}>{refs}{body}</xbrl>'


def context(id, period="<startDate>2023-01-01</startDate><endDate>2023-12-31</endDate>", segment=""):
    seg = f"<segment>{segment}</segment>" if segment else ""
    return f'<context id="{id}"><entity><identifier scheme="http://s">E1</identifier>{seg}</entity><period>{period}</period></context>'


USD = '<unit id="usd"><measure>iso4217:USD</measure></unit>'


def inline(body, resources, refs=("t.xsd",), extra=""):
    import re
    resources = re.sub(r"<(/?)([A-Za-z]+)(?=[ />])", r"<\\1xbrli:\\2", resources) + extra
    r = "".join(f'<link:schemaRef xlink:type="simple" xlink:href="{s}"/>' for s in refs)
    return f"""<?xml version="1.0" encoding="utf-8"?>
<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:ixt="http://www.xbrl.org/inlineXBRL/transformation/2020-02-12" xmlns:ixt-sec="http://www.sec.gov/inlineXBRL/transformation/2015-08-31" {DECL.replace('xmlns="' + XBRLI + '"', '')}>
<head><title>x</title></head><body><div style="display:none"><ix:header><ix:references>{r}</ix:references><ix:resources>{resources}</ix:resources></ix:header></div>
{body}</body></html>"""


def open_(path):
    from brel import Filing

    return Filing.open(path)


def main():
'''
body = "".join("    " + l + "\n" if l.strip() else "\n" for l in ns["DEMO"].strip("\n").split("\n"))
tail = '''

try:
    main()
    print("ok")
finally:
    shutil.rmtree(work, ignore_errors=True)
'''
open(d + "/demo.py", "w").write(head + body + tail)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
print(d)
