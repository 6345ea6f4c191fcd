"""usage: main.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--workers N]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--all-violations", action="store_true")
    ap.add_argument("--only", help="only this scenario (debugging; writes no evidence)")
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import env

    if pid in ("P17",):
        import detsets

        detsets.install()
    env.setup()
    import core

    mod = importlib.import_module("checks." + pid.lower())
    if getattr(mod, "CRASHFS", False) and not os.environ.get("BRELMC_CRASHFS"):
        import crashfs

        return crashfs.rerun()
    scs = mod.scenarios(a.tier)
    if a.only:
        scs = [s for s in scs if s.name == a.only]
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        sc = next(s for s in scs if s.name == rp["scenario"])
        ch = core.Chooser(rp["choices"], None)
        case = sc.build(ch)
        print("case:", json.dumps(case, indent=1, default=str)[:6000])
        so = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            r = core._exec(sc, case)
        finally:
            sys.stdout = so
        for v in r.violations:
            print("  ", v.sig, "|", v.msg)
            if v.detail:
                print("     ", json.dumps(v.detail, default=str)[:4000])
        print("reproduced" if any(v.sig == rp["signature"] for v in r.violations) else "NOT reproduced")
        return 1 if r.violations else 0

    res = core.explore(scs, a.tier, a.workers, deadline_s=getattr(mod, "DEADLINE", {}).get(a.tier, 840 if a.tier == "quick" else 6 * 3600))

    known = {}
    kf = os.path.join(env.VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            for e in json.load(f)["findings"]:
                if e.get("status") == "known" and e["property"] == pid:
                    known[e["signature"]] = e["what"]
    by_sig, known_hit = {}, {}
    for j, si, choices, sig, msg, detail in res["viol"]:
        if sig in known:
            known_hit.setdefault(sig, 0)
            known_hit[sig] += 1
        else:
            by_sig.setdefault(sig, (si, choices, msg, detail, []))[4].append(j)

    states = sum(p["states"] for p in res["per"])
    trans = sum(p["transitions"] for p in res["per"])
    samples = []
    step = max(1, len(res["items"]) // 3)
    for k in range(0, len(res["items"]), step):
        si, choices, case = res["items"][k]
        samples.append(
            {
                "scenario": scs[si].name,
                "choices": choices,
                "case": json.loads(json.dumps(case, default=str)[:100000])
                if len(json.dumps(case, default=str)) < 3000
                else json.dumps(case, default=str)[:1500] + "...",
            }
        )
        if len(samples) >= 3:
            break
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": res["ran"],
            "exhaustive": True,
            "scenarios": res["per"],
            "counters": res["counts"],
            "samples": samples,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(by_sig),
    }
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(env.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not a.only:
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for sig in sorted(known_hit):
        print(f"KNOWN-FINDING: property={pid} {known[sig]} [{sig}]")
    n = 0
    for sig, (si, choices, msg, detail, js) in by_sig.items():
        n += 1
        rp = os.path.join(evdir, f"{pid}.replay{n}.json")
        with open(rp, "w") as f:
            json.dump(
                {"property": pid, "scenario": scs[si].name, "signature": sig, "choices": choices, "message": msg, "detail": detail},
                f,
                indent=1,
                default=str,
            )
        if n <= 12 or a.all_violations:
            print(f"VIOLATION property={pid} replay={rp}")
            print(f"   {sig} ({len(js)}x): {msg[:600]}")
        if n >= 200:
            break
    print(
        f"{pid} [{a.tier}] states={states} transitions={trans} executions={res['ran']} "
        f"violations={len(by_sig)} known={len(known_hit)} {time.time()-t0:.1f}s"
    )
    return 1 if by_sig else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
