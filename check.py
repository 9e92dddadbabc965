#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source (nothing of it is imported or executed).

exit 0  every decided obligation holds (known findings are printed)
exit 1  a VIOLATION line names the construct
exit 2  the analysis itself failed (lost an anchor)
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)
sys.dont_write_bytecode = True

from sa.lab import Lab  # noqa: E402
from sa.program import AnalysisError  # noqa: E402
from sa import registry  # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(x.split("=", 1) for x in line[6:].split(None, 2)[:2])
                if f.get("property") == prop:
                    out.append((f["key"], line[6:].split(None, 2)[2]))
    return out


def run(prop, root, tier, seed, evidence=True):
    t0 = time.time()
    spec = registry.RULES[prop]
    lab = Lab(prop, root, tier, seed)
    for modname, fn in spec["rules"]:
        m = importlib.import_module(f"sa.rules.{modname}")
        getattr(m, fn)(lab)
    decided = [o for o in lab.obligations if o["status"] in ("discharged", "violated")]
    if not decided and not lab.findings:
        raise AnalysisError(f"no obligation of {prop} could be decided: " + "; ".join(f"{o['obligation']}: {o['detail']}" for o in lab.obligations[:3]))
    if len(lab.obligations) < spec.get("min", 1) and not lab.findings:
        raise AnalysisError(f"only {len(lab.obligations)} obligations for {prop}, expected at least {spec['min']}")
    return lab, time.time() - t0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.environ.get("VERIF_REPO", "/repo")
    verbose = "-v" in sys.argv
    try:
        lab, wall = run(prop, root, tier, seed)
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={prop} {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN property={prop} source does not parse: {e}")
        return 2
    self_test = None
    if tier == "thorough":
        from sa import sensitivity

        self_test = sensitivity.run(prop, root, seed, lab.functions)
        wall = time.time() - lab.t0
    known = known_findings(prop)
    new = []
    hit = set()
    for f in lab.findings:
        k = [x for x in known if x[0] == f.key]
        if k:
            hit.add(k[0])
        else:
            new.append(f)
    st = {}
    for o in lab.obligations:
        st[o["status"]] = st.get(o["status"], 0) + 1
    spec = registry.RULES[prop]
    und = [o for o in lab.obligations if o["status"] == "undecided"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": spec["rule"] + f"  This run: {len(lab.obligations)} obligations over {len(lab.functions)} functions and {lab.callsites} analysed call sites of /repo's current source; "
            f"{st.get('discharged', 0)} discharged, {st.get('undecided', 0)} undecided, {st.get('violated', 0)} violated.",
            "obligations": len(lab.obligations),
            "discharged": st.get("discharged", 0),
            "undecided": [{k: o[k] for k in ("obligation", "where", "detail")} for o in und][:60],
            "violated": st.get("violated", 0),
            "configurations": lab.scenes,
            "cases": lab.cases,
            "functions_analysed": sorted(lab.functions),
            "call_sites": lab.callsites,
            "source_digest": lab.program.digest.hexdigest(),
            "rule": spec["rule"],
            "samples": [{k: o[k] for k in ("obligation", "status", "where")} for o in lab.obligations[:12]],
            "imprecision_notes": lab.notes[:40],
            **lab.extra,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if self_test is not None:
        ev["coverage"]["sensitivity_self_test"] = self_test
    keep = not os.environ.get("VERIF_NO_EVIDENCE")
    if keep:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
    if verbose:
        for o in lab.obligations:
            print(f"  [{o['status']}] {o['obligation']} @ {o['where']}" + (f"\n      {o['detail'][:600]}" if o["detail"] else ""))
        for n in lab.notes:
            print("  note:", n)
    for k in known:
        if k in hit:
            print(f"KNOWN-FINDING: property={prop} {k[1]}")
    print(f"{prop}: {len(lab.obligations)} obligations, {st.get('discharged', 0)} discharged, {st.get('undecided', 0)} undecided, {st.get('violated', 0)} violated; {len(lab.functions)} functions, {lab.cases} cases, {wall:.1f} s")
    if new:
        path = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path if keep else os.devnull, "w", encoding="utf-8") as fh:
            json.dump([{"property": prop, "rule": f.key, "construct": f.where, "what": f.what, "detail": f.detail} for f in new], fh, indent=1)
        for f in new[:20]:
            print(f"  {f.where}: [{f.key}] {f.what}: {f.detail[:700]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
