#!/usr/bin/env python3
"""check.py <ID>|setup [--thorough]: decides one property on /repo's current source (see DESIGN.md).

exit 0: no violation found in what could be decided; exit 1: VIOLATION line; exit 2: the machinery could not run.
"""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import mir  # noqa: E402


def known():
    """{(property, key)} of the findings listed, not the fixed ones"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: "):
                d = ln[len("finding: "):]
                prop, key, what = d.split(" ", 2)
                out[(prop.split("=")[1], key.split("=", 1)[1])] = what
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    if args == ["setup"]:
        mir.driver()
        print("driver ready; dump:", mir.dump())
        return 0
    import rules
    from rules.common import World, Report, Missing
    verbose = "-v" in sys.argv or os.environ.get("HNSW_VERBOSE")
    args = [a for a in args if a != "-v"]
    ids = list(rules.CHECKS) if args == ["all"] else args
    t00 = time.time()
    prog = mir.Prog()
    rc = 0
    w = None
    for cid in ids:
        t0 = time.time() if len(ids) > 1 else t00
        rep = Report(cid)
        try:
            w = w or World(prog)
            rep.tier = tier
            rules.CHECKS[cid](w, rep)
        except Missing as e:
            rep.bad("anchor:%s" % e, "the public anchor `%s` of this property is no longer in the crate" % e)
        except mir.ToolError:
            raise
        except Exception:
            tb = traceback.format_exc()
            rep.unk("rule-not-applicable", "the rule met a construct it does not interpret: " + tb[-600:])
            if verbose:
                print(tb)
        rc |= finish(cid, rep, tier, seed, t0, verbose)
    return rc


def finish(cid, rep, tier, seed, t0, verbose):
    kn = known()
    bads = {}
    for st, key, msg, wh in rep.items:
        if st == "bad":
            bads.setdefault(key, (msg, wh))
    listed = {k: v for k, v in bads.items() if (cid, k) in kn}
    viol = {k: v for k, v in bads.items() if k not in listed}
    oks, unks = rep.by("ok"), rep.by("unknown")
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "static analysis of the MIR of the crate as type-checked from the current tree; obligations are "
                           "rule instances found in this tree, each decided by the rule (see DESIGN.md, section %s)" % cid,
            "obligations": len(rep.items), "discharged": len(oks), "undecided": len(unks),
            "counts": rep.counts,
            "samples": [{"obligation": k, "where": wh, "detail": m} for _, k, m, wh in oks[:60]],
            "undecided_list": [{"obligation": k, "where": wh, "why": m} for _, k, m, wh in unks],
            "violations_list": [{"key": k, "what": v[0], "where": v[1]} for k, v in viol.items()],
            "notes": rep.notes,
        },
        "assumptions": ["rustc's MIR is faithful to the source", "library calls behave as modelled in engine/models.py",
                        "undecided obligations are not claimed"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    evd = os.environ.get("HNSW_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    evp = os.path.join(evd, cid + ".json")
    json.dump(ev, open(evp, "w"), indent=1)
    for k, v in listed.items():
        print("KNOWN-FINDING: property=%s %s" % (cid, kn[(cid, k)]))
    if verbose:
        for st, key, msg, wh in rep.items:
            print("  %-8s %s  [%s] %s" % (st, key, wh, msg))
    for k, (msg, wh) in viol.items():
        print("  %s: %s\n      at %s" % (k, msg, wh or "?"))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; counts %s; %.1fs" % (
        cid, len(rep.items), len(oks), len(unks), len(viol), rep.counts, time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (cid, evp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except mir.ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)
