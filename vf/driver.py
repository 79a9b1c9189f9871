"""Command line: decide one property, write evidence, report violations."""
import hashlib
import json
import os
import sys
import time

from . import run as R, terms as tm, whole


def known_list(here):
    """finding: property=Cxx case=<case/observable> text   |   fixed: property=..."""
    out = []
    p = os.path.join(here, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l.split()[1:3])
                out.append((d["property"], d["case"], l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ""))
    return out


def whole_numbers(repo):
    """Arrays that hold whole numbers when the caller's numbers are whole receive no fractions (vf/whole.py)."""
    hits, sites = whole.check(repo)
    bad = {}
    for prop, rel, line, owner, why, text in hits:
        bad.setdefault(prop, []).append((rel, line, owner, why, text))
    out = []
    for prop in sorted(set(sites) | set(bad)):
        if prop not in bad:
            out.append(R.Obligation(prop, "WholeNumbers", "[%d in-place sites]" % sites[prop], "fractions", "ok"))
        for rel, line, owner, why, text in bad.get(prop, []):
            out.append(R.Obligation(prop, "WholeNumbers", "[%s]" % owner, "fractions", "violated", why,
                                    "in-place results keep their fractions, or the array is built with dtype=float", text, (rel, line, owner)))
    return out


def main(here, repo, argv):
    t0 = time.time()
    verbose = "-v" in argv
    argv = [a for a in argv if a != "-v"]
    prop = argv[0]
    only = argv[1:]
    W = R.load_world(repo, os.path.join(here, "spec"))
    R.index_classes(W)
    obls = []
    ncases = 0
    for c in R.cases(W, only):
        ncases += 1
        obls += R.run_case(W, c)
    if not only or any("WholeNumbers".startswith(o.lstrip("=")) for o in only):
        obls += whole_numbers(repo)
    if prop == "--all":
        from collections import Counter
        cnt = Counter((o.prop, o.status) for o in obls)
        for o in obls:
            if o.status != "ok":
                loc = o.loc or ("?", 0, "?"); print("%-9s %s %s%s  at %s:%s (%s) %s" % (o.status, o.prop, o.name, " KNOWN" if o.known else "", loc[0], loc[1], loc[2], o.why))
                if verbose or only:
                    print("     want: ", o.want)
                    print("     found:", o.found)
        for k in sorted(cnt):
            print(k, cnt[k])
        print("cases", ncases, "instances", R.STATS["instances"], "functions", len(R.STATS["functions"]), "%.1fs" % (time.time() - t0))
        return 0
    mine = [o for o in obls if o.prop == prop]
    return report(here, repo, prop, mine, obls, t0, W)


def report(here, repo, prop, mine, obls, t0, W):
    known = known_list(here)
    viol = []
    for o in mine:
        if o.status == "violated":
            f = [k for k in known if k[0] == prop and k[1] == o.key]
            if f and o.known:
                print("KNOWN-FINDING: property=%s %s at %s:%s %s" % (prop, o.name, o.loc[0], o.loc[1], f[0][2]))
                o.status = "known"
            else:
                viol.append(o)
    rd = os.path.join(here, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rd, f))
    seen = set()
    for o in viol:
        h = hashlib.sha1(o.name.encode()).hexdigest()[:8]
        p = os.path.join(rd, "%s-%s.txt" % (prop, h))
        with open(p, "w") as fh:
            fh.write("property   %s\nobligation %s\nlocation   %s:%s in %s\nreason     %s\nspec wants %s\ncode has   %s\nre-run     python3 check.py --all %s\n" % (
                prop, o.name, o.loc[0], o.loc[1], o.loc[2], o.why or "value graphs differ", o.want, o.found, o.case))
        print("  %s:%s %s: obligation %s does not hold" % (o.loc[0], o.loc[1], o.loc[2], o.name))
        print("    wanted %s\n    found  %s" % (str(o.want)[:400], str(o.found)[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    und = [o for o in mine if o.status == "undecided"]
    okc = [o for o in mine if o.status == "ok"]
    fns = sorted("%s.%s" % f for f in R.STATS["functions"])
    ncases, ninst = len({o.case for o in mine}), len({(o.case, o.inst) for o in mine})
    ev = {
        "property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the package's source (never run): %d entry-point cases in %d instances of argument "
                           "types were analysed over symbolic inputs, through %d functions and %d call sites; each of %d obligations "
                           "compares the canonical value graph (value, constraint set, objective, raise condition, effect) found for the code "
                           "with the one of the reference definition in spec/. %d equal, %d differ, %d could not be compared."
                           % (ncases, ninst, len(fns), R.STATS["call_sites"], len(mine), len(okc), len(viol), len(und)),
            "obligations": len(mine), "discharged": len(okc),
            "undecided": len(und), "violated": len(viol), "known_findings": sum(1 for o in mine if o.status == "known"),
            "checker_cmd": "python3 check.py %s" % prop,
            "rule": "value graph of the public entry point, over symbolic inputs, equals the value graph of the specification",
            "trusted_base": ["vf/: abstract interpreter, algebraic normal forms, models of numpy/pandas/cvxpy/scipy operators",
                             "spec/: reference definitions of the public behaviour", "CPython's ast parser"],
            "second_rule": "arrays that hold whole numbers when the caller's numbers are whole receive no fractions (vf/whole.py)",
            "entry_points": ncases, "instances": ninst,
            "functions_reached": len(fns), "functions": fns[:400], "terms": len(tm._INTERN),
            "call_sites": R.STATS["call_sites"],
            "optimisation_problems_compared": R.STATS["problems"],
            "samples": [o.name for o in okc[:12]],
            "undecided_list": [{"obligation": o.name, "why": o.why[:300]} for o in und[:50]],
        },
        "assumptions": ["exact real arithmetic", "the library models of vf/libcalls.py describe the installed numpy, pandas, scipy, cvxpy",
                        "inputs range over the argument types each case enumerates"],
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(here, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d hold, %d violated, %d undecided (%.1fs)" % (prop, len(mine), len(okc), len(viol), len(und), ev["wall_s"]))
    if not mine:
        print("no obligations: anchor missing")
        return 2
    return 1 if viol else 0
