"""Runs the checks of one property, writes its evidence and reports violations."""
import os, sys, json, time, re, traceback
from . import core, build
from .props import load

V = build.V
TRUST = ["rustc's type checker, borrow checker and MIR construction (nightly 1.101.0)",
         "the MIR interpretation, loop summaries and library models of /verif/hhsa (interp.py, models.py)",
         "the term normal forms (terms.py, graph.py) and the exact certificate check of linarith.py",
         "the oracle of the property (hhsa/lay.py and the property's module), written from the documentation",
         "a Rust allocation holds fewer than 2^59 elements of the scalar types"]

clean = core.clean

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2: tier = sys.argv[2]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_SEED"] = str(seed)
    t0 = time.time()
    m = load(prop)
    quick = tier != "thorough"
    roots = m.roots() if hasattr(m, "roots") else []
    if quick: roots = [r for r in roots if not r.deep]
    obls, extras = [], []
    err = None
    try:
        if roots:
            o, x = core.run_roots(prop, roots, m.PRE, 240 if quick else 1500, 100 if quick else 600, thorough=not quick,
                                  known={k["key"] for k in json.load(open(V + "/known_findings.json"))["known"] if k["property"] == prop})
            obls += o; extras += x
        if hasattr(m, "extra"): obls += m.extra(quick)
    except build.BuildError as ex:
        print("cannot analyse: " + str(ex)[:3000]); sys.exit(2)
    for o in obls:
        if o.status == "vacuous": o.status = "violated"; o.detail = "the obligation is vacuous: its hypothesis cannot hold (fail closed)"
    viol = [o for o in obls if o.status == "violated"]
    openo = [o for o in obls if o.status == "open"]
    proved = [o for o in obls if o.status == "proved"]
    floor = getattr(m, "FLOOR", 1)
    if len(obls) < floor:
        viol.append(core.Obl("-", "-", "number of obligations", "violated", "floor", "%d obligations, expected at least %d" % (len(obls), floor)))
    known = json.load(open(V + "/known_findings.json"))
    keys = {(k["property"], k["key"]): k["what"] for k in known["known"]}
    bykey = {}
    for o in viol: bykey.setdefault(clean(o.root + " | " + o.desc), []).append(o)
    os.makedirs(V + "/evidence", exist_ok=True)
    nviol = 0; lines = []; seen_known = set()
    for i, (k, os_) in enumerate(bykey.items()):
        if (prop, k) in keys:
            if k not in seen_known: print("KNOWN-FINDING: property=%s %s" % (prop, keys[(prop, k)]))
            seen_known.add(k); continue
        nviol += 1
        o = os_[0]
        rp = "%s/evidence/%s.violation-%d.txt" % (V, prop, nviol)
        if nviol <= 20:
            open(rp, "w").write("property: %s\nkey: %s\nentry point: %s (%s)\nobligation: %s\nanchor: %s\nrule: %s\n%s\n\nentry point source:\n%s\n" % (
                prop, k, o.root, "/".join(x.profile for x in os_), o.desc, o.anchor, o.how, o.detail, next((r.code() for r in roots if r.name == o.root), "-")))
            lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
            print("violated: %s\n  at %s (%s)\n  %s" % (k, o.anchor, o.how, o.detail[:1200].replace("\n", "\n  ")))
    hows = {}
    for o in proved: hows[o.how] = hows.get(o.how, 0) + 1
    level = m.LEVEL
    if level == "proof" and len(proved) < len(obls): level = "other"
    fns = sorted({f for x in extras for f in x["fns"]})
    cov = {"obligations": len(obls), "discharged": len(proved),
           "checker_cmd": "./check %s %s" % (prop, tier),
           "trusted_base": TRUST,
           "explanation": "Each obligation quantifies over all inputs of a client function (entry point) over the public API; it is discharged when the value graph of the MIR of "
                          "/repo's current source has the documented normal form (or a certificate of exact linear arithmetic closes it), reported as violated when a separating "
                          "assignment of the two graphs exists, and otherwise left open (listed here, no alarm). " + getattr(m, "NOTE", ""),
           "rule": getattr(m, "RULE", m.__doc__.strip()),
           "entry_points": len(roots), "analyses": len(extras), "discharged_by": hows,
           "open": [{"entry": o.root, "profile": o.profile, "obligation": o.desc, "why": o.how, "detail": o.detail[:200], "assignments_tried": o.met} for o in openo][:200],
           "open_count": len(openo),
           "householder_functions_analysed": [f for f in fns if "householder" in f][:400],
           "functions_analysed": len(fns), "events": sum(x["events"] for x in extras),
           "unmodelled_calls": sorted({u for x in extras for u in x["unknown"]}),
           "samples": ["%s [%s] %s: %s (%s) at %s" % (o.root, o.profile, o.desc, o.status, o.how, o.anchor) for o in obls[:: max(1, len(obls) // 25)]][:30]}
    if seen_known: cov["known_findings"] = sorted(seen_known)
    ev = {"property": prop, "tier": "thorough" if not quick else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(m, "ASSUME", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    open("%s/evidence/%s.json" % (V, prop), "w").write(json.dumps(ev, indent=1))
    print("%s: %d obligations over %d entry points, %d discharged, %d open, %d violated, %d known (%.1f s)" % (
        prop, len(obls), len(roots), len(proved), len(openo), nviol, len(seen_known), time.time() - t0))
    for l in lines: print(l)
    sys.exit(1 if nviol else 0)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
