"""Evidence, violations, known findings."""
import json
import os
import re
import shutil
import sys
import time
import traceback
from . import build, run as run_mod, props

VERIF = build.VERIF
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")


def known(pid):
    try:
        k = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in k.get("findings", []) if e["property"] == pid and e.get("status") == "known"}


def relevant(fns):
    return [f for f in fns if f.startswith("vecmat")]


def run_(pid, tier, seed, only, verbose):
    p = props.PROPS[pid]
    t0 = time.time()
    res, progs = [], {}
    rejected = []
    for spec in p.get("probes", []):
        try:
            r, pr = run_mod.run_pairs([spec], tier, seed, only)
        except run_mod.ProbeRejected as e:
            rejected.append(e)
            continue
        res += r
        progs.update(pr)
    extra = []
    for f in p.get("extra", []):
        extra += f(tier, seed, only)
    viol = []
    for r in res + extra:
        if r["verdict"] == "violated":
            viol.append(r)
    for e in rejected:
        first = "\n".join(re.findall(r"^error.*(?:\n.*){0,12}", e.msg, re.M)[:3])
        viol.append(dict(key="typecheck:%s" % e.crate, name=e.crate, dims=(), verdict="violated", crate=e.crate + "@" + e.cfg,
                         why="an instance of the interface that this property covers no longer type-checks:\n" + first, where=None, entry=None, t=0))
    miss = [(c, m) for c, (P, ms) in progs.items() for m in ms]
    if miss:
        raise RuntimeError("probe functions without a partner: %s" % miss)
    floor = p.get("floor")
    n = len(res) + len(extra)
    entries = len({r["name"] for r in res + extra})
    if not only and not rejected and entries < p.get("entries", 0):
        raise RuntimeError("only %d functions were analysed, %d expected" % (entries, p["entries"]))
    if not only and not rejected and floor and n < floor:
        raise RuntimeError("only %d obligations were analysed, %d expected" % (n, floor))
    fns = sorted({f for r in res for f in relevant(r.get("fns", ()))} | {f for r in extra for f in relevant(r.get("fns", ()))})
    und = [r for r in res + extra if r["verdict"] == "undecided"]
    proved = [r for r in res + extra if r["verdict"] == "proved"]
    kn = known(pid)
    alarms = []
    for v in viol:
        if v["key"] in kn or v["name"] in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["key"], kn.get(v["key"], kn.get(v["name"]))["what"]))
        else:
            alarms.append(v)
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(pid + "-violation"):
            os.unlink(os.path.join(EVID, f))
    if verbose:
        done = set()
        for r in und + viol:
            if r["name"] in done:
                continue
            done.add(r["name"])
            print(r["verdict"], r["key"], r["why"][:700], r.get("where") or "")
        for r in sorted(res + extra, key=lambda r: -r["t"])[:5]:
            print("slow", r["key"], "%.1f" % r["t"])
    # one report per entry point
    seen = set()
    path = None
    for k, v in enumerate(alarms):
        path = os.path.join(EVID, "%s-violation-%d.json" % (pid, k))
        with open(path, "w") as fh:
            json.dump(dict(property=pid, obligation=v["key"], probe=v.get("crate"), why=v["why"], where=v.get("where"), specification=v.get("entry"),
                           functions=relevant(v.get("fns", ())), panics=v.get("panics"), replay="cd /verif && ./check.py %s %s --only '%s' -v" % (pid, tier, v["name"])), fh, indent=1)
        if v["name"] in seen:
            continue
        seen.add(v["name"])
        print("  %s: %s" % (v["key"], v["why"][:1200]))
        if v.get("where"):
            print("    at %s" % v["where"])
        if v.get("fns"):
            print("    library functions on the path: %s" % ", ".join(relevant(v["fns"])[:12]))
    cov = dict(
        explanation=p.get("explanation", EXPL),
        rule=p.get("rule", RULE),
        obligations=n, discharged=len(proved), undecided=len(und),
        undecided_list=[dict(key=r["key"], why=r["why"][:300]) for r in und[:40]],
        entry_points=len({r["name"] for r in res + extra}), instantiations=len(res + extra), structural_obligations=len(extra),
        leaf_equalities=sum(r.get("leaves", 0) for r in res + extra),
        call_sites=sum(r.get("calls", 0) for r in res + extra),
        unsafe_requirements=sum(len(r.get("facts", ())) for r in res + extra),
        library_functions=len(fns), functions=fns,
        samples=[dict(key=r["key"], verdict=r["verdict"], functions=relevant(r.get("fns", ()))[:6]) for r in (res + extra)[:: max(1, n // 6)][:8]],
    )
    if p.get("probes") and not p.get("extra"):
        cov["exhaustive"] = False
    ev = dict(property=pid, tier=tier, seed=seed, level=p.get("level", "other"), coverage=cov, assumptions=p.get("assumptions", []) + ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(alarms))
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violated; %d library functions analysed; %.1f s"
          % (pid, tier, n, len(proved), len(und), len(viol), len(fns), time.time() - t0))
    if alarms:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(EVID, "%s-violation-0.json" % pid)))
        return 1
    return 0


RULE = ("for every entry point and instantiation: the summary (result, final state of borrowed arguments, condition under which control panics) that abstract "
        "interpretation of the type-checked source assigns to the library call equals, as a value-numbering normal form, the summary of the specification; a violation "
        "is reported only when the summaries have different normal forms and a random interpretation of the symbols separates them, or a requirement of an unsafe operation fails")
EXPL = ("static equivalence of each public entry point with an independent specification, decided on gated value graphs of the whole reachable program (compiler THIR of vecmat "
        "and of the crates it calls, resolved callees), with symbolic inputs and concrete dimensions; nothing is executed")
ASSUME = ["generic scalar operations are uninterpreted or ring/field operations (floating-point rounding is abstracted away)",
          "const dimensions are instantiated at the sizes listed in the obligation keys", "models of core/alloc primitives in engine/natives.py and engine/iters.py"]


def run(pid, tier, seed, only=None, verbose=False):
    return run_(pid, tier, seed, only, verbose)
