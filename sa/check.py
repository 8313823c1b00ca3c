#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough]

Decides one property from /repo's current source.  exit 0: held on everything
analysed; exit 1 with VIOLATION lines: a construct breaks it; exit 2: the
analysis could not decide (an anchor vanished, nothing to analyse, budget)."""
import argparse
import json
import os
import re
import sys
import time
import traceback
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build        # noqa: E402
import engine       # noqa: E402
import ir           # noqa: E402
import props        # noqa: E402

VERIF = os.path.dirname(HERE)
WIDTHS = (4, 12, 30)


def run_job(a):
    """one root function under one monitor; refined while it has findings"""
    path, k, monname, opts, tier, t_end = a
    t0 = time.time()
    prog = ir.Program(path)
    fn = prog.fn(k)
    out = {"fn": fn.q, "dem": fn.dem, "file": fn.file, "line": fn.line, "mon": monname, "blocks": len(fn.blocks), "findings": [],
           "budget": None, "error": None, "counts": {}, "steps": 0, "exits": 0, "cover": 0, "width": 0, "runs": 0}
    base = opts.get("width", 4)
    widths = [base] + [w for w in WIDTHS if w > base]
    best = None
    for w in widths:
        left = t_end - time.time()
        lim = min(opts.get("maxtime", 240), left)
        if lim < 5 and best is not None:
            break
        mon = props.monitor(monname)
        e = engine.Engine(fn, mon, width=w, maxtime=max(lim, 10), maxsteps=opts.get("maxsteps", 3000000))
        try:
            e.run()
        except engine.Budget as x:
            if best is None:
                out["budget"] = str(x)
            break
        except LookupError as x:
            out["error"] = str(x)
            break
        best = e
        out["width"] = w
        out["runs"] += 1
        if not e.findings:
            break
    if best is not None:
        f = getattr(best.mon, "finish", None)
        if f:
            f(best)
        out["findings"] = [{"rule": x.rule, "loc": x.loc, "fn": x.fn, "dem": fn.dem, "msg": x.msg, "trail": x.trail, "key": x.key} for x in best.findings.values()]
        out["counts"] = {c: sorted(str(s) for s in v) for c, v in best.counts.items()}
        out["steps"] = best.steps
        out["exits"] = best.exits
        out["cover"] = len(best.cover)
    out["wall"] = round(time.time() - t0, 2)
    return out


def run_func(a):
    name, opts, tier = a
    t0 = time.time()
    out = {"fn": name, "mon": name, "findings": [], "error": None, "budget": None, "counts": {}}
    try:
        r = props.function(name)(tier, **opts)
        out.update(r)
    except LookupError as x:
        out["error"] = str(x)
    out["wall"] = round(time.time() - t0, 2)
    return out


def worker(a):
    try:
        return run_func(a[1:]) if a[0] == "func" else run_job(a[1:])
    except build.BuildError as x:
        return {"fn": str(a[1]), "mon": "?", "error": "build: %s" % x, "findings": [], "counts": {}, "budget": None, "wall": 0}
    except Exception:
        return {"fn": str(a[1]), "mon": "?", "error": "internal: " + traceback.format_exc(), "findings": [], "counts": {}, "budget": None, "wall": 0}


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) rule=(\S+) at=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def site(f):
    """innermost function a finding lies in (lines move; functions rarely do)"""
    m = re.match(r"\S+:\d+ (\S+)", f["loc"])
    return m.group(1) if m else f["loc"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    t0 = time.time()
    pid = o.property
    P = props.PROPS[pid]
    t_end = t0 + (300 if o.tier == "quick" else 3000)
    problems = []
    tasks = []
    notes = []
    try:
        for j in P["jobs"]:
            if j.get("tier", "quick") == "thorough" and o.tier != "thorough":
                continue
            if "func" in j:
                tasks.append(("func", j["func"], j.get("opts", {}), o.tier))
                continue
            path = build.export(j["name"], j["tus"], j["spec"], j.get("variant", ""))
            prog = ir.Program(path)
            notes += ["not inlined: " + n for n in prog.notes if n.startswith("budget")]
            for r in j["roots"]:
                tier = "quick"
                if isinstance(r, tuple):
                    r, tier = r
                if tier == "thorough" and o.tier != "thorough":
                    continue
                ks = [k for k, f in enumerate(prog.raw) if re.fullmatch(r, f["q"])]
                if j.get("dem"):
                    ks = [k for k in ks if re.search(j["dem"], prog.raw[k]["dem"])]
                if not ks:
                    problems.append("anchor vanished: no function matches %s" % r)
                for k in ks:
                    for m in j["mons"]:
                        tasks.append(("eng", path, k, m, j.get("opts", {}), o.tier, t_end))
    except build.BuildError as x:
        problems.append("build: %s" % x)
    # big functions first
    tasks.sort(key=lambda t: 0 if t[0] == "func" else -len(ir.Program(t[1]).raw[t[2]]["blocks"]) if len(tasks) > 8 else 0)
    with Pool(min(8, max(1, len(tasks)))) as pool:
        res = list(pool.imap_unordered(worker, tasks, 1))
    counts = {}
    finds = {}
    for r in res:
        if r["error"]:
            problems.append("%s under %s: %s" % (r["fn"], r["mon"], r["error"]))
        if r["budget"]:
            problems.append("%s under %s: analysis budget exceeded: %s" % (r["fn"], r["mon"], r["budget"]))
        for c, s in r["counts"].items():
            counts.setdefault(c, set()).update(s)
        for f in r["findings"]:
            finds.setdefault((f["rule"], f["key"] or f["loc"].split(" < ")[0]), f)
    for c in P.get("need", ()):
        if not counts.get(c):
            problems.append("nothing to decide: no %s found" % c)
    known = known_findings(pid)
    viol = []
    knownhit = []
    for f in finds.values():
        for k in known:
            if k[1] == f["rule"] and k[2] == (f["key"] or site(f)):
                knownhit.append((k, f))
                break
        else:
            viol.append(f)
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    wall = round(time.time() - t0, 2)
    ev = {
        "property": pid, "tier": o.tier if o.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": P["level"],
        "coverage": {
            "explanation": P["covers"],
            "rule": P["rule"],
            "functions_analysed": sorted({r.get("dem", r["fn"])[:160] for r in res}),
            "basic_blocks": sum(r.get("blocks", 0) for r in res),
            "basic_blocks_reached": sum(r.get("cover", 0) for r in res),
            "abstract_states_explored": sum(r.get("steps", 0) for r in res),
            "analyses_run": len(res),
            "sites": {c: len(s) for c, s in sorted(counts.items())},
            "site_list": {c: sorted(s)[:40] for c, s in sorted(counts.items())},
            "findings": len(finds), "known_findings": len(knownhit),
            "undecided": problems,
        },
        "assumptions": P.get("assumptions", []) + notes,
        "wall_s": wall, "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d analyses, %d states, %s" % (pid, o.tier, len(res), ev["coverage"]["abstract_states_explored"], ", ".join("%d %s" % (len(s), c) for c, s in sorted(counts.items()))))
    if o.v:
        for r in sorted(res, key=lambda r: -r["wall"]):
            print("   ", r["mon"], r.get("dem", r["fn"])[:110], "w%s" % r.get("width"), "%.1fs" % r["wall"], len(r["findings"]), r["budget"] or "")
    for k, f in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    for i, f in enumerate(viol):
        rp = os.path.join(rdir, "%s-%d.json" % (pid, i))
        with open(rp, "w") as fh:
            json.dump({"property": pid, "finding": f, "rerun": "python3 %s/sa/check.py --property %s --tier %s" % (VERIF, pid, o.tier)}, fh, indent=1)
        print("  %s: [%s] %s\n    in %s" % (f["loc"].split(" < ")[0], f["rule"], f["msg"], f.get("dem", f["fn"])[:160]))
        if o.v:
            for t in f["trail"][-25:]:
                print("        ", t)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    build.prune_cache()
    if viol:
        sys.exit(1)
    if problems:
        for p in problems:
            print("UNDECIDED: " + p)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
