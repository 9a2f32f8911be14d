#!/usr/bin/env python3
"""check.py ID: decides one property of properties.jsonl on /repo's tree.

Exit 0: held.  Exit 1 with `VIOLATION property=ID replay=PATH`: broken.
"""
import concurrent.futures as cf
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "machinery"))
import core          # noqa: E402
import kani          # noqa: E402
import native        # noqa: E402
import verus         # noqa: E402
from props import PROPS  # noqa: E402

NO_INPUT = "no-failing-input-found"


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []   # (key, replay dict, suffix)
        self.undecided = []    # obligations nobody discharged: (name, reason)
        self.groups = []       # evidence per back end
        self.obligations = 0
        self.discharged = 0
        self.evaluations = 0
        self.distinct = 0
        self.solver_s = 0.0
        self.functions = []
        self.samples = []
        self.notes = []
        self.bounded = []
        self.proof_failures = []   # (proof task, failed obligations)

    def violation(self, key, info, suffix=""):
        for i, (k, old, s) in enumerate(self.violations):
            if k == key:
                if s and not suffix:
                    self.violations[i] = (key, info, suffix)
                return
        self.violations.append((key, info, suffix))


def kani_phase(ctx, cfg, rep, pool):
    """Kani on both build configurations, native runs alongside."""
    feats = cfg.get("features", [])
    configs = cfg.get("configs", ["debug", "release"])
    filters = [m + "::" for m in cfg["modules"]]
    thorough = ctx.tier == "thorough"
    if thorough:
        filters += [m + "::" for m in cfg.get("thorough_modules", [])]
    hto = cfg.get("harness_timeout", 300) * (3 if thorough else 1)

    nfut = {c: pool.submit(native_phase, ctx, cfg, c, feats) for c in ["debug", "release"]}
    jobs = 8 // len(configs) + 1
    kfut = {}
    if cfg.get("kani", True):
        budget = max(60, ctx.left() - 100)
        for c in configs:
            kfut[c] = pool.submit(kani.run_config, ctx, c, filters, feats, jobs,
                                  min(hto, budget - 20), budget)
    natives = {c: f.result() for c, f in nfut.items()}
    results = []
    for c, f in kfut.items():
        res, ok, log = f.result()
        if not ok:
            ctx.log(f"kani {c}: the contracts do not build", log[-1500:])
            rep.undecided.append((f"kani {c}", "the contracts do not build under Kani: " + log[-300:]))
        results += list(res.values())

    # native failures: a failing input on the real code
    vac = []
    for c, (binary, res, note) in natives.items():
        if note:
            ctx.log(f"native {c}: {note}")
            rep.notes.append(f"native {c}: {note}")
        n = d = dis = 0
        for name, r in sorted(res.items()):
            if r[0] == "FAIL":
                info = {"kind": "input", "harness": name, "config": c, "features": feats,
                        "draws": r[1], "message": r[2],
                        "how": f"./replay.sh {name} {c} '{','.join(feats)}' {r[1]}"}
                rep.violation(name, info)
            else:
                n += r[1]
                dis += r[2]
                d += r[3]
                if r[1] == 0:
                    vac.append(f"{name} ({c})")
        rep.evaluations += n
        rep.distinct += d
        rep.groups.append({"back_end": f"native {c} ({native.NATIVE_TOOLCHAIN})", "role":
                           "vacuity guard and search for failing inputs (not counted as proof)",
                           "harnesses": len(res), "evaluations": n, "distinct": d, "discarded": dis})
    if vac:
        rep.notes.append("no native evaluation satisfied the precondition: " + ", ".join(vac))

    # Kani
    per = {}
    for r in results:
        g = per.setdefault(r.config, {"harnesses": 0, "proved": 0, "checks": 0, "checks_passed": 0,
                                      "solver_s": 0.0, "solvers": {}, "undecided": [], "failed": []})
        g["harnesses"] += 1
        g["checks"] += r.total
        rep.obligations += max(r.total, 1)
        g["solver_s"] = round(g["solver_s"] + r.solver_s, 2)
        rep.solver_s += r.solver_s
        if r.solver:
            g["solvers"][r.solver] = g["solvers"].get(r.solver, 0) + 1
        if r.status == "proved":
            g["proved"] += 1
            g["checks_passed"] += r.passed
            rep.discharged += r.passed
        elif r.status == "failed":
            g["failed"].append(r.name)
        else:
            g["undecided"].append({"contract": r.name, "why": r.reason})
            rep.undecided.append((f"{r.name} ({r.config})", r.reason))
    for c, g in per.items():
        rep.groups.append({"back_end": f"Kani/CBMC {c}", **g})
    names = sorted({r.name for r in results})
    rep.functions += names

    # failed obligations: replay the verifier's counterexample
    todo = [r for r in results if r.status == "failed" or (r.failed and r.status == "undecided")]
    done = {v[0] for v in rep.violations}
    for r in todo:
        if r.name in done:
            continue
        what = [{"obligation": c.get("description"),
                 "function": c.get("function"),
                 "location": c.get("location")} for c in r.failed[:8]]
        ctx.log(f"failed obligation in {r.name} ({r.config}): {what[0]}")
        found = None
        out = ""
        binary = natives.get(r.config, (None,))[0]
        if ctx.left() > 60 and len(done) < 6:
            draws, out = kani.counterexample(ctx, r.config, r.hid, feats, min(300, ctx.left() - 40))
            for d in draws:
                if binary:
                    bad, msg = native.replay(binary, r.name, d)
                    if bad:
                        found = (d, msg)
                        break
        if not found and binary and ctx.left() > 40:
            res, crash = native.search(ctx, binary, ctx.seed + 77, 10**9, min(25, ctx.left() / 3),
                                       [r.name], 60)
            for n, x in res.items():
                if n == r.name and x[0] == "FAIL":
                    found = (x[1].split(","), x[2])
        if found:
            rep.violation(r.name, {"kind": "input", "harness": r.name, "config": r.config,
                                   "features": feats, "draws": ",".join(found[0]), "message": found[1],
                                   "failed_obligations": what,
                                   "how": f"./replay.sh {r.name} {r.config} '{','.join(feats)}' {','.join(found[0])}"})
            done.add(r.name)
        elif r.status == "failed":
            rep.violation(r.name, {"kind": "obligation", "harness": r.name, "config": r.config,
                                   "failed_obligations": what, "verifier_output": out[-6000:]}, NO_INPUT)
            done.add(r.name)
    return natives


def proof_failures(ctx, cfg, rep, natives):
    """A failed proof: search for an input on the real code, else report the obligation."""
    if not rep.proof_failures:
        return
    have = [v for v in rep.violations if not v[2]]
    for task, failed in rep.proof_failures:
        ctx.log(f"failed obligation in {task}: {failed[0]}")
    if have:
        for _, info, _ in have:
            info["failed_obligations"] = info.get("failed_obligations", []) + rep.proof_failures[0][1][:5]
        return
    feats = cfg.get("features", [])
    for c, (binary, _, _) in natives.items():
        if not binary or ctx.left() < 60:
            continue
        res, crash = native.search(ctx, binary, ctx.seed + 991, 10**9, 8, [m + "_" for m in cfg["modules"]],
                                   min(240, ctx.left() - 20))
        for n, x in res.items():
            if x[0] == "FAIL":
                rep.violation(n, {"kind": "input", "harness": n, "config": c, "features": feats,
                                  "draws": x[1], "message": x[2], "failed_obligations": rep.proof_failures[0][1][:5],
                                  "how": f"./replay.sh {n} {c} '{','.join(feats)}' {x[1]}"})
                have.append(n)
        if have:
            return
    for task, failed in rep.proof_failures:
        rep.violation(f"verus-{task}", {"kind": "obligation", "task": task, "failed_obligations": failed}, NO_INPUT)


def native_phase(ctx, cfg, config, feats):
    binary, log = native.build(ctx, config, feats)
    if not binary:
        return None, {}, "does not build: " + log[-1500:]
    thorough = ctx.tier == "thorough"
    iters = cfg.get("iters", 20000) * (20 if thorough else 1)
    secs = cfg.get("secs", 1.5) * (10 if thorough else 1)
    filters = [m + "_" for m in cfg["modules"]]
    res, crash = native.search(ctx, binary, ctx.seed, iters, secs, filters, 400)
    note = None
    if crash:
        # find the contract whose run ended the process
        rc, names = core.run([binary, "list"], timeout=20)
        for n in names.split():
            if any(n.startswith(f) for f in filters) and n not in res:
                r1, c1 = native.search(ctx, binary, ctx.seed, iters, secs, [n], 60)
                res.update({k: v for k, v in r1.items() if k == n})
                if c1 and n not in res:
                    res[n] = ("FAIL", "", "the run ended abnormally: " + c1)
        note = crash
    return binary, res, note


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    ctx = core.Ctx(prop, tier, seed)
    rep = Report(prop)
    try:
        with cf.ThreadPoolExecutor(16) as pool:
            futs = []
            if cfg.get("verus"):
                futs.append(pool.submit(verus.phase, ctx, cfg, rep))
            for phase in cfg.get("phases", []):
                futs.append(pool.submit(phase, ctx, cfg, rep))
            natives = kani_phase(ctx, cfg, rep, pool) if cfg.get("modules") else {}
            for f in futs:
                f.result()
            proof_failures(ctx, cfg, rep, natives)
    finally:
        if not os.environ.get("KEEP_SCRATCH"):
            ctx.cleanup()

    # known findings
    known = []
    kf = os.path.join(core.VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("{"):
                known.append(json.loads(line))
    real = []
    for key, info, suffix in rep.violations:
        k = next((k for k in known if k.get("property") == prop and k.get("harness") == key
                  and k.get("draws") == info.get("draws")), None)
        if not k:
            real.append((key, info, suffix))
    for k in known:
        if k.get("property") == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
    lines = []
    # inputs first
    real.sort(key=lambda v: v[2] != "")
    if any(not v[2] for v in real):
        real = [v for v in real if not v[2]]
    for key, info, suffix in real[:8]:
        path = os.path.join(core.VERIF, "replays", f"{prop}-{key}.json")
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}" + (f" {suffix}" if suffix else ""))

    level = cfg.get("level", "proof")
    cov = {
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "checker_cmd": f"python3 check.py {prop}",
        "trusted_base": cfg.get("trusted", []) + COMMON_TRUST + (VERUS_TRUST if cfg.get("verus") else []),
        "functions_under_contract": cfg.get("functions", []),
        "contracts": sorted(set(rep.functions)),
        "back_ends": rep.groups,
        "solver_seconds": round(rep.solver_s, 1),
        "undischarged": [{"obligation": n, "why": w[:300]} for n, w in rep.undecided],
        "bounded": cfg.get("bounded", []) + rep.bounded,
        "evaluations": rep.evaluations,
        "distinct_nontrivial": rep.distinct,
        "rule": "native runs of the same contracts: boundary-biased random inputs; "
                "distinct = distinct input tuples that satisfied the precondition and were evaluated",
        "notes": rep.notes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + COMMON_ASSUME,
          "wall_s": round(core.elapsed(), 1), "violations": len(real)}
    with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    ctx.log(f"{prop}: {rep.discharged}/{rep.obligations} obligations discharged, "
            f"{len(rep.undecided)} undecided, {rep.evaluations} native evaluations, "
            f"{len(real)} violations")
    for n, w in rep.undecided:
        ctx.log("undecided:", n, w[:200])
    if not rep.obligations and not rep.evaluations:
        print("nothing could be checked")
        sys.exit(2)
    for l in lines:
        print(l, flush=True)
    sys.exit(1 if lines else 0)


COMMON_TRUST = [
    "Kani 0.68 translation of MIR to CBMC, CBMC 6.11 and its SAT/SMT back end",
    "rustc (Kani's nightly front end; the build under test uses 1.90.0)",
    "the specification side of the contracts: harness/src/spec.rs",
]
VERUS_TRUST = [
    "Verus 0.2026.09.13 and its Z3, vstd",
    "the mechanical rewriting of the extracted functions (machinery/verus.py, rules R1-R13)",
    "the contracts marked [trusted] in verus/*.rs",
]
COMMON_ASSUME = [
    "target x86_64 (little endian, 64-bit)",
    "allocation never fails",
]

if __name__ == "__main__":
    main()
