"""Kani: discharge the harness contracts on /repo's current source."""
import json
import os
import re

from core import VERIF, run

HARNESS = os.path.join(VERIF, "harness")
# A failed check of one of these kinds says that Kani could not decide, not
# that the contract is broken.
UNDECIDED_CATEGORIES = {"unwind", "unsupported_construct", "reachability_check",
                        "recursion"}


def short_name(hid):
    """`c05::i8::c05_x` is registered natively as `c05_x_i8`; the modules `k`
    and `digits` are the verified variants of native contracts of the same name."""
    parts = hid.split("::")
    return "_".join([parts[-1]] + [p for p in parts[1:-1] if p not in ("k", "digits")])


def env(config):
    return {
        "RUSTUP_TOOLCHAIN": None,
        "CARGO_NET_OFFLINE": "true",
        "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "true" if config == "debug" else "false",
        "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "true" if config == "debug" else "false",
    }


def base_cmd(features):
    c = ["cargo", "kani", "-Z", "unstable-options", "-Z", "stubbing", "--lib",
         "--no-assertion-reach-checks"]
    if features:
        c += ["--features", ",".join(features)]
    return c


class Result:
    """Outcome of one harness in one configuration."""

    def __init__(self, name, config):
        self.name = name
        self.config = config
        self.status = "undecided"   # proved | failed | undecided
        self.reason = ""
        self.failed = []            # failed checks
        self.total = 0
        self.passed = 0
        self.time = 0.0
        self.solver = ""
        self.solver_s = 0.0
        self.draws = None


def run_config(ctx, config, filters, features, jobs, harness_timeout, timeout):
    """Returns (dict name -> Result, build_ok, log)."""
    tdir = os.path.join(ctx.scratch, f"kani-{config}")
    out = os.path.join(ctx.scratch, f"kani-{config}-{'_'.join(filters)}.json")
    cmd = base_cmd(features) + ["-j", str(jobs), "--output-format", "terse",
                                "--harness-timeout", f"{int(harness_timeout)}s",
                                "--export-json", out]
    for f in filters:
        cmd += ["--harness", f]
    e = env(config)
    e["CARGO_TARGET_DIR"] = tdir
    rc, log = run(cmd, cwd=HARNESS, env=e, timeout=timeout)
    with open(out + ".log", "w") as f:
        f.write(log)
    res = {}
    started = re.findall(r"Checking harness (\S+?)\.\.\.", log)
    for n in started:
        short = short_name(n)
        res[short] = Result(short, config)
        res[short].hid = n
        res[short].reason = "no answer within the time limit"
    build_ok = bool(started) or "No proof harnesses" in log
    try:
        d = json.load(open(out))
    except (OSError, ValueError):
        d = None
    if d:
        panicky = {h["pretty_name"]: h["attributes"]["should_panic"]
                   for h in d["harness_metadata"]}
        stats = {c["harness_id"]: c for c in d["cbmc"]}
        for r in d["verification_results"]["results"]:
            hid = r["harness_id"]
            short = short_name(hid)
            x = res.setdefault(short, Result(short, config))
            x.hid = hid
            x.time = r.get("duration_ms", 0) / 1000
            checks = r.get("checks") or []
            st = stats.get(hid) or {}
            x.solver = ((st.get("configuration") or {}).get("solver")) or ""
            x.solver_s = ((st.get("cbmc_stats") or {}).get("runtime_decision_procedure_s")) or 0.0
            bad = [c for c in checks if c.get("status") == "Failure"]
            x.total = len(checks)
            x.passed = len([c for c in checks if c.get("status") in ("Success", "Unreachable", "Satisfied")])
            x.panics = panicky.get(hid, False)
            if r["status"] == "Success":
                x.status = "proved"
                x.reason = ""
                if x.panics:
                    x.passed = x.total  # the expected panics
                continue
            # STUB-MISS: a callee contract was asked for something it does not
            # decide
            miss = [c for c in bad if "STUB-MISS" in (c.get("description") or "")]
            hard = [c for c in bad if c.get("category") not in UNDECIDED_CATEGORIES and c not in miss]
            soft = [c for c in bad if c.get("category") in UNDECIDED_CATEGORIES] + miss
            if x.panics:
                # either it did not panic, or something other than a panic failed
                other = [c for c in hard if c.get("category") != "assertion"]
                if checks and not soft and (other or not hard):
                    x.status = "failed"
                    x.failed = other or [{"description": "the call is required to panic", "location": {}}]
                else:
                    x.reason = "undecided: " + (soft[0]["description"] if soft else "no answer")
            elif hard and not soft:
                x.status = "failed"
                x.failed = hard
            elif hard:
                # a failed obligation next to an unwinding/unsupported failure:
                # candidate only
                x.status = "undecided"
                x.failed = hard
                x.reason = "undecided: " + soft[0]["description"]
            else:
                x.reason = ("undecided: " + soft[0]["description"]) if soft else "no answer (time limit or solver)"
    return res, build_ok, log


def counterexample(ctx, config, hid, features, timeout):
    """Draws of the verifier's counterexample, or None."""
    cmd = base_cmd(features) + ["-Z", "concrete-playback", "--concrete-playback=print",
                                "--output-format", "terse", "--exact", "--harness", hid]
    e = env(config)
    e["CARGO_TARGET_DIR"] = os.path.join(ctx.scratch, f"kani-{config}")
    rc, log = run(cmd, cwd=HARNESS, env=e, timeout=timeout)
    out = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", log, re.S):
        vals = [[int(b) for b in v.split(",") if b.strip()] for v in re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))]
        d = [hex(int.from_bytes(bytes(v), "little")) for v in vals]
        if d not in out:
            out.append(d)
    return out, log
