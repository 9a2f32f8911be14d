"""The same contracts run natively: vacuity guard, search, replay."""
import os
import re

from core import VERIF, NATIVE_TOOLCHAIN, run

HARNESS = os.path.join(VERIF, "harness")


def env(ctx):
    return {
        "RUSTUP_TOOLCHAIN": NATIVE_TOOLCHAIN,
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TARGET_DIR": os.path.join(ctx.scratch, "native"),
    }


def build(ctx, config, features, timeout=400):
    cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "native"]
    if features:
        cmd += ["--features", ",".join(features)]
    if config == "release":
        cmd.append("--release")
    rc, log = run(cmd, cwd=HARNESS, env=env(ctx), timeout=timeout)
    path = os.path.join(ctx.scratch, "native", config, "native")
    return (path if rc == 0 and os.path.exists(path) else None), log


LINE = re.compile(r"^(\S+) (ok|FAIL)(.*)$", re.M)


def search(ctx, binary, seed, iters, secs, filters, timeout):
    """dict name -> ("ok", evaluations, discarded, distinct) | ("FAIL", draws, msg)"""
    rc, log = run([binary, "run", str(seed), str(iters), str(secs)] + filters, timeout=timeout)
    res = {}
    for m in LINE.finditer(log):
        n, k, rest = m.groups()
        if k == "ok":
            v = [int(x) for x in rest.split()]
            res[n] = ("ok", v[0], v[1], v[2] if len(v) > 2 else 0)
        else:
            mm = re.match(r" draws=(\S*) ?(.*)", rest)
            res[n] = ("FAIL", mm.group(1), mm.group(2))
    crash = None
    if rc not in (0, 1, None):
        crash = f"exit status {rc}: {log[-400:]}"
    return res, crash


def replay(binary, name, draws, timeout=60):
    """True when the recorded input breaks the contract on the real code."""
    rc, log = run([binary, "replay", name] + list(draws), timeout=timeout)
    if rc == 1 and f"{name} FAIL" in log:
        return True, log.strip()
    if rc is not None and rc < 0:
        return True, f"killed by signal {-rc}"
    return False, log.strip()
