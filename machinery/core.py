"""Shared plumbing: scratch directories, processes, deadlines, evidence."""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ETHNUM_REPO", "/repo")
START = time.time()

NATIVE_TOOLCHAIN = "1.90.0"


def elapsed():
    return time.time() - START


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.deadline = 820 if tier == "quick" else 3000
        self.scratch = os.path.join(VERIF, "build", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.log_lock = threading.Lock()

    def left(self):
        return self.deadline - elapsed()

    def log(self, *a):
        with self.log_lock:
            print(f"[{elapsed():6.1f}s]", *a, flush=True)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def run(cmd, cwd=None, env=None, timeout=None, out=None):
    """Runs a command in its own process group; returns (rc, output).
    rc is None when the time limit ended it."""
    e = dict(os.environ)
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    f = open(out, "w+b") if out else None
    p = subprocess.Popen(
        cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
        stdout=f or subprocess.PIPE, stderr=subprocess.STDOUT,
        start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
    finally:
        # solver children that outlived their parent
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    if f:
        f.seek(0)
        o = f.read()
        f.close()
    return rc, o.decode("utf8", "replace")
