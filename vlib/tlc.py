"""Running TLC and reading its verdict."""
import os
import re
import shutil
import subprocess
import tempfile

from . import build

SPEC = os.path.join(build.VERIF, "spec")


class Result:
    ok = False
    kind = "error"        # ok | deadlock | invariant | property | error
    generated = distinct = 0
    initial = 0
    def __init__(self):
        self.last = {}

    detail = ""
    findings = ()
    out = ""


def run(spec, cfg=None, env=None, workers=8, heap="6g", timeout=800, deadlock=True, extra=()):
    cls = build.java_overrides()
    meta = tempfile.mkdtemp(prefix="tlc-", dir=os.environ.get("TMPDIR", "/tmp"))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m",
           "-cp", cls + ":" + build.JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", (cfg or spec) + ".cfg"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [spec + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    r = Result()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out = p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.out = out
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        r.generated, r.distinct = map(int, m[-1])
    m = re.findall(r"Finished computing initial states: (\d+) (?:distinct )?states? generated", out)
    if m:
        r.initial = int(m[-1])
    r.findings = tuple(sorted(set(re.findall(r'<<"KF", "([^"]+)">>', out))))
    if "Deadlock reached" in out:
        r.kind = "deadlock"
    elif re.search(r"Invariant (\S+) is violated", out):
        r.kind, r.detail = "invariant", re.search(r"Invariant (\S+) is violated", out).group(1)
    elif "Temporal properties were violated" in out or "Action property" in out:
        r.kind = "property"
    elif "Model checking completed. No error has been found" in out:
        r.kind, r.ok = "ok", True
    elif "-simulate" in extra and "traces generated" in out and "Error" not in out and "violated" not in out:
        r.kind, r.ok = "ok", True
    else:
        r.kind = "error"
        i = out.find("Error:")
        r.detail = out[i:i + 1500] if i >= 0 else out[-1500:]
    for k in ("l", "st"):
        m = re.findall(r"^/?\\?\s*(?:/\\ )?%s = (\d+)$" % k, out, re.M)
        if m:
            r.last[k] = int(m[-1])
    return r
