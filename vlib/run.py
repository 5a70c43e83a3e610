"""Deciding one property: build, record, validate, model-check, report."""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build, tlc
from .checks import CHECKS

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings():
    """property -> {id: text} for the entries that are still open."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                kv, text = line[len("finding: "):].split(" :: ", 1)
                d = dict(x.split("=", 1) for x in kv.split())
                res.setdefault(d["property"], {})[d["id"]] = text
    return res


class Ctx:
    def __init__(self, prop, tier, seed, keep=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.models = [], [], []
        self.findings = set()
        self.keep = keep

    def env(self):
        e = dict(os.environ)
        e.update(VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        return e


def record(ctx, job, exe, n):
    """Run a harness; returns the trace file."""
    trace = os.path.join(ctx.tmp, "trace-%s.ndjson" % n)
    env = ctx.env()
    env.update(OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0")      # waiting workers shall not use up the time limit
    env.update(job.get("env", {}))
    # a trace may need the output of a specification run first
    args = [trace] + [a.replace("@TMP", ctx.tmp) for a in job.get("args", [])]
    san = any("sanitize" in f for f in job["_flags"])

    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not san:
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    for attempt in (1, 2):
        work = tempfile.mkdtemp(prefix="h-", dir=ctx.tmp)
        with open(os.path.join(ctx.tmp, "stdout-%s" % n), "wb") as so:
            try:
                p = subprocess.run([exe] + args, env=env, cwd=work, stdout=so, stderr=subprocess.PIPE,
                                   preexec_fn=limits, timeout=job.get("timeout", 300 if ctx.tier == "quick" else 3000))
            except subprocess.TimeoutExpired as x:
                # many times the usual duration: the code under test does not come back
                shutil.rmtree(work, ignore_errors=True)
                with open(trace, "ab") as f:
                    f.write(b'\n{"op":"NeverReturned"}\n')
                job["_stderr"] = (x.stderr or b"").decode(errors="replace")[-3000:]
                return trace
        shutil.rmtree(work, ignore_errors=True)
        if p.returncode == 0:
            return trace
    if p.returncode < 0 or san:
        # ended twice without reporting by itself: an abnormal end no action accepts
        with open(trace, "ab") as f:
            f.write(b'\n{"op":"AbnormalEnd"}\n')
        job["_stderr"] = p.stderr.decode(errors="replace")[-3000:]
        return trace
    raise RuntimeError("harness %s exited %d: %s" % (exe, p.returncode, p.stderr.decode(errors="replace")[-2000:]))


def read_events(trace):
    with open(trace) as f:
        return [x for x in f.read().split("\n") if x.strip()]


def validate(ctx, job, trace, n):
    ev = read_events(trace)
    with open(trace, "w") as f:
        f.write("\n".join(ev) + "\n")
    env = {"TRACE": trace, "KF": ",".join(sorted(known_findings().get(ctx.prop, {}))), "VERIF_TIER": ctx.tier}
    r = tlc.run(job["spec"], cfg=job.get("cfg"), env=env, timeout=job.get("tlc_timeout", 800), workers=job.get("workers", 8), heap=job.get("heap", "8g"))
    ctx.events += len(ev)
    ctx.states += r.distinct
    ctx.transitions += max(0, r.generated - r.initial)
    ctx.findings |= set(r.findings)
    segs = sum(1 for x in ev if '"op":"Begin"' in x[:24])
    if r.ok:
        if r.initial != segs:
            raise RuntimeError("TLC started %d of %d segments" % (r.initial, segs))
        ctx.traces += segs
        for x in (ev[1:2] + ev[len(ev) // 2:len(ev) // 2 + 1]):
            ctx.samples.append({"job": job["name"], "event": x[:400]})
        return
    # a recorded value outside the domain of the specification's operators is refused, too
    undefined = r.kind == "error" and "behavior up to this point" in r.out and "OutOfMemory" not in r.out and "StackOverflow" not in r.out
    if (r.kind in ("deadlock", "invariant") or undefined) and "st" in r.last:
        st, l = r.last["st"], r.last["l"]
        seg = ev[st - 1:l + 1]
        rej = ev[l] if l < len(ev) else ""
        path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (ctx.prop, n))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "job": job["name"], "tier": ctx.tier, "seed": ctx.seed,
                       "spec": job["spec"], "kind": r.kind, "detail": r.detail, "rejected_event": rej,
                       "stderr": job.get("_stderr", ""), "segment": seg,
                       "how": "bin/check %s --tier %s --seed %d re-records this history from the code under "
                              "test; the specification refuses the last event" % (ctx.prop, ctx.tier, ctx.seed)}, f, indent=1)
        print("%s: %s: the specification refuses event %d (segment at %d): %s" % (ctx.prop, job["name"], l + 1, st, rej[:600]))
        ctx.violations.append(path)
        return
    raise RuntimeError("TLC on %s failed: %s" % (job["spec"], r.detail))


ABNORMAL = ("Crash", "Hang", "Abnormal", "NeverReturned", "Uncaught", "DataRace", "WorkersStuck", "MixedAdditionOf", "ZeroInNonzero")


def same(ctx, job, exes, n):
    """The events of one recording by several builds, in groups of values for ConfMachine."""
    G = job.get("group", 20)
    segs, raw = [], []
    for i, exe in enumerate(exes):
        j = dict(job, env=dict(job.get("env", {}), **job["configs"][i][1].get("_env", {})))
        ev = [x for x in read_events(record(ctx, dict(j, _flags=job["_flags"][i]), exe, "%s-%d" % (n, i)))
              if not x[7:].startswith(tuple(o + '"' for o in job.get("skip", ())))]
        ev = [x.replace(',"mont":false', ',"mont":true') if x.startswith('{"op":"Begin"') else x for x in ev]
        raw.append(ev)
        segs.append('{"op":"build","b":%d,"name":%s}' % (i + 1, json.dumps(job["configs"][i][0])))
        for k in range(0, len(ev), G):
            part = ev[k:k + G]
            h = hashlib.sha256("\n".join(part).encode()).digest()
            bad = sum(1 for x in part if x.startswith('{"op":"') and x[7:].startswith(ABNORMAL))
            segs.append('{"op":"steps","bad":%d,"v":%s}' % (bad, json.dumps([int.from_bytes(h[o:o + 3], "big") for o in range(0, 15, 3)])))
        segs.append('{"op":"endbuild"}')
    trace = os.path.join(ctx.tmp, "trace-%s.ndjson" % n)
    with open(trace, "w") as f:
        f.write("\n".join(['{"op":"Begin"}'] + segs) + "\n")
    # for the report: where the builds part
    diff = []
    for i, ev in enumerate(raw[1:], 1):
        for k in range(max(len(ev), len(raw[0]))):
            a = raw[0][k] if k < len(raw[0]) else None
            b = ev[k] if k < len(ev) else None
            if a != b:
                diff.append({"build": job["configs"][i][0], "event": k + 1, "reference": (a or "")[:3000], "this": (b or "")[:3000]})
                break
    job["_stderr"] = diff
    ctx.events += sum(map(len, raw))
    return trace


def model(ctx, job):
    extra = list(job.get("extra", ()))
    if job.get("simulate"):
        num = job["simulate"] * (job.get("deeper", 10) if ctx.tier == "thorough" else 1)
        extra += ["-simulate", "num=%d" % num, "-depth", str(job["depth"]), "-seed", str(ctx.seed)]
    r = tlc.run(job["spec"], cfg=job.get("cfg"), env={"OUT": ctx.tmp, "VERIF_TIER": ctx.tier, "VERIF_SEED": str(ctx.seed)},
                workers=1 if job.get("simulate") else job.get("workers", 4), heap=job.get("heap", "4g"), deadlock=job.get("deadlock", True),
                extra=extra, timeout=job.get("tlc_timeout", 800))
    if job.get("refuted"):
        # a deliberately wrong variant: the specification has to notice
        if r.kind != job["refuted"]:
            raise RuntimeError("model %s/%s should be refuted: %s" % (job["spec"], job.get("cfg"), r.kind))
        ctx.models.append({"model": job["cfg"], "refuted_as_expected": r.kind})
        return
    if not r.ok:
        raise RuntimeError("model %s/%s: %s %s\n%s" % (job["spec"], job.get("cfg"), r.kind, r.detail, r.out[-3000:]))
    ctx.states += r.distinct
    ctx.transitions += max(0, r.generated - r.initial)
    ctx.models.append({"model": job.get("cfg") or job["spec"], "distinct_states": r.distinct, "states_generated": r.generated})
    if job.get("collect"):
        # behaviours printed by the specification, one JSON text per line
        rows = list(dict.fromkeys(json.loads(x)[2:] for x in r.out.split("\n") if x.startswith('"@@')))
        if not rows:
            raise RuntimeError("model %s produced no behaviours" % job["spec"])
        with open(os.path.join(ctx.tmp, job["collect"]), "w") as f:
            f.write("\n".join(rows) + "\n")
        ctx.models[-1]["behaviours_generated"] = len(rows)


def decide(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
        for i, j in enumerate(jobs):
            j.setdefault("name", (j.get("harness") or j.get("cfg") or j["spec"]))
        build.java_overrides()
        traces = [j for j in jobs if j["kind"] in ("trace", "same")]
        models = [j for j in jobs if j["kind"] == "model"]
        reqs, owner = [], []
        for j in traces:
            c = dict(j.get("config", {}))
            cxx = c.pop("_compiler", "g++")
            j["_flags"] = build.config(**c)
            srcs = [(j["harness"] + ".cpp", x) for x in j.get("parts", [()])]
            srcs += [(s, ()) for s in j.get("with", [])]
            if j["kind"] == "same":
                j["_flags"] = [build.config(**{k: v for k, v in c.items() if k != "_env"}) for _, c in j["configs"]]
                for fl in j["_flags"]:
                    reqs.append((j["harness"], srcs, fl, cxx))
                    owner.append(j)
                continue
            reqs.append((j["harness"], srcs, j["_flags"], cxx))
            owner.append(j)
        with cf.ThreadPoolExecutor(3) as ex:
            fm = [ex.submit(model, ctx, j) for j in models]
            exes = build.build_many(reqs) if reqs else []
            t_build = time.time() - t0
            for f in fm:
                f.result()

        # recording is cheap and single-threaded: overlap it with validation
        with cf.ThreadPoolExecutor(spec.get("parallel", 4)) as ex:
            mine = [[x for x, o in zip(exes, owner) if o is j] for j in traces]
            recs = [ex.submit(same, ctx, j, x, n) if j["kind"] == "same" else ex.submit(record, ctx, j, x[0], n) for n, (j, x) in enumerate(zip(traces, mine))]
            with cf.ThreadPoolExecutor(spec.get("tlc_parallel", 2)) as ex2:
                vals = [ex2.submit(lambda j, f, n: validate(ctx, j, f.result(), n), j, f, n)
                        for n, (j, f) in enumerate(zip(traces, recs))]
                for v in vals:
                    v.result()
        listed = known_findings().get(prop, {})
        for fid in sorted(ctx.findings):
            if fid in listed:
                print("KNOWN-FINDING: property=%s %s" % (prop, listed[fid]))
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.tmp)
        else:
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    level = spec.get("level", "model_checking")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "events_validated": ctx.events,
            "models": ctx.models,
            "samples": ctx.samples[:8] or [{"model": m} for m in ctx.models[:2]],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in ctx.violations:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if not ctx.violations:
        print("%s: held on %d recorded histories (%d events), %d states, %d transitions, %.1f s (%.1f s building)"
              % (prop, ctx.traces, ctx.events, ctx.states, ctx.transitions, time.time() - t0, t_build))
    return 1 if ctx.violations else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args(argv)
    try:
        return decide(a.property, a.tier, a.seed)
    except Exception as x:
        if not isinstance(x, (build.BuildError, RuntimeError)):
            traceback.print_exc(limit=4)
        print("CHECK-ERROR property=%s %s" % (a.property, str(x)[-2500:]))
        return 2
