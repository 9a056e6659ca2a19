#!/usr/bin/env python3
"""Decide one property:  check.py P08 [--tier quick|thorough] [--only NAME]

1. model checking: TLC explores the property's MC_* models (theorems of the
   specification, and generation of scenarios), see spec/;
2. execution: the driver runs the scenarios against /repo/src under PyPy and
   records arguments and results;
3. conformance: TLC validates every recorded execution against the
   specification, which names the clauses an execution violates;
4. self test: corrupted copies of accepted executions must be rejected.
Exit 0: held on everything explored (known findings are printed).
Exit 1: VIOLATION line, with a replay file.
"""
import argparse
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS                                        # noqa: E402

PYPY = "/opt/pypy-venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")
CLASSES = os.path.join(HERE, "build", "classes")
SPEC = os.path.join(HERE, "spec")
NSHARD = 6


def build():
    """Compile the arithmetic used by TLC (java/*.java) unless up to date."""
    src = sorted(glob.glob(os.path.join(HERE, "java", "*.java")))
    stamp = os.path.join(CLASSES, "Num.class")
    if os.path.exists(stamp) and all(
            os.path.getmtime(s) <= os.path.getmtime(stamp) for s in src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(CLASSES))
    subprocess.run(["javac", "-cp", JAR, "-d", tmp] + src, check=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(CLASSES, f))
    os.rmdir(tmp)


def tlc(module, cfg, env, work, workers=8, timeout=780, extra=()):
    meta = tempfile.mkdtemp(dir=work)
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g",
           "-Djava.io.tmpdir=" + work, "-cp", ":".join([CLASSES, JAR, DEPS]),
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf8", "replace"), -1
    m = re.findall(r"(\d+) states generated, (\d+) distinct states", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, gen, dist


VERDICT = re.compile(r'"@J (\S+) (\{.*\})"')


def judge(module, events, work, tag, timeout=780):
    """{event id: [failing clauses]}, states, transitions"""
    verdict, states, trans = {}, 0, 0
    todo = list(events)
    lanes = 16
    for attempt in range(8):
        if not todo:
            break
        path = os.path.join(work, "%s-%d.ndjson" % (tag, attempt))
        with open(path, "w") as fh:
            for ev in todo:
                fh.write(json.dumps(ev, sort_keys=True) + "\n")
        rc, out, gen, dist = tlc(module, module + ".cfg",
                                 {"VERIF_EVENTS": path, "VERIF_LANES": str(lanes)},
                                 work, workers=8 if lanes > 1 else 1, timeout=timeout)
        states += dist
        trans += gen
        if "Parsing or semantic analysis failed" in out:
            print("ERROR: specification %s does not parse\n%s" % (module, out[-1500:]))
            sys.exit(3)
        for line in out.splitlines():
            m = VERDICT.match(line)
            if m:
                verdict[m.group(1)] = re.findall(r'\\"([^"\\]*)\\"', m.group(2))
        todo = [ev for ev in todo if ev["id"] not in verdict]
        if os.environ.get("VERIF_DEBUG") and todo:
            sys.stderr.write(out[-3000:])
        if todo and lanes == 1:
            # the specification has no verdict for this result: it is outside
            # the type of the operation
            verdict[todo[0]["id"]] = ["unjudgeable-result"]
            todo = todo[1:]
        lanes = 1
    for ev in todo:
        verdict[ev["id"]] = ["unjudgeable-result"]
    return verdict, states, trans


def execute(prop, P, tier, seed, gen, work):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONPATH=os.path.join(REPO, "src"), VERIF_REPO=REPO,
               VERIF_WORK=work, MPLBACKEND="Agg")
    n = P.get("shards", NSHARD)
    limit = 700 if tier == "quick" else 6 * 3600

    def start(k):
        out = os.path.join(work, "ev-%d.ndjson" % k)
        err = open(os.path.join(work, "err-%d.txt" % k), "w")
        # in the scratch directory: nothing the library writes lands elsewhere
        d = os.path.join(work, "cwd-%d" % k)
        os.makedirs(d, exist_ok=True)
        return out, subprocess.Popen(
            [PYPY, "-W", "ignore", os.path.join(HERE, "driver", "run.py"), prop,
             P["driver"], tier, str(seed), str(k), str(n), gen, out],
            env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=err)

    def finish(k, out, p, t0):
        try:
            p.wait(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        evs, done = [], False
        if os.path.exists(out):
            for line in open(out):
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                if ev.get("done"):
                    done = True
                else:
                    evs.append(ev)
        return evs, done

    t0 = time.time()
    procs = [start(k) for k in range(n)]
    res = [finish(k, out, p, t0) for k, (out, p) in enumerate(procs)]
    events = []
    for k, (evs, done) in enumerate(res):
        if not done:
            out, p = start(k)
            evs, done = finish(k, out, p, t0)
        if not done:
            err = open(os.path.join(work, "err-%d.txt" % k)).read()[-1500:]
            evs.append(dict(id="%s-shard%d" % (prop, k), kind="died", note=err))
        events += evs
    return events


# --------------------------------------------------------- self test -------
def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path, x


def setpath(x, path, v):
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v


def spoil(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1]) if v not in (0, 1) else 1 - v
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError:
            return v + "~"
        if f != f or f in (float("inf"), float("-inf")):
            return "0.5"
        return repr(f * 1.02 + 0.013)
    return v


def corrupted(ev, rng, P):
    """A copy of an accepted event with one observed result changed."""
    c = json.loads(json.dumps(ev))
    keys = P.get("observed", ["out"])
    ls = [(("%s" % k,) + p, v) for k in keys if k in c for p, v in leaves(c[k])]
    skip = P.get("unobserved", ())
    ls = [(p, v) for p, v in ls if not any(q in skip for q in p)]
    if not ls:
        return None
    p, v = rng.choice(ls)
    setpath(c, p, spoil(v, rng))
    c["id"] = ev["id"] + "~" + "/".join(str(q) for q in p)
    c["id"] = re.sub(r"\s", "_", c["id"])
    return c


# ------------------------------------------------------ known findings -----
def known_findings():
    out = {}
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) clause=(\S+) (.*)", line)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    prop, tier = a.prop, "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    build()
    if a.only:
        os.environ["VERIF_ONLY"] = a.only
    base = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = decide(prop, P, tier, seed, base, t0, a.only)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return rc


def decide(prop, P, tier, seed, work, t0, only):
    states = trans = 0
    mcs, broken = [], []
    gen = os.path.join(work, "gen.ndjson")
    open(gen, "w").close()
    for mc in P.get("mc", []):
        cfg = mc["cfg"][1 if tier == "thorough" else 0] if isinstance(mc["cfg"], list) \
            else mc["cfg"]
        rc, out, g, d = tlc(mc["module"], cfg, {"VERIF_GEN": gen}, work,
                            workers=mc.get("workers", 8),
                            timeout=300 if tier == "quick" else 7200,
                            extra=mc.get("extra", ()))
        ok = rc == 0 and "No error has been found" in out
        mcs.append(dict(module=mc["module"], config=cfg, states=d, transitions=g,
                        what=mc["what"], ok=ok))
        states += d
        trans += g
        with open(gen, "a") as fh:
            found = {m for m in re.findall(r'^"@G (.*)"$', out, re.M)}
            for m in sorted(found):
                fh.write('{"mc": "%s", "g": %s}\n' % (mc["module"], json.loads('"%s"' % m)))
        mcs[-1]["scenarios"] = len(found)
        if not ok:
            broken.append(mc["module"])
            sys.stderr.write(out[-4000:])
    if broken:
        # the specification itself is at fault, nothing is known of the code
        print("ERROR: specification models failed: %s" % broken)
        return 3

    events = execute(prop, P, tier, seed, gen, work)
    good = [e for e in events if e.get("kind") not in ("late", "crash", "died")]
    verdict = {e["id"]: [{"late": "no-result-in-time", "crash": "unusable-result",
                          "died": "process-died"}[e["kind"]]]
               for e in events if e.get("kind") in ("late", "crash", "died")}
    v, d, g = judge(P["judge"], good, work, "run",
                    timeout=780 if tier == "quick" else 4 * 3600)
    verdict.update(v)
    notes = {}          # clauses "~...": nothing is wrong, something was not compared
    for i in verdict:
        for c in verdict[i]:
            if c.startswith("~"):
                notes[c[1:]] = notes.get(c[1:], 0) + 1
    noted = {i for i in verdict if any(c.startswith("~") for c in verdict[i])}
    verdict = {i: [c for c in cl if not c.startswith("~")] for i, cl in verdict.items()}
    states += d
    trans += g

    # corrupted copies
    rng = random.Random(seed)
    clean = [e for e in good if not verdict[e["id"]] and e["id"] not in noted and not e.get("err")]
    rng.shuffle(clean)
    planted = []
    for e in clean:
        if len(planted) >= P.get("corrupt", 12):
            break
        c = corrupted(e, rng, P)
        if c:
            planted.append(c)
    cv, cd, cg = judge(P["judge"], planted, work, "cor", timeout=300) if planted else ({}, 0, 0)
    states += cd
    trans += cg
    rejected = sum(1 for c in planted if cv.get(c["id"]))
    missed = [c["id"] for c in planted if not cv.get(c["id"])]

    kf = known_findings()
    by = {e["id"]: e for e in events}
    seen, bad = {}, []
    for i, cl in verdict.items():
        new = []
        for c in cl:
            if (prop, c) in kf:
                seen[c] = seen.get(c, 0) + 1
            else:
                new.append(c)
        if new:
            bad.append((i, new))
    for c in sorted(seen):
        print("KNOWN-FINDING: property=%s %s: %s (%d executions)" % (
            prop, c, kf[(prop, c)], seen[c]))

    shapes = {json.dumps({k: x for k, x in e.items() if k not in ("id", "out")},
                         sort_keys=True) for e in good}
    samples = []
    for e in sorted(good, key=lambda e: len(json.dumps(e)))[:: max(1, len(good) // 3)][:3]:
        samples.append(json.dumps(e)[:3000])
    trivial = P.get("trivial")
    ntriv = sum(1 for e in good if not (trivial and trivial(e)))
    cov = dict(states=states, transitions=trans,
               traces_validated_against_impl=len(good), samples=samples,
               distinct_executions=len(shapes), nontrivial_executions=ntriv,
               rule=P["rule"], models=mcs,
               self_test=dict(corrupted_executions=len(planted), rejected=rejected,
                              missed=missed),
               events_by_kind=_tally(good), not_compared=notes, known_findings=seen,
               generated_by_tlc=sum(1 for e in good if e.get("src") == "tlc"))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=cov, assumptions=P.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    if not only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    if os.environ.get("VERIF_DEBUG"):
        tally = {}
        for i, cl in bad:
            for c in cl:
                tally.setdefault(c, []).append(i)
        for c in sorted(tally):
            sys.stderr.write("%5d %s %s\n" % (len(tally[c]), c, tally[c][:6]))
    if missed and not bad:
        print("NOTE: %d corrupted executions were accepted: %s" % (len(missed), missed[:5]))
    if bad:
        bad.sort()
        i, cl = bad[0]
        path = os.path.join(HERE, "evidence", "replay", "%s-%s.json" % (
            prop, re.sub(r"[^A-Za-z0-9._-]", "_", i)[:60]))
        name = i.split(".")[0]
        with open(path, "w") as fh:
            json.dump(dict(property=prop, event=by.get(i), failing_clauses=cl,
                           tier=tier, seed=seed,
                           all_violations=[dict(id=x, clauses=y) for x, y in bad[:50]],
                           rerun="cd %s && VERIF_SEED=%d python3 check.py %s --tier %s --only %s"
                                 % (HERE, seed, prop, tier, name)), fh, indent=1)
        for x, y in bad[:10]:
            print("  %s violates %s" % (x, ", ".join(y)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s tier=%s executions=%d states=%d transitions=%d "
          "self-test=%d/%d wall=%.1fs" % (prop, tier, len(good), states, trans,
                                          rejected, len(planted), time.time() - t0))
    return 0


def _tally(events):
    t = {}
    for e in events:
        k = e.get("route") or e.get("kind") or "event"
        m = e.get("M", {}).get("type") if isinstance(e.get("M"), dict) else None
        k = "%s/%s" % (k, m) if m else k
        t[k] = t.get(k, 0) + 1
    return t


if __name__ == "__main__":
    if sys.argv[1:2] == ["--setup"]:
        build()
        sys.exit(0)
    sys.exit(main())
