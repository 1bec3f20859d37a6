#!/usr/bin/env python3
"""Runs the checks.

  run.py setup
  run.py check Cxx [--tier quick|thorough] [--shards N]
  run.py replay PATH

A check runs, per property: the model-checking configurations of its
specification; the generation of behaviours from the specification; the
driver, which steps the real code and records traces; and TLC on the trace
specification, which decides whether every recorded step is a transition of
the specification.  Exit 0: held; 1: violated (VIOLATION line); other: the
machinery failed.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys
import tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
DRV = os.path.join(HERE, "drv")
JYTHON = "/usr/bin/jython"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland"]
sys.path.insert(0, HERE)
from checks import CHECKS            # noqa: E402


class Machinery(Exception):
    pass


def tlc(module, cfg, workdir, env=None, workers=1, mem="1500m", timeout=800,
        extra=(), coverage=False, jit=1):
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    cmd = ["java", "-Xmx" + mem, "-Xss64m",
           "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=%d" % jit, "-Djava.io.tmpdir=" + meta, "-cp", TLAJAR, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg), "-noGenerateSpecTE"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on %s" % module)
    out = p.stdout.decode("utf-8", "replace")
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
    st = tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return p.returncode, out, st


# ---------------------------------------------------------------- traces
def drive(prop, seed, tier, shard, nshards, workdir, behaviours):
    out = os.path.join(workdir, "trace%d.ndjson" % shard)
    scratch = os.path.join(workdir, "scratch%d" % shard)
    os.mkdir(scratch)
    # the place the computer stands at is none of the library's business
    zone = ZONES[(seed + shard) % len(ZONES)]
    env = dict(os.environ, VERIF_REPO=REPO, TZ=zone, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    for v in ("PYTHONPATH", "CLASSPATH", "JYTHONPATH", "JAVA_TOOL_OPTIONS"):
        env.pop(v, None)
    home = os.path.dirname(os.path.dirname(os.path.realpath(JYTHON)))
    cmd = ["java", "-Xmx1500m", "-Xss16m", "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=%d" % (1 if tier == "quick" else 4),
           "-Djava.io.tmpdir=" + scratch, "-Duser.timezone=" + zone, "-jar", "/usr/share/java/jython.jar",
           "-Dpython.home=" + home, "-Dpython.executable=" + JYTHON,
           "-B", "-Dpython.cachedir.skip=true", os.path.join(DRV, "main.py"), prop, str(seed),
           tier, str(shard), str(nshards), out, scratch, behaviours or "-"]
    p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=850)
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode not in (0, 3):
        raise Machinery("driver failed (%d): %s" % (p.returncode, err[-3000:]))
    return out


FAIL = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)
DONE = re.compile(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>')
LINE = re.compile(r"^\s*(?:/\\ )?l = (\d+)\s*$", re.M)


PIECE = 4000000


def validate(prop, trace, workdir, mem="2200m"):
    """list of (line number, [clauses]), (states, distinct)"""
    n = 0
    special = []
    with open(trace, "rb") as f:
        for n, line in enumerate(f, 1):
            if line.startswith(b'{"exc":') and b'"op":"import"' in line:
                special.append((n, ["import"]))
            elif line.startswith(b'{"op":"timeout"'):
                special.append((n, ["does-not-terminate"]))
            elif b'"op":"crash"' in line:
                special.append((n, ["driver-exception"]))
    if special:
        return special, (0, 0), n
    if n == 0:
        return [], (0, 0), 0
    rc, out, st = tlc(prop, "Trace.cfg", workdir, env={"TRACE": trace}, mem=mem)
    fails = [(int(a), [c.strip().strip('"') for c in b.split(",")]) for a, b in FAIL.findall(out)]
    d = DONE.findall(out)
    if d and int(d[-1][0]) == n and int(d[-1][1]) == n and rc == 0:
        return fails, st, n
    # the specification could not even evaluate an event: not a behaviour
    if "Error: " in out and "OutOfMemory" not in out and "StackOverflow" not in out \
            and "Parsing or semantic analysis failed" not in out and "deserializ" not in out:
        ls = LINE.findall(out)
        at = int(ls[-1]) if ls else None
        if at is not None and 1 <= at <= n:
            print("  " + out[out.find("Error: "):][:300].split("Error: The behavior")[0])
            return fails + [(at, ["unexplainable"])], st, n
    k = max(out.find("Error: "), 0)
    raise Machinery("TLC failed on %s (%s): rc=%d\n%s\n...\n%s" % (
        prop, trace, rc, out[k:k + 1500], out[-300:]))


def validated(prop, trace, workdir, keep):
    """validate, a long trace in pieces that each begin where every session is new: TLC holds a whole
    piece in memory"""
    if not CHECKS[prop].get("split") or os.path.getsize(trace) < PIECE:
        return validate(prop, trace, workdir)
    rx = re.compile(rb'"op":"([A-Za-z0-9_-]+)"')
    fails, states, distinct, total = [], 0, 0, 0
    piece = trace + ".piece"

    def done(lines):
        with open(piece, "wb") as g:
            g.writelines(lines)
        return validate(prop, piece, workdir)

    lines, size, last = [], 0, True
    with open(trace, "rb") as f:
        for line in f:
            op = rx.findall(line)[-1].decode()
            if op in keep and not last and size >= PIECE:
                fl, st, n = done(lines)
                fails += [(total + a, b) for a, b in fl]
                states, distinct, total = states + st[0], distinct + st[1], total + n
                lines, size = [], 0
            last = op in keep
            lines.append(line)
            size += len(line)
    fl, st, n = done(lines)
    fails += [(total + a, b) for a, b in fl]
    os.unlink(piece)
    return fails, (states + st[0], distinct + st[1]), total + n


def pipeline(prop, seed, tier, shard, nshards, workdir, behaviours, keep):
    t0 = time.time()
    trace = drive(prop, seed, tier, shard, nshards, workdir, behaviours)
    t1 = time.time()
    fails, st, n = validated(prop, trace, workdir, keep)
    t2 = time.time()
    ops = {}
    sessions = 0
    bad = []
    want = {}
    for ln, cl in fails:
        want.setdefault(ln, []).extend(cl)
    session = []
    rx = re.compile(rb'"op":"([A-Za-z0-9_-]+)"')
    with open(trace, "rb") as f:
        for ln, line in enumerate(f, 1):
            op = rx.findall(line)[-1].decode()
            ops[op] = ops.get(op, 0) + 1
            if op in keep or op == "new":
                session = []
                sessions += 1
            session.append(line.decode())
            if len(session) > 400:
                session = session[-400:]
            if ln in want and len(bad) < 2000:
                bad.append({"shard": shard, "line": ln, "clauses": sorted(set(want[ln])),
                            "event": line.decode().strip()[:20000],
                            "session": [s.strip()[:4000] for s in session[-40:]]
                            if len(session) > 1 and len(bad) < 20 else []})
    os.unlink(trace)
    return {"fails": bad, "states": st, "events": n, "ops": ops, "sessions": sessions,
            "t": (t1 - t0, t2 - t1)}


# ---------------------------------------------------------------- findings
def known():
    """[(property, match)] from KNOWN_FINDINGS: lines 'finding: {json}'"""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                out.append(json.loads(line[len("finding:"):]))
    return out


def matches(fnd, prop, rec):
    if fnd["property"] != prop or set(rec["clauses"]) - set(fnd["clauses"]):
        return False
    ev = json.loads(rec["event"])
    return all(ev.get(k) == v for k, v in fnd["match"].items())


# ---------------------------------------------------------------- check
def check(prop, tier, seed, shards):
    c = CHECKS[prop]
    # (long traces take TLC more than their share of time)
    shards = shards or c.get("shards", {}).get(tier, 6)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        return run_check(prop, c, tier, seed, shards, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_check(prop, c, tier, seed, shards, work, t0):
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking"}
    cov = {"states": 0, "transitions": 0}
    models = []
    # 1. behaviours generated from the specification
    beh = None
    gen = c.get("gen")
    if gen:
        beh = os.path.join(work, "behaviours.ndjson")
        nbeh = 0
        with open(beh, "w") as f:
            for g in gen:
                opts = g.get(tier, g.get("quick", {}))
                extra = list(opts.get("extra", ()))
                if opts.get("simulate"):
                    extra += ["-simulate", "num=%d" % opts["simulate"], "-depth", str(opts["depth"]),
                              "-seed", str(seed)]
                rc, out, st = tlc(g["module"], opts.get("cfg", g["module"] + ".cfg"), work,
                                  workers=1 if opts.get("simulate") else 4, extra=extra, mem="3g",
                                  env={"DEPTH": str(opts.get("bound", 0))})
                got = sorted({json.loads(line)[4:] for line in out.splitlines()
                              if line.startswith('"BEH')})
                f.writelines(g_ + "\n" for g_ in got)
                k = len(got)
                if k == 0 or (rc != 0 and not opts.get("simulate")):
                    raise Machinery("no behaviours from %s: rc=%d %s" % (g["module"], rc, out[-3000:]))
                nbeh += k
                models.append({"model": g["module"], "behaviours": k, "states": st[1]})
        cov["behaviours_generated_from_spec"] = nbeh
    # 2. model checking and traces, concurrently
    results, errors = [], []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        mcs = []
        for m in c.get("mc", ()):
            if tier == "quick" and m.get("thorough_only"):
                continue
            cfg = m.get("thorough_cfg", m["cfg"]) if tier == "thorough" else m["cfg"]
            mcs.append((m, cfg, ex.submit(tlc, m["module"], cfg, work, m.get("env"), m.get("workers", 2),
                                          m.get("mem", "3g"), 800 if tier == "quick" else 7000,
                                          m.get("extra", ()))))
        futs = [ex.submit(pipeline, prop, seed, tier, s, shards, work, beh, c.get("sessions", ()))
                for s in range(shards)]
        for m, cfg, fu in mcs:
            rc, out, st = fu.result()
            if m.get("violates"):
                # a design that must not pass
                if rc == 0 or "Invariant %s is violated" % m["violates"] not in out:
                    raise Machinery("model %s/%s does not violate %s" % (m["module"], cfg, m["violates"]))
            elif rc != 0:
                raise Machinery("model %s/%s: rc=%d\n%s" % (m["module"], cfg, rc, out[-4000:]))
            cov["states"] += st[1]
            cov["transitions"] += st[0]
            models.append({"model": m["module"], "config": cfg, "distinct_states": st[1],
                           "states_generated": st[0]})
        for fu in futs:
            results.append(fu.result())
    fails, ops, events, sessions = [], {}, 0, 0
    for r in results:
        fails += r["fails"]
        events += r["events"]
        sessions += r["sessions"]
        cov["states"] += r["states"][1]
        cov["transitions"] += r["states"][0]
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
    if not fails:
        missing = [o for o in c.get("ops", ()) if not ops.get(o)]
        if missing:
            raise Machinery("vacuous: no events for %s" % missing)
    cov["traces_validated_against_impl"] = sessions or events
    cov["events_validated"] = events
    cov["events_by_operation"] = ops
    cov["models"] = models
    ev["coverage"] = cov
    ev["assumptions"] = c["assumptions"]
    kf = known()
    seen, new = {}, []
    for r in fails:
        hit = [k for k in kf if matches(k, prop, r)]
        if hit:
            seen[hit[0]["what"]] = seen.get(hit[0]["what"], 0) + 1
        else:
            new.append(r)
    for w in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    ev["violations"] = len(new)
    ev["known_findings"] = sorted(seen)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s: %d events, %d sessions, %d model/trace states, %.1fs (driver %.1f, tlc %.1f)" % (
        prop, tier, events, sessions, cov["states"], ev["wall_s"],
        max(r["t"][0] for r in results), max(r["t"][1] for r in results)))
    if new:
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "shards": shards,
                       "violations": new[:50]}, f, indent=1)
            f.write("\n")
        for r in new[:3]:
            print("  shard %d line %d violates %s: %s" % (
                r["shard"], r["line"], ",".join(r["clauses"]), r["event"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    for v in d["violations"][:10]:
        print("clauses:", ", ".join(v["clauses"]))
        for s in v["session"] or [v["event"]]:
            print("   ", s)
    print("re-running the shards that failed, with the same seed")
    rc = 0
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        c = CHECKS[d["property"]]
        if c.get("gen"):
            return check(d["property"], d["tier"], d["seed"], d["shards"])
        for s in sorted({v["shard"] for v in d["violations"]})[:2]:
            r = pipeline(d["property"], d["seed"], d["tier"], s, d["shards"], work, None,
                         c.get("sessions", ()))
            for v in r["fails"][:10]:
                print("STILL FAILS: shard %d line %d %s" % (v["shard"], v["line"], v["clauses"]))
                rc = 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if rc:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return rc


def setup():
    for p in (JYTHON, TLAJAR.split(":")[0], SPEC, DRV):
        if not os.path.exists(p):
            print("missing", p)
            return 2
    for c in CHECKS:
        if not os.path.exists(os.path.join(SPEC, c + ".tla")):
            print("missing specification for", c)
            return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--shards", type=int, default=0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if a.cmd == "setup":
            return setup()
        if a.cmd == "check":
            return check(a.arg, a.tier, seed, a.shards)
        if a.cmd == "replay":
            return replay(a.arg)
    except Machinery as e:
        print("MACHINERY: %s" % e)
        return 2
    print("unknown command")
    return 2


if __name__ == "__main__":
    sys.exit(main())
