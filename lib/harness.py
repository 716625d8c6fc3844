"""Runs one property check: TLC models, drivers on the real code, trace validation.

    python3 /verif/check.py <property> [--tier quick|thorough] [--seed N]

Exit 0: held on everything explored.  Exit 1: a line
``VIOLATION property=<id> replay=<path>``.  Anything else is an error of the check.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MICROJAX_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLACM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.update(
        JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1", PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        PYTHONHASHSEED="0", HOME=e.get("HOME", "/root"),
        PYTHONPATH=os.path.join(REPO, "src") + ":" + os.path.join(VERIF, "lib"),
        ASTROPY_SKIP_CONFIG_UPDATE="1",
    )
    return e


def compile_overrides(tmp):
    cls = os.path.join(tmp, "cls")
    os.makedirs(cls)
    src = [os.path.join(VERIF, "spec", "java", f) for f in ("Dec.java", "Cx.java")]
    r = subprocess.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", cls, *src], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac failed:\n" + r.stderr)
    return cls


def tlc(tmp, cls, module, cfg, env=None, timeout=600, workers=1, heap="3g", extra=()):
    """Run TLC on spec/<module>.tla; return (ok, stdout, stats)."""
    spec = os.path.join(VERIF, "spec")
    md = tempfile.mkdtemp(prefix="tlc-", dir=tmp)
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap,
           "-DTLA-Library=" + spec, "-cp", ":".join([cls, TLAJAR, TLACM]), "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(spec, cfg), *extra, os.path.join(spec, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=md)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timeout on %s" % module) from ex
    out = p.stdout + p.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    depth = re.search(r"depth of the complete state graph search is (\d+)", out)
    st = dict(generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
              depth=int(depth.group(1)) if depth else 0, rc=p.returncode)
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode == 0, out, st


def _tla_unquote(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def scan_prints(out, tag):
    """Lines printed by PrintT(<<tag, ToJson(x)>>)."""
    res = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % re.escape(tag), out):
        res.append(json.loads(_tla_unquote(m.group(1))))
    return res


def run_driver(tmp, prop, spec, seed, tier, scenfile, shard, nshards, timeout):
    out = os.path.join(tmp, "rec-%s-%d.ndjson" % (prop, shard))
    cmd = [PY, os.path.join(VERIF, "drivers", spec["driver"]), "--prop", prop, "--seed", str(seed), "--tier", tier,
           "--shard", str(shard), "--nshards", str(nshards), "--out", out]
    if scenfile:
        cmd += ["--scen", scenfile]
    log = open(out + ".log", "w")
    p = subprocess.Popen(cmd, env=_env(), stdout=log, stderr=subprocess.STDOUT, start_new_session=True, cwd=tmp)
    t0 = time.time()
    hang = False
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        hang = True
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    log.close()
    recs = []
    if os.path.exists(out):
        for line in open(out):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    done = bool(recs) and recs[-1].get("op") == "done"
    cur = None
    for r in recs:
        if r.get("op") == "at":
            cur = r["id"]
    recs = [r for r in recs if r.get("op") not in ("at", "done")]
    if not done:
        tail = open(out + ".log").read()[-2500:]
        if hang:
            recs.append({"op": "hang", "id": str(cur), "what": "no result within %ds" % timeout})
        elif p.returncode is not None and p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
            recs.append({"op": "raise", "id": str(cur), "what": "the process died with signal %d" % -p.returncode})
        else:
            raise MachineryError("driver shard %d of %s failed (rc=%s):\n%s" % (shard, prop, p.returncode, tail))
    return dict(shard=shard, recs=recs, wall=time.time() - t0, file=out)


def validate(tmp, cls, spec, prop, shard, recs, timeout):
    if not recs:
        return dict(bad=[], states=dict(generated=0, distinct=0, depth=0), judged={})
    f = os.path.join(tmp, "trace-%s-%s.ndjson" % (prop, shard))
    with open(f, "w") as h:
        for r in recs:
            h.write(json.dumps(r) + "\n")
    ok, out, st = tlc(tmp, cls, spec["trace"], spec.get("cfg", "Trace.cfg"), env={"TRACE": f}, timeout=timeout)
    verdict = scan_prints(out, "VERDICT")
    consumed = scan_prints(out, "CONSUMED")
    if not ok or len(verdict) != 1 or consumed != [len(recs)]:
        keep = os.path.join(tempfile.gettempdir(), "verif-machinery-%s.txt" % prop)
        open(keep, "w").write(out)
        raise MachineryError("trace validation of %s shard %s did not finish (%s):\n%s" % (prop, shard, consumed, out[-3000:]))
    notes = scan_prints(out, "NOTE")
    return dict(bad=[tuple(x) for x in verdict[0]], states=st, notes=notes)


def load_findings():
    f = os.path.join(VERIF, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}


def main(argv=None):
    import argparse
    sys.path.insert(0, VERIF)
    import registry
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", default=None)
    a = ap.parse_args(argv)
    spec = registry.CHECKS[a.prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        rc = _run(a, spec, tmp, t0)
    except MachineryError as e:
        print("ERROR in the machinery of %s: %s" % (a.prop, e))
        rc = 2
    finally:
        if a.keep:
            shutil.rmtree(a.keep, ignore_errors=True)
            shutil.copytree(tmp, a.keep)
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc


def _run(a, spec, tmp, t0):
    prop, tier, seed = a.prop, a.tier, a.seed
    cls = compile_overrides(tmp)
    nshards = spec.get("shards", 6)
    dto = spec.get("driver_timeout", 560 if tier == "quick" else 2400)
    tto = spec.get("tlc_timeout", 280 if tier == "quick" else 2400)
    models, scen = [], []
    # 1. exhaustive TLC models of the design; some of them also emit behaviours to replay
    ms = [m for m in spec.get("models", []) if tier in m.get("tiers", ("quick", "thorough"))]
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        futs = [(m, ex.submit(tlc, tmp, cls, m["module"], m["cfg"], {"VERIF_SEED": str(seed)}, m.get("timeout", 300),
                              m.get("workers", 2))) for m in ms]
        for m, f in futs:
            ok, out, st = f.result()
            if not ok:
                raise MachineryError("model %s/%s failed:\n%s" % (m["module"], m["cfg"], out[-3000:]))
            got = scan_prints(out, "SCN")
            scen += got
            models.append(dict(module=m["module"], cfg=m["cfg"], states=st["distinct"], transitions=st["generated"],
                               depth=st["depth"], behaviours=len(got)))
    scenfile = None
    if scen:
        scenfile = os.path.join(tmp, "scen.json")
        scen.sort(key=json.dumps)  # TLC workers print in any order
        json.dump(scen, open(scenfile, "w"))
    # 2. the real code, 3. TLC on what it did
    results, bad = [], []
    recs_by_id = {}
    with cf.ThreadPoolExecutor(max_workers=nshards) as ex:
        def job(i):
            d = run_driver(tmp, prop, spec, seed, tier, scenfile, i, nshards, dto)
            tv = time.time()
            v = validate(tmp, cls, spec, prop, i, d["recs"], tto)
            d["tlc_wall"] = time.time() - tv
            return d, v
        for d, v in ex.map(job, range(nshards)):
            results.append((d, v))
            for r in d["recs"]:
                recs_by_id.setdefault(str(r["id"]), []).append(r)
            bad += v["bad"]
    bad = sorted(set((str(i), str(c)) for i, c in bad))
    # 4. known findings
    kf = [f for f in load_findings().get("findings", []) if f["property"] == prop]
    new, known = [], {}
    for i, c in bad:
        hit = None
        for f in kf:
            if i == f["id"] and c in f["clauses"]:
                hit = f
        if hit is None:
            new.append((i, c))
        else:
            known.setdefault(hit["id"], hit)
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    # 5. evidence
    ops, notes = {}, {}
    for d, v in results:
        for r in d["recs"]:
            ops[r["op"]] = ops.get(r["op"], 0) + 1
        for n in v.get("notes", []):
            for k, x in (n.items() if isinstance(n, dict) else []):
                if isinstance(x, dict):
                    for kk, y in x.items():
                        if y:
                            notes[k + "_" + kk] = notes.get(k + "_" + kk, 0) + y
                else:
                    notes[k] = notes.get(k, 0) + x
    nrec = sum(ops.values())
    samples, seen = [], set()
    for d, v in results:
        for r in d["recs"]:
            if r["op"] not in seen and len(json.dumps(r)) < 4000:
                seen.add(r["op"])
                samples.append(r)
    samples = samples[:6]
    cov = dict(
        states=sum(m["states"] for m in models) + sum(v["states"]["distinct"] for _, v in results),
        transitions=sum(m["transitions"] for m in models) + sum(v["states"]["generated"] for _, v in results),
        traces_validated_against_impl=nrec, samples=samples, model_runs=models,
        behaviours_generated_by_tlc=len(scen), trace_spec=spec["trace"], events_by_action=ops, notes=notes,
        distinct_scenarios=len(recs_by_id), clauses_failed=[list(x) for x in bad][:50],
        known_findings_seen=sorted(known),
        driver_wall_s=[round(d["wall"], 1) for d, _ in results], tlc_wall_s=[round(d["tlc_wall"], 1) for d, _ in results],
    )
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=spec.get("assumptions", []) + [
                  "spec/java/Dec.java implements the real arithmetic named in spec/Dec.tla",
                  "drivers/vdrive record arguments and results of the calls faithfully"])
    with open(os.path.join(evd, prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    minrec = spec.get("min_records", 1)
    if not new and nrec < minrec:
        raise MachineryError("only %d events recorded (expected at least %d)" % (nrec, minrec))
    if new:
        path = os.path.join(evd, "replay-%s.json" % prop)
        ids = []
        for i, c in new:
            if i not in ids:
                ids.append(i)
        with open(path, "w") as h:
            json.dump(dict(property=prop, seed=seed, tier=tier, failures=[dict(id=i, clause=c) for i, c in new][:200],
                           events={i: recs_by_id.get(i, [])[:20] for i in ids[:5]}), h, indent=1)
        for i, c in new[:12]:
            print("  failed: event %s clause %s" % (i, c))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s events=%d states=%d wall=%.0fs" % (prop, nrec, cov["states"], time.time() - t0))
    return 0
