#!/usr/bin/env python3
"""Decides one property.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--cases N] [--keep DIR]

1. TLC explores the sessions of the property on the specification (spec/Gen.tla)
   and checks that its relations hold there; the sessions are written out.
2. py/driver.py replays them into /repo's working tree and records outcomes.
3. TLC validates the recorded outcomes against the specification (spec/Trace.tla).

exit 0: held; exit 1: VIOLATION; anything else: the machinery failed.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
NCH = 32
NPROC = 8

# number of sessions per tier
QUICK = {"C24": 40000, "C23": 8000, "C22": 50000, "C21": 40000, "C20": 50000, "C19": 40000, "C18": 40000, "C17": 60000, "C16": 8000, "C15": 40000, "C06": 12000, "C07": 16000, "C13": 60000, "C14": 60000, "C01": 40000, "C03": 50000, "C05": 60000, "C09": 50000}
QUICK_DEFAULT = 30000
THOROUGH_FACTOR = 25


class Broken(Exception):
    pass


def run(cmd, cwd=None, limit=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, env=env)
    return p.returncode, p.stdout


def compile_java(work):
    cls = os.path.join(work, "cls")
    os.makedirs(cls)
    rc, out = run(["javac", "-cp", TLA, "-d", cls, *(os.path.join(ROOT, "java", f) for f in ("Real64.java", "Total.java"))])
    if rc:
        raise Broken("javac: " + out)
    return cls


def tlc(work, cls, module, cfg, limit):
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss64m", "-Djava.io.tmpdir=" + d, "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Total", "-cp", ":".join([cls, TLA, CM]), "tlc2.TLC",
           "-deadlock", "-noGenerateSpecTE", "-workers", str(NPROC), "-metadir", os.path.join(d, "meta"), "-config", cfgf, module]
    rc, out = run(cmd, cwd=os.path.join(ROOT, "spec"), limit=limit)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    return rc, out, (int(m[1]), int(m[2])) if m else (0, 0)


def tail(out, n=60):
    lines = [ln for ln in out.splitlines() if not ln.startswith(("Loading", "Parsing file", "Semantic processing", "Linting of module"))]
    return "\n".join(ln[:600] for ln in lines[-n:])[-6000:]


def generate(work, cls, prop, seed, ncase, limit, spec=False):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\n" + ("" if spec else "INVARIANT SpecHolds\n") + "CONSTANTS\n"
           f'  Prop = "{prop}"\n  Seed = {seed}\n  NCh = {NCH}\n  NCase = {ncase}\n  Dir = "{work}"\n')
    rc, out, (gen, distinct) = tlc(work, cls, "Gen", cfg, limit)
    for _, r in read(work, "reject"):
        if r["viol"]:
            print("SPECIFICATION violates its own relation: session %d %s" % (r["id"], r["bad"]))
            if spec:
                print("   ", json.dumps(human([{k: h[k] for k in ("m", "f", "a", "v", "e")} for h in r["hist"]]))[:1500])
    if rc:
        raise Broken("specification run failed\n" + errors(out) + tail(out))
    return gen, distinct


def errors(out):
    ls = out.splitlines()
    i = next((k for k, x in enumerate(ls) if x.startswith("Error:")), None)
    return "" if i is None else "\n".join(x[:400] for x in ls[i:i + 12]) + "\n...\n"


def drive(work, history=False):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")

    def one(k):
        chunks = range(k, NCH + 1, NPROC)
        first, second = [], []
        for c in chunks:
            src, obs, raw = (os.path.join(work, f"{n}_{c}.ndjson") for n in ("case", "obs", "raw"))
            if not os.path.exists(src):
                open(src, "w").close()
            first += [src, raw if history else obs]
            second += [raw, obs]
        cmd = [PY, os.path.join(ROOT, "py", "driver.py")]
        rc, out = run(cmd + first + (["--calls"] if history else []), env=env, limit=3600)
        if rc == 0 and history:
            rc, out = run(cmd + second + ["--fresh"], env=env, limit=3600)
        return rc, out

    with ThreadPoolExecutor(NPROC) as ex:
        for rc, out in ex.map(one, range(1, NPROC + 1)):
            if rc:
                raise Broken("driver: " + out[-3000:])


def judge(work, cls, limit):
    cfg = f'INIT Init\nNEXT Next\nVIEW View\nCONSTANTS\n  NCh = {NCH}\n  Dir = "{work}"\n'
    rc, out, (gen, distinct) = tlc(work, cls, "Trace", cfg, limit)
    if rc:
        raise Broken("trace validation failed\n" + tail(out))
    return gen, distinct


def read(work, stem, ids=range(1, NCH + 1)):
    for c in ids:
        f = os.path.join(work, f"{stem}_{c}.ndjson")
        if os.path.exists(f):
            with open(f) as fh:
                for line in fh:
                    if line.strip():
                        yield c, json.loads(line)


def load_known(prop):
    known = []
    f = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(f):
        with open(f) as fh:
            for k in json.load(fh)["known"]:
                if k["property"] == prop:
                    known.append(k)
    return known


def selftest():
    work = tempfile.mkdtemp(prefix="verif_selftest_")
    try:
        cls = compile_java(work)
        for mod in ("Gen", "Trace"):
            rc, out = run(["java", "-cp", ":".join([cls, TLA, CM]), "tla2sany.SANY", mod + ".tla"], cwd=os.path.join(ROOT, "spec"), limit=300)
            if rc or "*** Errors" in out or "Fatal" in out:
                print(out[-3000:])
                return 3
        rc, out = run([PY, "-c", "import numpy, pandas"], limit=300)
        if rc:
            print(out)
            return 3
        print("specification parses, toolchain present")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def human(v):
    import struct
    if isinstance(v, list) and len(v) == 2 and all(isinstance(k, int) and not isinstance(k, bool) for k in v):
        return struct.unpack(">d", struct.pack(">ii", v[0], v[1]))[0]
    if isinstance(v, list):
        return [human(e) for e in v]
    if isinstance(v, dict):
        return {k: human(e) for k, e in v.items()}
    return v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="compile, and check that every module of the specification parses")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--keep")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--spec", action="store_true", help="development: list all sessions that violate their relations in the specification")
    o = ap.parse_args()
    prop = o.prop
    if o.selftest:
        return selftest()
    t0 = time.time()
    n = o.cases or QUICK.get(prop, QUICK_DEFAULT) * (1 if o.tier == "quick" else THOROUGH_FACTOR)
    limit = 850 if o.tier == "quick" else 4 * 3600
    if o.keep:
        shutil.rmtree(o.keep, ignore_errors=True)
        os.makedirs(o.keep)
        work = o.keep
    else:
        work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        cls = compile_java(work)
        gen, distinct = generate(work, cls, prop, o.seed, n, limit, o.spec)
        if o.spec:
            return 0
        t1 = time.time()
        drive(work, prop == "C16")
        t2 = time.time()
        tgen, _ = judge(work, cls, limit)
        t3 = time.time()
        done = []
        with open(os.path.join(work, "done.ndjson")) as fh:
            done = [json.loads(x) for x in fh if x.strip()]
        validated = sum(d["n"] for d in done)
        cases = {}
        classes, funs, fails = Counter(), Counter(), []
        ncall = 0
        for c, r in read(work, "case"):
            cases[r["id"]] = (c, r)
            classes[r["cl"]] += 1
            for call in r["calls"]:
                funs[call["m"] + "." + call["f"]] += 1
                ncall += 1
        if len(done) != NCH or validated != len(cases):
            raise Broken(f"incomplete: {len(done)} chunks, {validated} of {len(cases)} sessions")
        fails = list(read(work, "bad"))
        rejects, rejn = Counter(), 0
        for _, r in read(work, "reject"):
            rejn += 1
            for b in r["bad"]:
                rejects["%s.%s: %s: %s" % (b["m"], b["f"], b["n"], b["x"])] += 1
        if len(cases) < 0.2 * n:
            raise Broken(f"only {len(cases)} of {n} sessions admissible: {rejects.most_common(20)}")
        # verdict
        known = load_known(prop)
        new, hit = [], Counter()
        for c, r in fails:
            for b in r["bad"]:
                k = next((k for k in known if (k["m"], k["f"], k["n"], k["x"]) == (b["m"], b["f"], b["n"], b["x"])), None)
                if k:
                    hit[k["id"]] += 1
                else:
                    new.append((c, r, b))
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        for k in known:
            if hit[k["id"]]:
                print(f"KNOWN-FINDING: property={prop} {k['what']} ({hit[k['id']]} sessions)")
        if o.verbose:
            print("rejected", rejn)
            for k, v in rejects.most_common(40):
                print("  ", v, k)
        groups = Counter((b["m"], b["f"], b["n"], b["x"]) for _, _, b in new)
        replay = ""
        if new:
            obs = {}
            first = {}
            for c, r, b in new:
                first.setdefault((b["m"], b["f"], b["n"], b["x"]), (c, r["id"]))
            want = set(list(first.values())[:20])
            for c, r in read(work, "obs", sorted({c for c, _ in want})):
                if (c, r["id"]) in want:
                    obs[r["id"]] = r
            replay = os.path.join(ev, f"{prop}.replay.json")
            rec = []
            for key, (c, i) in list(first.items())[:20]:
                rec.append({"violation": dict(zip(("module", "function", "clause", "what"), key)), "times": groups[key],
                            "session": human(cases[i][1]), "outcomes": human(obs.get(i, {}).get("o"))})
            with open(replay, "w") as fh:
                json.dump({"property": prop, "seed": o.seed, "violations": rec}, fh, indent=1)
            with open(os.path.join(ev, f"{prop}.replay.ndjson"), "w") as fh:
                for key, (c, i) in list(first.items())[:20]:
                    fh.write(json.dumps(cases[i][1]) + "\n")
            for key, cnt in groups.most_common(12):
                print("  %dx %s.%s: %s: %s (session %d)" % (cnt, *key, first[key][1]))
            print(f"VIOLATION property={prop} replay={replay}")
        some = [human(cases[i][1]) for i in sorted(cases)[:: max(1, len(cases) // 3)][:3]]
        evidence = {
            "property": prop, "tier": o.tier, "seed": o.seed, "level": "model_checking",
            "coverage": {
                "states": distinct, "transitions": gen, "trace_transitions": tgen,
                "traces_validated_against_impl": validated, "calls_replayed": ncall,
                "sessions_inadmissible": rejn, "session_classes": dict(classes), "functions": len(funs),
                "least_exercised": dict(funs.most_common()[-5:]), "samples": some,
                "rule": "each session is a behaviour of spec/Gen.tla; inadmissible: an input outside the domain of the equation (no finite value)",
            },
            "assumptions": ["IEEE double arithmetic of the Java virtual machine and of numpy agree within the tolerance of each relation",
                            "spec/*.tla transcribes the cited references"],
            "wall_s": round(time.time() - t0, 1), "violations": len(groups),
        }
        if prop == "C16":
            evidence["coverage"]["calls_repeated_without_history"] = "every second one, and the last of each session"
        with open(os.path.join(ev, f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
        print(f"{prop} {o.tier}: {len(cases)} sessions ({ncall} calls, {len(funs)} functions) validated, {rejn} inadmissible, {len(groups)} violations; "
              f"gen {t1 - t0:.0f}s drive {t2 - t1:.0f}s judge {t3 - t2:.0f}s")
        return 1 if new else 0
    except Broken as ex:
        print("MACHINERY:", ex)
        return 3
    except subprocess.TimeoutExpired as ex:
        print("MACHINERY: time limit:", ex.cmd[0])
        return 3
    finally:
        if not o.keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
