"""Driver of a check: build, shard, collect, report.   run.py PROPERTY [options]"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/vp/venv/bin/python"
NW = 8
HANG = 150  # seconds a single generated case may take (they take milliseconds)
ASAN = ("C29", "C30")  # decided with a build instrumented by AddressSanitizer


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             RAYON_NUM_THREADS="2", RUST_BACKTRACE="0",
             NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR")
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--explore", action="store_true")
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--nobuild", action="store_true")
    ap.add_argument("--timeout", type=float, default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build = os.path.join(VERIF, ".build")
    os.makedirs(build, exist_ok=True)
    asan = a.property in ASAN
    pymod = os.path.join(build, "pymod-asan" if asan else "pymod")
    if not a.nobuild:
        p = subprocess.run(["bash", os.path.join(VERIF, "bin", "build-asan.sh" if asan else "build.sh"), pymod])
        if p.returncode:
            print("ERROR: build failed", flush=True)
            return 2
    scratch = tempfile.mkdtemp(prefix="rpv-", dir=build)
    e = env()
    if asan:
        lib = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], capture_output=True, text=True).stdout.strip()
        e.update(LD_PRELOAD=lib, PYTHONMALLOC="malloc",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:quarantine_size_mb=64:detect_odr_violation=0")
    e["RPV_SCRATCH"] = scratch
    try:
        return go(a, tier, seed, pymod, scratch, e, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def spawn(job, path, e):
    json.dump(job, open(path, "w"))
    return subprocess.Popen([PY, os.path.join(VERIF, "rpv/worker.py"), path], env=e, cwd=os.path.dirname(path),
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(path + ".err", "wb"))


def replay_once(a_prop, facet, choices, pymod, scratch, e, tag="r", timeout=120):
    path = os.path.join(scratch, f"{tag}.json")
    out = path + ".out"
    if os.path.exists(out):
        os.unlink(out)
    p = spawn({"property": a_prop, "pymod": pymod, "out": out, "replay": {"facet": facet, "choices": choices}}, path, e)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        return ("timeout", None)
    if rc < 0:
        return ("crash", {"signal": -rc, "stderr": tail(path + ".err")})
    if rc != 0:
        return ("error", {"stderr": tail(path + ".err")})
    return ("done", json.load(open(out)))


def tail(p, n=1500):
    try:
        return open(p, "rb").read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def go(a, tier, seed, pymod, scratch, e, t0):
    ID = a.property
    if a.replay:
        rp_ = json.load(open(a.replay))
        k, d = replay_once(ID, rp_["facet"], rp_["choices"], pymod, scratch, e)
        print(k, json.dumps(d, indent=1)[:4000])
        bad = k == "crash" or k == "timeout" or (k == "done" and d["res"] and d["res"][0] == "violation")
        if bad:
            print(f"VIOLATION property={ID} replay={a.replay}")
        return 1 if bad else 0 if k == "done" else 2

    meta = subprocess.run([PY, "-c", f"""
import sys, json; sys.path[:0]=[{pymod!r}, {VERIF!r}]
import importlib; p=importlib.import_module("rpv.props.{ID.lower()}")
print(json.dumps({{"facets": {{k:[f.quick,f.thorough] for k,f in p.FACETS.items()}}, "rule": p.RULE, "assumptions": getattr(p,"ASSUMPTIONS",[])}}))
"""], env=e, capture_output=True, text=True)
    if meta.returncode:
        print("ERROR: cannot load property module\n" + meta.stderr[-3000:])
        # a module that cannot be imported because the extension fails at import time is an error, not a verdict
        return 2
    meta = json.loads(meta.stdout.strip().splitlines()[-1])
    scale = a.scale
    cases = {k: max(1, int((v[1] if tier == "thorough" else v[0]) * scale)) for k, v in meta["facets"].items()}
    names = sorted(cases)
    limit = a.timeout or (780 if tier == "quick" else 6 * 3600)
    pend = [(k, []) for k in range(NW)]  # (shard, skip list)
    procs, beat = {}, {}
    reports, violations, errors = [], [], []
    crashes = 0
    while pend or procs:
        while pend:
            k, skip = pend.pop()
            path = os.path.join(scratch, f"s{k}.json")
            job = {"property": ID, "pymod": pymod, "out": path + ".out", "state": path + ".state", "seed": seed,
                   "tier": tier, "shard": k, "nshards": NW, "cases": cases, "explore": a.explore, "only": a.only,
                   "skip": skip}
            for ext in (".out", ".out.viol"):
                if os.path.exists(path + ext):
                    os.unlink(path + ext)
            procs[k] = (spawn(job, path, e), path, skip)
        time.sleep(0.05)
        for k in list(procs):
            p, path, skip = procs[k]
            rc = p.poll()
            if rc is None:
                now = time.time()
                try:
                    at = struct.unpack("<qq", open(path + ".state", "rb").read(16))
                except (OSError, struct.error):
                    at = None
                if beat.get(k, (None, 0))[0] != at or at is None:
                    beat[k] = (at, now)
                if now - beat[k][1] > HANG and at and not a.explore:
                    # the same case for so long: the code under test does not come back
                    p.kill()
                    p.wait()
                    del procs[k]
                    if os.path.exists(path + ".out.viol"):  # while shrinking
                        violations.append(json.load(open(path + ".out.viol"))["partial"])
                        continue
                    violations.append({"facet": names[at[0]], "index": at[1], "kind": "hang", "choices": None, "rc": 0,
                                       "msg": f"the case did not finish in {HANG} s", "desc": [], "sig": None})
                    continue
                if now - t0 > limit:
                    fi, i = struct.unpack("<qq", open(path + ".state", "rb").read(16))
                    p.kill()
                    p.wait()
                    del procs[k]
                    errors.append(f"shard {k} ran out of time in facet {names[fi]} case {i}")
                continue
            del procs[k]
            if rc == 0:
                reports.append(json.load(open(path + ".out")))
            elif rc < 0 and os.path.exists(path + ".state"):
                fi, i = struct.unpack("<qq", open(path + ".state", "rb").read(16))
                if os.path.exists(path + ".out.viol"):  # died while shrinking: keep the unshrunk violation
                    violations.append(json.load(open(path + ".out.viol"))["partial"])
                    if not a.explore:
                        continue
                else:
                    crashes += 1
                    violations.append({"facet": names[fi], "index": i, "kind": "crash", "choices": None,
                                       "msg": f"the interpreter died with signal {-rc} ({signal.Signals(-rc).name})",
                                       "desc": [], "sig": None, "stderr": tail(path + ".err", 400), "rc": rc})
                if a.explore and crashes < 60:
                    pend.append((k, skip + [[names[fi], i]]))
            else:
                errors.append(f"shard {k} exit {rc}: {tail(path + '.err')}")
    # crashes: recover the choices, confirm, shrink in subprocesses
    final = []
    for v in violations:
        if v["kind"] == "hang":
            v["choices"] = hang_choices(ID, v, seed, pymod, scratch, e)
        if v["kind"] == "crash" and v["choices"] is None:
            if v["rc"] == -signal.SIGKILL:
                errors.append(f"a worker was killed (SIGKILL) in {v['facet']} case {v['index']}")
                continue
            if a.explore and final:
                continue
            ch = crash_choices(ID, v, seed, pymod, scratch, e, small=len(final) < 2)  # making one or two of them small is enough
            v["choices"], v["confirmed"] = ch
        final.append(v)
    violations = final
    for r in reports:
        violations += r["violations"]
    if a.explore:
        merged = {}
        for r in reports:
            for s, (c, ex, sz) in r["sigs"].items():
                m = merged.setdefault(s, [0, None, 10**9])
                m[0] += c
                if len(ex["choices"]) < m[2]:
                    m[1], m[2] = ex, len(ex["choices"])
        for v in violations:
            s = f"{v['facet']} | crash"
            m = merged.setdefault(s, [0, {"desc": [v["msg"], str(v.get("stderr"))[-200:]], "msg": "", "i": v["index"], "choices": v["choices"] or []}, 0])
            m[0] += 1
        tot = {}
        for r in reports:
            for f, st in r["facets"].items():
                t = tot.setdefault(f, [0, 0, {}, {}])
                t[0] += st["evaluations"]
                t[1] += st["nontrivial"]
                for kk, vv in st["discards"].items():
                    t[2][kk] = t[2].get(kk, 0) + vv
                for kk, vv in st["labels"].items():
                    t[3][kk] = t[3].get(kk, 0) + vv
        for f, t in sorted(tot.items()):
            print(f"facet {f}: {t[0]} evals, {t[1]} nontrivial, discards {t[2]}, labels {dict(sorted(t[3].items(), key=lambda x: -x[1])[:40])}")
        for s, (c, ex, sz) in sorted(merged.items()):
            print(f"--- {c:6d}  {s}")
            print("      ", " ; ".join(ex["desc"])[:500])
            print("      ", ex["msg"][:500])
        for x in errors:
            print("ERROR:", x)
        print(f"{time.time()-t0:.1f}s")
        return 0
    kf = known_findings(ID, pymod, scratch, e)
    return report(ID, tier, seed, meta, reports, violations, errors, kf, t0)


def hang_choices(ID, v, seed, pymod, scratch, e):
    try:
        crash_choices(ID, v, seed, pymod, scratch, e, timeout=20)
    except subprocess.TimeoutExpired:
        pass
    try:
        return [int(x) for x in open(os.path.join(scratch, "crash.choices")).read().split()]
    except OSError:
        return []


def crash_choices(ID, v, seed, pymod, scratch, e, timeout=300, small=True):
    """Record the choices of a crashing case: generate it in a subprocess that dumps them as they are drawn."""
    path = os.path.join(scratch, "crash.choices")
    code = f"""
import sys, os; sys.path[:0]=[{pymod!r}, {VERIF!r}]
import warnings; warnings.simplefilter("ignore")
import numpy as np; np.seterr(all="ignore")
import importlib
from rpv.engine import Src, case_rng
p=importlib.import_module("rpv.props.{ID.lower()}")
fd=os.open({path!r}, os.O_CREAT|os.O_TRUNC|os.O_WRONLY)
class L(list):
    def append(self, x):
        list.append(self, x); os.write(fd, b"%d\\n" % x)
s=Src(rng=case_rng({seed}, {ID!r}, {v['facet']!r}, {v['index']})); s.choices=L()
try: p.FACETS[{v['facet']!r}].fn(s)
except BaseException as ex: print(type(ex))
"""
    p = subprocess.run([PY, "-c", code], env=e, capture_output=True, cwd=scratch, timeout=timeout)
    try:
        ch = [int(x) for x in open(path).read().split()]
    except OSError:
        return [], False
    if p.returncode >= 0:
        return ch, False
    if not small:
        return ch, True
    from rpv.engine import shrink
    t1 = time.time()

    def still(c):
        if time.time() - t1 > 40:
            return None
        k, d = replay_once(ID, v["facet"], c, pymod, scratch, e)
        return c if k == "crash" else None
    best = shrink(ch, still, 120)
    return best, True


def known_findings(ID, pymod, scratch, e):
    """The listed open findings of this property that still reproduce. Each is a concrete input: `code` must raise, fail an
    assert or kill the interpreter on the defective tree. The generators avoid these inputs, so nothing is suppressed."""
    try:
        fs = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except OSError:
        return []
    fs = [f for f in fs if f["property"] == ID and f["status"] == "open"]
    if not fs:
        return []
    pre = (f"import sys; sys.path[:0]=[{pymod!r}]\nimport warnings; warnings.simplefilter('ignore')\n"
           "import numpy as np; np.seterr(all='ignore')\nimport rumpy as rp\n")
    ps = [subprocess.Popen([PY, "-c", pre + f["code"]], env=e, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL) for f in fs]
    out = []
    for f, p in zip(fs, ps):
        try:
            rc = p.wait(60)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -9
        if rc:
            out.append(f["what"])
    return out


def report(ID, tier, seed, meta, reports, violations, errors, kf, t0):
    evals = sum(st["evaluations"] for r in reports for st in r["facets"].values())
    hs = set()
    for r in reports:
        hs.update(r["hashes"])
    per, samples = {}, []
    for r in reports:
        for f, st in r["facets"].items():
            t = per.setdefault(f, {"evaluations": 0, "nontrivial": 0, "discards": {}, "labels": {}})
            t["evaluations"] += st["evaluations"]
            t["nontrivial"] += st["nontrivial"]
            for key in ("discards", "labels"):
                for kk, vv in st[key].items():
                    t[key][kk] = t[key].get(kk, 0) + vv
            if len([s for s in samples if s["facet"] == f]) < 2:
                samples += [{"facet": f, "case": s} for s in st["samples"][:1]]
    out_v = violations
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    lines = []
    for v in out_v:
        h = hashlib.blake2b(json.dumps([v["facet"], v["choices"], v["index"]]).encode(), digest_size=5).hexdigest()
        path = os.path.join(VERIF, "replays", f"{ID}-{v['facet']}-{h}.json")
        v["property"], v["seed"] = ID, seed
        v["how_to_replay"] = f"bash bin/check.sh {ID} --replay {path}"
        json.dump(v, open(path, "w"), indent=1)
        lines.append((v, path))
    ev = {"property": ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hs), "rule": meta["rule"],
                       "samples": samples[:40], "facets": per},
          "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(out_v)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{ID}.json"), "w"), indent=1)
    for w in sorted(set(kf)):
        print(f"KNOWN-FINDING: property={ID} {w}")
    for v, path in lines:
        print(f"# {v['facet']} [{v['kind']}] {' ; '.join(v['desc'])[:700]}")
        print(f"#   {v['msg'][:700]}")
        print(f"VIOLATION property={ID} replay={path}")
    print(f"{ID} {tier} seed={seed}: {evals} cases, {len(hs)} distinct non-trivial, {len(out_v)} violations, "
          f"{len(errors)} errors, {time.time()-t0:.1f}s", flush=True)
    if lines:
        return 1
    if errors:
        for x in errors:
            print("ERROR:", x)
        return 2
    return 0


sys.path.insert(0, VERIF)
sys.exit(main())
