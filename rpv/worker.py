"""One shard of a check.  Usage: worker.py JOB.json (see run.py)"""
import faulthandler
import importlib
import json
import mmap
import os
import struct
import sys
import time
import warnings

job = json.load(open(sys.argv[1]))
sys.path.insert(0, job["pymod"])
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")
import rumpy  # noqa: E402

assert os.path.realpath(rumpy.__file__) == os.path.realpath(os.path.join(job["pymod"], "rumpy.so")), rumpy.__file__
from rpv.engine import Src, Violation, Discard, case_rng, choice_hash, shrink  # noqa: E402

prop = importlib.import_module("rpv.props." + job["property"].lower())


def run_case(facet, src):
    """-> None | ('discard', why) | ('violation', kind, msg)"""
    try:
        prop.FACETS[facet].fn(src)
    except Discard as e:
        return ("discard", str(e))
    except Violation as e:
        return ("violation", e.kind, e.msg)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # an answer the oracle could not even read (PanicException included)
        tb = e.__traceback__
        where = ""
        while tb:
            where = f"{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}"
            tb = tb.tb_next
        return ("violation", "exception", f"{type(e).__name__} at {where}: {str(e)[:300]}")
    return None


def main():
    out = job["out"]
    if job.get("replay") is not None:
        rpl = job["replay"]
        src = Src(prefix=rpl["choices"])
        res = run_case(rpl["facet"], src)
        json.dump({"res": res, "choices": src.choices, "desc": src.desc, "sig": src.sig}, open(out, "w"))
        return
    with open(job["state"], "wb") as f:
        f.write(b"\0" * 64)
    fd = os.open(job["state"], os.O_RDWR)
    mm = mmap.mmap(fd, 64)
    names = sorted(prop.FACETS)
    rep = {"facets": {}, "violations": [], "hashes": [], "sigs": {}}
    t0 = time.time()
    explore = job.get("explore")
    hashes = set()
    resume = None
    if explore and os.path.exists(out + ".part"):
        rep, resume = json.load(open(out + ".part"))
        resume = tuple(job["skip"][-1])
    for fi, facet in enumerate(names):
        if job.get("only") and facet not in job["only"]:
            continue
        total = job["cases"][facet]
        if resume and names.index(resume[0]) > fi:
            continue
        st = {"evaluations": 0, "nontrivial": 0, "discards": {}, "labels": {}, "samples": []}
        st = rep["facets"].setdefault(facet, st)
        dead = False
        skip = set(map(tuple, job.get("skip", [])))
        for i in range(job["shard"], total, job["nshards"]):
            if (facet, i) in skip or (resume and resume[0] == facet and i <= resume[1]):
                continue
            if explore and st["evaluations"] % 50 == 0:
                json.dump([rep, 0], open(out + ".part.t", "w"))
                os.replace(out + ".part.t", out + ".part")
            mm[:16] = struct.pack("<qq", fi, i)
            src = Src(rng=case_rng(job["seed"], job["property"], facet, i))
            res = run_case(facet, src)
            st["evaluations"] += 1
            for l in src.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if res is None or res[0] != "discard":
                if src.nontrivial:
                    st["nontrivial"] += 1
                    hashes.add(choice_hash(facet, src.choices))
                    if len(st["samples"]) < 2 and src.desc and i > 8:
                        st["samples"].append(" ; ".join(map(str, src.desc))[:600])
            if res is None:
                continue
            if res[0] == "discard":
                st["discards"][res[1]] = st["discards"].get(res[1], 0) + 1
                continue
            if explore:
                sig = f"{facet} | {src.sig} | {res[1]}"
                d = rep["sigs"].setdefault(sig, [0, None, 10**9])
                d[0] += 1
                size = len(src.choices)
                if size < d[2]:
                    d[1], d[2] = {"facet": facet, "choices": src.choices, "i": i, "msg": res[2],
                                  "desc": list(map(str, src.desc))}, size
                continue
            # shrink, keeping the same facet (and the same kind of failure)
            kind = res[1]
            orig = {"facet": facet, "index": i, "choices": src.choices, "kind": kind, "msg": res[2],
                    "desc": list(map(str, src.desc)), "sig": src.sig}
            json.dump({"partial": orig}, open(out + ".viol", "w"))

            def still(c):
                s = Src(prefix=c)
                try:
                    r = run_case(facet, s)
                except Exception:
                    return None
                if r is not None and r[0] == "violation" and r[1] == kind and s.sig == orig["sig"]:
                    return s.choices
                return None
            t1 = time.time()
            best = shrink(src.choices, lambda c: still(c) if time.time() - t1 < 20 else None)
            s = Src(prefix=best)
            r = run_case(facet, s)
            if r is not None and r[0] == "violation":
                orig.update(choices=s.choices, msg=r[2], desc=list(map(str, s.desc)), kind=r[1], sig=s.sig)
            rep["violations"].append(orig)
            dead = True
            break
    if explore:
        # light shrink of each example
        for sig, d in rep["sigs"].items():
            ex = d[1]
            t1 = time.time()

            def still(c, ex=ex, sig=sig):
                if time.time() - t1 > 3:
                    return None
                s = Src(prefix=c)
                try:
                    r = run_case(ex["facet"], s)
                except Exception:
                    return None
                if r is not None and r[0] == "violation" and f"{ex['facet']} | {s.sig} | {r[1]}" == sig:
                    return s.choices
                return None
            if os.environ.get("NOSHRINK"):
                continue
            best = shrink(ex["choices"], still, 400)
            s = Src(prefix=best)
            r = run_case(ex["facet"], s)
            if r and r[0] == "violation":
                ex.update(choices=s.choices, msg=r[2], desc=list(map(str, s.desc)))
    rep["hashes"] = list(hashes)
    rep["wall"] = time.time() - t0
    json.dump(rep, open(out, "w"))


main()
