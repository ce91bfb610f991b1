"""Writes /verif/known_findings.json. Each open entry names one concrete input (`code` fails on the defective tree);
fixed entries suppress nothing and only record what was repaired."""
import json, subprocess, sys
OPEN = []


def o(prop, id, what, code):
    OPEN.append({"property": prop, "id": id, "status": "open", "what": what, "code": code})


o("C05", "percentile-scalar-shape", "percentile/quantile: a scalar q gives shape (1,) where the result is 0-d",
  "assert np.asarray(rp.percentile(rp.array([1.0, 2.0, 4.0]), 50.0)).shape == ()")
o("C05", "ptp-int64-precision", "ptp over all axes goes through float64",
  "assert int(rp.ptp(rp.asarray(np.array([0, 2**53 + 1])))) == 2**53 + 1")
o("C06", "nanprod-int", "nanprod of integers is computed in float64",
  "assert int(rp.nanprod(rp.asarray(np.array([2**53 + 1, 1])))) == 2**53 + 1")
o("C07", "convolve-dtype", "convolve of integers returns float64",
  "assert np.asarray(rp.convolve(rp.array([1, 2, 3]), rp.array([1, 2]))).dtype == 'int64'")
o("C07", "cov-one-row", "cov of a 2-D array of one row gives shape (1, 1)",
  "assert np.asarray(rp.cov(rp.asarray(np.array([[1.0, 2.0, 4.0]])))).shape == ()")
o("C09", "mgrid-one-tuple", "mgrid with a 1-tuple key drops the leading axis",
  "assert np.asarray(rp.mgrid[(slice(0, 3),)]).shape == (1, 3)")
o("C09", "unravel-index-nd", "unravel_index flattens an index array of more than one dimension",
  "assert np.asarray(rp.unravel_index(rp.array([[1, 2], [3, 0]]), (2, 2))[0]).shape == (2, 2)")
o("C11", "searchsorted-scalar", "searchsorted of a Python scalar gives shape (1,)",
  "assert np.asarray(rp.searchsorted(rp.array([1.0, 2.0]), 1.5)).shape == ()")
o("C12", "number-to-str", "astype of numbers to str is refused (NumPy formats the numbers)",
  "assert np.asarray(rp.array([1, 23]).astype('U4')).tolist() == ['1', '23']")
o("C12", "str-to-number", "astype of strings to numbers is refused (NumPy parses them)",
  "assert np.asarray(rp.asarray(np.array(['1', '23'])).astype('float64')).tolist() == [1.0, 23.0]")
o("C13", "array-overflow", "array([300], dtype='uint8') wraps where NumPy raises OverflowError",
  "try:\n    rp.array([300], dtype='uint8')\nexcept OverflowError:\n    pass\nelse:\n    raise SystemExit(1)")
o("C13", "array-scalar", "array(5) is refused; NumPy makes a 0-d array", "assert np.asarray(rp.array(5)).shape == ()")
o("C14", "tolist-datetime", "tolist of datetime64 gives floats",
  "import datetime\nassert rp.asarray(np.array(['2020-01-02'], 'M8[D]')).tolist() == [datetime.date(2020, 1, 2)]")
o("C15", "loadtxt-complex", "loadtxt does not read complex text",
  "open('c.txt', 'w').write('(1+2j)\\n(3+4j)\\n')\nassert np.asarray(rp.loadtxt('c.txt', dtype='complex128')).tolist() == [1+2j, 3+4j]")
o("C17", "cross-2d", "cross accepts only 1-D operands of length 3",
  "assert np.asarray(rp.cross(rp.asarray(np.eye(3)[:2]), rp.asarray(np.eye(3)[1:]))).tolist() == np.cross(np.eye(3)[:2], np.eye(3)[1:]).tolist()")
o("C18", "svd-rank-deficient", "svd loses left or right singular vectors of some exactly rank-deficient matrices with five or more rows and columns "
  "(faer 0.20.2; affects pinv and lstsq)",
  "a = np.outer([0.0, -6, -2, -3, -5], np.ones(6))\n"
  "u, s, vt = map(np.asarray, rp.linalg.svd(rp.asarray(a)))\nassert np.allclose((u * s) @ vt, a)")
o("C18", "eig-degenerate", "eig gives NaN (or panics) on some matrices with highly degenerate spectra, such as 70 by 70 ones (faer 0.20.2)",
  "w, v = map(np.asarray, rp.linalg.eig(rp.ones((70, 70))))\nassert np.allclose(np.ones((70, 70)) @ v, v * w)")
o("C18", "qr-identical-columns", "qr gives infinities on some large matrices of identical columns (faer 0.20.2)",
  "r = np.random.default_rng(0)\nfor i in range(60):\n    a = np.outer(r.standard_normal(48), np.ones(17 + i % 30))\n"
  "    q, t = map(np.asarray, rp.linalg.qr(rp.asarray(a)))\n    assert np.allclose(q @ t, a)")
import os
if os.path.exists(os.path.join(os.path.dirname(__file__), "findings_more.py")):
    exec(open(os.path.join(os.path.dirname(__file__), "findings_more.py")).read())

PROP = {  # first words of each fix commit -> property
    "printing:": "C28", "empty-difference:": "C27", "slice-steps:": "C08", "word-arguments:": "C27", "text-width:": "C13", "several-axes:": "C05", "reshape-view:": "C08", "quantiles:": "C05", "real-only:": "C27", "dtype-refusals:": "C27", "argument-range:": "C27", "empty-lanes:": "C27", "in-place:": "C25", "ediff1d:": "C07", "functional:": "C23", "unary:": "C02", "datetime:": "C22", "char:": "C21", "fft:": "C19", "polynomials:": "C20",
    "slicing and core": "C08", "tolist and scalar": "C14", "out-of-range integer": "C08", "reshape/ravel": "C10", "astype dropped": "C12",
    "gcd/lcm": "C01", "remainder/": "C01", "unary ufuncs": "C02", "bitwise ops": "C03", "operators with": "C04", "axis reductions": "C05",
    "min/max": "C05", "gradient wrote": "C07", "logaddexp": "C01", "repeat/tile": "C10", "integer-array": "C09", "put/place": "C09",
    "array() infers": "C13", "sort/argsort": "C11", "digitize": "C11", "can_cast": "C12", "arange made": "C13", "exchange with": "C14",
    "where with": "C03", "saving and": "C15", "random:": "C16", "matmul, dot": "C17", "matmul: a": "C17", "linalg:": "C18"}
exec(open(os.path.join(os.path.dirname(__file__), "findings_prop.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), "findings_prop.py")) else None
fixed = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        what = s[5:]
        p = next((v for k, v in PROP.items() if what.startswith(k)), None)
        if p is None:
            sys.exit(f"no property for {line}")
        fixed.append({"property": p, "id": f"fixed-{h}", "status": "fixed", "commit": h, "what": what, "line": f"fixed: property={p} {h} {what}"})
json.dump({"findings": OPEN + fixed}, open("/verif/known_findings.json", "w"), indent=1)
if "--check" in sys.argv:
    pre = "import sys; sys.path[:0]=['/verif/.build/pymod']\nimport warnings; warnings.simplefilter('ignore')\nimport numpy as np; np.seterr(all='ignore')\nimport rumpy as rp\n"
    for f in OPEN:
        r = subprocess.run(["/opt/vp/venv/bin/python", "-c", pre + f["code"]], capture_output=True, text=True, cwd="/tmp")
        print("reproduces" if r.returncode else "*** HOLDS ***", f["property"], f["id"], (r.stderr.strip().splitlines() or [""])[-1][:110])
