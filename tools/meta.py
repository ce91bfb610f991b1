"""Writes properties.jsonl and MANIFEST.json from the descriptors below:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
TESTS = ("The existing tests compare a few hand-picked arrays per function, almost always small, C-contiguous and of one dtype; the "
         "claim is about every combination of ")


def prop(id, title, statement, over, text, why, files, mech, technique=None):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                 why_tests_cant=TESTS + why if why[:1].islower() else why,
                 anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None})
    P[id]["_t"] = technique or "property-based testing, differential against NumPy"


prop("C01", "Elementwise binary arithmetic agrees with NumPy",
     "For every pair of arrays with broadcast-compatible shapes, add, subtract, multiply, divide, floor_divide, remainder, power, "
     "float_power, maximum, minimum, fmax, fmin, fmod, divmod, arctan2, hypot, copysign, logaddexp(2), nextafter, heaviside, gcd, lcm, "
     "ldexp and the operators + - * / // % ** return NumPy's shape, dtype and values. The operands' dtypes (bool, all integer widths, "
     "float16/32/64, complex64/128), memory layouts (C, Fortran, strided, reversed, transposed, broadcast) and special values "
     "(NaN, infinities, signed zero, integer extremes) are arbitrary where NumPy accepts them; complex operands are finite and integer "
     "exponents are 0..100.",
     ["inputs"], "all pairs of arrays (dtypes, shapes, contents, layouts) and all listed functions and operators",
     "dtype pair, broadcast pattern, memory layout of each operand, and special values.",
     ["src/ops/ufunc.rs", "src/ops/dispatch.rs", "src/ops/kernels/arithmetic.rs", "src/ops/special.rs", "src/array/dtype/macros.rs"],
     [("typed kernels and strided loops", "src/ops/dispatch.rs, src/ops/loops"), ("dtype promotion", "src/array/dtype/mod.rs promote_dtype"),
      ("broadcasting", "src/ops/mod.rs, src/array/views.rs broadcast_to")])
prop("C02", "Elementwise unary functions agree with NumPy",
     "For every array, the elementwise unary functions (sign, rounding except ties, exponential, logarithmic, trigonometric, hyperbolic, "
     "angle conversion, classification such as isnan/isfinite/signbit, real/imag/conj, clip, round(decimals), nan_to_num, frexp, modf) and "
     "the operators -x and abs(x) return NumPy's shape, dtype and values, to rounding, whatever the dtype, layout and special values. "
     "Complex functions give both parts, on their branch cuts too, and functions defined only for real numbers raise on complex input; round and rint break exact ties away from zero, as the project documents.",
     ["inputs"], "all arrays (dtype, shape, contents, layout) and all listed functions",
     "dtype, memory layout, special values and function.",
     ["src/ops/ufunc.rs", "src/ops/array_methods/unary.rs", "src/ops/kernels/math.rs", "src/array/dtype/macros.rs", "src/ops/special.rs"],
     [("map_unary_op and typed kernels", "src/ops/ufunc.rs, src/ops/kernels/math.rs")])
prop("C03", "Comparisons, logical and bitwise operations and where agree with NumPy",
     "For all arrays with broadcast-compatible shapes (or an array and a Python or NumPy number), the comparison functions and operators "
     "(numbers, strings, bytes and datetimes; mixed signed and unsigned 64-bit integers exactly; ordering of complex numbers excluded), the "
     "logical_* functions, the bitwise functions and operators on integer and bool arrays (shifts included), isclose, allclose, "
     "array_equal and where(cond, x, y) return exactly NumPy's results, for every dtype pair, layout and special value. Bitwise "
     "operations follow NumPy's promotion and shifts by the bit width or more give 0 or the sign.",
     ["inputs"], "all operand pairs (dtype, shape, contents, layout)",
     "dtype pair, broadcast pattern, layout and special values.",
     ["src/ops/comparison.rs", "src/ops/bitwise.rs", "src/ops/dispatch.rs", "src/ops/array_methods/logical.rs", "src/python/ufuncs.rs"],
     [("typed comparison and bitwise dispatch", "src/ops/dispatch.rs")])
prop("C04", "Arrays combined with Python scalars behave like NumPy's weak scalars",
     "For every array and Python int, float, bool or complex scalar, on either side, the arithmetic, comparison and bitwise operators and "
     "the binary functions give NumPy 2's result dtype, shape and values: a Python scalar adapts to the array's dtype unless it is of a "
     "higher kind. Chains of such operations on one array stay equal to NumPy's at every step.",
     ["inputs", "histories"], "all arrays, scalars, operators and operator chains",
     "array dtype, scalar type and value, operand order and operator.",
     ["src/python/pyarray/dunder_ops.rs", "src/python/pyarray/mod.rs", "src/python/ufuncs.rs"],
     [("scalar operand conversion", "src/python/pyarray scalar_operand")])
prop("C05", "Reductions agree with NumPy over every axis and layout",
     "For every non-complex array (complex too for sum, prod and mean), sum, prod, min, max, mean, var, std, any, all, argmin, argmax, "
     "ptp, median, average (weighted too), percentile/quantile and count_nonzero, over all axes, one axis (negative too for the functions) or, "
     "where accepted, several, with and without keepdims, give NumPy's shape, dtype and values. NaN propagates through min/max/argmin/argmax, "
     "ties give the first index, small integers accumulate in 64 bits, and results do not depend on the memory layout.",
     ["inputs"], "all arrays (dtype, shape up to 4-d, contents, layout), axes and keepdims",
     "axis, dtype, layout and NaN placement.",
     ["src/ops/array_methods/reductions.rs", "src/ops/dispatch.rs", "src/ops/statistics.rs", "src/python/reductions.rs",
      "src/python/pyarray/methods_reductions.rs"],
     [("typed reduction kernels with contiguous, strided and axis variants", "src/ops/dispatch.rs"), ("axis offset iteration", "src/array/iter.rs")])
prop("C06", "NaN-aware reductions ignore exactly the NaNs",
     "For every real array, nansum, nanprod, nanmin, nanmax, nanmean, nanvar, nanstd, nanmedian, nanargmin, nanargmax, nancumsum, "
     "nancumprod, nanpercentile and nanquantile over all axes or any one axis equal NumPy's values and shapes for any placement of NaNs, "
     "all-NaN lanes and infinities included.",
     ["inputs"], "all float/int/bool arrays, NaN placements, axes and layouts",
     "NaN placement (all-NaN lanes included), axis and layout.",
     ["src/ops/array_methods/reductions.rs", "src/ops/kernels/arithmetic.rs", "src/ops/statistics.rs", "src/array/manipulation.rs"],
     [("NaN-skipping kernels", "src/ops/kernels/arithmetic.rs impl_nan_reduce")])
prop("C07", "Cumulative, difference and sliding-window functions agree with NumPy",
     "cumsum, cumprod, cumulative_sum/prod (include_initial too), diff of any order, ediff1d, gradient (unit, scalar or coordinate "
     "spacing), trapezoid, unwrap, interp, convolve, correlate (all modes and length orders, small and large), cov and corrcoef give "
     "NumPy's values and shapes for every axis, dtype and memory layout of their inputs.",
     ["inputs"], "all inputs, axes, modes and spacings",
     "axis, dtype, layout, mode and operand lengths.",
     ["src/ops/array_methods/cumulative.rs", "src/ops/numerical.rs", "src/array/manipulation.rs", "src/ops/statistics.rs", "src/python/misc.rs"],
     [("cumulative dispatch", "src/ops/dispatch.rs dispatch_cumulative_typed"), ("direct and FFT convolution", "src/array/manipulation.rs")])

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None

NA = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k in sorted(P):
        d = {a: b for a, b in P[k].items() if a != "_t"}
        f.write(json.dumps(d) + "\n")
NOTE = ("Held on every generated case (counts in the evidence file) against the named oracle; trusts NumPy 2.3.5 as reference "
        "and the generators' coverage; says nothing about inputs outside the stated domain.")
m = {"version": 1, "setup_cmd": "bash bin/build.sh .build/pymod",
     "checks": [{"property": k, "quick_cmd": f"bash bin/check.sh {k} --tier quick", "thorough_cmd": f"bash bin/check.sh {k} --tier thorough",
                 "technique": P[k]["_t"], "level": "exploration", "level_note": P[k].get("_note", NOTE)} for k in sorted(P)],
     "not_applicable": NA}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
