"""C15: saving and loading."""
import io
import os
import zipfile
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import compare, run, Err, show

RULE = ("an array (dtype, contents, layout) written and read back by either library, a generated text table with parameters, or a damaged "
        "file; non-trivial = at least one element is transferred, or the file is damaged in a place that matters")
ASSUMPTIONS = ["NumPy 2.3.5 reads and writes the reference files"]
UNITS = ["D", "s", "ms", "us", "ns", "h", "m", "W", "M", "Y"]
F1, F2 = "a.dat", "b.dat"  # in the scratch directory the driver makes and removes
DIR = os.path.join(os.environ.get("RPV_SCRATCH", "."), f"io{os.getpid()}")


def path(name):
    os.makedirs(DIR, exist_ok=True)
    return os.path.join(DIR, name)


def anyarray(src, lo=0):
    """Numbers, strings, bytes or times."""
    k = src.weighted([(12, "num"), (2, "U"), (2, "S"), (2, "M"), (1, "m")])
    shp = G.shape(src, lo, 4)
    size = int(np.prod(shp))
    if k == "num":
        d = src.choice(G.ALL)
        return G.array(src, d, shp, bcast=True)
    if k in "US":
        w = src.int(1, 5)
        alpha = "abcXYZ09 _" + ("éß漢" if k == "U" else "")
        v = ["".join(src.choice(alpha) for _ in range(src.int(0, w))).rstrip(" \0") or "q" for _ in range(size)]
        if k == "S":
            v = [x.encode() for x in v]
        n = np.array(v, dtype=f"{k}{w}").reshape(shp)
    else:
        u = src.choice(UNITS)
        n = np.array([src.choice([0, 1, -1, 365, 20000, 123456, -(2**63), 10**9]) for _ in range(size)], "i8").view(f"{k}8[{u}]").reshape(shp)
    r = rp.asarray(n)
    if n.ndim >= 2 and src.bool(0.4):
        return G.Arr(r.T, n.T, "T")
    if n.ndim >= 1 and n.size and src.bool(0.3):
        return G.Arr(r[::2], n[::2], "step")
    return G.Arr(r, n, "C")


def same(what, r, n):
    m = np.asarray(r)
    if m.dtype != n.dtype or m.shape != n.shape:
        raise Violation("dtype" if m.dtype != n.dtype else "shape", f"{what}: got {show(m)}, expected {show(n)}")
    if n.dtype.kind in "US":
        if not (m == n).all():
            raise Violation("value", f"{what}: got {show(m)}, expected {show(n)}")
        return
    if n.dtype.kind in "mM":
        m, n = m.view("i8"), n.view("i8")
        if not (m == n).all():
            raise Violation("value", f"{what}: got {show(m)}, expected {show(n)}")
        return
    if m.tobytes() != n.tobytes():
        compare(what, r, n, exact=True, signzero=True)


def must(what, f):
    r = run(f)
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{what}: {r}")
    return r


def npy(src):
    """save -> load and np.load; np.save -> load."""
    A = anyarray(src)
    n = A.n
    src.sig = f"npy {n.dtype.kind} {A.lay[:5]} {n.ndim}"
    src.note(f"npy {A!r}")
    src.nontrivial = n.size > 0
    p = path("a.npy")
    must("save", lambda: rp.save(p, A.r))
    same("rp.load(rp.save)", must("load", lambda: rp.load(p)), n)
    with open(p, "rb") as f:
        m = must("np.load of rp.save", lambda: np.load(io.BytesIO(f.read())))
    same("np.load(rp.save)", m, n)
    same("the saved array", A.r, n)
    np.save(p, n)
    r = must("load of np.save", lambda: rp.load(p))
    same("rp.load(np.save)", r, n)
    if n.size and n.dtype.kind in "fiu":
        r[Ellipsis] = 1
        w = np.ones_like(n)
        same("writing to a loaded array", r, w)


def npz(src):
    k = src.int(1, 4)
    arrs = [anyarray(src) for _ in range(k)]
    names = [src.choice(["a", "b", "x1", "arr_9", "weights", "é", "with space", "dot.npy.x", "data.npy"]) + str(i) * src.int(0, 1) for i in range(k)]
    names = list(dict.fromkeys(names))
    pos = arrs[len(names):] if src.bool(0.7) else []
    kw = dict(zip(names, arrs))
    comp = src.bool(0.5)
    src.sig = f"npz {comp} {len(pos)} {len(kw)}"
    src.note(f"npz compressed={comp} {pos} {kw}")
    src.nontrivial = any(a.n.size for a in arrs)
    p = path("a.npz")
    want = {f"arr_{i}": a.n for i, a in enumerate(pos)}
    want.update({q: a.n for q, a in kw.items()})
    f = rp.savez_compressed if comp else rp.savez
    must("savez", lambda: f(p, *[a.r for a in pos], **{q: a.r for q, a in kw.items()}))
    for who in ("rp", "np"):
        if who == "rp":
            got = must("load", lambda: rp.load(p))
        else:
            with np.load(p) as z:
                got = {q: z[q] for q in z.files}
        if set(got) != set(want):
            raise Violation("names", f"{who}.load of savez: names {sorted(got)}, expected {sorted(want)}")
        for q in want:
            same(f"{who}.load of savez [{q}]", got[q], want[q])
    (np.savez_compressed if comp else np.savez)(p, **want)
    got = must("load of np.savez", lambda: rp.load(p))
    if set(got) != set(want):
        raise Violation("names", f"rp.load of np.savez: names {sorted(got)}, expected {sorted(want)}")
    for q in want:
        same(f"rp.load of np.savez [{q}]", got[q], want[q])


def binary(src):
    """tofile/fromfile and frombuffer: bytes with offset and count."""
    d = src.choice(G.ALL)
    A = G.array(src, d, G.shape(src, 0, 3), bcast=True)
    n = A.n
    p = path("a.bin")
    src.note(f"tofile/fromfile {A!r}")
    src.sig = f"bin {d} {A.lay[:4]}"
    src.nontrivial = n.size > 0
    must("tofile", lambda: A.r.tofile(p))
    data = n.tobytes()
    with open(p, "rb") as f:
        if f.read() != data:
            raise Violation("value", f"tofile wrote other bytes than tobytes for {show(n)}")
    if A.r.tobytes() != data:
        raise Violation("value", "tobytes")
    e = src.choice([d, d, "uint8", "int32", "float64", "complex64"])
    off = src.choice([0, 0, n.itemsize, 1, 8, len(data), len(data) + 3])
    cnt = src.choice([-1, -1, 0, 1, 2, n.size, n.size + 2])
    src.note(f"dtype {e} offset {off} count {cnt}")
    want = run(lambda: np.fromfile(p, e, count=cnt, offset=off))
    r = run(lambda: rp.fromfile(p, dtype=e, count=cnt, offset=off))
    if isinstance(r, Err) and r.panic:
        raise Violation("panic", f"fromfile: {r}")
    if not isinstance(want, Err) and off <= len(data):
        if isinstance(r, Err):
            raise Violation("raises", f"fromfile: {r}, expected {show(want)}")
        same("fromfile", r, want)
    want = run(lambda: np.frombuffer(data, e, count=cnt, offset=off))
    r = run(lambda: rp.frombuffer(data, dtype=e, count=cnt, offset=off))
    if isinstance(r, Err) and r.panic:
        raise Violation("panic", f"frombuffer: {r}")
    if isinstance(want, Err):
        if data and off < len(data) and not isinstance(r, Err):
            raise Violation("accepts-invalid", f"frombuffer: the reference raises {want}, got {show(r)}")
    elif isinstance(r, Err):
        raise Violation("raises", f"frombuffer: {r}, expected {show(want)}")
    else:
        same("frombuffer", r, want)


FMT = ["%.18e", "%.18e", "%.3e", "%d", "%.2f", "%g", "%.10g", "%8.3f", "%-8.3f", "%+.4e", "%05d", "%s", "%.17g", "%i", "%10.4g", "%E", "% .3f"]


def savetxt(src):
    """savetxt writes NumPy's text; loadtxt reads it back."""
    d = src.choice(["float64", "float64", "int64", "float32", "int32", "uint8", "uint64", "complex128", "bool", "int8"])
    shp = G.shape(src, 1, 2)
    A = G.array(src, d, shp, src.choice(["any", "mod", "small"]) if d[0] != "c" else "finite")
    n = A.n
    fmt = src.choice(FMT)
    if n.dtype.kind == "c":
        fmt = "%.18e"
    if n.dtype.kind == "f" and fmt[-1] in "di":
        n2 = n[np.isfinite(n)]
        if n2.size != n.size:
            fmt = "%.3e"
    if n.dtype.kind == "b" and fmt == "%s":
        fmt = "%d"
    if d == "float32" and fmt == "%s":  # NumPy's own text of a float32 scalar: several spellings of one value
        fmt = "%g"
    kw = {}
    if src.bool(0.5):
        kw["fmt"] = fmt
    else:
        fmt = "%.18e"
    if src.bool(0.5):
        kw["delimiter"] = src.choice([",", ";", "\t", ", ", " | "])
    if src.bool(0.2):
        kw["newline"] = src.choice(["\r\n", " \n"])
    if src.bool(0.25):
        kw["header"] = src.choice(["x", "a b\nc", "h\n"])
    if src.bool(0.2):
        kw["footer"] = src.choice(["end", "e\nf"])
    if src.bool(0.15):
        kw["comments"] = src.choice(["% ", "", "//"])
    src.sig = f"savetxt {d} {fmt} {A.lay[:4]}"
    src.note(f"savetxt({A!r}, {kw})")
    src.nontrivial = n.size > 0
    p, q = path(F1), path(F2)
    want = run(lambda: np.savetxt(q, n, **kw))
    r = run(lambda: rp.savetxt(p, A.r, **kw))
    if isinstance(want, Err):
        raise Discard("ref-refuses")
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"savetxt: {r}")
    a, b = open(p, newline="").read(), open(q, newline="").read()
    nl = kw.get("newline", "\n")
    if nl != "\n" and ("header" in kw or "footer" in kw):  # NumPy keeps "\n" inside a header of several lines
        a, b = a.replace(nl, "\n"), b.replace(nl, "\n")
    if a != b:
        raise Violation("text", f"savetxt wrote {a[:300]!r}, expected {b[:300]!r}")
    if n.size and n.dtype.kind in "iuf" and fmt in ("%.18e", "%.17g", "%d") and kw.get("comments") is None and nl == "\n":
        if n.dtype.kind in "iu" and fmt != "%d" or n.dtype.kind == "f" and fmt == "%d":
            return
        delim = kw.get("delimiter")
        back = must("loadtxt of savetxt", lambda: rp.loadtxt(p, dtype=d, delimiter=delim))
        compare("loadtxt(savetxt)", back, np.squeeze(n), exact=True, signzero=n.dtype.kind == "f")


def number(src, d):
    if d.startswith("u"):
        return str(src.choice([0, 1, 7, 12, 255, 200, 3, 99])) if d == "uint8" else str(src.choice([0, 1, 7, 2**64 - 1, 2**63, 12345678901234567]))
    if d.startswith("i"):
        return str(src.choice([0, 1, -1, 7, 12, -99, 2**31 - 1, -(2**31)] + ([2**63 - 1, -(2**63), 2**53 + 1, -(2**60) - 7] if d == "int64" else [])))
    return src.choice(["0", "1", "-1.5", "2.25", "1e5", "-3E-2", ".5", "7.", "nan", "inf", "-inf", "1e400", "123456789.125", "0.1", "1e-320", "+3", "-0.0", "17"])


def loadtxt(src):
    """loadtxt / genfromtxt on generated tables with comments, blank lines and parameters."""
    gen = src.bool(0.4)
    f = "genfromtxt" if gen else "loadtxt"
    d = src.choice(["float64", "float64", "int64", "float32", "int32", "uint8", "uint64"])
    delim = src.choice([None, None, ",", ";", "|"])
    com = src.choice(["#", "#", "%", "//"])
    nc = src.int(1, 4)
    nr = src.int(0, 5)
    lines = []
    kw = {"dtype": d}
    if delim:
        kw["delimiter"] = delim
    if com != "#":
        kw["comments"] = com
    ragged = False

    def sep():
        if delim is None:
            return src.choice([" ", "  ", "\t", " \t "])
        return src.choice(["", " "]) + delim + src.choice(["", " ", ""])
    head = src.int(0, 2) if src.bool(0.3) else 0
    for _ in range(head):
        lines.append(src.choice(["x y z", "1 2", "", com + " c"]))
    if head:
        kw["skip_header" if gen else "skiprows"] = head
    for i in range(nr):
        if src.bool(0.15):
            lines.append(src.choice(["", "   ", com + " note", com, "  " + com + "1 2 3"] if delim is None else ["", com + " note", com, com + "1,2"]))
        k = nc
        if src.bool(0.04):
            k = nc + 1
            ragged = True
        s = src.choice(["", "", " "])
        for j in range(k):
            cell = number(src, d)
            if gen and d[0] == "f" and src.bool(0.15):
                cell = "" if delim else "N/A"
                if src.bool(0.5):
                    cell = "N/A"
            s += cell + (sep() if j < k - 1 else "")
        if src.bool(0.15):
            s += src.choice([" ", "", " "]) + com + src.choice([" trailing", "9", ""])
        lines.append(s)
    if src.bool(0.2):
        lines.append(src.choice(["", com + "end"]))
    text = "\n".join(lines) + ("\n" if src.bool(0.8) else "")
    if src.bool(0.3):
        kw["usecols"] = [src.int(0, nc - 1 + src.bool(0.1)) for _ in range(src.int(1, 3))]
    if src.bool(0.25):
        kw["max_rows"] = src.int(1, 4)
    elif gen and not ragged and src.bool(0.3):
        kw["skip_footer"] = src.int(0, 3)
    if gen and d[0] == "f" and src.bool(0.4):
        kw["filling_values"] = src.choice([0.0, -1.0, 99.5])
    p = path(F1)
    with open(p, "w") as h:
        h.write(text)
    src.sig = f"{f} {d} {delim} {sorted(k for k in kw if k not in ('dtype', 'delimiter'))}"
    src.note(f"{f}({text!r}, {kw})")
    src.nontrivial = nr > 0
    nf, rf = getattr(np, f), getattr(rp, f)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kn = dict(kw)
        n = run(lambda: nf(p, **kn))
    r = run(lambda: rf(p, **kw))
    if isinstance(r, Err) and r.panic:
        raise Violation("panic", f"{f}: {r}")
    if isinstance(n, Err):
        if not isinstance(r, Err):
            raise Violation("accepts-invalid", f"{f}: the reference raises {n}, got {show(r)}")
        return
    if isinstance(r, Err):
        raise Violation("raises", f"{f}: {r}, expected {show(n)}")
    if n.size == 0 and np.asarray(r).size == 0:
        return
    compare(f, r, n, exact=True)


def textfile(src):
    """tofile(sep) / fromfile(sep)."""
    d = src.choice(["float64", "int64", "float32", "int32", "uint64", "uint8"])
    A = G.array(src, d, G.shape(src, 1, 2), src.choice(["any", "small"]))
    n = A.n
    sep = src.choice([",", " ", ", ", ";", "\n", " | "])
    fmt = src.choice(["", "", "%s", "%.17g", "%d"])
    if fmt == "%d" and d[0] == "f" or fmt == "%.17g" and d[0] != "f":
        fmt = ""
    src.sig = f"tofile {d} {sep!r} {fmt}"
    src.note(f"tofile({A!r}, sep={sep!r}, format={fmt!r})")
    src.nontrivial = n.size > 0
    p, q = path(F1), path(F2)
    must("tofile", lambda: A.r.tofile(p, sep=sep, format=fmt) if fmt else A.r.tofile(p, sep=sep))
    n.tofile(q, sep=sep, format=fmt or "%s")
    a, b = open(p, newline="").read(), open(q, newline="").read()
    if a != b and d != "float32":  # NumPy writes a float32 with the digits of a double
        raise Violation("text", f"tofile wrote {a[:300]!r}, expected {b[:300]!r}")
    cnt = src.choice([-1, -1, 1, n.size])
    back = must("fromfile", lambda: rp.fromfile(p, dtype=d, sep=sep, count=cnt))
    compare("fromfile(tofile)", back, n.ravel()[: cnt if cnt >= 0 else None], exact=True, signzero=d[0] == "f")


def damaged(src):
    """Truncated, corrupted or lying files: an exception or a well-formed array, never a crash or a panic."""
    A = anyarray(src)
    n = A.n
    kind = src.choice(["trunc", "flip", "header", "shape", "zip", "text"])
    src.sig = f"damaged {kind}"
    b = io.BytesIO()
    np.save(b, n)
    data = b.getvalue()
    p = path("d.npy")
    valid = None
    if kind == "trunc":
        k = src.below(len(data))
        src.note(f"npy of {show(n)} cut to {k} of {len(data)} bytes")
        data = data[:k]
        valid = False
    elif kind == "flip":
        a = bytearray(data)
        for _ in range(src.int(1, 3)):
            i = src.below(min(len(a), 140))
            v = src.below(256)
            src.note(f"byte {i} = {v}")
            a[i] = v
        data = bytes(a)
    elif kind in ("header", "shape"):
        descr = src.choice(["<f8", "<f8", ">f8", "<i4", "|u1", "<U3", "|O", "<U0", "<f9", "", "<M8[q]", ">M8[D]", "<M8[D]", "|V8", "=f8", "float64", "<c16"])
        big = [0, 1, 2, 3, 5, 2**16, 2**31, 2**32, 2**40, 2**61, 2**63, 2**64 - 1, 2**64, -1, "x", "3.0", "", " 2"]
        shp = [src.choice(big) for _ in range(src.int(0, 4))]
        fo = src.choice(["False", "True", "false", "0"])
        h = f"{{'descr': '{descr}', 'fortran_order': {fo}, 'shape': ({', '.join(map(str, shp))}{',' if len(shp) == 1 else ''}), }}\n"
        if src.bool(0.1):
            h = h[: src.below(len(h))]
        hl = len(h) if src.bool(0.8) else src.choice([0, 5, 65535, max(0, len(h) - 1), len(h) + 100])
        body = bytes(src.below(64))
        ver = src.choice([1, 1, 2, 3, 0, 9])
        lenb = hl.to_bytes(2, "little") if ver < 2 else (hl if src.bool(0.8) else 2**32 - 1).to_bytes(4, "little")
        data = b"\x93NUMPY" + bytes([ver, 0]) + lenb + h.encode() + body
        src.note(f"npy {data[:200]!r}")
    elif kind == "zip":
        z = io.BytesIO()
        with zipfile.ZipFile(z, "w") as f:
            f.writestr("a.npy", data if src.bool(0.5) else data[: src.below(len(data))])
        data = bytearray(z.getvalue())
        if src.bool(0.7):
            for _ in range(src.int(1, 4)):
                data[src.below(len(data))] = src.below(256)
        else:
            data = data[: src.below(len(data))]
        data = bytes(data)
        p = path("d.npz")
        src.note(f"npz {data[:300]!r}")
    else:
        txt = "".join(src.choice(["1", "2.5", " ", ",", "\n", "#", "x", "-", "e", "nan", "\t", "é", "999999999999999999999"]) for _ in range(src.int(0, 20)))
        p = path("d.txt")
        with open(p, "w") as f:
            f.write(txt)
        d = src.choice(["float64", "int64", "uint8", "complex128", "bool", "U3", "datetime64[D]"])
        src.note(f"text {txt!r} {d}")
        for what, f in (("loadtxt", lambda: rp.loadtxt(p, dtype=d, delimiter=",")), ("loadtxt ws", lambda: rp.loadtxt(p, dtype=d)),
                        ("genfromtxt", lambda: rp.genfromtxt(p, dtype=d, delimiter=",")), ("fromfile", lambda: rp.fromfile(p, dtype=d, sep=",")),
                        ("fromfile bin", lambda: rp.fromfile(p, dtype=d))):
            r = run(f)
            if isinstance(r, Err) and r.panic:
                raise Violation("panic", f"{what}: {r}")
            if not isinstance(r, Err):
                np.asarray(r).copy()
        src.nontrivial = bool(txt)
        return
    src.nontrivial = True
    with open(p, "wb") as f:
        f.write(data)
    r = run(lambda: rp.load(p))
    if isinstance(r, Err):
        if r.panic:
            raise Violation("panic", f"load: {r}")
        return
    if valid is False:
        raise Violation("accepts-invalid", f"load of a truncated file gave {show(r)}")
    for a in (r.values() if isinstance(r, dict) else [r]):
        m = np.asarray(a)
        if m.nbytes < 1 << 26:
            m.copy()
        if kind in ("header", "shape", "flip"):
            e = run(lambda: np.load(io.BytesIO(data)))
            if not isinstance(e, Err) and (m.dtype != e.dtype or m.shape != e.shape or m.tobytes() != e.tobytes()):
                raise Violation("value", f"load gave {show(m)}, the reference reads {show(e)}")


def missing(src):
    """Paths that cannot be read or written (a full device included) raise OSError and leave nothing behind."""
    k = src.choice(["load", "loadtxt", "genfromtxt", "fromfile", "save", "savetxt", "savez", "tofile"])
    bad = src.choice([path("no-such-file"), path("no-dir/x"), DIR])
    if k in ("save", "savetxt", "savez", "tofile"):
        bad = src.choice([path("no-dir/x.npy"), DIR, "/dev/full"])
    src.sig = f"missing {k}"
    src.note(f"{k} {os.path.basename(bad)}")
    src.nontrivial = True
    a = rp.arange(src.choice([3, 1, 100, 5000]))
    f = {"load": lambda: rp.load(bad), "loadtxt": lambda: rp.loadtxt(bad), "genfromtxt": lambda: rp.genfromtxt(bad),
         "fromfile": lambda: rp.fromfile(bad), "save": lambda: rp.save(bad, a), "savetxt": lambda: rp.savetxt(bad, a),
         "savez": lambda: rp.savez(bad, a), "tofile": lambda: a.tofile(bad)}[k]
    r = run(f)
    if not isinstance(r, Err) and k == "fromfile" and bad == DIR:
        return
    if not isinstance(r, Err) or r.panic or not isinstance(r.e, OSError):
        raise Violation("raises", f"{k} of a bad path: {r if isinstance(r, Err) else show(r)}")
    if os.path.exists(path("no-dir")) or os.path.isfile(path("no-such-file")):
        raise Violation("leftover", f"{k} created something")


FACETS = {"npy": Facet(npy, 6000), "npz": Facet(npz, 1500), "binary": Facet(binary, 8000), "savetxt": Facet(savetxt, 8000),
          "loadtxt": Facet(loadtxt, 12000), "textfile": Facet(textfile, 6000), "damaged": Facet(damaged, 12000), "missing": Facet(missing, 300)}
