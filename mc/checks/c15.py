"""C15: saving and loading filters and bands, and the syntax of tables."""

import itertools
import math
import os
import sys
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "filters: all terms of an alphabet of 20 primitives (real, complex, NumPy and array parameters, with and without transform), all unary and "
                   "binary operators on all pairs of them, nested constructors and all filter classes, in every format and through eval(repr()); bands: every format, "
                   "1-3 channels with all combinations of 7 sets of supporting points (none, shared, disjoint, integers, complex, huge and tiny values), all "
                   "interpolations and extrapolations, 4 sets of labels; tables: 6 separators, 9 notations of frequencies, 18 x 18 notations of values, comments, "
                   "empty lines and all row lengths 0-3 in all orders; long polynomials, nested terms, up to 130 channels and 1500 supporting points",
          "thorough": "additionally all binary operators on the results of all operators with a smaller alphabet, and rows with 3 values"}
ASSUMPTIONS = ["the value of a fraction is not compared where it was 0/0 (the terms' factories may reduce it, when the filter is loaded)"]
GRID = numpy.array([0.0, 0.5, 1.0, 3.0, 10.0, 20.0, 100.0, 2345.6])
LABELS = [("a", "b", "c"), ("\u00e9, \"x\"\ny", "", "'"), ("1.5", "nan", "0"), ("a", "a", "frequency")]


def primitives():
    import sumpf
    F = sumpf.Filter
    I = sumpf.Bands.interpolations
    return [("c2", F.Constant(2.0)), ("ci", F.Constant(3)), ("cc", F.Constant(1.5 - 0.5j)), ("cn", F.Constant(numpy.float32(0.5))), ("c0", F.Constant(0.0)),
            ("p1", F.Polynomial([0.01, 1.0])), ("p1t", F.Polynomial([0.01, 1.0], transform=True)), ("p2", F.Polynomial((1e-4, 0, 3))),
            ("pn", F.Polynomial(numpy.array([1, 2, 3]))), ("pf", F.Polynomial(numpy.array([0.1, 1 / 3]), transform=True)),
            ("pc", F.Polynomial([0.1j, 2.0 - 1j])), ("p0", F.Polynomial([0.0, 0.0, 1.0, 2.0])),
            ("e", F.Exp(-0.001)), ("et", F.Exp(-0.5, transform=True)), ("ec", F.Exp(-0.001 + 0.002j)),
            ("b", F.Bands(xs=[1.0, 10.0, 100.0], ys=[1.0, 3.0, 1 / 3], interpolation=I.LINEAR, extrapolation=I.STAIRS_LIN)),
            ("bi", F.Bands(xs=[1, 20], ys=[2, 4], interpolation=I.LOGARITHMIC, extrapolation=I.ZERO)),
            ("bc", F.Bands(xs=[0.5, 30.0], ys=[1.0 + 1j, -2.0 - 0.1j], interpolation=I.LINEAR, extrapolation=I.LINEAR)),
            ("b1", F.Bands(xs=[3.0], ys=[7.0], interpolation=I.ONE, extrapolation=I.ONE)),
            ("be", F.Bands(xs=[], ys=[], interpolation=I.LINEAR, extrapolation=I.ZERO))]


UNARY = {"abs": abs, "neg": lambda a: -a, "inv": lambda a: ~a}
BINARY = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def terms(thorough):
    """(name, function, that creates the term) for all terms within the bounds"""
    import sumpf
    F = sumpf.Filter
    I = sumpf.Bands.interpolations
    pool = primitives()
    result = [(n, lambda t=t: t) for n, t in pool]
    inf, nan = math.inf, math.nan
    for n, t in (("inf", F.Constant(inf)), ("nan", F.Constant(nan)), ("infj", F.Constant(complex(1, -inf))), ("nanj", F.Constant(complex(nan, inf))),
                 ("infp", F.Polynomial([1.0, -inf])), ("infb", F.Bands(xs=[1.0, 2.0], ys=[inf, 3.0], interpolation=I.LINEAR, extrapolation=I.ZERO)),
                 ("infbj", F.Bands(xs=[1.0, 2.0], ys=[complex(2, -inf), 1.0], interpolation=I.LINEAR, extrapolation=I.ZERO))):
        result.append((n, lambda t=t: t))
    level = []
    for n, t in pool:
        for u, f in UNARY.items():
            if not (u == "inv" and n in ("c0", "be")):
                level.append((f"{u}({n})", lambda f=f, t=t: f(t)))
    for (n, t), (m, s) in itertools.product(pool, repeat=2):
        for b, f in BINARY.items():
            if not (b == "/" and m in ("c0", "be")):
                level.append((f"({n}{b}{m})", lambda f=f, t=t, s=s: f(t, s)))
        for transform in (False, True):
            for cls in ("Sum", "Product", "Difference", "Quotient"):
                if cls == "Quotient" and m in ("c0", "be"):
                    continue
                make = {"Sum": lambda t, s, r: F.Sum((t, s), transform=r), "Product": lambda t, s, r: F.Product((t, s), transform=r),
                        "Difference": lambda t, s, r: F.Difference(t, s, transform=r), "Quotient": lambda t, s, r: F.Quotient(t, s, transform=r)}[cls]
                level.append((f"{cls}({n},{m},{transform})", lambda t=t, s=s, r=transform, make=make: make(t, s, r)))
    for n, t in pool:
        for transform in (False, True):
            level.append((f"Absolute({n},{transform})", lambda t=t, r=transform: F.Absolute(t, transform=r)))
            level.append((f"Negative({n},{transform})", lambda t=t, r=transform: F.Negative(t, transform=r)))
    small = [(n, t) for n, t in pool if n in ("c2", "cc", "p1t", "pn", "e", "b", "bc")]
    for combination in itertools.product(small, repeat=3):
        name = ",".join(n for n, _ in combination)
        ts = tuple(t for _, t in combination)
        for transform in (False, True):
            level.append((f"Sum3({name},{transform})", lambda ts=ts, r=transform: F.Sum(ts, transform=r)))
            level.append((f"Product3({name},{transform})", lambda ts=ts, r=transform: F.Product(list(ts), transform=r)))
    result += level
    if thorough:
        shallow = [(n, f) for n, f in level if n.count(",") < 2 and all(x in ("c2", "p1t", "pn", "e", "b", "bc") for x in
                                                                       n.replace("(", " ").replace(")", " ").replace(",", " ").replace("+", " ").replace("-", " ")
                                                                       .replace("*", " ").replace("/", " ").split() if x[0].islower() and x not in UNARY)]
        for (n, f), (m, s) in itertools.product(shallow, small):
            for b, o in BINARY.items():
                result.append((f"[{n}{b}{m}]", lambda f=f, s=s, o=o: o(f(), s)))
                result.append((f"[{m}{b}{n}]", lambda f=f, s=s, o=o: o(s, f())))
    return result


def designs():
    import sumpf
    result = []
    for name in ("ButterworthFilter", "BesselFilter", "Chebyshev1Filter", "Chebyshev2Filter"):
        for order in (1, 2, 3):
            for highpass in (False, True):
                result.append((f"{name}{order}{highpass}", lambda n=name, o=order, h=highpass: getattr(sumpf, n)(cutoff_frequency=50.0, order=o, highpass=h)))
    for name in ("AWeighting", "BWeighting", "CWeighting", "UWeighting"):
        result.append((name, lambda n=name: getattr(sumpf, n)()))
    result.append(("Derivative", lambda: sumpf.DerivativeFilter()))
    result.append(("Delay", lambda: sumpf.DelayFilter(0.0123)))
    F = sumpf.Filter
    result.append(("long polynomial", lambda: F(transfer_functions=(F.Polynomial(numpy.concatenate((numpy.zeros(1500), [1 / 3, 0.1, 2.0]))),))))
    result.append(("long complex polynomial", lambda: F(transfer_functions=(F.Polynomial(numpy.concatenate((numpy.zeros(1500), [1j / 3, 0.1, 2.0])), transform=True),))))
    result.append(("long list", lambda: F(transfer_functions=(F.Polynomial([0.0] * 1500 + [1 / 3, 0.1, 2.0]),))))
    for n in (4, 8, 9, 10, 11, 17, 33):
        result.append((f"{n} channels", lambda n=n: F(transfer_functions=[(F.Polynomial if i % 2 else F.Bands)(**({"coefficients": [0.1, i / 3]} if i % 2 else {"xs": [1.0, 2.0 + i], "ys": [1.0 / (i + 1), -0.5j],
                                                      "interpolation": sumpf.Bands.interpolations.LINEAR, "extrapolation": sumpf.Bands.interpolations.ZERO})) for i in range(n)],
                                                      labels=[f"channel {i}" for i in range(n)])))
        result.append((f"sum of {n}", lambda n=n: F(transfer_functions=(F.Sum([F.Exp(-0.001 * i) for i in range(1, n)]), F.Product([F.Exp(-0.001 * i) + F.Polynomial([0.1, i]) for i in range(1, n)], transform=True)))))

        def nested(n=n):
            t = F.Polynomial([0.01, 1.0])
            for i in range(n):
                t = abs(F.Exp(-0.001 * (i + 1)) - t) if i % 2 else F.Constant(1 / 3) / (t + F.Exp(-0.2))
            return F(transfer_functions=(t,))
        result.append((f"nested {n}", nested))
    return result


def namespace():
    import sumpf
    return {**{n: getattr(sumpf, n) for n in dir(sumpf) if not n.startswith("_")}, "Filter": sumpf.Filter, "Interpolations": sumpf.Bands.interpolations,
            "array": numpy.array, "float64": numpy.float64, "complex128": numpy.complex128, "float32": numpy.float32, "inf": math.inf, "nan": math.nan, "infj": complex(0, math.inf), "nanj": complex(0, math.nan)}


def same_function(a, b, what, simplified=False):
    """If the factories of the terms have reduced a fraction, the values where the original was 0/0 are not compared."""
    for u, v in zip(a(GRID), b(GRID)):
        if simplified:
            reliable = numpy.isfinite(v) & (GRID != 0.0)
            u, v = u[reliable], v[reliable]
        ref.expect_array(u, v, what, rtol=1e-12, atol=0.0)


def check_filter(ck, case, f, directory):
    import sumpf
    labels = tuple(f.labels())
    for name, extension in (("TEXT_JSON", ".json"), ("TEXT_REPR", ".txt"), ("PYTHON_PICKLE", ".pickle")):
        for path in (os.path.join(directory, "f" + extension), os.path.join(directory, "f")):
            def run():
                expect(f.save(path, f.file_formats[name]) is f, "save did not return the filter")
                g = sumpf.Filter.load(path)
                compare(g, name)
                ck.outcome(name)

            def compare(g, name):
                expect(isinstance(g, sumpf.Filter), "{} is no filter", type(g))
                if name == "PYTHON_PICKLE":
                    expect_equal(type(g), type(f), "type")
                expect_equal(tuple(g.labels()), labels, "labels")
                simplified = name != "PYTHON_PICKLE" and not case["term"].isidentifier()
                same_function(g, f, "transfer function", simplified)
                if "nan" not in repr(f) and (name == "PYTHON_PICKLE" or not any(x in case["term"] for x in "([")):     # the terms' factories simplify composed terms
                    expect(g == f and f == g and not g != f, "the loaded filter does not equal the saved one: {!r} {!r}", g, f)
                expect("nan" in repr(f) or g == g and not g != g, "the loaded filter does not equal itself")

            ck.transition()
            ck.run({**case, "format": name}, run)
    ck.run({**case, "format": "repr"}, lambda: compare(eval(repr(f), namespace()), "repr"))     # pylint: disable=eval-used


def filters(ck, spec):
    import sumpf
    shard, count = spec
    directory = ck.scratch
    everything = terms(ck.thorough)
    with numpy.errstate(all="ignore"):
        for i, (name, make) in enumerate(everything[shard::count]):
            case = {"kind": "filter", "term": name}
            ck.state(("filter", name))
            try:
                tf = make()
            except ZeroDivisionError:       # a constant divided by the constant 0
                continue
            other = primitives()[i % 14][1]
            f = sumpf.Filter(transfer_functions=(tf,), labels=("x",)) if i % 3 else sumpf.Filter(transfer_functions=(tf, other), labels=LABELS[i % 4][0:2])
            check_filter(ck, case, f, directory)
            ck.sample(case, limit=2)
        if shard == 0:
            for name, make in designs():
                f = make()
                case = {"kind": "filter", "term": name}
                ck.state(("filter", name))
                ck.run(case, lambda: check_filter(ck, case, f, directory))


# bands

POINTS = {"none": {}, "one": {10.0: 2.5}, "shared": {1.0: 1 / 3, 10.0: -2.0, 100.0: 0.0}, "disjoint": {2.0: 0.25, 20.0: 7.0},
          "integers": {1: 2, 5: 4, 100: 1}, "complex": {0.0: 1 + 2j, 10.0: -0.5 - 1e-9j, 55.5: 1e5 - 1e-5j, 99.0: 3 + 0j}, "many": {20.0 + 1.7 * i: (-1) ** i * (i + 1) / 3 for i in range(1500)}, "extreme": {1e-7: 1e300, 123456789.0: 1e-300, 3e15: -5e-5}}
LOSSLESS = ("TEXT_JSON", "TEXT_REPR", "PYTHON_PICKLE", "NUMPY_NPZ")
BANDS_EXTENSIONS = {"TEXT_JSON": ".json", "TEXT_REPR": ".txt", "PYTHON_PICKLE": ".pickle", "NUMPY_NPZ": ".npz", "NUMPY_NPY": ".npy", "TEXT_CSV": ".csv",
                    "TEXT_TAB_I": ".tab", "TEXT_TAB_J": ".dat", "TEXT_PIPE_I": ".asc", "TEXT_PIPE_J": ".txt", "TEXT_GNUPLOT": ".dat"}


def convert(points, how):
    if how == "python":
        return dict(points)
    if how == "numpy":
        return {numpy.float64(k): numpy.array([v])[0] for k, v in points.items()}
    return dict(reversed(list(points.items())))     # another order


def check_bands(ck, case, directory):
    import sumpf
    I = sumpf.Bands.interpolations
    bands = [convert(POINTS[p], case.get("convert", "python")) for p in case["points"]]
    interpolations = [I[i] for i in case["interpolations"]]
    extrapolations = [I[i] for i in case["extrapolations"]]
    labels = ref.labels_for(len(bands)) if case.get("labels", 0) < 0 else LABELS[case.get("labels", 0)][:len(bands)]

    def run():
        b = sumpf.Bands(bands=bands, interpolations=interpolations, extrapolations=extrapolations, labels=labels)
        for name in [f.name for f in sumpf.Bands.file_formats if f.name != "AUTO"]:
            lossless = name in LOSSLESS
            if not lossless and all(not p for p in bands) and len(bands) > 1:
                continue        # a table without rows does not tell its channels
            for filename in ("f" + BANDS_EXTENSIONS[name], "f"):
                path = os.path.join(directory, filename)
                ck.transition()
                ck.trace()
                expect(b.save(path, b.file_formats[name]) is b, "save did not return the filter")
                g = sumpf.Bands.load(path)
                what = f"{name} ({filename}): "
                expect(isinstance(g, sumpf.Filter if name == "TEXT_JSON" else sumpf.Bands), what + "type {}", type(g))
                if lossless:
                    expect_equal(tuple(g.labels()), tuple(labels), what + "labels")
                    for c in range(len(bands)):
                        grid = numpy.concatenate((GRID, sorted(bands[c])))
                        ref.expect_array(g(grid)[c], b(grid)[c], what + "values", rtol=1e-14, atol=0.0)
                    expect(g == b, what + "the loaded filter does not equal the saved one")
                    if name != "TEXT_JSON":
                        expect_equal(eval(repr(g), namespace()), b, what + "repr")      # pylint: disable=eval-used
                else:
                    if all(not p for p in bands):
                        continue
                    expect_equal(tuple(g.labels()), tuple(labels) if name == "TEXT_CSV" else tuple(f"{filename} {i}" for i in range(1, len(bands) + 1)), what + "labels")
                    for c, points in enumerate(bands):
                        for frequency, value in points.items():
                            got = g(float(frequency))[c]
                            expect(ref.same_number(got, value, 1e-14, 0.0), what + "channel {} at {}: {} instead of {}", c, frequency, got, value)
                ck.outcome(f"bands {name}")
        for c, points in enumerate(bands):      # the original
            for frequency, value in points.items():
                expect(ref.same_number(b(float(frequency))[c], value, 1e-14, 0.0), "original: channel {} at {}", c, frequency)

    ck.state(("bands", repr(sorted(case.items()))))
    ck.run(case, run)


def bands(ck, spec):
    first, = spec
    directory = ck.scratch
    with numpy.errstate(all="ignore"):
        if first == "many":
            for points in [("many",), ("one", "many"), ("many", "shared", "many")]:
                check_bands(ck, {"kind": "bands", "points": points, "interpolations": ("LINEAR",) * len(points), "extrapolations": ("STAIRS_LIN",) * len(points)}, directory)
            for n in ref.MANY_CHANNELS:
                points = (["one", "shared", "disjoint", "integers", "complex"] * 7)[0:n]
                check_bands(ck, {"kind": "bands", "points": points, "labels": -n, "interpolations": ("LINEAR",) * n, "extrapolations": ("STAIRS_LIN",) * n}, directory)
            return
        for rest in [()] + list(itertools.product([p for p in POINTS if p != "many"], repeat=1)) + list(itertools.product([p for p in POINTS if p != "many"], repeat=2)):
            points = (first,) + rest
            for how in (("python", "numpy", "reversed") if len(points) < 3 else ("python",)):
                check_bands(ck, {"kind": "bands", "points": points, "convert": how, "interpolations": ("LINEAR",) * len(points),
                                 "extrapolations": ("STAIRS_LIN",) * len(points)}, directory)
        import sumpf
        names = [i.name for i in sumpf.Bands.interpolations]
        if first in ("shared", "complex", "integers"):
            for i, e in itertools.product(names, repeat=2):
                log_of_zero = {"LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LOG"} & {i, e}
                if first == "complex" and log_of_zero or first == "shared" and {"LOGARITHMIC", "LOG_Y"} & {i, e}:
                    continue
                check_bands(ck, {"kind": "bands", "points": (first, "disjoint"), "interpolations": (i, "LINEAR"), "extrapolations": ("ZERO", e)}, directory)
        for labels in range(len(LABELS)):
            check_bands(ck, {"kind": "bands", "points": (first, "one", "disjoint"), "labels": labels, "interpolations": ("LINEAR",) * 3,
                             "extrapolations": ("STAIRS_LIN",) * 3}, directory)


# tables

FREQUENCIES = [("10", 10.0), ("10.0", 10.0), ("10.", 10.0), ("1e1", 10.0), ("1.0e1", 10.0), ("1e+1", 10.0), ("100e-1", 10.0), ("1E1", 10.0), ("0.10E+02", 10.0)]
VALUES = [("2", 2.0), ("-2.5", -2.5), (".5", 0.5), ("2e-05", 2e-5), ("-1.5E+3", -1500.0), ("3.e2", 300.0),
          ("1.0+2.0j", 1 + 2j), ("-1-2i", -1 - 2j), ("1e-3+2e+3J", 1e-3 + 2e3j), ("2.5e1-.5I", 25 - 0.5j), ("0+0i", 0j),
          ("(1.0+2.0j)", 1 + 2j), ("(-1.0 - 2e-1i)", -1 - 0.2j), ("(1 +2J)", 1 + 2j),
          ("{1.0,2.0}", 1 + 2j), ("{-1, -2e-2}", -1 - 0.02j), ("nan", None), ("{nan, nan}", None)]
SEPARATORS = ["\t", " ", " | ", ",", ", ", "    "]


def table(ck, case, text, expected, directory, extension=".txt"):
    """Loads a table and checks the values at the given frequencies."""
    import sumpf

    def run():
        path = os.path.join(directory, "t" + extension)
        with open(path, "w") as f:
            f.write(text)
        g = sumpf.Bands.load(path)
        expect(isinstance(g, sumpf.Bands), "type {}", type(g))
        expect_equal(len(g), len(expected), "channels")
        for c, points in enumerate(expected):
            for frequency, value in points.items():
                got = g(frequency)[c]
                expect(ref.same_number(got, value, 1e-14, 0.0), "channel {} at {}: {} instead of {} in {!r}", c, frequency, got, value, text)
            if not points:
                expect(g[c](3.0)[0] == 0.0, "an empty channel is {}", g[c](3.0)[0])
        ck.outcome("table")

    ck.transition()
    ck.state(("table", text))
    ck.run(case, run)


def tables(ck, spec):
    separator, = spec
    directory = ck.scratch
    for (f, frequency), (v, value), (w, other) in itertools.product(FREQUENCIES, VALUES, VALUES):
        text = separator.join((f, v, w)) + "\n"
        table(ck, {"kind": "table", "text": text}, text, [{} if x is None else {frequency: x} for x in (value, other)], directory)
    if ck.thorough:
        for a, b, c in itertools.product(VALUES, repeat=3):
            text = separator.join(("10", a[0], b[0], c[0]))
            table(ck, {"kind": "table", "text": text}, text, [{} if x is None else {10.0: x} for x in (a[1], b[1], c[1])], directory)
    # several rows with different numbers of columns, in any order and with comments
    rows = [(1.0, [2.0, 3.0, 4.0]), (2.0, [1 + 1j, -3.5]), (3.0, [5.0]), (4.0, [])]
    for count in range(1, 5):
        for chosen in itertools.permutations(rows, count):
            columns = max(len(v) for _, v in chosen)
            if columns == 0:
                continue
            for comment in range(4):
                lines = [separator.join([repr(f)] + [repr(x).strip("()") for x in v]) for f, v in chosen]
                if comment == 1:
                    lines = ["# frequency" + separator + "1.0", "", ";12 13"] + [l + "  # 77 78" for l in lines]
                elif comment == 2:
                    lines = ["\t" + l + " ;5" for l in lines] + ["   ", "#"]
                elif comment == 3:
                    lines = [x for l in lines for x in (l, "", "# 1 2 3")]
                expected = [{f: v[c] for f, v in chosen if len(v) > c} for c in range(columns)]
                text = "\n".join(lines)
                for extension in (".txt", ".dat", ".asc", ".tab", ""):
                    table(ck, {"kind": "table", "text": text, "extension": extension}, text, expected, directory, extension)


def job(ck, spec):
    {"filters": filters, "bands": bands, "tables": tables}[spec[0]](ck, spec[1:])


def explore(ck):
    shards = 24
    ck.parallel(job, [("filters", i, shards) for i in range(shards)] + [("bands", p) for p in POINTS] + [("tables", s) for s in SEPARATORS])


def replay(ck, case):
    import sumpf
    directory = ck.scratch
    if case["kind"] == "filter":
        for i, (name, make) in enumerate(terms(True)):
            if name == case["term"]:
                for labels in (("x",), LABELS[1][:2]):
                    check_filter(ck, case, sumpf.Filter(transfer_functions=(make(), primitives()[i % 14][1])[:len(labels)], labels=labels), directory)
                return
        for name, make in designs():
            if name == case["term"]:
                check_filter(ck, case, make(), directory)
    elif case["kind"] == "bands":
        check_bands(ck, case, directory)
    else:
        path = os.path.join(directory, "t" + case.get("extension", ".txt"))
        with open(path, "w") as f:
            f.write(case["text"])
        print(sumpf.Bands.load(path))
