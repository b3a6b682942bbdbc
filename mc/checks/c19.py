"""C19: bands filters: interpolation and extrapolation between the supporting points, decibels, parameters."""

import cmath
import itertools
import math
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "all sets of 1-3 supporting points from a pool of 6 frequencies (including 0 Hz), five kinds of values (positive, mixed signs, complex, integers, with zeros), all 64 pairs of interpolation and "
                   "extrapolation; sampled below, above, at and between the points as array (in three orders), list, number and spectrum; all lists of flags for 1-3 channels; conversions from and to decibels; hundreds of supporting points",
          "thorough": "sets of up to 5 points from a pool of 7 frequencies"}
ASSUMPTIONS = ["logarithms of zero and of negative real values are not specified", "which of two equally distant supporting points is the nearest is not specified"]

POOL = (0.5, 1.0, 3.0, 10.0, 48.0, 0.0, 200.0)
VALUES = {"positive": (2.0, 0.25, 7.5, 3.0, 0.125), "mixed": (-1.5, 2.0, -0.25, 4.0, -3.0), "complex": (1.0 + 2.0j, -3.0 + 0.5j, 0.25 - 1.0j, 2.0 + 0.0j, -1.0 - 1.0j),
          "integers": (3, 1, 4, 2, 7), "zeros": (0.0, 2.0, 0.0, 5.0, 1.0)}
MODES = ("ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG")


def logarithm(v):
    """The logarithm or None, if it is not specified."""
    if isinstance(v, complex):
        return cmath.log(v) if v != 0 else None
    return math.log(v) if v > 0 else None


def line(x, x0, y0, x1, y1):
    return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def expected(points, x, interpolation, extrapolation):
    """Returns a list of the permitted values at the frequency x, or None if that is not specified."""
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    if x in xs:
        return [ys[xs.index(x)]]
    outside = x < xs[0] or x > xs[-1]
    mode = extrapolation if outside else interpolation
    if mode == "ZERO":
        return [0.0]
    if mode == "ONE":
        return [1.0]
    if mode.startswith("STAIRS"):
        if outside:
            return [ys[0] if x < xs[0] else ys[-1]]
        i = max(n for n in range(len(xs)) if xs[n] < x)
        if mode == "STAIRS_LIN":
            left, right = x - xs[i], xs[i + 1] - x
        else:
            if xs[i] == 0.0:
                return None     # infinitely distant on a logarithmic axis
            left, right = math.log(x / xs[i]), math.log(xs[i + 1] / x)
        if abs(left - right) < 1e-9 * (left + right):
            return [ys[i], ys[i + 1]]
        return [ys[i]] if left < right else [ys[i + 1]]
    if len(xs) == 1:
        if mode in ("LOGARITHMIC", "LOG_Y") and logarithm(ys[0]) is None:
            return None
        if mode in ("LOGARITHMIC", "LOG_X") and (xs[0] <= 0.0 or x <= 0.0):
            return None
        return [ys[0]]
    if x < xs[0]:
        i = 0
    elif x > xs[-1]:
        i = len(xs) - 2
    else:
        i = max(n for n in range(len(xs)) if xs[n] < x)
    x0, x1, y0, y1 = xs[i], xs[i + 1], ys[i], ys[i + 1]
    if any(isinstance(y, complex) for y in ys):
        y0, y1 = complex(y0), complex(y1)
    if mode in ("LOGARITHMIC", "LOG_X"):
        if min(x, x0, x1) <= 0.0:
            return None
        x, x0, x1 = math.log(x), math.log(x0), math.log(x1)
    if mode in ("LOGARITHMIC", "LOG_Y"):
        y0, y1 = logarithm(y0), logarithm(y1)
        if y0 is None or y1 is None:
            return None
        try:
            return [cmath.exp(line(x, x0, y0, x1, y1))]
        except OverflowError:
            return None
    return [line(x, x0, y0, x1, y1)]


def frequencies(xs):
    """Sample positions at, between and outside the supporting points."""
    result = {xs[0] / 3.0, xs[0] * 0.99, 0.0, xs[-1] * 1.5, xs[-1] * 1.01 + 0.01, xs[-1] * 8.0 + 1.0}
    result.update(xs)
    for a, b in zip(xs, xs[1:]):
        result.update((a + (b - a) * r for r in (0.01, 0.25, 0.5, 0.75, 0.99)))
        result.update((math.sqrt(a * b) * 0.95, math.sqrt(a * b) * 1.05))
    return sorted(float(f) for f in result)


def check_values(actual, points, fs, interpolation, extrapolation, what):
    actual = numpy.asarray(actual)
    expect_equal(actual.shape, (len(fs),), what + ": shape")
    xs = [p[0] for p in points]
    for a, f in zip(actual, fs):
        permitted = expected(points, f, interpolation, extrapolation)
        if permitted is None:
            continue
        if f in xs:
            if complex(a) != complex(permitted[0]):
                raise Mismatch(f"{what}: the value at the supporting point {f} is {a!r} rather than {permitted[0]!r}")
        elif not any(ref.same_number(a, p, rtol=1e-8, atol=1e-12) for p in permitted):
            raise Mismatch(f"{what}: the value at {f} Hz is {a!r} rather than {permitted!r}")


def check_filter(filter_, channels, fs, what):
    """channels: a list of (points, interpolation, extrapolation)"""
    array = numpy.array(fs)
    for name, query, order in (("array", array, fs), ("reversed array", array[::-1], fs[::-1]), ("list", fs[::2] + fs[1::2], fs[::2] + fs[1::2])):
        result = filter_(query)
        expect_equal(len(result), len(channels), f"{what}: number of channels")
        for c, (points, i, e) in zip(result, channels):
            check_values(c, points, order, i, e, f"{what} sampled at the {name}")
    for f in fs:
        for c, (points, i, e) in zip(filter_(f), channels):
            check_values([c], points, [f], i, e, f"{what} sampled at a number")


def sets_of_points(ck):
    pool = POOL if ck.thorough else POOL[0:6]
    for n in range(1, 6 if ck.thorough else 4):
        for xs in itertools.combinations(pool, n):
            yield tuple(sorted(xs))
    for n in (4, 8, 9, 31, 64) if ck.thorough else (4, 9, 31):    # many supporting points with irregular distances
        yield tuple(round(20.0 * 1.37 ** i, 3) for i in range(n))
        yield (0.0, *(float(i * i + 1) for i in range(n)))
    yield (1e-6, 1e-3, 1e6, 1e9)
    yield (1000.0, 1000.001, 1000.1, 1001.0)


def single(ck, shard):
    import sumpf
    I = sumpf.Bands.interpolations
    xs, kind = shard
    values = [v if i < 5 else v * (1 + i // 5) for i, v in zip(range(len(xs)), itertools.cycle(VALUES[kind]))]
    points = list(zip(xs, values))
    fs = frequencies(xs)
    for i, e in itertools.product(MODES, MODES):
        case = {"part": "single", "xs": xs, "values": kind, "interpolation": i, "extrapolation": e}

        def execute():
            dictionary = dict(points[::-1])
            if kind == "integers" and all(x == int(x) for x in xs):
                dictionary = {int(x): y for x, y in dictionary.items()}
            filter_ = sumpf.Bands(bands=dictionary, interpolations=I[i], extrapolations=I[e], labels=("b",))
            channel = (points, i, e)
            check_filter(filter_, [channel], fs, "the bands filter")
            term = sumpf.Filter(transfer_functions=(sumpf.Filter.Bands(xs=list(xs), ys=list(values), interpolation=I[i], extrapolation=int(I[e])),))
            check_values(term(numpy.array(fs))[0], points, fs, i, e, "the bands term")
            negative = [(x, -y) for x, y in points]
            actual = (-filter_)(numpy.array(fs))[0]
            for a, f in zip(actual, fs):
                permitted = expected(points, f, i, e)
                if permitted is not None and not any(ref.same_number(a, -p, rtol=1e-8) for p in permitted):
                    raise Mismatch(f"the negative of the bands filter at {f} Hz is {a!r} rather than the negative of {permitted!r}")
            del negative
            for resolution, length in ((0.5, 9), (3.0, 5), (24.0, 4), (1.0, 1)):
                spectrum = filter_.spectrum(resolution=resolution, length=length)
                expect_equal(spectrum.shape(), (1, length), "the shape of the spectrum")
                check_values(spectrum.channels()[0], points, [resolution * k for k in range(length)], i, e, "the spectrum")
            ck.state((xs, kind, i, e))
        ck.run(case, execute)
        ck.transition(len(fs))
    ck.outcome(kind, 64)


def parameters(ck):
    """Flags and labels for several channels, shorter lists are continued with their last flag."""
    import sumpf
    I = sumpf.Bands.interpolations
    channel_points = [[(1.0, 2.0), (10.0, 4.0)], [(0.5, 3.0), (2.0, -1.0), (30.0, 2.0)], [(4.0, 0.5), (9.0, 3.0)]]
    fs = sorted(set(frequencies([1.0, 10.0]) + frequencies([0.5, 2.0, 30.0]) + frequencies([4.0, 9.0])))
    flags = ("LINEAR", "ZERO", "STAIRS_LIN")
    lists = [f for f in flags] + [list(l) for n in (1, 2, 3) for l in itertools.product(flags, repeat=n)]
    for n in (1, 2, 3):
        for i, e in itertools.product(lists, lists):
            if isinstance(i, list) and isinstance(e, list) and len(i) == 3 and len(e) == 3 and not ck.thorough and i != e:
                continue

            def complete(flag):
                if isinstance(flag, list):
                    return [flag[min(k, len(flag) - 1)] for k in range(n)]
                return [flag] * n

            def convert(flag, number=False):
                f = (lambda v: int(I[v])) if number else (lambda v: I[v])
                return [f(v) for v in flag] if isinstance(flag, list) else f(flag)

            for number in (False, True):
                def execute():
                    bands = [dict(p) for p in channel_points[0:n]]
                    filter_ = sumpf.Bands(bands=bands if n > 1 or number else bands[0], interpolations=convert(i, number), extrapolations=convert(e), labels=tuple("abc")[0:n])
                    expect_equal(len(filter_), n, "number of channels")
                    expect_equal(tuple(filter_.labels()), tuple("abc")[0:n], "labels")
                    channels = list(zip(channel_points, complete(i), complete(e)))
                    for c, (points, k, m) in zip(filter_(numpy.array(fs)), channels):
                        check_values(c, points, fs, k, m, "the bands filter with several channels")
                    copied = eval(repr(filter_), {**vars(sumpf), "array": numpy.array, "nan": math.nan, "inf": math.inf})
                    expect(copied == filter_, "the evaluated representation {!r} differs from the original {!r}", copied, filter_)
                    for c in range(n):
                        for part in (filter_[c], filter_[c:c + 1]):
                            expect_equal(tuple(part.labels()), ("abc"[c],), "label of an indexed channel")
                            check_values(part(numpy.array(fs))[0], *channels[c][0:1], fs, *channels[c][1:], what="an indexed channel")
                ck.run({"part": "parameters", "interpolations": i, "extrapolations": e, "channels": n, "numbers": number}, execute)
                ck.transition()
            ck.state(("parameters", n, repr(i), repr(e)))


def decibels(ck):
    import sumpf
    I = sumpf.Bands.interpolations
    sources = [[{1.0: 2.0, 10.0: 0.5}], [{1.0: 2.0, 10.0: 0.5}, {3.0: 7.0, 4.0: 0.01, 5.0: 1.0}], [{2: 3, 4: 1}], [{1.0: 1e-6, 3.0: 20e-6, 8.0: 1e5}]]
    fs = frequencies([1.0, 2.0, 3.0, 4.0, 5.0, 8.0, 10.0])
    for n, source in enumerate(sources):
        for reference, factor in itertools.product((1.0, 20e-6, 2, 0.5), (20.0, 10.0, 10, -20.0)):
            for i, e in itertools.product(MODES, MODES):
                def execute():
                    original = sumpf.Bands(bands=source, interpolations=[I[i]] * len(source), extrapolations=[I[e]] * len(source), labels=tuple("xy")[0:len(source)])

                    def verify(filter_, convert, what):
                        expect(isinstance(filter_, sumpf.Bands), "{} is no bands filter: {!r}", what, filter_)
                        expect_equal(tuple(filter_.labels()), tuple("xy")[0:len(source)], f"the labels of {what}")
                        for c, b in zip(filter_(numpy.array(fs)), source):
                            points = [(float(f), convert(float(v))) for f, v in sorted(b.items())]
                            # the conversion is rounded, so the supporting points are compared with a tolerance, too
                            for a, f in zip(c, fs):
                                permitted = expected(points, f, i, e)
                                if permitted is not None and not any(ref.same_number(a, p, rtol=1e-7, atol=1e-9) for p in permitted):
                                    raise Mismatch(f"{what} at {f} Hz is {a!r} rather than {permitted!r}")

                    keywords = {} if (reference, factor) == (1.0, 20.0) else {"reference": reference, "factor": factor}
                    verify(original.to_db(**keywords), lambda v: factor * math.log10(v / reference), "the filter in dB")
                    verify(original.to_db(**keywords).from_db(**keywords), lambda v: v, "the filter after converting it to dB and back")
                    if max(v for b in source for v in b.values()) < 1e3:
                        verify(original.from_db(**keywords), lambda v: reference * 10.0 ** (v / factor), "the filter converted from dB")
                        verify(original.from_db(reference, factor).to_db(reference, factor), lambda v: v, "the filter after converting it from dB and back")
                if (reference, factor) in ((1.0, 20.0), (20e-6, 10.0)) or (i, e) in (("LINEAR", "LINEAR"), ("LOG_X", "STAIRS_LIN")) or ck.thorough:
                    ck.run({"part": "decibels", "source": n, "reference": reference, "factor": factor, "interpolation": i, "extrapolation": e}, execute)
                    ck.transition()
                    ck.state(("decibels", n, reference, factor, i, e))


def part(ck, shard):
    if shard == "parameters":
        parameters(ck)
    elif shard == "decibels":
        decibels(ck)
    else:
        single(ck, shard)


def explore(ck):
    ck.sample({"points": [[0.5, 2.0], [10.0, 0.25]], "frequencies": frequencies([0.5, 10.0])})
    ck.parallel(part, ["parameters", "decibels"] + [(xs, kind) for xs in sets_of_points(ck) for kind in VALUES])


def replay(ck, case):
    if case["part"] == "single":
        single(ck, (tuple(case["xs"]), case["values"]))
    else:
        part(ck, case["part"])
