"""C22: window functions and fades have their defining samples, the figures of merit of windows are those of the overlapping repetitions."""

import itertools
import math
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect, expect_array, expect_equal

BOUNDS = {"quick": "16 window classes with up to 3 parameters each and all 26 cosine sum windows, lengths 1..17, 32, 33 and 100, symmetric or not, all plateaus (as integer, negative integer or float); all figures of merit for all overlaps "
                   "(integers, floats, negative ones, arrays) of 13 windows with lengths of 1..13, 16 and 24; fades of 8 samples with all rise and fall intervals, 4 functions and 6 ways to specify the intervals",
          "thorough": "lengths 1..33, 64, 65 and 100, overlaps up to length 40, fades of up to 13 samples"}
ASSUMPTIONS = ["the order of a fade in and a fade out, that start at the same sample, is not specified", "figures of merit, that divide by zero, are not specified",
               "Slepian windows are those of SciPy and need a beta, that is smaller than half their length times pi"]

FLAT_TOP = {"DEFAULT": ((0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368), 1.0),
            "SFT3F": ((0.26526, 0.5, 0.23474), 1.0),
            "SFT4F": ((0.21706, 0.42103, 0.28294, 0.07897), 1.0),
            "SFT5F": ((0.1881, 0.36923, 0.28702, 0.13077, 0.02488), 1.0),
            "SFT3M": ((0.28235, 0.52105, 0.19659), 1.0),
            "SFT4M": ((0.241906, 0.460841, 0.255381, 0.041872), 1.0),
            "SFT5M": ((0.209671, 0.407331, 0.281225, 0.092669, 0.0091036), 1.0),
            "FTNI": ((0.2810639, 0.5208972, 0.1980399), 1.0),
            "FTHP": ((1.0, 1.912510941, 1.079173272, 0.1832630879), None),
            "FTSRS": ((1.0, 1.93, 1.29, 0.388, 0.028), None),
            "HFT70": ((1.0, 1.90796, 1.07349, 0.18199), None),
            "HFT90D": ((1.0, 1.942604, 1.340318, 0.440811, 0.043097), None),
            "HFT95": ((1.0, 1.9383379, 1.3045202, 0.4028270, 0.0350665), None),
            "HFT116D": ((1.0, 1.9575375, 1.4780705, 0.6367431, 0.1228389, 0.0066288), None),
            "HFT144D": ((1.0, 1.96760033, 1.57983607, 0.81123644, 0.22583558, 0.02773848, 0.00090360), None),
            "HFT169D": ((1.0, 1.97441842, 1.65409888, 0.95788186, 0.33673420, 0.06364621, 0.00521942, 0.00010599), None),
            "HFT196D": ((1.0, 1.979280420, 1.710288951, 1.081629853, 0.448734314, 0.112376628, 0.015122992, 0.000871252, 0.000011896), None),
            "HFT223D": ((1.0, 1.98298997309, 1.75556083063, 1.19037717712, 0.56155440797, 0.17296769663, 0.03233247087, 0.00324954578, 0.00013801040, 0.00000132725), None),
            "HFT248D": ((1.0, 1.985844164102, 1.791176438506, 1.282075284005, 0.667777530266, 0.240160796576, 0.056656381764, 0.008134974479, 0.000624544650, 0.000019808998, 0.000000132974), None)}
NUTTALL = {"NUTTALL3": (0.375, 0.5, 0.125), "NUTTALL3A": (0.40897, 0.5, 0.09103), "NUTTALL3B": (0.4243801, 0.4973406, 0.0782793),
           "NUTTALL4": (0.3125, 0.46875, 0.1875, 0.03125), "NUTTALL4A": (0.338946, 0.481973, 0.161054, 0.018027),
           "NUTTALL4B": (0.355768, 0.487396, 0.144232, 0.012604), "NUTTALL4C": (0.3635819, 0.4891775, 0.1365995, 0.0106411)}


def bessel(x):
    """The modified Bessel function of order 0"""
    result = term = 1.0
    for k in range(1, 200):
        term *= (x / (2.0 * k)) ** 2
        result += term
    return result


def cosines(coefficients, scale=1.0):
    if scale is None:
        scale = 1.0 / sum(coefficients)
    return lambda x, n: scale * sum(a * math.cos(math.pi * k * (1.0 + x)) * (-1.0) ** k for k, a in enumerate(coefficients))


def parzen(x, n):
    d = abs(x) * (n - 1) / n      # the distance from the center, relative to n / 2
    if abs(x) * (n - 1) / 2.0 <= (n - 1) / 4.0:
        return 1.0 - 6.0 * d ** 2 + 6.0 * d ** 3
    return 2.0 * (1.0 - d) ** 3


def chebyshev(attenuation):
    def polynomial(order, x):
        if abs(x) <= 1.0:
            return math.cos(order * math.acos(x))
        value = math.cosh(order * math.acosh(abs(x)))
        return -value if x < 0.0 and order % 2 else value

    def function(x, n):
        if n <= 2:
            return 1.0
        beta = math.cosh(math.acosh(10.0 ** (attenuation / 20.0)) / (n - 1))

        def sample(position):       # in samples after the center
            return sum((1.0 if k == 0 else 2.0) * polynomial(n - 1, beta * math.cos(math.pi * k / n)) * math.cos(2.0 * math.pi * position * k / n) for k in range(0, (n + 1) // 2))
        return sample(x * (n - 1) / 2.0) / sample(0.0 if n % 2 else 0.5)
    return function


def slepian(beta):
    def function(x, n):
        import scipy.signal
        if n <= 2:
            return 1.0
        return scipy.signal.windows.dpss(n, NW=beta / math.pi, norm="subsample")[int(round((x + 1.0) * (n - 1) / 2.0))]
    return function


# windows as functions of x in -1.0..1.0 and the number of samples of the symmetric window
WINDOWS = [("RectangularWindow", {}, lambda x, n: 1.0),
           ("BartlettWindow", {}, lambda x, n: 1.0 - abs(x)),
           ("HannWindow", {}, lambda x, n: 0.5 + 0.5 * math.cos(math.pi * x)),
           ("HammingWindow", {}, lambda x, n: 0.54 + 0.46 * math.cos(math.pi * x)),
           ("BlackmanWindow", {}, lambda x, n: 0.42 + 0.5 * math.cos(math.pi * x) + 0.08 * math.cos(2.0 * math.pi * x)),
           ("BartlettHannWindow", {}, lambda x, n: 0.62 - 0.24 * abs(x) + 0.38 * math.cos(math.pi * x)),
           ("BlackmanHarrisWindow", {}, lambda x, n: sum(a * math.cos(k * math.pi * x) for k, a in enumerate((0.35875, 0.48829, 0.14128, 0.01168)))),
           ("BohmanWindow", {}, lambda x, n: (1.0 - abs(x)) * math.cos(math.pi * abs(x)) + math.sin(math.pi * abs(x)) / math.pi),
           ("ParzenWindow", {}, parzen)]
for b in (9.4248, 0.0, 3.5, -2.5):
    WINDOWS.append(("KaiserWindow", {} if b == 9.4248 else {"beta": b}, lambda x, n, b=b: bessel(b * math.sqrt(max(0.0, 1.0 - x * x))) / bessel(b)))
for d in (100.0, 0.0, 12.5):
    WINDOWS.append(("ExponentialWindow", {} if d == 100.0 else {"decay": d}, lambda x, n, d=d: 10.0 ** (-d / 20.0 * abs(x))))
for s in (1.0, 0.25, 2):
    WINDOWS.append(("GaussianWindow", {} if s == 1.0 else {"standard_deviation": s}, lambda x, n, s=s: math.exp(-0.5 * (x / s) ** 2)))
for b in (9.4248, 2.5):
    WINDOWS.append(("SlepianWindow", {} if b == 9.4248 else {"beta": b}, slepian(b)))
for a in (150.0, 60.0, 100):
    WINDOWS.append(("DolphChebyshevWindow", {} if a == 150.0 else {"attenuation": a}, chebyshev(a)))
WINDOWS += [("FlatTopWindow", {"function": name} if name != "DEFAULT" else {}, cosines(c, s)) for name, (c, s) in FLAT_TOP.items()]
WINDOWS += [("NuttallWindow", {"function": name} if name != "NUTTALL4C" else {}, cosines(c)) for name, c in NUTTALL.items()]

LABELS = {"RectangularWindow": "Rectangular window", "BartlettWindow": "Bartlett window", "HannWindow": "Hann window", "HammingWindow": "Hamming window", "BlackmanWindow": "Blackman window", "KaiserWindow": "Kaiser window",
          "BartlettHannWindow": "Bartlett-Hann window", "BlackmanHarrisWindow": "Blackman-Harris window", "BohmanWindow": "Bohman window", "DolphChebyshevWindow": "Dolph-Chebyshev window",
          "ExponentialWindow": "Exponential window", "FlatTopWindow": "Flat top window", "GaussianWindow": "Gaussian window", "NuttallWindow": "Nuttall window", "ParzenWindow": "Parzen window", "SlepianWindow": "Slepian window"}


def symmetric_window(function, n):
    if n == 1:
        return [1.0]
    return [function(2.0 * i / (n - 1) - 1.0, n) for i in range(n)]


def expected_window(function, length, plateau, symmetric):
    plateau = resolve(plateau, length)
    if plateau == 0:
        return symmetric_window(function, length) if symmetric else symmetric_window(function, length + 1)[0:length]
    fade = (length - plateau) // 2
    complete = symmetric_window(function, 2 * fade if symmetric else 2 * fade + 1)
    return complete[0:fade] + [1.0] * (length - 2 * fade) + complete[fade:2 * fade]


def resolve(i, length):
    if isinstance(i, float):
        i = int(round(i * length))
    return i + length if i < 0 else i


def arguments(cls, parameters):
    result = dict(parameters)
    if "function" in result:
        result["function"] = cls.functions[result["function"]]
    return result


def windows(ck, shard):
    import sumpf
    name, parameters, function = WINDOWS[shard]
    cls = getattr(sumpf, name)
    lengths = list(range(1, 34)) + [64, 65, 100] if ck.thorough else list(range(1, 18)) + [32, 33, 100]
    for length in lengths:
        plateaus = list(range(0, length + 1)) if length < 34 else [0, 1, 2, 31, length - 1, length]
        plateaus += [0.0, 0.25, 0.5, 0.7, 1.0] + [p for p in (-1, -2, -5) if -p < length]
        for plateau, symmetric in itertools.product(plateaus, (True, False)):
            p = resolve(plateau, length)
            if name == "SlepianWindow":
                size = length if p == 0 else 2 * ((length - p) // 2)
                size += 0 if symmetric else 1
                if size > 2 and parameters.get("beta", 9.4248) / math.pi >= size / 2.0:
                    continue
            case = {"part": "windows", "window": shard, "name": name, "parameters": {k: str(v) for k, v in parameters.items()}, "length": length, "plateau": plateau, "symmetric": symmetric}

            def execute():
                keywords = arguments(cls, parameters)
                if plateau != 0 or isinstance(plateau, float):
                    keywords["plateau"] = plateau
                if not symmetric:
                    keywords["symmetric"] = False
                fs = 44100 if length % 2 else 8000.0
                window = cls(length=length, sampling_rate=fs, **keywords)
                expected = expected_window(function, length, plateau, symmetric)
                expect_array(window.channels(), [expected], "the samples of the window", rtol=1e-7, atol=1e-9)
                expect_equal(window.plateau(), p, "plateau")
                expect_equal(bool(window.symmetric()), symmetric, "symmetric")
                expect_equal(window.sampling_rate(), fs, "sampling rate")
                expect_equal(window.offset(), 0, "offset")
                expect_equal(tuple(window.labels()), (LABELS[name],), "labels")
                samples = list(window.channels()[0])
                mirrored = samples[::-1] if symmetric else samples[0:1] + samples[:0:-1]
                expect_array(samples, mirrored, "the mirrored window", rtol=1e-7, atol=1e-9 if p == 0 else 1e-4)     # the maximum of some cosine sums is not exactly 1
                ck.state((name, ref.rounded(window.channels())))
            ck.run(case, execute)
            ck.transition()

    def default():
        window = cls()
        expect_equal((window.shape(), window.sampling_rate(), window.plateau(), bool(window.symmetric()), window.offset()), ((1, 8192), 48000.0, 0, True, 0), "the default parameters")
        if not parameters and name not in ("DolphChebyshevWindow", "SlepianWindow", "KaiserWindow"):
            for i in (0, 1, 1000, 4095, 4096, 8000, 8191):
                value = function(2.0 * i / 8191.0 - 1.0, 8192)
                expect(ref.same_number(window.channels()[0, i], value, rtol=1e-7, atol=1e-9), "sample {} of the default window is {!r} rather than {!r}", i, window.channels()[0, i], value)
    ck.run({"part": "windows", "window": shard, "name": name, "default": True}, default)
    ck.outcome(name)


def overlapping(samples, step, power):
    """The sum of infinitely many repetitions of the window after a certain number of samples."""
    result = []
    for i in range(len(samples)):
        result.append(math.fsum(samples[k] ** power for k in range(i % step, len(samples), step)))
    return result


def ratio(values):
    return min(values) / max(values) if max(values) != 0.0 else None


def figures(ck, shard):
    import sumpf
    name, parameters, plateau, symmetric = shard
    cls = getattr(sumpf, name)
    lengths = list(range(1, 14)) + [16, 24] + ([32, 33, 40] + list(range(14, 24)) if ck.thorough else [])
    for length in lengths:
        case = {"part": "figures", "shard": list(shard), "length": length}

        def execute():
            window = cls(length=length, plateau=plateau, symmetric=symmetric, **arguments(cls, parameters))
            w = [float(v) for v in window.channels()[0]]
            total, energy = math.fsum(w), math.fsum(v * v for v in w)
            spectrum = [abs(sum(v * complex(math.cos(math.pi * k * i / length), -math.sin(math.pi * k * i / length)) for i, v in enumerate(w))) for k in (0, 1)]
            if spectrum[0] > 1e-9:
                expect(ref.same_number(window.scalloping_loss(), spectrum[1] / spectrum[0], rtol=1e-7), "the scalloping loss is {!r} rather than {!r}", window.scalloping_loss(), spectrum[1] / spectrum[0])
            for oversampling in (8, 1, 3, 16):
                check_bandwidth(window, w, oversampling)
            expected = {"scaling_factor": [], "amplitude_flatness": [], "power_flatness": [], "overlap_correlation": []}
            for overlap in range(0, length + 1):
                step = length - overlap
                if step == 0:
                    values = (0.0, 1.0, 1.0, 1.0)
                else:
                    repeated = overlapping(w, step, 1)
                    mean = math.fsum(repeated) / length
                    values = (1.0 / mean if abs(mean) > 1e-9 else None, ratio(repeated), ratio(overlapping(w, step, 2)),
                              math.fsum(w[i] * w[i + step] for i in range(overlap)) / energy if energy else 1.0)
                for method, value in zip(expected, values):
                    expected[method].append(value)
            for method, values in expected.items():
                function = getattr(window, method)
                for overlap, value in enumerate(values):
                    if value is None:
                        continue
                    queries = [overlap, float(overlap) / length] if overlap else [0, 0.0]
                    if 0 < overlap < length:
                        queries += [overlap - length, (overlap - length) / length]
                    if overlap in (0, 1):
                        queries = queries[0:1] if length == 1 else queries
                    for query in queries:
                        actual = function(query)
                        expect(ref.same_number(actual, value, rtol=1e-8, atol=1e-10), "{}({!r}) is {!r} rather than {!r}", method, query, actual, value)
                defined = [i for i, v in enumerate(values) if v is not None]
                for query in (defined, tuple(defined[::-1]), numpy.array(defined, dtype=int)):
                    if len(defined):
                        expect_array(function(query), [values[i] for i in query], f"{method} of the array {query!r}", rtol=1e-8, atol=1e-10)
            differences = [a - c if a is not None else None for a, c in zip(expected["amplitude_flatness"], expected["overlap_correlation"])][0:length]
            if None not in differences:
                recommended = window.recommended_overlap()
                expect(int(recommended) == recommended and 0 <= recommended < length, "the recommended overlap {!r} is no overlap", recommended)
                expect(differences[int(recommended)] >= max(differences) - 1e-9, "at the recommended overlap {}, the difference between flatness and correlation is {!r} rather than {!r}",
                       recommended, differences[int(recommended)], max(differences))
            expect_array(window.channels()[0], w, "the window after computing its figures of merit", rtol=0.0, atol=0.0)
            ck.state((name, repr(parameters), plateau, symmetric, length))
            del total
        ck.run(case, execute)
        ck.transition(length * 4)
    ck.outcome("figures of merit")


def check_bandwidth(window, w, oversampling):
    """The crossing of the -3dB threshold in the interpolated spectrum"""
    length = len(w)
    n = length * oversampling
    magnitude = [abs(sum(v * complex(math.cos(2.0 * math.pi * k * i / n), -math.sin(2.0 * math.pi * k * i / n)) for i, v in enumerate(w))) for k in range(n // 2 + 1)]
    threshold = magnitude[0] / math.sqrt(2.0)
    if magnitude[0] < 1e-9:
        return
    crossing = None
    for k in range(1, len(magnitude)):
        if abs(magnitude[k] - threshold) < 1e-9 * threshold:
            return
        if magnitude[k] < threshold:
            crossing = k - 1 + (magnitude[k - 1] - threshold) / (magnitude[k - 1] - magnitude[k])
            break
    if crossing is None:
        return
    expected = 2.0 * crossing * window.sampling_rate() / n
    actual = window.bandwidth() if oversampling == 8 else window.bandwidth(oversampling)
    expect(ref.same_number(actual, expected, rtol=1e-7), "the bandwidth with oversampling {} is {!r} rather than {!r}", oversampling, actual, expected)


def ramp(n):
    """An asymmetric function with distinct values"""
    half = n // 2
    return numpy.array([(i + 1.0) / (half + 1.5) for i in range(half)] + [0.9 - 0.8 * (i / (n - half + 0.25)) ** 2 for i in range(n - half)])


FUNCTIONS = {"ramp": ramp, "blackman": numpy.blackman, "hanning": numpy.hanning, "ones": numpy.ones}


def forms(interval, length, kind):
    """All ways to specify an interval"""
    a, b = interval
    yield "tuple", (a, b)
    yield "list", [a, b]
    yield "array", numpy.array([a, b])
    yield "floats", (a / length, b / length)
    yield "mixed", (a, b / length)
    if a < length and 0 < b < length:
        yield "negative", (a - length, b - length)
        yield "negative floats", ((a - length) / length, (b - length) / length)
    if kind == "rise" and a == 0:
        yield "number", b
        yield "float", b / length
        if 0 < b < length:
            yield "negative number", b - length
    if kind == "fall" and b == length:
        yield "number", a
        yield "float", a / length
        if 0 < a < length:
            yield "negative number", a - length


def expected_fade(function, rise, fall, length):
    """Returns the samples and the label or None, if they are not specified."""
    def rising(a, b):
        values = list(function(2 * (b - a)))[0:b - a]
        return [0.0] * a + values + [1.0] * (length - b)

    def falling(a, b):
        values = list(function(2 * (b - a)))[b - a:]
        return [1.0] * a + values + [0.0] * (length - b)
    if rise is None and fall is None:
        return [1.0] * length, "Fade"
    if rise is None:
        return falling(*fall), "Fade out"
    if fall is None:
        return rising(*rise), "Fade in"
    if rise[0] == fall[0]:
        if (rise[0] == rise[1]) == (fall[0] == fall[1]):
            return None
        rise_first = rise[0] == rise[1]
    else:
        rise_first = rise[0] < fall[0]
    if rise_first:
        return [a * b for a, b in zip(rising(*rise), falling(*fall))], "Fade in-out"
    return [a + b for a, b in zip(rising(*rise), falling(*fall))], "Fade out-in"


def fades(ck, shard):
    import sumpf
    name, length = shard
    function = FUNCTIONS[name]
    intervals = [None] + [(a, b) for a in range(0, length + 1) for b in range(a, length + 1)]
    for rise, fall in itertools.product(intervals, intervals):
        expected = expected_fade(function, rise, fall, length)
        if expected is None:
            continue
        rises = [("none", None)] if rise is None else list(forms(rise, length, "rise"))
        falls = [("none", None)] if fall is None else list(forms(fall, length, "fall"))
        if len(rises) > 1 and len(falls) > 1 and not ck.thorough:
            combinations = [(rises[n % len(rises)], falls[n % len(falls)]) for n in range(max(len(rises), len(falls)))]
        else:
            combinations = list(itertools.product(rises, falls))
        if name != "ramp":
            combinations = combinations[0:1]
        for (kr, r), (kf, f) in combinations:
            def execute():
                fade = sumpf.Fade(function=function, rise_interval=r, fall_interval=f, sampling_rate=1000, length=length)
                expect_array(fade.channels(), [expected[0]], "the samples of the fade")
                expect_equal(tuple(fade.labels()), (expected[1],), "label")
                expect_equal(fade.offset(), 0, "offset")
                expect_equal(fade.sampling_rate(), 1000, "sampling rate")
            ck.run({"part": "fades", "function": name, "length": length, "rise": rise, "fall": fall, "forms": [kr, kf]}, execute)
            ck.transition()
        ck.state(("fade", name, ref.rounded(expected[0])))
        ck.outcome(expected[1])


FIGURES = [("RectangularWindow", {}), ("BartlettWindow", {}), ("HannWindow", {}), ("HammingWindow", {}), ("BlackmanWindow", {}), ("KaiserWindow", {"beta": 3.5}), ("ExponentialWindow", {"decay": 12.5}),
           ("FlatTopWindow", {"function": "HFT90D"}), ("GaussianWindow", {}), ("NuttallWindow", {"function": "NUTTALL3"}), ("ParzenWindow", {}), ("DolphChebyshevWindow", {"attenuation": 60.0}), ("BohmanWindow", {})]


def part(ck, shard):
    {"windows": windows, "figures": figures, "fades": fades}[shard[0]](ck, shard[1])


def explore(ck):
    ck.sample({"window": "HannWindow", "length": 9, "plateau": 3, "symmetric": False})
    ck.sample({"fade": "ramp", "rise": [1, 4], "fall": [3, 7], "length": 8})
    shards = [("windows", n) for n in range(len(WINDOWS))]
    shards += [("figures", (n, p, plateau, s)) for n, p in FIGURES for plateau in (0, 0.25) for s in (True, False)]
    shards += [("fades", (name, length)) for name in FUNCTIONS for length in ((8,) if not ck.thorough else (1, 2, 3, 5, 8, 13))]
    ck.parallel(part, shards)


def replay(ck, case):
    if case["part"] == "windows":
        windows(ck, case["window"])
    elif case["part"] == "figures":
        figures(ck, tuple(case["shard"]))
    else:
        fades(ck, (case["function"], case["length"]))
