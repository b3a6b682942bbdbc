"""C26: the types of samples and numbers do not affect results and string representations restore data sets."""

import itertools
import math
import numpy
from mc import ref
from mc.checks import c24
from mc.core import Mismatch
from mc.ref import expect, expect_array, expect_equal

BOUNDS = {"quick": "sample types: all compositions of two of about 90 operations for signals and 60 each for spectrums and spectrograms, with all pairs of 7 types for the data set and 3 for the other operands; "
                   "numbers: 60 ways to pass numbers to methods, operators and constructors with 2-3 values and all of NumPy's signed integer, float and complex types; "
                   "representations: data sets of all shapes up to 3x3 (3x3x3) with 9 value sets, 8 kinds of labels, 5 sample types and all derived classes, in 7 configurations of NumPy's printing",
          "thorough": "sample types: compositions of three operations for two pairs of types"}
ASSUMPTIONS = ["integer samples are small enough not to overflow", "unsigned integers and booleans are not used as samples or numbers", "derived classes evaluate to an instance of their base class",
               "results, that are not finite, are not compared between sample types (real and complex divisions by zero differ) and neither are inverses of signals, whose transformation (almost) has zeros"]

TYPES = {"float64": numpy.float64, "int64": numpy.int64, "int32": numpy.int32, "int16": numpy.int16, "float32": numpy.float32, "swapped": numpy.dtype(">f8"), "longdouble": numpy.longdouble, "complex64": numpy.complex64, "complex128": numpy.complex128,
         "complex256": numpy.clongdouble}
INTEGERS = (numpy.int8, numpy.int16, numpy.int32, numpy.int64)
FLOATS = (numpy.float16, numpy.float32, numpy.float64)
COMPLEX = (numpy.complex64, numpy.complex128)


# sample types


def integers(array):
    """Small integer valued samples, that are not zero"""
    a = numpy.round(numpy.asarray(array).real / 8.0)
    return numpy.where(a == 0.0, 1.0, a)


def converted(data, dtype):
    """A copy of the data set with integer valued samples of the given type."""
    import sumpf
    samples = integers(data.channels()).astype(dtype)
    if isinstance(data, sumpf.Signal):
        return sumpf.Signal(channels=samples, sampling_rate=data.sampling_rate(), offset=data.offset(), labels=data.labels())
    if isinstance(data, sumpf.Spectrum):
        return sumpf.Spectrum(channels=samples, resolution=data.resolution(), labels=data.labels())
    return sumpf.Spectrogram(channels=samples, resolution=data.resolution(), sampling_rate=data.sampling_rate(), offset=data.offset(), labels=data.labels())


def environment(name):
    import sumpf
    result = {}
    for k, v in c24.environment().items():
        if isinstance(v, sumpf.Signal) and k != "window" and not name.startswith("complex"):
            v = converted(v, TYPES[name])
        elif isinstance(v, (sumpf.Spectrum, sumpf.Spectrogram)):
            v = converted(v, TYPES[name])
        elif k == "vector":
            v = integers(v).astype(TYPES[name] if not name.startswith("complex") else float)
        elif isinstance(v, sumpf.Signal) and k != "window":
            v = converted(v, float)
        result[k] = v
    return result


def sample_types(ck, shard, only=None):
    kind, shape, dtype, other, slot = shard
    depth = 3 if slot is not None else 2
    arguments, reference = environment(other), environment("float64")
    tolerance = 1e-4 if {dtype, other} & {"float32", "complex64", "int16"} else 1e-9      # SciPy computes the transforms of 16 bit integers with single precision

    def explore(x, y, path, magnitude):
        """x has samples of the type, y has float64 or complex128"""
        for name, (_, function) in c24.selected(c24.operations_for(y), slot if not path else None):
            if only is not None and len(path) < len(only) and name != only[len(path)]:
                continue
            state = {}

            def execute():
                title = " -> ".join(path + [name])
                a, b = c24.attempt(function, x, arguments), c24.attempt(function, y, reference)
                if isinstance(a, Exception) or isinstance(b, Exception):
                    expect(isinstance(a, Exception) and isinstance(b, Exception), "{} has the result {!r} for {} and {} samples, but {!r} for float64", title, a, dtype, other, b)
                    return
                v, w = (numpy.asarray(r.values if isinstance(r, c24.Rows) else r.channels()) for r in (a, b))
                expect_equal(v.shape, w.shape, "the shape of " + title)
                finite = numpy.isfinite(v) & numpy.isfinite(w)
                if name == "phase":
                    v, w = numpy.exp(1j * v), numpy.exp(1j * w)
                if name == "invert" and c24.scale(w) > 1e6:     # the inverse of a singular signal
                    return
                with numpy.errstate(all="ignore"):
                    expect_array(numpy.where(finite, v, 0.0), numpy.where(finite, w, 0.0), f"{title} for {dtype} and {other} samples", rtol=tolerance, atol=tolerance * max(magnitude, c24.scale(w)))
                if not isinstance(b, c24.Rows):
                    expect_equal(c24.axis(a), c24.axis(b), "the axes of " + title)
                    expect_equal(tuple(a.labels()), tuple(b.labels()), "the labels of " + title)
                    if b.channels().size <= 400 and finite.all() and numpy.abs(w).max(initial=0.0) < 1e4 and (numpy.abs(w) > 1e-3).all():
                        state["next"] = a, b, path + [name], max(magnitude, c24.scale(w))
                ck.outcome(str(v.dtype))
            ck.run({"part": "sample types", "shard": list(shard), "path": path + [name]}, execute)
            ck.transition()
            ck.state(("types", shard, tuple(path), name))
            if state and len(path) + 1 < depth:
                explore(*state["next"])

    b = c24.base(kind, shape, "ordinary")
    x, y = converted(b, TYPES[dtype]), converted(b, numpy.float64 if kind == "signal" else numpy.complex128)
    explore(x, y, [], c24.scale(y.channels()))


# numbers


def number_cases():
    """Yields (name, function, that is called with a type or the number itself, kinds of types)"""
    import sumpf
    s = sumpf.Signal(channels=ref.symbolic(2, 12), sampling_rate=10.0, offset=1, labels=("a", "b"))
    x = sumpf.Spectrum(channels=ref.symbolic_complex(2, 7), resolution=2.0, labels=("a", "b"))
    g = sumpf.Spectrogram(channels=numpy.array([ref.symbolic_complex(3, 6, k) for k in range(2)]), resolution=2.5, sampling_rate=5.0, offset=1, labels=("a", "b"))
    f = sumpf.Filter(transfer_functions=(sumpf.Filter.Exp(-0.25), sumpf.Filter.Polynomial([0.5, 1.0])), labels=("a", "b"))
    edc = sumpf.EnergyDecayCurve(s)
    sweep = sumpf.ExponentialSweep(start_frequency=20.0, stop_frequency=1000.0, length=256)
    response = sumpf.Signal(channels=ref.symbolic(1, 256))
    M, G = sumpf.Signal.shift_modes, sumpf.Spectrogram.shift_modes
    I, F, C = "i", "f", "c"
    for d, n in ((s, "signal"), (x, "spectrum"), (g, "spectrogram"), (f, "filter")):
        yield n + "[i]", lambda t, d=d: d[t(1)], I
        yield n + "[-i]", lambda t, d=d: d[t(-1)], I
        yield n + "[f]", lambda t, d=d: d[t(0.75)], F
        yield n + "[i:i]", lambda t, d=d: d[t(0):t(1)], I
        yield n + "[f:f]", lambda t, d=d: d[t(0.5):t(1.0)], F
        for o, op in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b)):
            kinds = I + F if d is s else I + F + C
            yield n + o, lambda t, d=d, op=op: op(d, t(2)), kinds
            yield o + n, lambda t, d=d, op=op: op(t(2), d), kinds
            yield n + o + "0.5", lambda t, d=d, op=op: op(d, t(0.5)), kinds.replace(I, "")
            yield "0.5" + o + n, lambda t, d=d, op=op: op(t(0.5), d), kinds.replace(I, "")
        if d is not f:
            yield n + "**", lambda t, d=d: d ** t(2), I + F
            yield "**" + n, lambda t, d=d: t(2) ** (d * 0.125), I + F
    for d, n in ((s, "signal"), (x, "spectrum"), (g, "spectrogram")):
        yield n + "[:,i]", lambda t, d=d: d[:, t(2)], I
        yield n + "[:,i:i:i]", lambda t, d=d: d[t(0), t(1):t(-1):t(2)], I
        yield n + "[:,f]", lambda t, d=d: d[:, t(0.25)], F
        yield n + "[:,f:f]", lambda t, d=d: d[:, t(0.25):t(-0.25)], F
        yield n + ".pad", lambda t, d=d: d.pad(t(9)), I
        yield n + ".pad less", lambda t, d=d: d.pad(t(2)), I
        yield n + ".pad value", lambda t, d=d: d.pad(15, value=t(2)), I + F
    yield "spectrogram[:,:,i]", lambda t: g[t(1), t(2), t(3)], I
    yield "signal % n", lambda t: s % t(3), I + F
    yield "n % signal", lambda t: t(3) % s, I + F
    for k in (2, -3, 0):
        for m in M:
            yield f"signal.shift {m.name} {k}", lambda t, k=k, m=m: s.shift(t(k), mode=m), I
        for m in G:
            yield f"spectrogram.shift {m.name} {k}", lambda t, k=k, m=m: g.shift(t(k), mode=m), I
    for o in (0, 2, 3, -1):
        yield f"fourier_transform {o}", lambda t, o=o: s.fourier_transform(window=t(4), overlap=t(o)), I
        yield f"short_time_fourier_transform {o}", lambda t, o=o: s.short_time_fourier_transform(window=t(4), overlap=t(o)), I
        yield f"inverse_short_time_fourier_transform {o}", lambda t, o=o: g.inverse_short_time_fourier_transform(window=t(4), overlap=t(o)), I
        for m in ("scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation"):
            yield f"{m} {o}", lambda t, o=o, m=m: getattr(sumpf.HannWindow(length=8), m)(t(o)), I
    for o in (0.5, 0.75, 0.25):
        yield f"fourier_transform {o}", lambda t, o=o: s.fourier_transform(window=4, overlap=t(o)), F
        yield f"short_time_fourier_transform {o}", lambda t, o=o: s.short_time_fourier_transform(window=4, overlap=t(o)), F
        yield f"inverse_short_time_fourier_transform {o}", lambda t, o=o: g.inverse_short_time_fourier_transform(window=4, overlap=t(o)), F
        for m in ("scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation"):
            yield f"{m} {o}", lambda t, o=o, m=m: getattr(sumpf.HannWindow(length=8), m)(t(o)), F
    yield "level_vs_time", lambda t: s.level_vs_time(integration_time=t(1)), I + F
    yield "level_vs_time 0.25", lambda t: s.level_vs_time(integration_time=t(0.25)), F
    yield "convolve", lambda t: s.convolve(t(2)), I + F
    yield "correlate", lambda t: s.correlate(t(2)), I + F
    yield "reverberation_time", lambda t: edc.reverberation_time(t(1), t(6)), I
    yield "reverberation_time f", lambda t: edc.reverberation_time(t(0.25), t(0.75)), F
    yield "decay_model", lambda t: edc.decay_model(t(1), t(6)), I
    yield "spectrum", lambda t: f.spectrum(resolution=t(2), length=4), I + F
    yield "spectrum length", lambda t: f.spectrum(resolution=2.0, length=t(4)), I
    yield "Filter()", lambda t: f(t(2)), I + F
    yield "Signal()", lambda t: sumpf.Signal(channels=s.channels(), sampling_rate=t(8)), I + F
    yield "Signal() offset", lambda t: sumpf.Signal(channels=s.channels(), offset=t(-8)), I
    yield "Spectrum()", lambda t: sumpf.Spectrum(channels=x.channels(), resolution=t(8)), I + F
    yield "Spectrogram()", lambda t: sumpf.Spectrogram(channels=g.channels(), resolution=t(8), sampling_rate=t(4)), I + F
    yield "Constant", lambda t: sumpf.Filter(transfer_functions=(sumpf.Filter.Constant(t(2)),)), I + F + C
    yield "Exp", lambda t: sumpf.Filter(transfer_functions=(sumpf.Filter.Exp(t(-2)),)), I + F + C
    yield "ButterworthFilter", lambda t: sumpf.ButterworthFilter(cutoff_frequency=t(10), order=4), I + F
    yield "ButterworthFilter order", lambda t: sumpf.ButterworthFilter(cutoff_frequency=10.0, order=t(3)), I
    yield "DelayFilter", lambda t: sumpf.DelayFilter(t(2)), I + F
    yield "HannWindow", lambda t: sumpf.HannWindow(length=t(8), plateau=t(2)), I
    yield "Fade", lambda t: sumpf.Fade(rise_interval=(t(0), t(3)), fall_interval=(t(5), t(-1)), length=t(8)), I
    yield "Fade single", lambda t: sumpf.Fade(rise_interval=t(3), fall_interval=t(-2), length=8), I
    yield "Fade f", lambda t: sumpf.Fade(rise_interval=(t(0.0), t(0.25)), fall_interval=(t(0.5), t(1.0)), length=16), F
    for w in ("SineWave", "SquareWave"):
        yield w, lambda t, w=w: getattr(sumpf, w)(frequency=t(100), phase=t(1), sampling_rate=1000.0, length=20), I + F
        yield w + " length", lambda t, w=w: getattr(sumpf, w)(length=t(20)), I
    for w in ("LinearSweep", "ExponentialSweep", "InverseLinearSweep", "InverseExponentialSweep"):
        yield w, lambda t, w=w: getattr(sumpf, w)(start_frequency=t(20), stop_frequency=t(100), phase=t(1), sampling_rate=1000.0, length=64), I + F
        yield w + " length", lambda t, w=w: getattr(sumpf, w)(start_frequency=20.0, stop_frequency=1000.0, interval=(t(10), t(50)), length=t(64)), I
        yield w + " interval", lambda t, w=w: getattr(sumpf, w)(start_frequency=20.0, stop_frequency=1000.0, interval=(t(0.125), t(0.75)), length=64), F
    yield "harmonic_impulse_response", lambda t: sweep.harmonic_impulse_response(response, t(2), length=t(16)), I
    yield "RudinShapiroNoiseSpectrum", lambda t: sumpf.RudinShapiroNoiseSpectrum(start_frequency=t(20), stop_frequency=t(100), resolution=4.0, length=64), I + F
    yield "RudinShapiroNoiseSpectrum length", lambda t: sumpf.RudinShapiroNoiseSpectrum(length=t(64)), I
    yield "ConstantSignal", lambda t: sumpf.ConstantSignal(value=t(3), length=4), I + F
    yield "ConstantSpectrum", lambda t: sumpf.ConstantSpectrum(value=t(3), length=4), I + F + C
    yield "ConstantSpectrogram", lambda t: sumpf.ConstantSpectrogram(value=t(3), length=4, number_of_frequencies=3), I + F + C
    yield "GaussianNoise", lambda t: sumpf.GaussianNoise(mean=t(3), standard_deviation=t(2), seed=5, length=20), I + F
    yield "UniformNoise", lambda t: sumpf.UniformNoise(seed=t(5), length=t(20)), I


GRID = numpy.array([0.0, 0.5, 3.0, 11.0])


def describe(value):
    import sumpf
    if isinstance(value, sumpf.Filter):
        return value(GRID), tuple(value.labels())
    if hasattr(value, "channels"):
        return value.channels(), (tuple(value.labels()),) + c24.axis(value)
    return numpy.asarray(value), ()


def numbers(ck, shard, only=None):
    python = {"i": int, "f": float, "c": complex}
    for name, function, kinds in number_cases():
        if only is not None and name != only:
            continue
        with numpy.errstate(all="ignore"):
            expected, axes = describe(function(python[kinds[0]]))
        for kind in kinds:
            for t in {"i": INTEGERS, "f": FLOATS, "c": COMPLEX}[kind] + (python[kind],):
                case = {"part": "numbers", "shard": 0, "name": name, "type": t.__name__}

                def execute():
                    try:
                        with numpy.errstate(all="ignore"):
                            actual, a = describe(function(t))
                    except Exception as e:  # pylint: disable=broad-except
                        raise Mismatch(f"{name} with a number of the type {t.__name__} raised {e!r}") from e
                    expect_array(actual, expected, f"{name} with a number of the type {t.__name__}", rtol=1e-3 if t is numpy.float16 else 1e-5, atol=1e-6 * max(1.0, c24.scale(expected)))
                    expect(len(a) == len(axes) and all(p == q or abs(p - q) < 1e-9 * abs(q) for p, q in zip(a, axes)), "the axes of {} with a number of the type {} are {!r} rather than {!r}", name, t.__name__, a, axes)
                    ck.outcome("accepted")
                ck.run(case, execute)
                ck.state(("number", name, t.__name__))
                ck.transition()


# representations


PRINTING = {"default": {}, "precision": {"precision": 2}, "threshold": {"threshold": 0, "edgeitems": 1}, "narrow": {"linewidth": 10}, "suppress": {"suppress": True, "floatmode": "fixed", "precision": 1},
            "names": {"nanstr": "undefined", "infstr": "infinite"}, "formatter": {"formatter": {"all": lambda v: "x"}}, "sign": {"sign": "+"}}
VALUES = {"ordinary": (1.0, -2.5, 0.125), "fractions": (1.0 / 3.0, -0.1, math.pi), "tiny": (5e-324, -1e-300, 2.2250738585072014e-308), "huge": (1.7976931348623157e308, -1e200, 1e16), "zeros": (0.0, -0.0, 0.0), "integers": (1, -2, 3),
          "mixed": (1e-20, 1e20, 123456789.123456789), "inf": (math.inf, -math.inf, 1.0), "nan": (math.nan, 1.0, -1.0)}
LABELS = [None, ("a", "b", "c"), ("", " ", "  x "), ("it's", 'a "quote"', "'''"), ("new\nline", "tab\t", "back\\slash"), ("comma,", "(bracket", "array([1])"), ("äöü", "\u4e2d", "\U0001f600"), ("nan", "None", "1.0")]


def restored(value):
    import sumpf
    return eval(repr(value), {"array": numpy.array, "Signal": sumpf.Signal, "Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram, "nan": math.nan, "inf": math.inf, "float64": numpy.float64})     # pylint: disable=eval-used


def check_representation(value, printing):
    with numpy.printoptions(**PRINTING[printing]):
        try:
            y = restored(value)
        except Exception as e:  # pylint: disable=broad-except
            raise Mismatch(f"{repr(value)[0:300]} cannot be evaluated: {e!r}") from e
        str(value)
    expect(type(y) in type(value).__mro__, "{} evaluates to a {}", repr(value)[0:300], type(y))
    a, b = value.channels(), y.channels()
    expect(a.shape == b.shape and numpy.array_equal(numpy.real(a), numpy.real(b), equal_nan=True) and numpy.array_equal(numpy.imag(a), numpy.imag(b), equal_nan=True), "{!r} evaluates to the samples {!r}", value, b)
    expect(c24.axis(y) == c24.axis(value), "{!r} evaluates to the axes {!r}", value, c24.axis(y))
    expect(tuple(y.labels()) == tuple(value.labels()), "{!r} evaluates to the labels {!r}", value, y.labels())
    if not numpy.isnan(a).any():
        expect(y == value and not y != value and hash(y) == hash(value), "{!r} evaluates to a different data set", value)


def filled(shape, name, dtype):
    pool = VALUES[name]
    count = int(numpy.prod(shape))
    flat = [pool[(i * 2 + i // 3) % 3] for i in range(count)]
    with numpy.errstate(all="ignore"):
        a = numpy.array(flat, dtype=float if name != "integers" else int).reshape(shape)
        if numpy.dtype(dtype).kind == "c":
            z = numpy.empty(shape, dtype=dtype)
            z.real = a
            z.imag = a[..., ::-1]
            return z
        return a.astype(dtype)


def universe():
    """Yields (description, function, that creates the data set)"""
    import sumpf
    shapes = list(itertools.product(range(4), range(4)))
    for name in VALUES:
        for dtype in (numpy.float64, numpy.float32, numpy.int64, numpy.complex128, numpy.complex64):
            if numpy.dtype(dtype).kind == "i" and name not in ("integers", "zeros"):
                continue
            for shape in shapes:
                labels = ("a", "b", "c")[0:shape[0]]
                if numpy.dtype(dtype).kind != "c":
                    yield ["Signal", name, numpy.dtype(dtype).name, list(shape)], lambda name=name, dtype=dtype, shape=shape, labels=labels: sumpf.Signal(channels=filled(shape, name, dtype), sampling_rate=44100.0, offset=-3, labels=labels)
                yield ["Spectrum", name, numpy.dtype(dtype).name, list(shape)], lambda name=name, dtype=dtype, shape=shape, labels=labels: sumpf.Spectrum(channels=filled(shape, name, dtype), resolution=1.0 / 3.0, labels=labels)
                for frequencies in range(4):
                    full = (shape[0], frequencies, shape[1])
                    yield (["Spectrogram", name, numpy.dtype(dtype).name, list(full)],
                           lambda name=name, dtype=dtype, full=full, labels=labels: sumpf.Spectrogram(channels=filled(full, name, dtype), resolution=0.1, sampling_rate=22050.0 / 7.0, offset=2, labels=labels))
    for i, labels in enumerate(LABELS):
        yield ["Signal", "labels", i], lambda labels=labels: sumpf.Signal(channels=ref.symbolic(3, 4), labels=labels)
        yield ["Spectrum", "labels", i], lambda labels=labels: sumpf.Spectrum(channels=ref.symbolic_complex(3, 4), labels=labels)
        yield ["Spectrogram", "labels", i], lambda labels=labels: sumpf.Spectrogram(channels=numpy.array([ref.symbolic_complex(2, 4)] * 3), labels=labels)
    for i, (rate, offset) in enumerate(itertools.product((48000, 1.0 / 3.0, 1e-5, 2.0 ** 70, numpy.float64(44100.0), numpy.float32(0.5)), (0, -7, 10 ** 12, numpy.int64(5)))):
        yield ["Signal", "axis", i], lambda rate=rate, offset=offset: sumpf.Signal(channels=ref.symbolic(1, 2), sampling_rate=rate, offset=offset)
        yield ["Spectrum", "axis", i], lambda rate=rate: sumpf.Spectrum(channels=ref.symbolic_complex(1, 2), resolution=rate)
        yield ["Spectrogram", "axis", i], lambda rate=rate, offset=offset: sumpf.Spectrogram(channels=numpy.array([ref.symbolic_complex(2, 3)]), resolution=rate, sampling_rate=rate * 1.1, offset=offset)
    for length in (999, 1000, 1001, 2500):
        yield ["Signal", "long", length], lambda length=length: sumpf.Signal(channels=ref.symbolic(2, length))
        yield ["Spectrum", "long", length], lambda length=length: sumpf.Spectrum(channels=ref.symbolic_complex(1, length))
        yield ["Spectrogram", "long", length], lambda length=length: sumpf.Spectrogram(channels=numpy.array([ref.symbolic_complex(3, length // 3)]))
    for name in ("HannWindow", "FlatTopWindow", "SineWave", "ExponentialSweep", "InverseLinearSweep", "MaximumLengthSequence", "GaussianNoise", "ConstantSignal", "Fade", "ConstantSpectrum", "RudinShapiroNoiseSpectrum", "ConstantSpectrogram"):
        yield ["class", name], lambda name=name: getattr(sumpf, name)(length=32)
    for name in ("Signal", "Spectrum", "Spectrogram"):
        yield ["default", name], lambda name=name: getattr(sumpf, name)()
    yield ["class", "EnergyDecayCurve"], lambda: sumpf.EnergyDecayCurve(sumpf.Signal(channels=ref.symbolic(2, 9)))
    yield ["class", "MergedSignal"], lambda: sumpf.Merge([sumpf.HannWindow(length=7), sumpf.SineWave(length=9)]).output()


def representations(ck, shard, only=None):
    for i, (description, create) in enumerate(universe()):
        if i % 8 != shard or (only is not None and description != only):
            continue
        for printing in PRINTING:
            ck.run({"part": "representations", "shard": shard, "data": description, "printing": printing}, lambda: check_representation(create(), printing))
            ck.transition()
        ck.state(("representation", repr(description)))


PARTS = {"sample types": sample_types, "numbers": numbers, "representations": representations}


def part(ck, shard):
    PARTS[shard[0]](ck, shard[1])


def explore(ck):
    shards = [("numbers", 0)] + [("representations", i) for i in range(8)]
    for kind, shape, names, others in (("signal", 0, ("int64", "int32", "int16", "float32", "swapped", "longdouble", "float64"), ("float64", "int64", "int32", "float32")),
                                       ("signal", 1, ("int64", "float32"), ("float64",)),
                                       ("spectrum", 0, ("int64", "int32", "float64", "float32", "swapped", "complex64", "complex128", "complex256"), ("float64", "int32", "complex64", "complex128")),
                                       ("spectrogram", 0, ("int64", "int32", "float64", "float32", "swapped", "complex64", "complex128", "complex256"), ("float64", "int32", "complex64", "complex128"))):
        for name, other in itertools.product(names, others):
            deep = ck.thorough and shape == 0 and (name, other) in (("int64", "float64"), ("float32", "int32"))
            shards += [("sample types", (kind, shape, name, other, slot)) for slot in (range(8) if deep else (None,))]
    ck.sample({"Concatenate": ["int64", "float64"]})
    ck.parallel(part, shards)


def replay(ck, case):
    if case["part"] == "sample types":
        sample_types(ck, tuple(case["shard"]), case["path"])
    elif case["part"] == "numbers":
        numbers(ck, 0, case["name"])
    else:
        representations(ck, case["shard"], case["data"])
