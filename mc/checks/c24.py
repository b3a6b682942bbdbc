"""C24: every operation processes channels independently and linear operations stay linear, in every composition."""

import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect

BOUNDS = {"quick": "all compositions of two of about 90 operations for signals, 60 for spectrums and 60 for spectrograms, on data sets with three channels (4 shapes of signals, 3 of the others, each with ordinary samples, "
                   "with channels full of zeros, with NaN, infinite, tiny and huge samples); linearity of all compositions of two of about 50 linear operations; every operation on data sets with up to 70 channels",
          "thorough": "compositions of three operations (channels of the first shape), linearity of three operations for two shapes"}
ASSUMPTIONS = ["operations, that reduce all channels to a single value, are not considered", "an operation may refuse a data set, if it also refuses each of its channels"]


def environment(rate=1.0, n=3):
    """The other operands: those in upper case have as many channels as the explored data set.

    :param rate: a factor for all sampling rates, frequencies and inverse times
    :param n: the number of channels of the explored data set
    """
    import sumpf
    names = ("x", "y", "z") + tuple(f"x{i}" for i in range(4, n + 1))
    window = [[0.25, 0.75, 1.0, 0.5], [1.0, 0.5, 0.5, 0.25], [0.125, 1.0, 1.0, 2.0]] + [[0.5, 1.0, 1.0 + 0.125 * i, 0.25] for i in range(4, n + 1)]
    functions = (sumpf.Filter.Polynomial([0.01 / rate, 1.0]), sumpf.Filter.Exp(-0.01 / rate), sumpf.Filter.Constant(2.0 - 1.0j)) + tuple(sumpf.Filter.Constant(1.0 + 0.5j * i) for i in range(4, n + 1))
    return {"SIGNAL": sumpf.Signal(channels=ref.symbolic(n, 4, 1), sampling_rate=10.0 * rate, offset=2, labels=names),
            "LONG": sumpf.Signal(channels=ref.symbolic(n, 9, 2), sampling_rate=10.0 * rate, offset=-3, labels=names),
            "signal": sumpf.Signal(channels=ref.symbolic(1, 3, 2), sampling_rate=10.0 * rate, offset=-1, labels=("m",)),
            "window": sumpf.Signal(channels=numpy.array([[0.25, 0.75, 1.0, 0.5]]), sampling_rate=10.0 * rate),
            "WINDOW": sumpf.Signal(channels=numpy.array(window), sampling_rate=10.0 * rate),
            "SPECTRUM": sumpf.Spectrum(channels=ref.symbolic_complex(n, 3, 1), resolution=2.0 * rate, labels=names),
            "spectrum": sumpf.Spectrum(channels=ref.symbolic_complex(1, 3, 2), resolution=2.0 * rate, labels=("m",)),
            "SPECTROGRAM": sumpf.Spectrogram(channels=numpy.array([ref.symbolic_complex(3, 4, k) for k in range(n)]), resolution=2.0 * rate, sampling_rate=2.5 * rate, offset=1, labels=names),
            "spectrogram": sumpf.Spectrogram(channels=numpy.array([ref.symbolic_complex(3, 4, 5)]), resolution=2.0 * rate, sampling_rate=2.5 * rate, offset=1, labels=("m",)),
            "FILTER": sumpf.Filter(transfer_functions=functions, labels=names),
            "filter": sumpf.Bands(bands={1.0 * rate: 2.0, 10.0 * rate: 4.0, 33.0 * rate: 1.0}, labels=("b",)),
            "vector": ref.symbolic(1, 5, 3)[0],
            "second": 1.0 / rate}


def channel_environment(environment_, c):
    return {k: (v[c] if k.isupper() else v) for k, v in environment_.items()}


LINEAR, OTHER = True, False


def arithmetic(r, names, scalars):
    import operator
    for n in names:
        r["+ " + n] = OTHER, lambda d, a, n=n: d + a[n]
        r["- " + n] = OTHER, lambda d, a, n=n: d - a[n]
        r["* " + n] = OTHER, lambda d, a, n=n: d * a[n]
        r["/ " + n] = OTHER, lambda d, a, n=n: d / a[n]
        r[n + " - "] = OTHER, lambda d, a, n=n: a[n] - d
        r[n + " / "] = OTHER, lambda d, a, n=n: a[n] / d
    for s in scalars:
        r[f"+ {s}"] = OTHER, lambda d, a, s=s: d + s
        r[f"{s} - "] = OTHER, lambda d, a, s=s: s - d
        r[f"{s} / "] = OTHER, lambda d, a, s=s: s / d
        r[f"* {s}"] = LINEAR, lambda d, a, s=s: d * s
        r[f"{s} * "] = LINEAR, lambda d, a, s=s: s * d
        r[f"/ {s}"] = LINEAR, lambda d, a, s=s: d / s
    r["** 2"] = OTHER, lambda d, a: d ** 2
    r["neg"] = LINEAR, lambda d, a: -d
    r["abs"] = OTHER, lambda d, a: abs(d)
    r["+ self"] = LINEAR, lambda d, a: d + d
    r["* self"] = OTHER, lambda d, a: operator.mul(d, d)
    r["same"] = LINEAR, lambda d, a: d[:]


def numbers(function):
    """An operation, that returns one value or row per channel."""
    return lambda d, a: Rows(function(d))


class Rows:
    """Values per channel"""

    def __init__(self, values):
        self.values = [v for v in values]


def signal_operations():
    import sumpf
    M = sumpf.Signal.shift_modes
    C = sumpf.Signal.convolution_modes
    r = {}
    for name in ("level", "mean", "standard_deviation", "variance", "skewness", "kurtosis"):
        r[name] = (LINEAR if name == "mean" else OTHER), numbers(lambda d, name=name: getattr(d, name)())
    for m in M:
        for k in (2, -1):
            r[f"shift {m.name} {k}"] = LINEAR, lambda d, a, m=m, k=k: d.shift(k, mode=m)
    r["shift None"] = LINEAR, lambda d, a: d.shift(None)
    for n in (0, 3, 8):
        r[f"pad {n}"] = LINEAR, lambda d, a, n=n: d.pad(n)
    r["pad 8 value"] = OTHER, lambda d, a: d.pad(8, value=0.5)
    for m in C:
        for n in ("SIGNAL", "signal", "vector"):
            r[f"convolve {n} {m.name}"] = LINEAR, lambda d, a, m=m, n=n: d.convolve(a[n], mode=m)
        for n in ("LONG", "signal"):
            r[f"correlate {n} {m.name}"] = LINEAR, lambda d, a, m=m, n=n: d.correlate(a[n], mode=m)
            r[f"correlated {n} {m.name}"] = LINEAR, lambda d, a, m=m, n=n: a[n].correlate(d, mode=m)
    r["autocorrelate"] = OTHER, lambda d, a: d.correlate(d)
    r["fourier_transform"] = LINEAR, lambda d, a: d.fourier_transform()
    r["fourier_transform window"] = LINEAR, lambda d, a: d.fourier_transform(window=a["window"], overlap=0.5)
    r["stft"] = LINEAR, lambda d, a: d.short_time_fourier_transform(window=a["window"], overlap=0.5)
    r["fourier_transform WINDOW"] = LINEAR, lambda d, a: d.fourier_transform(window=a["WINDOW"], overlap=1)
    r["stft WINDOW"] = LINEAR, lambda d, a: d.short_time_fourier_transform(window=a["WINDOW"], overlap=2)
    r["stft unpadded"] = LINEAR, lambda d, a: d.short_time_fourier_transform(window=a["window"], overlap=3, pad=False)
    r["level_vs_time"] = OTHER, lambda d, a: d.level_vs_time(integration_time=0.25 * a["second"])
    r["FILTER"] = LINEAR, lambda d, a: d * a["FILTER"]
    r["filter"] = LINEAR, lambda d, a: a["filter"] * d
    r["energy decay"] = OTHER, lambda d, a: sumpf.EnergyDecayCurve(d)
    r["reverberation time"] = OTHER, numbers(lambda d: sumpf.EnergyDecayCurve(d).reverberation_time(0, 1.0))
    r["decay model"] = OTHER, lambda d, a: sumpf.EnergyDecayCurve(d).decay_model(0, 1.0)
    r["fade"] = OTHER, lambda d, a: d * sumpf.Fade(function=numpy.hamming, rise_interval=(0, 2), sampling_rate=d.sampling_rate(), length=5)
    r["reversed"] = LINEAR, lambda d, a: reversed(d)
    r["invert"] = OTHER, lambda d, a: ~d
    r["slice"] = LINEAR, lambda d, a: d[:, 1:3]
    r["slice float"] = LINEAR, lambda d, a: d[:, 0.5:]
    r["one sample"] = LINEAR, lambda d, a: d[:, 0]
    r["concatenate"] = LINEAR, lambda d, a: sumpf.Concatenate([d, d[:, 1:]]).output()
    r["concatenate other"] = OTHER, lambda d, a: sumpf.Concatenate([a["SIGNAL"], d, a["LONG"]]).output()
    arithmetic(r, ("SIGNAL", "LONG", "signal"), (2.5, -1))
    return r


def spectrum_operations():
    r = {}
    for name in ("magnitude", "phase", "real", "imaginary", "level"):
        r[name] = (LINEAR if name in ("real", "imaginary") else OTHER), numbers(lambda d, name=name: getattr(d, name)())
    for n in (0, 2, 5):
        r[f"pad {n}"] = LINEAR, lambda d, a, n=n: d.pad(n)
    r["pad 6 value"] = OTHER, lambda d, a: d.pad(6, value=0.5)
    r["pad 7 complex"] = OTHER, lambda d, a: d.pad(7, value=0.5 - 2.0j)
    r["conjugate"] = LINEAR, lambda d, a: d.conjugate()
    r["inverse_fourier_transform"] = LINEAR, lambda d, a: d.inverse_fourier_transform()
    r["FILTER"] = LINEAR, lambda d, a: d * a["FILTER"]
    r["filter"] = LINEAR, lambda d, a: a["filter"] * d
    r["SPECTROGRAM"] = OTHER, lambda d, a: a["SPECTROGRAM"] * d
    r["invert"] = OTHER, lambda d, a: ~d
    r["slice"] = LINEAR, lambda d, a: d[:, 1:3]
    r["one sample"] = LINEAR, lambda d, a: d[:, 0]
    arithmetic(r, ("SPECTRUM", "spectrum"), (2.5, -1, 0.5j))
    return r


def spectrogram_operations():
    import sumpf
    M = sumpf.Spectrogram.shift_modes
    r = {}
    for name in ("magnitude", "phase", "real", "imaginary"):
        r[name] = (LINEAR if name in ("real", "imaginary") else OTHER), numbers(lambda d, name=name: getattr(d, name)())
    for m in M:
        for k in (1, -2):
            r[f"shift {m.name} {k}"] = LINEAR, lambda d, a, m=m, k=k: d.shift(k, mode=m)
    for n in (1, 6):
        r[f"pad {n}"] = LINEAR, lambda d, a, n=n: d.pad(n)
    r["pad 6 value"] = OTHER, lambda d, a: d.pad(6, value=0.5)
    r["pad 7 complex"] = OTHER, lambda d, a: d.pad(7, value=0.5 - 2.0j)
    r["conjugate"] = LINEAR, lambda d, a: d.conjugate()
    r["istft"] = LINEAR, lambda d, a: d.inverse_short_time_fourier_transform(window=a["window"], overlap=0.5)
    r["istft WINDOW"] = LINEAR, lambda d, a: d.inverse_short_time_fourier_transform(window=a["WINDOW"], overlap=2)
    r["istft unpadded"] = LINEAR, lambda d, a: d.inverse_short_time_fourier_transform(window=a["window"], overlap=0.5, pad=False)
    r["FILTER"] = LINEAR, lambda d, a: d * a["FILTER"]
    r["filter"] = LINEAR, lambda d, a: a["filter"] * d
    r["slice"] = LINEAR, lambda d, a: d[:, 1:3]
    r["slice time"] = LINEAR, lambda d, a: d[:, :, 1:]
    r["one frequency"] = LINEAR, lambda d, a: d[:, 0, :]
    r["concatenate"] = LINEAR, lambda d, a: sumpf.Concatenate([d, d[:, :, 1:]]).output()
    arithmetic(r, ("SPECTROGRAM", "spectrogram", "SPECTRUM", "spectrum", "SIGNAL", "signal"), (2.5, -1, 0.5j))
    return r


_OPERATIONS = {}


def operations_for(value):
    import sumpf
    for t, o in ((sumpf.Signal, signal_operations), (sumpf.Spectrum, spectrum_operations), (sumpf.Spectrogram, spectrogram_operations)):
        if isinstance(value, t):
            if t not in _OPERATIONS:
                _OPERATIONS[t] = o()
            return _OPERATIONS[t]
    return {}


def attempt(function, data, arguments):
    try:
        with numpy.errstate(all="ignore"):
            return function(data, arguments)
    except (ValueError, IndexError, ZeroDivisionError, OverflowError) as e:
        return e


SPECIAL = {"ordinary": None, "zero": 0.0, "nan": numpy.nan, "inf": numpy.inf, "tiny": 1e-280, "huge": 1e150}


def base(kind, shape, special, tag=0, n=3):
    """A data set with three or more channels"""
    import sumpf
    if kind == "signal":
        length, offset = ((5, 1), (6, -2), (1, 0), (12, 3))[shape]
        samples = ref.symbolic(n, length, tag)
    elif kind == "spectrum":
        samples = ref.symbolic_complex(n, (3, 4, 1)[shape], tag)
    else:
        f, t, offset = ((3, 4, 1), (3, 6, -1), (1, 2, 0))[shape]
        samples = numpy.array([ref.symbolic_complex(f, t, k + tag) for k in range(n)])
    labels = ("one", "two", "three") + tuple(f"channel{i}" for i in range(4, n + 1))
    if SPECIAL[special] is not None:
        samples[1] *= SPECIAL[special] if special in ("zero", "tiny", "huge") else 1.0
        if special in ("nan", "inf"):
            samples[(1,) + (0,) * (samples.ndim - 1)] = SPECIAL[special]
    if kind == "signal":
        return sumpf.Signal(channels=samples, sampling_rate=10.0, offset=offset, labels=labels)
    if kind == "spectrum":
        return sumpf.Spectrum(channels=samples, resolution=2.0, labels=labels)
    return sumpf.Spectrogram(channels=samples, resolution=2.0, sampling_rate=2.5, offset=offset, labels=labels)


def axis(value):
    return tuple(getattr(value, m)() for m in ("sampling_rate", "resolution", "offset") if hasattr(value, m))


def scale(array):
    a = numpy.abs(numpy.asarray(array)).ravel()
    a = a[numpy.isfinite(a)]
    return float(a.max()) if a.size else 0.0


def compare_rows(actual, expected, magnitude, what):
    a, e = numpy.asarray(actual), numpy.asarray(expected)
    if a.shape != e.shape:
        raise Mismatch(f"{what} has the shape {a.shape} rather than {e.shape}")
    with numpy.errstate(all="ignore"):
        bad_a, bad_e = ~numpy.isfinite(a), ~numpy.isfinite(e)
        if not numpy.array_equal(bad_a, bad_e):
            raise Mismatch(f"{what} is {a!r} rather than {e!r}")
        if not numpy.allclose(numpy.where(bad_a, 0.0, a), numpy.where(bad_e, 0.0, e), rtol=1e-9, atol=1e-9 * magnitude):
            raise Mismatch(f"{what} is {a!r} rather than {e!r}")


def compare_channel(whole, single, c, name, n=3):
    """Compares a channel of the result with the result for the channel. Returns if both are data sets"""
    if isinstance(whole, Exception) or isinstance(single, Exception):
        if not isinstance(single, Exception):
            raise Mismatch(f"{name} raises {whole!r}, but works for channel {c} alone")
        if not isinstance(whole, Exception):
            raise Mismatch(f"{name} works for all channels, but raises {single!r} for channel {c} alone")
        return
    what = f"channel {c} of {name}"
    if isinstance(whole, Rows):
        if len(single.values) != 1 or len(whole.values) != n:
            raise Mismatch(f"{name} returns {len(whole.values)} values for {n} channels and {len(single.values)} for one")
        compare_rows(whole.values[c], single.values[0], scale(single.values[0]), what)
        return
    if len(whole) != n or len(single) != 1:
        raise Mismatch(f"{name} has {len(whole)} channels for a data set with {n} channels and {len(single)} for one with a single channel")
    compare_rows(whole.channels()[c], single.channels()[0], scale(single.channels()), what)
    if not (" " in str(whole.labels()[c]) and str(whole.labels()[c]).rsplit(" ", 1)[1].isdigit()):     # generated labels contain the number of the channel
        expect(whole.labels()[c] == single.labels()[0], "the label of {} is {!r} rather than {!r}", what, whole.labels()[c], single.labels()[0])
    for x, y in zip(axis(whole), axis(single)):
        expect(x == y or ref.same_number(x, y, rtol=1e-12, atol=0.0), "the axis of {} is {!r} rather than {!r}", what, axis(whole), axis(single))


def selected(operations, slot):
    """All operations or every eighth of them (the slots divide the exploration of long compositions between processes)."""
    return [o for i, o in enumerate(operations.items()) if slot is None or i % 8 == slot]


def independence(ck, shard, only=None):
    kind, shape, special, slot = shard[:4]
    n = shard[4] if len(shard) > 4 else 3
    depth = 1 if n > 3 else 3 if slot is not None else 2
    arguments = environment(n=n)
    singles = [channel_environment(arguments, c) for c in range(n)]

    def explore(whole, parts, path):
        for name, (_, function) in selected(operations_for(whole), slot if not path else None):
            if only is not None and len(path) < len(only) and name != only[len(path)]:
                continue
            state = {}

            def execute():
                title = " -> ".join(path + [name])
                result = attempt(function, whole, arguments)
                others = [attempt(function, p, a) for p, a in zip(parts, singles)]
                if isinstance(result, Exception):
                    if all(isinstance(o, Exception) for o in others):
                        ck.outcome("refused")
                        return
                for c, o in enumerate(others):
                    compare_channel(result, o, c, title, n)
                if not isinstance(result, Rows):
                    if path and result.channels().size > 400:
                        return
                    state["next"] = result, others
                ck.outcome("independent")
            ck.run({"part": "independence", "shard": list(shard), "path": path + [name]}, execute)
            ck.transition()
            if len(path) == 0 or state:
                ck.state((shard, tuple(path), name))
            if state and len(path) + 1 < depth:
                explore(*state["next"], path + [name])

    b = base(kind, shape, special, n=n)
    explore(b, [b[c] for c in range(n)], [])


def linearity(ck, shard, only=None):
    kind, shape, slot = shard
    depth = 3 if slot is not None else 2
    arguments = environment()

    def explore(x, y, z, path, magnitude):
        """z is the result for 0.5 * x - 3 * y, magnitude is that of the largest intermediate result (for the tolerance)"""
        for name, (linear, function) in selected(operations_for(x), slot if not path else None):
            if not linear or (only is not None and len(path) < len(only) and name != only[len(path)]):
                continue
            state = {}

            def execute():
                results = [attempt(function, d, arguments) for d in (x, y, z)]
                title = " -> ".join(path + [name])
                if any(isinstance(r, Exception) for r in results):
                    expect(all(isinstance(r, Exception) for r in results), "{} raises errors for some samples: {!r}", title, results)
                    return
                a, b, c = ((r.values if isinstance(r, Rows) else r.channels()) for r in results)
                a, b = numpy.asarray(a), numpy.asarray(b)
                compare_rows(c, 0.5 * a - 3.0 * b, max(scale(a), scale(b), magnitude) * 3.0, f"the result of {title} for a linear combination")
                if not isinstance(results[0], Rows):
                    expect(axis(results[0]) == axis(results[2]), "the axis of {} depends on the samples", title)
                    if results[0].channels().size <= 400:
                        state["next"] = results
                ck.outcome("linear")
            ck.run({"part": "linearity", "shard": list(shard), "path": path + [name]}, execute)
            ck.transition()
            ck.state(("linear", shard, tuple(path), name))
            if state and len(path) + 1 < depth:
                explore(*state["next"], path + [name], max(magnitude, *(scale(r.channels()) for r in state["next"])))

    import sumpf
    x, y = base(kind, shape, "ordinary"), base(kind, shape, "ordinary", tag=2)
    samples = 0.5 * x.channels() - 3.0 * y.channels()
    keywords = {m: getattr(x, m)() for m in ("sampling_rate", "resolution", "offset", "labels") if hasattr(x, m)}
    z = {"signal": sumpf.Signal, "spectrum": sumpf.Spectrum, "spectrogram": sumpf.Spectrogram}[kind](channels=samples, **keywords)
    explore(x, y, z, [], max(scale(d.channels()) for d in (x, y, z)))


def part(ck, shard):
    (independence if shard[0] == "independence" else linearity)(ck, shard[1])


def explore(ck):
    ck.sample({"path": ["stft", "istft unpadded"], "channels": 3, "special": "nan"})
    shards = []
    for kind, shapes in (("signal", 4), ("spectrum", 3), ("spectrogram", 3)):
        for shape in range(shapes):
            shards += [("independence", (kind, shape, special, slot)) for special in SPECIAL for slot in (range(8) if ck.thorough and shape == 0 else (None,))]
            shards += [("independence", (kind, shape, special, None, n)) for special in ("ordinary", "zero") for n in (*ref.MANY_CHANNELS, 70) if shape != 2]
            shards += [("linearity", (kind, shape, slot)) for slot in (range(8) if ck.thorough and shape < 2 else (None,))]
    shards.sort(key=lambda s: (s[0] != "linearity", s[1][1] != 0))
    ck.parallel(part, shards)


def replay(ck, case):
    (independence if case["part"] == "independence" else linearity)(ck, tuple(case["shard"]), case["path"])
