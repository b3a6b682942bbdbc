"""C18: data sets are immutable values: equality, hashes and the absence of side effects."""

import itertools
import numpy
from mc import ref
from mc.core import Mismatch, Skip
from mc.ref import expect

BOUNDS = {"quick": "equality: all ordered pairs of about 70 signals, spectrums and spectrograms, that are equal or differ in one aspect, of about 60 filters and of objects of other types; "
                   "operations: all histories of two operations (about 60 for signals, 40 for spectrums and spectrograms, 25 for filters) on data sets in six memory layouts",
          "thorough": "operations: all histories of three operations"}
ASSUMPTIONS = ["data sets with NaN samples are not compared", "arrays, that have been passed to a constructor or been returned by a getter, are not modified by the user (the data sets may share them)"]


# equality


def layouts(array):
    """The same values in arrays with different memory layouts."""
    array = numpy.array(array)
    yield "contiguous", array
    yield "fortran", numpy.asfortranarray(array)
    strided = numpy.zeros(tuple(2 * n for n in array.shape), dtype=array.dtype)
    strided += 77
    view = strided[tuple(slice(1, None, 2) for _ in array.shape)]
    view[...] = array
    yield "strided", view
    reversed_ = numpy.array(array[..., ::-1])[..., ::-1]
    yield "reversed", reversed_
    transposed = numpy.array(array.T).T
    yield "transposed", transposed
    readonly = numpy.array(array)
    readonly.flags.writeable = False
    yield "readonly", readonly


def data_universe():
    """Yields (key, object), objects are expected to be equal, if and only if their keys are equal."""
    import sumpf
    base = numpy.array([[1.0, -2.0, 0.5], [0.0, 4.0, -8.0]])
    last = base.copy()
    last[-1, -1] = numpy.nextafter(-8.0, 0.0)
    first = base.copy()
    first[0, 0] = 1.5
    negative_zero = base.copy()
    negative_zero[1, 0] = -0.0
    arrays = [("base", a) for _, a in layouts(base)]
    arrays += [("base", base.astype(numpy.float32)), ("base", negative_zero), ("last", last), ("first", first), ("swapped", base[::-1]), ("reversed", base[:, ::-1]),
               ("one", base[0:1]), ("short", base[:, 0:2]), ("flat", base.reshape((3, 2))), ("row", base.reshape((1, 6))), ("column", base.reshape((6, 1))), ("empty1", numpy.empty((1, 0))),
               ("empty2", numpy.empty((2, 0)))]
    label_sets = [("a", "b"), ["a", "b"], ("a", "c"), ("b", "a"), ("", ""), None, ("a",)]

    def labels_key(labels, n):
        labels = tuple(labels or ())[0:n]
        return labels + ("",) * (n - len(labels))

    def complete(labels, n):
        return labels_key(labels, n) if labels is not None else None

    for (name, a), labels in itertools.chain(((a, ("a", "b")) for a in arrays), ((arrays[0], l) for l in label_sets)):
        key = labels_key(labels, len(a))
        yield ("signal", name, key, 48000.0, 0), sumpf.Signal(channels=a, labels=labels)
        yield ("spectrum", name, key, 2.0), sumpf.Spectrum(channels=a, resolution=2.0, labels=labels)
        yield ("spectrum", name, key, 2.0), sumpf.Spectrum(channels=a.astype(complex), resolution=2.0, labels=labels)
    for rate in (48000, 44100.0, numpy.float64(48000.0), numpy.nextafter(48000.0, 0.0)):
        for offset in (0, 1, -1, numpy.int64(1)):
            yield ("signal", "base", ("a", "b"), float(rate), int(offset)), sumpf.Signal(channels=base, sampling_rate=rate, offset=offset, labels=("a", "b"))
    for resolution in (2, 1.0, numpy.float64(2.0)):
        yield ("spectrum", "base", ("a", "b"), float(resolution)), sumpf.Spectrum(channels=base, resolution=resolution, labels=("a", "b"))
    imaginary = base.astype(complex)
    imaginary[1, 2] += 1e-300j
    yield ("spectrum", "imaginary", ("a", "b"), 2.0), sumpf.Spectrum(channels=imaginary, resolution=2.0, labels=("a", "b"))
    cube = numpy.array([base, base * 2.0 + 1.0j])
    other = cube.copy()
    other[1, 1, 2] += 1.0
    for name, a in [("cube", a) for _, a in layouts(cube)] + [("other", other), ("transposed", cube.transpose((0, 2, 1))), ("flat", cube.reshape((2, 1, 6))), ("one", cube[0:1])]:
        labels = ("a", "b")[0:len(a)]
        yield ("spectrogram", name, labels, 2.0, 10.0, 0), sumpf.Spectrogram(channels=a, resolution=2.0, sampling_rate=10.0, offset=0, labels=labels)
    for resolution, rate, offset, labels in [(2, 10, 0, ("a", "b")), (1.0, 10.0, 0, ("a", "b")), (2.0, 5.0, 0, ("a", "b")), (10.0, 2.0, 0, ("a", "b")), (2.0, 10.0, 1, ("a", "b")),
                                             (2.0, 10.0, -1, ("a", "b")), (2.0, 10.0, 0, ("b", "a")), (2.0, 10.0, 0, None)]:
        yield ("spectrogram", "cube", labels_key(labels, 2), float(resolution), float(rate), offset), sumpf.Spectrogram(channels=cube, resolution=resolution, sampling_rate=rate, offset=offset, labels=labels)


class Foreign:
    pass


def foreign_objects():
    return [None, 0, 1.0, 2j, "text", (), [1.0], {}, Foreign(), Foreign, numpy.float64(1.0), numpy.zeros((2, 3)), float("nan")]


def compare(a, b, expected, names):
    for x, y, direction in ((a, b, ""), (b, a, " (swapped)")):
        equal = x == y
        different = x != y
        expect(isinstance(equal, (bool, numpy.bool_)) and isinstance(different, (bool, numpy.bool_)), "the comparison of {} returned {!r} and {!r}", names, equal, different)
        expect(bool(equal) is not bool(different), "{} is both or neither equal and different{}", names, direction)
        if expected is not None:
            expect(bool(equal) is expected, "{}: == returned {}{}", names, equal, direction)
    expect(bool(a == b) is bool(b == a), "the comparison of {} depends on the order of the operands", names)
    return a == b


def data_equality(ck):
    universe = list(data_universe())
    for i, (k1, d1) in enumerate(universe):
        for j, (k2, d2) in enumerate(universe):
            if j < i:
                continue

            def execute():
                compare(d1, d2, k1 == k2, f"{k1} and {k2}")
                if k1 == k2:
                    expect(hash(d1) == hash(d2), "the hashes of equal data sets differ: {} and {}", d1, d2)
                    expect(len({d1, d2}) == 1 and {d1: 1}.get(d2) == 1, "equal data sets are not found in sets or dictionaries: {}", k1)
                else:
                    expect(len({d1, d2}) == 2, "different data sets are the same element of a set: {} and {}", k1, k2)
            ck.run({"part": "data", "pair": [i, j]}, execute)
            ck.transition()
            ck.outcome("equal" if k1 == k2 else "different")
        ck.state(("data", i, repr(k1)))
        for n, f in enumerate(foreign_objects()):
            if isinstance(f, numpy.ndarray):        # the comparison might be element wise
                continue
            ck.run({"part": "data", "foreign": [i, n]}, lambda: compare(d1, f, False, f"{k1} and {f!r}"))
    for i, (k1, d1) in enumerate(universe):
        for (k2, d2) in filters()[0:3]:
            ck.run({"part": "data", "filter": [i, k2]}, lambda: compare(d1, d2, False, f"{k1} and the filter {k2}"))


def terms():
    """Yields (name, function, that creates a new instance of the term)"""
    import sumpf
    F = sumpf.Filter
    I = sumpf.Bands.interpolations
    polynomial = lambda: F.Polynomial([0.5, 1.0])
    exponential = lambda: F.Exp(-0.25)
    bands = lambda interpolation=I.LINEAR, extrapolation=I.STAIRS_LIN, ys=(2.0, -4.0, 1.0), xs=(1.0, 10.0, 30.0): F.Bands(xs=list(xs), ys=list(ys), interpolation=interpolation, extrapolation=extrapolation)
    result = [("constant", lambda: F.Constant(2.0)), ("constant3", lambda: F.Constant(3.0)), ("constantj", lambda: F.Constant(2.0j)), ("one", lambda: F.Constant(1)),
              ("polynomial", polynomial), ("polynomial array", lambda: F.Polynomial(numpy.array([0.5, 1.0]))), ("polynomial tuple", lambda: F.Polynomial((0.5, 1.0))),
              ("polynomial2", lambda: F.Polynomial([0.5, 1.5])), ("polynomial3", lambda: F.Polynomial([0.5, 1.0, 1.0])), ("polynomial T", lambda: F.Polynomial([0.5, 1.0], transform=True)),
              ("exp", exponential), ("exp2", lambda: F.Exp(-0.5)), ("exp T", lambda: F.Exp(-0.25, transform=True)),
              ("bands", bands), ("bands array", lambda: bands(ys=numpy.array([2.0, -4.0, 1.0]))), ("bands ys", lambda: bands(ys=(2.0, -4.0, 2.0))), ("bands xs", lambda: bands(xs=(1.0, 10.0, 31.0))),
              ("bands interpolation", lambda: bands(interpolation=I.STAIRS_LIN)), ("bands extrapolation", lambda: bands(extrapolation=I.LINEAR)), ("bands short", lambda: bands(xs=(1.0, 10.0), ys=(2.0, -4.0))),
              ("bands complex", lambda: bands(ys=(2.0, -4.0, 1.0j)))]
    pairs = [("pe", polynomial, exponential), ("ep", exponential, polynomial), ("pb", polynomial, bands), ("ee", exponential, lambda: F.Exp(-0.5))]
    for n, a, b in pairs:
        result += [(n + " sum", lambda a=a, b=b: F.Sum((a(), b()))), (n + " +", lambda a=a, b=b: a() + b()), (n + " difference", lambda a=a, b=b: F.Difference(a(), b())), (n + " product", lambda a=a, b=b: F.Product((a(), b()))),
                   (n + " *", lambda a=a, b=b: a() * b()), (n + " quotient", lambda a=a, b=b: F.Quotient(a(), b())), (n + " quotient T", lambda a=a, b=b: F.Quotient(a(), b(), transform=True)),
                   (n + " abs", lambda a=a, b=b: abs(a() * b())), (n + " neg", lambda a=a, b=b: -(a() / b())), (n + " sum3", lambda a=a, b=b: F.Sum((a(), b(), F.Exp(-1.0)))),
                   (n + " product3", lambda a=a, b=b: F.Product((a(), b(), F.Exp(-1.0)))), (n + " product3 T", lambda a=a, b=b: F.Product((a(), b(), F.Exp(-1.0)), transform=True))]
    zeros = [("zero", lambda: F.Constant(0.0)), ("zero polynomial", lambda: F.Polynomial([0.0, 0.0])), ("zero sum", lambda: F.Sum(())), ("zero difference", lambda: F.Difference(polynomial(), polynomial())),
             ("zero bands", lambda: bands(ys=(0.0, 0.0, 0.0))), ("zero product", lambda: F.Constant(0.0) * exponential()), ("zero polynomial sum", lambda: polynomial() - polynomial()),
             ("zero exp difference", lambda: exponential() - exponential()), ("zero constant product", lambda: polynomial() * F.Constant(0.0)), ("zero abs", lambda: abs(exponential() - exponential()))]
    return result + zeros


GRID = numpy.array([0.0, 0.03, 0.5, 1.0, 2.5, 10.0, 20.0, 33.0, 100.0])


def filters():
    import sumpf
    result = []
    created = [(n, t()) for n, t in terms()]
    for n, t in created:
        result.append((n, sumpf.Filter(transfer_functions=(t,), labels=("x",))))
    by_name = dict(created)
    for n in (("polynomial", "exp"), ("exp", "polynomial"), ("polynomial", "exp2"), ("polynomial", "exp", "exp")):
        result.append((" & ".join(n), sumpf.Filter(transfer_functions=tuple(by_name[i] for i in n), labels=("x",) * len(n))))
    result.append(("polynomial y", sumpf.Filter(transfer_functions=(by_name["polynomial"],), labels=("y",))))
    result.append(("polynomial list", sumpf.Filter(transfer_functions=(by_name["polynomial"],), labels=["x"])))
    result.append(("polynomial no label", sumpf.Filter(transfer_functions=(by_name["polynomial"],))))
    for label in ("x", "y"):
        result.append(("bands filter " + label, sumpf.Bands(bands={1.0: 2.0, 10.0: -4.0, 30.0: 1.0}, labels=(label,))))
    result.append(("butterworth", sumpf.ButterworthFilter(cutoff_frequency=10.0, order=2, highpass=False)))
    result.append(("butterworth highpass", sumpf.ButterworthFilter(cutoff_frequency=10.0, order=2, highpass=True)))
    result.append(("butterworth 3", sumpf.ButterworthFilter(cutoff_frequency=10.0, order=3, highpass=False)))
    return result


def filter_equality(ck):
    first, second = filters(), filters()
    values = [f(GRID) for _, f in first]
    for i, (n1, f1) in enumerate(first):
        ck.state(("filter", n1))
        for j, (n2, f2) in enumerate(second):
            def execute():
                if i == j:
                    expected = True
                elif len(f1) != len(f2) or f1.labels() != f2.labels():
                    expected = False
                elif not all(numpy.allclose(v1, v2, rtol=1e-9, atol=1e-12) for v1, v2 in zip(values[i], values[j])):
                    expected = False
                else:
                    expected = None     # whether different terms with the same transfer function are equal is not specified
                result = compare(f1, f2, expected, f"the filters {n1} and {n2}")
                ck.outcome("equal filters" if result else "different filters")
            ck.run({"part": "filters", "pair": [n1, n2]}, execute)
            ck.transition()
        for n, f in enumerate(foreign_objects()):
            if not isinstance(f, numpy.ndarray):
                ck.run({"part": "filters", "foreign": [n1, n]}, lambda: compare(f1, f, False, f"the filter {n1} and {f!r}"))


# the absence of side effects


def capture(value, depth=0):
    """A deep, exact snapshot of a result."""
    import sumpf
    if isinstance(value, sumpf.Signal):
        return ("signal", capture(value.channels()), value.sampling_rate(), value.offset(), value.labels(), value.length(), value.shape(), value.duration(), len(value))
    if isinstance(value, sumpf.Spectrum):
        return ("spectrum", capture(value.channels()), value.resolution(), value.labels(), value.length(), value.shape(), value.maximum_frequency(), len(value))
    if isinstance(value, sumpf.Spectrogram):
        return ("spectrogram", capture(value.channels()), value.resolution(), value.sampling_rate(), value.offset(), value.labels(), value.shape(), value.duration(), len(value))
    if isinstance(value, sumpf.Filter):
        result = ("filter", repr(value), value.labels(), capture(value(GRID)), len(value))
        if isinstance(value, sumpf.Bands):
            result += (repr(value.to_db()) if hasattr(value, "to_db") else "",)
        return result
    if isinstance(value, numpy.ndarray):
        return ("array", value.shape, value.dtype.str, value.tobytes())
    if isinstance(value, (tuple, list)):
        return tuple(capture(v, depth + 1) for v in value)
    if isinstance(value, (int, float, complex, str, bool, type(None), numpy.generic)):
        return repr(value)
    return repr(type(value))


def approximately(value):
    """The part of the result, that has to be the same for all memory layouts (apart from rounding errors)."""
    import sumpf
    if isinstance(value, (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram)):
        rest = (type(value).__mro__[-3].__name__,) + tuple(getattr(value, m)() for m in ("sampling_rate", "offset", "resolution", "labels") if hasattr(value, m))
        return [rest, value.channels()]
    if isinstance(value, sumpf.Filter):
        return [value.labels(), value(GRID)]
    if isinstance(value, (tuple, list)):
        return [approximately(v) for v in value]
    return value


def agree(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray):
        return ref.same_array(a, b, rtol=1e-9, atol=1e-9 * max(1.0, float(numpy.nanmax(numpy.abs(b[numpy.isfinite(b)]), initial=0.0))))
    if isinstance(a, (float, complex, numpy.number)) and isinstance(b, (float, complex, numpy.number)):
        return ref.same_number(a, b)
    return a == b


def argument_values():
    """The other operands and parameters of the operations; they must not be modified, either."""
    import sumpf
    rng = ref.symbolic
    return {"vector": rng(1, 5, 3)[0],
            "matrix": rng(2, 5, 4),
            "signal": sumpf.Signal(channels=rng(2, 4, 1), sampling_rate=10.0, offset=2, labels=("x", "y")),
            "mono": sumpf.Signal(channels=rng(1, 3, 2), sampling_rate=10.0, offset=-1, labels=("m",)),
            "window": sumpf.Signal(channels=numpy.array([[0.25, 0.75, 1.0, 0.5]]), sampling_rate=10.0),
            "spectrum": sumpf.Spectrum(channels=ref.symbolic_complex(2, 3, 1), resolution=2.0, labels=("x", "y")),
            "spectrum1": sumpf.Spectrum(channels=ref.symbolic_complex(1, 3, 2), resolution=2.0, labels=("m",)),
            "spectrogram": sumpf.Spectrogram(channels=numpy.array([ref.symbolic_complex(3, 4, 1), ref.symbolic_complex(3, 4, 2)]), resolution=2.0, sampling_rate=2.5, offset=1, labels=("x", "y")),
            "filter": sumpf.Filter(transfer_functions=(sumpf.Filter.Polynomial(numpy.array([0.01, 1.0])), sumpf.Filter.Exp(-0.01)), labels=("x", "y")),
            "bands": sumpf.Bands(bands={1.0: 2.0, 10.0: 4.0, 33.0: 1.0}, labels=("b",))}


BINARY = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a ** b, "%": lambda a, b: a % b}


def inplace(operator_name):
    import operator
    return getattr(operator, operator_name)


def signal_operations():
    import sumpf
    M = sumpf.Signal.shift_modes
    C = sumpf.Signal.convolution_modes
    r = {}
    for name in ("time_samples", "level", "mean", "standard_deviation", "variance", "skewness", "kurtosis", "duration", "channels", "labels", "shape"):
        r[name] = lambda d, a, name=name: getattr(d, name)()
    for name in ("level", "mean", "standard_deviation", "variance", "skewness", "kurtosis"):
        r[name + " single"] = lambda d, a, name=name: getattr(d, name)(single_value=True)
    for m in M:
        r[f"shift {m.name}"] = lambda d, a, m=m: d.shift(2, mode=m)
        r[f"shift {m.name} -1"] = lambda d, a, m=m: d.shift(-1, mode=m)
        r[f"shift {m.name} 0"] = lambda d, a, m=m: d.shift(0, mode=m)
    r["shift None"] = lambda d, a: d.shift(None)
    for n in (0, 3, 8):
        r[f"pad {n}"] = lambda d, a, n=n: d.pad(n, value=0.5)
    for m in C:
        r[f"convolve {m.name}"] = lambda d, a, m=m: d.convolve(a["signal"], mode=m)
        r[f"convolve mono {m.name}"] = lambda d, a, m=m: d.convolve(a["mono"], mode=m)
        r[f"correlate {m.name}"] = lambda d, a, m=m: d.correlate(a["mono"], mode=m)
        r[f"convolve vector {m.name}"] = lambda d, a, m=m: d.convolve(a["vector"], mode=m)
    r["autocorrelate"] = lambda d, a: d.correlate(d)
    r["fourier_transform"] = lambda d, a: d.fourier_transform()
    r["fourier_transform window"] = lambda d, a: d.fourier_transform(window=a["window"], overlap=0.5)
    r["stft"] = lambda d, a: d.short_time_fourier_transform(window=a["window"], overlap=0.5)
    r["stft unpadded"] = lambda d, a: d.short_time_fourier_transform(window=a["window"], overlap=3, pad=False)
    r["level_vs_time"] = lambda d, a: d.level_vs_time(integration_time=0.25)
    r["level_vs_time padded"] = lambda d, a: d.level_vs_time(integration_time=0.25, pad=True)
    r["filtered"] = lambda d, a: d * a["filter"]
    r["filtered left"] = lambda d, a: a["filter"] * d
    r["bands"] = lambda d, a: d * a["bands"]
    r["spectrogram"] = lambda d, a: a["spectrogram"] * d
    r["energy decay"] = lambda d, a: sumpf.EnergyDecayCurve(d[0:1])
    r["energy decay 2"] = lambda d, a: sumpf.EnergyDecayCurve(d)
    r["fade"] = lambda d, a: d * sumpf.Fade(rise_interval=(0.0, 0.4), fall_interval=(0.6, 1.0), sampling_rate=d.sampling_rate(), length=max(d.length(), 1))
    common(r, ("signal", "mono", "vector", "matrix", 2.0, 0, 1), indices=((0,), (slice(None), slice(1, 3)), (slice(None, None, -1),), (1, slice(2, None)), (slice(0, 2), slice(0.5, None))))
    r["reversed"] = lambda d, a: reversed(d)
    merge_operations(r, sumpf, "signal")
    return r


def common(r, others, indices):
    for name in BINARY:
        for o in others:
            r[f"{name} {o}"] = lambda d, a, name=name, o=o: BINARY[name](d, a[o] if isinstance(o, str) else o)
            if not isinstance(o, str) or o in ("vector", "matrix"):
                r[f"{o} {name}"] = lambda d, a, name=name, o=o: BINARY[name](a[o] if isinstance(o, str) else o, d)
    for n in ("iadd", "isub", "imul", "itruediv"):
        r[n] = lambda d, a, n=n: inplace(n)(d, 2.0)
        r[n + " self"] = lambda d, a, n=n: inplace(n)(d, d)
    r["+ self"] = lambda d, a: d + d
    r["abs"] = lambda d, a: abs(d)
    r["neg"] = lambda d, a: -d
    r["invert"] = lambda d, a: ~d
    r["repr"] = lambda d, a: repr(d)
    r["str"] = lambda d, a: str(d) and None
    r["eq"] = lambda d, a: d == d
    r["hash"] = lambda d, a: hash(d) and None
    for i, index in enumerate(indices):
        r[f"index {i}"] = lambda d, a, index=index: d[index if len(index) > 1 else index[0]]


def merge_operations(r, sumpf, argument):
    def merged(d, a):
        return sumpf.Merge([d, a[argument], d]).output()
    r["merge"] = merged
    if argument == "signal":
        r["concatenate"] = lambda d, a: sumpf.Concatenate([d, a[argument], d]).output()


def spectrum_operations():
    import sumpf
    r = {}
    for name in ("magnitude", "phase", "real", "imaginary", "frequency_samples", "level", "conjugate", "inverse_fourier_transform", "maximum_frequency", "channels", "labels"):
        r[name] = lambda d, a, name=name: getattr(d, name)()
    r["level single"] = lambda d, a: d.level(single_value=True)
    for n in (0, 2, 5):
        r[f"pad {n}"] = lambda d, a, n=n: d.pad(n, value=0.5)
    r["filtered"] = lambda d, a: d * a["filter"]
    r["filtered left"] = lambda d, a: a["filter"] * d
    r["spectrogram"] = lambda d, a: a["spectrogram"] * d
    common(r, ("spectrum", "spectrum1", 2.0, 1j, 0, 1), indices=((0,), (slice(None), slice(1, 3)), (slice(None, None, -1),), (1, slice(2, None))))
    merge_operations(r, sumpf, "spectrum")
    return {k: v for k, v in r.items() if "%" not in k}


def spectrogram_operations():
    import sumpf
    M = sumpf.Spectrogram.shift_modes
    r = {}
    for name in ("magnitude", "phase", "real", "imaginary", "frequency_samples", "time_samples", "conjugate", "channels", "labels", "duration"):
        r[name] = lambda d, a, name=name: getattr(d, name)()
    for m in M:
        r[f"shift {m.name}"] = lambda d, a, m=m: d.shift(1, mode=m)
        r[f"shift {m.name} -2"] = lambda d, a, m=m: d.shift(-2, mode=m)
    for n in (1, 6):
        r[f"pad {n}"] = lambda d, a, n=n: d.pad(n, value=0.5)
    r["istft"] = lambda d, a: d.inverse_short_time_fourier_transform(window=a["window"], overlap=0.5)
    r["istft unpadded"] = lambda d, a: d.inverse_short_time_fourier_transform(window=a["window"], overlap=0.5, pad=False)
    r["filtered"] = lambda d, a: d * a["filter"]
    r["filtered left"] = lambda d, a: a["filter"] * d
    common(r, ("spectrogram", "signal", "spectrum", 2.0, 1j, 0, 1), indices=((0,), (slice(None), slice(1, 3)), (slice(None), 1, slice(1, 3)), (slice(None, None, -1),)))
    merge_operations(r, sumpf, "spectrogram")
    return {k: v for k, v in r.items() if "%" not in k}


def filter_operations():
    import sumpf
    r = {}
    r["sample"] = lambda d, a: d(GRID)
    r["sample scalar"] = lambda d, a: d(10.0)
    r["sample list"] = lambda d, a: d([0.0, 1.0, 3.0])
    r["spectrum"] = lambda d, a: d.spectrum(resolution=2.0, length=4)
    r["transfer_functions"] = lambda d, a: [repr(t) for t in d.transfer_functions()]
    r["transformed"] = lambda d, a: sumpf.Filter(tuple(t.invert_transform() for t in d.transfer_functions()), labels=d.labels())
    r["apply"] = lambda d, a: d * a["signal"]
    r["apply spectrum"] = lambda d, a: d * a["spectrum"]
    r["apply spectrogram"] = lambda d, a: d * a["spectrogram"]
    common(r, ("filter", "bands", 2.0, 1j, 0, 1), indices=((0,), (slice(None, None, -1),), (slice(0.5, None),)))
    return {k: v for k, v in r.items() if "%" not in k and "**" not in k and "hash" not in k}


def bases(kind):
    """Yields (name of the variant, data set)"""
    import sumpf
    if kind == "signal":
        for name, a in layouts(ref.symbolic(2, 5)):
            yield name, sumpf.Signal(channels=a, sampling_rate=10.0, offset=1, labels=("one", "two"))
    elif kind == "spectrum":
        for name, a in layouts(ref.symbolic_complex(2, 3)):
            yield name, sumpf.Spectrum(channels=a, resolution=2.0, labels=("one", "two"))
    elif kind == "spectrogram":
        for name, a in layouts(numpy.array([ref.symbolic_complex(3, 4), ref.symbolic_complex(3, 4, 7)])):
            yield name, sumpf.Spectrogram(channels=a, resolution=2.0, sampling_rate=2.5, offset=1, labels=("one", "two"))
    elif kind == "filter":
        F = sumpf.Filter
        yield "terms", sumpf.Filter(transfer_functions=(F.Polynomial(numpy.array([0.5, 2.0])) + F.Exp(-0.5), F.Polynomial([0.25, 1.0], transform=True)), labels=("one", "two"))
        yield "bands", sumpf.Bands(bands=({1.0: 2.0, 10.0: 4.0, 33.0: 1.0}, {1.0: 3.0, 30.0: 4.0}), labels=("one", "two"))
        yield "array bands", sumpf.Filter(transfer_functions=(F.Bands(xs=numpy.array([1.0, 10.0, 33.0]), ys=numpy.array([3.0, -1.0, 2.0j]), interpolation=sumpf.Bands.interpolations.LINEAR,
                                                                      extrapolation=sumpf.Bands.interpolations.LINEAR), F.Product((F.Exp(-0.5), F.Polynomial([1.0, 2.0]), F.Exp(0.25)))), labels=("one", "two"))
        yield "butterworth", sumpf.ButterworthFilter(cutoff_frequency=10.0, order=3, highpass=True)


def operations_for(value):
    import sumpf
    for t, o in ((sumpf.Signal, signal_operations), (sumpf.Spectrum, spectrum_operations), (sumpf.Spectrogram, spectrogram_operations), (sumpf.Filter, filter_operations)):
        if isinstance(value, t):
            return o()
    return {}


def attempt(function, data, arguments):
    """Calls an operation. Whether it can cope with the operands is up to other properties, but it has to do so reproducibly."""
    try:
        with numpy.errstate(all="ignore"):
            return function(data, arguments)
    except (ValueError, IndexError, ZeroDivisionError, TypeError, OverflowError, AttributeError) as e:
        return f"{type(e).__name__}"


def histories(ck, shard, only=None):
    kind, variant = shard
    depth = 3 if ck.thorough else 2
    arguments = argument_values()
    argument_snapshot = capture(list(arguments.values()))
    base = dict(bases(kind))[variant]
    reference = dict(bases(kind))["contiguous"] if kind != "filter" else None
    base_snapshot = capture(base)

    def unchanged(pool, where):
        for value, snapshot, name in pool:
            if capture(value) != snapshot:
                raise Mismatch(f"{where} has modified {name}")
        if capture(list(arguments.values())) != argument_snapshot:
            raise Mismatch(f"{where} has modified its argument")

    def explore(value, counterpart, pool, path, steps):
        for name, function in operations_for(value).items():
            if only is not None and len(path) < len(only) and name != only[len(path)]:
                continue
            case = {"part": "operations", "kind": kind, "variant": variant, "path": path + [name]}
            state = {}

            def execute():
                result = attempt(function, value, arguments)
                snapshot = capture(result)
                state["result"] = result, snapshot
                unchanged(pool, f"{' -> '.join(path + [name])} on {variant} {kind}")
                again = attempt(function, value, arguments)
                if capture(again) != snapshot:
                    if not agree(approximately(again), approximately(result)):
                        raise Mismatch(f"{' -> '.join(path + [name])} has a different result, when it is called again: {result!r} and {again!r}")
                unchanged(pool + [(result, snapshot, "its own previous result")], f"repeating {' -> '.join(path + [name])} on {variant} {kind}")
                if counterpart is not None and name not in ("repr", "str"):
                    expected = attempt(function, counterpart, arguments)
                    state["counterpart"] = expected
                    if not agree(approximately(result), approximately(expected)):
                        raise Mismatch(f"{' -> '.join(path + [name])} depends on the memory layout of the samples: {result!r} for {variant} rather than {expected!r}")
            ck.run(case, execute)
            ck.transition()
            if "result" not in state:
                continue
            result, snapshot = state["result"]
            ck.state((kind, variant, snapshot))
            ck.outcome("refused" if isinstance(result, str) and result.endswith("Error") else "computed")
            if steps > 1 and operations_for(result) and capture(result)[0] in ("signal", "spectrum", "spectrogram", "filter") and tame(result):
                explore(result, state.get("counterpart"), pool + [(result, snapshot, " -> ".join(path + [name]))], path + [name], steps - 1)

    def tame(result):
        """Avoids following up on results, that consist of rounding errors."""
        if hasattr(result, "channels"):
            c = numpy.abs(result.channels())
            return c.size > 0 and numpy.isfinite(c).all() and 1e-6 < c.max() < 1e6
        return True

    explore(base, reference, [(base, base_snapshot, "the original data set")], [], depth)


def construction(ck):
    """Modifying the dictionaries and label lists, from which a data set has been created, does not affect it."""
    import sumpf
    I = sumpf.Bands.interpolations

    def create(parameters):
        return sumpf.Bands(**parameters)

    for n in (1, 2):
        for action in ("replace", "add", "remove", "clear", "labels", "interpolations", "extrapolations", "append"):
            for single in (True, False):
                def execute():
                    dictionaries = [{1.0: 2.0, 10.0: 4.0, 33.0: 1.0}, {1.0: 3.0, 30.0: 4.0}][0:n]
                    parameters = {"bands": dictionaries[0] if single else dictionaries, "interpolations": [I.LINEAR, I.LOG_X][0:n], "extrapolations": [I.STAIRS_LIN, I.ZERO][0:n], "labels": ["one", "two"][0:n]}
                    filter_ = create(parameters)
                    snapshot = capture(filter_), repr(filter_.to_db()), repr(filter_.from_db())
                    if action == "replace":
                        dictionaries[0][1.0] = 5.0
                    elif action == "add":
                        dictionaries[-1][2.0] = 5.0
                    elif action == "remove":
                        del dictionaries[-1][1.0]
                    elif action == "clear":
                        dictionaries[0].clear()
                    elif action == "append":
                        dictionaries.append({1.0: 1.0})
                    else:
                        parameters[action][0] = "x" if action == "labels" else I.ONE
                    if (capture(filter_), repr(filter_.to_db()), repr(filter_.from_db())) != snapshot:
                        raise Mismatch(f"modifying the parameters ({action}) after the construction has changed the filter")
                ck.run({"part": "construction", "channels": n, "action": action, "single": single}, execute)
    for action in ("replace", "append", "clear"):
        for name, create in (("signal", lambda l: sumpf.Signal(channels=ref.symbolic(2, 3), labels=l)), ("spectrum", lambda l: sumpf.Spectrum(channels=ref.symbolic(2, 3), labels=l)),
                             ("spectrogram", lambda l: sumpf.Spectrogram(channels=numpy.ones((2, 3, 4)), labels=l)), ("filter", lambda l: sumpf.Filter((sumpf.Filter.Exp(-1.0),) * 2, labels=l))):
            def execute():
                labels = ["one", "two"]
                value = create(labels)
                if action == "replace":
                    labels[0] = "x"
                elif action == "append":
                    labels.append("x")
                else:
                    labels.clear()
                if tuple(value.labels()) != ("one", "two"):
                    raise Mismatch(f"modifying the list of labels ({action}) has changed the {name}: {value.labels()}")
            ck.run({"part": "construction", "labels": name, "action": action}, execute)


def explore(ck):
    data_equality(ck)
    construction(ck)
    filter_equality(ck)
    shards = [(kind, variant) for kind in ("signal", "spectrum", "spectrogram", "filter") for variant, _ in bases(kind)]
    ck.parallel(histories, shards)


def replay(ck, case):
    if case["part"] == "data":
        data_equality(ck)
    elif case["part"] == "filters":
        filter_equality(ck)
    elif case["part"] == "construction":
        construction(ck)
    else:
        ck.thorough = len(case["path"]) > 2
        histories(ck, (case["kind"], case["variant"]), only=case["path"])
