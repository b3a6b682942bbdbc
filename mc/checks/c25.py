"""C25: results move along with the time axis, scale with the sampling rate and inverse operations undo each other."""

import cmath
import itertools
import math
import numpy
from mc import ref
from mc.checks import c24
from mc.core import Mismatch
from mc.ref import expect, expect_array, expect_equal

BOUNDS = {"quick": "moving: all compositions of two of about 90 operations for signals and 60 for spectrograms, 10 data sets, moved by 10 times (those, that are not a multiple of four blocks, without short time transformations); "
                   "scaling: the same compositions and those for spectrums with two factors for the sampling rate; inverses: all signals of up to 5 samples from {-1, 0, 1} and symbolic ones of up to 13 samples with 7 offsets; "
                   "round trips: all nested pairs of about 20 operations and their inverses on the results of each operation",
          "thorough": "moving and scaling: compositions of three operations for one data set of each kind; inverses: signals of up to 7 samples from {-1, 0, 1} and 5 from {-2..2}; round trips: on the results of all compositions of two operations"}
ASSUMPTIONS = ["concatenations (offsets are gaps) and filtering of signals (the results start at zero) do not move along", "the offset of a spectrogram is rounded, so that it is only required to move by a multiple of two blocks", "signals, whose transformation (almost) has zeros, are only inverted in combination with other channels",
               "results are compared with a relative tolerance of 1e-8 of the largest intermediate value"]


# moving and scaling


REVERSING = ("reversed", "invert")


def velocity(name, v):
    """How the result of an operation moves, when its operand moves with the velocity v"""
    if name in REVERSING or name.startswith("correlate "):
        return -v
    if name in ("autocorrelate", "shift None"):
        return 0
    return v


def moved(environment, steps):
    """The operands, after they have been moved"""
    import sumpf
    return {k: (v.shift(steps) if isinstance(v, (sumpf.Signal, sumpf.Spectrogram)) and k != "window" else v) for k, v in environment.items()}


def magnitude_of(value):
    return c24.scale(value.values if isinstance(value, c24.Rows) else value.channels())


def values(value):
    return numpy.asarray(value.values if isinstance(value, c24.Rows) else value.channels())


def rebuilt(data, rate=1.0, offset=0):
    """A copy of a data set with other axes"""
    import sumpf
    if isinstance(data, sumpf.Signal):
        return sumpf.Signal(channels=data.channels(), sampling_rate=data.sampling_rate() * rate, offset=data.offset() + offset, labels=data.labels())
    if isinstance(data, sumpf.Spectrum):
        return sumpf.Spectrum(channels=data.channels(), resolution=data.resolution() * rate, labels=data.labels())
    return sumpf.Spectrogram(channels=data.channels(), resolution=data.resolution() * rate, sampling_rate=data.sampling_rate() * rate, offset=data.offset() + offset, labels=data.labels())


def both_refused(results, title):
    if any(isinstance(r, Exception) for r in results):
        expect(all(isinstance(r, Exception) for r in results), "{} is only refused for one of the data sets: {!r}", title, results)
        return True
    return False


def same_values(a, b, magnitude, what):
    c24.compare_rows(b, a, max(magnitude, c24.scale(a)) * 10.0, what)


def moving(ck, shard, only=None):
    import sumpf
    kind, shape, distance, slot = shard
    depth = 3 if slot is not None else 2
    environment = c24.environment()

    def explore(x, y, v, path, magnitude, hop):
        """v is the velocity of y, hop is the number of original samples per sample of the data set"""
        for name, (_, function) in c24.selected(c24.operations_for(x), slot if not path else None):
            if only is not None and len(path) < len(only) and name != only[len(path)]:
                continue
            if name == "fade" or name.startswith("concatenate") or (isinstance(x, sumpf.Signal) and name.upper() == "FILTER") or (distance % 4 and name.startswith("stft")):
                continue
            steps = int(round(v * distance / hop))
            arguments = environment if name.startswith(("convolve", "correlate")) else moved(environment, steps)
            state = {}

            def execute():
                title = " -> ".join(path + [name])
                results = c24.attempt(function, x, environment), c24.attempt(function, y, arguments)
                if both_refused(results, title):
                    return
                a, b = results
                if isinstance(a, sumpf.Spectrum):
                    frequencies = numpy.arange(a.length()) * a.resolution()
                    expected = a.channels() * numpy.exp(-2.0j * math.pi * frequencies * steps / x.sampling_rate())
                    expect_equal(b.resolution(), a.resolution(), "the resolution of " + title)
                    with numpy.errstate(all="ignore"):
                        expect_array(b.channels(), expected, f"{title} for data, that is moved by {distance} samples", rtol=1e-7, atol=1e-8 * max(magnitude, c24.scale(a.channels())) * max(1.0, abs(distance) * 1e-3))
                    ck.outcome("phase")
                    return
                same_values(values(a), values(b), magnitude, f"{title} for data, that is moved by {distance} samples,")
                if not isinstance(a, c24.Rows):
                    v_ = velocity(name, v)
                    hop_ = hop
                    if isinstance(x, sumpf.Signal) and isinstance(a, sumpf.Spectrogram):
                        hop_ = int(round(x.sampling_rate() / a.sampling_rate())) * hop
                    elif isinstance(x, sumpf.Spectrogram) and isinstance(a, sumpf.Signal):
                        hop_ = hop / (a.sampling_rate() / x.sampling_rate())
                    expect_equal(b.offset() - a.offset(), v_ * distance / hop_, f"the movement of {title} for data, that is moved by {distance} samples")
                    expect(tuple(a.labels()) == tuple(b.labels()), "the labels of {} depend on the offset", title)
                    expect_equal(b.sampling_rate(), a.sampling_rate(), "the sampling rate of " + title)
                    if a.channels().size <= 400:
                        state["next"] = a, b, v_, path + [name], max(magnitude, magnitude_of(a)), hop_
                ck.outcome("moved")
            ck.run({"part": "moving", "shard": list(shard), "path": path + [name]}, execute)
            ck.transition()
            ck.state(("moving", shard, tuple(path), name))
            if state and len(path) + 1 < depth:
                explore(*state["next"])

    x = c24.base(kind, shape, "ordinary")
    hop = 1
    if kind == "spectrogram":       # the distance is in blocks
        explore(x, rebuilt(x, offset=distance), 1, [], magnitude_of(x), 1)
    else:
        explore(x, rebuilt(x, offset=distance), 1, [], magnitude_of(x), hop)


def scaling(ck, shard, only=None):
    kind, shape, factor, slot = shard
    depth = 3 if slot is not None else 2
    environment, scaled = c24.environment(), c24.environment(rate=factor)

    def explore(x, y, path, magnitude):
        for name, (_, function) in c24.selected(c24.operations_for(x), slot if not path else None):
            if only is not None and len(path) < len(only) and name != only[len(path)]:
                continue
            state = {}

            def execute():
                title = " -> ".join(path + [name])
                results = c24.attempt(function, x, environment), c24.attempt(function, y, scaled)
                if both_refused(results, title):
                    return
                a, b = results
                unit = 1.0 / factor if name == "reverberation time" else 1.0
                same_values(values(a) * unit, values(b), magnitude * unit, f"{title} for a sampling rate, that is {factor} times as large,")
                if not isinstance(a, c24.Rows):
                    for getter, unit in (("sampling_rate", factor), ("resolution", factor), ("offset", 1), ("maximum_frequency", factor), ("duration", 1.0 / factor)):
                        if hasattr(a, getter) and (getter != "duration" or a.sampling_rate() > 0.0):
                            m, n = getattr(a, getter)() * unit, getattr(b, getter)()
                            expect(ref.same_number(n, m, rtol=1e-12, atol=0.0), "the {} of {} is {!r} rather than {!r}", getter, title, n, m)
                    expect(tuple(a.labels()) == tuple(b.labels()), "the labels of {} depend on the sampling rate", title)
                    if a.channels().size <= 400:
                        state["next"] = a, b, path + [name], max(magnitude, magnitude_of(a))
                ck.outcome("scaled")
            ck.run({"part": "scaling", "shard": list(shard), "path": path + [name]}, execute)
            ck.transition()
            ck.state(("scaling", shard, tuple(path), name))
            if state and len(path) + 1 < depth:
                explore(*state["next"])

    x = c24.base(kind, shape, "ordinary")
    explore(x, rebuilt(x, rate=factor), [], magnitude_of(x))


# the inverse of a signal


def transformation(samples):
    """The discrete Fourier transform, computed as the defining sum."""
    n = len(samples)
    return [sum(samples[k] * cmath.exp(-2j * cmath.pi * ((k * i) % n) / n) for k in range(n)) for i in range(n)]


def check_inverse(samples, offset, labels):
    import sumpf
    s = sumpf.Signal(channels=samples, sampling_rate=44100.0, offset=offset, labels=labels)
    with numpy.errstate(all="ignore"):
        inverse = ~s
        restored = ~inverse
    expect_equal(inverse.shape(), s.shape(), "shape of the inverse")
    expect_equal(inverse.offset(), -offset, "offset of the inverse")
    expect_equal(inverse.sampling_rate(), 44100.0, "sampling rate of the inverse")
    expect_equal(tuple(inverse.labels()), tuple(s.labels()), "labels of the inverse")
    length = s.length()
    for c, channel in enumerate(s.channels()):
        spectrum = numpy.abs(transformation(channel))
        if length == 0 or not numpy.isfinite(spectrum).all() or spectrum.min() < 1e-6 * spectrum.max() or spectrum.max() == 0.0:
            continue
        tolerance = 1e-9 * spectrum.max() / spectrum.min()
        i = inverse.channels()[c]
        product = [sum(channel[k] * i[(n - k) % length] for k in range(length)) for n in range(length)]
        impulse = numpy.zeros(length)
        impulse[0] = 1.0
        expect_array(product, impulse, f"circular convolution of channel {c} of {s!r} and its inverse", atol=tolerance)
        expect_array(restored.channels()[c], channel, f"inverse of the inverse of channel {c} of {s!r}", atol=tolerance * float(numpy.abs(channel).max()))
        if length % 2 == 0:
            convolved = s[c].convolve(inverse[c], mode=sumpf.Signal.convolution_modes.SPECTRUM)
            expect_array(convolved.channels()[0], impulse, f"convolution of channel {c} of {s!r} with its inverse", atol=tolerance)
            expect_equal(convolved.offset(), 0, "offset of the unit impulse")


def inverses(ck, shard, only=None):
    kind, length = shard
    if kind == "exhaustive":
        pool = (-1.0, 0.0, 1.0) if length > 5 or not ck.thorough else (-2.0, -1.0, 0.0, 1.0, 2.0)
        for samples in itertools.product(pool, repeat=length):
            if only is not None and list(samples) != only["samples"]:
                continue
            ck.run({"part": "inverses", "shard": list(shard), "samples": list(samples)}, lambda: check_inverse(numpy.array([samples]), 3, ("x",)))
            ck.state(("inverse", samples))
            ck.transition()
        return
    for channels, offset in itertools.product((0, 1, 2, 3), (-5, -1, 0, 1, 2, length, 100001)):
        for special in (None, "zero", "singular", "nan"):
            samples = ref.symbolic(channels, length) if length else numpy.empty((channels, 0))
            if special and (channels < 2 or length == 0):
                continue
            if special == "zero":
                samples[1] = 0.0
            elif special == "nan":
                samples[1, 0] = numpy.nan
            elif special == "singular":
                samples[1] = 1.0
            ck.run({"part": "inverses", "shard": list(shard), "channels": channels, "offset": offset, "special": special}, lambda: check_inverse(samples, offset, ("x", "y", "z")[0:channels]))
            ck.state(("inverse", length, channels, offset, special))
            ck.transition()


# round trips


def pairs(value):
    """Returns {name: (operation, inverse)}. The inverse takes the result of the operation and the original data set, from which it may only use the parameters of the axes."""
    import sumpf
    r = {}
    for number in (2.5, -3):
        r[f"+ {number}"] = lambda d, n=number: d + n, lambda y, x, n=number: y - n
        r[f"{number} -"] = lambda d, n=number: n - d, lambda y, x, n=number: n - y
        r[f"* {number}"] = lambda d, n=number: d * n, lambda y, x, n=number: y / n
        r[f"/ {number}"] = lambda d, n=number: d / n, lambda y, x, n=number: n * y
    r["neg"] = lambda d: -d, lambda y, x: -y
    r["merge"] = lambda d: sumpf.Merge([d[c] for c in range(len(d))]).output(), lambda y, x: y
    r["merge first"] = lambda d: sumpf.Merge([d[0], d[1:], d]).output(), lambda y, x: y[0:len(x)]
    r["merge channels"] = lambda d: sumpf.Merge([d, d], mode=sumpf.Merge.modes.FIRST_CHANNELS_FIRST).output(), lambda y, x: y[0::2]
    r["reversed channels"] = lambda d: d[::-1], lambda y, x: y[::-1]
    r["representation"] = lambda d: eval(repr(d), {"array": numpy.array, "Signal": sumpf.Signal, "Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram, "nan": numpy.nan, "inf": numpy.inf}), lambda y, x: y     # pylint: disable=eval-used
    if isinstance(value, (sumpf.Signal, sumpf.Spectrogram)):
        for k in (3, -2):
            r[f"shift {k}"] = lambda d, k=k: d.shift(k), lambda y, x, k=k: y.shift(-k)
        r["shift None"] = lambda d: d.shift(None), lambda y, x: y.shift(x.offset())
        M = type(value).shift_modes if hasattr(type(value), "shift_modes") else sumpf.Signal.shift_modes
        for k in (1, -1):
            r[f"cycle {k}"] = lambda d, k=k: d.shift(k, mode=M.CYCLE), lambda y, x, k=k: y.shift(-k, mode=M.CYCLE)
    if isinstance(value, sumpf.Signal):
        other = lambda x: sumpf.Signal(channels=ref.symbolic(len(x), x.length(), 4) + 60.0, sampling_rate=x.sampling_rate(), offset=x.offset(), labels=x.labels())
        r["reversed"] = lambda d: reversed(d), lambda y, x: reversed(y)
        r["pad"] = lambda d: d.pad(d.length() + 3, value=1.5), lambda y, x: y[:, 0:x.length()]
        r["pad start"] = lambda d: d.shift(2, mode=M.PAD), lambda y, x: y[:, 2:].shift(x.offset() - y[:, 2:].offset())
        r["split"] = lambda d: sumpf.Concatenate([d[:, 0:1], d[:, 1:].shift(None)]).output(), lambda y, x: relabeled(y, x)
        r["slices"] = lambda d: sumpf.Concatenate([(d[:, i].shift(None) if i else d[:, 0]) for i in range(d.length())]).output(), lambda y, x: relabeled(y, x)
        r["impulse"] = lambda d: d.convolve([1.0]), lambda y, x: y
        r["delay"] = lambda d: d.convolve([0.0, 0.0, 2.0], mode=sumpf.Signal.convolution_modes.FULL), lambda y, x: (y[:, 2:] * 0.5).shift(-2)
    else:
        if isinstance(value, sumpf.Spectrum):
            other = lambda x: sumpf.Spectrum(channels=ref.symbolic_complex(len(x), x.length(), 4) + 60.0, resolution=x.resolution(), labels=x.labels())
            r["pad"] = lambda d: d.pad(d.length() + 3, value=1.5), lambda y, x: y[:, 0:x.length()]
            r["invert"] = lambda d: 1.0 / d, lambda y, x: ~y
        else:
            other = lambda x: sumpf.Spectrogram(channels=numpy.array([ref.symbolic_complex(x.shape()[1], x.shape()[2], k) + 60.0 for k in range(len(x))]), resolution=x.resolution(), sampling_rate=x.sampling_rate(), offset=x.offset(),
                                                labels=x.labels())
            r["pad"] = lambda d: d.pad(d.length() + 3, value=1.5), lambda y, x: y[:, :, 0:x.length()]
            r["split"] = lambda d: sumpf.Concatenate([d[:, :, 0:1], d[:, :, 1:].shift(None)]).output(), lambda y, x: relabeled(y, x)
        r["conjugate"] = lambda d: d.conjugate(), lambda y, x: y.conjugate()
        r["* 2j"] = lambda d: d * 2j, lambda y, x: y / 2j
    r["+ other"] = lambda d: d + other(d), lambda y, x: relabeled(y - other(x), x)
    r["other -"] = lambda d: other(d) - d, lambda y, x: relabeled(other(x) - y, x)
    r["* other"] = lambda d: d * other(d), lambda y, x: relabeled(y / other(x), x)
    r["/ other"] = lambda d: d / other(d), lambda y, x: relabeled(other(x) * y, x)
    return r


def relabeled(y, x):
    """The labels of results are those of other operands or generated."""
    import sumpf
    if isinstance(y, sumpf.Signal):
        return sumpf.Signal(channels=y.channels(), sampling_rate=y.sampling_rate(), offset=y.offset(), labels=x.labels())
    if isinstance(y, sumpf.Spectrum):
        return sumpf.Spectrum(channels=y.channels(), resolution=y.resolution(), labels=x.labels())
    return sumpf.Spectrogram(channels=y.channels(), resolution=y.resolution(), sampling_rate=y.sampling_rate(), offset=y.offset(), labels=x.labels())


def same(y, x, title):
    expect(type(y).__mro__[-3:] == type(x).__mro__[-3:], "{} is a {} rather than a {}", title, type(y), type(x))
    expect_equal(y.shape(), x.shape(), "the shape of " + title)
    same_values(x.channels(), y.channels(), 100.0, title)
    for getter in ("sampling_rate", "resolution"):
        if hasattr(x, getter):
            expect_equal(getattr(y, getter)(), getattr(x, getter)(), f"the {getter} of {title}")
    if hasattr(x, "offset"):
        expect_equal(y.offset(), x.offset(), f"the offset of {title}")
    expect_equal(tuple(y.labels()), tuple(x.labels()), f"the labels of {title}")


def round_trips(ck, shard, only=None):
    import sumpf
    kind, shape, slot = shard
    environment = c24.environment()
    depth = 2 if slot is not None else 1

    def check(x, path):
        if x.channels().size == 0 or not numpy.isfinite(x.channels()).all() or magnitude_of(x) > 1e4 or x.channels().size > 100:
            return
        if numpy.abs(x.channels()).min() < 1e-3:
            x = x + 0.25
            if numpy.abs(x.channels()).min() < 1e-3:
                return
        ps = pairs(x)
        intermediate = {}
        for name, (f, g) in ps.items():
            def single():
                with numpy.errstate(all="ignore"):
                    y = f(x)
                    same(g(y, x), x, " -> ".join(path + [name, "inverse"]))
                intermediate[name] = y
            ck.run({"part": "round trips", "shard": list(shard), "path": path, "pairs": [name]}, single)
            ck.transition()
        for name, y in intermediate.items():
            for name2, (f2, g2) in pairs(y).items():
                def nested():
                    with numpy.errstate(all="ignore"):
                        if name2 in ("invert", "/ other") and numpy.abs(y.channels()).min() < 1e-2:
                            return
                        same(ps[name][1](g2(f2(y), y), x), x, " -> ".join(path + [name, name2, "inverses"]))
                    ck.outcome("restored")
                ck.run({"part": "round trips", "shard": list(shard), "path": path, "pairs": [name, name2]}, nested)
                ck.transition()
        ck.state(("round trips", shard, tuple(path)))

    def explore(x, path):
        check(x, path)
        if len(path) == depth:
            return
        for name, (_, function) in c24.selected(c24.operations_for(x), slot if not path else None):
            if only is not None and (len(path) >= len(only) or name != only[len(path)]):
                continue
            result = c24.attempt(function, x, environment)
            if isinstance(result, (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram)):
                explore(result, path + [name])

    explore(c24.base(kind, shape, "ordinary"), [])


PARTS = {"moving": moving, "scaling": scaling, "inverses": inverses, "round trips": round_trips}


def part(ck, shard):
    PARTS[shard[0]](ck, shard[1])


def explore(ck):
    shards = []
    for kind, shapes in (("signal", 4), ("spectrum", 3), ("spectrogram", 3)):
        for shape in range(shapes):
            slots = tuple(range(8)) if ck.thorough and shape == 0 else (None,)
            shards += [("round trips", (kind, shape, slot)) for slot in slots]
            shards += [("scaling", (kind, shape, 3.0, slot)) for slot in slots] + [("scaling", (kind, shape, 0.7, None))]
            if kind != "spectrum":
                shards += [("moving", (kind, shape, distance, slot)) for distance in (4, -4, -12, 1000000, 1, -1, 3, -7, 10, 11) for slot in (slots if distance in (-4, 3) else (None,))]
    shards += [("inverses", ("symbolic", length)) for length in range(14)]
    shards += [("inverses", ("exhaustive", length)) for length in range(1, 8 if ck.thorough else 6)]
    shards.sort(key=lambda s: (s[0] != "round trips", s[1][1] != 0))
    ck.sample({"inverse": [1, 1, 0]})
    ck.parallel(part, shards)


def replay(ck, case):
    PARTS[case["part"]](ck, tuple(case["shard"]), *([case["path"]] if "path" in case else []))
