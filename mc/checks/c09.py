"""C09: levels, statistics and energy decay are the quantities, that their definitions describe.

Exhaustive enumeration of signal shapes, integration times (integer and fractional numbers of samples) and segments; the
oracle evaluates the definitions sample by sample with Python's floats.
"""

import math
import numpy
from mc import ref
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "signals of 1-3 channels x 1..9 samples x offsets -2,0,3 (unit impulses at all positions, constant, symbolic); integration "
                   "times from 0 to 3 times the length in steps of an eighth of a sample; pad on/off; all integer and some float segments; signals around the powers of two, up to 130 channels, ill-conditioned samples (large mean, high dynamic range, huge, tiny)",
          "thorough": "signals of up to 16 samples, integration times in steps of a sixteenth of a sample"}
ASSUMPTIONS = ["the level of an empty signal is not specified"]
RATE = 8.0


def samples(channels, length, kind):
    if kind == "symbolic":
        return ref.symbolic(channels, length, 2)
    if kind == "constant":
        return numpy.full((channels, length), -3.0)
    if kind == "biased":        # a large mean value
        return 1e6 + ref.symbolic(channels, length, 2)
    if kind == "decaying":      # a high dynamic range
        return numpy.array([(c + 1.0) * (-1.0) ** i * 10.0 ** (-7.0 * i / max(1, length - 1)) for c in range(channels) for i in range(length)]).reshape(channels, length)
    if kind in ("huge", "tiny"):
        return ref.symbolic(channels, length, 2) * {"huge": 1e70, "tiny": 1e-70}[kind]
    data = numpy.zeros((channels, length))
    for c in range(channels):
        data[c, (kind + c) % length] = 2.0 + c
    return data


def build(case):
    import sumpf
    channels, length, offset, kind = case
    data = samples(channels, length, kind)
    labels = ref.labels_for(channels)
    return sumpf.Signal(channels=data.copy(), sampling_rate=RATE, offset=offset, labels=labels), data, labels


def close(actual, expected, what):
    ref.expect_array(actual, expected, what, rtol=1e-7, atol=ref.scaled_atol(expected, rel=1e-9) + 1e-11)


ILL_CONDITIONED = ("biased", "decaying", "huge", "tiny")


def close_relative(actual, expected, what):
    """Every value has to be precise in relation to itself, even if others are much larger"""
    actual, expected = numpy.asarray(actual, dtype=numpy.float64), numpy.asarray(expected, dtype=numpy.float64)
    expect_equal(actual.shape, expected.shape, what + ": shape")
    expect(numpy.array_equal(actual == 0.0, expected == 0.0) and (numpy.abs(actual - expected) <= 1e-6 * numpy.abs(expected)).all(), "{}: got {!r} rather than {!r}", what, actual, expected)


def overlap(a0, a1, b0, b1):
    return max(0.0, min(a1, b1) - max(a0, b0))


def level_vs_time(row, width, pad):
    if width <= 1.0:
        return [abs(v) for v in row]
    result = []
    if len(row) > 20:
        square = numpy.square(row)
        j = numpy.arange(len(row))
        for i in range(len(row)):
            a, b = i - width / 2.0, i + width / 2.0
            covered = numpy.clip(numpy.minimum(b, j + 0.5) - numpy.maximum(a, j - 0.5), 0.0, None)
            span = width if pad else overlap(a, b, -0.5, len(row) - 0.5)
            result.append(math.sqrt(math.fsum(square * covered) / span))
        return result
    for i in range(len(row)):
        a, b = i - width / 2.0, i + width / 2.0
        energy = math.fsum(v * v * overlap(a, b, j - 0.5, j + 0.5) for j, v in enumerate(row))
        span = width if pad else overlap(a, b, -0.5, len(row) - 0.5)
        result.append(math.sqrt(energy / span))
    return result


def run_level_vs_time(ck, case):
    import sumpf
    spec, width, pad = case["level_vs_time"]
    s, data, labels = build(spec)
    y = s.level_vs_time(integration_time=width / RATE, pad=pad)
    ck.transition()
    expect(isinstance(y, sumpf.Signal), "no signal, but {!r}", type(y))
    expect_equal((y.shape(), y.offset(), y.sampling_rate(), tuple(y.labels())), (data.shape, spec[2], RATE, labels), "metadata")
    expected = [level_vs_time(row, width, pad) for row in data]
    # the square root amplifies rounding errors of small levels
    ref.expect_array(y.channels(), expected, "level", rtol=1e-6, atol=1e-7)
    close(s.channels(), data, "the signal after the computation")
    ck.state((ref.rounded(numpy.round(expected, 9)), pad))


def moments(values):
    n = len(values)
    mean = math.fsum(values) / n
    central = [v - mean for v in values]
    m2 = math.fsum(v ** 2 for v in central) / n
    m3 = math.fsum(v ** 3 for v in central) / n
    m4 = math.fsum(v ** 4 for v in central) / n
    rms = math.sqrt(math.fsum(v * v for v in values) / n)
    return {"mean": mean, "standard_deviation": math.sqrt(m2), "variance": m2, "level": rms,
            "skewness": m3 / m2 ** 1.5 if m2 > 1e-12 else None, "kurtosis": m4 / m2 ** 2 - 3.0 if m2 > 1e-12 else None}


def run_statistics(ck, case):
    s, data, _ = build(case["statistics"])
    rows = [moments(list(row)) for row in data]
    total = moments([float(v) for v in data.flat])
    ill_conditioned = case["statistics"][3] in ILL_CONDITIONED
    for name in total:
        if ill_conditioned and name in ("skewness", "kurtosis") and case["statistics"][3] != "biased":
            continue
        # the third and fourth moments are less precise in relation to their small values
        close = globals()["close"] if not ill_conditioned or name in ("skewness", "kurtosis") else close_relative
        method = getattr(s, name)
        ck.transition(2)
        if total[name] is not None:
            close(method(single_value=True), total[name], f"{name} of the whole signal")
        actual = method()
        expect_equal(numpy.shape(actual), (len(data),), f"shape of {name}")
        for a, r in zip(actual, rows):
            if r[name] is not None:
                close(a, r[name], f"{name} of a channel")
    ref.expect_array(s.channels(), data, "the signal after the computation")
    ck.state((ref.rounded([[r[k] or 0.0 for k in r] for r in rows]),))


def fit(values, start):
    """least squares fit of y = m*i + n"""
    x = [start + k for k in range(len(values))]
    mx, my = sum(x) / len(x), math.fsum(values) / len(x)
    m = math.fsum((a - mx) * (b - my) for a, b in zip(x, values)) / math.fsum((a - mx) ** 2 for a in x)
    return m, my - m * mx


def run_decay(ck, case):
    import sumpf
    spec = case["decay"]
    s, data, labels = build(spec)
    curve = sumpf.EnergyDecayCurve(s)
    ck.transition()
    n = spec[1]
    expected = [[math.fsum(v * v for v in row[i:]) for i in range(n)] for row in data]
    expect_equal((curve.shape(), curve.offset(), curve.sampling_rate(), tuple(curve.labels())), (data.shape, spec[2], RATE, labels),
                 "metadata")
    (close_relative if spec[3] in ILL_CONDITIONED else close)(curve.channels(), expected, "energy decay curve")
    ref.expect_array(s.channels(), data, "the impulse response after the computation")
    ck.state(ref.rounded(expected))
    if spec[3] in ILL_CONDITIONED:
        return
    floats = [0.0, 0.25, 0.5, 0.75, 1.0, -0.5, -0.25]
    for start in [*range(-n, n), *floats]:
        for stop in [*range(-n, n + 1), *floats]:
            a, b = [index(v, n) for v in (start, stop)]
            if b - a < 2 or any(v <= 0.0 for row in expected for v in row[a:b]):
                continue
            fits = [fit([10.0 * math.log10(v) for v in row[a:b]], a) for row in expected]
            model = curve.decay_model(start=start, stop=stop)
            ck.transition(2)
            close(model.channels(), [[10.0 ** ((m * i + k) / 10.0) for i in range(n)] for m, k in fits], f"decay model {start}:{stop}")
            expect_equal((model.offset(), model.sampling_rate(), tuple(model.labels())), (spec[2], RATE, labels), "metadata of the model")
            if all(abs(m) > 1e-6 for m, _ in fits):
                close(numpy.array(curve.reverberation_time(start=start, stop=stop)), [-60.0 / m / RATE for m, _ in fits],
                      f"reverberation time {start}:{stop}")


def index(v, n):
    if isinstance(v, float):
        v = int(round(v * n))
    return v + n if v < 0 else v


def run(ck, case):
    if "level_vs_time" in case:
        ck.run(case, lambda: run_level_vs_time(ck, case))
    elif "statistics" in case:
        ck.run(case, lambda: run_statistics(ck, case))
    else:
        ck.run(case, lambda: run_decay(ck, case))


def large(ck, length):
    """long signals and many channels"""
    if length == "channels":
        for c in ref.MANY_CHANNELS:
            for kind in ("symbolic", 1):
                spec = [c, 5, 1, kind]
                run(ck, {"statistics": spec})
                run(ck, {"decay": spec})
                for width in (0.5, 2.0, 3.5, 20.0):
                    run(ck, {"level_vs_time": [spec, width, True]})
                    run(ck, {"level_vs_time": [spec, width, False]})
        return
    for channels in (1, 2):
        for kind in ILL_CONDITIONED:
            run(ck, {"statistics": [channels, length, 5, kind]})
            run(ck, {"decay": [channels, length, 5, kind]})
    for channels, kind in ((1, "symbolic"), (2, length // 2), (3, "constant")):
        run(ck, {"statistics": [channels, length, 5, kind]})
    for width in sorted({0.5, 1.5, 2.0, 3.0, 10.0, 64.0, 65.0, 100.25, 128.0, length / 4, length / 2 - 1, length / 2, length / 2 + 0.5, length - 1.5, length - 1.0, length - 0.75, length, length + 0.5,
                         length + 1.0, length * 1.5, 2.0 * length - 2, 2.0 * length - 1, 2.0 * length, 3.0 * length}):
        if length > 600 and round(width * 4) % 3:
            continue
        for pad in (True, False):
            run(ck, {"level_vs_time": [[1, length, 5, "symbolic"], width, pad]})


def job(ck, length):
    if isinstance(length, tuple):
        large(ck, length[1])
        return
    step = 16 if ck.thorough else 8
    case = None
    for channels in (1, 2, 3):
        for kind in ("symbolic", "constant", *range(length)):
            for offset in (-2, 0, 3):
                spec = [channels, length, offset, kind]
                run(ck, {"statistics": spec})
                run(ck, {"decay": spec})
                if channels < 3 and (offset == 3 or kind == "symbolic"):
                    for width in range(0, 3 * length * step + 1):
                        for pad in (True, False):
                            case = {"level_vs_time": [spec, width / step, pad]}
                            run(ck, case)
    ck.sample(case)


def explore(ck):
    ck.parallel(job, [("large", n) for n in (*reversed(ref.SIZES[:15]), 20, 33, "channels")] + list(range(17 if ck.thorough else 9, 0, -1)))


def replay(ck, case):
    run(ck, case)
