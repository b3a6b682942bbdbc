"""C07: the Fourier transforms compute the defining sums on the time axis of the signal.

Exhaustive enumeration of signals (length, offset, channels) and of windows, overlaps and padding; the oracle is
the discrete-time Fourier sum, written out with Python's complex exponential function.
"""

import cmath
import math
import numpy
from mc import ref
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "signals of 1-2 channels x 0..9 samples x offset -4..4; inverse transforms of all spectrum lengths 0..7; block-wise: "
                   "lengths 0..9 x offsets x windows (integer lengths, lists, arrays, window signals with 1-2 channels) of 1..6 samples x "
                   "all integer overlaps, negative and float overlaps x pad on/off; histories transform-inverse-transform; signals and windows around the powers of two, up to 130 channels",
          "thorough": "as quick with lengths up to 17, window lengths up to 9, offsets -9..9"}
ASSUMPTIONS = ["unit impulses and symbolic samples stand for all sample values (the transforms are linear)"]
RATE = 48.0


def dft(x, offset, k, n):
    """the spectral line k*RATE/n of samples x, that start at the time offset"""
    return sum((v * cmath.exp(-2j * math.pi * k * (i + offset) / n) for i, v in enumerate(x)), 0j)


def spectrum_of(x, offset, n):
    """the spectral lines 0..n//2"""
    if n <= 16:
        return [dft(x, offset, k, n) for k in range(n // 2 + 1)]
    # the same sums with tabulated factors
    factors = numpy.exp(-2j * math.pi * numpy.arange(n) / n)
    times = (numpy.arange(len(x)) + offset) % n
    x = numpy.array(x, dtype=float)
    return [complex(numpy.dot(factors[(k * times) % n], x)) for k in range(n // 2 + 1)]


def inverse(line):
    """the real signal, whose one-sided spectrum is given"""
    n = max(1, (len(line) - 1) * 2)
    if n > 16:      # the same sums with tabulated factors
        factors = numpy.exp(2j * math.pi * numpy.arange(n) / n)
        weights = numpy.array([1.0] + [2.0] * (len(line) - 2) + [1.0])
        ks = numpy.arange(len(line))
        return [float(numpy.dot((numpy.array(line) * factors[(ks * i) % n]).real, weights)) / n for i in range(n)]
    result = []
    for i in range(n):
        v = line[0].real
        for k in range(1, len(line)):
            term = (line[k] * cmath.exp(2j * math.pi * k * i / n)).real
            v += term if 2 * k == n else 2 * term
        result.append(v / n)
    return result


def close(actual, expected, what):
    ref.expect_array(actual, expected, what, rtol=1e-7, atol=ref.scaled_atol(expected, rel=1e-9) + 1e-12)


def samples(channels, length, kind):
    if kind == "symbolic":
        return ref.symbolic(channels, length, 1)
    data = numpy.zeros((channels, length))
    for c in range(channels):
        if length:
            data[c, (kind + c) % length] = 1.0 + c
    return data


def run_full(ck, case):
    import sumpf
    channels, length, offset, kind = case["full"]
    data = samples(channels, length, kind)
    labels = ref.labels_for(channels)
    s = sumpf.Signal(channels=data.copy(), sampling_rate=RATE, offset=offset, labels=labels)
    x = s.fourier_transform()
    ck.transition()
    if length:
        expected = [spectrum_of(row, offset, length) for row in data]
        expect_equal(x.resolution(), RATE / length, "resolution")
    else:
        expected = [[0j]] * channels
        expect_equal(x.resolution(), RATE, "resolution")
    expect(isinstance(x, sumpf.Spectrum), "no spectrum, but {!r}", type(x))
    expect_equal(tuple(x.labels()), labels, "labels")
    close(x.channels(), expected, "spectrum")
    close(s.channels(), data, "the transformed signal after the transform")
    ck.state((ref.rounded(x.channels()), x.resolution()))
    if length and length % 2 == 0:
        y = x.inverse_fourier_transform()
        ck.transition(2)
        expect_equal((y.sampling_rate(), y.offset(), y.shape(), tuple(y.labels())), (RATE, 0, (channels, length), labels), "round trip")
        close(y.channels(), [[row[(i - offset) % length] for i in range(length)] for row in data], "round trip")
        # the energy is the same in both domains
        energy = numpy.array([math.sqrt(math.fsum(v * v for v in row) / length) for row in data])
        close(s.level(), energy, "level of the signal")
        close(x.level(), energy, "level of the spectrum")
        total = math.sqrt(math.fsum(v * v for v in data.flat) / data.size)
        close(s.level(single_value=True), total, "single value level of the signal")
        close(x.level(single_value=True), total, "single value level of the spectrum")
        z = y.fourier_transform()
        close(z.channels(), expected, "second transform")


def run_inverse(ck, case):
    import sumpf
    channels, length = case["inverse"]
    data = ref.symbolic_complex(channels, length, 2)
    labels = ref.labels_for(channels)
    x = sumpf.Spectrum(channels=data.copy(), resolution=0.75, labels=labels)
    y = x.inverse_fourier_transform()
    ck.transition()
    expect(isinstance(y, sumpf.Signal), "no signal, but {!r}", type(y))
    expect_equal((y.offset(), tuple(y.labels())), (0, labels), "offset and labels")
    if length == 0:
        expect_equal(y.shape(), (channels, 0), "shape")
        return
    n = max(1, (length - 1) * 2)
    expect_equal(y.sampling_rate(), 0.75 * n, "sampling rate")
    expected = [inverse(row) for row in data]
    close(y.channels(), expected, "inverse transform")
    close(x.channels(), data, "the spectrum after its transform")
    ck.state(ref.rounded(y.channels()))
    # level: spectrums, whose first and last line are real, have the level of their signal
    data = data.copy()
    data[:, 0] = data[:, 0].real
    data[:, -1] = data[:, -1].real
    x = sumpf.Spectrum(channels=data, resolution=0.75, labels=labels)
    y = numpy.array([inverse(row) for row in data])
    close(x.level(), [math.sqrt(math.fsum(v * v for v in row) / n) for row in y], "level")
    close(x.level(single_value=True), math.sqrt(math.fsum(v * v for v in y.flat) / y.size), "single value level")


def hann(n):
    return [0.5 - 0.5 * math.cos(2.0 * math.pi * i / n) for i in range(n)]


def build_window(window, overlap):
    """returns the parameter for the implementation and the rows of the reference"""
    import sumpf
    kind, n = window
    rows = ref.symbolic(2, n, 3)
    rows = numpy.abs(rows)
    if kind == "int":
        return n, [[1.0] * n if overlap == 0 else hann(n)]
    if kind == "list":
        return rows[0].tolist(), [rows[0].tolist()]
    if kind == "array":
        return rows[0].copy(), [rows[0].tolist()]
    if kind == "signal":
        return sumpf.Signal(channels=rows[0:1].copy(), sampling_rate=RATE), [rows[0].tolist()]
    if kind == "hann":
        return sumpf.HannWindow(length=n, sampling_rate=RATE, symmetric=False), [hann(n)]
    if kind == "hann48000":   # neither the sampling rate nor the position of a window matters
        return sumpf.HannWindow(length=n, symmetric=False).shift(3), [hann(n)]
    if kind == "array2":
        return rows.copy(), rows.tolist()
    return sumpf.Signal(channels=rows.copy(), sampling_rate=RATE if kind == "signal2" else 3.0 * RATE, offset=0 if kind == "signal2" else -1), rows.tolist()


def overlap_samples(overlap, n):
    if isinstance(overlap, float):
        overlap = int(round(overlap * n))
    return overlap + n if overlap < 0 else overlap


def run_blocks(ck, case):
    import sumpf
    channels, length, offset, window, overlap, pad = case["blocks"]
    n = window[1]
    step = n - overlap_samples(overlap, n)
    parameter, rows = build_window(window, overlap)
    data = ref.symbolic(channels, length, 1)
    s = sumpf.Signal(channels=data.copy(), sampling_rate=RATE, offset=offset, labels=ref.labels_for(channels))
    x = s.fourier_transform(window=parameter, overlap=overlap, pad=pad)
    ck.transition()
    expect_equal(x.resolution(), RATE / n, "resolution")
    count = max(channels, len(rows))
    expect_equal(tuple(x.labels()), (ref.labels_for(channels) + ("",) * count)[0:count], "labels")
    if pad:
        starts = [i for i in range(-n * step, length + 1, step) if -n < i < length]
    else:
        starts = [i for i in range(0, length + 1, step) if i + n <= length]
    expected = []
    for c in range(count):
        row = data[c if channels > 1 else 0]
        w = rows[c if len(rows) > 1 else 0]
        # the weight of each sample by all blocks, that cover it, scaled so that this weight is 1 on average
        overlapped = [sum(w[i % step::step]) for i in range(n)]
        mean = sum(overlapped) / n
        weights = [0.0] * length
        for b in starts:
            for i in range(max(0, b), min(length, b + n)):
                weights[i] += w[i - b]
        weighted = [v * g / mean if mean else math.nan for v, g in zip(row, weights)]
        expected.append(spectrum_of(weighted, offset, n))
        if mean == 0.0:
            return
    close(x.channels(), expected, "block-wise transform")
    close(s.channels(), data, "the transformed signal after the transform")
    if isinstance(parameter, numpy.ndarray):
        close(parameter, rows[0] if parameter.ndim == 1 else rows, "the window after the transform")
    elif not isinstance(parameter, (int, list)):
        close(parameter.channels(), rows, "the window after the transform")
    ck.state((ref.rounded(x.channels()),))


def run(ck, case):
    if "full" in case:
        ck.run(case, lambda: run_full(ck, case))
    elif "inverse" in case:
        ck.run(case, lambda: run_inverse(ck, case))
    else:
        ck.run(case, lambda: run_blocks(ck, case))


def large(ck, size):
    """long signals, long windows, many channels and large offsets"""
    if size == "channels":
        for c in ref.MANY_CHANNELS:
            for n in (3, 4, 8, 9):
                run(ck, {"full": [c, n, 2, "symbolic"]})
                run(ck, {"inverse": [c, n]})
                for window in (["hann", 4], ["signal", 3]):
                    run(ck, {"blocks": [c, n, 1, window, 2, True]})
        return
    if size == "offsets":
        for offset in (17, 100, -101, 4096, 65537, -100000, 10 ** 6):
            for n in (1, 2, 5, 8, 30, 64):
                run(ck, {"full": [2, n, offset, "symbolic"]})
                for window in (["hann", 4], ["list", 6]):
                    run(ck, {"blocks": [2, n, offset, window, 0.5, True]})
        return
    for channels, offset in (((1, 0), (2, 3), (1, -size // 2)) if size < 1500 else ((1, 5),)):
        run(ck, {"full": [channels, size, offset, "symbolic"]})
    if size < 2500:
        run(ck, {"inverse": [1, size // 2 + 1]})
        run(ck, {"inverse": [2, size]})
    if size < 600:
        for window in (["hann", size], ["list", size], ["signal2", size]):
            for overlap in (0, 1, 0.5, 0.75, -1, size // 3):
                if overlap == -1 and size > 70:
                    continue
                for length in (size // 2, size - 1, size, size + 1, 2 * size + 7, 1000):
                    for pad in (True, False):
                        run(ck, {"blocks": [2, length, 7, window, overlap, pad]})
    for window in (["int", 5], ["hann", 16]):
        for overlap in (0, 1, 0.5):
            if size < 9000:
                run(ck, {"blocks": [1, size, -3, window, overlap, True]})


def job(ck, spec):
    kind, n = spec
    if kind == "large":
        large(ck, n)
        return
    offsets = range(-9, 10) if ck.thorough else range(-4, 5)
    if kind == "full":
        for channels in (1, 2):
            for offset in offsets:
                for samples_kind in ("symbolic", *range(n)):
                    run(ck, {"full": [channels, n, offset, samples_kind]})
    elif kind == "inverse":
        for channels in (1, 2, 3):
            run(ck, {"inverse": [channels, n]})
    else:
        # n is the window length
        windows = [(k, n) for k in ("int", "list", "array", "signal", "hann", "hann48000", "array2", "signal2", "signal2 with other rate")]
        overlaps = [*range(n), *range(-n + 1, 0), 0.0, 0.5, 0.25, 0.75, -0.5]
        for window in windows:
            for overlap in overlaps:
                if overlap_samples(overlap, n) >= n:
                    continue
                for length in range(0, 18 if ck.thorough else 10):
                    for offset in ((-4, -1, 0, 3, 8) if ck.thorough else (-1, 0, 3)):
                        for channels in (1, 2):
                            for pad in (True, False):
                                run(ck, {"blocks": [channels, length, offset, window, overlap, pad]})
    ck.sample({"kind": kind, "n": n})


def explore(ck):
    top = 18 if ck.thorough else 10
    jobs = [("large", n) for n in (*reversed(ref.SIZES[::1 if ck.thorough else 2]), 33, 20, "channels", "offsets")]
    jobs += [("blocks", n) for n in range(9 if ck.thorough else 6, 0, -1)]
    jobs += [("full", n) for n in range(top)] + [("inverse", n) for n in range(top)]
    ck.parallel(job, jobs)


def replay(ck, case):
    run(ck, case)
