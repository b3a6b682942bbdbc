"""C08: short time Fourier transform and its inverse.

The oracle is the defining sum for every segment, written out with Python's complex exponential function, and the
least squares overlap-add for the way back.
"""

import cmath
import math
import numpy
from mc import ref
from mc.checks import c07
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "signals of 1-2 channels x (window length .. 12) samples x 7 offsets; windows of 2..6 samples (integer lengths, lists, "
                   "arrays, signals with 1-2 channels) x all integer and some float overlaps x pad on/off; histories "
                   "transform-inverse-(modify)-transform; inverse transforms of symbolic spectrograms; long signals, long windows and up to 130 channels",
          "thorough": "windows of up to 8 samples, signals of up to 20 samples, 15 offsets"}
ASSUMPTIONS = ["signals, that are shorter than the window are refused by SciPy and not specified"]
RATE = 48.0


def segments(row, w, step, pad):
    """the windowed segments, that are covered by the transform"""
    n = len(w)
    row = list(row)
    if pad:
        row = [0.0] * (n // 2) + row + [0.0] * (n // 2)
        while (len(row) - n) % step:
            row.append(0.0)
    return [[v * g for v, g in zip(row[i:i + n], w)] for i in range(0, len(row) - n + 1, step)]


def reference(row, w, step, pad, remainder):
    n = len(w)
    result = []
    for k in range(n // 2 + 1):
        delay = cmath.exp(-2j * math.pi * k * remainder / n)
        if n > 16:
            factors = numpy.exp(-2j * math.pi * ((k * numpy.arange(n)) % n) / n)
            result.append([complex(numpy.dot(factors, s)) / sum(w) * delay for s in segments(row, w, step, pad)])
            continue
        result.append([sum((v * cmath.exp(-2j * math.pi * k * i / n) for i, v in enumerate(s)), 0j) / sum(w) * delay
                       for s in segments(row, w, step, pad)])
    return result


def irfft(line, n):
    if n > 16:
        ks = numpy.arange(len(line))
        weights = numpy.where((ks == 0) | (2 * ks == n), 1.0, 2.0)
        values = numpy.array(line) * weights
        return [float(numpy.dot(values, numpy.exp(2j * math.pi * ((ks * i) % n) / n)).real) / n for i in range(n)]
    result = []
    for i in range(n):
        v = line[0].real
        for k in range(1, len(line)):
            term = (line[k] * cmath.exp(2j * math.pi * k * i / n)).real
            v += term if 2 * k == n else 2 * term
        result.append(v / n)
    return result


def inverse(grid, w, step, pad):
    """grid: list of spectral lines over time (frequencies x segments); None, where no window covers a sample"""
    n = len(w)
    count = len(grid[0])
    length = n + (count - 1) * step
    samples, norm = [0.0] * length, [0.0] * length
    for t in range(count):
        block = irfft([line[t] for line in grid], n)
        for i in range(n):
            samples[t * step + i] += block[i] * w[i] * sum(w)
            norm[t * step + i] += w[i] ** 2
    result = [v / g if g > 1e-9 else None for v, g in zip(samples, norm)]
    return result[n // 2:length - n // 2] if pad else result


def invertible(w, step):
    """no sample of the signal is lost"""
    n = len(w)
    return all(sum(w[(i % step) + k] ** 2 for k in range(0, n - (i % step), step)) > 1e-9 for i in range(n))


def run(ck, case):
    import sumpf
    channels, length, offset, window, overlap, pad = case["stft"]
    n = window[1]
    step = n - c07.overlap_samples(overlap, n)
    parameter, rows = c07.build_window(window, overlap)
    data = ref.symbolic(channels, length, 1)
    labels = ref.labels_for(channels)
    s = sumpf.Signal(channels=data.copy(), sampling_rate=RATE, offset=offset, labels=labels)
    x = s.short_time_fourier_transform(window=parameter, overlap=overlap, pad=pad)
    ck.transition()
    expect(isinstance(x, sumpf.Spectrogram), "no spectrogram, but {!r}", type(x))
    expect_equal((x.resolution(), x.sampling_rate(), tuple(x.labels())), (RATE / n, RATE / step, labels), "resolution, rate, labels")
    expect(isinstance(x.offset(), int) and abs(x.offset() * step - offset) * 2 <= step,
           "offset {} is not the nearest to {}/{}", x.offset(), offset, step)
    remainder = offset - x.offset() * step
    w_of = [rows[c if len(rows) > 1 else 0] for c in range(channels)]
    expected = [reference(row, w, step, pad, remainder) for row, w in zip(data, w_of)]
    c07.close(x.channels(), expected, "spectrogram")
    c07.close(s.channels(), data, "the transformed signal after the transform")
    ck.state((ref.rounded(x.channels()), x.offset()))
    if not all(invertible(w, step) for w in w_of):
        return
    y = x.inverse_short_time_fourier_transform(window=parameter, overlap=overlap, pad=pad)
    ck.transition()
    expect(isinstance(y, sumpf.Signal), "no signal, but {!r}", type(y))
    ref.expect_array(y.sampling_rate(), RATE, "sampling rate of the round trip")
    expect_equal((y.offset(), tuple(y.labels())), (x.offset() * step, labels), "offset and labels of the round trip")
    back = [inverse(grid, w, step, pad) for grid, w in zip(expected, w_of)]
    expect_equal(y.shape(), (channels, len(back[0])), "shape of the round trip")
    for actual, wanted in zip(y.channels(), back):
        known = [i for i, v in enumerate(wanted) if v is not None]
        c07.close(actual[known], [wanted[i] for i in known], "inverse transform")
    c07.close(x.channels(), expected, "the spectrogram after its transform")
    if remainder == 0 and pad:
        expect(y.length() >= length, "the round trip lost samples")
        c07.close(y.channels()[:, 0:length], data, "round trip")
        c07.close(y.channels()[:, length:], numpy.zeros((channels, y.length() - length)), "padding of the round trip")


def run_inverse(ck, case):
    import sumpf
    channels, count, offset, window, overlap, pad = case["istft"]
    n = window[1]
    step = n - c07.overlap_samples(overlap, n)
    parameter, rows = c07.build_window(window, overlap)
    w_of = [rows[c if len(rows) > 1 else 0] for c in range(channels)]
    if not all(invertible(w, step) for w in w_of):
        return
    data = ref.symbolic_complex(channels * (n // 2 + 1), count, 1).reshape(channels, n // 2 + 1, count)
    labels = ref.labels_for(channels)
    x = sumpf.Spectrogram(channels=data.copy(), resolution=RATE / n, sampling_rate=RATE / step, offset=offset, labels=labels)
    y = x.inverse_short_time_fourier_transform(window=parameter, overlap=overlap, pad=pad)
    ck.transition()
    ref.expect_array(y.sampling_rate(), RATE, "sampling rate")
    expect_equal((y.offset(), tuple(y.labels())), (offset * step, labels), "offset and labels")
    expected = [inverse(grid, w, step, pad) for grid, w in zip(data, w_of)]
    expect_equal(y.shape(), (channels, len(expected[0])), "shape")
    for actual, wanted in zip(y.channels(), expected):
        known = [i for i, v in enumerate(wanted) if v is not None]
        c07.close(actual[known], [wanted[i] for i in known], "inverse transform")
    ck.state(ref.rounded(y.channels()))


def large(ck, n):
    """long windows, long signals and many channels"""
    if n == "channels":
        for c in ref.MANY_CHANNELS:
            for window in (["hann", 4], ["list", 5]):
                ck.run({"stft": [c, 9, 3, window, 2, True]}, lambda: run(ck, {"stft": [c, 9, 3, window, 2, True]}))
                ck.run({"istft": [c, 4, 3, window, 2, True]}, lambda: run_inverse(ck, {"istft": [c, 4, 3, window, 2, True]}))
        return
    for window in (["hann", n], ["list", n], ["signal2", n], ["int", n]):
        for overlap in (0, 1, 0.5, 0.75, n // 3):
            for length in (n, n + 1, 2 * n - 1, 3 * n + 5, 300):
                for offset in (0, 5, n // 2, -n - 1, 100003):
                    if n > 50 and (length + offset) % 3:
                        continue
                    case = {"stft": [2, length, offset, window, overlap, length % 2 == 0]}
                    ck.run(case, lambda: run(ck, case))
            for offset, pad in ((0, True), (-2, True), (1, False)):
                case = {"istft": [2, 7, offset, window, overlap, pad]}
                ck.run(case, lambda: run_inverse(ck, case))


def job(ck, spec):
    kind, n = spec
    if kind == "large":
        large(ck, n)
        return
    windows = [(k, n) for k in ("int", "list", "array", "signal", "hann", "hann48000", "array2", "signal2", "signal2 with other rate")]
    overlaps = [*range(n), *range(-n + 1, 0), 0.0, 0.5, 0.75, -0.5]
    top = 21 if ck.thorough else 13
    offsets = range(-7, 8) if ck.thorough else (-5, -2, -1, 0, 1, 3, 6)
    case = None
    for window in windows:
        for overlap in overlaps:
            if c07.overlap_samples(overlap, n) >= n:
                continue
            for channels in ((2,) if "2" in window[0] and window[0] != "hann48000" else (1, 2)):
                for pad in (True, False):
                    if kind == "stft":
                        for length in range(n, top):
                            for offset in offsets if length % 3 == 0 else (0, 2):
                                case = {"stft": [channels, length, offset, window, overlap, pad]}
                                ck.run(case, lambda: run(ck, case))
                    else:
                        for count in range(1, 6):
                            for offset in (-2, 0, 3):
                                case = {"istft": [channels, count, offset, window, overlap, pad]}
                                ck.run(case, lambda: run_inverse(ck, case))
    ck.sample(case)


def explore(ck):
    top = 8 if ck.thorough else 6
    ck.parallel(job, [("large", n) for n in (64, 33, 17, 16, 10, "channels")] + [(k, n) for n in range(top, 1, -1) for k in ("stft", "istft")])


def replay(ck, case):
    ck.run(case, lambda: run(ck, case) if "stft" in case else run_inverse(ck, case))
