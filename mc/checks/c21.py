"""C21: sweeps and inverse sweeps have their defining samples and the impulse responses of harmonics are cut out at their exact position."""

import cmath
import itertools
import math
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect, expect_array, expect_equal

BOUNDS = {"quick": "four sweep classes, 4 pairs of frequencies (with decreasing ones), 3 phases, 12 intervals (integers, floats, negative ones, tuples, lists and arrays), 2 sampling rates, lengths of 1..8 (complete interval), 20, 101 and both sides of "
                   "the switch of the computing method (8192), pulses of the convolution of 24 sweeps with their inverse; harmonics 1..6 of impulse responses of 1-2 channels and 40 or 41 samples with offsets up to 4, for which the "
                   "harmonic starts inside of the (circular) signal, 5 sweep rates, lengths of 0..45 or none",
          "thorough": "8 pairs of frequencies, 5 phases, 16 more lengths, longer impulse responses, harmonics 1..9"}
ASSUMPTIONS = ["a harmonic, that starts more than one length before the impulse response, is not specified; parts, that would have to be wrapped around to the start of the impulse response, are cropped",
               "sweeps, whose start and stop index are the same, or that exceed the range of floating point numbers outside of the interval, are not specified"]

FREQUENCIES = ((20.0, 200.0), (1.0, 3.5), (100, 300), (200.0, 20.0), (0.25, 400.0), (50.0, 51.0), (40, 10), (3.0, 3000.0))
PHASES = (0.0, math.pi / 2.0, -1.25, 4.0, 1)
NAMES = ("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep")


def resolve(i, length):
    if isinstance(i, float):
        i = int(round(i * length))
    return i + length if i < 0 else i


def intervals(length):
    yield (0, 1.0)
    if length < 16:
        if length > 1:
            yield (0.0, length - 1)
            yield (1, length)
            yield (0, -1)
            if length > 2:
                yield (1, -1)
                yield (-2, -1)
        return
    yield [0.25, 0.75]
    yield (0, length)
    yield (3, length - 4)
    yield (-length, -4)
    yield (-0.75, -0.25)
    yield [0.0, -1]
    yield numpy.array([2, length - 1])
    yield (0, length + 7)
    yield (-0.75, 1.0)
    yield (length // 2, length // 2 + max(2, length // 32))
    yield (0.125, length)


class Definition:
    """The textbook definition of a sweep"""

    def __init__(self, name, f0, f1, phase, interval, sampling_rate, length):
        self.name, self.f0, self.f1, self.phase, self.fs, self.length = name, float(f0), float(f1), phase, sampling_rate, length
        self.start, self.stop = (resolve(i.item() if isinstance(i, numpy.generic) else i, length) for i in interval)
        self.T = (self.stop - self.start) / sampling_rate
        self.inverse = name.startswith("Inverse")
        self.linear = "Linear" in name

    def phase_at(self, t):
        """the phase of the sweep at a time after its start index"""
        if self.linear:
            return 2.0 * math.pi * (self.f0 * t + (self.f1 - self.f0) / self.T * t * t / 2.0)
        rate = math.log(self.f1 / self.f0)
        return 2.0 * math.pi * self.f0 * self.T / rate * math.expm1(rate * t / self.T)

    def frequency_after_start(self, t):
        if self.linear:
            return self.f0 + (self.f1 - self.f0) * t / self.T
        return self.f0 * (self.f1 / self.f0) ** (t / self.T)

    def frequency(self, t):
        """the instantaneous frequency at a time after the first sample"""
        t -= self.start / self.fs
        return self.frequency_after_start(self.T - t if self.inverse else t)

    def envelope(self, t):
        if not self.inverse:
            return 1.0
        if self.linear:
            return 2.0 / (self.stop - self.start)
        rate = math.log(self.f1 / self.f0)
        return 2.0 * self.f0 * rate / self.T / (self.f1 - self.f0) / self.fs * math.exp(rate * t / self.T)

    def samples(self, indices):
        """The expected samples and the tolerances for them."""
        values, tolerances = [], []
        for i in indices:
            t = (i - self.start) / self.fs
            if self.inverse:
                t = self.T - t
            phase = self.phase_at(t)
            values.append(self.envelope(t) * math.sin(phase + self.phase))
            # rounding the time by one part in 10^15 changes the phase by this
            error = 1e-13 * (abs(phase) + abs(self.frequency_after_start(t)) * 6.3 * (self.T + self.length / self.fs) + 10.0)
            tolerances.append(abs(self.envelope(t)) * min(error, 2.1) + 1e-300)
        return values, tolerances

    def offset(self):
        return -self.stop - self.start if self.inverse else 0


def check_sweep(sweep, definition):
    d = definition
    import sumpf
    expect(isinstance(sweep, sumpf.Signal), "the sweep is no signal: {!r}", type(sweep))
    expect_equal(sweep.shape(), (1, d.length), "shape")
    expect_equal(sweep.offset(), d.offset(), "offset")
    expect_equal(sweep.sampling_rate(), d.fs, "sampling rate")
    indices = range(d.length) if d.length < 1000 else sorted({*range(40), *range(d.length - 40, d.length), *range(0, d.length, 97), *range(max(0, d.start - 3), min(d.length, d.start + 3))})
    values, tolerances = d.samples(indices)
    actual = sweep.channels()[0]
    for i, v, t in zip(indices, values, tolerances):
        if not abs(actual[i] - v) <= t:
            raise Mismatch(f"sample {i} is {actual[i]!r} rather than {v!r} (tolerance {t})")
    ends = d.frequency(0.0), d.frequency(d.length / d.fs)
    expect(ref.same_number(sweep.minimum_frequency(), min(ends)), "minimum frequency is {!r} rather than {!r}", sweep.minimum_frequency(), min(ends))
    expect(ref.same_number(sweep.maximum_frequency(), max(ends)), "maximum frequency is {!r} rather than {!r}", sweep.maximum_frequency(), max(ends))
    expect_equal(tuple(sweep.labels()), ("Sweep",) if ends[0] <= ends[1] else ("Inverse sweep",), "labels")
    times = [0.0, d.start / d.fs, d.stop / d.fs, d.length / d.fs, 0.3 * d.length / d.fs, -1.0 / d.fs]
    expected = [d.frequency(t) for t in times]
    for t, f in zip(times, expected):
        expect(ref.same_number(sweep.instantaneous_frequency(t), f), "instantaneous frequency at {}s is {!r} rather than {!r}", t, sweep.instantaneous_frequency(t), f)
    for query in (times, tuple(times), numpy.array(times)):
        expect_array(sweep.instantaneous_frequency(query), expected, "instantaneous frequencies")
    borders = (d.stop, d.start) if d.inverse else (d.start, d.stop)
    for i, f in zip(borders, (d.f0, d.f1)):
        if not d.inverse or d.start == 0:
            expect(ref.same_number(sweep.instantaneous_frequency(i / d.fs), f), "frequency at the border of the interval is {!r} rather than {!r}", sweep.instantaneous_frequency(i / d.fs), f)


def sweeps(ck, shard):
    import sumpf
    name, (f0, f1) = shard
    lengths = list(range(1, 9)) + [20, 101, 8191, 8192, 8193, 9001]
    if ck.thorough:
        lengths += list(range(9, 20)) + [1000, 4096, 10000, 16384, 65536]
    for length in lengths:
        for interval in intervals(length):
            for phase in PHASES if ck.thorough else PHASES[0:3]:
                for fs in (48000.0, 1000):
                    case = {"part": "sweep", "name": name, "frequencies": [f0, f1], "length": length, "interval": [float(i) if isinstance(i, float) else int(i) for i in interval], "phase": phase, "fs": fs}

                    def execute():
                        definition = Definition(name, f0, f1, phase, interval, fs, length)
                        sweep = getattr(sumpf, name)(start_frequency=f0, stop_frequency=f1, phase=phase, interval=interval, sampling_rate=fs, length=length)
                        check_sweep(sweep, definition)
                        if repr(interval) == "(0, 1.0)":
                            check_sweep(getattr(sumpf, name)(f0, f1, phase, sampling_rate=fs, length=length), definition)
                    ck.run(case, execute)
                    ck.transition(length)
                    ck.state((name, f0, f1, length, repr(interval), phase, fs))
    if ck.thorough or shard[1] == FREQUENCIES[0]:
        def defaults():
            check_sweep(getattr(sumpf, name)(), Definition(name, 20.0, 20000.0, 0.0, (0, 1.0), 48000.0, 2 ** 16))
        ck.run({"part": "sweep", "name": name, "frequencies": [f0, f1], "defaults": True}, defaults)
        ck.transition()


def pulses(ck):
    """The convolution of a sweep with its inverse is an impulse at time 0, whose spectrum is constant between the frequencies of the sweep."""
    import sumpf
    mode = sumpf.Signal.convolution_modes
    for kind, length, fs, phase, interval in itertools.product(("Linear", "Exponential"), (4000, 4001, 9000), (48000.0, 8000), (0.0, 1.0), ((0, 1.0), (0.1, 0.9), (100, -20))):
        def execute():
            f0, f1 = fs * 0.02, fs * 0.3
            parameters = dict(start_frequency=f0, stop_frequency=f1, phase=phase, interval=interval, sampling_rate=fs, length=length)
            sweep = getattr(sumpf, f"{kind}Sweep")(**parameters)
            inverse = getattr(sumpf, f"Inverse{kind}Sweep")(**parameters)
            for name, pulse in (("full", sweep.convolve(inverse, mode=mode.FULL)), ("padded", inverse.convolve(sweep, mode=mode.SPECTRUM_PADDED))):
                samples = pulse.channels()[0]
                peak = int(numpy.argmax(numpy.abs(samples)))
                expect_equal(peak + pulse.offset(), 0, f"position of the maximum of the pulse ({name})")
                spectrum = sum_of_waves(samples, pulse.offset(), [f / fs for f in (0.06 * fs, 0.1 * fs, 0.13 * fs, 0.2 * fs, 0.25 * fs)])
                expect(abs(samples[peak] - 1.0) < 0.05 or interval != (0, 1.0), "the maximum of the pulse is {!r} rather than about 1 ({})", samples[peak], name)
                for v in spectrum:
                    v /= 0.5 * fs / (f1 - f0)
                    expect(abs(v - 1.0) < 0.15, "the spectrum of the pulse is {!r} rather than about 1, relative to that of a band limited unit impulse ({})", v, name)
                for v in sum_of_waves(samples, pulse.offset(), [0.001, 0.45] if interval == (0, 1.0) else [0.45]):
                    expect(abs(v) < 0.1, "the spectrum of the pulse outside of the frequencies of the sweep is {!r} rather than about 0 ({})", v, name)
        ck.run({"part": "pulses", "kind": kind, "length": length, "fs": fs, "phase": phase, "interval": list(interval)}, execute)
        ck.transition()
        ck.state(("pulse", kind, length, fs, phase, interval))


def sum_of_waves(samples, offset, relative_frequencies):
    n = numpy.arange(len(samples)) + offset
    return [complex(numpy.sum(samples * numpy.exp(-2j * math.pi * f * n))) for f in relative_frequencies]


def advanced(row, delay_in_samples):
    """The band limited, periodic row at the times n + delay."""
    n = len(row)
    if n == 0:
        return []
    bins = [sum(x * cmath.exp(-2j * math.pi * k * i / n) for i, x in enumerate(row)) for k in range(n // 2 + 1)]
    result = []
    for i in range(n):
        value = bins[0].real
        for k in range(1, n // 2 + 1):
            b = bins[k] * cmath.exp(2j * math.pi * k * delay_in_samples / n)
            if 2 * k == n:
                value += b.real * (-1.0) ** i
            else:
                value += 2.0 * (b * cmath.exp(2j * math.pi * k * i / n)).real
        result.append(value / n)
    return result


COUNTED = {1: "1st", 2: "2nd", 3: "3rd", 4: "4th", 5: "5th", 6: "6th", 7: "7th", 8: "8th", 9: "9th"}


def harmonics(ck, shard):
    import sumpf
    rate, samples, channels, fs = shard             # the sweep rate in samples, the size of the impulse response
    length = 64
    # a sweep with the given rate: length / log(f1 / f0) = rate
    f0 = 1.0
    f1 = f0 * math.exp(length / rate)
    highest = 9 if ck.thorough else 6
    for name in ("ExponentialSweep", "InverseExponentialSweep"):
        sweep = getattr(sumpf, name)(start_frequency=f0, stop_frequency=f1, sampling_rate=fs, length=length)
        rows = ref.symbolic(channels, samples)
        for offset in range(-samples + 1, 5):
            for harmonic in range(1 if offset <= 0 else 2, highest + 1):
                for length_ in [None] + ([0, 1, 2, 3, 4, 5, 6, 7, 11, 16, 21, 45] if not ck.thorough else list(range(0, 30)) + [samples - 1, samples, samples + 1, 70]):
                    delay = rate * math.log(harmonic)
                    late = rate * math.log(harmonic - 1) if harmonic > 1 else None
                    if any(abs(d - round(d)) < 1e-6 for d in (delay, late) if d):
                        continue
                    if harmonic == 1:
                        begin, end = -offset, samples
                    else:
                        begin = -offset - math.ceil(delay)
                        end = -offset - math.floor(late)
                        if begin < 0:
                            if begin < -samples:
                                continue        # not completely in the signal
                            begin, end = begin + samples, min(end, 0) + samples     # circular, but cropped at the end of the signal
                    case = {"part": "harmonics", "shard": list(shard), "sweep": name, "offset": offset, "harmonic": harmonic, "length": length_}

                    def execute():
                        original = sumpf.Signal(channels=rows.copy(), sampling_rate=fs, offset=offset, labels=("a", "b")[0:channels])
                        arguments = () if length_ is None else (length_,)
                        result = sweep.harmonic_impulse_response(original, harmonic, *arguments)
                        expected = []
                        for row in rows:
                            cut = list(row[begin:end])
                            if length_ is not None and length_ > len(cut):
                                cut += [0.0] * (length_ - len(cut))
                            if harmonic > 1:
                                cut = advanced(cut, math.ceil(delay) - delay)
                            expected.append(cut if length_ is None else cut[0:length_])
                        expected = numpy.array(expected).reshape(channels, -1)
                        expect_equal(result.shape(), expected.shape, "shape")
                        expect_array(result.channels(), expected, "the impulse response of the harmonic", atol=1e-9)
                        expect_equal(result.offset(), 0, "offset")
                        expect_equal(result.sampling_rate(), fs, "sampling rate")
                        expect_equal(tuple(result.labels()), tuple(f"{l} ({COUNTED[harmonic]} harmonic)" for l in "ab"[0:channels]), "labels")
                        expect_array(original.channels(), rows, "the original impulse response", rtol=0.0, atol=0.0)
                        ck.state((harmonic, ref.rounded(expected)))
                    ck.run(case, execute)
                    ck.transition()
                    ck.outcome(f"harmonic {harmonic}")


def part(ck, shard):
    if shard[0] == "pulses":
        pulses(ck)
    elif shard[0] == "sweeps":
        sweeps(ck, shard[1])
    else:
        harmonics(ck, shard[1])


def explore(ck):
    ck.sample({"class": "ExponentialSweep", "frequencies": [20.0, 200.0], "interval": [0.25, 0.75], "length": 101})
    frequencies = FREQUENCIES if ck.thorough else FREQUENCIES[0:4]
    shards = [("sweeps", (name, f)) for name in NAMES for f in frequencies]
    shards += [("pulses", None)]
    rates = (5.3, 9.7, 14.2, 3.1, 22.9) if not ck.thorough else (5.3, 9.7, 14.2, 3.1, 22.9, 2.2, 7.77, 11.4, 17.5)
    shards += [("harmonics", (rate, samples, channels, fs)) for rate in rates for samples, channels, fs in ((40, 1, 48000.0), (41, 2, 100))]
    if ck.thorough:
        shards += [("harmonics", (rate, 73, 2, 44100)) for rate in rates]
    ck.parallel(part, shards)


def replay(ck, case):
    if case["part"] == "sweep":
        sweeps(ck, (case["name"], tuple(case["frequencies"])))
    elif case["part"] == "pulses":
        pulses(ck)
    else:
        harmonics(ck, tuple(case["shard"]))
