"""C23: generated signals and spectrums (waves, maximum length sequences, Rudin-Shapiro noise, constants and random noises)."""

import itertools
import math
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect, expect_array, expect_equal

BOUNDS = {"quick": "sine and square waves with 6 frequencies, 4 phases, 3 sampling rates and 24 lengths; maximum length sequences of 2..10 bits with 24 seeds (all shifts of the register's state for up to 4 bits), all lengths up to 140 with and "
                   "without the number of bits; Rudin-Shapiro sequences with all pairs of start and stop frequencies for lengths of 0..40, 64, 129 and 600; constants of 3 kinds with 9 values and all shapes up to 4x4; "
                   "16 noise classes with 2-4 parameter sets, 5 seeds and all histories of up to 3 other uses of random generators",
          "thorough": "40 lengths of waves, maximum length sequences of up to 13 bits and 60 seeds, Rudin-Shapiro sequences of up to 130 samples, histories of up to 4 uses"}
ASSUMPTIONS = ["means and variances of noises are compared with a tolerance of eight standard errors", "the sign of a square wave at its zero crossings is only specified, where the argument of the sine is exactly zero",
               "frequencies in the middle between two bins of a Rudin-Shapiro spectrum may be rounded in either direction"]


def waves(ck):
    import sumpf
    lengths = list(range(0, 20)) + [31, 100, 1001, 4096] + (list(range(20, 36)) if ck.thorough else [])
    for name, frequency, phase, fs, length in itertools.product(("SineWave", "SquareWave"), (1000.0, 0.0, 7, 440.5, 23999.0, -3.25), (0.0, math.pi / 2.0, -4.5, 100), (48000.0, 1000, 44100.0), lengths):
        def execute():
            wave = getattr(sumpf, name)(frequency=frequency, phase=phase, sampling_rate=fs, length=length)
            expect_equal(wave.shape(), (1, length), "shape")
            expect_equal(wave.offset(), 0, "offset")
            expect_equal(wave.sampling_rate(), fs, "sampling rate")
            expect_equal(tuple(wave.labels()), ("Sine",) if name == "SineWave" else ("Square wave",), "labels")
            expect(ref.same_number(wave.periods(), frequency * length / fs), "the wave has {!r} periods rather than {!r}", wave.periods(), frequency * length / fs)
            samples = wave.channels()[0]
            for i in range(length):
                value = math.sin(math.fmod(2.0 * math.pi * math.fmod(frequency * i / fs, 1.0) + phase, 2.0 * math.pi))
                if name == "SquareWave":
                    if abs(value) < 1e-9:
                        exact = phase == 0.0 and (i == 0 or frequency == 0.0)      # otherwise the argument of the sine is rounded
                        expect(samples[i] in ((0.0,) if exact else (-1.0, 0.0, 1.0)), "sample {} at a zero crossing is {!r}", i, samples[i])
                        continue
                    value = math.copysign(1.0, value)
                if not abs(samples[i] - value) < 1e-9:
                    raise Mismatch(f"sample {i} is {samples[i]!r} rather than {value!r}")
            ck.state((name, frequency, phase, fs, length))
        ck.run({"part": "waves", "class": name, "frequency": frequency, "phase": phase, "fs": fs, "length": length}, execute)
        ck.transition(length)

    def defaults():
        for cls in (sumpf.SineWave, sumpf.SquareWave):
            wave = cls()
            expect_equal((wave.shape(), wave.sampling_rate(), wave.periods()), ((1, 2 ** 16), 48000.0, 1000.0 * 2 ** 16 / 48000.0), "the default parameters")
            expect(abs(wave.channels()[0, 12] - 1.0) < 1e-9 and abs(wave.channels()[0, 65532] - wave.channels()[0, 12]) < 1e-9 or cls is sumpf.SquareWave, "the default wave is wrong")
    ck.run({"part": "waves", "defaults": True}, defaults)
    ck.outcome("waves")


def check_period(bits, values):
    """One period of a maximum length sequence as a list of +-1"""
    period = 2 ** bits - 1
    expect_equal(len(values), period, "length of the period")
    expect(all(v in (1.0, -1.0) for v in values), "the sequence has other samples than 1 and -1")
    expect(abs(sum(values)) == 1.0, "the sum of the samples is {!r} rather than 1 or -1", sum(values))
    double = list(values) * 2
    registers = set()
    for i in range(period):
        registers.add(tuple(double[i:i + bits]))
    expect_equal(len(registers), period, "number of different states of the shift register")
    if bits <= 10:
        x = numpy.array(values)
        for shift in range(1, period):
            if abs(numpy.dot(x, numpy.roll(x, shift)) + 1.0) > 1e-9:
                raise Mismatch(f"the circular autocorrelation at the shift {shift} is {numpy.dot(x, numpy.roll(x, shift))} rather than -1")


def sequences(ck, shard):
    import sumpf
    seeds = list(range(60 if ck.thorough else 24))
    if shard == "lengths":
        for length in list(range(0, 140)) + [254, 255, 256, 511, 512, 1023, 1024, 4095, 4096]:
            for seed in (None, 0, 1, 2, 3, 17, (1, 2), numpy.int64(5)):
                def execute():
                    bits = 2
                    while 2 ** bits - 1 < length:
                        bits += 1
                    sequence = sumpf.MaximumLengthSequence(length=length, seed=seed, sampling_rate=44100)
                    check_sequence(sequence, bits, length, 44100)
                    if seed is not None:
                        complete = sumpf.MaximumLengthSequence(bits=bits, seed=seed)
                        expect_array(sequence.channels()[0], complete.channels()[0, 0:length], "the cropped sequence")
                ck.run({"part": "mls", "shard": "lengths", "length": length, "seed": repr(seed)}, execute)
                ck.transition()
                ck.state(("mls length", length, repr(seed)))
        return
    bits = shard
    period = 2 ** bits - 1
    for seed in seeds + [None, None, None]:
        def execute():
            sequence = sumpf.MaximumLengthSequence(bits=bits, seed=seed)
            check_sequence(sequence, bits, period, 48000.0)
            values = [float(v) for v in sequence.channels()[0]]
            check_period(bits, values)
            if seed is None:
                return
            lengths = {0, 1, 2, bits, period - 1, period, period + 1, 2 * period, 2 * period + 3, 3 * period - 1} | (set(range(0, 40)) if bits < 5 else set())
            for length in sorted(lengths):
                other = sumpf.MaximumLengthSequence(bits=bits, seed=seed, length=length, sampling_rate=8000)
                check_sequence(other, bits, length, 8000)
                expect_array(other.channels()[0], numpy.array([values[i % period] for i in range(length)]), f"the sequence with the length {length}")
                ck.state(("mls", bits, seed, length))
                ck.transition()
            again = sumpf.MaximumLengthSequence(bits, seed)
            expect(again == sequence, "the sequence with the same seed differs: {!r} and {!r}", again.channels(), sequence.channels())
        ck.run({"part": "mls", "shard": bits, "bits": bits, "seed": seed}, execute)
    def differ():
        several = {tuple(sumpf.MaximumLengthSequence(bits=bits, seed=s).channels()[0]) for s in range(200)}
        expect(len(several) > 1, "all seeds lead to the same sequence")
    ck.run({"part": "mls", "shard": bits, "bits": bits, "seed": "several"}, differ)
    ck.outcome("maximum length sequences")


def check_sequence(sequence, bits, length, fs):
    expect_equal(sequence.shape(), (1, length), "shape")
    expect_equal(sequence.bits(), bits, "bits")
    expect_equal(sequence.period_length(), 2 ** bits - 1, "period length")
    expect(ref.same_number(sequence.periods(), length / (2.0 ** bits - 1.0)), "the sequence has {!r} periods rather than {!r}", sequence.periods(), length / (2.0 ** bits - 1.0))
    expect_equal(sequence.sampling_rate(), fs, "sampling rate")
    expect_equal(sequence.offset(), 0, "offset")
    expect_equal(tuple(sequence.labels()), ("MLS",), "labels")


def rudin_shapiro(ck, shard):
    import sumpf
    for length in shard:
        indices = range(0, length + 3) if length < 150 else [0, 1, 2, 5, 7, 40, 88, 100, 255, 256, 257, 343, 512, 599, 600, 602]
        if length > 40 and not ck.thorough and length < 150:
            indices = sorted({0, 1, 2, 3, 5, 8, 13, 31, 33, length - 65, length - 64, length - 33, length - 1, length, length + 1} - set(range(-70, 0)))
        for resolution, shift in ((1.0, 0.0), (0.25, 0.3), (3, -0.3)):
            for start in indices:
                for stop in [None] + list(indices):
                    def execute():
                        keywords = {}
                        if stop is not None:
                            keywords["stop_frequency"] = (stop + shift) * resolution
                        if start or shift:
                            keywords["start_frequency"] = max(0.0, (start + shift) * resolution)
                        spectrum = sumpf.RudinShapiroNoiseSpectrum(resolution=resolution, length=length, **keywords)
                        end = length if stop is None else min(stop, length)
                        expected = [0.0] * length
                        for n in range(max(0, end - start)):
                            if start + n < length:
                                bits = bin(n)[2:]
                                expected[start + n] = (-1.0) ** sum(bits[k:k + 2] == "11" for k in range(len(bits)))
                        expect_array(spectrum.channels(), numpy.array([expected]).reshape(1, length), "the Rudin-Shapiro sequence")
                        expect_equal(spectrum.sequence_length(), max(0, end - min(start, length)), "the length of the sequence")
                        expect_equal(spectrum.resolution(), resolution, "resolution")
                        expect_equal(tuple(spectrum.labels()), ("Noise",), "labels")
                        ck.state(("rudin-shapiro", length, start, stop, resolution))
                    ck.run({"part": "rudin_shapiro", "length": length, "resolution": resolution, "start": start, "stop": stop}, execute)
                    ck.transition(length)
    ck.outcome("Rudin-Shapiro sequences")


def constants(ck):
    import sumpf
    values = (0.0, 1, -2.5, 1e300, math.inf, math.nan, 1.5 - 2.0j, 3j, numpy.float32(0.5))
    for value, a, b in itertools.product(values, range(0, 5), range(0, 5)):
        def execute():
            spectrogram = sumpf.ConstantSpectrogram(value=value, resolution=0.5, sampling_rate=7, number_of_frequencies=a, length=b)
            expect_array(spectrogram.channels(), numpy.full((1, a, b), value, dtype=complex), "the constant spectrogram")
            expect_equal((spectrogram.shape(), spectrogram.resolution(), spectrogram.sampling_rate(), spectrogram.offset(), tuple(spectrogram.labels())), ((1, a, b), 0.5, 7, 0, ("Constant",)), "the parameters of the spectrogram")
            if a == 0:
                spectrum = sumpf.ConstantSpectrum(value=value, resolution=2.5, length=b)
                expect_array(spectrum.channels(), numpy.full((1, b), value, dtype=complex), "the constant spectrum")
                expect_equal((spectrum.shape(), spectrum.resolution(), tuple(spectrum.labels())), ((1, b), 2.5, ("Constant",)), "the parameters of the spectrum")
                if not isinstance(value, complex):
                    signal = sumpf.ConstantSignal(value=value, sampling_rate=11, length=b)
                    expect_array(signal.channels(), numpy.full((1, b), value), "the constant signal")
                    expect_equal((signal.shape(), signal.sampling_rate(), signal.offset(), tuple(signal.labels())), ((1, b), 11, 0, ("Constant",)), "the parameters of the signal")
            ck.state(("constant", repr(value), a, b))
        ck.run({"part": "constants", "value": repr(value), "shape": [a, b]}, execute)
        ck.transition()
    ck.outcome("constants")


# class: label, then parameter sets with mean, variance, lower and upper limit of the values and if they are integers
E = 0.5772156649015329


def distributions():
    yield "UniformNoise", "Uniform noise", {}, 0.0, 1.0 / 3.0, -1.0, 1.0, False
    yield "UniformNoise", "Uniform noise", {"lower_boundary": 2.0, "upper_boundary": 2.5}, 2.25, 0.25 / 12.0, 2.0, 2.5, False
    yield "UniformNoise", "Uniform noise", {"lower_boundary": -7, "upper_boundary": -3}, -5.0, 16.0 / 12.0, -7.0, -3.0, False
    yield "GaussianNoise", "Gaussian noise", {}, 0.0, 1.0, -10.0, 10.0, False
    yield "GaussianNoise", "Gaussian noise", {"mean": 3.0, "standard_deviation": 0.25}, 3.0, 0.0625, 0.0, 6.0, False
    yield "GaussianNoise", "Gaussian noise", {"mean": -1.5, "standard_deviation": 4}, -1.5, 16.0, -50.0, 50.0, False
    yield "PoissonNoise", "Poisson noise", {}, 0.0, 0.0, 0.0, 0.0, True
    yield "PoissonNoise", "Poisson noise", {"lambda_": 2.5}, 2.5, 2.5, 0.0, math.inf, True
    yield "LaplaceNoise", "Laplace noise", {}, 0.0, 2.0, -math.inf, math.inf, False
    yield "LaplaceNoise", "Laplace noise", {"mean": -2.0, "decay": 3.0}, -2.0, 18.0, -math.inf, math.inf, False
    yield "VonMisesNoise", "von Mises noise", {}, 0.0, None, -math.pi, math.pi, False
    yield "VonMisesNoise", "von Mises noise", {"mode": 1.0, "dispersion": 20.0}, 1.0, None, -math.pi, math.pi, False
    for low, high, mode in ((-1.0, 1.0, None), (2.0, 6.0, None), (0.0, 1.0, 0.25), (-3, 5, 5), (1.0, 3.0, 1.5), (-1.0, 4.0, 0.0)):
        m = (low + high) / 2.0 if mode is None else mode
        parameters = {} if (low, high) == (-1.0, 1.0) else {"lower_boundary": low, "upper_boundary": high}
        if mode is not None:
            parameters["mode"] = mode
        yield "TriangularNoise", "Triangular noise", parameters, (low + high + m) / 3.0, (low ** 2 + high ** 2 + m ** 2 - low * high - low * m - high * m) / 18.0, low, high, False
    yield "GeometricNoise", "Geometric noise", {}, 2.0, 2.0, 1.0, math.inf, True
    yield "GeometricNoise", "Geometric noise", {"p": 0.2}, 5.0, 20.0, 1.0, math.inf, True
    yield "HypergeometricNoise", "Hypergeometric noise", {}, 0.5, 0.25, 0.0, 1.0, True
    for good, bad, draws in ((7, 3, 5), (2, 8, 5), (10, 4, 3)):
        n = good + bad
        yield "HypergeometricNoise", "Hypergeometric noise", {"acceptable": good, "non_acceptable": bad, "draws": draws}, draws * good / n, draws * good / n * bad / n * (n - draws) / (n - 1), max(0, draws - bad), min(draws, good), True
    yield "BinomialNoise", "Binomial noise", {}, 0.5, 0.25, 0.0, 1.0, True
    yield "BinomialNoise", "Binomial noise", {"p": 0.2, "draws": 10}, 2.0, 1.6, 0.0, 10.0, True
    yield "BetaNoise", "Beta noise", {}, 0.5, 1.0 / 12.0, 0.0, 1.0, False
    yield "BetaNoise", "Beta noise", {"alpha": 2.0, "beta": 5.0}, 2.0 / 7.0, 10.0 / 49.0 / 8.0, 0.0, 1.0, False
    yield "GammaNoise", "Gamma noise", {}, 1.0, 1.0, 0.0, math.inf, False
    yield "GammaNoise", "Gamma noise", {"shape": 4.0, "scale": 0.5}, 2.0, 1.0, 0.0, math.inf, False
    for p in (0.5, 0.9):
        log = math.log(1.0 - p)
        yield "LogarithmicNoise", "Logarithmic noise", {} if p == 0.5 else {"p": p}, -p / (1.0 - p) / log, -(p * p + p * log) / (1.0 - p) ** 2 / log ** 2, 1.0, math.inf, True
    yield "LogisticNoise", "Logistic noise", {}, 0.0, math.pi ** 2 / 3.0, -math.inf, math.inf, False
    yield "LogisticNoise", "Logistic noise", {"mean": 5.0, "scale": 0.5}, 5.0, math.pi ** 2 / 12.0, -math.inf, math.inf, False
    yield "LomaxNoise", "Lomax noise", {}, None, None, 0.0, math.inf, False
    yield "LomaxNoise", "Lomax noise", {"shape": 8.0}, 1.0 / 7.0, 8.0 / 49.0 / 6.0, 0.0, math.inf, False
    yield "WaldNoise", "Wald noise", {}, 1.0, 1.0, 0.0, math.inf, False
    yield "WaldNoise", "Wald noise", {"mean": 2.0, "scale": 5.0}, 2.0, 1.6, 0.0, math.inf, False
    yield "ChiSquareNoise", "Chi-square noise", {}, 1.0, 2.0, 0.0, math.inf, False
    yield "ChiSquareNoise", "Chi-square noise", {"degrees_of_freedom": 6.0}, 6.0, 12.0, 0.0, math.inf, False


def noises(ck, shard):
    import sumpf
    name, label, parameters, mean, variance, low, high, integers = list(distributions())[shard]
    cls = getattr(sumpf, name)

    def check(noise, length, fs, seed):
        expect_equal(noise.shape(), (1, length), "shape")
        expect_equal(noise.offset(), 0, "offset")
        expect_equal(noise.sampling_rate(), fs, "sampling rate")
        expect_equal(tuple(noise.labels()), (label,), "labels")
        expect(noise.seed() is seed or noise.seed() == seed, "the seed is {!r} rather than {!r}", noise.seed(), seed)
        samples = noise.channels()[0]
        expect(bool(numpy.all((samples >= low) & (samples <= high))), "there are samples, that are not between {} and {}", low, high)
        if integers:
            expect(bool(numpy.all(samples == numpy.round(samples))), "there are samples, that are not integers")

    seeds = (0, 1, 12345, (1, 2, 3), None)
    for seed in seeds:
        def execute():
            n = 40000
            noise = cls(seed=seed, length=n, **parameters)
            check(noise, n, 48000.0, seed)
            samples = noise.channels()[0]
            if mean is not None and seed is not None:
                spread = math.sqrt((variance if variance is not None else 10.0) / n)
                expect(abs(samples.mean() - mean) <= 8.0 * spread + 1e-12, "the mean is {} rather than {}", samples.mean(), mean)
            if variance is not None and seed is not None:
                error = math.sqrt(max(0.0, numpy.mean((samples - mean) ** 4) - variance ** 2) / n)
                expect(abs(samples.var() - variance) <= 10.0 * error + 100.0 * (variance + 1e-12) / n, "the variance is {} rather than {}", samples.var(), variance)
            if variance != 0.0 and seed is not None:
                lag = numpy.corrcoef(samples[:-1], samples[1:])[0, 1]
                expect(abs(lag) < 8.0 / math.sqrt(n) or mean is None, "neighboring samples are correlated: {}", lag)
            for length in (0, 1, 2, 17):
                check(cls(seed=seed, sampling_rate=8000, length=length, **parameters), length, 8000, seed)
            if seed is not None:
                expect(cls(seed=seed, length=n, **parameters) == noise, "the same seed leads to another noise")
            if variance != 0.0:
                for other in seeds:
                    if other != seed:
                        expect(not numpy.array_equal(cls(seed=other, length=300, **parameters).channels(), cls(seed=seed, length=300, **parameters).channels()), "the seeds {!r} and {!r} lead to the same noise", seed, other)
                if seed is None:
                    expect(not numpy.array_equal(cls(length=300, **parameters).channels(), cls(length=300, **parameters).channels()), "noises without seed are the same")
            ck.state((name, repr(parameters), repr(seed)))
        ck.run({"part": "noises", "shard": shard, "class": name, "parameters": parameters, "seed": repr(seed)}, execute)
        ck.transition()
    # histories: what happens before, in between and after does not change a noise with a seed
    actions = {"same class": lambda: cls(seed=3, length=5, **parameters), "without seed": lambda: cls(length=5, **parameters), "other seed": lambda: cls(seed=4, length=9, **parameters),
               "global seed": lambda: numpy.random.seed(7), "global draw": lambda: numpy.random.random(3), "other class": lambda: sumpf.MaximumLengthSequence(bits=4, seed=3)}
    expected = cls(seed=3, length=20, **parameters).channels().copy()
    for depth in range(1, 5 if ck.thorough else 4):
        for history in itertools.product(actions, repeat=depth):
            def execute():
                kept = []
                for action in history:
                    kept.append(actions[action]())
                noise = cls(seed=3, length=20, **parameters)
                expect_array(noise.channels(), expected, "the noise after the history", rtol=0.0, atol=0.0)
                for action in history:
                    kept.append(actions[action]())
                expect_array(noise.channels(), expected, "the noise after repeating the history", rtol=0.0, atol=0.0)
                for action, signal in zip(history, kept):
                    if action == "same class":
                        expect_array(signal.channels(), cls(seed=3, length=5, **parameters).channels(), "an earlier noise", rtol=0.0, atol=0.0)
            ck.run({"part": "noises", "shard": shard, "class": name, "history": list(history)}, execute)
            ck.transition(depth)
            ck.state((name, repr(parameters), history))
    ck.outcome(name)


def part(ck, shard):
    kind, argument = shard
    if kind == "waves":
        waves(ck)
    elif kind == "constants":
        constants(ck)
    else:
        {"mls": sequences, "rudin_shapiro": rudin_shapiro, "noises": noises}[kind](ck, argument)


def explore(ck):
    ck.sample({"class": "TriangularNoise", "parameters": {"lower_boundary": 1.0, "upper_boundary": 3.0, "mode": 1.5}, "history": ["global seed", "without seed"]})
    ck.sample({"class": "MaximumLengthSequence", "bits": 3, "seed": 2, "length": 17})
    shards = [("waves", None), ("constants", None), ("mls", "lengths")] + [("mls", bits) for bits in range(2, 14 if ck.thorough else 11)]
    if ck.thorough:
        shards += [("rudin_shapiro", [n]) for n in range(0, 131)] + [("rudin_shapiro", [600])]
    else:
        shards += [("rudin_shapiro", list(range(n, 41, 8))) for n in range(8)] + [("rudin_shapiro", [64]), ("rudin_shapiro", [129]), ("rudin_shapiro", [600])]
    shards += [("noises", n) for n in range(len(list(distributions())))]
    ck.parallel(part, shards)


def replay(ck, case):
    kind = case["part"]
    part(ck, (kind, case["shard"] if kind in ("mls", "noises") else [case["length"]] if kind == "rudin_shapiro" else None))
