"""C20: the designed filters (Butterworth, Bessel, Chebyshev, weightings, delay, derivative) have their defining transfer functions."""

import itertools
import math
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect_equal

BOUNDS = {"quick": "Butterworth, Bessel and both Chebyshev filters of the orders 1..10, low- and highpass, 4 cutoff frequencies, 9 ripples, at 30 frequencies per filter (including 0 Hz and the cutoff frequency), sampled as "
                   "array, numbers, list and spectrum, their products, quotients, inverses and indexed channels; all weightings at 60 frequencies; delays of -3..8 quarter samples on signals of 1..8 samples",
          "thorough": "orders 1..16, 9 cutoff frequencies"}
ASSUMPTIONS = ["the poles and zeros of the analog prototypes, as computed by SciPy, and the published formulas of the weightings are the reference",
               "highpass filters may be 0 at 0 Hz rather than at their limit (documented)"]


def prototype(kind, order, ripple):
    """Zeros and poles of the normalized lowpass."""
    import scipy.signal
    if kind == "Butterworth" or (kind == "Chebyshev1" and not ripple):
        z, p, _ = scipy.signal.buttap(order)
    elif kind == "Bessel":
        z, p, _ = scipy.signal.besselap(order, norm="delay")
    elif kind == "Chebyshev1":
        z, p, _ = scipy.signal.cheb1ap(order, abs(ripple))
    else:
        z, p, _ = scipy.signal.cheb2ap(order, abs(ripple))
    return numpy.asarray(z, dtype=complex), numpy.asarray(p, dtype=complex)


def evaluate(zeros, poles, s):
    """The transfer function with these zeros and poles and the gain 1 at s=0."""
    result = 1.0 + 0.0j
    for p in poles:
        result *= -p / (s - p)
    for z in zeros:
        result *= (s - z) / -z
    return result


def magnitude(kind, order, ripple, x):
    """The magnitude by the defining formulas, x is the frequency relative to the cutoff frequency."""
    def chebyshev(x):
        return math.cos(order * math.acos(x)) if abs(x) <= 1.0 else math.cosh(order * math.acosh(x))
    if kind == "Butterworth" or (kind == "Chebyshev1" and not ripple):
        return 1.0 / math.sqrt(1.0 + x ** (2 * order))
    if kind == "Chebyshev1":
        e2 = 10.0 ** (abs(ripple) / 10.0) - 1.0
        return math.sqrt((1.0 + e2 * chebyshev(0.0) ** 2) / (1.0 + e2 * chebyshev(x) ** 2))
    if kind == "Chebyshev2":
        e2 = 1.0 / (10.0 ** (abs(ripple) / 10.0) - 1.0)
        if x == 0.0:
            return 1.0
        t2 = e2 * chebyshev(1.0 / x) ** 2
        return math.sqrt(t2 / (1.0 + t2))
    return None


def design(ck, shard):
    import sumpf
    kind, order, highpass = shard
    cutoffs = (1000.0, 0.5, 100, 21000.0) + ((20.0, 44100.0, 1e-2, 1.0, 333.3) if ck.thorough else ())
    ripples = (3.0, 0.1, -1.0, 20.0, 60.0, 6.0, 0.0, 0.001, 120.0) if kind == "Chebyshev1" else (60.0, 3.0, 20.0, -40.0, 0.5, 6.0, 96.0, 0.01, 180.0) if kind == "Chebyshev2" else (None,)
    for cutoff, ripple in itertools.product(cutoffs, ripples):
        case = {"part": "design", "kind": kind, "order": order, "highpass": highpass, "cutoff": cutoff, "ripple": ripple}
        zeros, poles = prototype(kind, order, ripple)
        relative = [0.0, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.99, 1.0, 1.01, 1.05, 1.1, 1.25, 1.5, 1.75, 2.0, 2.5, 3.0, 4.0, 5.0, 10.0, 30.0, 100.0]
        fs = [r * cutoff for r in relative]

        def value(f):
            """The permitted values at this frequency"""
            if highpass:
                if f == 0.0:
                    limit = evaluate(zeros, poles, 1e9j) if len(zeros) == len(poles) else 0.0
                    return [0.0, limit]
                return [evaluate(zeros, poles, cutoff / (1j * f))]
            return [evaluate(zeros, poles, 1j * f / cutoff)]

        def compare(actual, f, what, function=lambda v: v):
            permitted = [function(v) for v in value(f)]
            for p in permitted:
                if abs(complex(actual) - p) <= 1e-12 + tolerance * abs(p):
                    return
            raise Mismatch(f"{what} at {f} Hz is {actual!r} rather than {permitted!r}")

        # the accuracy of polynomials with high orders is limited
        tolerance = 1e-9 if kind != "Bessel" else 1e-9 * 4.0 ** max(0, order - 6)

        def execute():
            keywords = {} if ripple is None else {"ripple": ripple}
            filter_ = getattr(sumpf, kind + "Filter")(cutoff_frequency=cutoff, order=order, highpass=highpass, **keywords)
            expect_equal((len(filter_), filter_.cutoff_frequency(), filter_.order(), bool(filter_.is_highpass())), (1, cutoff, order, highpass), "the parameters of the filter")
            if ripple is not None:
                expect_equal(filter_.ripple(), ripple, "the ripple")
            values = filter_(numpy.array(fs))[0]
            expect_equal(numpy.shape(values), (len(fs),), "the shape of the samples")
            for v, f, r in zip(values, fs, relative):
                compare(v, f, f"the {'highpass' if highpass else 'lowpass'} filter")
                x = (1.0 / r if r else None) if highpass else r
                m = magnitude(kind, order, ripple, x) if x is not None else None
                if m is not None and not abs(abs(v) - m) <= 1e-12 + 1e-6 * m:
                    raise Mismatch(f"the magnitude at {f} Hz is {abs(v)} rather than {m}")
            for f, v in zip(fs, filter_(fs[::-1])[0][::-1]):
                compare(v, f, "the filter, sampled at a list in descending order,")
            for f in fs[::5] + [cutoff]:
                compare(filter_(f)[0], f, "the filter, sampled at a number,")
            spectrum = filter_.spectrum(resolution=cutoff / 4.0, length=9)
            expect_equal((spectrum.shape(), spectrum.resolution(), tuple(spectrum.labels())), ((1, 9), cutoff / 4.0, tuple(filter_.labels())), "the parameters of the spectrum")
            for i, v in enumerate(spectrum.channels()[0]):
                compare(v, i * cutoff / 4.0, "the spectrum of the filter")
            # compositions
            positive = [f for f in fs if f > 0.0]
            for name, composed, function in (("the filter in series with itself", filter_ * filter_, lambda v: v * v), ("the negative filter", -filter_, lambda v: -v), ("the magnitude", abs(filter_), abs),
                                             ("the filter with a gain", 2.5 * filter_, lambda v: 2.5 * v), ("the indexed channel", filter_[0], lambda v: v), ("the ripple to one", 1.0 - filter_, lambda v: 1.0 - v)):
                for f, v in zip(positive, composed(numpy.array(positive))[0]):
                    permitted = function(value(f)[0])
                    if not abs(v - permitted) <= 1e-12 + 4 * tolerance * max(abs(permitted), 1.0 if name == "the ripple to one" else 0.0):
                        raise Mismatch(f"{name} at {f} Hz is {v!r} rather than {permitted!r}")
            for f, v in zip(positive, (~filter_)(numpy.array(positive))[0]):
                original = value(f)[0]
                if abs(original) > 1e-100 and not abs(v * original - 1.0) <= 1e-4:
                    raise Mismatch(f"the inverse filter at {f} Hz is {v!r} rather than {1.0 / original!r}")
        ck.run(case, execute)
        ck.transition(len(fs))
        ck.state((kind, order, highpass, cutoff, ripple))
    ck.outcome(kind)


# weightings


def weighting_function(name, f):
    """The published transfer functions, without normalization."""
    s = 2j * math.pi * f
    w = lambda v: 2.0 * math.pi * v
    f1, f4 = 20.598997057568145, 12194.217147998012
    if name in "ABC":
        result = s ** 2 / ((s + w(f1)) ** 2 * (s + w(f4)) ** 2)
        if name == "A":
            result *= s ** 2 / ((s + w(107.65264864304628)) * (s + w(737.8622307362899)))
        elif name == "B":
            result *= s / (s + w(158.5))
        return result
    if name == "D":
        x = f * f
        h = ((1037918.48 - x) ** 2 + 1080768.16 * x) / ((9837328.0 - x) ** 2 + 11723776.0 * x)
        return f / 6.8966888496476e-5 * math.sqrt(h / ((x + 79919.29) * (x + 1345600.0)))
    result = 1.0 / (s + w(12200.0)) ** 2
    for p in (7850.0 + 8800.0j, 2900.0 + 12150.0j):
        result /= (s + w(p)) * (s + w(p.conjugate()))
    return result


# nominal levels in dB from the standards
TABLES = {"A": {10.0: -70.4, 31.6228: -39.4, 63.0957: -26.2, 125.8925: -16.1, 251.1886: -8.6, 501.1872: -3.2, 1000.0: 0.0, 1995.262: 1.2, 3981.072: 1.0, 7943.282: -1.1, 15848.93: -6.6, 19952.62: -9.3},
          "B": {10.0: -38.2, 31.6228: -17.1, 100.0: -5.6, 1000.0: 0.0, 10000.0: -4.3, 19952.62: -11.1},
          "C": {10.0: -14.3, 31.6228: -3.0, 100.0: -0.3, 1000.0: 0.0, 7943.282: -3.0, 15848.93: -8.5, 19952.62: -11.2},
          "D": {10.0: -26.5, 100.0: -7.2, 1000.0: 0.0, 3162.278: 11.5, 10000.0: 3.4},
          "U": {1000.0: 0.0, 10000.0: 0.0, 12589.25: -2.8, 15848.93: -13.0, 19952.62: -25.3, 25118.86: -37.6, 31622.78: -49.7, 39810.72: -61.8}}


def weighting(ck, shard):
    import sumpf
    name = shard[1]
    fs = [10.0 ** (i / 15.0) for i in range(75)] + [1000.0]
    fs = sorted(fs)

    def execute():
        filter_ = getattr(sumpf, name + "Weighting")()
        expect_equal(len(filter_), 1, "number of channels")
        values = filter_(numpy.array(fs))[0]
        gain = weighting_function(name, 1000.0)
        at_reference = complex(filter_(1000.0)[0])
        if not abs(abs(at_reference) - 1.0) < 1e-9:
            raise Mismatch(f"the gain of the {name}-weighting at 1000 Hz is {at_reference!r}")
        for v, f in zip(values, fs):
            wanted = weighting_function(name, f) / gain
            if not abs(abs(v) - abs(wanted)) <= 1e-9 * abs(wanted):
                raise Mismatch(f"the magnitude of the {name}-weighting at {f} Hz is {abs(v)} rather than {abs(wanted)}")
            if name != "D" and not abs(v / at_reference - wanted) <= 1e-9 * abs(wanted):
                raise Mismatch(f"the {name}-weighting at {f} Hz is {v / at_reference} relative to its value at 1000 Hz rather than {wanted}")
            single = complex(filter_(f)[0])
            if not abs(single - v) <= 1e-9 * abs(v):
                raise Mismatch(f"the {name}-weighting at {f} Hz is {single} as number and {v} in an array")
            ck.state((name, f))
        for v, f in zip(filter_(fs[::-1])[0][::-1], fs):
            if not abs(abs(v) - abs(weighting_function(name, f) / gain)) <= 1e-9 * abs(v):
                raise Mismatch(f"the magnitude of the {name}-weighting at {f} Hz is {abs(v)}, when it is sampled in descending order")
        zero = complex(filter_(0.0)[0])
        if not abs(zero - (0.0 if name != "U" else weighting_function(name, 0.0) / gain * at_reference)) <= 1e-9:
            raise Mismatch(f"the {name}-weighting at 0 Hz is {zero}")
        for f, level in TABLES[name].items():
            actual = 20.0 * math.log10(abs(filter_(f)[0]))
            if not abs(actual - level) <= 0.15:
                raise Mismatch(f"the {name}-weighting at {f} Hz is {actual} dB rather than {level} dB")
        spectrum = filter_.spectrum(resolution=250.0, length=7)
        for i, v in enumerate(spectrum.channels()[0]):
            wanted = abs(weighting_function(name, 250.0 * i) / gain)
            if not abs(abs(v) - wanted) <= 1e-9 * max(wanted, 1e-3):
                raise Mismatch(f"the magnitude of the spectrum of the {name}-weighting at {250.0 * i} Hz is {abs(v)} rather than {wanted}")
        # the level of a sine, that is filtered with the weighting
        for k in (1, 2, 5):
            n, rate = 96, 48000.0
            t = numpy.arange(n)
            sine = sumpf.Signal(channels=numpy.sin(2.0 * math.pi * k * t / n)[None, :] * math.sqrt(2.0), sampling_rate=rate)
            for filtered in (sine * filter_, filter_ * sine):
                level = float(filtered.level(single_value=True))
                wanted = abs(weighting_function(name, k * rate / n) / gain)
                if not abs(level - wanted) <= 1e-9 * wanted:
                    raise Mismatch(f"the level of a sine with {k * rate / n} Hz after the {name}-weighting is {level} rather than {wanted}")
    ck.run({"part": "weighting", "name": name}, execute)
    ck.transition(len(fs))
    ck.outcome("weighting")


def simple(ck, shard):      # pylint: disable=unused-argument
    """Delays and derivatives."""
    import sumpf
    rate = 8.0
    fs = numpy.array([0.0, 0.125, 0.5, 1.0, 2.75, 4.0, 100.0])
    for quarters in range(-12, 33):
        delay = quarters / (4.0 * rate)

        def execute():
            filter_ = sumpf.DelayFilter(delay=delay)
            ref.expect_array(filter_(fs)[0], numpy.exp(-2j * math.pi * fs * delay), "the delay filter")
            ref.expect_array((~filter_)(fs)[0], numpy.exp(2j * math.pi * fs * delay), "the inverse delay filter")
            ref.expect_array((filter_ * sumpf.DelayFilter(delay=0.3))(fs)[0], numpy.exp(-2j * math.pi * fs * (delay + 0.3)), "two delays")
            if quarters % 4 == 0:
                for length, channels, offset in itertools.product((2, 4, 6, 8), (1, 2), (0, 1, -3)):
                    data = ref.symbolic(channels, length)
                    signal = sumpf.Signal(channels=data, sampling_rate=rate, offset=offset, labels=ref.labels_for(channels))
                    result = signal * filter_
                    samples = {(i + offset + quarters // 4) % length: i for i in range(length)}
                    expect_equal(result.shape(), (channels, length), "the shape of the delayed signal")
                    for i in range(length):
                        source = samples[(i + result.offset()) % length]
                        ref.expect_array(result.channels()[:, i], data[:, source], f"sample {i} of the delayed signal", atol=1e-9)
                    ck.state(("delay", quarters, length, channels, offset))
        ck.run({"part": "simple", "delay": delay}, execute)
        ck.transition()

    def derivative():
        filter_ = sumpf.DerivativeFilter()
        ref.expect_array(filter_(fs)[0], 2j * math.pi * fs, "the derivative filter")
        for n, k in itertools.product((4, 8, 16), (1, 2, 3)):
            if 2 * k >= n:
                continue
            t = numpy.arange(n) / rate
            w = 2.0 * math.pi * k * rate / n
            signal = sumpf.Signal(channels=numpy.array([numpy.sin(w * t), 3.0 * numpy.cos(w * t) + 1.0]), sampling_rate=rate)
            ref.expect_array((signal * filter_).channels(), numpy.array([w * numpy.cos(w * t), -3.0 * w * numpy.sin(w * t)]), "the derivative of a sine and a cosine", atol=1e-9)
            ref.expect_array((signal * (filter_ * filter_)).channels(), numpy.array([-w * w * numpy.sin(w * t), -3.0 * w * w * numpy.cos(w * t)]), "the second derivative", atol=1e-8)
            ck.state(("derivative", n, k))
    ck.run({"part": "simple", "derivative": True}, derivative)
    ck.outcome("simple")


def part(ck, shard):
    {"weighting": weighting, "simple": simple}.get(shard[0], design)(ck, shard)


def explore(ck):
    orders = range(1, 17 if ck.thorough else 11)
    ck.parallel(part, [(kind, order, highpass) for order in reversed(orders) for kind in ("Butterworth", "Bessel", "Chebyshev1", "Chebyshev2") for highpass in (False, True)]
                + [("weighting", n) for n in "ABCDU"] + [("simple",)])
    ck.sample({"filter": "Butterworth", "order": 3, "highpass": True})


def replay(ck, case):
    if case["part"] == "design":
        design(ck, (case["kind"], case["order"], case["highpass"]))
    elif case["part"] == "weighting":
        weighting(ck, ("weighting", case["name"]))
    else:
        simple(ck, ("simple",))
