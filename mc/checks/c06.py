"""C06: sample-wise arithmetic of spectrograms on a common grid of channels, frequencies and time positions.

The reference is a sparse grid (channel, frequency bin, time position) -> value; a signal is a grid, that
repeats over the frequencies of its partner, a spectrum one, that repeats over its partner's time.
"""

import numpy
from mc import ref
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "spectrograms channels 1-3 x frequencies 1-3 x length 0-3 x offset -2..2 against a pool of 21 spectrograms, 15 signals "
                   "and 3 spectrums, both operand orders, 5 operators; all 2-step programs over a reduced pool; numbers and arrays; long spectrograms with many channels and special values",
          "thorough": "the full product of all spectrogram pairs (channels 1-3, frequencies 1-3, length 0-3, offset -2..2); signals length "
                      "0-4 x offset -3..4; 2-step programs over a larger pool"}
ASSUMPTIONS = ["NumPy's scalar arithmetics is the oracle for a single sample"]
OPS = {"+": (lambda a, b: a + b, None, "Sum"),
       "-": (lambda a, b: a - b, 0.0, "Difference"),
       "*": (lambda a, b: a * b, None, "Product"),
       "/": (lambda a, b: a / b, 1.0, "Quotient"),
       "**": (lambda a, b: a ** b, None, "Power")}
C = numpy.complex128
RATE, RESOLUTION = 40.0, 0.25


class G:
    """frequencies/start/stop are None, where the data set does not restrict the respective dimension."""

    def __init__(self, kind, data, offset, labels, params):
        self.kind, self.data, self.offset, self.labels, self.params = kind, data, offset, tuple(labels), params
        self.count = len(data)
        self.frequencies = None if kind == "signal" else data.shape[1]
        self.length = None if kind == "spectrum" else data.shape[-1]

    def at(self, c, f, t):
        if self.count == 1:
            c = 0
        elif c >= self.count:
            return None
        if self.frequencies is not None and f >= self.frequencies:
            return None
        if self.length is not None:
            t -= self.offset
            if not 0 <= t < self.length:
                return None
        if self.kind == "signal":
            return self.data[c, t]
        if self.kind == "spectrum":
            return self.data[c, f]
        return self.data[c, f, t]

    def key(self):
        return (self.kind, ref.rounded(self.data), self.offset, self.labels)


def combine(op, a, b):
    f, pivot, label = OPS[op]
    timed = [x for x in (a, b) if x.length is not None]
    start = min(x.offset for x in timed)
    stop = max(x.offset + x.length for x in timed)
    frequencies = max(x.frequencies for x in (a, b) if x.frequencies is not None)
    count = max(a.count, b.count)
    data = numpy.zeros((count, frequencies, stop - start), dtype=complex)
    for c in range(count):
        for q in range(frequencies):
            for t in range(start, stop):
                x, y = a.at(c, q, t), b.at(c, q, t)
                if x is not None and y is not None:
                    v = f(C(x), C(y))
                elif x is not None:
                    v = x
                elif y is not None:
                    v = y if pivot is None else f(C(pivot), C(y))
                else:
                    v = 0.0
                data[c, q, t - start] = v
    params = a.params if a.kind == "spectrogram" else b.params
    return G("spectrogram", data, start, (label,) * count, params)


def build(spec):
    import sumpf
    kind, channels, frequencies, length, offset, tag = spec
    labels = ref.labels_for(channels, f"s{tag}")
    if kind == "spectrogram":
        data = ref.symbolic_complex(channels * frequencies, length, tag).reshape(channels, frequencies, length)
        params = (RATE + tag, RESOLUTION + tag)
        return (sumpf.Spectrogram(channels=data.copy(), resolution=params[1], sampling_rate=params[0], offset=offset, labels=labels),
                G(kind, data, offset, labels, params))
    if kind == "signal":
        data = ref.symbolic(channels, length, tag)
        return (sumpf.Signal(channels=data.copy(), sampling_rate=RATE, offset=offset, labels=labels), G(kind, data, offset, labels, None))
    data = ref.symbolic_complex(channels, frequencies, tag)
    return (sumpf.Spectrum(channels=data.copy(), resolution=RESOLUTION, labels=labels), G(kind, data, 0, labels, None))


def compare(real, m, what):
    expect_equal(type(real).__name__.lower(), m.kind, what + ": type")
    expect_equal(real.shape(), m.data.shape, what + ": shape")
    expect_equal(tuple(real.labels()), m.labels, what + ": labels")
    if m.kind != "spectrum":
        expect_equal(real.offset(), m.offset, what + ": offset")
    if m.kind == "spectrogram":
        expect_equal(real.length(), m.data.shape[2], what + ": length")
        expect_equal(real.number_of_frequencies(), m.data.shape[1], what + ": number of frequencies")
        expect_equal((real.sampling_rate(), real.resolution()), m.params, what + ": sampling rate and resolution")
    ref.expect_array(real.channels(), m.data, what, atol=ref.scaled_atol(m.data))


def views(ck, real, m):
    finite = numpy.isfinite(m.data).all()
    n, q = m.data.shape[2], m.data.shape[1]
    compare(-real, G(m.kind, -m.data, m.offset, m.labels, m.params), "negation")
    compare(real.conjugate(), G(m.kind, numpy.conj(m.data), m.offset, m.labels, m.params), "conjugate")
    ref.expect_array(real.real(), m.data.real, "real")
    ref.expect_array(real.imaginary(), m.data.imag, "imaginary")
    expect_equal(real.maximum_frequency(), (q - 1) * m.params[1], "maximum frequency")
    ref.expect_array(real.frequency_samples(), [i * m.params[1] for i in range(q)], "frequency samples")
    ref.expect_array(real.time_samples(), [(m.offset + i) / m.params[0] for i in range(n)], "time samples")
    expect_equal(real.duration(), n / m.params[0], "duration")
    if finite:
        magnitude = numpy.array([abs(complex(v)) for v in m.data.flat]).reshape(m.data.shape)
        compare(abs(real), G(m.kind, magnitude, m.offset, m.labels, m.params), "absolute")
        ref.expect_array(real.magnitude(), magnitude, "magnitude")
        ref.expect_phase(real.phase(), m.data, "phase")
    ck.transition(4)


def run_program(ck, case):
    program = case["program"]
    with numpy.errstate(all="ignore"):
        real, m = build(program[0])
        originals = [(real, m)]
        for op, spec, side in program[1:]:
            real2, m2 = build(spec)
            originals.append((real2, m2))
            if side == "right":
                result, expected = OPS[op][0](real2, real), combine(op, m2, m)
            else:
                result, expected = OPS[op][0](real, real2), combine(op, m, m2)
            ck.transition()
            new = ck.state(expected.key())
            compare(result, expected, f"result of {op}")
            if new and len(program) == 2:
                views(ck, result, expected)
            real, m = result, expected
        for r, o in originals:
            compare(r, o, "operand after the operation")


def run_other(ck, case):
    spec, op, kind, side = case["spectrogram"], case["op"], case["kind"], case["side"]
    real, m = build(spec)
    shape = m.data.shape
    if kind == "int":
        other = 3
    elif kind == "complex":
        other = 0.5 - 2.0j
    elif kind == "numpy.float64":
        other = numpy.float64(1.5)
    elif kind == "matrix":
        other = ref.symbolic_complex(shape[1], shape[2], 8)
    elif kind == "list":
        other = ref.symbolic(1, shape[2], 8)[0].tolist()
    else:
        other = ref.symbolic_complex(shape[0] * shape[1], shape[2], 8).reshape(shape)
    grid = numpy.broadcast_to(numpy.array(other, dtype=complex), shape)
    f = OPS[op][0]
    with numpy.errstate(all="ignore"):
        result = f(real, other) if side == "left" else f(other, real)
        data = numpy.array([f(C(x), C(y)) if side == "left" else f(C(y), C(x)) for x, y in zip(m.data.flat, grid.flat)],
                           dtype=complex).reshape(shape)
        ck.transition()
        compare(result, G("spectrogram", data, m.offset, m.labels, m.params), f"{side} {op} with {kind}")
        ck.state((op, kind, side, ref.rounded(data)))
        compare(real, m, "operand after the operation")


def run_refused(case):
    """spectrums with a wrong number of frequencies can not be combined with a spectrogram"""
    real, _ = build(case["refused"][0])
    other, _ = build(case["refused"][1])
    f = OPS[case["op"]][0]
    for a, b in ((real, other), (other, real)):
        try:
            f(a, b)
        except ValueError:
            continue
        raise ref.Mismatch("the combination with a spectrum, that has a different number of frequencies, did not raise a ValueError")


POOL = [("spectrogram", c, f, n, o) for c, f, n, o in
        [(1, 2, 2, 0), (2, 2, 3, -1), (2, 1, 2, 1), (1, 3, 3, 2), (3, 2, 1, -2), (2, 3, 3, 0), (3, 3, 2, 1), (1, 1, 1, 0), (2, 2, 0, 1),
         (2, 2, 3, 2), (3, 1, 3, 0), (1, 3, 2, -2), (2, 3, 1, 1), (3, 2, 3, -1), (1, 2, 3, 1), (2, 1, 1, 0), (1, 1, 3, -1), (3, 3, 3, 0),
         (1, 2, 3, 0), (2, 2, 2, 0), (3, 2, 2, 0)]]
FIRST = [("spectrogram", c, f, n, o) for c in (1, 2, 3) for f in (1, 2, 3) for n in (0, 1, 2, 3) for o in (-2, -1, 0, 1, 2)]
SIGNALS = [("signal", c, 0, n, o) for c in (1, 2, 3) for n, o in ((0, 0), (1, 1), (2, 0), (3, -1), (3, 2))]
MANY_SIGNALS = [("signal", c, 0, n, o) for c in (1, 2, 3) for n in range(5) for o in range(-3, 5)]
SMALL = [("spectrogram", 1, 2, 2, 0), ("spectrogram", 2, 2, 3, -1), ("spectrogram", 3, 1, 2, 1), ("signal", 2, 0, 2, 0), ("signal", 1, 0, 3, 1)]


def pairs(ck, first):
    others = (FIRST if ck.thorough else POOL) + (MANY_SIGNALS if ck.thorough else SIGNALS) + [("spectrum", c, first[2], 0, 0) for c in (1, 2, 3)]
    for other in others:
        for op in OPS:
            for side in ("left", "right"):
                if other[0] == "spectrogram" and side == "right" and ck.thorough:
                    continue    # the mirrored pair is enumerated anyway
                case = {"program": [[*first, 1], [op, [*other, 2], side]]}
                ck.run(case, lambda: run_program(ck, case))
    ck.sample(case, 2)


def programs(ck, first):
    small = SMALL if not ck.thorough else POOL[:8] + SIGNALS[:9]
    for s2 in small:
        for s3 in small:
            for op1 in OPS:
                for op2 in ("+", "-", "*", "/"):     # powers of computed values are not continuous around negative real numbers
                    for side in ("left", "right"):
                        case = {"program": [[*first, 1], [op1, [*s2, 2], "left"], [op2, [*s3, 3], side]]}
                        ck.run(case, lambda: run_program(ck, case))
    ck.sample(case)


def others(ck, first):
    for op in OPS:
        for kind in ("int", "complex", "numpy.float64", "matrix", "list", "array"):
            for side in ("left", "right"):
                case = {"spectrogram": [*first, 1], "op": op, "kind": kind, "side": side}
                ck.run(case, lambda: run_other(ck, case))
        for c in (1, 2, 3):
            for f in (1, 2, 4):
                if f != first[2]:
                    case = {"refused": [[*first, 1], ["spectrum", c, f, 0, 0, 2]], "op": op}
                    ck.run(case, lambda: run_refused(case))


def large(ck, shape):
    """many channels, frequencies or time samples and special values"""
    c, f, n = shape
    tags = (1, 2)
    if c == "special":
        c, f, n, tags = 2, 3, len(ref.SPECIAL_COMPLEX) ** 2, (ref.FIRST_SPECIAL, ref.SECOND_SPECIAL)
    others = [("spectrogram", c, f, n, 3), ("spectrogram", 1, f, n, 4), ("spectrogram", c + 1, f + 1, n, 2), ("spectrogram", c, f, 2, n + 2), ("spectrogram", c, f - 1, 2, n + 5),
              ("signal", c, 0, n, 3), ("signal", 1, 0, n, 5), ("signal", c, 0, 3, n), ("spectrum", c, f, 0, 0), ("spectrum", 1, f, 0, 0)]
    for i, other in enumerate(others):
        for j, op in enumerate(OPS):
            if c * f * n > 2000 and (i + j) % 5:
                continue
            for side in ("left", "right"):
                case = {"program": [["spectrogram", c, f, n, 3, tags[0]], [op, [*other, tags[1] if other[0] != "signal" or tags[1] < 100 else 2], side]]}
                ck.run(case, lambda: run_program(ck, case))


LARGE = [("special", 0, 0), (9, 3, 3), (17, 2, 2), (33, 1, 2), (2, 65, 3), (1, 129, 2), (1, 513, 2), (2, 3, 65), (1, 2, 257), (1, 2, 1025), (3, 33, 40), (1, 64, 64)]


def job(ck, spec):
    {"pairs": pairs, "programs": programs, "others": others, "large": large}[spec[0]](ck, spec[1])


def explore(ck):
    jobs = [("large", s) for s in LARGE] + [("pairs", f) for f in FIRST] + [("programs", f) for f in POOL] + [("others", f) for f in POOL]
    ck.parallel(job, jobs)


def replay(ck, case):
    if "program" in case:
        ck.run(case, lambda: run_program(ck, case))
    elif "refused" in case:
        ck.run(case, lambda: run_refused(case))
    else:
        ck.run(case, lambda: run_other(ck, case))
