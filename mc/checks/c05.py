"""C05: sample-wise arithmetic and views of spectrums.

Lock-step exploration of all programs of up to n operators over a pool of spectrums with different
channel counts; the reference computes with Python's scalars, sample by sample.
"""

import numpy
from mc import ref
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "channels 1-3 x length 0-4; all ordered pairs of channel counts x 5 operators x lengths; all 2-step programs (both "
                   "operand orders); frequency axes of 10 resolutions x 0..100 lines; numbers (int, float, complex, NumPy scalars), vectors and matrices on both sides; all views; spectrums around the powers of two, up to 130 channels and special values",
          "thorough": "as quick with lengths up to 6 and all 3-step programs"}
ASSUMPTIONS = ["NumPy's scalar arithmetics is the oracle for a single sample", "spectrums of different lengths are not specified"]
OPS = {"+": (lambda a, b: a + b, None, "Sum"),
       "-": (lambda a, b: a - b, 0.0, "Difference"),
       "*": (lambda a, b: a * b, None, "Product"),
       "/": (lambda a, b: a / b, 1.0, "Quotient"),
       "**": (lambda a, b: a ** b, None, "Power")}
C = numpy.complex128


class R:
    def __init__(self, rows, length, resolution, labels):
        self.rows, self.length, self.resolution, self.labels = rows, length, resolution, tuple(labels)

    def array(self):
        return numpy.array(self.rows, dtype=complex).reshape(len(self.rows), self.length)

    def key(self):
        return (ref.rounded(self.array()), self.resolution, self.labels)


def combine(op, a, b):
    f, pivot, label = OPS[op]
    count = max(len(a.rows), len(b.rows))
    rows = []
    for c in range(count):
        x = a.rows[0] if len(a.rows) == 1 else a.rows[c] if c < len(a.rows) else None
        y = b.rows[0] if len(b.rows) == 1 else b.rows[c] if c < len(b.rows) else None
        if x is None:
            rows.append([v if pivot is None else f(C(pivot), C(v)) for v in y])
        elif y is None:
            rows.append(list(x))
        else:
            rows.append([f(C(v), C(w)) for v, w in zip(x, y)])
    return R(rows, a.length, a.resolution, (label,) * count)


def build(spec):
    import sumpf
    channels, length, tag = spec
    data = ref.symbolic_complex(channels, length, tag)
    resolution = (0.5, 2.0, 3.25)[tag % 3]
    labels = ref.labels_for(channels, f"s{tag}")
    return (sumpf.Spectrum(channels=data.copy(), resolution=resolution, labels=labels),
            R([[complex(v) for v in row] for row in data], length, resolution, labels))


def compare(real, model, what):
    import sumpf
    expect(isinstance(real, sumpf.Spectrum), "{}: the result is no spectrum but {!r}", what, type(real))
    expect_equal(real.shape(), (len(model.rows), model.length), what + ": shape")
    expect_equal(len(real), len(model.rows), what + ": len")
    expect_equal(real.length(), model.length, what + ": length")
    expect_equal(real.resolution(), model.resolution, what + ": resolution")
    expect_equal(tuple(real.labels()), model.labels, what + ": labels")
    ref.expect_array(real.channels(), model.array(), what, atol=ref.scaled_atol(model.array()))


def views(ck, real, m):
    rows, n = m.rows, m.length

    def array(f, dtype=float):
        return numpy.array([[f(v) for v in row] for row in rows], dtype=dtype).reshape(len(rows), n)

    def spectrum(f):
        return R([[f(C(v)) for v in row] for row in rows], n, m.resolution, m.labels)
    finite = numpy.isfinite(m.array()).all()
    compare(-real, spectrum(lambda v: -v), "negation")
    compare(~real, spectrum(lambda v: C(1) / v), "inversion")
    compare(real.conjugate(), spectrum(numpy.conj), "conjugate")
    expect_equal(real.maximum_frequency() if n else 0, (n - 1) * m.resolution if n else 0, "maximum frequency")
    ref.expect_array(real.frequency_samples(), [i * m.resolution for i in range(n)], "frequency samples")
    ref.expect_array(real.real(), array(lambda v: v.real), "real")
    ref.expect_array(real.imaginary(), array(lambda v: v.imag), "imaginary")
    if finite:
        compare(abs(real), spectrum(abs), "absolute")
        ref.expect_array(real.magnitude(), array(abs), "magnitude")
        ref.expect_phase(real.phase(), m.array(), "phase")
    ck.transition(6)


def run_program(ck, case):
    program = case["program"]
    with numpy.errstate(all="ignore"):
        real, m = build(program[0])
        originals = [(real, m)]
        for op, spec, *side in program[1:]:
            real2, m2 = build(spec)
            originals.append((real2, m2))
            if side and side[0] == "right":
                real, m = OPS[op][0](real2, real), combine(op, m2, m)
            else:
                real, m = OPS[op][0](real, real2), combine(op, m, m2)
            ck.transition()
            ck.state(m.key())
            compare(real, m, f"result of {op}")
        views(ck, real, m)
        for r, o in originals:
            compare(r, o, "operand after the operation")


def run_other(ck, case):
    spec, op, kind, side = case["spectrum"], case["op"], case["kind"], case["side"]
    real, m = build(spec)
    channels, length = spec[0], spec[1]
    numbers = {"int": 3, "float": -1.75, "complex": 0.5 - 2.0j, "numpy.float64": numpy.float64(1.5), "numpy.int64": numpy.int64(2),
               "numpy.complex128": numpy.complex128(1 + 2j)}
    vector = ref.symbolic_complex(1, length, 9)[0]
    if kind in numbers:
        other = numbers[kind]
        grid = numpy.full((channels, length), complex(other))
    elif kind == "matrix":
        grid = ref.symbolic_complex(channels, length, 8)
        other = grid.copy()
    elif kind == "column":
        column = ref.symbolic(channels, 1, 7)
        other = column.tolist()
        grid = numpy.repeat(column, length, axis=1)
    else:
        other = {"list": vector.tolist(), "tuple": tuple(vector.tolist()), "array": vector}[kind]
        grid = numpy.array([vector] * channels).reshape(channels, length)
    f = OPS[op][0]
    with numpy.errstate(all="ignore"):
        if side == "left":
            result = f(real, other)
            rows = [[f(C(x), C(y)) for x, y in zip(r, g)] for r, g in zip(m.rows, grid)]
        else:
            result = f(other, real)
            rows = [[f(C(y), C(x)) for x, y in zip(r, g)] for r, g in zip(m.rows, grid)]
        expected = R(rows, length, m.resolution, m.labels)
        ck.transition()
        ck.state((op, kind, side) + expected.key())
        compare(result, expected, f"{side} {op} with {kind}")
        compare(real, m, "operand after the operation")


KINDS = ("int", "float", "complex", "numpy.float64", "numpy.int64", "numpy.complex128", "list", "tuple", "array", "matrix", "column")


RESOLUTIONS = (1.0, 0.1, 0.3, 1.1, 1 / 3, 0.7, 44100 / 4096, 48000 / 1000, 1e-3, 11025 / 7)


def run_axis(ck, case):
    """the frequency axis for resolutions, that are no exact binary numbers"""
    import sumpf
    resolution, length = case["axis"]
    real = sumpf.Spectrum(channels=numpy.zeros((1, length), dtype=numpy.complex128), resolution=resolution)
    ck.transition()
    ck.state(("axis", resolution, length))
    ref.expect_array(real.frequency_samples(), [i * resolution for i in range(length)], "frequency samples")
    if length:
        ref.expect_array(real.maximum_frequency(), (length - 1) * resolution, "maximum frequency")


def large(ck, size):
    """long spectrums, many channels and special values"""
    programs = []
    if size == "channels":
        for a in (1, 2, *ref.MANY_CHANNELS):
            programs += [[[a, n, 1], [op, [b, n, 2], side]] for b in (1, a, a + 1, 3) for n in (3, 9) for op in OPS for side in ("left", "right")]
    elif size == "special":
        n = len(ref.SPECIAL_COMPLEX) ** 2
        programs += [[[a, n, first], [op, [b, n, second], side]] for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)) for op in OPS for side in ("left", "right")
                     for first, second in ((ref.FIRST_SPECIAL, ref.SECOND_SPECIAL), (1, ref.FIRST_SPECIAL), (ref.FIRST_SPECIAL, 1))]
    else:
        shapes = [(1, 1), (1, 2), (3, 2)]
        programs += [[[*s[0:1], size, 1], [op, [*s[1:2], size, 2], side]] for i, s in enumerate(shapes) for j, op in enumerate(OPS) for side in ("left", "right")
                     if size < 600 or (i + j + size) % (5 if size < 5000 else 15) == 0]
    for program in programs:
        case = {"program": program}
        ck.run(case, lambda: run_program(ck, case))


def job(ck, spec):
    kind, n = spec
    if kind == "large":
        large(ck, n)
        return
    if kind == "axis":
        for length in range(2 * n if ck.thorough else n):
            case = {"axis": [RESOLUTIONS[n % len(RESOLUTIONS)], length]}
            ck.run(case, lambda: run_axis(ck, case))
    elif kind == "other":
        for c in (1, 2, 3):
            for op in OPS:
                for k in KINDS:
                    for side in ("left", "right"):
                        case = {"spectrum": [c, n, 1], "op": op, "kind": k, "side": side}
                        ck.run(case, lambda: run_other(ck, case))
    else:
        for c0 in (1, 2, 3):
            case = {"program": [[c0, n, 0]]}
            ck.run(case, lambda: run_program(ck, case))
            for c1 in (1, 2, 3):
                for op1 in OPS:
                    case = {"program": [[c0, n, 0], [op1, [c1, n, 1]]]}
                    ck.run(case, lambda: run_program(ck, case))
                    for c2 in (1, 2, 3):
                        for op2 in OPS:
                            for side in ("left", "right"):
                                case = {"program": [[c0, n, 0], [op1, [c1, n, 1]], [op2, [c2, n, 2], side]]}
                                ck.run(case, lambda: run_program(ck, case))
                                if ck.thorough and n in (1, 3):
                                    for c3 in (1, 2, 3):
                                        for op3 in OPS:
                                            case = {"program": [*case["program"][:3], [op3, [c3, n, 4]]]}
                                            ck.run(case, lambda: run_program(ck, case))
    ck.sample(case)


def explore(ck):
    top = 7 if ck.thorough else 5
    ck.parallel(job, [("large", n) for n in (*reversed(ref.SIZES), "channels", "special")] + [("program", n) for n in range(top)] + [("other", n) for n in range(top)]
                + [("axis", 100 + i) for i in range(len(RESOLUTIONS))])


def replay(ck, case):
    ck.run(case, lambda: run_program(ck, case) if "program" in case else run_axis(ck, case) if "axis" in case else run_other(ck, case))
