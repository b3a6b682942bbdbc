"""C01: sample-wise arithmetic of signals happens on a common time axis.

Lock-step exploration: a reference signal is a map time -> value per channel, written
from the documentation; the implementation executes the same program on real Signals.
"""

import numpy
from mc import ref
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "operand pool: channels 1-3 x length 0-3 x offset -2..3; all ordered pairs x 6 binary operators; all "
                   "2-step programs over a reduced pool; numbers/vectors/matrices on either side; signals around the powers of two up to 65537 samples, up to 130 channels, infinite and not-a-number samples",
          "thorough": "operand pool: channels 1-3 x length 0-4 x offset -3..5; all ordered pairs x 6 binary operators; all "
                      "3-step programs over a reduced pool"}
ASSUMPTIONS = ["elementary functions of numpy on scalars are the oracle for a single sample",
               "sample values are symbolic (pairwise distinct), data independence of the alignment is assumed"]

# operator symbol -> (function, value of the first operand where only the second operand has data, label)
OPS = {"+": (numpy.add, None, "Sum"),
       "-": (numpy.subtract, 0.0, "Difference"),
       "*": (numpy.multiply, None, "Product"),
       "/": (numpy.true_divide, 1.0, "Quotient"),
       "%": (numpy.mod, None, "Modulo"),
       "**": (numpy.power, None, "Power")}


def apply(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "%":
        return a % b
    return a ** b


class R:
    """The reference signal."""

    def __init__(self, channels, offset, rate, labels):
        self.channels = channels    # list of lists
        self.offset = offset
        self.rate = rate
        self.labels = tuple(labels)
        self.length = len(channels[0]) if channels else 0

    def at(self, channel, t):
        if len(self.channels) == 1:
            row = self.channels[0]
        elif channel < len(self.channels):
            row = self.channels[channel]
        else:
            return None
        i = t - self.offset
        return row[i] if 0 <= i < self.length else None

    def key(self):
        return (ref.rounded(numpy.array(self.channels).reshape(len(self.channels), self.length)), self.offset, self.rate,
                self.labels)


def combine(op, a, b):
    f, pivot, label = OPS[op]
    start = min(a.offset, b.offset)
    stop = max(a.offset + a.length, b.offset + b.length)
    count = max(len(a.channels), len(b.channels))
    rows = []
    for c in range(count):
        row = []
        for t in range(start, stop):
            x, y = a.at(c, t), b.at(c, t)
            if x is not None and y is not None:
                v = f(numpy.float64(x), numpy.float64(y))
            elif x is not None:
                v = x
            elif y is not None:
                v = y if pivot is None else f(numpy.float64(pivot), numpy.float64(y))
            else:
                v = 0.0
            row.append(float(v))
        rows.append(row)
    return R(rows, start, a.rate, (label,) * count)


def build(spec):
    import sumpf
    channels, length, offset, tag = spec
    data = ref.symbolic(channels, length, tag)
    rate = 48000.0 if tag % 2 == 0 else 44100.0
    labels = ref.labels_for(channels, f"s{tag}")
    real = sumpf.Signal(channels=data.copy(), sampling_rate=rate, offset=offset, labels=labels)
    return real, R(data.tolist(), offset, rate, labels)


def compare(real, model, what):
    import sumpf
    expect(isinstance(real, sumpf.Signal), "{}: the result is no signal but {!r}", what, type(real))
    expect_equal(real.shape(), (len(model.channels), model.length), what + ": shape")
    expect_equal(real.length(), model.length, what + ": length")
    expect_equal(real.offset(), model.offset, what + ": offset")
    expect_equal(real.sampling_rate(), model.rate, what + ": sampling rate")
    expect_equal(real.labels(), model.labels, what + ": labels")
    ref.expect_array(real.channels(), numpy.array(model.channels).reshape(len(model.channels), model.length), what)


def run_program(ck, case):
    """case: {"program": [spec0, [op, spec1], [op, spec2]...]}: (spec0 op spec1) op spec2..."""
    program = case["program"]
    with numpy.errstate(all="ignore"):
        real, model = build(program[0])
        originals = [(real, model)]
        for op, spec, *side in program[1:]:
            real2, model2 = build(spec)
            originals.append((real2, model2))
            if side and side[0] == "right":
                real, model = apply(op, real2, real), combine(op, model2, model)
            else:
                real, model = apply(op, real, real2), combine(op, model, model2)
            ck.transition()
            ck.state(model.key())
            compare(real, model, f"result of {op}")
        for r, m in originals:
            compare(r, m, "operand after the operation")
        # unary operators
        m = R([[-v for v in row] for row in model.channels], model.offset, model.rate, model.labels)
        compare(-real, m, "negation")
        m = R([[abs(v) for v in row] for row in model.channels], model.offset, model.rate, model.labels)
        compare(abs(real), m, "absolute")


NUMPY_NUMBERS = {"numpy.float64": numpy.float64(2.5), "numpy.int64": numpy.int64(3)}


def run_other(ck, case):
    """A signal combined with a number, a vector or a matrix."""
    spec, op, kind, side = case["signal"], case["op"], case["kind"], case["side"]
    real, model = build(spec)
    channels, length = spec[0], spec[1]
    if kind == "int":
        other = 3
        grid = numpy.full((channels, length), 3.0)
    elif kind == "float":
        other = -1.75
        grid = numpy.full((channels, length), -1.75)
    elif kind in NUMPY_NUMBERS:
        other = NUMPY_NUMBERS[kind]
        grid = numpy.full((channels, length), float(other))
    elif kind in ("list", "tuple", "array"):
        vector = ref.symbolic(1, length, 9)[0]
        other = {"list": vector.tolist(), "tuple": tuple(vector.tolist()), "array": vector}[kind]
        grid = numpy.array([vector] * channels).reshape(channels, length)
    elif kind == "matrix":
        grid = ref.symbolic(channels, length, 8)
        other = grid.copy()
    else:
        column = ref.symbolic(channels, 1, 7)
        other = column.tolist()
        grid = numpy.repeat(column, length, axis=1)
    f = OPS[op][0]
    with numpy.errstate(all="ignore"):
        if side == "left":
            result = apply(op, real, other)
            rows = [[float(f(numpy.float64(x), numpy.float64(y))) for x, y in zip(r, g)] for r, g in zip(model.channels, grid)]
        else:
            result = apply(op, other, real)
            rows = [[float(f(numpy.float64(y), numpy.float64(x))) for x, y in zip(r, g)] for r, g in zip(model.channels, grid)]
        expected = R(rows, model.offset, model.rate, model.labels)
        ck.transition()
        ck.state((op, kind, side) + expected.key())
        compare(result, expected, f"{side} {op} with {kind}")
        compare(real, model, "operand after the operation")


def pool(thorough):
    lengths = range(0, 5) if thorough else range(0, 4)
    offsets = range(-3, 6) if thorough else range(-2, 4)
    return [(c, l, o) for c in (1, 2, 3) for l in lengths for o in offsets]


SMALL = [(1, 2, 0), (2, 3, -1), (2, 2, 1), (1, 3, 4), (3, 1, -2), (2, 3, 0)]
SMALLER = [(1, 2, 0), (2, 3, -1), (1, 3, 4)]


def shard(ck, first):
    for second in pool(ck.thorough):
        for op in OPS:
            case = {"program": [[*first, 1], [op, [*second, 2]]]}
            ck.run(case, lambda: run_program(ck, case))
    if ck.samples == []:
        ck.sample(case)


def programs(ck, first):
    for s2 in SMALL:
        for s3 in SMALL:
            for op1 in OPS:
                for op2 in OPS:
                    for side in ("left", "right"):
                        case = {"program": [[*first, 1], [op1, [*s2, 2]], [op2, [*s3, 4], side]]}
                        ck.run(case, lambda: run_program(ck, case))
    if ck.thorough:
        ops = ("+", "-", "/", "*")
        for s2 in SMALL:
            for s3 in SMALLER:
                for s4 in SMALLER:
                    for op1 in ops:
                        for op2 in ops:
                            for op3 in ops:
                                case = {"program": [[*first, 1], [op1, [*s2, 2]], [op2, [*s3, 4], "right"], [op3, [*s4, 3]]]}
                                ck.run(case, lambda: run_program(ck, case))
    ck.sample(case)


def others(ck, _):
    for s in [(c, l, o) for c in (1, 2, 3) for l in (0, 1, 3) for o in (-2, 0, 3)]:
        for op in OPS:
            for kind in ("int", "float", "list", "tuple", "array", "matrix", "column"):
                for side in ("left", "right"):
                    if side == "right" and kind in ("array", "matrix", "column"):
                        continue    # numpy takes control of these expressions
                    case = {"signal": [*s, 1], "op": op, "kind": kind, "side": side}
                    ck.run(case, lambda: run_other(ck, case))
    ck.sample(case)


def large(ck, size):
    """long signals, many channels and special values"""
    cases = []
    if size == "channels":
        for a in (1, 2, *ref.MANY_CHANNELS):
            for b in (1, a, a + 1, 3):
                for length, offset in ((3, 0), (3, 2), (2, -1), (70, 1)):
                    cases += [[[a, 3, 0, 1], [op, [b, length, offset, 2], side]] for op in OPS for side in ("left", "right")]
    elif size == "special":
        k = len(ref.SPECIAL)
        for a, b in ((1, 1), (2, 1), (1, 2), (3, 3), (2, 3)):
            for length, offset in ((k * k, 0), (k * k, k), (k * k - 1, -1), (2, -3), (k, k * k - 5)):
                cases += [[[a, k * k, 0, first], [op, [b, length, offset, second], side]] for op in OPS for side in ("left", "right")
                          for first, second in ((ref.FIRST_SPECIAL, ref.SECOND_SPECIAL), (ref.SECOND_SPECIAL, ref.FIRST_SPECIAL), (1, ref.FIRST_SPECIAL), (ref.FIRST_SPECIAL, 1))]
    else:
        patterns = [([1, size, 0], [1, size, 0]), ([2, size, 3], [1, size, 3]), ([2, size, 3], [1, size + 1, 3 + size // 2]), ([1, size, 0], [2, 3, size - 2]),
                    ([1, size, -size], [2, 3, size])]
        for i, (a, b) in enumerate(patterns):
            ops = list(OPS) if size < 2000 else [list(OPS)[(size + i) % 6]] if size < 10000 else [list(OPS)[(size + i) % 6]] if i in (0, 2) else []
            cases += [[[*a, 1], [op, [*b, 2], side]] for op in ops for side in (("left", "right") if size < 2000 else ("left",))]
    for program in cases:
        case = {"program": program}
        ck.run(case, lambda: run_program(ck, case))
    ck.sample(case)


def _dispatch(ck, job):
    kind, spec = job
    {"pair": shard, "program": programs, "other": others, "large": large}[kind](ck, spec)


def explore(ck):
    jobs = [("pair", s) for s in pool(ck.thorough)] + [("program", s) for s in SMALL] + [("other", None)]
    jobs += [("large", n) for n in (*ref.LARGE_SIZES[::1 if ck.thorough else 3], *reversed(ref.SIZES), "channels", "special")]
    ck.parallel(_dispatch, jobs)


def replay(ck, case):
    ck.run(case, lambda: run_program(ck, case) if "program" in case else run_other(ck, case))
