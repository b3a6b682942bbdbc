"""C17: the algebra of filters: every composition is computed point by point."""

import itertools
import math
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "terms: all operators (+ - * / abs neg ~) and all factories (Sum, Difference, Product, Quotient, Absolute, Negative, with and without transform, sums and products of three) "
                   "on all pairs of 16 primitives (constants 0, 1, -1, real and complex, polynomials and exponentials with and without transform, bands), all operators between the "
                   "results of these with 7 primitives and another primitive on either side, sums and products of three combined with all operators and with each other; sampled at 9 frequencies including 0 Hz as array, list and scalars and as spectrum; "
                   "filters: all operators between filters with 1-3 channels and with numbers on both sides, all ordered pairs of 40 terms as channels, indexing, application to "
                   "signals, spectrums and spectrograms with 1-3 channels; sums and products of many terms, long lists of frequencies and many channels",
          "thorough": "additionally the results with all 16 primitives on one side, and the operators between all pairs of results with 4 primitives"}
ASSUMPTIONS = ["the value at 0 Hz of a term, that is transformed twice, and of transformed sums, differences and products is not specified",
               "operators on bands terms with the same supporting points are exact at the supporting points (documented)"]
GRID = numpy.array([0.0, 0.03, 0.5, 1.0, 2.5, 10.0, 20.0, 33.0, 100.0])
EPS = 1e-12


class Value:
    """The values of a term at the frequencies, with a bound for the rounding error and a mask, where they are specified."""

    def __init__(self, value, error, mask):
        self.value = numpy.asarray(value, dtype=complex)
        self.mask = mask & numpy.isfinite(self.value) & numpy.isfinite(error)
        self.error = numpy.asarray(error) + EPS * numpy.abs(self.value)


class Node:
    """A description of a term, from which it can be created and evaluated."""

    def __init__(self, name, create, evaluate, points=None, kind=None):
        self.name = name
        self.create = create
        self.evaluate = evaluate    # function(s, f, inverted) -> Value
        self.kind = kind            # "constant", "highpass" (a transformed polynomial, that might be combined with constants), or None
        self.points = points        # the supporting points, if this might be a bands term, otherwise None


def polynomial(name, coefficients, transform=False, wrap=list):
    def evaluate(f, inverted):
        inverted ^= transform
        with numpy.errstate(all="ignore"):
            s = 2j * math.pi * f
            s = 1.0 / s if inverted else s
            n = len(coefficients)
            value = sum(c * s ** (n - 1 - i) for i, c in enumerate(coefficients))
            size = sum(abs(c * s ** (n - 1 - i)) for i, c in enumerate(coefficients))
        mask = numpy.ones(len(f), dtype=bool)
        if inverted and any(coefficients[:-1]):
            value[f == 0.0] = 0.0
            size[f == 0.0] = 0.0
        return Value(value, EPS * size, mask)
    return Node(name, lambda F: F.Polynomial(wrap(coefficients), transform=transform), evaluate,
                kind="constant" if not any(coefficients[:-1]) else "highpass" if transform else None)


def constant(name, value):
    return Node(name, lambda F: F.Constant(value), lambda f, inverted: Value(numpy.full(len(f), value), numpy.zeros(len(f)), numpy.ones(len(f), dtype=bool)),
                kind="constant")


def exponential(name, coefficient, transform=False):
    def evaluate(f, inverted):
        inverted ^= transform
        with numpy.errstate(all="ignore"):
            s = 2j * math.pi * f
            s = 1.0 / s if inverted else s
            value = numpy.exp(coefficient * s)
            size = numpy.abs(coefficient * s) * numpy.abs(value)
        if inverted:
            value[f == 0.0] = 0.0
            size[f == 0.0] = 0.0
        return Value(value, EPS * size, numpy.ones(len(f), dtype=bool))
    return Node(name, lambda F: F.Exp(coefficient, transform=transform), evaluate)


def bands(name, points):
    xs, ys = list(points), list(points.values())

    def create(F):
        import sumpf
        return F.Bands(xs=xs, ys=ys, interpolation=sumpf.Bands.interpolations.LINEAR, extrapolation=sumpf.Bands.interpolations.STAIRS_LIN)

    def evaluate(f, inverted):      # pylint: disable=unused-argument; bands are not transformed
        values = numpy.interp(f, xs, numpy.real(ys)) + 1j * numpy.interp(f, xs, numpy.imag(ys))
        return Value(values, EPS * numpy.full(len(f), max(abs(y) for y in ys)), numpy.ones(len(f), dtype=bool))
    return Node(name, create, evaluate, points=tuple(xs))


def primitives():
    return [constant("c2", 2.0), polynomial("p", [0.25, 1.0]), polynomial("pT", [0.5, 2.0], True), bands("b", {1.0: 2.0, 10.0: -4.0, 33.0: 1.0}),
            exponential("e", -0.01), polynomial("q", [0.001, 0.0, -3.0]), constant("cc", 0.5 - 2.0j),
            # the first seven are combined more often
            constant("c0", 0.0), constant("c1", 1), constant("cm", -1.0), polynomial("qT", [3.0, 0.5, 0.25], True, numpy.array), polynomial("z", [0.0, 0.0, 0.125, -1.0]),
            polynomial("k", [0.0, 5.0], True), exponential("eT", -0.2, True), exponential("ec", 0.02 - 0.001j), bands("d", {0.5: 1.0 + 2.0j, 10.0: 3.0 - 1.0j, 20.0: -1.0j})]


def restrict(mask, f, *nodes):
    """The unary and binary operators between bands terms are only exact at their supporting points."""
    for n in nodes:
        if n.points is not None:
            mask = mask & numpy.isin(f, n.points)
    return mask


def op_add(a, b):
    return a.value + b.value, a.error + b.error


def op_sub(a, b):
    return a.value - b.value, a.error + b.error


def op_mul(a, b):
    return a.value * b.value, numpy.abs(a.value) * b.error + numpy.abs(b.value) * a.error + a.error * b.error


def op_div(a, b):
    with numpy.errstate(all="ignore"):
        value = a.value / b.value
        error = numpy.where(b.error * 10 < numpy.abs(b.value), (a.error + 2 * numpy.abs(value) * b.error) / numpy.abs(b.value), numpy.nan)
    return value, error


BINARY = {"+": (op_add, lambda x, y: x + y, "Sum"), "-": (op_sub, lambda x, y: x - y, "Difference"),
          "*": (op_mul, lambda x, y: x * y, "Product"), "/": (op_div, lambda x, y: x / y, "Quotient")}
ONE = lambda f: Value(numpy.ones(len(f)), numpy.zeros(len(f)), numpy.ones(len(f), dtype=bool))    # noqa
UNARY = {"abs": (lambda a, f: (numpy.abs(a.value), a.error), abs, "Absolute"), "neg": (lambda a, f: (-a.value, a.error), lambda x: -x, "Negative"),
         "inv": (lambda a, f: op_div(ONE(f), a), lambda x: ~x, None)}


def combined(nodes):
    """A highpass polynomial with constants is a highpass polynomial again, the value of which at 0 Hz is replaced by 0."""
    kinds = {n.kind for n in nodes}
    return "constant" if kinds == {"constant"} else "highpass" if kinds <= {"constant", "highpass"} else None


def binary(op, a, b, mode):
    """mode: "operator", "factory" or "transform" """
    reference, operator, cls = BINARY[op]
    transform = mode == "transform"

    def create(F):
        x, y = a.create(F), b.create(F)
        if mode == "operator":
            return operator(x, y)
        factory = getattr(F, cls)
        return factory((x, y), transform=transform) if op in "+*" else factory(x, y, transform=transform)

    def evaluate(f, inverted):
        u, v = a.evaluate(f, inverted ^ transform), b.evaluate(f, inverted ^ transform)
        mask = u.mask & v.mask
        value, error = reference(u, v)
        if a.points is not None and b.points is not None and op in "*/":
            mask = restrict(mask, f, a, b)
        if transform or inverted or kind in ("highpass", "merged"):
            mask = mask & (f != 0.0)
        return Value(value, error, mask)

    kind = "constant" if op == "/" and a.name == b.name else combined((a, b))
    if kind is None and op in "+-":     # a highpass polynomial in a sum might be merged with a constant
        kinds = {a.kind, b.kind}
        if kinds & {"highpass", "sum", "merged"}:
            kind = "merged" if "merged" in kinds or "constant" in kinds else "sum"
    points = a.points if a.points is not None and a.points == b.points else None
    symbol = op if mode == "operator" else BINARY[op][2] + ("T" if transform else "")
    return Node(f"({a.name}{symbol}{b.name})" if mode == "operator" else f"{symbol}({a.name},{b.name})", create, evaluate, points, kind)


def unary(op, a, mode="operator"):
    reference, operator, cls = UNARY[op]
    transform = mode == "transform"

    def create(F):
        if mode == "operator":
            return operator(a.create(F))
        return getattr(F, cls)(a.create(F), transform=transform)

    def evaluate(f, inverted):
        u = a.evaluate(f, inverted ^ transform)
        value, error = reference(u, f)
        mask = u.mask
        if op != "neg":
            mask = restrict(mask, f, a)
        if transform or inverted:
            mask = mask & (f != 0.0)
        return Value(value, error, mask)

    return Node(f"{op}{'' if mode == 'operator' else 'F' + mode[0].upper()}({a.name})", create, evaluate, a.points, a.kind)


def triple(op, nodes, transform):
    reference, _, cls = BINARY[op]

    def evaluate(f, inverted):
        values = [n.evaluate(f, inverted ^ transform) for n in nodes]
        result = values[0]
        for v in values[1:]:
            result = Value(*reference(result, v), result.mask & v.mask)
        mask = result.mask & (f != 0.0) if transform or inverted or kind == "highpass" else result.mask
        return Value(result.value, result.error, mask)

    kind = combined(nodes)

    return Node(f"{cls}{'T' if transform else ''}({','.join(n.name for n in nodes)})",
                lambda F: getattr(F, cls)([n.create(F) for n in nodes], transform=transform), evaluate, kind=kind)


def zero(node):
    return node.name in ("c0", "neg(c0)", "abs(c0)")


def level1(pool):
    for a in pool:
        for op in UNARY:
            if op == "inv" and zero(a):
                continue
            yield unary(op, a)
            if op != "inv":
                yield unary(op, a, "factory")
                yield unary(op, a, "transform")
        for b in pool:
            for op in BINARY:
                if op == "/" and zero(b):
                    continue
                for mode in ("operator", "factory", "transform"):
                    yield binary(op, a, b, mode)


def level2(results, pool, modes):
    for r in results:
        for op in UNARY:
            yield unary(op, r)
            for mode in modes:
                if op != "inv" and mode != "operator":
                    yield unary(op, r, mode)
        for p in pool:
            for op in BINARY:
                for mode in modes:
                    if not (op == "/" and zero(p)):
                        yield binary(op, r, p, mode)
                    yield binary(op, p, r, mode)


def compare(got, wanted, what):
    got = numpy.asarray(got)
    expect_equal(got.shape, wanted.value.shape, what + ": shape")
    wrong = wanted.mask & ~(numpy.abs(got - wanted.value) <= 10 * wanted.error)
    if wrong.any():
        raise Mismatch(f"{what}: got {got[wrong]} instead of {wanted.value[wrong]} at {numpy.nonzero(wrong)[0]}")


def check_term(ck, case, node, full):
    import sumpf
    try:
        tf = node.create(sumpf.Filter)
    except ZeroDivisionError:       # a constant divided by a constant 0
        ck.outcome("division by the constant zero")
        return
    wanted = node.evaluate(GRID, False)
    f = sumpf.Filter(transfer_functions=(tf,), labels=("x",))
    got, = f(GRID)
    compare(got, wanted, "sampled at an array")
    ck.outcome(f"{int(wanted.mask.sum())} specified values")
    if full:
        compare(f(list(GRID))[0], wanted, "sampled at a list")
        compare([f(x)[0] for x in GRID], wanted, "sampled at scalars")
        compare([f(float(x))[0] for x in GRID], wanted, "sampled at floats")
        compare(f(GRID[::-1])[0][::-1], wanted, "sampled in reverse order")
        integers = numpy.array([10, 0, 1, 100])
        compare(f(integers)[0], node.evaluate(integers.astype(float), False), "sampled at integers")
        s = f.spectrum(resolution=2.5, length=5)
        compare(s.channels()[0], node.evaluate(numpy.arange(5) * 2.5, False), "spectrum")
        expect(s.resolution() == 2.5 and s.labels() == ("x",), "spectrum: resolution or labels")
        compare(f(GRID)[0], wanted, "sampled again")


def terms(ck, spec):
    kind, shard, count = spec
    pool = primitives()
    if kind == "level1":
        nodes = itertools.chain(pool, level1(pool), (triple(op, n, t) for op in "+*" for n in itertools.product(pool[:9], repeat=3) for t in (False, True)))
    elif kind == "level2":
        nodes = level2(level1(pool[:7]), pool if ck.thorough else pool[1:5], ("operator", "transform", "factory") if ck.thorough else ("operator",))
    elif kind == "triples":
        few = pool[:5] if ck.thorough else pool[:3]
        results = [triple(op, n, t) for op in "+*" for n in itertools.product(few, repeat=3) for t in (False, True)]
        others = few + [pool[6], pool[10]] + [binary(op, few[1], few[2], mode) for op in BINARY for mode in ("operator", "transform")]
        others += [triple(op, n, t) for op in "+*" for n in ((few[0], few[1], few[2]), (few[2], few[2], few[1])) for t in (False, True)]
        pairs = [(r, o) for r in results for o in others] + [(o, r) for r in results for o in others]
        nodes = itertools.chain((unary(op, r, mode) for r in results for op in UNARY for mode in ("operator", "factory", "transform") if op != "inv" or mode == "operator"),
                                (binary(op, a, b, mode) for a, b in pairs for op in BINARY for mode in ("operator", "transform")),
                                (triple(op, (a, b, few[1]), t) for a, b in pairs for op in "+*" for t in (False, True)))
    else:
        small = [pool[0], pool[1], pool[2], pool[4]]
        results = list(level1(small))
        nodes = (binary(op, a, b, "operator") for a in results for b in results for op in BINARY)
    with numpy.errstate(all="ignore"):
        for node in itertools.islice(nodes, shard, None, count):
            case = {"kind": kind, "term": node.name}
            ck.state(node.name)
            ck.transition()
            ck.run(case, lambda: check_term(ck, case, node, kind == "level1"))
            ck.sample(case, limit=1)


# filters


def channel_terms():
    pool = primitives()
    few = [pool[1], pool[2], pool[3], pool[0]]
    result = list(pool)
    for a, b in ((few[0], few[1]), (few[1], few[2]), (few[3], few[1]), (few[0], few[2])):
        for op in BINARY:
            result.append(binary(op, a, b, "operator"))
            if op in "+/":
                result.append(binary(op, a, b, "transform"))
    return result


def channels(ck, shard):
    """The channels of a filter do not affect each other."""
    import sumpf
    everything = channel_terms()
    a = everything[shard]
    for b in everything:
        def run():
            f = sumpf.Filter(transfer_functions=(a.create(sumpf.Filter), b.create(sumpf.Filter)), labels=("x", "y"))
            for got, n in zip(f(GRID), (a, b)):
                compare(got, n.evaluate(GRID, False), f"channel {n.name}")
            s = f.spectrum(resolution=0.5, length=7)
            for got, n in zip(s.channels(), (a, b)):
                compare(got, n.evaluate(numpy.arange(7) * 0.5, False), f"channel {n.name} of the spectrum")
            expect_equal(tuple(s.labels()), ("x", "y"), "labels of the spectrum")
            ck.outcome("channels")

        ck.state(("channels", a.name, b.name))
        ck.transition()
        with numpy.errstate(all="ignore"):
            ck.run({"kind": "channels", "terms": (a.name, b.name)}, run)


NUMBERS = [0, 1, -1, 2.5, 1.0, 0.0, 1 - 2j, 1 + 0j, 1j, -1j, True, numpy.float64(0.5), numpy.complex128(2j)]


def broadcast(ck, shard):
    import sumpf
    pool = primitives()
    triples = [(pool[1], pool[2], pool[4]), (pool[3], pool[6], pool[5])]
    labels = ("u", "v", "w")
    make = lambda nodes: sumpf.Filter(transfer_functions=tuple(n.create(sumpf.Filter) for n in nodes), labels=labels[:len(nodes)])   # noqa

    def same(f, nodes, what):
        expect_equal(len(f), len(nodes), what + ": channels")
        expect_equal(len(f.labels()), len(nodes), what + ": labels")
        for got, n in zip(f(GRID), nodes):
            compare(got, n.evaluate(GRID, False), what)

    with numpy.errstate(all="ignore"):
        for m, n in itertools.product((1, 2, 3), repeat=2):
            for A, B in itertools.product(triples, repeat=2):
                A, B = A[:m], B[::-1][:n]
                for op in BINARY:
                    case = {"kind": "broadcast", "operator": op, "terms": [[x.name for x in A], [x.name for x in B]]}
                    ck.state(("broadcast", repr(case)))
                    ck.transition()

                    def run():
                        f, g = make(A), make(B)
                        if m != n and 1 not in (m, n):
                            try:
                                BINARY[op][1](f, g)
                            except ValueError:
                                ck.outcome("refused")
                                return
                            raise Mismatch("filters with incompatible channels have been combined")
                        count = max(m, n)
                        same(BINARY[op][1](f, g), [binary(op, A[i % m], B[i % n], "operator") for i in range(count)], "result")
                        same(f, A, "first operand")
                        same(g, B, "second operand")
                        ck.outcome("broadcast")

                    ck.run(case, run)
        for A in triples:
            for m in (1, 2, 3):
                nodes = A[:m]
                for number in NUMBERS:
                    c = constant("n", complex(number))
                    for op, reverse in itertools.product(BINARY, (False, True)):
                        if op == "/" and not reverse and number == 0:
                            continue
                        case = {"kind": "number", "operator": op, "number": repr(number), "reverse": reverse, "terms": [x.name for x in nodes]}
                        ck.state(("number", repr(case)))
                        ck.transition()

                        def run():
                            f = make(nodes)
                            g = BINARY[op][1](number, f) if reverse else BINARY[op][1](f, number)
                            same(g, [binary(op, c, x, "operator") if reverse else binary(op, x, c, "operator") for x in nodes], "result")
                            same(f, nodes, "operand")
                            expect_equal(tuple(g.labels()), labels[:m], "labels")
                            ck.outcome("number")

                        ck.run(case, run)
                for op in UNARY:
                    def run():
                        f = make(nodes)
                        g = UNARY[op][1](f)
                        same(g, [unary(op, x) for x in nodes], "result")
                        expect_equal(tuple(g.labels()), labels[:m], "labels")
                        same(f, nodes, "operand")
                        ck.outcome("unary")

                    ck.transition()
                    ck.run({"kind": "unary", "operator": op, "terms": [x.name for x in nodes]}, run)
                keys = [(k, slice(k, k + 1 if k != -1 else None)) for k in range(-m, m)]
                keys += [(slice(i, j, k), slice(i, j, k)) for i in (None, 0, 1, -1, -2) for j in (None, 0, 1, 2, -1) for k in (None, 1, 2)]
                keys += [(slice(0.0, 0.5), slice(0, int(round(0.5 * m)))), (0.0, slice(0, 1)), (slice(1.0, None), slice(m, None))]
                for key, reference in keys:
                    chosen, names = nodes[reference], labels[:m][reference]

                    def run():
                        g = make(nodes)[key]
                        same(g, chosen, "selected")
                        expect_equal(tuple(g.labels()), names, "labels")
                        ck.outcome("indexing")

                    ck.state(("key", m, repr(key)))
                    ck.transition()
                    ck.run({"kind": "index", "key": repr(key), "channels": m}, run)


def apply(ck, shard):
    """Filters are applied to data sets by multiplying with the sampled transfer function."""
    import sumpf
    pool = primitives()
    sets = [(pool[1], pool[2], pool[4]), (pool[3], pool[6], pool[13]), (binary("+", pool[1], pool[2], "operator"), binary("/", pool[2], pool[4], "operator"), pool[5])]
    rng = numpy.random.RandomState(1)
    with numpy.errstate(all="ignore"):
        for nodes, m, c, n in itertools.product(sets, (1, 2, 3), (1, 2, 3), (1, 2, 3, 4, 5, 8)):
            nodes = nodes[:m]
            f = sumpf.Filter(transfer_functions=tuple(x.create(sumpf.Filter) for x in nodes), labels=("u", "v", "w")[:m])
            compatible = m == c or 1 in (m, c)
            count = max(m, c)
            X = rng.standard_normal((c, n)) + 1j * rng.standard_normal((c, n))
            H = [x.evaluate(numpy.arange(n) * 4.0, False) for x in nodes]
            data = {"spectrum": sumpf.Spectrum(channels=X, resolution=4.0, labels=("a", "b", "c")[:c]),
                    "spectrogram": sumpf.Spectrogram(channels=numpy.stack([X, 2.0 * X, X.conjugate()], axis=-1), resolution=4.0, sampling_rate=3.0, offset=5, labels=("a", "b", "c")[:c])}
            for kind, x in data.items():
                for reverse in (False, True):
                    case = {"kind": "apply", "data": kind, "terms": [t.name for t in nodes], "channels": c, "length": n, "reverse": reverse}
                    ck.state(("apply", repr(case)))
                    ck.transition()

                    def run():
                        if not compatible:
                            # the channels, that exist in both operands, are multiplied
                            ck.outcome("incompatible channels")
                            return
                        y = x * f if reverse else f * x
                        expect_equal(type(y), type(x), "type")
                        expect_equal(y.resolution(), 4.0, "resolution")
                        expect_equal(len(y), count, "channels")
                        for i in range(count):
                            h = H[i % m]
                            if kind == "spectrum":
                                compare(y.channels()[i], Value(*op_mul(h, Value(X[i % c], EPS * numpy.ones(n), h.mask)), h.mask), "product")
                            else:
                                for k in range(3):
                                    column = x.channels()[i % c, :, k]
                                    compare(y.channels()[i, :, k], Value(*op_mul(h, Value(column, EPS * numpy.ones(n), h.mask)), h.mask), "product")
                        if kind == "spectrogram":
                            expect_equal((y.sampling_rate(), y.offset()), (3.0, 5), "time axis")
                        ck.outcome("applied to " + kind)

                    ck.run(case, run)
            if n % 2 == 0 and compatible:
                x = rng.standard_normal((c, n))
                for offset, reverse in itertools.product((0, 1, -3, 9), (False, True)):
                    case = {"kind": "apply", "data": "signal", "terms": [t.name for t in nodes], "channels": c, "length": n, "offset": offset, "reverse": reverse}
                    ck.state(("apply", repr(case)))
                    ck.transition()

                    def run():
                        rate = 40.0
                        signal = sumpf.Signal(channels=x, sampling_rate=rate, offset=offset, labels=("a", "b", "c")[:c])
                        y = signal * f if reverse else f * signal
                        expect(isinstance(y, sumpf.Signal), "no signal")
                        expect_equal(y.sampling_rate(), rate, "sampling rate")
                        expect_equal(y.shape(), (count, n), "shape")
                        frequencies = numpy.arange(n // 2 + 1) * rate / n
                        for i in range(count):
                            h = nodes[i % m].evaluate(frequencies, False)
                            if not h.mask.all():
                                raise AssertionError("unspecified values")
                            t = numpy.arange(n) + offset
                            spectrum = numpy.array([numpy.sum(x[i % c] * numpy.exp(-2j * math.pi * k * t / n)) for k in range(n // 2 + 1)]) * h.value
                            t = numpy.arange(n) + y.offset()
                            z = spectrum[0].real + 0.0 * t
                            for k in range(1, n // 2):
                                z = z + 2.0 * (spectrum[k] * numpy.exp(2j * math.pi * k * t / n)).real
                            z = (z + spectrum[-1].real * numpy.cos(math.pi * t)) / n
                            ref.expect_array(y.channels()[i], z, "filtered signal", rtol=1e-9, atol=1e-9 * (1 + numpy.abs(spectrum).max()))
                        ck.outcome("applied to signal")

                    ck.run(case, run)


def large_terms():
    """terms with many coefficients or operands"""
    pool = primitives()
    result = [polynomial(f"poly{n}{'T' if t else ''}", [(-1) ** i * (0.3 + i) * 10.0 ** -(2 * abs(n - i - 1)) for i in range(n)], t) for n in range(2, 14) for t in (False, True)]
    few = [pool[1], pool[2], pool[4], pool[0], pool[6], pool[5]]
    for n in (4, 5, 8, 9, 12, 17):
        operands = [few[i % len(few)] for i in range(n)]
        result += [triple(op, operands, transform) for op in "+*" for transform in (False, True)]
        for op in BINARY:
            chain = few[0]
            for o in operands[1:]:
                chain = binary(op, chain, o, "operator")
            result.append(chain)
            chain = few[1]
            for i, o in enumerate(operands):
                chain = binary("+-*/"[(i + "+-*/".index(op)) % 4], *((chain, o) if i % 2 else (o, chain)), "operator")
            result.append(chain)
    result += [bands("many", {float(i * i + 1): (-1.0) ** i * (i + 1) for i in range(n)}) for n in (4, 9, 33, 100)]
    return result


def large(ck, shard):
    """many frequencies, many channels and terms with many operands"""
    import sumpf
    kind, n = shard
    with numpy.errstate(all="ignore"):
        if kind == "large terms":
            node = large_terms()[n]
            ck.state(("large", node.name))
            ck.transition()
            ck.run({"kind": kind, "n": n, "term": node.name}, lambda: check_term(ck, None, node, True))
        elif kind == "sizes":
            for node in channel_terms()[::3] + large_terms()[::9]:
                def run():
                    f = sumpf.Filter(transfer_functions=(node.create(sumpf.Filter), sumpf.Filter.Constant(2.0)))
                    s = f.spectrum(resolution=0.25, length=n)
                    grid = numpy.arange(n) * 0.25
                    expect_equal(s.shape(), (2, n), "shape of the spectrum")
                    compare(s.channels()[0], node.evaluate(grid, False), "large spectrum")
                    compare(f(grid)[0], node.evaluate(grid, False), "many frequencies")
                    compare(f(grid[::-1])[0], node.evaluate(grid[::-1], False), "many frequencies in reverse order")
                    ref.expect_array(s.channels()[1], numpy.full(n, 2.0), "constant channel")
                ck.state(("sizes", n, node.name))
                ck.transition()
                ck.run({"kind": kind, "n": n, "term": node.name}, run)
        else:
            pool = channel_terms()
            terms_ = [pool[(n + i) % len(pool)] for i in range(n)]
            other = channel_terms()[2]

            def run():
                f = sumpf.Filter(transfer_functions=tuple(t.create(sumpf.Filter) for t in terms_), labels=ref.labels_for(n))
                g = sumpf.Filter(transfer_functions=tuple(t.create(sumpf.Filter) for t in terms_[::-1]))
                single = sumpf.Filter(transfer_functions=(other.create(sumpf.Filter),))
                evaluated = [t.evaluate(GRID, False) for t in terms_]
                o = other.evaluate(GRID, False)
                for op in "+-":
                    function, operator, _ = BINARY[op]
                    for what, x, values in ((f"{op} with a filter of as many channels", operator(f, g), zip(evaluated, evaluated[::-1])),
                                            (f"{op} with a filter of one channel", operator(f, single), ((e, o) for e in evaluated)),
                                            (f"a filter of one channel {op}", operator(single, f), ((o, e) for e in evaluated))):
                        expect_equal(len(x), n, "channels of " + what)
                        for got, (a, b) in zip(x(GRID), values):
                            compare(got, Value(*function(a, b), a.mask & b.mask & (GRID > 0.0)), what)
                for i, (got, wanted) in enumerate(zip(f(GRID), evaluated)):
                    compare(got, wanted, f"channel {i}")
                    compare(f[i](GRID)[0], wanted, f"indexed channel {i}")
                    expect_equal(tuple(f[i].labels()), (f"ch{i}",), "label")
                for got, wanted in zip(f.spectrum(resolution=0.5, length=7).channels(), [t.evaluate(numpy.arange(7) * 0.5, False) for t in terms_]):
                    compare(got, wanted, "channel of the spectrum")
            ck.state(("many", n))
            ck.transition()
            ck.run({"kind": kind, "n": n}, run)


PARTS = {"large": large, "terms": terms, "channels": channels, "broadcast": broadcast, "apply": apply}


def part(ck, spec):
    PARTS[spec[0]](ck, spec[1])


def explore(ck):
    specs = [("terms", ("level1", i, 16)) for i in range(16)] + [("terms", ("level2", i, 32)) for i in range(32)] + [("terms", ("triples", i, 16)) for i in range(16)]
    if ck.thorough:
        specs += [("terms", ("pairs", i, 32)) for i in range(32)]
    specs += [("channels", i) for i in range(len(channel_terms()))] + [("broadcast", 0), ("apply", 0)]
    specs += [("large", ("large terms", i)) for i in range(len(large_terms()))] + [("large", ("many channels", n)) for n in ref.MANY_CHANNELS]
    specs += [("large", ("sizes", n)) for n in (0, 1, 2, 3, *ref.SIZES, 10000, 65537)]
    ck.parallel(part, specs)


def replay(ck, case):
    kind = case["kind"]
    if kind in ("level1", "level2", "pairs", "triples"):
        terms(ck, (kind, 0, 1))
    elif kind == "channels":
        for i in range(len(channel_terms())):
            channels(ck, i)
    elif kind == "apply":
        apply(ck, 0)
    elif kind in ("large terms", "sizes", "many channels"):
        large(ck, (kind, case["n"]))
    else:
        broadcast(ck, 0)
