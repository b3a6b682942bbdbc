"""C03: shifting, padding, cropping and reversing put every sample where the documentation says.

Breadth-first search over histories of re-timing operations; model state = (samples with their
position, offset); the real object is carried along every edge and compared after each step.
"""

import numpy
from mc import ref
from mc.ref import expect_equal

BOUNDS = {"quick": "signals 1-2 x 0..4 (offset -1,0,2), spectrums 2 x 0..3, spectrograms 2x2x0..3; alphabet: shift by -L-2..L+2 and "
                   "None in all modes, pad to 0..L+2 with default/custom value, reverse, conjugate; all histories of length 2, "
                   "breadth-first with state merging; axes of 10 sampling rates x lengths 0..49 x 18 offsets; long data sets (sizes around the powers of two)",
          "thorough": "as quick, lengths up to 5, all histories of length 3"}


class M:
    def __init__(self, data, offset, labels):
        self.data, self.offset, self.labels = data, offset, labels

    def key(self):
        return (ref.rounded(self.data), self.offset)


def initial(spec):
    import sumpf
    kind, channels, length, offset = spec
    labels = ref.labels_for(channels)
    if kind == "signal":
        data = ref.symbolic(channels, length)
        return sumpf.Signal(channels=data.copy(), sampling_rate=50.0, offset=offset, labels=labels), M(data, offset, labels)
    if kind == "spectrum":
        data = ref.symbolic_complex(channels, length)
        return sumpf.Spectrum(channels=data.copy(), resolution=0.5, labels=labels), M(data, 0, labels)
    data = ref.symbolic_complex(channels * 2, length).reshape(channels, 2, length)
    return (sumpf.Spectrogram(channels=data.copy(), resolution=0.5, sampling_rate=50.0, offset=offset, labels=labels),
            M(data, offset, labels))


def alphabet(kind, length):
    ops = []
    if kind != "spectrum":
        ops.append(["shift", None, "OFFSET"])
        for k in range(-length - 2, length + 3):
            for mode in ("OFFSET", "CROP", "PAD", "CYCLE"):
                ops.append(["shift", k, mode])
        ops.append(["shift", 2, None])
    for n in range(0, length + 3):
        ops.append(["pad", n])
        ops.append(["pad", n, 1.5])
    if kind == "signal":
        ops.append(["reverse"])
    else:
        ops.append(["conjugate"])
        ops.append(["pad", length + 2, "complex"])
    return ops


def apply_real(real, op):
    import sumpf
    if op[0] == "shift":
        if op[2] is None:
            return real.shift(op[1])
        return real.shift(op[1], sumpf.Signal.shift_modes[op[2]])
    if op[0] == "pad":
        if len(op) == 2:
            return real.pad(op[1])
        return real.pad(op[1], value=(2.0 - 3.0j) if op[2] == "complex" else op[2])
    if op[0] == "reverse":
        return reversed(real)
    return real.conjugate()


def apply_model(m, op):
    data, n = m.data, m.data.shape[-1]
    sample = lambda i: data[..., i]
    zero = numpy.zeros(data.shape[:-1], dtype=data.dtype)

    def assemble(columns):
        if not columns:
            return numpy.zeros(data.shape[:-1] + (0,), dtype=data.dtype)
        return numpy.stack(columns, axis=-1)
    if op[0] == "shift":
        k, mode = op[1], op[2]
        if mode in (None, "OFFSET"):
            return M(data, 0 if k is None else m.offset + k, m.labels)
        if mode == "CROP":
            return M(assemble([sample(i - k) if 0 <= i - k < n else zero for i in range(n)]), m.offset, m.labels)
        if mode == "PAD":
            if k >= 0:
                columns = [zero] * k + [sample(i) for i in range(n)]
            else:
                columns = [sample(i) for i in range(n)] + [zero] * -k
            return M(assemble(columns), m.offset, m.labels)
        return M(assemble([sample((i - k) % n) for i in range(n)]), m.offset, m.labels)
    if op[0] == "pad":
        value = 0.0 if len(op) == 2 else (2.0 - 3.0j) if op[2] == "complex" else op[2]
        return M(assemble([sample(i) if i < n else zero + value for i in range(op[1])]), m.offset, m.labels)
    if op[0] == "reverse":
        return M(assemble([sample(n - 1 - i) for i in range(n)]), None, m.labels)
    return M(numpy.conj(data), m.offset, m.labels)


class ReversedOffset(ref.Mismatch):
    pass


def compare(ck, case, real, m, kind, before):
    expect_equal(type(real).__name__, kind.capitalize(), "type")
    expect_equal(real.shape(), m.data.shape, "shape")
    ref.expect_array(real.channels(), m.data, "channels")
    expect_equal(real.labels(), m.labels, "labels")
    if kind != "spectrum":
        if m.offset is None:    # reversed
            n = m.data.shape[-1]
            mirrored = 1 - n - before.offset
            if real.offset() != mirrored:
                expect_equal(real.offset(), n - 1 - before.offset, "offset of the reversed signal")
                ck.fail(case, f"reversed signal has offset {real.offset()} instead of {mirrored}", "reversed-offset-sign")
            m.offset = real.offset()
        expect_equal(real.offset(), m.offset, "offset")
        expect_equal(real.sampling_rate(), 50.0, "sampling rate")
        n = m.data.shape[-1]
        ref.expect_array(real.time_samples(), [(m.offset + i) / 50.0 for i in range(n)], "time samples")
    if kind != "signal":
        expect_equal(real.resolution(), 0.5, "resolution")
    if kind == "signal":
        expect_equal(real.duration(), m.data.shape[-1] / 50.0, "duration")
    elif kind == "spectrum":
        n = m.data.shape[-1]
        if n:
            ref.expect_array(real.frequency_samples(), [0.5 * i for i in range(n)], "frequency samples")
            ref.expect_array(real.maximum_frequency(), 0.5 * (n - 1), "maximum frequency")


def step(ck, case, real, m, op):
    before = ref.rounded(real.channels())
    offset_before = None if case["spec"][0] == "spectrum" else real.offset()
    new_real, new_m = apply_real(real, op), apply_model(m, op)
    ck.transition()
    if op[0] == "shift" and op[2] == "CYCLE" and abs(op[1]) > m.data.shape[-1] > 0 \
       and not ref.same_array(new_real.channels(), new_m.data) and ref.same_array(new_real.channels(), m.data):
        ck.fail(case, f"cyclic shift by {op[1]} does not move {m.data.shape[-1]} samples", "cyclic-shift-beyond-length")
        new_m.data = m.data
    compare(ck, case, new_real, new_m, case["spec"][0], m)
    if ref.rounded(real.channels()) != before or (offset_before is not None and real.offset() != offset_before):
        raise ref.Mismatch(f"{op} modified its operand")
    if op[0] == "reverse":
        again = reversed(new_real)
        expect_equal(again.offset(), m.offset, "offset after reversing twice")
        ref.expect_array(again.channels(), m.data, "channels after reversing twice")
    return new_real, new_m


def explore_spec(ck, spec):
    depth = 3 if ck.thorough else 2
    real, m = initial(spec)
    frontier = [([], real, m)]
    ck.state((spec[0], m.key()))
    for level in range(depth):
        following = []
        for ops, real, m in frontier:
            for op in alphabet(spec[0], m.data.shape[-1]):
                case = {"spec": list(spec), "ops": ops + [op]}
                result = ck.run(case, lambda: step(ck, case, real, m, op))
                if result is not None and ck.state((spec[0], result[1].key())) and level + 1 < depth:
                    following.append((ops + [op], *result))
        frontier = following
    ck.sample(case)


def specs(thorough):
    top = 6 if thorough else 5
    result = [("signal", c, n, o) for c in (1, 2) for n in range(0, top) for o in (-1, 0, 2)]
    result += [("spectrum", 2, n, 0) for n in range(0, top - 1)]
    result += [("spectrogram", 2, n, o) for n in range(0, top - 1) for o in (-1, 2)]
    return result


RATES = (1.0, 3.0, 10.0, 7.7, 0.1, 44100.0, 48000.0, 1 / 3, 11025 / 7, 44100)


def axis(ck, case):
    """The time and frequency axes for sampling rates, that are no exact binary numbers."""
    import sumpf
    kind, rate, length, offset = case["axis"]
    ck.transition()
    ck.state(("axis", kind, rate, length, offset))
    times = [(offset + i) / rate for i in range(length)]
    if kind == "signal":
        real = sumpf.Signal(channels=numpy.zeros((1, length)), sampling_rate=rate, offset=offset)
    else:
        real = sumpf.Spectrogram(channels=numpy.zeros((1, 4, length), dtype=numpy.complex128), sampling_rate=rate, resolution=rate / 7, offset=offset)
        ref.expect_array(real.frequency_samples(), [i * rate / 7 for i in range(4)], "frequency samples")
        ref.expect_array(real.maximum_frequency(), 3 * rate / 7, "maximum frequency")
    ref.expect_array(real.time_samples(), times, "time samples", atol=1e-12 * max(1.0, (abs(offset) + length) / rate))
    ref.expect_array(real.duration(), length / rate, "duration")


def large(ck, spec):
    """long data sets and many channels: one operation, followed by its opposite"""
    kind, channels, length, offset = spec
    distances = sorted({s * k for s in (1, -1) for k in (1, 2, 7, 8, 9, 63, 64, 65, length // 2, length - 1, length, length + 1)} - {0})
    ops = [["shift", k, mode] for k in distances for mode in ("OFFSET", "CROP", "PAD", "CYCLE") if kind != "spectrum"]
    ops += [["shift", k, "OFFSET"] for k in (None, 10 ** 6, -2 ** 31 - 1) if kind != "spectrum"]
    ops += [["pad", n, *value] for n in {0, 1, 64, length // 2, length - 1, length, length + 1, length + 65, 2 * length} for value in ((), (1.5,))]
    ops += [["reverse"]] if kind == "signal" else [["conjugate"]]
    real, m = initial(spec)
    for op in ops:
        case = {"spec": list(spec), "ops": [op]}
        result = ck.run(case, lambda: step(ck, case, real, m, op))
        if result is not None and op[0] == "shift" and op[1] is not None:
            case = {"spec": list(spec), "ops": [op, ["shift", -op[1], op[2]]]}
            ck.run(case, lambda: step(ck, case, *result, case["ops"][1]))
    ck.sample(case)


LARGE = [("signal", 2, 65, 3), ("signal", 1, 1025, -7), ("signal", 1, 4096, 100001), ("signal", 33, 9, 1), ("signal", 12, 64, 0), ("spectrum", 2, 65, 0), ("spectrum", 33, 9, 0),
         ("spectrum", 1, 1025, 0), ("spectrogram", 2, 65, 3), ("spectrogram", 1, 513, -70), ("spectrogram", 17, 9, 1)]


def explore_axes(ck, rate):
    for kind in ("signal", "spectrogram"):
        for length in range(120 if ck.thorough else 50):
            for offset in (*range(-7, 8), 100, 1000, -333):
                case = {"axis": [kind, rate, length, offset]}
                ck.run(case, lambda: axis(ck, case))


def job(ck, shard):
    if isinstance(shard, (int, float)):
        explore_axes(ck, shard)
    elif shard[0] == "large":
        large(ck, shard[1])
    else:
        explore_spec(ck, shard)


def explore(ck):
    ck.parallel(job, [*(("large", s) for s in LARGE), *specs(ck.thorough), *RATES])


def replay(ck, case):
    if "axis" in case:
        ck.run(case, lambda: axis(ck, case))
        return
    real, m = initial(case["spec"])
    for op in case["ops"]:
        result = ck.run(case, lambda: step(ck, case, real, m, op))
        if result is None:
            return
        real, m = result
