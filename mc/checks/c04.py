"""C04: convolution and correlation in every mode are windows (or circular aliases) of the same sum on the time axis."""

import numpy
from mc import ref
from mc.ref import expect_equal

BOUNDS = {"quick": "channels 1-3 x 1-3, lengths 1..8 x 1..8, offsets {-2,0,3}^2 for lengths <=4 and one pair beyond, both operations, "
                   "all five modes, operand as signal/vector/matrix/scalar; chains of two convolutions; operands around the powers of two and with up to 130 channels",
          "thorough": "lengths 1..14 x 1..14, three offset pairs for all lengths"}
ASSUMPTIONS = ["rounding errors below 1e-9 relative to the largest result sample are accepted",
               "empty signals are rejected by numpy and are not specified"]
MODES = ("FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED")


def full(operation, a, b):
    """Direct evaluation of the defining sum; index 0 belongs to the earliest time."""
    la, lb = len(a), len(b)
    if la * lb > 1000:      # the same sum with one vector operation per sample of the shorter operand
        x, y = (a, b) if operation == "convolve" else (a[::-1], b)
        shorter, longer = (x, numpy.array(y)) if la < lb else (y, numpy.array(x))
        out = numpy.zeros(la + lb - 1)
        for i, v in enumerate(shorter):
            out[i:i + len(longer)] += v * longer
        return out.tolist()
    out = [0.0] * (la + lb - 1)
    for i in range(la):
        for j in range(lb):
            if operation == "convolve":
                out[i + j] += a[i] * b[j]
            else:       # sum over u of a(u) b(u + tau), tau = j - i, earliest tau = -(la - 1)
                out[j - i + la - 1] += a[i] * b[j]
    return out


def reference(operation, mode, a, b, oa, ob):
    """Returns (list of samples, offset)."""
    la, lb = len(a), len(b)
    f = full(operation, a, b)
    start = oa + ob if operation == "convolve" else ob - oa - la + 1
    small, large = min(la, lb), max(la, lb)
    if mode in ("FULL", "SPECTRUM_PADDED"):
        return f, start
    if mode == "SAME":
        s = (small - 1) // 2
        return f[s:s + large], start + s
    if mode == "VALID":
        return f[small - 1:small - 1 + large - small + 1], start + small - 1
    # circular: the period is the longer length (extended to an even number)
    period = large + large % 2
    out = []
    for i in range(large):
        v = 0.0
        for k in (-2, -1, 0, 1, 2):
            if 0 <= i + k * period < len(f):
                v += f[i + k * period]
        out.append(v)
    return out, start


def run_case(ck, case):
    import sumpf
    (ca, la, oa), (cb, lb, ob) = case["a"], case["b"]
    mode, operation, kind = case["mode"], case["op"], case["kind"]
    a, b = ref.symbolic(ca, la, 1), ref.symbolic(cb, lb, 2)
    sa = sumpf.Signal(channels=a.copy(), sampling_rate=48000.0, offset=oa, labels=ref.labels_for(ca, "a"))
    if kind == "signal":
        sb = sumpf.Signal(channels=b.copy(), sampling_rate=48000.0, offset=ob, labels=ref.labels_for(cb, "b"))
    else:
        ob = 0
        sb = {"vector": b[0].copy(), "tuple": tuple(b[0].tolist()), "matrix": b.copy()}[kind]
        if kind != "matrix":
            cb = 1
    flag = sumpf.Signal.convolution_modes[mode]
    result = getattr(sa, operation)(sb, flag) if mode != "SPECTRUM_PADDED" or case.get("explicit") else getattr(sa, operation)(sb)
    count = max(ca, cb) if 1 in (ca, cb) else min(ca, cb)
    rows = []
    for c in range(count):
        row, offset = reference(operation, mode, a[0 if ca == 1 else c], b[0 if cb == 1 else c], oa, ob)
        rows.append(row)
    ck.transition()
    ck.state((operation, ref.rounded(rows), offset))
    expect_equal(result.shape(), numpy.shape(rows), "shape")
    ref.expect_array(result.channels(), rows, "channels", atol=ref.scaled_atol(rows))
    expect_equal(result.offset(), offset, "offset")
    expect_equal(result.sampling_rate(), 48000.0, "sampling rate")
    if kind == "signal":
        expect_equal(result.labels(), ({"convolve": "Convolution", "correlate": "Correlation"}[operation],) * count, "labels")
    else:
        expect_equal(result.labels(), (ref.labels_for(ca, "a") + ("",) * count)[:count], "labels")
    ref.expect_array(sa.channels(), a, "first operand afterwards")
    ref.expect_array(sb.channels() if kind == "signal" else numpy.reshape(sb, (-1, lb)), b[:cb], "second operand afterwards")
    expect_equal(sa.offset(), oa, "first offset afterwards")
    return result


def run_scalar(ck, case):
    import sumpf
    ca, la, oa = case["a"]
    a = ref.symbolic(ca, la, 1)
    sa = sumpf.Signal(channels=a.copy(), offset=oa, labels=ref.labels_for(ca))
    result = getattr(sa, case["op"])(case["scalar"], sumpf.Signal.convolution_modes[case["mode"]])
    ck.transition()
    ck.state((case["op"], ref.rounded(result.channels()), oa))
    ref.expect_array(result.channels(), a * case["scalar"], "channels")
    expect_equal(result.offset(), oa, "offset")
    expect_equal(result.labels(), ref.labels_for(ca), "labels")


def run_chain(ck, case):
    """(a * b) * c == a * (b * c) and correlation as convolution on the time axis, in the linear modes."""
    import sumpf
    lengths, offsets, modes = case["lengths"], case["offsets"], [sumpf.Signal.convolution_modes[m] for m in case["modes"]]
    a, b, c = (sumpf.Signal(channels=ref.symbolic(1, n, i + 1), offset=o) for i, (n, o) in enumerate(zip(lengths, offsets)))
    left = a.convolve(b, modes[0]).convolve(c, modes[1])
    right = a.convolve(b.convolve(c, modes[1]), modes[0])
    swapped = c.convolve(a, modes[1]).convolve(b, modes[0])
    ck.transition(6)
    ck.state(("chain", ref.rounded(left.channels()), left.offset()))
    for other in (right, swapped):
        expect_equal(other.offset(), left.offset(), "offset of the chain")
        ref.expect_array(other.channels(), left.channels(), "associativity", atol=ref.scaled_atol(left.channels()))


def large(ck, lengths):
    la, lb = lengths
    channels = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([(1, c) for c in ref.MANY_CHANNELS] + [(c, 1) for c in ref.MANY_CHANNELS] + [(c, c) for c in ref.MANY_CHANNELS]
                                                           if max(la, lb) < 40 else [(9, 9)] if max(la, lb) < 300 else [])
    for ca, cb in channels:
        for operation in ("convolve", "correlate"):
            for mode in MODES:
                for kind in ("signal", "matrix"):
                    case = {"a": [ca, la, 3], "b": [cb, lb, -2], "mode": mode, "op": operation, "kind": kind, "explicit": True}
                    ck.run(case, lambda: run_case(ck, case))
    ck.sample(case)


LARGE = [(5, 3), (3, 5), (33, 2), (2, 33), (1, 200), (200, 1), (64, 64), (63, 65), (100, 7), (7, 100), (128, 33), (33, 129), (255, 256), (257, 255), (1000, 64), (65, 1025), (511, 513),
         (1024, 1024), (4096, 3), (5, 4097), (2049, 100), (1, 8193), (10000, 1)]


def shard(ck, job):
    kind, la = job
    if kind == "large":
        large(ck, la)
        return
    top = 15 if ck.thorough else 9
    if kind == "main":
        for lb in range(1, top):
            small = la <= 4 and lb <= 4
            if small:
                channels = [(ca, cb) for ca in (1, 2, 3) for cb in (1, 2, 3)]
                offsets = [(x, y) for x in (-2, 0, 3) for y in (-2, 0, 3)]
            else:
                channels = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]
                offsets = [(3, -2)] if not ck.thorough else [(3, -2), (0, 0), (-4, 1)]
            for ca, cb in channels:
                for oa, ob in offsets:
                    for operation in ("convolve", "correlate"):
                        for mode in MODES:
                            case = {"a": [ca, la, oa], "b": [cb, lb, ob], "mode": mode, "op": operation, "kind": "signal"}
                            ck.run(case, lambda: run_case(ck, case))
                for operation in ("convolve", "correlate"):
                    for mode in MODES:
                        for k in ("vector", "tuple", "matrix"):
                            if k != "matrix" and cb != 1:
                                continue
                            case = {"a": [ca, la, 2], "b": [cb, lb, 0], "mode": mode, "op": operation, "kind": k, "explicit": True}
                            ck.run(case, lambda: run_case(ck, case))
        for operation in ("convolve", "correlate"):
            for mode in MODES:
                for scalar in (2, -0.5):
                    case = {"a": [2, la, 1], "scalar": scalar, "mode": mode, "op": operation}
                    ck.run(case, lambda: run_scalar(ck, case))
    else:
        top = 7 if ck.thorough else 5
        for lb in range(1, top):
            for lc in range(1, top):
                for offsets in ((0, 0, 0), (2, -1, -3)):
                    for modes in (("FULL", "FULL"), ("FULL", "SPECTRUM_PADDED"), ("SPECTRUM_PADDED", "SPECTRUM_PADDED")):
                        case = {"lengths": [la, lb, lc], "offsets": list(offsets), "modes": list(modes)}
                        ck.run(case, lambda: run_chain(ck, case))
    ck.sample(case)


def explore(ck):
    ck.parallel(shard, [("large", n) for n in LARGE] + [("main", n) for n in range(1, 15 if ck.thorough else 9)] + [("chain", n) for n in range(1, 7 if ck.thorough else 5)])


def replay(ck, case):
    if "lengths" in case:
        ck.run(case, lambda: run_chain(ck, case))
    elif "scalar" in case:
        ck.run(case, lambda: run_scalar(ck, case))
    else:
        ck.run(case, lambda: run_case(ck, case))
