"""C02: slicing selects exactly the addressed channels/samples and keeps them at their point in time."""

import itertools
import numpy
from mc import ref
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "3x5 signals (offsets -3,0,4), 3x5 spectrums, 2x3x4 spectrograms, 3-channel filters; per axis all integer "
                   "keys, all start/stop in -n-2..n+2 or None, steps None/2/-1, float positions; every pair of keys for two "
                   "axes (reduced third axis), all 2-step slicing histories over a reduced alphabet; long data sets and many channels",
          "thorough": "as quick with longer axes (4x7, 3x4x6) and 3-step histories"}
ASSUMPTIONS = ["keys that numpy would reject (integer index out of range) and negative steps' effect on the offset are not specified"]


# keys are stored in cases as: int, float, or ["s", start, stop, step]

def decode(key):
    if isinstance(key, (list, tuple)):
        return slice(*key[1:])
    return key


def positions(key, n):
    """The list of selected positions on an axis of length n (reference semantics)."""
    if isinstance(key, bool):
        raise TypeError(key)
    if isinstance(key, int):
        return [key + n if key < 0 else key]
    if isinstance(key, float):
        return [int(round(key * (n - 1)))]
    start, stop, step = (_position(k, n) for k in key[1:3]), None, key[3]
    start, stop = tuple(start)
    step = 1 if step is None else step
    if step > 0:
        lo = 0 if start is None else min(max(start, 0), n)
        hi = n if stop is None else min(max(stop, 0), n)
        return list(range(lo, hi, step))
    lo = n - 1 if start is None else min(start, n - 1)
    hi = -1 if stop is None else max(stop, -1)
    return list(range(lo, hi, step))


def _position(k, n):
    if k is None:
        return None
    if isinstance(k, float):
        k = int(round(k * n))
    return k + n if k < 0 else k


def axis_keys(n, rich, steps=(None,)):
    ints = list(range(-n, n))
    floats = [0.0, 0.3, 0.5, 1.0]
    if rich:
        ends = [None, *range(-n - 2, n + 3), 0.0, 0.5, 1.0, -0.5, 0.3]
    else:
        ends = [None, -n - 1, -1, 0, 1, n, 0.5]
    slices = [["s", a, b, s] for a in ends for b in ends for s in steps]
    return ints + floats + slices


CHANNEL_KEYS = [0, -1, 1, 0.5, ["s", None, None, None], ["s", 1, None, None], ["s", None, -1, None], ["s", -2, None, None],
                ["s", None, None, 2], ["s", None, None, -1], ["s", 0.4, 1.0, None], ["s", -9, 2, None], ["s", 2, 1, None]]


def make(kind, thorough=False, shape=None):
    import sumpf
    if shape is not None:
        labels = ref.labels_for(shape[0])
        if kind[0] == "signal":
            return sumpf.Signal(channels=ref.symbolic(*shape), sampling_rate=44100.0, offset=kind[1], labels=labels)
        if kind[0] == "spectrum":
            return sumpf.Spectrum(channels=ref.symbolic_complex(*shape), resolution=0.5, labels=labels)
        return sumpf.Spectrogram(channels=ref.symbolic_complex(shape[0] * shape[1], shape[2]).reshape(shape), resolution=0.5,
                                 sampling_rate=20.0, offset=kind[1], labels=labels)
    if kind[0] == "signal":
        shape = (4, 7) if thorough else (3, 5)
        return sumpf.Signal(channels=ref.symbolic(*shape), sampling_rate=44100.0, offset=kind[1], labels=ref.labels_for(shape[0]))
    if kind[0] == "spectrum":
        shape = (4, 7) if thorough else (3, 5)
        return sumpf.Spectrum(channels=ref.symbolic_complex(*shape), resolution=0.5, labels=ref.labels_for(shape[0]))
    if kind[0] == "spectrogram":
        c, f, t = (3, 4, 6) if thorough else (2, 3, 4)
        return sumpf.Spectrogram(channels=ref.symbolic_complex(c * f, t).reshape(c, f, t), resolution=0.5,
                                 sampling_rate=20.0, offset=kind[1], labels=ref.labels_for(c))
    return sumpf.Filter(transfer_functions=tuple(sumpf.Filter.Constant(float(i + 2)) for i in range(4)), labels=ref.labels_for(4))


def run_case(ck, case, thorough):
    kind = case["kind"]
    real = make(kind, thorough, case.get("shape"))
    if kind[0] == "filter":
        data = numpy.array([[float(i + 2)] for i in range(4)])
    else:
        data = real.channels().copy()
    labels = tuple(real.labels())
    offset = kind[1] if len(kind) > 1 else None
    known_offset = True
    for key in case["keys"]:
        keys = [decode(k) for k in key] if case["tuple"] else decode(key[0])
        length = data.shape[-1]
        result = real[tuple(keys)] if case["tuple"] else real[keys]
        index = [positions(k, n) for k, n in zip(key, data.shape)]
        index += [list(range(n)) for n in data.shape[len(index):]]
        expected = data[numpy.ix_(*index)]
        expected_labels = tuple(labels[i] for i in index[0])
        ck.transition()
        ck.state((kind[0], offset, ref.rounded(expected), expected_labels))
        expect_equal(type(result).__name__, kind[0].capitalize(), "type")
        expect_equal(result.labels(), expected_labels, "labels")
        expect_equal(len(result), len(index[0]), "number of channels")
        if kind[0] == "filter":
            values = numpy.array([[v] for v in result(7.0)]).reshape(len(result), 1)
            ref.expect_array(values, expected, "transfer functions")
        else:
            ref.expect_array(result.channels(), expected, "channels")
            expect_equal(result.shape(), expected.shape, "shape")
            expect_equal(result.length(), expected.shape[-1], "length")
            if kind[0] != "spectrum":
                expect_equal(result.sampling_rate(), real.sampling_rate(), "sampling rate")
            if kind[0] != "signal":
                expect_equal(result.resolution(), real.resolution(), "resolution")
            if offset is not None and known_offset:
                times = index[-1]
                step = key[-1][3] if len(key) == data.ndim and isinstance(key[-1], (list, tuple)) else 1
                if step is not None and step < 0:
                    known_offset = False
                elif times:
                    offset += times[0]
                    expect_equal(result.offset(), offset, "offset")
                else:
                    expect(offset <= result.offset() <= offset + length, "offset {} of an empty slice is outside of {}..{}",
                           result.offset(), offset, offset + length)
                    offset = result.offset()
        ref.expect_array(real.channels() if kind[0] != "filter" else data, data, "the sliced object")
        real, data, labels = result, expected, expected_labels
        if 0 in data.shape:
            break


def kinds():
    return [["signal", -3], ["signal", 0], ["signal", 4], ["spectrum"], ["spectrogram", -2], ["spectrogram", 3], ["filter"]]


def large(kind):
    """many channels and long axes"""
    sizes = (33, 101, 257, 1025, 4097)
    shapes = {"signal": [(c, 3) for c in sizes[0:3]] + [(2, n) for n in sizes], "filter": [],
              "spectrum": [(c, 3) for c in sizes[0:3]] + [(2, n) for n in sizes],
              "spectrogram": [(c, 2, 2) for c in sizes[0:2]] + [(2, n, 2) for n in sizes[0:3]] + [(2, 2, n) for n in sizes[0:3]]}[kind[0]]
    everything = ["s", None, None, None]
    for shape in shapes:
        for axis, n in enumerate(shape):
            if n < 5:
                continue
            ends = [None, -n - 1, -n, 1 - n, -n // 2, -1, 0, 1, 9, 10, 16, n // 2, n - 1, n, n + 1, 0.1, 0.37, 1 / 3, 0.9, -0.25, 1.0]
            keys = [0, 1, 9, 10, 16, 31, 32, n // 2, n - 1, -1, -2, -n, 0.1, 0.37, 1 / 3, 0.5, 0.999, 1.0]
            keys += [["s", a, b, s] for a in ends for b in ends for s in ((None, 7) if isinstance(a, int) and isinstance(b, int) else (None,))]
            keys += [["s", a, None, s] for a in ends for s in (-1, -3)]
            for k in keys:
                yield {"kind": kind, "keys": [[everything] * axis + [k]], "tuple": True, "shape": shape}
                if axis == 0:
                    yield {"kind": kind, "keys": [[k]], "tuple": False, "shape": shape}


def shard(ck, job):
    mode, kind = job
    shape = {"signal": (4, 7) if ck.thorough else (3, 5), "spectrum": (4, 7) if ck.thorough else (3, 5),
             "spectrogram": (3, 4, 6) if ck.thorough else (2, 3, 4), "filter": (4,)}[kind[0]]
    def go(keys, as_tuple):
        case = {"kind": kind, "keys": keys, "tuple": as_tuple, "thorough": ck.thorough}
        ck.run(case, lambda: run_case(ck, case, ck.thorough))
        return case
    if mode == "large":
        for case in large(kind):
            ck.run(case, lambda: run_case(ck, case, False))
        return
    if mode == "single":
        for k in axis_keys(shape[0], True, (None, 2, -1)):
            case = go([[k]], False)
            if kind[0] != "filter":
                go([[k]], True)
    elif mode == "pair" and len(shape) >= 2:
        for k1 in CHANNEL_KEYS:
            for k2 in axis_keys(shape[1], len(shape) == 2, (None, 2)):
                case = go([[k1, k2]], True)
        case = go([[["s", None, None, None], ["s", None, None, -1]]], True)
    elif mode == "triple" and len(shape) == 3:
        for k1 in (1, -1, ["s", None, None, None], ["s", 1, None, None]):
            for k2 in CHANNEL_KEYS:
                for k3 in axis_keys(shape[2], True, (None, 2)):
                    case = go([[k1, k2, k3]], True)
    elif mode == "history":
        time = [-1, 0, 1, 0.5, ["s", None, None, None], ["s", 1, None, None], ["s", -2, None, None], ["s", -9, -1, None],
                ["s", None, 3, None], ["s", 0.25, None, None], ["s", 1, 9, None]]
        chan = [["s", None, None, None], ["s", 1, None, None], ["s", None, None, -1], ["s", -9, None, None]]
        middle = [[["s", 1, None, None]]] if len(shape) == 3 else [[]]
        alphabet = [[c, *m, t] for c in chan for m in middle for t in time] if len(shape) > 1 else [[c] for c in CHANNEL_KEYS]
        # integer keys may run out of range in a later step: they are only used where the axis still has that position
        for seq in itertools.product(alphabet, repeat=3 if ck.thorough else 2):
            if _valid(seq, shape):
                case = go([list(k) for k in seq], len(shape) > 1)
    else:
        return
    ck.sample(case)


def _valid(seq, shape):
    shape = list(shape)
    for key in seq:
        for axis, k in enumerate(key):
            n = shape[axis]
            if n == 0:
                return False
            if isinstance(k, int) and not -n <= k < n:
                return False
            shape[axis] = len(positions(k, n))
    return True


def explore(ck):
    ck.parallel(shard, [(m, k) for m in ("large", "single", "pair", "triple", "history") for k in kinds()])


def replay(ck, case):
    ck.run(case, lambda: run_case(ck, case, case.get("thorough", False)))
