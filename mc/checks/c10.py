"""C10: merging data sets, over all histories of adding, removing, replacing, connecting and switching the mode."""

import numpy
from mc import blockhist, ref
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "static: all sequences of 1-3 data sets from pools of 6 signals, spectrums, spectrograms and filters (1-3 channels, "
                   "different lengths, offsets, frequencies), both modes; histories: all sequences of up to 4 actions (add, remove, "
                   "replace, set mode, connect/set/disconnect a source, observe through a connection, read the output); data sets with up to 260 channels, merges and histories of up to 20 data sets",
          "thorough": "static sequences of up to 4 data sets; histories of up to 5 actions"}
ASSUMPTIONS = ["the connectors package is part of the implementation under test as it is installed",
               "merging data sets of different types is not specified"]
RATES = (40.0, 50.0, 60.0, 70.0, 80.0, 90.0)


SHAPES = [(1, 2, 2, 0), (2, 1, 3, -2), (3, 3, 1, 2), (2, 2, 0, 1), (1, 3, 4, 3), (3, 1, 2, -1)]
LARGE_SHAPES = [(9, 2, 65, 0), (1, 17, 513, -70), (12, 1, 9, 600), (2, 5, 0, 1), (260, 2, 3, -3), (1, 3, 64, 64)]


def pool(kind, shapes=None):
    import sumpf
    result = []
    for tag, (c, f, n, o) in enumerate(shapes or SHAPES):
        labels = ref.labels_for(c, f"d{tag}")
        if kind == "signal":
            data = sumpf.Signal(channels=ref.symbolic(c, n, tag), sampling_rate=RATES[tag], offset=o, labels=labels)
        elif kind == "spectrum":
            data = sumpf.Spectrum(channels=ref.symbolic_complex(c, n, tag), resolution=RATES[tag], labels=labels)
        elif kind == "spectrogram":
            channels = ref.symbolic_complex(c * f, n, tag).reshape(c, f, n)
            data = sumpf.Spectrogram(channels=channels, resolution=RATES[tag], sampling_rate=tag + 1.0, offset=o, labels=labels)
        else:
            data = sumpf.Filter(transfer_functions=tuple(sumpf.Filter.Constant(10.0 * tag + i) for i in range(c)), labels=labels)
        result.append(data)
    return result


def order(counts, mode):
    """the (data set, channel) pairs in the order of the result"""
    pairs = [(d, c) for d, n in enumerate(counts) for c in range(n)]
    if mode == "FIRST_CHANNELS_FIRST":
        pairs.sort(key=lambda p: (p[1], p[0]))
    return pairs


class Expected:
    """Computes (and caches) the merged data set as plain numbers."""

    def __init__(self, kind, data):
        self.kind, self.data, self.cache = kind, data, {}

    def __call__(self, indices, mode):
        key = (tuple(indices), mode)
        if key not in self.cache:
            self.cache[key] = self.compute([self.data[i] for i in indices], mode)
        return self.cache[key]

    def compute(self, data, mode):
        first = data[0]
        if len(data) == 1:
            pairs = [(0, c) for c in range(len(first))]
        else:
            pairs = order([len(d) for d in data], mode)
        result = {"labels": tuple(data[d].labels()[c] for d, c in pairs)}
        if self.kind == "filter":
            result["functions"] = tuple(data[d].transfer_functions()[c] for d, c in pairs)
            return result
        if self.kind == "spectrum":
            length = max(d.length() for d in data)
            result["resolution"] = first.resolution()
            channels = numpy.zeros((len(pairs), length), dtype=complex)
            for r, (d, c) in zip(channels, pairs):
                for i, v in enumerate(data[d].channels()[c]):
                    r[i] = v
            result["channels"] = channels
            return result
        start = min(d.offset() for d in data)
        stop = max(d.offset() + d.length() for d in data)
        result["offset"] = start
        result["sampling_rate"] = first.sampling_rate()
        if self.kind == "signal":
            channels = numpy.zeros((len(pairs), stop - start))
            for r, (d, c) in zip(channels, pairs):
                for i, v in enumerate(data[d].channels()[c]):
                    r[i + data[d].offset() - start] = v
        else:
            result["resolution"] = first.resolution()
            channels = numpy.zeros((len(pairs), max(d.number_of_frequencies() for d in data), stop - start), dtype=complex)
            for r, (d, c) in zip(channels, pairs):
                for f, line in enumerate(data[d].channels()[c]):
                    for i, v in enumerate(line):
                        r[f, i + data[d].offset() - start] = v
        result["channels"] = channels
        return result


def compare(kind):
    def function(actual, wanted):
        expect_equal(type(actual).__name__, kind.capitalize(), "type")
        expect_equal(tuple(actual.labels()), wanted["labels"], "labels")
        if kind == "filter":
            expect(tuple(actual.transfer_functions()) == wanted["functions"], "wrong transfer functions {}", actual)
            return
        for name in ("sampling_rate", "resolution", "offset"):
            if name in wanted:
                expect_equal(getattr(actual, name)(), wanted[name], name)
        ref.expect_array(actual.channels(), wanted["channels"], "channels", rtol=0.0, atol=0.0)
    return function


def create(mode):
    import sumpf

    def function(data):
        if mode is None:
            return sumpf.Merge(data)
        return sumpf.Merge(data, mode=getattr(sumpf.Merge.modes, mode))
    return function


MODES = ("FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST")


def alphabet(depth):
    result = [["output"], ["add", 0], ["add", 1], ["add", 2]]
    result += [["remove", i] for i in range(2)] + [["replace", i, d] for i in range(2) for d in (1, 4)]
    result += [["mode", m] for m in MODES]
    result += [["connect", 0, 5], ["set", 0, 2], ["set", 0, 0], ["disconnect", 0], ["observe"]]
    return result


def make(kind, data, expected, initial, mode):
    return lambda: blockhist.History(create(mode), data, expected, compare(kind), initial, mode or MODES[0])


def large(ck, kind):
    data = pool(kind, LARGE_SHAPES)
    expected = Expected(kind, data)
    sequences = [[i, j] for i in range(6) for j in range(6)] + [[i, (i + 1) % 6, (i + 3) % 6, i] for i in range(6)] + [[*range(6)] * 2, [5, 4, 3, 2, 1, 0] * 2, [0] * 20, [5, 1] * 17]
    for mode in MODES:
        for s in sequences:
            case = {"kind": kind, "initial": s, "mode": mode, "actions": [], "large": True}
            ck.run(case, lambda: blockhist.execute(ck, make(kind, data, expected, s, mode), [], ()))
    data = pool(kind)
    expected = Expected(kind, data)
    for mode in MODES:
        for count in (5, 8, 9, 12):
            for actions in blockhist.long_histories(count):
                case = {"kind": kind, "initial": [2], "mode": mode, "actions": actions}
                ck.run(case, lambda: blockhist.execute(ck, make(kind, data, expected, [2], mode), actions, ()))


def job(ck, spec):
    what, kind, first = spec
    if what == "large":
        large(ck, kind)
        return
    data = pool(kind)
    before = [numpy.array(d.channels()) for d in data] if kind != "filter" else None
    expected = Expected(kind, data)
    if what == "static":
        for mode in (None, *MODES):
            sequences = [[first]]
            for _ in range(4 if ck.thorough else 3):
                for s in sequences:
                    case = {"kind": kind, "initial": s, "mode": mode, "actions": []}
                    ck.run(case, lambda: blockhist.execute(ck, make(kind, data, expected, s, mode), [], ()))
                sequences = [s + [i] for s in sequences for i in range(6)]
    else:
        depth = 5 if ck.thorough else 4
        for initial, mode in (([], None), ([1, 5], MODES[1])):
            case = {"kind": kind, "initial": initial, "mode": mode}
            maker = make(kind, data, expected, initial, mode)
            if first == ["output"]:
                ck.run(dict(case, actions=[]), lambda: blockhist.execute(ck, maker, [], ()))
            if first in maker().enabled(alphabet(depth)):
                blockhist.explore(ck, maker, alphabet(depth), depth, case, [first])
    if before is not None:
        for d, b in zip(data, before):
            ck.run({"pure": kind}, lambda: ref.expect_array(d.channels(), b, "a merged data set was modified", 0.0, 0.0))


KINDS = ("signal", "spectrum", "spectrogram", "filter")


def explore(ck):
    jobs = [("large", k, None) for k in KINDS]
    jobs += [("history", k, a) for k in KINDS for a in alphabet(0)]
    jobs += [("static", k, i) for k in KINDS for i in range(6)]
    ck.parallel(job, jobs)


def replay(ck, case):
    kind = case["kind"]
    data = pool(kind, LARGE_SHAPES if case.get("large") else None)
    ck.run(case, lambda: blockhist.execute(ck, make(kind, data, Expected(kind, data), case["initial"], case["mode"]),
                                           case["actions"], ()))
