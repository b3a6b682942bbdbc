"""C11: concatenating signals and spectrograms, over all histories of adding, removing, replacing and connecting."""

import numpy
from mc import blockhist, ref
from mc.checks import c10
from mc.ref import expect_equal

BOUNDS = {"quick": "static: all sequences of 1-4 data sets from a pool of 7 signals or spectrograms (1-3 channels, lengths 0-5, offsets -4..3, "
                   "1-3 frequencies), so that data sets overlap with one or several predecessors, nest, precede them or leave gaps; "
                   "histories: all sequences of up to 4 actions; long data sets with many channels, histories of up to 12 data sets",
          "thorough": "static sequences of up to 5 data sets; histories of up to 5 actions"}
ASSUMPTIONS = ["the connectors package is part of the implementation under test as it is installed; it loses the value of a second lazily "
               "connected output, when the first one is disconnected before the output is read, so the histories connect one source at a time"]
SHAPES = [(1, 2, 2, 0), (2, 1, 3, -2), (3, 3, 1, 2), (2, 2, 5, 0), (1, 3, 4, -4), (3, 1, 2, 3), (2, 2, 0, 1)]


LARGE_SHAPES = [(9, 2, 65, 0), (1, 17, 513, -70), (12, 1, 9, 100), (2, 5, 300, 1), (33, 2, 3, -40), (1, 3, 64, 64)]


def pool(kind, shapes=None):
    import sumpf
    result = []
    for tag, (c, f, n, o) in enumerate(shapes or SHAPES):
        labels = ref.labels_for(c, f"d{tag}")
        if kind == "signal":
            result.append(sumpf.Signal(channels=ref.symbolic(c, n, tag), sampling_rate=10.0 + tag, offset=o, labels=labels))
        else:
            result.append(sumpf.Spectrogram(channels=ref.symbolic_complex(c * f, n, tag).reshape(c, f, n), resolution=0.5 + tag,
                                            sampling_rate=10.0 + tag, offset=o, labels=labels))
    return result


class Expected(c10.Expected):
    def compute(self, data, mode):
        first = data[0]
        result = {"sampling_rate": first.sampling_rate()}
        if self.kind == "spectrogram":
            result["resolution"] = first.resolution()
        if len(data) == 1:
            result.update(labels=tuple(first.labels()), offset=first.offset(), channels=numpy.array(first.channels()))
            return result
        count = max(len(d) for d in data)
        frequencies = 1 if self.kind == "signal" else max(d.number_of_frequencies() for d in data)
        spans_of_cells, spans, index = [], [], 0
        for d in data:
            start = index + d.offset()
            index = start + d.length()
            spans.append((start, index))
            grid = numpy.array(d.channels())
            if self.kind == "signal":
                grid = grid[:, numpy.newaxis, :]
            spans_of_cells.append((start, grid))
        start, stop = min(s for s, _ in spans), max(s for _, s in spans)
        channels = numpy.zeros((count, frequencies, stop - start), dtype=complex if self.kind == "spectrogram" else float)
        for begin, grid in spans_of_cells:
            for (c, f, t), v in numpy.ndenumerate(grid):
                channels[c, f, begin + t - start] += v
        if self.kind == "signal":
            channels = channels[:, 0, :]
        result.update(labels=tuple(f"Concatenation {i}" for i in range(1, count + 1)), offset=start, channels=channels)
        return result


def compare(kind):
    def function(actual, wanted):
        expect_equal(type(actual).__name__, kind.capitalize(), "type")
        expect_equal(tuple(actual.labels()), wanted["labels"], "labels")
        for name in ("sampling_rate", "resolution", "offset"):
            if name in wanted:
                expect_equal(getattr(actual, name)(), wanted[name], name)
        ref.expect_array(actual.channels(), wanted["channels"], "channels", rtol=1e-12, atol=1e-12)
    return function


def create(data):
    import sumpf
    return sumpf.Concatenate(data)


def alphabet():
    result = [["output"], ["add", 0], ["add", 1], ["add", 4]]
    result += [["remove", i] for i in range(2)] + [["replace", i, d] for i in range(2) for d in (2, 3)]
    result += [["connect", 0, 5], ["set", 0, 2], ["set", 0, 0], ["disconnect", 0], ["observe"]]
    return result


def make(kind, data, expected, initial):
    return lambda: blockhist.History(create, data, expected, compare(kind), initial)


def large(ck, kind):
    data = pool(kind, LARGE_SHAPES)
    expected = Expected(kind, data)
    sequences = [[i, j] for i in range(6) for j in range(6)] + [[i, (i + 1) % 6, (i + 3) % 6, i] for i in range(6)] + [[*range(6)] * 2, [5, 4, 3, 2, 1, 0] * 2, [2] * 20, [5, 4] * 17]
    for s in sequences:
        case = {"kind": kind, "initial": s, "actions": [], "large": True}
        ck.run(case, lambda: blockhist.execute(ck, make(kind, data, expected, s), [], ()))
    data = pool(kind)
    expected = Expected(kind, data)
    for count in (5, 8, 9, 12):
        for actions in blockhist.long_histories(count):
            case = {"kind": kind, "initial": [2], "actions": actions}
            ck.run(case, lambda: blockhist.execute(ck, make(kind, data, expected, [2]), actions, ()))


def job(ck, spec):
    what, kind, first = spec
    if what == "large":
        large(ck, kind)
        return
    data = pool(kind)
    before = [numpy.array(d.channels()) for d in data]
    expected = Expected(kind, data)
    if what == "static":
        sequences = [[first]]
        for _ in range(5 if ck.thorough else 4):
            for s in sequences:
                case = {"kind": kind, "initial": s, "actions": []}
                ck.run(case, lambda: blockhist.execute(ck, make(kind, data, expected, s), [], ()))
            sequences = [s + [i] for s in sequences for i in range(len(SHAPES))]
    else:
        depth = 5 if ck.thorough else 4
        for initial in ([], [3, 1]):
            case = {"kind": kind, "initial": initial}
            maker = make(kind, data, expected, initial)
            if first in maker().enabled(alphabet()):
                blockhist.explore(ck, maker, alphabet(), depth, case, [first])
    for d, b in zip(data, before):
        ck.run({"pure": kind}, lambda: ref.expect_array(d.channels(), b, "a concatenated data set was modified", 0.0, 0.0))


def explore(ck):
    kinds = ("signal", "spectrogram")
    jobs = [("large", k, None) for k in kinds]
    jobs += [("history", k, a) for k in kinds for a in alphabet()]
    jobs += [("static", k, i) for k in kinds for i in range(len(SHAPES))]
    ck.parallel(job, jobs)


def replay(ck, case):
    kind = case["kind"]
    data = pool(kind, LARGE_SHAPES if case.get("large") else None)
    ck.run(case, lambda: blockhist.execute(ck, make(kind, data, Expected(kind, data), case["initial"]), case["actions"], ()))
