"""C27: operations, that run in several threads at the same time, do not affect each other, whatever their interleaving is."""

import multiprocessing
import os
import random
import shutil
import sys
import warnings
import numpy
from mc import interleave, ref
from mc.checks import c16, c24
from mc.core import Mismatch, Skip

BOUNDS = {"quick": "about 620 operations (methods and operators of all kinds of data sets, generators, filters, blocks, file formats); two threads with the same operation: on the same data and on other data of the same "
                   "shape and another shape, in a process, that has never executed it, and in one, that has; every switch of the threads before every line of SuMPF's code (the first, second and last "
                   "execution of lines, that are repeated), 1 preemption (evenly limited to 50 points for files, 25 or 30 for the same data and other shapes, 12 for pairs of different operations, 20 for the first use, if that executes other lines); each operation with the two next ones in the list and with two of eight selected ones; 2 preemptions, each in the same function, for the same operation with other data, evenly limited to 80 schedules (40 for files)",
          "thorough": "all of these points, every operation with every other one of its kind and with the selected ones; all schedules with 2 preemptions for operations with up to 80 points, those in the same function for the others"}
ASSUMPTIONS = ["each block and each file is used by one thread only, data sets are shared", "one thread runs at a time (as enforced by CPython's global interpreter lock) and can be preempted before each line of SuMPF's code; calls of other libraries are atomic"]

GRID = (0.0, 1.0, 3.0, 10.0, 25.0)


def capture(value, depth=0):
    """A snapshot of the result"""
    import sumpf
    if isinstance(value, Exception):
        return ("error", type(value).__name__)
    if isinstance(value, (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram)):
        return (type(value).__name__, numpy.array(value.channels()), c24.axis(value), tuple(value.labels()))
    if isinstance(value, sumpf.Filter):
        with numpy.errstate(all="ignore"):
            return ("filter", tuple(value.labels()), repr(value), numpy.array(value(numpy.array(GRID[1:]))))
    if isinstance(value, c24.Rows):
        return capture(list(value.values))
    if isinstance(value, numpy.ndarray):
        return numpy.array(value)
    if isinstance(value, (list, tuple)):
        return tuple(capture(v) for v in value)
    if isinstance(value, dict):
        return tuple((k, capture(v)) for k, v in sorted(value.items()))
    if isinstance(value, numpy.generic):
        return value.item()
    return value


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, numpy.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.tobytes() == b.tobytes():
            return True
        finite = numpy.isfinite(b)
        return bool(numpy.array_equal(numpy.isfinite(a), finite) and numpy.allclose(a[finite], b[finite], rtol=1e-10, atol=1e-12 * c24.scale(b)))
    if isinstance(a, (float, complex)):
        return a == b or ref.same_number(a, b, rtol=1e-10, atol=1e-13)
    return a == b


# the operations: each entry is a function, that prepares the data for the given variant and returns the function, that is executed by the thread


_DATA = {}


def on_data(kind, function):
    """An operation of a data set; variant 0 and 1 have different samples, variant 2 has another shape."""
    def prepare(variant, directory):
        if (kind, variant) not in _DATA:
            _DATA[(kind, variant)] = c24.base(kind, 1 if variant == 2 else 0, "ordinary", tag=variant), c24.environment()
        data, arguments = _DATA[(kind, variant)]
        return lambda: function(data, arguments)
    return prepare


def simple(function):
    """An operation, that depends on a number"""
    def prepare(variant, directory):
        return lambda: function(variant)
    return prepare


def prepared(function, use):
    """An operation of an object, that depends on a number"""
    def prepare(variant, directory):
        x = function(variant)
        return lambda: use(x)
    return prepare


def file_operation(kind, file_format, extension, what):
    def prepare(variant, directory):
        data = c16.data(kind, variant)
        name = os.path.join(directory, f"{what}{variant}{len(os.listdir(directory))}{extension}")
        if what == "load":
            data.save(name, data.file_formats[file_format])
        else:
            with open(name, "wb"):
                pass        # reserves the name

        def run():
            if what != "load":
                data.save(name, data.file_formats[file_format])
            loaded = c16.classes(kind).load(name)
            labels = tuple(l.replace(os.path.basename(name), "FILE") for l in loaded.labels())
            if isinstance(loaded, c16.classes("filter")):
                return labels, numpy.array(loaded(numpy.array(GRID[1:])))
            return type(loaded).__name__, labels, c24.axis(loaded), loaded.channels()
        return run
    return prepare


def filters():
    """Filters as functions of a number"""
    import sumpf
    F = sumpf.Filter
    I = sumpf.Bands.interpolations
    p = lambda v: F.Polynomial([0.01, 1.0 + v])
    e = lambda v: F.Exp(-0.01 * (v + 1))
    b = lambda v, i=I.LINEAR, x=I.STAIRS_LIN: F.Bands(xs=numpy.array([1.0, 10.0 + v, 30.0]), ys=numpy.array([2.0 + v, 4.0, 1.0]), interpolation=i, extrapolation=x)
    r = {"quotient by zero": lambda v: F(transfer_functions=(F.Quotient(F.Constant(1.0 + v), F.Bands(xs=numpy.array([1.0, 3.0]), ys=numpy.array([1.0 + v, 0.0]), interpolation=I.LINEAR, extrapolation=I.STAIRS_LIN)),)),
         "sum": lambda v: F(transfer_functions=(F.Sum((p(v), e(v))),)),
         "difference": lambda v: F(transfer_functions=(F.Difference(p(v), e(v)),)),
         "product": lambda v: F(transfer_functions=(F.Product((p(v), e(v), p(v + 1))),)),
         "quotient": lambda v: F(transfer_functions=(F.Quotient(p(v), e(v)),)),
         "transformed": lambda v: F(transfer_functions=(F.Quotient(p(v), F.Polynomial([1.0, 0.1, 1.0]), transform=True),)),
         "absolute": lambda v: abs(F(transfer_functions=(p(v) * e(v),))),
         "negative": lambda v: -F(transfer_functions=(p(v) * e(v), p(v))),
         "channels": lambda v: F(transfer_functions=(p(v), e(v))) * F(transfer_functions=(e(v),)) + 2.0}
    for i in I:
        r[f"bands {i.name}"] = lambda v, i=i: F(transfer_functions=(b(v, i, i),))
    for n in (1, 2, 3, 4):
        r[f"Butterworth {n}"] = lambda v, n=n: sumpf.ButterworthFilter(cutoff_frequency=10.0 + v, order=n, highpass=v == 1)
        r[f"Bessel {n}"] = lambda v, n=n: sumpf.BesselFilter(cutoff_frequency=10.0 + v, order=n, highpass=v == 1)
        r[f"Chebyshev1 {n}"] = lambda v, n=n: sumpf.Chebyshev1Filter(cutoff_frequency=10.0 + v, ripple=2.0 + v, order=n, highpass=v == 1)
        r[f"Chebyshev2 {n}"] = lambda v, n=n: sumpf.Chebyshev2Filter(cutoff_frequency=10.0 + v, ripple=20.0 + v, order=n, highpass=v == 1)
    for n in "ABCDU":
        r[n + "-weighting"] = lambda v, n=n: getattr(sumpf, n + "Weighting")()
    r["delay"] = lambda v: sumpf.DelayFilter(0.01 * (v + 1))
    r["derivative"] = lambda v: sumpf.DerivativeFilter()
    r["Bands"] = lambda v: sumpf.Bands(bands=[{1.0: 1.0 + v, 10.0: 4.0}, {2.0: 3.0 + v, 20.0: 1.0}], interpolations=[I.LINEAR, I.LOGARITHMIC], extrapolations=I.STAIRS_LIN)
    return r


def operations():
    """Returns a dictionary: kind -> {name: function, that prepares the operation}"""
    import sumpf
    result = {}
    for kind, table in (("signal", c24.signal_operations()), ("spectrum", c24.spectrum_operations()), ("spectrogram", c24.spectrogram_operations())):
        result[kind] = {n: on_data(kind, f) for n, (_, f) in table.items()}
        for n, f in (("repr", repr), ("hash", hash), ("length", lambda d: (len(d), d.length(), d.shape(), d.labels()))):
            result[kind][n] = on_data(kind, lambda d, a, f=f: f(d))
        result[kind]["equal"] = on_data(kind, lambda d, a: (d == d[:], d != -d))
        for m in sumpf.Merge.modes:
            result[kind][f"merge {m.name}"] = on_data(kind, lambda d, a, m=m: sumpf.Merge([d, d[1], d[:2]], mode=m).output())
    result["spectrogram"]["axes"] = on_data("spectrogram", lambda d, a: (d.time_samples(), d.frequency_samples(), d.duration(), d.maximum_frequency()))
    result["spectrum"]["axes"] = on_data("spectrum", lambda d, a: (d.frequency_samples(), d.maximum_frequency()))
    result["signal"]["axes"] = on_data("signal", lambda d, a: (d.time_samples(), d.duration()))
    # filters
    r = result["filter"] = {}
    created = filters()
    grid = numpy.array(GRID[1:])
    for n, f in created.items():
        r["create " + n] = simple(f)
        r["sample " + n] = prepared(f, lambda x: (x(grid), x(3.0)))
    for n in ("quotient by zero", "product", "transformed", "Butterworth 3", "bands LINEAR", "Bands"):
        r["repr " + n] = prepared(created[n], repr)
        r["spectrum " + n] = prepared(created[n], lambda x: x.spectrum(resolution=2.0, length=4))
        r["invert " + n] = prepared(created[n], lambda x: ~x)
        r["* " + n] = prepared(created[n], lambda x: (x * x)(grid))
        r["equal " + n] = prepared(created[n], lambda x: (x == x[:], x != x * 2.0))
    r["to_db"] = prepared(created["Bands"], lambda x: x.to_db())
    r["from_db"] = prepared(created["Bands"], lambda x: x.from_db(reference=2.0))
    # generators
    r = result["generator"] = {}
    for n in [n for n in dir(sumpf) if n.endswith("Window")]:
        cls = getattr(sumpf, n)
        r[n] = simple(lambda v, cls=cls: cls(length=8 + v % 2 * 2 + v // 2 * 3, sampling_rate=10.0 + v))
    window = lambda v: sumpf.HammingWindow(length=6 + v, plateau=v)
    r["window parameters"] = prepared(window, lambda w: (w.flatness(0.5) if hasattr(w, "flatness") else None, w.scaling_factor(0.5) if hasattr(w, "scaling_factor") else None))
    for n in [n for n in dir(sumpf) if n.endswith("Noise")]:
        cls = getattr(sumpf, n)
        r[n] = simple(lambda v, cls=cls: cls(seed=v, length=5 + v // 2))
    r["MLS"] = simple(lambda v: sumpf.MaximumLengthSequence(bits=3, length=9 + v // 2, seed=v))
    r["Rudin-Shapiro"] = simple(lambda v: sumpf.RudinShapiroNoiseSpectrum(start_frequency=1.0 + v, stop_frequency=9.0, resolution=1.0, length=12 + v))
    for n in ("LinearSweep", "ExponentialSweep", "InverseLinearSweep", "InverseExponentialSweep"):
        cls = getattr(sumpf, n)
        r[n] = simple(lambda v, cls=cls: cls(start_frequency=2.0 + v, stop_frequency=20.0, sampling_rate=50.0, length=16 + v))
        r[n + " interval"] = simple(lambda v, cls=cls: cls(start_frequency=2.0 + v, stop_frequency=20.0, sampling_rate=50.0, interval=(2, 14), length=16 + v))
    response = sumpf.Signal(channels=ref.symbolic(1, 24), sampling_rate=50.0, offset=-3)
    for k in (1, 2, 3):
        r[f"harmonic {k}"] = prepared(lambda v: sumpf.ExponentialSweep(start_frequency=2.0 + v, stop_frequency=20.0, sampling_rate=50.0, length=24), lambda s, k=k: s.harmonic_impulse_response(response, k))
    r["SineWave"] = simple(lambda v: sumpf.SineWave(frequency=2.0 + v, phase=0.1 * v, sampling_rate=50.0, length=8 + v))
    r["SquareWave"] = simple(lambda v: sumpf.SquareWave(frequency=2.0 + v, duty_cycle=0.3, sampling_rate=50.0, length=8 + v))
    r["Fade"] = simple(lambda v: sumpf.Fade(rise_interval=(1, 4 + v), fall_interval=(6 + v, 9 + v), length=14))
    r["ConstantSignal"] = simple(lambda v: sumpf.ConstantSignal(1.0 + v, length=3 + v))
    # files
    r = result["file"] = {}
    for kind in ("signal", "spectrum", "spectrogram", "bands", "filter"):
        files = [(f.name, "") for f in c16.classes(kind).file_formats if f.name != "AUTO"]
        files += [("AUTO", e) for e in c16.AUTOMATIC[kind]]
        files += [(f, e) for e, f in c16.AUTOMATIC[kind].items() if e not in (".js", ".aif", ".oga")]
        if kind == "signal":
            files += [("WAV_INT16", ".wav"), ("TEXT_CSV", ".wav"), ("NUMPY_NPZ", ".csv")]
        for f, e in files:
            r[f"save {kind} {f} {e}"] = file_operation(kind, f, e, "save")
            if e or kind == "spectrum":
                r[f"load {kind} {f} {e}"] = file_operation(kind, f, e, "load")
    return result


# global state, that no operation may change


def process_state():
    return (list(warnings.filters), warnings.showwarning, numpy.geterr(), repr(sorted(numpy.get_printoptions().items(), key=str)), numpy.random.get_state()[1].tobytes(), random.getstate(), os.getcwd(),
            sys.getrecursionlimit())


def expect_unchanged(before, after):
    for name, a, b in zip(("list of warning filters", "handler for warnings", "handling of floating point errors", "print options of NumPy", "state of NumPy's random numbers", "state of Python's random numbers",
                           "working directory", "recursion limit"), before, after):
        if a != b:
            raise Mismatch(f"the {name} of the process has been changed" + (f": {b!r} instead of {a!r}" if len(repr(a)) < 500 else ""))


def preemption_points(lines, repetitions=2):
    """The numbers of lines, after which a thread is preempted: before each line (its first executions and its last one)."""
    counts, last, points = {}, {}, []
    for i, line in enumerate(lines):
        counts[line] = counts.get(line, 0) + 1
        if counts[line] <= repetitions:
            points.append(i)
        last[line] = i
    return sorted(set(points) | set(last.values()))


def limited(points, number):
    """Every n-th of the points, so that their number is limited"""
    return points if number is None else points[::max(1, (len(points) + number - 1) // number)]


class Explorer:
    def __init__(self, ck):
        self.ck = ck
        self.operations = operations()
        self.references = {}

    def prepare(self, key, variant):
        kind, name = key
        directory = os.path.join(self.ck.scratch, "files")
        os.makedirs(directory, exist_ok=True)
        return self.operations[kind][name](variant, directory)

    def reference(self, key, variant):
        """The result of the operation, when it is executed alone, and the lines, that it executes (by the second time)"""
        if (key, variant) not in self.references:
            try:
                self.references[(key, variant)] = c16.fresh(self.ck, self.alone, key, variant)
            except EOFError:        # the execution has failed, which is already reported
                self.references[(key, variant)] = None
        return self.references[(key, variant)]

    def alone(self, ck, key, variant):
        self.ck = ck        # this is executed in another process
        first = None
        for _ in range(2):
            function = self.prepare(key, variant)
            result, lines = interleave.lines_of(function)
            result = capture(result)
            if first is None:
                first = result, [(c.co_filename, c.co_name, l) for c, l in lines]
            elif not same(result, first[0]):
                raise Mismatch(f"{key} returns different results, when it is repeated: {first[0]!r} and {result!r}")
        return first[0], first[1], [(c.co_filename, c.co_name, l) for c, l in lines]

    def execute(self, case):
        """Executes one schedule"""
        (a, va), (b, vb), schedule = case["first"], case["second"], case["schedule"]
        a, b = tuple(a), tuple(b)
        functions = [self.prepare(a, va), self.prepare(b, vb)] if not case.get("shared") else [self.prepare(a, va)] * 2
        expected = [self.references[(a, va)][0], self.references[(b, vb)][0]]
        before = process_state()
        results, where = interleave.interleave(*functions, [tuple(s) for s in schedule])
        after = process_state()
        warnings.filters[:] = before[0]
        for (key, _), r, e, other in zip((case["first"], case["second"]), results, expected, (case["second"], case["first"])):
            r = capture(r)
            if not same(r, e):
                raise Mismatch(f"{key} returns {str(r)[:600]} instead of {str(e)[:600]}, when {other[0]} is executed at the same time and the threads are preempted before {where}")
        expect_unchanged(before, after)
        self.ck.outcome("independent")


def clean(ck):
    shutil.rmtree(os.path.join(ck.scratch, "files"), ignore_errors=True)


def fresh_schedule(ck, explorer, case):
    """One schedule in a process, in which the operations have not been executed before"""
    explorer.ck = ck
    warnings.simplefilter("error")
    ck.run(case, lambda: explorer.execute(case))
    clean(ck)


def explore_first_use(ck, explorer, key):
    """Two threads execute the same operation for the first time in the process"""
    reference = explorer.reference(key, 0)
    explorer.reference(key, 1)
    if reference is None:
        return
    points = preemption_points(reference[1], 1)
    if reference[1] == reference[2]:        # nothing is done by the first execution only
        points = points[len(points) // 2:][:1]
    points = limited(points, None if ck.thorough else 20)
    for k in points:
        case = {"kind": "first use", "first": [list(key), 0], "second": [list(key), 1], "schedule": [[0, k], [1, None]]}
        ck.forked(fresh_schedule, explorer, case)
        ck.transition()
        ck.state(("first use", key, k))
    explorer.ck = ck


def explore_pair(ck, explorer, a, va, b, vb, shared=False, preemptions=1, limit=None, everywhere=False):
    """Two threads execute operations with all schedules with a number of preemptions.

    :param everywhere: with two preemptions: False, if only the schedules shall be executed, in which both threads are preempted in the same function of SuMPF
    """
    ra, rb = explorer.reference(a, va), explorer.reference(b, vb)
    explorer.ck = ck
    if ra is None or rb is None:
        return
    pa = preemption_points(ra[2], 2 if preemptions == 1 and a == b else 1)
    schedules = [[[0, k], [1, None]] for k in pa]
    if preemptions == 2:
        schedules = [[[0, k], [1, m]] for k in pa for m in preemption_points(rb[2], 1) if everywhere or ra[2][k][:2] == rb[2][m][:2]]
    for schedule in limited(schedules, limit):
        case = {"kind": "pair", "first": [list(a), va], "second": [list(b), vb], "schedule": schedule, "shared": shared}
        ck.run(case, lambda: explorer.execute(case))        # pylint: disable=cell-var-from-loop
        ck.transition()
        ck.state((a, va, b, vb, shared, tuple(map(tuple, schedule))))
        if a[0] == "file":
            clean(ck)


SELECTED = [("signal", "convolve LONG FULL"), ("signal", "stft"), ("filter", "sample quotient by zero"), ("filter", "create Chebyshev1 3"), ("generator", "GaussianNoise"), ("generator", "KaiserWindow"),
            ("file", "save signal AUTO .csv"), ("file", "save bands AUTO .txt")]


def use_one_core():
    """Switches between threads are faster on one core; the processes of the pool use different ones."""
    identity = multiprocessing.current_process()._identity      # pylint: disable=protected-access
    try:
        cores = sorted(os.sched_getaffinity(0))
        if identity and len(cores) > 1:
            os.sched_setaffinity(0, {cores[identity[0] % len(cores)]})
    except (AttributeError, OSError):
        pass


def explore_operation(ck, shard):
    index, count = shard
    use_one_core()
    explorer = Explorer(ck)
    keys = [(k, n) for k, r in explorer.operations.items() for n in r]
    selected = [s for s in SELECTED if s in keys]
    for i in range(index, len(keys), count):
        a = keys[i]
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            explore_first_use(ck, explorer, a)
            if a[0] != "file":
                explore_pair(ck, explorer, a, 0, a, 0, shared=True, limit=None if ck.thorough else 30)
            explore_pair(ck, explorer, a, 0, a, 1, limit=50 if a[0] == "file" and not ck.thorough else None)
            explore_pair(ck, explorer, a, 0, a, 2, limit=None if ck.thorough else 25)
            if ck.thorough:
                explore_pair(ck, explorer, a, 2, a, 0)
            partners = [b for b in keys if b[0] == a[0]] if ck.thorough else [keys[(i + d) % len(keys)] for d in (1, 2)]
            for b in [p for p in partners if p != a] + (selected if ck.thorough else [selected[i % len(selected)], selected[(i + 3) % len(selected)]]):
                explore_pair(ck, explorer, a, 0, b, 1, limit=None if ck.thorough else 12)
            reference = explorer.reference(a, 0)
            if reference is not None:
                few = len(preemption_points(reference[2], 1)) <= 80
                explore_pair(ck, explorer, a, 0, a, 1, preemptions=2, everywhere=few and ck.thorough, limit=None if ck.thorough else 40 if a[0] == "file" else 80)


def warm_up(ck):
    """Imports all libraries, because a thread, that is preempted during an import, blocks the imports of others"""
    import scipy.signal, scipy.stats, scipy.special     # noqa; pylint: disable=unused-import,multiple-imports,import-outside-toplevel
    c16.warm_up(ck.scratch)
    numpy.fft.rfft(numpy.ones(4))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        scipy.stats.skew(numpy.ones((1, 3)), axis=1)
        scipy.signal.stft(numpy.arange(16.0), nperseg=4)


def explore(ck):
    warm_up(ck)
    ck.sample({"first": "signal convolve LONG FULL", "second": "signal convolve LONG FULL", "schedule": "thread 1 is preempted after 17 lines, thread 2 runs, thread 1 continues"})
    n = 64
    ck.parallel(explore_operation, [(i, n) for i in range(n)])


def replay(ck, case):
    warm_up(ck)
    if "first" not in case:
        raise Skip()
    explorer = Explorer(ck)
    for key, v in (case["first"], case["second"]):
        explorer.reference(tuple(key), v)
    explorer.ck = ck
    if case["kind"] == "first use":
        ck.forked(fresh_schedule, explorer, case)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            ck.run(case, lambda: explorer.execute(case))
