"""C28: copies, pickled data sets and data sets in other processes are equal to and independent of the original.

All sequences of ways to duplicate a data set (copying, deep copying, pickling with each protocol, sending to another process and
back) are executed for a universe of data sets with each class, shape, type and history; after each sequence, the results of all
public methods of the duplicate are compared to those of the original.  The other process is a separate Python interpreter, that
has only imported the package.  In networks of processing blocks, all combinations of executors and parallelizations are executed.
"""

import copy
import inspect
import itertools
import os
import pickle
import struct
import subprocess
import sys
import numpy
from mc import core, ref
from mc.core import Mismatch
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "data sets: signals, spectrums and spectrograms of all shapes up to 2x3 (2x2x3), 5 sample types, all exported classes of data sets, all filters and compositions of two terms, each as it is, after its use, sliced, "
                   "with a step, reversed and computed; all sequences of up to two (after the other histories: one) of: copy, deepcopy, pickle protocols 0, 2 and 5, other process; networks: 3 blocks x 5 pools x 3 parallelizations of two blocks x 4 executors",
          "thorough": "sequences of up to three ways of duplicating and all protocols"}
ASSUMPTIONS = ["data sets, whose classes are defined by SuMPF; Jack instances can not be duplicated"]

SKIP = {"save", "load"}
KINDS = ("copy", "deepcopy", "pickle0", "pickle2", "pickle5", "process")


# observing


def arguments(data):
    """The arguments for those methods, that can not be called without any."""
    import sumpf
    small = numpy.array([1.0, -0.5])
    response = sumpf.Signal(channels=ref.symbolic(1, 32), sampling_rate=48000.0)
    return {"convolve": (small,), "correlate": (small,), "pad": (5,), "shift": (1,), "instantaneous_frequency": ([0.0, 1e-3],), "harmonic_impulse_response": (response, 2), "spectrum": (10.0, 4),
            "short_time_fourier_transform": (2,), "inverse_short_time_fourier_transform": (2,), "level_vs_time": (2.5 / 48000.0,), "scaling_factor": (1,), "amplitude_flatness": (1,),
            "power_flatness": (1,), "overlap_correlation": (1,), "fourier_transform": (), "decay_model": (0, 3), "reverberation_time": (0, 3)}


GRID = numpy.array([0.5, 1.0, 3.0, 700.0])


def describe(value):
    """A comparable and picklable description, that is made of tuples, strings and arrays."""
    import sumpf
    if isinstance(value, sumpf.Filter):
        return ("filter", type(value).__name__, tuple(value.labels()), describe(value(GRID)))
    if hasattr(value, "channels") and callable(value.channels):
        axes = tuple(getattr(value, n)() for n in ("sampling_rate", "resolution", "offset") if hasattr(value, n))
        return ("data", type(value).__name__, tuple(value.labels()), describe(axes), numpy.asarray(value.channels()))
    if isinstance(value, numpy.ndarray) and value.dtype != object:
        return numpy.array(value)
    if isinstance(value, (float, complex, int, numpy.number, numpy.bool_)):
        return numpy.array(value)
    if isinstance(value, (tuple, list)):
        return (type(value).__name__,) + tuple(describe(v) for v in value)
    if isinstance(value, dict):
        return ("dict",) + tuple((repr(k), describe(v)) for k, v in value.items())
    if isinstance(value, (str, type(None))):
        return repr(value)
    return type(value).__name__     # e.g. the terms of filters, which are observed through the results of calling the filter


def rebuilt(data):
    """A data set with the same samples and parameters, that has been created from scratch."""
    import sumpf
    if isinstance(data, sumpf.Signal):
        return sumpf.Signal(channels=numpy.array(data.channels()), sampling_rate=data.sampling_rate(), offset=data.offset(), labels=data.labels())
    if isinstance(data, sumpf.Spectrum):
        return sumpf.Spectrum(channels=numpy.array(data.channels()), resolution=data.resolution(), labels=data.labels())
    return sumpf.Spectrogram(channels=numpy.array(data.channels()), resolution=data.resolution(), sampling_rate=data.sampling_rate(), offset=data.offset(), labels=data.labels())


def observe(data):
    """The descriptions of the results of all public methods."""
    import sumpf
    table = arguments(data)
    result = {}

    def add(name, function, *args):
        try:
            with numpy.errstate(all="ignore"):
                result[name] = describe(function(*args))
        except Exception as e:  # pylint: disable=broad-except
            result[name] = "raised " + type(e).__name__

    for name in sorted(dir(type(data))):
        attribute = getattr(data, name)
        if name[0] in "_ABCDEFGHIJKLMNOPQRSTUVWXYZ" or name in SKIP or inspect.isclass(attribute) or not callable(attribute) or isinstance(inspect.getattr_static(type(data), name), staticmethod):
            continue
        if name in table:
            add(name, attribute, *table[name])
        elif all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in inspect.signature(attribute).parameters.values()):
            add(name, attribute)
    add("repr", repr, data)
    add("len", len, data)
    add("negative", lambda: -data)
    add("absolute", lambda: abs(data))
    add("double", lambda: data + data)
    add("scaled", lambda: 2.0 * data)
    add("quotient", lambda: data / data)
    add("element", lambda: data[0])
    if isinstance(data, sumpf.Filter):
        add("scalar", lambda: data(3.0))
    else:
        add("part", lambda: data[:, 1:])
        add("hash", lambda: str(hash(data)))
        add("hash of an equal data set", lambda: hash(data) == hash(rebuilt(data)))
    return result


def same(a, b, tolerance=1e-9):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, tolerance) for x, y in zip(a, b))
    if isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray):
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind not in "fc":
            return numpy.array_equal(a, b)
        finite = numpy.isfinite(a) & numpy.isfinite(b)
        if not finite.all() and not numpy.array_equal(numpy.isfinite(a), numpy.isfinite(b)):
            return False
        scale = numpy.abs(a[finite]).max(initial=0.0)
        return bool(numpy.all(numpy.abs(a[finite] - b[finite]) <= tolerance * scale))
    return type(a) is type(b) and a == b


def compare(expected, actual, title):
    expect_equal(sorted(actual), sorted(expected), "the methods of " + title)
    for name in expected:
        if name != "hash" or "in another process" not in title:    # hashes of strings differ between processes
            expect(same(expected[name], actual[name]), "{} of {} is {!r} rather than {!r}", name, title, actual[name], expected[name])


# the other process


class Worker:
    """A separate interpreter, to which objects are sent; it answers with its observations and with the object."""
    instance = None

    def __init__(self):
        program = f"import sys; sys.path[:0] = [{core.REPO!r}, {core.VERIF!r}]; sys.dont_write_bytecode = True; from mc.checks import c28; c28.serve()"
        self.__process = subprocess.Popen([sys.executable, "-W", "ignore", "-c", program], env=dict(os.environ, PYTHONHASHSEED="123"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def __call__(self, data):
        message = pickle.dumps(data)
        self.__process.stdin.write(struct.pack("<Q", len(message)) + message)
        self.__process.stdin.flush()
        head = self.__process.stdout.read(8)
        if len(head) < 8:
            Worker.instance = None
            raise Mismatch("the other process ended, when it received the data set")
        answer = pickle.loads(self.__process.stdout.read(struct.unpack("<Q", head)[0]))
        if isinstance(answer, str):
            raise Mismatch("the data set could not be processed by the other process: " + answer)
        return answer

    @classmethod
    def get(cls):
        if cls.instance is None:
            cls.instance = cls()
        return cls.instance


def serve():
    """The other process' main loop."""
    output = sys.stdout.buffer
    sys.stdout = sys.stderr
    while True:
        head = sys.stdin.buffer.read(8)
        if len(head) < 8:
            return
        message = sys.stdin.buffer.read(struct.unpack("<Q", head)[0])
        try:
            data = pickle.loads(message)
            answer = pickle.dumps((observe(data), data))
        except Exception as e:  # pylint: disable=broad-except
            answer = pickle.dumps(repr(e))
        output.write(struct.pack("<Q", len(answer)) + answer)
        output.flush()


def duplicate(data, kind, expected, title):
    try:
        if kind == "copy":
            return copy.copy(data)
        if kind == "deepcopy":
            return copy.deepcopy(data)
        if kind == "process":
            observations, result = Worker.get()(data)
            compare(expected, observations, title + " in another process")
            return result
        return pickle.loads(pickle.dumps(data, protocol=int(kind[6:])))
    except Mismatch:
        raise
    except Exception as e:  # pylint: disable=broad-except
        raise Mismatch(f"{title} ({kind}) raised {e!r}") from e


# the data sets


def universe():
    """Yields (description, function, that creates the data set)"""
    import sumpf
    for dtype, channels, length in itertools.product(("float64", "float32", "int64", "complex128", "complex64"), range(3), range(4)):
        labels = ("a", "b")[0:channels]
        v = (numpy.arange(channels * length).reshape(channels, length) * 3 - 4).astype(dtype)
        if dtype.startswith("complex"):
            v = v + (1j * v[:, ::-1]).astype(dtype)
        else:
            yield ["Signal", dtype, channels, length], lambda v=v, l=labels: sumpf.Signal(channels=v, sampling_rate=44100.0, offset=-2, labels=l)
        yield ["Spectrum", dtype, channels, length], lambda v=v, l=labels: sumpf.Spectrum(channels=v, resolution=0.1, labels=l)
        for f in range(3):
            w = numpy.array([[c * (k + 1) for k in range(f)] for c in v], dtype=dtype).reshape(channels, f, length)
            yield ["Spectrogram", dtype, channels, f, length], lambda w=w, l=labels: sumpf.Spectrogram(channels=w, resolution=0.1, sampling_rate=7.0, offset=3, labels=l)
    signal = sumpf.Signal(channels=ref.symbolic(2, 8), sampling_rate=10.0, offset=1, labels=("x", "y"))
    for name in sorted(dir(sumpf)):
        cls = getattr(sumpf, name)
        if not inspect.isclass(cls) or not issubclass(cls, (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram, sumpf.Filter)):
            continue
        parameters = inspect.signature(cls.__init__).parameters
        if "length" in parameters:
            if "seed" in parameters:
                for seed in (None, 3):
                    yield ["class", name, seed], lambda cls=cls, seed=seed: cls(length=17, seed=seed)
            else:
                yield ["class", name], lambda cls=cls: cls(length=17)
        elif name == "EnergyDecayCurve":
            yield ["class", name], lambda: sumpf.EnergyDecayCurve(signal)
        elif name == "Bands":
            for i, e in itertools.product(sumpf.Bands.interpolations, repeat=2):
                yield ["class", name, i.name, e.name], lambda i=i, e=e: sumpf.Bands(({1.0: 2.0, 3.0: 4.0}, {2.0: 5.0}), interpolations=i, extrapolations=e, labels=("p", "q"))
        elif "delay" in parameters:
            yield ["class", name], lambda cls=cls: cls(delay=0.0125)
        elif all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in list(parameters.values())[1:]):
            yield ["class", name], cls
    F = sumpf.Filter
    terms = {"constant": F.Constant(2.5), "polynomial": F.Polynomial([1.0, 0.5]), "exp": F.Exp(-0.125), "transformed": F.Polynomial([1.0, 0.5], transform=True),
             "bands": F.Bands(xs=numpy.array([1.0, 2.0]), ys=numpy.array([3.0, 4.0 - 1.0j]), interpolation=F.Bands.interpolations.LINEAR if hasattr(F.Bands, "interpolations") else sumpf.Bands.interpolations.LINEAR,
                              extrapolation=sumpf.Bands.interpolations.LINEAR)}
    operators = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    for a, b in itertools.product(terms, repeat=2):
        for o, f in operators.items():
            yield ["terms", a, o, b], lambda a=a, b=b, f=f: F(transfer_functions=(f(terms[a], terms[b]), -terms[a]), labels=("first", "second"))
            yield ["filters", a, o, b], lambda a=a, b=b, f=f: f(F(transfer_functions=(terms[a],)), F(transfer_functions=(terms[b], abs(terms[b]))))


def histories(data):
    """Yields (name, function, that returns the data set after a history)"""
    import sumpf

    def used():
        observe(data)
        return data

    yield "created", lambda: data
    yield "used", used
    yield "computed", lambda: 0.5 * data
    if not isinstance(data, sumpf.Filter):
        yield "sliced", lambda: data[:, 1:]
        yield "step", lambda: data[::2, ::2]
        yield "backwards", lambda: data[:, ::-1]
        yield "padded", lambda: data.pad(6)
    else:
        yield "first", lambda: data[0]


def duplicates(ck, shard, only=None):
    index, count, kinds, depth = shard
    for number, (description, create) in enumerate(universe()):
        if number % count != index or (only is not None and description != only[0]):
            continue
        for history, prepare in histories(create()):
            if only is not None and history != only[1]:
                continue
            try:
                with numpy.errstate(all="ignore"):
                    original = prepare()
            except Exception:   # pylint: disable=broad-except
                continue        # e.g. slicing data sets without any channels
            expected = observe(original)

            def descend(data, path):
                for kind in kinds:
                    if only is not None and (len(path) >= len(only[2]) or kind != only[2][len(path)]):
                        continue
                    state = {}

                    def execute():
                        title = f"{' '.join(map(str, description))} {history} -> {' -> '.join(path + [kind])}"
                        y = duplicate(data, kind, expected, title)
                        expect(type(y) is type(original), "{} is a {}", title, type(y))
                        observations = observe(y)
                        compare(expected, observations, title)
                        if not any(isinstance(v, numpy.ndarray) and numpy.isnan(v).any() for v in (expected.get("channels"),)):
                            expect(y == original and original == y and not y != original, "{} is not equal to the original", title)
                        state["next"] = y
                        if kind != "copy" and hasattr(y, "channels") and y.channels().flags.writeable and y.channels().size:
                            keep = numpy.array(y.channels())
                            y.channels()[...] = 77
                            after = observe(original)
                            y.channels()[...] = keep
                            expect(same(after.get("channels"), expected["channels"]), "modifying the samples of {} also modified the original", title)
                        ck.outcome(kind)
                    ck.run({"part": "duplicates", "data": description, "history": history, "path": path + [kind]}, execute)
                    ck.transition()
                    ck.state(("duplicate", repr(description), history, tuple(path), kind))
                    if state and len(path) + 1 < (depth if history in ("created", "computed") else depth - 1):
                        descend(state["next"], path + [kind])

            descend(original, [])


# networks


try:
    import connectors

    class Compute:
        """A processing block, that computes something with a data set."""

        def __init__(self, operation="negative", data=None):
            self.__operation = operation
            self.__data = data

        @connectors.Output()
        def get(self):
            import sumpf
            return OPERATIONS[self.__operation](self.__data)

        @connectors.Input("get")
        def set(self, data):
            self.__data = data
            return self
except ImportError:
    connectors = None

OPERATIONS = {"negative": lambda x: -x, "identity": lambda x: x, "part": lambda x: x[0], "halves": lambda x: 0.5 * x}


def pools():
    import sumpf
    signals = [sumpf.Signal(channels=ref.symbolic(2, 4), sampling_rate=8.0, offset=-1, labels=("a", "b")), sumpf.Signal(channels=ref.symbolic(1, 3, 1), sampling_rate=8.0, offset=2)]
    return {"signals": signals, "sweeps": [sumpf.ExponentialSweep(length=8), sumpf.InverseExponentialSweep(length=9), sumpf.LinearSweep(length=7)],
            "generated": [sumpf.HannWindow(length=5), sumpf.SineWave(length=6), sumpf.MaximumLengthSequence(length=7, seed=1), sumpf.GaussianNoise(length=3, seed=2)],
            "spectrums": [s.fourier_transform() for s in signals], "spectrograms": [s.short_time_fourier_transform(2) for s in signals],
            "filters": [sumpf.ButterworthFilter(), sumpf.Bands({1.0: 2.0}), sumpf.AWeighting()]}


def network(block, pool, operation, parallelizations, executors):
    """Builds a network sources -> computation -> block -> computation and returns its result"""
    import sumpf
    first = [Compute(operation, data) for data in pools()[pool]]
    merge = {"merge datasets": lambda: sumpf.Merge(mode=sumpf.Merge.modes.FIRST_DATASET_FIRST), "merge channels": lambda: sumpf.Merge(mode=sumpf.Merge.modes.FIRST_CHANNELS_FIRST), "concatenate": sumpf.Concatenate}[block]()
    last = Compute("identity")
    outputs = [f.get for f in first] + [merge.output, last.get]
    flags = [parallelizations[0]] * len(first) + [parallelizations[1], parallelizations[0]]
    for o, p in zip(outputs, flags):
        if p is not None:
            o.set_parallelization(p)
    for f in first:
        f.get.connect(merge.add)
    merge.output.connect(last.set)
    if executors is not None:
        for o in outputs:
            o.set_executor(connectors.executor(*executors))
    return last.get()


def networks(ck, only=None):
    P = connectors.Parallelization
    for block, pool, operation in itertools.product(("merge datasets", "merge channels", "concatenate"), pools(), ("identity", "halves", "part")):
        if block == "concatenate" and pool in ("spectrums", "filters"):
            continue
        expected = None
        for flags, executors in itertools.product(itertools.product((P.SEQUENTIAL, P.THREAD, P.PROCESS), repeat=2), ((0, 0), (2, 0), (0, 2), (1, 1))):
            if executors[1] and P.PROCESS not in flags:
                continue        # no process is used
            case = {"part": "networks", "block": block, "pool": pool, "operation": operation, "flags": [f.name for f in flags], "executors": list(executors)}
            if only is not None and case != only:
                continue
            if expected is None:
                import sumpf
                b = {"merge datasets": lambda: sumpf.Merge(mode=sumpf.Merge.modes.FIRST_DATASET_FIRST), "merge channels": lambda: sumpf.Merge(mode=sumpf.Merge.modes.FIRST_CHANNELS_FIRST), "concatenate": sumpf.Concatenate}[block]()
                for data in pools()[pool]:
                    b.add(data if operation == "identity" else OPERATIONS[operation](data))
                expected = b.output()

            def execute():
                actual = network(block, pool, operation, flags, executors)
                expect(type(actual) is type(expected) and same(describe(actual), describe(expected)), "the result of the network is {!r} rather than {!r}", describe(actual), describe(expected))
                ck.outcome("network")
            ck.run(case, execute)
            ck.transition()
            ck.state(("network", repr(case)))


def explore(ck):
    kinds = ("copy", "deepcopy") + tuple(f"pickle{p}" for p in range(6)) + ("process",) if ck.thorough else KINDS
    ck.sample({"data": ["class", "ExponentialSweep"], "path": ["pickle2", "process"]})
    ck.parallel(duplicates, [(i, 64, kinds, 3 if ck.thorough else 2) for i in range(64)])
    networks(ck)


def replay(ck, case):
    if case["part"] == "networks":
        networks(ck, case)
    else:
        duplicates(ck, (0, 1, tuple(case["path"]), len(case["path"])), (case["data"], case["history"], case["path"]))
