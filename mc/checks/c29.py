"""C29: without its optional dependencies, the library does the same, as far as it is available.

All subsets of the optional dependencies (scipy, numexpr, soundfile, jack) are made unavailable in a separate Python interpreter
each.  There, everything that does not need the missing libraries must be available and return the same as in the interpreter, in
which all of them can be imported; everything else must be missing or raise an error, which has no effect on later operations.
All files, that have been written with one subset, are loaded with every subset.
"""

import inspect
import itertools
import json
import os
import pickle
import subprocess
import sys
import numpy
from mc import core, ref
from mc.core import Mismatch
from mc.ref import expect, expect_equal

LIBRARIES = ("scipy", "numexpr", "soundfile", "jack")
MASKS = [m for n in range(len(LIBRARIES) + 1) for m in itertools.combinations(LIBRARIES, n)]

BOUNDS = {"quick": "all 16 subsets of scipy, numexpr, soundfile and jack: the names in the package; all methods of 600 data sets (all shapes up to 2x3, 5 sample types, all classes, compositions of filters); 4 kinds of sweeps x 10 lengths "
                   "(1 to 20000) x 24 parameters; all file formats and extensions x 2 signals, spectrum, spectrogram, filter, where each subset writes and each loads the files of all others; all sequences of two operations from 31 for all subsets of scipy, numexpr and soundfile",
          "thorough": "sequences of three operations"}
ASSUMPTIONS = ["a missing library is simulated by an entry in sys.modules, that lets its import fail with a ModuleNotFoundError",
               "NumPy and Connectors are not optional"]

# what the documentation says to require a library
NAMES = {"scipy": {"MaximumLengthSequence", "BartlettHannWindow", "BlackmanHarrisWindow", "BohmanWindow", "DolphChebyshevWindow", "ExponentialWindow", "FlatTopWindow", "GaussianWindow", "NuttallWindow", "ParzenWindow",
                   "SlepianWindow"},
         "jack": {"Jack"}, "numexpr": set(), "soundfile": set()}
METHODS = {"short_time_fourier_transform", "inverse_short_time_fourier_transform", "skewness", "kurtosis"}  # these need scipy
STANDARD = {"WAV_UINT8", "WAV_INT16", "WAV_INT32", "AIFF_INT8", "AIFF_INT16", "AIFF_INT32",     # these audio formats do not need soundfile
            "AUTO.wav", "AUTO.aiff", "AUTO.aif", "AUTO.aifc"}
MISSING = ("raised ImportError", "raised ModuleNotFoundError")
REFUSED = MISSING + ("raised ValueError",)


# executed in the other interpreter


def guarded(function, *args):
    from mc.checks import c28
    try:
        with numpy.errstate(all="ignore"):
            return c28.describe(function(*args))
    except Exception as e:  # pylint: disable=broad-except
        return "raised " + type(e).__name__


def names():
    import sumpf
    return {"names": tuple(sorted(n for n in dir(sumpf) if inspect.isclass(getattr(sumpf, n)) or inspect.isfunction(getattr(sumpf, n))))}


def methods():
    from mc.checks import c28
    result = {}
    for description, create in c28.universe():
        if description[-1] is None:     # a random seed
            continue
        if description[0] in ("terms", "filters") and description[2] not in "+/":
            continue
        with numpy.errstate(all="ignore"):
            data = create()
            for name, value in c28.observe(data).items():
                result[" ".join(map(str, description + [name]))] = value
    return result


def sweeps():
    import sumpf
    result = {}
    for name, length, (f0, f1), phase, interval, rate in itertools.product(("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep"),
                                                                           (1, 2, 17, 8190, 8191, 8192, 8193, 8194, 9999, 20000), ((20.0, 2000.0), (0.5, 3.0)), (0.0, -2.0), ((0.0, 1.0), (0.125, 0.75), (1, -1)), (48000.0, 3.0)):
        def create():
            s = getattr(sumpf, name)(start_frequency=f0, stop_frequency=f1, phase=phase, interval=interval, sampling_rate=rate, length=length)
            return s, s.instantaneous_frequency(numpy.arange(5) / rate), s.harmonic_impulse_response(sumpf.Signal(channels=ref.symbolic(1, 64), sampling_rate=rate), 2) if "Exponential" in name and length < 100 else None
        result[f"{name} {length} {f0} {f1} {phase} {interval} {rate}"] = guarded(create)
    return result


def stored():
    """Yields (name, data set)"""
    import sumpf
    yield "Signal", sumpf.Signal(channels=numpy.array([[0.5, -0.25, 0.125, 0.0], [-1.0, 0.75, 0.25, -0.125]]), sampling_rate=44100.0, labels=("a", "b"))
    yield "Signal", sumpf.Signal(channels=numpy.array([[0.5], [0.25], [-0.75]]), sampling_rate=8000.0, offset=3)
    yield "Spectrum", sumpf.Spectrum(channels=numpy.array([[1.0, 2.0j, 3.0 - 1.0j]]), resolution=0.5, labels=("x",))
    yield "Spectrogram", sumpf.Spectrogram(channels=numpy.array([[[1.0, 2.0j], [0.5, -1.0]]]), resolution=0.5, sampling_rate=3.0, offset=-1, labels=("x",))
    yield "Filter", sumpf.ButterworthFilter(cutoff_frequency=100.0, order=3)
    yield "Bands", sumpf.Bands({1.0: 2.0, 3.0: 4.0 - 1.0j}, labels=("x",))


def save(directory, data, file_format, extension):
    """Saves the data set and returns, whether this was possible"""
    path = os.path.join(directory, file_format + extension)
    try:
        data.save(path, data.file_formats[file_format])
    except Exception as e:  # pylint: disable=broad-except
        return f"raised {type(e).__name__}"
    return "saved"


EXTENSIONS = (".csv", ".json", ".js", ".npz", ".npy", ".pickle", ".wav", ".aiff", ".aifc", ".aif", ".flac", ".ogg", ".oga", ".txt")


def write(directory):
    result = {}
    for number, (name, data) in enumerate(stored()):
        path = os.path.join(directory, f"{number}{name}")
        os.makedirs(path, exist_ok=True)
        for f in data.file_formats:
            for extension in (EXTENSIONS if f.name == "AUTO" else ("",)):
                if f.name not in data.file_formats.__members__:
                    continue
                result[f"{number}{name}/{f.name}{extension}"] = save(path, data, f.name, extension)
    return result


def read(directories):
    import sumpf
    result = {}
    for mask, directory in directories:
        for folder in sorted(os.listdir(directory)):
            cls = getattr(sumpf, folder[1:])
            for file in sorted(os.listdir(os.path.join(directory, folder))):
                def load():
                    y = cls.load(os.path.join(directory, folder, file))
                    return (y, y.offset()) if isinstance(y, sumpf.Signal) else y
                result[f"{folder}/{file} written without {mask}"] = guarded(load)
    return result


def operations(directory, files_directory):
    """The operations, of which all sequences are executed"""
    import sumpf
    signal = sumpf.Signal(channels=numpy.array([[0.5, -0.25, 0.125, 0.0], [-1.0, 0.75, 0.25, -0.125]]), sampling_rate=8000.0, labels=("a", "b"))
    spectrogram = sumpf.Spectrogram(channels=numpy.array([[[1.0, 2.0j], [0.5, -1.0]]]), resolution=0.5, sampling_rate=3.0)
    result = {"stft": lambda: signal.short_time_fourier_transform(2), "istft": lambda: spectrogram.inverse_short_time_fourier_transform(2), "skewness": signal.skewness, "kurtosis": signal.kurtosis,
              "sweep": lambda: sumpf.ExponentialSweep(length=8193), "inverse sweep": lambda: sumpf.InverseLinearSweep(length=8193), "mls": lambda: sumpf.MaximumLengthSequence(seed=3, length=7),
              "parzen": lambda: sumpf.ParzenWindow(length=7), "hann": lambda: sumpf.HannWindow(length=7), "convolve": lambda: signal.convolve(signal), "spectrum": signal.fourier_transform}
    for file_format, extension in [("AUTO", e) for e in (".wav", ".aiff", ".flac", ".ogg", ".npz")] + [(f, "") for f in ("WAV_INT16", "WAV_FLOAT64", "AIFF_INT16", "FLAC_INT16", "NUMPY_NPY")]:
        def saved(f=file_format, e=extension):
            path = os.path.join(directory, "saved" + e)
            if os.path.exists(path):
                os.remove(path)
            signal.save(path, sumpf.Signal.file_formats[f])
            with open(path, "rb") as file:
                content = file.read()
            if b"PEAK" in content:      # this chunk contains a time stamp
                i = content.index(b"PEAK") + 12
                content = content[0:i] + bytes(4) + content[i + 4:]
            return numpy.frombuffer(content, dtype=numpy.uint8) if e not in (".npz", ".ogg") else None
        result[f"save {file_format}{extension}"] = saved
    for file in sorted(os.listdir(os.path.join(files_directory, "0Signal"))):
        if file in ("AUTO.wav", "AUTO.flac", "AUTO.npz", "AUTO.aiff", "WAV_INT16", "WAV_FLOAT64", "AIFF_INT16", "FLAC_INT16", "NUMPY_NPY", "TEXT_CSV"):
            result[f"load {file}"] = lambda file=file: sumpf.Signal.load(os.path.join(files_directory, "0Signal", file))
    return result


def isolated(function):
    """The result of the function, when it is called in a forked process"""
    reading, writing = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(reading)
            with os.fdopen(writing, "wb") as f:
                pickle.dump(function(), f)
        finally:
            os._exit(0)
    os.close(writing)
    with os.fdopen(reading, "rb") as f:
        result = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(result) if result else "crashed"


def sequences(directory, files_directory, depth):
    result = {}
    table = operations(directory, files_directory)

    def alone(n):
        return isolated(lambda: guarded(table[n]))

    def descend(path):
        """Executes all continuations in forked processes, that have executed the path before"""
        found = {}
        for n in table:
            def execute():
                value = {" -> ".join(path + [n]): guarded(table[n])}
                if len(path) + 1 < depth:
                    value.update(descend(path + [n]))
                return value
            answer = isolated(execute)
            if answer == "crashed":
                found[" -> ".join(path + [n])] = "crashed"
            else:
                found.update(answer)
        return found

    result["alone"] = {n: alone(n) for n in table}
    result["sequences"] = descend([])
    return result


def serve(mask, part, arguments):
    """The main function of the other interpreter"""
    output = sys.stdout.buffer
    sys.stdout = sys.stderr
    for library in mask:
        sys.modules[library] = None
    if part == "sequences":     # import everything, that is available, once rather than in each forked process
        for library in ("scipy.signal", "scipy.stats", "numexpr", "soundfile", "wave", "aifc"):
            try:
                __import__(library)
            except ImportError:
                pass
    value = globals()[part](*arguments)
    output.write(pickle.dumps(value))
    output.flush()


# executed in the checker's process


def start(mask, part, *arguments):
    program = (f"import sys; sys.path[:0] = [{core.REPO!r}, {core.VERIF!r}]; sys.dont_write_bytecode = True; from mc.checks import c29; "
               f"c29.serve({tuple(mask)!r}, {part!r}, {arguments!r})")
    return subprocess.Popen([sys.executable, "-W", "ignore", "-c", program], env=dict(os.environ, PYTHONHASHSEED="7"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def collect(process, what):
    output, errors = process.communicate()
    if process.returncode != 0 or not output:
        raise Mismatch(f"{what}: the interpreter ended with {process.returncode}: {errors.decode(errors='replace')[-1500:]}")
    return pickle.loads(output)


def executed(ck, masks, part, arguments=lambda mask: ()):
    """Executes a part without each of the masks' libraries; yields (mask, result)"""
    masks = list(masks)
    running = {}
    for i, mask in enumerate(masks):
        for m in masks[i:i + 8]:
            if m not in running:
                running[m] = start(m, part, *arguments(m))
        case = {"part": part, "missing": list(mask)}
        result = []
        ck.run(case, lambda: result.append(collect(running[mask], f"without {mask}")))
        if result:
            yield mask, result[0]


def permitted(part, key, mask, value):
    """Whether the value may differ from the one with all libraries, because one of them is required"""
    if part == "methods":
        words = key.split(" ")
        return "scipy" in mask and words[-1] in METHODS and value in MISSING
    return False


def compare(ck, part, mask, expected, actual):
    from mc.checks import c28

    def removed(key):
        return part == "methods" and any(key.startswith(f"class {n} ") for m in mask for n in NAMES[m])

    for key, value in expected.items():
        def execute():
            if key not in actual:
                expect(removed(key), "without {}: {} is not available", mask, key)
                ck.outcome("not available")
            elif permitted(part, key, mask, actual[key]):
                ck.outcome("requires a missing library")
            else:
                expect(c28.same(value, actual[key], 1e-7 if part == "sweeps" else 1e-9), "without {}: {} is {!r} rather than {!r}", mask, key, actual[key], value)
                ck.outcome("same")
        ck.run({"part": part, "missing": list(mask), "key": key}, execute)
        ck.transition()
        ck.state((part, mask, key))
    for key in actual:
        if key not in expected:
            ck.fail({"part": part, "missing": list(mask), "key": key}, f"without {mask}: {key} is only available, when the libraries are missing")


def parts(ck, part, masks):
    expected = None
    for mask, actual in executed(ck, [()] + [m for m in masks if m], part):
        if expected is None:
            if mask:
                return
            expected = actual
        if part == "names":
            def execute():
                optional = set().union(*(NAMES[m] for m in mask))
                missing = set(expected["names"]) - set(actual["names"])
                expect(missing <= optional, "without {}: the names {} are missing", mask, sorted(missing - optional))
                expect_equal(sorted(set(actual["names"]) - set(expected["names"])), [], "additional names")
                ck.outcome("names")
            ck.run({"part": part, "missing": list(mask)}, execute)
            ck.transition()
            ck.state((part, mask))
        elif mask:
            compare(ck, part, mask, expected, actual)


def needs_soundfile(key):
    return not any(key.split("/")[1].split(" ")[0] == n for n in STANDARD) and key[1:].startswith("Signal/") and any(t in key for t in ("WAV", "AIFF", "FLAC", "OGG", ".wav", ".ai", ".flac", ".og"))


def files(ck, masks):
    from mc.checks import c28
    masks = [()] + [m for m in masks if m]
    directories = {m: os.path.join(ck.scratch, "files" + "-".join(m)) for m in masks}
    for d in directories.values():
        os.makedirs(d, exist_ok=True)
    written = dict(executed(ck, masks, "write", lambda m: (directories[m],)))
    for mask in written:
        for key, value in written[()].items():
            def execute():
                actual = written[mask].get(key)
                if "soundfile" in mask and needs_soundfile(key) and actual in REFUSED:
                    path = os.path.join(directories[mask], key)
                    expect(not os.path.exists(path), "without {}: saving {} {}, but leaves a file", mask, key, actual)
                    ck.outcome("not saved, as it requires a missing library")
                else:
                    expect_equal(actual, value, f"without {mask}: the result of saving {key}")
                    ck.outcome(value)
            ck.run({"part": "files", "missing": list(mask), "key": key}, execute)
            ck.transition()
            ck.state(("write", mask, key))
    expected = None
    for mask, actual in executed(ck, masks, "read", lambda m: ([("-".join(n), directories[n]) for n in masks],)):
        if expected is None:
            if mask:
                return
            expected = actual
        for key, value in actual.items():
            def execute():
                if "soundfile" in mask and value in REFUSED and (needs_soundfile(key) or "AUTO" in key and "soundfile" not in key):
                    expect(needs_soundfile(key) or any(e in key for e in (".wav", ".ai")), "without {}: loading {} {}", mask, key, value)
                    ck.outcome("not loaded, as it requires a missing library")
                    return
                expect(c28.same(expected[key], value, 1e-6), "without {}: {} is loaded as {!r} rather than {!r}", mask, key, value, expected[key])
                reference = expected[key[0:key.index(" written")] + " written without "] if key[0:key.index(" written")] + " written without " in expected else value
                lossy = "AUTO" in key and key[1:].startswith("Signal")    # these are written in other formats, when soundfile is missing
                expect(c28.same(reference, expected[key], 1e-6) if not lossy else alike(reference, expected[key]), "{} contains {!r} rather than {!r}", key, expected[key], reference)
                ck.outcome("loaded" if not isinstance(value, str) else value)
            ck.run({"part": "files", "missing": list(mask), "key": key}, execute)
            ck.transition()
            ck.state(("read", mask, key))


def alike(a, b):
    """Compares two signals, that may have been saved with different accuracies (and as float32 or float64)"""
    from mc.checks import c28
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray) and a.dtype.kind == "f":
        return a.shape == b.shape and b.dtype.kind == "f" and bool(numpy.all(numpy.abs(a - b) <= 1e-6))
    return c28.same(a, b)


def histories(ck, masks, depth, only=None):
    from mc.checks import c28
    masks = list(masks)
    directories = {m: os.path.join(ck.scratch, "sequences" + "-".join(m)) for m in masks}
    written = os.path.join(ck.scratch, "loaded")
    for d in (written, *directories.values()):
        os.makedirs(d, exist_ok=True)
    collect(start((), "write", written), "writing the files")
    for mask, result in executed(ck, masks, "sequences", lambda m: (directories[m], written, depth)):
        for path, value in result["sequences"].items():
            last = path.split(" -> ")[-1]
            if only is not None and path != only:
                continue

            def execute():
                expect(c28.same(result["alone"][last], value), "without {}: {} is {!r} after {}, but {!r} alone", mask, last, value, path, result["alone"][last])
                ck.outcome("operation" if not isinstance(value, str) else value)
            ck.run({"part": "sequences", "missing": list(mask), "path": path, "depth": depth}, execute)
            ck.transition()
            ck.state(("sequences", mask, path))


def explore(ck):
    ck.sample({"part": "sweeps", "missing": ["numexpr"], "key": "LinearSweep 8193"})
    for part in ("names", "methods", "sweeps"):
        parts(ck, part, MASKS)
    files(ck, MASKS)
    histories(ck, [m for m in MASKS if "jack" not in m] if not ck.thorough else [(), ("soundfile",), ("scipy", "numexpr"), LIBRARIES], 3 if ck.thorough else 2)


def replay(ck, case):
    mask = tuple(case["missing"])
    if case["part"] in ("files", "write", "read"):
        files(ck, MASKS)
    elif case["part"] == "sequences":
        histories(ck, [mask], case.get("depth", 2), case.get("path"))
    else:
        parts(ck, case["part"], [mask])
