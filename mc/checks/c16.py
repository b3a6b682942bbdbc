"""C16: histories of saving, overwriting and loading files."""

import gc
import itertools
import os
import pickle
import shutil
import sys
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "all histories of 3 operations (save a data set in one of the formats to one of the files, load one of the files, fail to load garbage, fail to save) "
                   "with 9-13 operations and of 2 operations with 13-20 operations per kind of data set (signals with and without the soundfile library, spectrums, spectrograms, "
                   "filters mixed with bands), each in a process of its own, followed by loading all files in both orders; all pairs of all formats and extensions, all combinations of formats and file extensions",
          "thorough": "additionally histories of 4 operations with 9-13 operations and of 3 operations with 13-20 operations"}
ASSUMPTIONS = ["text files, that no format describes, are not used (some text is a table in one of the formats)",
               "a representation is not saved with the extension .csv (its text is a table without rows)"]



# data sets; each step of a history saves another one


def data(kind, step):
    import sumpf
    c, n = 1 + step % 2, 4 + 2 * step
    v = (numpy.arange(c * n).reshape(c, n) - 1.5 * step) / 17.3
    labels = tuple(f"{kind} {step} {i}" for i in range(c))
    if kind == "signal":
        return sumpf.Signal(channels=v, sampling_rate=1000.0 * (step + 1), offset=step % 2, labels=labels)
    if kind == "spectrum":
        return sumpf.Spectrum(channels=v + 1j * v[:, ::-1], resolution=0.5 + step, labels=labels)
    if kind == "spectrogram":
        return sumpf.Spectrogram(channels=(v + 1j)[:, None, :] * numpy.ones((1, 2, 1)), resolution=0.5 + step, sampling_rate=7.0 + step, offset=-step, labels=labels)
    if kind == "bands":
        return sumpf.Bands(bands=[{10.0: 1.0 + step, 20.0 + step: 0.5 + i} for i in range(c)], interpolations=[sumpf.Bands.interpolations.LINEAR] * c,
                           extrapolations=[sumpf.Bands.interpolations.STAIRS_LIN] * c, labels=labels)
    if kind == "filter":
        term = sumpf.Filter.Constant(2.0 + step) / sumpf.Filter.Polynomial([0.5, 1.0 + step])
        return sumpf.Filter(transfer_functions=(term, sumpf.Filter.Exp(-0.1 * step))[:c], labels=labels)
    raise ValueError(kind)


def classes(kind):
    import sumpf
    return {"signal": sumpf.Signal, "spectrum": sumpf.Spectrum, "spectrogram": sumpf.Spectrogram, "bands": sumpf.Bands, "filter": sumpf.Filter}[kind]


GRID = (0.0, 1.0, 10.0, 15.0, 25.0, 1e3)


def describe(x):
    """Everything, that can be observed of a data set"""
    import sumpf
    if isinstance(x, sumpf.Filter):
        return (isinstance(x, sumpf.Bands), tuple(x.labels()), tuple(tuple(repr(complex(v)) for v in row) for row in x(numpy.array(GRID))))
    axes = tuple(float(getattr(x, a)()) for a in ("sampling_rate", "resolution", "offset") if hasattr(x, a))
    return (type(x).__name__, tuple(x.labels()), x.shape(), axes, tuple(x.channels().reshape(-1).tolist()))


def close(got, original, name):
    """The loaded data must be the saved one up to the format's resolution."""
    import sumpf
    if isinstance(original, sumpf.Filter):
        expect_equal(len(got), len(original), "number of channels")
        frequencies = [10.0] if name.startswith("TEXT_") and name not in ("TEXT_JSON", "TEXT_REPR") or name == "NUMPY_NPY" else GRID
        for f in frequencies:
            ref.expect_array(got(f), original(f), f"value at {f} Hz")
        return
    exact = name in ("TEXT_JSON", "TEXT_CSV", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE") or "FLOAT64" in name
    expect_equal(got.shape(), original.shape(), "shape")
    if not name.startswith("OGG"):
        a, b = got.channels(), original.channels()
        expect(numpy.allclose(a, b, rtol=0.0, atol=1e-12 if exact else 0.04), "samples: {} instead of {}", a, b)
    if not name.startswith("OGG") and hasattr(got, "sampling_rate"):
        expect(abs(got.sampling_rate() - original.sampling_rate()) < 1e-6, "sampling rate {} instead of {}", got.sampling_rate(), original.sampling_rate())
    if hasattr(got, "resolution"):
        expect(abs(got.resolution() - original.resolution()) < 1e-9, "resolution {} instead of {}", got.resolution(), original.resolution())


# operations


def alphabet(kind, small=False):
    if small is None:       # all formats and extensions
        kinds = ("filter", "bands") if kind == "filter" else (kind,)
        ops = [("save", "b", f.name, k) for k in kinds for f in classes(k).file_formats if f.name != "AUTO"]
        return ops + [("save", "a" + e, "AUTO", k) for k in kinds for e in AUTOMATIC[k]]
    S = lambda name, *formats: [("save", name, f) for f in formats]
    if kind == "signal":
        ops = S("a.wav", "AUTO", "WAV_INT16", "WAV_FLOAT64") + S("b", "TEXT_CSV", "NUMPY_NPZ", "WAV_INT16", "PYTHON_PICKLE")
        if not small:
            ops += S("a.csv", "AUTO", "WAV_INT16") + S("b", "TEXT_JSON", "NUMPY_NPY", "FLAC_INT24") + S("a.flac", "AUTO")
        files = ("a.wav", "b") if small else ("a.wav", "b", "a.csv")
    elif kind in ("spectrum", "spectrogram"):
        ops = S("a.json", "AUTO", "NUMPY_NPZ") + S("b", "TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE")
        if not small:
            ops += S("a.npz", "AUTO", "TEXT_JSON", "PYTHON_PICKLE") + S("a.pickle", "AUTO")
            ops += S("b", "TEXT_CSV", "NUMPY_NPY") + S("a.csv", "AUTO") if kind == "spectrum" else []
        files = ("a.json", "b") if small else ("a.json", "b", "a.npz")
    else:
        ops = [("save", "a.txt", "AUTO", "bands"), ("save", "a.txt", "AUTO", "filter"), ("save", "a.txt", "TEXT_REPR", "bands"), ("save", "a.txt", "TEXT_PIPE_J", "bands"),
               ("save", "b", "TEXT_JSON", "filter"), ("save", "b", "TEXT_GNUPLOT", "bands"), ("save", "b", "PYTHON_PICKLE", "bands")]
        if not small:
            ops += [("save", "b", "NUMPY_NPZ", "bands"), ("save", "b", "TEXT_CSV", "bands"), ("save", "b", "TEXT_REPR", "filter"), ("save", "a.json", "AUTO", "filter"),
                    ("save", "a.json", "AUTO", "bands"), ("save", "a.csv", "AUTO", "bands")]
        files = ("a.txt", "b") if small else ("a.txt", "b", "a.json")
    ops = [op if len(op) == 4 else op + (kind,) for op in ops]
    ops += [("load", f) for f in files]
    ops += [("garbage", files[0]), ("fail", files[0])]
    if not small:
        ops += [("garbage", "b")]
    return ops


def perform(op, step, directory, model, reference, kind):
    """Executes one operation on the real code and checks it against the model (name -> (step, format, kind))."""
    path = os.path.join(directory, op[1])
    if op[0] == "save":
        x = data(op[3], step)
        expect(x.save(path, x.file_formats[op[2]]) is x, "save did not return the data set")
        model[op[1]] = (step, op[2], op[3])
    elif op[0] == "load":
        return [load(op[1], directory, model, reference)]
    elif op[0] == "garbage":        # loading binary data, that is no audio file
        other = os.path.join(directory, "garbage" + os.path.splitext(op[1])[1])
        with open(other, "wb") as f:
            f.write(bytes(range(256)) * 3)
        refused(lambda: classes("bands" if kind == "filter" else kind).load(other), "binary garbage has been loaded")
        refused(lambda: classes(kind).load(os.path.join(directory, "missing" + os.path.splitext(op[1])[1])), "a missing file has been loaded")
    elif op[0] == "fail":           # saving, where it is not possible
        x = data(kind, step)
        refused(lambda: x.save(os.path.join(directory, "missing", op[1])), "saved to a missing directory", (OSError, ValueError, RuntimeError, ImportError))
        refused(lambda: x.save(os.path.join(directory, "a.unknown")), "guessed the format for an unknown extension")
    return []


def refused(function, message, errors=ValueError):
    try:
        function()
    except errors:
        return
    raise Mismatch(message)


def load(name, directory, model, reference):
    step, file_format, kind = model[name]
    got = classes(kind).load(os.path.join(directory, name))
    expect_equal(describe(got), reference[(name, step, file_format, kind)], "the loaded data set, compared to the one in a new process,")
    return got, reference[(name, step, file_format, kind)]


def unchanged(loaded, what):
    for got, expected in loaded:
        expect_equal(describe(got), expected, "a loaded data set " + what)


def warm_up(directory):
    """Imports and initializes the libraries, so that this does not have to be repeated in each forked process."""
    import io, json, csv, wave, zipfile, encodings.cp437    # noqa; pylint: disable=unused-import,import-outside-toplevel,multiple-imports
    import soundfile, sumpf     # noqa; pylint: disable=unused-import,import-outside-toplevel,multiple-imports
    path = os.path.join(directory, "warm_up")
    with open(path, "wb") as f:
        numpy.savez_compressed(f, a=numpy.ones(2))
    with open(path, "rb") as f:
        dict(numpy.load(f))
    soundfile.write(path, numpy.ones((3, 2)), 48000, format="WAV")
    soundfile.read(path)
    os.remove(path)
    gc.collect()
    gc.freeze()
    gc.disable()


def block_soundfile():
    sys.modules["soundfile"] = None


def fresh(ck, function, *args):
    """Returns the result of a function in a new process."""
    path = os.path.join(ck.scratch, "result")

    def run(child):
        with open(path, "wb") as f:
            pickle.dump(function(child, *args), f)

    if os.path.exists(path):
        os.remove(path)
    ck.forked(run)
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return pickle.load(f)


def references(ck, kind, soundfile, ops, steps):
    """The content of the files, if they are saved and loaded in new processes"""
    directory = os.path.join(ck.scratch, "reference")
    result = {}
    for op, step in itertools.product([o for o in ops if o[0] == "save"], range(steps)):
        _, name, file_format, k = op
        case = {"kind": kind, "soundfile": soundfile, "history": [op]}
        os.makedirs(directory)

        def save(child):
            def run():
                x = data(k, step)
                x.save(os.path.join(directory, name), x.file_formats[file_format])

            if not soundfile:
                block_soundfile()
            child.run(case, run)

        def restore(child):
            def run():
                got = classes(k).load(os.path.join(directory, name))
                actual = AUTOMATIC[k][os.path.splitext(name)[1]] if file_format == "AUTO" else file_format
                close(got, data(k, step), actual)
                return describe(got)

            if not soundfile:
                block_soundfile()
            return child.run(case, run)

        ck.forked(save)
        result[(name, step, file_format, k)] = fresh(ck, restore)
        shutil.rmtree(directory)
    return result


def histories(ck, spec):
    kind, soundfile, small, depth, first = spec
    ops = available(kind, soundfile, small)
    if ops[first][0] == "load":
        return
    reference = references(ck, kind, soundfile, ops, depth)
    for rest in itertools.product(ops, repeat=depth - 1):
        history = (ops[first],) + rest
        if history[-1][0] == "load" or any(o[0] == "load" and all(p[:2] != ("save", o[1]) for p in history[:i]) for i, o in enumerate(history)):
            continue        # all files are loaded at the end, anyway; or a file is loaded, that does not exist, yet
        ck.transition(depth)
        for i in range(1, depth + 1):
            ck.state((kind, soundfile, small, history[:i]))
        ck.forked(execute, kind, soundfile, history, reference)
        ck.sample({"kind": kind, "history": history}, limit=1)


def execute(ck, kind, soundfile, history, reference):
    sys.unraisablehook = lambda *args: None     # the wave module complains, when it cannot open a file
    if not soundfile:
        block_soundfile()
    directory = ck.scratch
    case = {"kind": kind, "soundfile": soundfile, "history": history}

    def run():
        model = {}
        loaded = []
        for step, op in enumerate(history):
            loaded += perform(op, step, directory, model, reference, kind)
        unchanged(loaded, "after other files have been saved and loaded")
        loaded += [load(name, directory, model, reference) for name in list(model) + list(reversed(model))]
        for name in model:
            path = os.path.join(directory, name)
            with open(path, "r+b") as f:        # the data sets must not depend on their files
                f.write(bytes(os.path.getsize(path)))
        unchanged(loaded, "after its file has been overwritten")
        ck.outcome(f"{kind}: {len(model)} files at the end")

    ck.run(case, run)


STANDARD_LIBRARY = ("WAV_UINT8", "WAV_INT16", "WAV_INT32", "AIFF_INT8", "AIFF_INT16", "AIFF_INT32")
AUTOMATIC = {"signal": {".csv": "TEXT_CSV", ".json": "TEXT_JSON", ".js": "TEXT_JSON", ".npz": "NUMPY_NPZ", ".npy": "NUMPY_NPY", ".pickle": "PYTHON_PICKLE", ".wav": "WAV_FLOAT32",
                        ".aiff": "AIFF_FLOAT32", ".aifc": "AIFF_FLOAT32", ".aif": "AIFF_FLOAT32", ".flac": "FLAC_INT24", ".ogg": "OGG_VORBIS", ".oga": "OGG_VORBIS"},
             "spectrum": {".csv": "TEXT_CSV", ".json": "TEXT_JSON", ".js": "TEXT_JSON", ".npz": "NUMPY_NPZ", ".npy": "NUMPY_NPY", ".pickle": "PYTHON_PICKLE"},
             "spectrogram": {".json": "TEXT_JSON", ".js": "TEXT_JSON", ".npz": "NUMPY_NPZ", ".pickle": "PYTHON_PICKLE"},
             "filter": {".txt": "TEXT_REPR", ".json": "TEXT_JSON", ".js": "TEXT_JSON", ".pickle": "PYTHON_PICKLE"},
             "bands": {".txt": "TEXT_TAB_I", ".dat": "TEXT_TAB_I", ".asc": "TEXT_TAB_I", ".tab": "TEXT_TAB_I", ".csv": "TEXT_CSV", ".json": "TEXT_JSON", ".js": "TEXT_JSON",
                       ".npy": "NUMPY_NPY", ".npz": "NUMPY_NPZ", ".pickle": "PYTHON_PICKLE"}}


def available(kind, soundfile, small):
    ops = alphabet(kind, small)
    if soundfile:
        return ops
    audio = ("WAV", "AIFF", "FLAC", "OGG")
    return [o for o in ops if o[0] != "save" or not (o[2].split("_")[0] in audio and o[2] not in STANDARD_LIBRARY or o[1].rsplit(".")[-1] in ("flac", "ogg", "oga"))]


def combinations(ck, spec):
    """Every format under every extension"""
    kind, extension = spec
    formats = [f.name for f in classes(kind).file_formats if f.name != "AUTO"]
    for f in formats:
        if f == "TEXT_REPR" and extension == ".csv":
            continue
        op = ("save", "c" + extension, f, kind)
        ck.state(("combination", kind, extension, f))
        ck.transition()
        reference = references(ck, kind, True, [op], 2)
        ck.forked(execute, kind, True, (op, op), reference)


CONFIGURATIONS = [("signal", True), ("signal", False), ("spectrum", True), ("spectrogram", True), ("filter", True)]
EXTENSIONS = ("", ".csv", ".json", ".npz", ".npy", ".pickle", ".wav", ".aiff", ".flac", ".ogg", ".txt", ".dat", ".tab", ".asc", ".zzz")


def explore(ck):
    warm_up(ck.scratch)
    ck.parallel(combinations, [(k, e) for k in ("signal", "spectrum", "spectrogram", "bands", "filter") for e in EXTENSIONS])
    specs = []
    for k, s in CONFIGURATIONS:
        specs += [(k, s, False, 3 if ck.thorough else 2, i) for i in range(len(available(k, s, False)))]
        specs += [(k, s, None, 2, i) for i in range(len(available(k, s, None)))]
        specs += [(k, s, True, 4 if ck.thorough else 3, i) for i in range(len(available(k, s, True)))]
    ck.parallel(histories, specs)


def replay(ck, case):
    history = tuple(tuple(o) for o in case["history"])
    reference = references(ck, case["kind"], case["soundfile"], [o for o in history if o[0] == "save"], len(history))
    ck.forked(execute, case["kind"], case["soundfile"], history, reference)
