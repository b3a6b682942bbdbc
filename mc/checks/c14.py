"""C14: saving and loading data sets, for every format, backend and shape."""

import math
import os
import pathlib
import sys
import numpy
from mc import ref
from mc.core import Mismatch
from mc.ref import expect, expect_equal

BOUNDS = {"quick": "every file format of signals, spectrums and spectrograms, with and without the soundfile library on either side; 1-3 channels, "
                   "lengths 0-4, 5 sets of values (symbolic, extreme, rounding borders, beyond full scale, nan/inf), 3 offsets, 5 sampling rates or resolutions, "
                   "4 sets of labels, 4 dtypes and memory layouts, names with and without the matching extension as str and Path; "
                   "lengths 2047-2049, 4095-4097 and 5000 for the block-wise readers and writers; every permutation of the rows of a table; many channels and long tables",
          "thorough": "additionally lengths 0-9 and 4 channels"}
ASSUMPTIONS = ["the libraries numpy, soundfile/libsndfile, wave, aifc and json read, what they have written",
               "the compressed values of Ogg Vorbis files are not compared"]

EXACT = ("TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE")
EXTENSIONS = {"TEXT_CSV": ".csv", "TEXT_JSON": ".json", "NUMPY_NPZ": ".npz", "NUMPY_NPY": ".npy", "PYTHON_PICKLE": ".pickle", "WAV": ".wav",
              "AIFF": ".aiff", "FLAC": ".flac", "OGG": ".ogg"}
LABELS = [("a", "b", "c", "d"), ("\u00e9, \"x\"\ny", "", "'", ";"), ("1.5", "2", "nan", "0"), ("time", "frequency", "a", "a")]
STANDARD_LIBRARY = ("WAV_UINT8", "WAV_INT16", "WAV_INT32", "AIFF_INT8", "AIFF_INT16", "AIFF_INT32")


def extension_of(name):
    return EXTENSIONS.get(name) or EXTENSIONS[name.split("_")[0]]


def bits_of(name):
    for b in (8, 16, 24, 32):
        if name.endswith(f"INT{b}"):
            return b
    return None


# data sets


def values(kind, c, n, what, bits=16):
    size = c * n
    if what == "symbolic":
        v = ref.symbolic(c, n).ravel() / 16.5
    else:
        lsb = 2.0 ** (1 - (bits or 16))
        pool = {"extreme": [1.0, -1.0, 1.0 - lsb, -1.0 + lsb, 0.0, -0.0, 0.5],
                "rounding": [0.25 * lsb, 0.75 * lsb, -0.25 * lsb, -0.75 * lsb, 1.0 - 0.25 * lsb, -1.0 + 0.25 * lsb, 1.5 * lsb],
                "beyond": [1.25, -1.25, 7.0, -9.0, 0.125, 1e6, -1e6],
                "special": [math.inf, -math.inf, math.nan, 0.0, 1e-300, 1e300, -1e-9]}[what]
        v = numpy.array([pool[i % len(pool)] for i in range(size)], dtype=float)
    if kind != "signal":
        w = numpy.empty(size, dtype=complex)
        w.real = v
        w.imag = v[::-1] if what != "special" else numpy.roll(v, 1)
        v = w
    return v.reshape(c, n)


def layout(array, how):
    if how == "plain":
        return array
    if how == "fortran":
        return numpy.asfortranarray(array)
    if how == "strided":
        big = numpy.zeros(array.shape[:-1] + (2 * array.shape[-1] + 1,), dtype=array.dtype)
        big[..., 1::2] = array
        return big[..., 1::2]
    if how == "single":
        return array.astype(numpy.complex64 if numpy.iscomplexobj(array) else numpy.float32)
    if how == "integer":
        return numpy.round(array.real).astype(numpy.int64)
    if how == "short":
        return numpy.round(array.real).astype(numpy.int16)
    raise ValueError(how)


def create(case):
    import sumpf
    kind, c, n = case["kind"], case["channels"], case["length"]
    how = case.get("layout", "plain")
    f = case.get("frequencies", 2)
    v = values(kind, c, n * (f if kind == "spectrogram" else 1), case["values"], bits_of(case["format"]))
    labels = LABELS[case.get("labels", 0)][:c]
    rate = case.get("rate", 48000.0)
    if case.get("numpy"):
        rate = numpy.float32(rate)
    offset = numpy.int64(case.get("offset", 0)) if case.get("numpy") else case.get("offset", 0)
    if kind == "signal":
        return sumpf.Signal(channels=layout(v, how), sampling_rate=rate, offset=offset, labels=labels)
    if kind == "spectrum":
        return sumpf.Spectrum(channels=layout(v, how), resolution=rate, labels=labels)
    return sumpf.Spectrogram(channels=layout(v.reshape(c, f, n), how), resolution=rate, sampling_rate=rate / 3.0, offset=offset, labels=labels)


def formats(kind):
    import sumpf
    cls = getattr(sumpf, kind.capitalize())
    return [f for f in cls.file_formats if f.name != "AUTO"]


# what the format can represent


def expected_rate(name, rate):
    if name in EXACT or name in ("TEXT_CSV", "NUMPY_NPY"):
        return rate
    if name.startswith("FLAC") and rate >= 65535.5:
        return float(min(round(rate, -1), 655350))
    if name.startswith("OGG"):
        return float(max(1000, min(round(rate), 200000)))
    return float(max(1, round(rate)))


def compare(case, name, x, y, filename):
    """Checks the loaded data set ``y`` against the saved one ``x``."""
    kind, n = case["kind"], case["length"]
    expect_equal(type(y).__name__, type(x).__name__, "type")
    table = name in ("TEXT_CSV", "NUMPY_NPY")
    audio = not table and name not in EXACT
    wanted, got = numpy.asarray(x.channels()), numpy.asarray(y.channels())
    if audio and name.startswith("AIFF") and (name.endswith("8") or name.endswith("LAW")) and n % 2 and x.shape()[0] % 2 \
            and got.shape == (wanted.shape[0], n + 1):
        got = got[:, :-1]       # libsndfile exposes the padding byte of odd sized chunks as a sample
    expect_equal(got.shape, wanted.shape, "shape")
    if not audio:
        if not numpy.array_equal(got.astype(wanted.dtype), wanted, equal_nan=True):
            raise Mismatch(f"samples: got {got!r}, expected {wanted!r}")
    elif bits_of(name):
        lsb = 2.0 ** (1 - bits_of(name))
        clipped = numpy.clip(wanted, -1.0, 1.0 - lsb)
        if got.size and not (numpy.abs(got - clipped) <= lsb * 1.001).all():
            raise Mismatch(f"samples (resolution {lsb}): got {got!r}, expected {clipped!r}")
    elif name.endswith("FLOAT32"):
        ref.expect_array(got, wanted.astype(numpy.float32), "samples", rtol=1e-7, atol=0.0)
    elif name.endswith("FLOAT64"):
        ref.expect_array(got, wanted, "samples", rtol=0.0, atol=0.0)
    elif name.endswith("LAW"):
        clipped = numpy.clip(wanted, -0.98, 0.98)
        if got.size and not (numpy.abs(got - clipped) <= 0.04 * numpy.abs(clipped) + 2.0 ** -10).all():
            raise Mismatch(f"samples: got {got!r}, expected roughly {clipped!r}")
    # the axes
    if kind == "spectrum":
        if not table or n > 1:
            ref.expect(ref.same_number(y.resolution(), x.resolution(), 1e-9 if table else 0.0, 0.0), "resolution: got {}, expected {}", y.resolution(), x.resolution())
    elif audio:
        expect_equal(y.sampling_rate(), expected_rate(name, float(x.sampling_rate())), "sampling rate")
        expect_equal(y.offset(), 0, "offset")
    elif not table or n > 1:
        expect(ref.same_number(y.sampling_rate(), x.sampling_rate(), 1e-9 if table else 0.0, 0.0),
               "sampling rate: got {}, expected {}", y.sampling_rate(), x.sampling_rate())
        expect_equal(y.offset(), x.offset(), "offset")
    if kind == "spectrogram":
        expect_equal(y.resolution(), x.resolution(), "resolution")
    # the labels
    if audio or name == "NUMPY_NPY":
        expect_equal(tuple(y.labels()), tuple(f"{filename} {i}" for i in range(1, wanted.shape[0] + 1)), "labels")
    else:
        expect_equal(tuple(y.labels()), tuple(x.labels()), "labels")
    expect(all(isinstance(l, str) for l in y.labels()), "labels are no strings: {}", y.labels())
    hash(y)
    if name in EXACT and not numpy.isnan(wanted).any():
        expect(y == x and not y != x, "the loaded data set does not equal the saved one")
        if wanted.dtype == got.dtype:
            expect_equal(hash(y), hash(x), "hash")


def cases(ck, kind):
    """All data sets, that shall be stored in each format."""
    lengths = range(0, 10 if ck.thorough else 5)
    rates = (48000.0, 44100.0, 0.3, 70001.0, 1234567.8)
    count = 4 if ck.thorough else 3
    for f in formats(kind):
        name = f.name
        base = {"kind": kind, "format": name}
        audio = name not in EXACT and name not in ("TEXT_CSV", "NUMPY_NPY")
        extra = {"frequencies": 2} if kind == "spectrogram" else {}
        for c in range(1, count + 1):
            for n in lengths:
                for what in ("symbolic", "extreme", "rounding", "beyond", "special"):
                    if what == "special" and audio:
                        continue
                    yield {**base, **extra, "channels": c, "length": n, "values": what}
        for n in (1, 3, 4):
            for o in (-7, 3, 100001):
                for r in rates:
                    if name.startswith("WAV") and r > 1e6 or kind == "spectrum" and o != 3:
                        continue
                    yield {**base, **extra, "channels": 2, "length": n, "values": "symbolic", "offset": o, "rate": r}
        for labels in range(len(LABELS)):
            for c in (1, 3):
                yield {**base, **extra, "channels": c, "length": 3, "values": "symbolic", "labels": labels}
        for how in ("fortran", "strided", "single", "integer", "short"):
            for c, n in ((1, 4), (2, 5), (3, 1)):
                yield {**base, **extra, "channels": c, "length": n, "values": "extreme" if how in ("integer", "short") else "symbolic", "layout": how}
        yield {**base, **extra, "channels": 2, "length": 4, "values": "symbolic", "numpy": True, "offset": 3}
        if kind == "spectrogram":
            for k in (0, 1, 3):
                for n in (0, 1, 2):
                    yield {**base, "channels": 2, "length": n, "values": "symbolic", "frequencies": k}
        # many channels and long axes
        for c in (4, 5, 6, 7, 8) + (() if name.startswith("FLAC") else (9, 10, 11, 12, 26, 27, 33)):
            yield {**base, **extra, "channels": c, "length": 3, "values": "symbolic", "labels": 0}
        if not audio:
            for n in (64, 101, 1000, 1025, 4097):
                for o in (0, -77):
                    if kind == "spectrum" and o:
                        continue
                    yield {**base, **extra, "channels": 2, "length": n, "values": "symbolic", "rate": 44100.0, "offset": o}
            if kind == "spectrogram":
                for k in (9, 10, 11, 65):
                    yield {**base, "channels": 2, "length": 3, "values": "symbolic", "frequencies": k}
        if audio:
            for n in (2047, 2048, 2049, 4095, 4096, 4097, 5000):
                for c in (1, 2, 3):
                    yield {**base, "channels": c, "length": n, "values": "symbolic"}


def representable(case):
    name, n = case["format"], case["length"]
    if name in ("TEXT_CSV", "NUMPY_NPY") and n == 0:
        return False        # a table without rows does not tell its channels
    if name.startswith("FLAC") and n == 0:
        return False        # libsndfile cannot read empty FLAC files
    if name in ("TEXT_CSV", "TEXT_JSON") and case.get("layout") == "single":
        return True
    if case["kind"] == "spectrogram" and case.get("frequencies") == 0:
        return name not in ("TEXT_JSON",) or case["length"] == 0
    return True


def filenames(number, name):
    """One name with the common extension and one without any."""
    return [f"f{number}{extension_of(name)}", f"f{number}"]


def save(ck, kind, directory, soundfile):
    import sumpf
    os.makedirs(directory)
    for number, case in enumerate(cases(ck, kind)):
        if not representable(case):
            continue
        name = case["format"]
        x = create(case)
        before = numpy.array(x.channels())
        for i, filename in enumerate(filenames(number, name)):
            path = os.path.join(directory, filename)
            if (number + i) % 2:
                path = pathlib.Path(path)

            def run():
                if not soundfile and name.split("_")[0] in ("WAV", "AIFF", "FLAC", "OGG") and name not in STANDARD_LIBRARY:
                    try:
                        x.save(path, x.file_formats[name])
                    except ValueError:
                        ck.outcome("unavailable format refused")
                        return
                    raise Mismatch("saved in a format, for which the library is missing")
                expect(x.save(path, x.file_formats[name]) is x, "save did not return the data set")
                ref.expect_array(x.channels(), before, "the saved data set was modified", 0.0, 0.0)
                ck.outcome(f"saved {'with' if soundfile else 'without'} soundfile")

            ck.transition()
            ck.run({**case, "soundfile": soundfile, "action": "save"}, run)


def load(ck, kind, directory, saved_with, soundfile):
    import sumpf
    cls = getattr(sumpf, kind.capitalize())
    for number, case in enumerate(cases(ck, kind)):
        name = case["format"]
        audio = name.split("_")[0]
        if not representable(case):
            continue
        for i, filename in enumerate(filenames(number, name)):
            path = os.path.join(directory, filename)
            if not os.path.exists(path):
                continue
            if not soundfile and (audio in ("FLAC", "OGG") or audio in ("WAV", "AIFF") and name not in STANDARD_LIBRARY):
                continue
            ck.state((kind, repr(sorted(case.items())), saved_with, soundfile))
            ck.transition()
            argument = pathlib.Path(path) if (number + i) % 2 else path

            def run():
                x = create(case)
                y = cls.load(argument)
                compare(case, name, x, y, filename)
                ck.outcome(f"{name} {'with' if saved_with else 'without'}->{'with' if soundfile else 'without'} soundfile")

            ck.run({**case, "saved with soundfile": saved_with, "soundfile": soundfile}, run)
            ck.sample(case, limit=3)


def without_soundfile(soundfile):
    if not soundfile:
        sys.modules["soundfile"] = None


def save_job(ck, spec):
    kind, base, soundfile = spec

    def run(child):
        without_soundfile(soundfile)
        save(child, kind, os.path.join(base, f"{kind}{int(soundfile)}"), soundfile)
    ck.forked(run)


def load_job(ck, spec):
    kind, base, saved_with, soundfile = spec

    def run(child):
        without_soundfile(soundfile)
        load(child, kind, os.path.join(base, f"{kind}{int(saved_with)}"), saved_with, soundfile)
    ck.forked(run)


# tables with permuted rows and without headers


def tables(ck, spec):
    import itertools
    import sumpf
    kind, n = spec
    times = [0.125 * i for i in range(n)]
    directory = ck.scratch
    for shift in (-3, -1, 0, 1, 4):
        axis = [t + 0.125 * shift for t in times]
        data = values(kind, 2, n, "symbolic")
        for order in itertools.permutations(range(n)):
            for header in (True, False):
                case = {"kind": kind, "table": [axis[i] for i in order], "header": header}
                ck.transition()
                ck.state((kind, shift, order, header))

                def run():
                    path = os.path.join(directory, "t.csv")
                    with open(path, "w") as f:
                        if header:
                            f.write("axis,\"one, two\",three\n")
                        for i in order:
                            f.write(f"{axis[i]!r},{data[0, i]!r},{data[1, i]!r}\n".replace("(", "").replace(")", ""))
                    check(sumpf.Signal.load(path) if kind == "signal" else sumpf.Spectrum.load(path), ("one, two", "three") if header else None)
                    if not header:
                        path = os.path.join(directory, "t.npy")
                        numpy.save(path, numpy.vstack((axis, data))[:, list(order)])
                        check(sumpf.Signal.load(path) if kind == "signal" else sumpf.Spectrum.load(path), ("t.npy 1", "t.npy 2"))

                def check(y, labels):
                    if labels:
                        expect_equal(tuple(y.labels()), labels, "labels")
                    if kind == "signal":
                        expect_equal(y.shape(), data.shape, "shape")
                        ref.expect_array(y.channels(), data, "samples", 0.0, 0.0)
                        if n > 1:
                            expect_equal(y.offset(), shift, "offset")
                            expect_equal(y.sampling_rate(), 8.0, "sampling rate")
                    elif n > 1:     # negative frequencies are cropped, missing ones are filled with zeros
                        wanted = data[:, -shift:] if shift < 0 else numpy.hstack((numpy.zeros((2, shift)), data))
                        ref.expect_array(y.channels(), wanted, "samples", 0.0, 0.0)
                        expect_equal(y.resolution(), 0.125, "resolution")
                    ck.outcome(f"{kind} table")

                ck.run(case, run)


def job(ck, spec):
    what = spec[0]
    {"save": save_job, "load": load_job, "tables": tables}[what](ck, spec[1:])


def explore(ck):
    base = ck.scratch
    kinds = ("signal", "spectrum", "spectrogram")
    ck.parallel(job, [("save", k, base, s) for k in kinds for s in ((True, False) if k == "signal" else (True,))])
    ck.parallel(job, [("load", "signal", base, a, b) for a in (True, False) for b in (True, False)]
                + [("load", k, base, True, True) for k in kinds[1:]]
                + [("tables", k, n) for k in kinds[:2] for n in range(1, 6)])


def replay(ck, case):
    if "table" in case:
        tables(ck, (case["kind"], len(case["table"])))
        return
    wanted = {k: v for k, v in case.items() if k not in ("soundfile", "saved with soundfile", "action")}
    globals()["cases"] = lambda ck, kind: [wanted]
    base = ck.scratch
    saved = case.get("saved with soundfile", case.get("soundfile"))
    save_job(ck, (case["kind"], base, saved))
    if case.get("action") != "save":
        load_job(ck, (case["kind"], base, saved, case["soundfile"]))
