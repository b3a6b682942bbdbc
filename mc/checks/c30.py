"""C30: operations, that are interrupted or fail, are reported and have no further effect.

Three kinds of faults are injected at every possible point: an exception (the user's KeyboardInterrupt or a MemoryError) before every line of the code
under test, while an operation is executed; a full disk after every byte (and a lack of file descriptors), while a file is saved; and the end of a file
after each of its bytes, when it is loaded.  After each fault, the operation is repeated and must have its normal result.
"""

import ast
import functools
import gc
import itertools
import os
import resource
import shutil
import sys
import warnings
import numpy
from mc import core, interleave, ref
from mc.checks import c16, c27
from mc.core import Mismatch
from mc.ref import expect

BOUNDS = {"quick": "the 620 operations of C27, with a KeyboardInterrupt and with a MemoryError before every line of SuMPF's code (first and last execution of repeated lines; files: 60 points), each followed by the same operation and, at the end, "
                   "by the one for other data; in a process, that has never executed the operation, if that executes other lines (20 points); the blocks: all histories of up to 3 of 7 actions with an interruption in the last one; "
                   "saving in every format, with a disk, that is full after each byte (short data; 60 points for long ones), and loading every prefix of every file; 0 to 4 free file descriptors",
          "thorough": "additionally all executions of every line; histories of 4 actions; 400 points for long files"}
ASSUMPTIONS = ["faults happen before lines of SuMPF's code, but not in clean-up code (headers of with statements, finally and except blocks)", "a full disk is simulated by limiting the size of files (RLIMIT_FSIZE)",
               "what a file contains after a failed attempt to save it is not specified"]

STRICT = {"TEXT_JSON", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE", "FLAC_INT8", "FLAC_INT16", "FLAC_INT24"}      # formats, in which it is noticed, that the end of a file is missing
EXTENSION = {"TEXT_JSON": ".json", "NUMPY_NPZ": ".npz", "NUMPY_NPY": ".npy", "PYTHON_PICKLE": ".pickle", "FLAC_INT8": ".flac", "FLAC_INT16": ".flac", "FLAC_INT24": ".flac"}


def opened_files(directory):
    """The files in the directory, that the process has opened"""
    result = []
    for n in os.listdir("/proc/self/fd"):
        try:
            path = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            continue
        if path.startswith(directory):
            result.append(path)
    return result


def expect_closed(directory, text, *arguments):
    if opened_files(directory):
        gc.collect()
        if opened_files(directory):
            raise Mismatch(text.format(*arguments))


@functools.lru_cache(maxsize=None)
def cleaning(filename):
    """The numbers of the lines, that belong to clean-up code"""
    lines = set()
    with open(filename, encoding="utf-8") as f, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(f.read())
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            lines.update(range(node.lineno, node.body[0].lineno))
        elif isinstance(node, ast.Try):
            for part in node.finalbody + node.handlers:
                lines.update(range(part.lineno, part.end_lineno + 1))
        elif isinstance(node, ast.FunctionDef) and node.name in ("__exit__", "__del__"):
            lines.update(range(node.lineno, node.end_lineno + 1))
    return lines


def interrupted(function, point, exception):
    """Executes a function and raises an exception before the given line.

    :returns: a tuple (the function's result or the exception, that it raised; the line, at which the exception has been injected)
    """
    prefix = interleave.prefix()
    count = 0
    where = None

    def line(frame, event, argument):
        nonlocal count, where
        if event == "line":
            count += 1
            if count == point + 1:
                where = f"{os.path.relpath(frame.f_code.co_filename, prefix)}:{frame.f_lineno}"
                raise exception("injected")
        return line

    def call(frame, event, argument):
        return line if frame.f_code.co_filename.startswith(prefix) else None

    previous = sys.gettrace()
    sys.settrace(call)
    try:
        result = function()
    except BaseException as e:      # pylint: disable=broad-except
        result, e = e.with_traceback(None), None
        while isinstance(result.__context__, exception):    # the clean-up (e.g. completing the header of an AIFF file) failed because of the interruption
            result = result.__context__.with_traceback(None)
        result.__context__ = result.__cause__ = None
    finally:
        sys.settrace(previous)
    return result, where


EXCEPTIONS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


# interrupting operations


class Interrupts(c27.Explorer):

    def interrupt(self, case, first=False):
        """Executes one interruption and then the operation without it"""
        key, point, name = tuple(case["operation"]), case["point"], case["exception"]
        function = self.prepare(key, 0)
        expected = self.references[(key, 0)][0]
        before = c27.process_state()
        directory = os.path.join(self.ck.scratch, "files")
        result, where = interrupted(function, point, EXCEPTIONS[name])
        after = c27.process_state()
        warnings.filters[:] = before[0]
        if isinstance(result, KeyboardInterrupt) or (name == "MemoryError" and isinstance(result, Exception)):
            self.ck.outcome(type(result).__name__)
        elif where is not None and name == "MemoryError" and key[0] == "file":
            self.ck.outcome("read with another reader")     # some readers for text accept everything
        elif where is None or name == "MemoryError":    # not interrupted or continued with an alternative
            result = c27.capture(result)
            expect(c27.same(result, expected), "{} returns {} instead of {}, when there is a {} before {}", key, str(result)[:600], str(expected)[:600], name, where)
            self.ck.outcome("not interrupted" if where is None else "continued")
        else:
            raise Mismatch(f"{key} does not pass on the {name} before {where}, but {result!r}")
        expect_closed(directory, "{} leaves a file open, when there is a {} before {}", key, name, where)
        try:
            c27.expect_unchanged(before, after)
        except Mismatch as e:
            raise Mismatch(f"{e}, when {key} is interrupted by a {name} before {where}") from e
        for v in (0, 1) if case.get("last") or first else (0,):
            try:
                again = (function if v == 0 else self.prepare(key, v))()
            except Exception as e:  # pylint: disable=broad-except
                again = e
            again = c27.capture(again)
            wanted = self.references[(key, v)][0]
            expect(c27.same(again, wanted), "{}{} returns {} instead of {} after there has been a {} before {}", key, " with other data" * v, str(again)[:600], str(wanted)[:600], name, where)


def points_of(lines, repetitions):
    return [k for k in c27.preemption_points(lines, repetitions) if lines[k][2] not in cleaning(lines[k][0])]


def first_interrupt(ck, explorer, case):
    explorer.ck = ck
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        ck.run(case, lambda: explorer.interrupt(case, first=True))
    c27.clean(ck)


def interrupts(ck, shard):
    index, count = shard
    c27.use_one_core()
    explorer = Interrupts(ck)
    keys = [(k, n) for k, r in explorer.operations.items() for n in r]
    for i in range(index, len(keys), count):
        key = keys[i]
        explorer.ck = ck
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            reference = explorer.reference(key, 0)
            other = explorer.reference(key, 1)
            explorer.ck = ck
            if reference is None or other is None:
                continue
            if reference[1] != reference[2]:
                for k in c27.limited(points_of(reference[1], 1), None if ck.thorough else 20):
                    for e in EXCEPTIONS:
                        case = {"part": "first use", "operation": list(key), "point": k, "exception": e}
                        ck.forked(first_interrupt, explorer, case)
                        ck.transition()
                        ck.state(("first", key, k, e))
                explorer.ck = ck
            points = points_of(reference[2], 10**9 if ck.thorough else 1)
            if key[0] == "file" and not ck.thorough:
                points = c27.limited(points, 60)
            for k, e in itertools.product(points, EXCEPTIONS):
                case = {"part": "interrupts", "operation": list(key), "point": k, "exception": e, "last": k == points[-1]}
                ck.run(case, lambda: explorer.interrupt(case))      # pylint: disable=cell-var-from-loop
                ck.transition()
                ck.state(("interrupt", key, k, e))
            if key[0] == "file":
                c27.clean(ck)


# interrupting the blocks


def pool(kind):
    import sumpf
    if kind == "filter":
        return [sumpf.Filter(transfer_functions=(sumpf.Filter.Constant(float(i)),) * (i + 1), labels=[f"{i}{j}" for j in range(i + 1)]) for i in range(3)]
    values = [ref.symbolic(i + 1, 2 + i, i) for i in range(3)]
    signals = [sumpf.Signal(channels=v, sampling_rate=8.0, offset=1 - i, labels=[f"{i}{j}" for j in range(i + 1)]) for i, v in enumerate(values)]
    if kind == "signal":
        return signals
    if kind == "spectrum":
        return [sumpf.Spectrum(channels=v + 1j, resolution=0.5) for v in values]
    return [sumpf.Spectrogram(channels=(v + 1j)[:, None, :], resolution=0.5, sampling_rate=8.0, offset=1 - i) for i, v in enumerate(values)]


def blocks():
    import sumpf
    for kind in ("signal", "spectrum", "spectrogram", "filter"):
        for mode in sumpf.Merge.modes:
            yield ["Merge", kind, mode.name], lambda m=mode: sumpf.Merge(mode=m), kind
    for kind in ("signal", "spectrogram"):
        yield ["Concatenate", kind], sumpf.Concatenate, kind


ACTIONS = (("add", 0), ("add", 1), ("add", "wrong"), ("remove", 0), ("remove", -1), ("replace", 2), ("output",))


def perform(block, ids, data, wrong, action):
    name, *arguments = action
    if name == "add":
        ids.append(block.add(wrong if arguments[0] == "wrong" else data[arguments[0]]))
    elif name == "remove" and ids:
        block.remove(ids.pop(arguments[0]))
    elif name == "replace" and ids:
        block.replace(ids[-1], data[arguments[0]])
    elif name == "output":
        return output(block)
    return None


def output(block):
    try:
        return c27.capture(block.output())
    except (ValueError, RuntimeError, AttributeError, TypeError) as e:
        return ("error", type(e).__name__)


def block_histories(ck, only=None):
    for description, create, kind in blocks():
        if only is not None and description != only["block"]:
            continue
        data = pool(kind)
        wrong = pool("spectrum" if kind == "signal" else "signal")[0]

        def executed(path):
            """The block after the history; the last action is returned as a function"""
            block, ids = create(), []
            for action in path[:-1]:
                perform(block, ids, data, wrong, action)
            if path[-1][0] == "output":
                return block, ids, block.output
            return block, ids, lambda: perform(block, ids, data, wrong, path[-1])

        def final(block):
            return output(block), output_after(block, data[1])

        def output_after(block, d):
            block.add(d)
            return output(block)

        for depth in range(1, (4 if ck.thorough else 3) + 1):
            for path in itertools.product(ACTIONS, repeat=depth):
                if path[0][0] in ("remove", "replace") or only is not None and [list(a) for a in path] != only["path"]:
                    continue
                block, ids, last = executed(path)
                _, lines = interleave.lines_of(last)
                lines = [(c.co_filename, c.co_name, l) for c, l in lines]
                done = final(block)
                block, ids, last = executed(path)
                undone = final(block)
                for k, e in itertools.product(points_of(lines, 2), EXCEPTIONS):
                    case = {"part": "blocks", "block": description, "path": [list(a) for a in path], "point": k, "exception": e}
                    if only is not None and (k, e) != (only["point"], only["exception"]):
                        continue

                    def execute():
                        block, ids, last = executed(path)
                        result, where = interrupted(last, k, EXCEPTIONS[e])
                        expect(isinstance(result, EXCEPTIONS[e]) or where is None, "the {} before {} is not passed on, but {!r} is returned", e, where, result)
                        now, later = final(block)
                        expect(any(c27.same(now, o[0]) for o in (done, undone)), "{} {}: after a {} before {}, the output is {} instead of {}", description, path, e, where, now, (undone[0], done[0]))
                        expect(any(c27.same(later, o[1]) for o in (done, undone)), "{} {}: after a {} before {} and adding another data set, the output is {} instead of {}", description, path, e, where, later, (undone[1], done[1]))
                        ck.outcome("block")
                    ck.run(case, execute)
                    ck.transition()
                    ck.state(("block", repr(case)))


# faults, while files are written and read


def quiet():
    """Objects, whose files could not be written, complain about this, when they are deleted"""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.close(null)
    sys.stderr = open(os.devnull, "w")      # pylint: disable=consider-using-with
    sys.unraisablehook = lambda argument: None


def limit_of(name, value):
    hard = resource.getrlimit(name)[1]
    resource.setrlimit(name, (value if value is not None else hard, hard))


def long(kind):
    import sumpf
    v = ref.symbolic(2, 3000)
    v = v / numpy.abs(v).max()
    if kind == "signal":
        return sumpf.Signal(channels=v, sampling_rate=8000.0)
    if kind == "spectrum":
        return sumpf.Spectrum(channels=v + 1j, resolution=0.5)
    if kind == "spectrogram":
        return sumpf.Spectrogram(channels=(v + 1j)[:, None, :], resolution=0.5, sampling_rate=8.0)
    return sumpf.Bands({1.0 + i: 0.5 + i for i in range(1000)})


def targets():
    """Yields (kind, length, format, extension)"""
    for kind in ("signal", "spectrum", "spectrogram", "bands", "filter"):
        for f in c16.classes(kind).file_formats:
            if f.name != "AUTO":
                yield kind, "short", f.name, EXTENSION.get(f.name, "")
                if kind != "filter":
                    yield kind, "long", f.name, EXTENSION.get(f.name, "")
        for e in c16.AUTOMATIC[kind]:
            yield kind, "short", "AUTO", e


def file_faults(ck, shard, only=None):
    index, count = shard
    for number, target in enumerate(targets()):
        if number % count == index and (only is None or list(target) == only["target"]):
            ck.forked(target_faults, target, only)


def target_faults(ck, target, only):
    kind, length, file_format, extension = target
    quiet()
    cls = c16.classes(kind)
    data = c16.data(kind, 1) if length == "short" else long(kind)
    directory = os.path.join(ck.scratch, "faults")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, "x" + extension)

    def save():
        data.save(path, data.file_formats[file_format])

    def loaded():
        return c16.describe(cls.load(path))

    save()
    with open(path, "rb") as f:
        content = f.read()
    size = len(content)
    expected = loaded()
    points = sorted(set(range(size)) if length == "short" else {0, size - 1} | {size * i // (400 if ck.thorough else 60) for i in range(400 if ck.thorough else 60)} | {p + d for p in range(4096, size, max(4096, size // 32768 * 4096)) for d in (-1, 0)})
    if file_format == "OGG_VORBIS" or file_format == "AUTO" and extension in (".ogg", ".oga"):      # the size of the file depends on random numbers
        points = [p for p in points if p < size - 64]
        if not ck.thorough:
            points = points[::16]

    def full_disk(point):
        if os.path.exists(path):
            os.remove(path)
        limit_of(resource.RLIMIT_FSIZE, point)
        try:
            save()
        except Exception as e:  # pylint: disable=broad-except
            outcome = type(e).__name__
        else:
            outcome = None
        finally:
            limit_of(resource.RLIMIT_FSIZE, None)
        if outcome is None:
            written = os.path.getsize(path) if os.path.exists(path) else 0
            raise Mismatch(f"saving a {kind} as {file_format}{extension} does not raise an error, although only {written} of {size} bytes could be written")
        expect_closed(directory, "the file is still open, after the attempt to save a {} as {}{} failed", kind, file_format, extension)
        save()
        expect(loaded() == expected, "after an attempt to save failed due to a full disk, a {} is saved as {}{} differently: {} instead of {}", kind, file_format, extension, loaded(), expected)
        ck.outcome("saving failed with " + outcome)

    def truncated(point):
        with open(path, "wb") as f:
            f.write(content[0:point])
        try:
            result = cls.load(path)
        except ValueError:
            result = None
        ck.outcome("truncated file refused" if result is None else "truncated file loaded in part")
        if file_format in STRICT and point >= 8:
            expect(result is None, "a {} file, that has been truncated to {} of {} bytes, is loaded as {!r}", file_format, point, size, result)
        expect_closed(directory, "a truncated file is still open, after loading it failed")
        with open(path, "wb") as f:
            f.write(content)
        expect(loaded() == expected, "after a truncated {}{} file has been loaded, the complete one is loaded as {} instead of {}", file_format, extension, loaded(), expected)

    def no_descriptors(point):
        for what in ("save", "load"):
            base = max(int(n) for n in os.listdir("/proc/self/fd")) + 1
            free = [os.open(os.devnull, os.O_RDONLY)]   # fills the gaps below the limit
            while free[-1] < base:
                free.append(os.open(os.devnull, os.O_RDONLY))
            limit_of(resource.RLIMIT_NOFILE, free[-1] + 1 + point)
            try:
                if what == "save":
                    save()
                    failed = False
                else:
                    failed = loaded() != expected and "a different data set"
            except Exception as e:  # pylint: disable=broad-except
                failed = type(e).__name__
            finally:
                limit_of(resource.RLIMIT_NOFILE, None)
                for d in free:
                    os.close(d)
            expect(failed != "a different data set", "with {} free file descriptors, a different data set is loaded", point)
            expect_closed(directory, "a file is still open, after there have been {} free file descriptors", point)
            if not failed:
                expect(loaded() == expected, "with {} free file descriptors, the data set has not been saved correctly: {} instead of {}", point, loaded(), expected)
            save()
            expect(loaded() == expected, "after there have been only {} free file descriptors, a {} is saved as {}{} differently", point, kind, file_format, extension)
            ck.outcome(f"no descriptors: {failed or 'done'}")

    faults = [("full disk", p, full_disk) for p in points] + [("descriptors", p, no_descriptors) for p in range(5)]
    if length == "short":
        faults += [("truncated", p, truncated) for p in points]
    for name, point, function in faults:
        case = {"part": "files", "target": list(target), "fault": name, "point": point}
        if only is None or (name, point) == (only["fault"], only["point"]):
            ck.run(case, lambda: function(point))       # pylint: disable=cell-var-from-loop
            ck.transition()
            ck.state((target, name, point))
    shutil.rmtree(directory, ignore_errors=True)


def explore(ck):
    c27.warm_up(ck)
    ck.sample({"part": "interrupts", "operation": ["signal", "stft"], "point": 7, "exception": "KeyboardInterrupt"})
    n = 64
    ck.parallel(file_faults, [(i, n) for i in range(n)])
    block_histories(ck)
    ck.parallel(interrupts, [(i, n) for i in range(n)])


def replay(ck, case):
    c27.warm_up(ck)
    if case.get("part") == "files":
        file_faults(ck, (0, 1), case)
    elif case.get("part") == "blocks":
        block_histories(ck, case)
    elif "operation" in case:
        explorer = Interrupts(ck)
        key = tuple(case["operation"])
        for v in (0, 1):
            explorer.reference(key, v)
        explorer.ck = ck
        if case["part"] == "first use":
            ck.forked(first_interrupt, explorer, case)
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                ck.run(case, lambda: explorer.interrupt(case))
