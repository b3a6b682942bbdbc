"""Shared machinery: counters, violation artefacts, known findings, evidence, worker pool.

A check module (mc/checks/<id>.py) defines

* ``PROPERTY``, ``LEVEL_NOTE``-like documentation in its docstring,
* ``explore(ck)``: enumerates every execution within the check's bounds and calls
  ``ck.run(case, function)`` / ``ck.fail(...)``,
* ``replay(ck, case)``: re-executes one recorded execution.

Everything that a check explores is a function of the code under /repo and of the
tier; VERIF_SEED is only recorded (no random choice decides anything).
"""

import contextlib
import hashlib
import json
import multiprocessing
import os
import pickle
import signal as _signal
import shutil
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SUMPF_REPO", "/repo")
CASE_CPU_LIMIT = 60.0       # seconds of user CPU time, after which a single execution counts as "does not terminate"
MAX_ARTEFACTS = int(os.environ.get("MAX_ARTEFACTS", 5))


class DoesNotTerminate(Exception):
    """Raised inside a case, that used up its CPU budget."""


class Skip(Exception):
    """Raised to abandon a case silently (precondition of the property not met)."""


class Mismatch(Exception):
    """Raised by oracles, when an execution contradicts the model."""


def digest(key):
    """A process independent 8 byte digest of a (nested tuple) key."""
    return hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=8).digest()


def jsonable(value):
    """Converts numpy/complex/tuple data into something that json can store."""
    import numpy
    if isinstance(value, dict):
        return {str(k): jsonable(v) for k, v in value.items()}
    if isinstance(value, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in value]
    if isinstance(value, numpy.ndarray):
        return jsonable(value.tolist())
    if isinstance(value, (bool, type(None), str)):
        return value
    if isinstance(value, (int, numpy.integer)):
        return int(value)
    if isinstance(value, (float, numpy.floating)):
        return float(value)
    if isinstance(value, (complex, numpy.complexfloating)):
        return {"re": float(value.real), "im": float(value.imag)}
    return repr(value)


class Check:
    """Collects what a check explores and finds."""

    def __init__(self, property_id, tier, seed):
        self.property = property_id
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.state_digests = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.failures = []          # (case, message, finding key)
        self.failure_count = 0
        self.info = {}
        self.start = time.time()
        self._scratch = None

    # counters

    def state(self, key):
        """Registers a model/implementation state, returns True if it is new."""
        d = digest(key)
        if d in self.state_digests:
            return False
        self.state_digests.add(d)
        return True

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        """Counts executions per distinct kind of outcome (for the evidence)."""
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, value, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(value))

    # failures

    def fail(self, case, message, finding=None):
        self.failure_count += 1
        if len(self.failures) < 200 or (finding and not any(f[2] == finding for f in self.failures)):
            self.failures.append((case, str(message)[:3000], finding))

    def run(self, case, function, finding=None):
        """Runs ``function()`` as one execution of the implementation; every unexpected
        exception and every Mismatch is a violation with ``case`` as its replay."""
        self.trace()
        try:
            with cpu_limit():
                return function()
        except Skip:
            self.traces -= 1
            return None
        except Mismatch as e:
            self.fail(case, str(e), finding(e) if callable(finding) else finding)
        except DoesNotTerminate:
            self.fail(case, "does not terminate", finding(None) if callable(finding) else finding)
        except Exception as e:  # pylint: disable=broad-except
            self.fail(case,
                      f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}",
                      finding(e) if callable(finding) else finding)
        return None

    # scratch

    @property
    def scratch(self):
        """A private scratch directory, that is removed when the check ends."""
        if self._scratch is None or self._scratch[0] != os.getpid():
            self._scratch = (os.getpid(), tempfile.mkdtemp(prefix="sumpf-mc-", dir=_scratch_base()))
        return self._scratch[1]

    def cleanup(self):
        if self._scratch is not None and self._scratch[0] == os.getpid():
            shutil.rmtree(self._scratch[1], ignore_errors=True)
            self._scratch = None

    # parallelism

    def parallel(self, function, shards, processes=None):
        """Calls ``function(child_check, shard)`` for each shard in a pool of forked
        processes and merges the results in the order of the shards."""
        shards = list(shards)
        processes = processes or min(8, os.cpu_count() or 1, max(1, len(shards)))
        if processes <= 1 or len(shards) <= 1:
            for s in shards:
                function(self, s)
            return
        global _JOB                                                      # pylint: disable=global-statement
        _JOB = (function, self.property, self.tier, self.seed)
        context = multiprocessing.get_context("fork")
        with context.Pool(processes) as pool:
            for result in pool.imap(_work, shards, chunksize=1):
                self._merge(result)

    def forked(self, function, *args):
        """Calls ``function(child_check, *args)`` in a forked process, so that every execution starts with the same
        module-level state (e.g. caches) of the code under test and leaves no trace in it, and merges the result."""
        reading, writing = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(reading)
                child = Check(self.property, self.tier, self.seed)
                try:
                    function(child, *args)
                except Exception as e:  # pylint: disable=broad-except
                    child.fail({"args": jsonable(args)}, f"unexpected {type(e).__name__} outside of a case: {e}\n{traceback.format_exc(limit=-6)}")
                finally:
                    child.cleanup()
                with os.fdopen(writing, "wb") as f:
                    pickle.dump(child._export(), f)
                code = 0
            finally:
                os._exit(code)
        os.close(writing)
        with os.fdopen(reading, "rb") as f:
            data = f.read()
        status = os.waitpid(pid, 0)[1]
        if data:
            self._merge(pickle.loads(data))
        else:
            self.fail({"args": jsonable(args)}, f"the process, in which this has been executed, crashed (status {status})")

    def _export(self):
        return (self.state_digests, self.transitions, self.traces, self.outcomes, self.samples,
                self.failures, self.failure_count, self.info)

    def _merge(self, result):
        states, transitions, traces, outcomes, samples, failures, failure_count, info = result
        self.state_digests |= states
        self.transitions += transitions
        self.traces += traces
        for k, v in outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for s in samples:
            if len(self.samples) < 6 and s not in self.samples:
                self.samples.append(s)
        self.failures.extend(failures)
        self.failure_count += failure_count
        for k, v in info.items():
            if isinstance(v, (int, float)) and k in self.info:
                self.info[k] += v
            else:
                self.info[k] = v


_JOB = None


def _work(shard):
    function, property_id, tier, seed = _JOB
    child = Check(property_id, tier, seed)
    try:
        function(child, shard)
    except Exception as e:  # pylint: disable=broad-except
        child.fail({"shard": jsonable(shard)}, f"unexpected {type(e).__name__} outside of a case: {e}\n{traceback.format_exc(limit=-6)}")
    finally:
        child.cleanup()
    return child._export()


def _scratch_base():
    base = os.environ.get("TMPDIR") or "/tmp"
    return base if os.path.isdir(base) else None


def _expired(signum, frame):
    raise DoesNotTerminate()


@contextlib.contextmanager
def cpu_limit(seconds=CASE_CPU_LIMIT):
    """Turns an endless loop in the code under test into a DoesNotTerminate exception."""
    import threading
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    previous = _signal.signal(_signal.SIGVTALRM, _expired)
    _signal.setitimer(_signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        _signal.setitimer(_signal.ITIMER_VIRTUAL, 0)
        _signal.signal(_signal.SIGVTALRM, previous)


def poison_uninitialized_memory():
    """Owns a source of nondeterminism: arrays from numpy.empty are filled with NaN, so that reading samples, that
    have never been written, is visible in every execution rather than only when the memory happens to be dirty."""
    import functools
    import numpy

    def poisoned(function):
        @functools.wraps(function)
        def wrapper(*args, **kwargs):
            result = function(*args, **kwargs)
            if isinstance(result, numpy.ndarray) and result.dtype.kind in "fc":
                result.fill(numpy.nan)
            return result
        return wrapper

    numpy.empty = poisoned(numpy.empty)
    numpy.empty_like = poisoned(numpy.empty_like)


def load_known(property_id):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        entries = json.load(f)["findings"]
    return {e["key"]: e for e in entries if e["property"] == property_id and e["status"] == "known"}


def finish(ck, module):
    """Prints the verdict, writes the artefacts and the evidence, returns the exit code."""
    known = load_known(ck.property)
    seen_known = {}
    violations = []
    for case, message, finding in ck.failures:
        if finding is not None and finding in known:
            seen_known.setdefault(finding, (case, message))
        else:
            violations.append((case, message, finding))
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={ck.property} {known[key]['what']}")
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    if violations:
        os.makedirs(replay_dir, exist_ok=True)
    for n, (case, message, finding) in enumerate(violations[:MAX_ARTEFACTS]):
        path = os.path.join(replay_dir, f"{ck.property}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": ck.property, "case": jsonable(case), "message": message, "finding": finding,
                       "rerun": f"/verif/check {ck.property} --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={ck.property} replay={path}")
        print("   " + json.dumps(jsonable(case))[:600])
        print("   " + message.replace("\n", "\n   ")[:1500])
    if len(violations) > MAX_ARTEFACTS:
        print(f"   ... {len(violations) - MAX_ARTEFACTS} further violations")
    coverage = {
        "states": len(ck.state_digests),
        "transitions": ck.transitions,
        "traces_validated_against_impl": ck.traces,
        "samples": ck.samples,
        "exhaustive": True,
        "distinct_outcomes": dict(sorted(ck.outcomes.items())),
        "bounds": getattr(module, "BOUNDS", {}).get(ck.tier, getattr(module, "BOUNDS", {}).get("quick", "")),
        "known_findings_seen": sorted(seen_known),
    }
    coverage.update(ck.info)
    evidence = {
        "property": ck.property,
        "tier": ck.tier,
        "seed": ck.seed,
        "level": "model_checking",
        "coverage": jsonable(coverage),
        "assumptions": list(getattr(module, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - ck.start, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{ck.property}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{ck.property} [{ck.tier}] states={len(ck.state_digests)} transitions={ck.transitions} "
          f"traces={ck.traces} violations={len(violations)} known={len(seen_known)} wall={evidence['wall_s']}s")
    return 1 if violations else 0


def main(argv):
    import argparse
    import importlib
    if argv == ["--version"]:
        sys.path.insert(0, REPO)
        import numpy
        import sumpf
        print("sumpf", sumpf.__file__, "numpy", numpy.__version__, "python", sys.version.split()[0])
        return 0
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    parser.add_argument("--replay")
    args = parser.parse_args(argv)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    poison_uninitialized_memory()
    ck = Check(args.property, args.tier, seed)
    module = None
    try:
        module = importlib.import_module(f"mc.checks.{args.property.lower()}")
        if args.replay:
            with open(args.replay) as f:
                case = json.load(f)["case"]
            module.replay(ck, case)
        else:
            module.explore(ck)
    except Exception as e:  # pylint: disable=broad-except
        ck.fail({"phase": "setup"}, f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()}")
    finally:
        ck.cleanup()
    if args.replay:
        for case, message, finding in ck.failures:
            print("REPRODUCED", finding or "", json.dumps(jsonable(case))[:600])
            print("   " + message)
        return 1 if ck.failures else 0
    return finish(ck, module)
