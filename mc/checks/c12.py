"""C12: playback and recording through JACK, under every interleaving with the process callback.

The real ``sumpf.Jack`` runs in a simulated JACK environment (``mc/jacksim.py``: server, clock, threads and their
primitives).  Programs over {start, output, input, auto_deactivate, activate, one cycle passes} are enumerated up to a
length, and for each program every schedule with up to a number of deviations is executed, with a line (thorough: also a
bytecode instruction) of ``sumpf/_blocks`` as the unit of interleaving.  Shutdowns of the server and xruns are injected at
each cycle.  The oracle is a sequential specification of the recording sessions.
"""

import itertools
import numpy
from mc import jacksim, ref
from mc.core import Mismatch

BOUNDS = {"quick": "programs of up to 4 operations, beginning with start; 0 deviations from the default schedule for all, 1 for those with up to 3 "
                   "operations, 2 for the central ones with up to 3 operations; blocks of 4 samples, signals of 0, 3, 8 and 10 samples and 2 channels; shutdown and xrun before each of the cycles 1..7",
          "thorough": "programs of up to 5 operations (0 deviations), 4 (1 deviation), 3 (2 deviations), the central ones 3 deviations and at the "
                      "granularity of bytecode instructions with 2 deviations"}
ASSUMPTIONS = ["the JACK server behaves like mc/jacksim.py: a cycle's callback ends within the cycle (no xruns, when a recording shall be complete), "
               "inactive clients have no connections, a failed callback deactivates the client at the end of its cycle, a client's own ports are looped back without delay",
               "a line of Python (thorough: a bytecode instruction) is the unit of interleaving",
               "default schedule: the main thread continues after each cycle, whenever it is able to"]
BLOCK = 4
RATE = 48000
LENGTHS = {"a": 10, "b": 8, "c": 3, "e": 0}
OFFSETS = {"a": 0, "b": 3, "c": -2, "e": 1}
CENTRAL = ("SO", "SIO", "SSO", "SISO", "SOSO", "SOISO", "SAO", "SCO")
MAIN_OPS = "SOIAC"


def install():
    import sys
    if "sumpf" not in sys.modules:
        jacksim.install()


def played(kind):
    """the input signal of the given kind"""
    n = LENGTHS[kind]
    base = {"a": 1000, "b": 3000, "c": 5000, "e": 7000}[kind]
    return numpy.array([[base + 500 * c + i + 1 for i in range(n)] for c in range(2)], dtype=numpy.float64).reshape(2, n)


def captured(tick):
    """what the external source sends in a cycle"""
    return 100000 + tick * BLOCK + numpy.arange(BLOCK)


def make_program(ops, signals, auto, connect=True):
    """Creates the program for a sequence of operations"""
    def program(sim):
        import sumpf
        log = {"sessions": [], "outputs": [], "state": []}
        sim.add_external("ext:in_0", True)
        sim.add_external("ext:in_1", True)
        sim.add_external("ext:out", False, captured)
        kinds = itertools.cycle(signals)
        make = lambda k: sumpf.Signal(channels=played(k), sampling_rate=44100.0, offset=OFFSETS[k], labels=("one", "two"))
        kind = next(kinds)
        jack = sumpf.Jack("CUT", make(kind), ["capture", "loop"], auto)
        client = sim.clients[-1]
        jack.connect(0, "ext:in_0")
        jack.connect(1, "ext:in_1")
        jack.connect("ext:out", 0)
        jack.connect(1, 1)
        mode = auto
        for op in ops:
            if op == "S":
                call = sim.tick
                jack.start()
                log["sessions"].append((kind, call, sim.tick))
            elif op == "O":
                r = jack.output()
                log["outputs"].append((len(log["sessions"]) - 1, r.channels().copy(), r.offset(), r.labels(), r.sampling_rate(), mode,
                                       client._active))
            elif op == "I":
                kind = next(kinds)
                jack.input(make(kind))
            elif op == "A":
                mode = not mode
                jack.auto_deactivate(mode)
                if mode:
                    log["state"].append(client._active)
            elif op == "N":
                jack.activate()
            elif op == "C":
                sim.cycles(1)
        log["end"] = sim.tick
        if not sim.down:
            sim.cycles(5 + max(LENGTHS[k] for k in "abce") // BLOCK)    # let everything, that is still going on, come to an end
        log["streams"] = [numpy.concatenate(sim.listeners[f"ext:in_{c}"] or [numpy.empty(0)]) for c in range(2)]
        return log
    return program


def judge(sim, toggled):
    """Compares one execution with the specification, raises a Mismatch"""
    if sim.hang:
        raise Mismatch("the program does not end, although the JACK server keeps running")
    if sim.error:
        raise Mismatch(f"unexpected exception: {sim.error}")
    if sim.callback_errors:
        raise Mismatch(f"exception in a callback: {sim.callback_errors[0]}")
    log = sim.result
    log["toggled"] = toggled
    # find the cycles, in which the playbacks begin
    begins = []
    position = 0
    streams = log["streams"]
    total = len(streams[0])
    for n, (kind, call, back) in enumerate(log["sessions"]):
        x = played(kind)
        if x.shape[1] == 0:
            begins.append(None)
            continue
        found = numpy.flatnonzero(streams[0][position:])
        if not len(found):
            raise Mismatch(f"playback {n} (signal {kind}) has not taken place: {streams[0].tolist()}")
        begin = position + int(found[0])
        for c in range(2):
            segment = streams[c][begin:begin + x.shape[1]]
            if segment.shape != x[c].shape or not numpy.array_equal(segment, x[c]):
                raise Mismatch(f"playback {n} (signal {kind}), channel {c}, sample {begin}: {segment.tolist()} instead of {x[c].tolist()}")
            if numpy.any(streams[c][position:begin]):
                raise Mismatch(f"no silence before playback {n} in channel {c}")
        if begin // BLOCK > back + 1 - 1:     # the block with the index t is that of the cycle t + 1
            raise Mismatch(f"playback {n} begins in cycle {begin // BLOCK + 1}, although start returned in cycle {back}")
        begins.append(begin)
        position = begin + x.shape[1]
    for c in range(2):
        if numpy.any(streams[c][position:]):
            raise Mismatch(f"no silence after the end of the playback in channel {c}: {streams[c].tolist()}")
    # check the recordings
    for session, channels, offset, labels, rate, mode, active in log["outputs"]:
        kind, call, back = log["sessions"][session]
        x = played(kind)
        if channels.shape != x.shape:
            raise Mismatch(f"recording {session} has the shape {channels.shape} instead of {x.shape}")
        if x.shape[1]:
            begin = begins[session]
            expected = 100000 + BLOCK + begin + numpy.arange(x.shape[1])
            if not numpy.array_equal(channels[0], expected):
                raise Mismatch(f"recording {session}: recorded {channels[0].tolist()} instead of {expected.tolist()}")
            if not numpy.array_equal(channels[1], x[1]):
                raise Mismatch(f"recording {session}: looped back {channels[1].tolist()} instead of {x[1].tolist()}")
        if (offset, tuple(labels), float(rate)) != (OFFSETS[kind], ("capture", "loop"), float(RATE)):
            raise Mismatch(f"recording {session} has offset, labels and sampling rate {(offset, labels, rate)}, {OFFSETS[kind]} expected")
        if mode and active:
            raise Mismatch("the client is still active after the recording, although auto_deactivate is enabled")
        if not active and not mode and not log["toggled"]:
            raise Mismatch("the client has been deactivated, although auto_deactivate is disabled")
    for active in log["state"]:
        if active:
            raise Mismatch("the client is active after enabling auto_deactivate")


def explore_program(ck, ops, signals, auto, bound, opcodes=False, shard=(0, 1)):
    install()
    case = {"program": ops, "signals": signals, "auto": auto, "opcodes": opcodes}

    def make(deviations):
        return jacksim.Simulation(make_program(ops, signals, auto), deviations, BLOCK, RATE, opcodes=opcodes)

    failed = [0]

    def visit(deviations, sim):
        ck.transition(sim.step + sim.tick)
        ck.state((ops, signals, auto, opcodes, deviations))
        if failed[0] >= 3:
            return
        c = dict(case, deviations=list(deviations), points=[str(sim.points[d]) for d in deviations])
        before = ck.failure_count
        ck.run(c, lambda: judge(sim, "A" in ops))
        ck.outcome("hang" if sim.hang else "error" if sim.error else "complete")
        failed[0] += ck.failure_count - before

    jacksim.explore(make, bound, visit, shard=shard)


def judge_event(sim, what, kind):
    if sim.hang:
        raise Mismatch(f"the program does not end after a {what}")
    if sim.callback_errors:
        raise Mismatch(f"exception in a callback: {sim.callback_errors[0]}")
    if sim.error and what == "shutdown" and sim.error.startswith("JackError"):
        return      # the server has been shut down, while the playback was being started
    if sim.error:
        raise Mismatch(f"unexpected exception: {sim.error}")
    recording, length, before, after = sim.result
    x = played(kind)
    if recording.shape != x.shape:
        raise Mismatch(f"the recording has the shape {recording.shape} instead of {x.shape}")
    if what == "xrun":
        (n0, x0), (n1, x1) = before, after
        if (n0, x0) != (0, None):
            raise Mismatch(f"xruns is {before} before the first xrun")
        if n1 != 2 or abs(x1.delay - 0.0025) > 1e-12:
            raise Mismatch(f"xruns is {after} after two xruns, the latter of which caused a delay of 0.0025 s")
        if x1.stop - x1.start != BLOCK or x1.start < 0 or f"{x1.delay}" not in str(x1):
            raise Mismatch(f"the range of the corrupted samples is {x1.start}-{x1.stop}, {x1}")


def run_event(ck, what, tick, auto, kind, deviations=()):
    """Injects an event before a cycle"""
    install()

    def program(sim):
        import sumpf
        sim.add_external("ext:out", False, captured)
        jack = sumpf.Jack("CUT", sumpf.Signal(channels=played(kind)), ["capture", "loop"], auto)
        jack.connect("ext:out", 0)
        before = jack.xruns()
        sim.cycles(1)
        jack.start()
        r = jack.output()
        if what == "xrun":
            sim.cycles(max(0, tick + 2 - sim.tick))
        return r.channels().copy(), r.length(), before, jack.xruns()

    def make(deviations):
        sim = jacksim.Simulation(program, deviations, BLOCK, RATE)
        if what == "shutdown":
            sim.events[tick] = [lambda s: s.shutdown()]
        else:
            sim.events[tick] = [lambda s: s.xrun(1000.0)]
            sim.events[tick + 1] = [lambda s: s.xrun(2500.0)]
        return sim

    def visit(deviations, sim):
        ck.transition(sim.step + sim.tick)
        ck.state((what, tick, auto, kind, deviations))
        ck.run({"event": what, "tick": tick, "auto": auto, "kind": kind, "deviations": list(deviations)}, lambda: judge_event(sim, what, kind))
        ck.outcome(what)

    jacksim.explore(make, 1 if not deviations else 0, visit, deviations)


def programs(ck):
    result = []
    for n in range(1, 6 if ck.thorough else 5):
        for rest in itertools.product(MAIN_OPS, repeat=n - 1):
            ops = "S" + "".join(rest)
            if "CC" in ops or "OO" in ops or "II" in ops:
                continue
            bound = (0 if n == 5 else 1 if n == 4 else 2) if ck.thorough else (0 if n == 4 else 1)
            for auto in (True, False):
                for signals in ("ab", "ca", "be") if n < 3 or ck.thorough and n < 4 else ("ac", "be") if n == 3 else ("ac",):
                    result.append((ops, signals, auto, bound, False))
    for ops in CENTRAL:
        for auto in (True, False):
            if ck.thorough:
                result.append((ops, "ca", auto, 3 if len(ops) < 4 else 2, False))
                result.append((ops, "ab", auto, 2, False))
                result.append((ops, "ca", auto, 1, True))
            elif len(ops) < 4 and (auto or ops == "SO"):
                result.append((ops, "ca", auto, 2, False))
    result.append(("SO", "ca", True, 2 if ck.thorough else 1, True))
    result.sort(key=lambda p: -p[3])
    return result


def explore(ck):
    install()
    shards = [p + ((i, n),) for p in programs(ck) for n in (16 if p[3] > 1 or p[4] else 1,) for i in range(n)]
    ck.parallel(lambda c, p: explore_program(c, *p), shards)
    events = [(what, tick, auto, kind) for what in ("shutdown", "xrun") for tick in range(2, 8) for auto in (True, False) for kind in "ac"]
    ck.parallel(lambda c, p: run_event(c, *p), events)
    ck.sample({"programs": len(programs(ck)), "example": programs(ck)[0]})


def replay(ck, case):
    install()
    if "event" in case:
        what, kind = case["event"], case["kind"]
        run_event(ck, what, case["tick"], case["auto"], kind, tuple(case["deviations"]))
        return
    sim = jacksim.Simulation(make_program(case["program"], case["signals"], case["auto"]), case["deviations"], BLOCK, RATE, opcodes=case["opcodes"]).run()
    ck.run(case, lambda: judge(sim, "A" in case["program"]))
