"""C13: ports, connections and activation of the JACK client, over all histories.

The real ``sumpf.Jack`` is driven through every history of its port, connection, activation and recording operations up
to a depth in the simulated JACK environment (``mc/jacksim.py``), in lock step with a model, that knows the wanted
connections (an own port is identified by its channel).  After each operation, the ports and connections in the server
are compared with the model; at the end of each history, a recording reveals through the levels of its channels, which
sources have actually been recorded and which channels have reached the other client.
"""

import itertools
import numpy
from mc import jacksim
from mc.core import Mismatch

BOUNDS = {"quick": "all histories of up to 3 operations out of 31 and up to 4 out of 14, with and without auto_deactivate, from an instance with two channels and input ports, up to 2 from one without input ports; all label tuples of up to 3 channels",
          "thorough": "histories of up to 4 operations out of 31 and up to 5 out of 14"}
ASSUMPTIONS = ["the JACK server behaves like mc/jacksim.py: connections of a client end with its deactivation, the numbers of unregistered ports are reused"]
BLOCK = 4
SIGNALS = {"1a": ("a",), "2ab": ("a", "b"), "2ba": ("b", "a"), "3xyz": ("x", "y", "z")}
OWN = "CUT"

# operations: (kind, arguments...)
CONNECT = [
    ("connect", 0, 0),
    ("connect", 0, "ext:in"),
    ("connect", "ext:out", 0),
    ("connect", "a", "p"),
    ("connect", "CUT:b", "CUT:q"),
    ("connect", 1, "ext:in"),
    ("connect", 1, 1),
    ("connect", "a", "ext:in"),
    ("connect", "ext:a", "CUT:p"),
    ("connect", "ext:out", "q"),
    ("connect", 0, "ext:p"),
]
OTHER = [
    ("add", "p"), ("add", "q"), ("add", "r"),
    ("remove", 0), ("remove", 1), ("remove", "p"), ("remove", "CUT:q"),
    ("input", "1a"), ("input", "2ab"), ("input", "2ba"), ("input", "3xyz"),
    ("activate",), ("deactivate",), ("auto", True), ("auto", False), ("record",),
    ("connect", 0, -1), ("plug", 0, "ext:in"), ("unplug", 0, "ext:in"), ("unplug", 0, 0),
]
CORE = [("connect", 0, 0), ("connect", 1, 1), ("connect", "a", "ext:in"), ("connect", 1, "ext:in"), ("connect", "ext:out", "q"), ("add", "q"), ("remove", 0),
        ("remove", "CUT:q"), ("input", "1a"), ("input", "2ba"), ("activate",), ("deactivate",), ("record",), ("unplug", 0, 0)]


def install():
    import sys
    if "sumpf" not in sys.modules:
        jacksim.install()


class SkipHistory(Exception):
    """Raised, when a history leaves the documented use"""


class Model:
    """The wanted state."""

    def __init__(self, signal, inports, auto):
        self.labels = SIGNALS[signal]
        self.inports = list(inports)
        self.auto = auto
        self.active = not auto
        self.wanted = []            # pairs of (("own", channel) or name, ("own", name) or name)

    def resolve(self, port, names, key):
        """Finds the port of a specifier, or None"""
        if isinstance(port, int):
            return ("own", key(port)) if -len(names) <= port < len(names) else None
        for i, name in enumerate(names):
            if port in (name, f"{OWN}:{name}"):
                return ("own", key(i))
        if ":" not in port:
            raise SkipHistory()     # a short name, that does not specify one of the own ports, is not documented
        return port if port.startswith("ext:") else None

    def apply(self, op):
        """Returns the expected exception or None"""
        kind = op[0]
        if kind in ("connect", "plug", "unplug"):
            if kind != "connect" and not self.active:
                raise SkipHistory()
            o = self.resolve(op[1], self.labels, lambda i: i)
            i = self.resolve(op[2], self.inports, lambda n: self.inports[n])
            if o is None or i is None:
                return (ValueError, IndexError)
            if kind == "unplug":
                if (o, i) not in self.wanted:
                    raise SkipHistory()
                self.wanted.remove((o, i))
            elif (o, i) not in self.wanted:
                self.wanted.append((o, i))
        elif kind == "add":
            self.inports.append(op[1])
        elif kind == "remove":
            i = self.resolve(op[1], self.inports, lambda n: self.inports[n])
            if i is None:
                return (ValueError, IndexError)
            self.inports.remove(i[1])
            self.wanted = [w for w in self.wanted if w[1] != i]
        elif kind == "input":
            self.labels = SIGNALS[op[1]]
            self.wanted = [w for w in self.wanted if not isinstance(w[0], tuple) or w[0][1] < len(self.labels)]
        elif kind == "activate":
            self.active = True
        elif kind == "deactivate":
            self.active = False
        elif kind == "auto":
            self.auto = op[1]
            if self.auto:
                self.active = False
        elif kind == "record":
            self.active = not self.auto
        return None

    def name(self, port, names):
        if isinstance(port, tuple):
            return f"{OWN}:{names[port[1]]}" if isinstance(port[1], int) else f"{OWN}:{port[1]}"
        return port

    def connections(self):
        return {(self.name(o, self.labels), self.name(i, None)) for o, i in self.wanted}


def make_signal(kind):
    import sumpf
    labels = SIGNALS[kind]
    data = numpy.array([[2.0 ** c] * (2 * BLOCK) for c in range(len(labels))])
    return sumpf.Signal(channels=data, labels=labels, sampling_rate=48000.0)


EXTERNAL_LEVEL = {"ext:out": 256.0, "ext:a": 512.0}


def history(initial, auto, ops):
    """Creates the program, that executes a history and compares it with the model"""
    def compare(sim, jack, model, when):
        own_outputs = [r.name for s, r in sorted(sim.ports.items()) if r.name.startswith(OWN + ":") and not r.is_input]
        own_inputs = [r.name for s, r in sorted(sim.ports.items()) if r.name.startswith(OWN + ":") and r.is_input]
        if sorted(own_outputs) != sorted(f"{OWN}:{n}" for n in model.labels):
            raise Mismatch(f"{when}: the output ports are {own_outputs} instead of {model.labels}")
        if sorted(own_inputs) != sorted(f"{OWN}:{n}" for n in model.inports):
            raise Mismatch(f"{when}: the input ports are {own_inputs} instead of {model.inports}")
        if list(jack.input_ports()) != model.inports:
            raise Mismatch(f"{when}: input_ports returns {jack.input_ports()} instead of {model.inports}")
        client = [c for c in sim.clients if c.name == OWN][0]
        if bool(client._active) != model.active:
            raise Mismatch(f"{when}: the client is {'active' if client._active else 'inactive'}")
        expected = model.connections() if model.active else set()
        if sim.connection_names() != expected:
            raise Mismatch(f"{when}: the connections are {sorted(sim.connection_names())} instead of {sorted(expected)}")

    def record(sim, jack, model, when):
        start = sim.tick
        jack.start()
        r = jack.output()
        model.apply(("record",))
        if r.labels() != tuple(model.inports) or r.shape() != (len(model.inports), 2 * BLOCK):
            raise Mismatch(f"{when}: recorded {r.shape()} with the labels {r.labels()}")
        for n, name in enumerate(model.inports):
            expected = 0.0
            for o, i in model.wanted:
                if i == ("own", name):
                    expected += 2.0 ** o[1] if isinstance(o, tuple) else EXTERNAL_LEVEL[o]
            if not (r.channels()[n] == expected).all():
                raise Mismatch(f"{when}: the input port {name} has recorded {r.channels()[n].tolist()}, {expected} expected")
        sim.cycles(2)
        for name in ("ext:in", "ext:p"):
            expected = sum(2.0 ** o[1] if isinstance(o, tuple) else EXTERNAL_LEVEL[o] for o, i in model.wanted if i == name)
            stream = numpy.concatenate(sim.listeners[name][start:])
            played = stream[stream != 0.0]
            if len(played) != (2 * BLOCK if expected else 0) or not (played == expected).all():
                raise Mismatch(f"{when}: {name} has received {stream.tolist()}, {2 * BLOCK} samples {expected} expected")

    def program(sim):
        import sumpf
        # external ports, some of which have the same short name as one of the own ports
        sim.add_external("ext:a", False, lambda t: EXTERNAL_LEVEL["ext:a"])
        sim.add_external("ext:p", True)
        sim.add_external("ext:in", True)
        sim.add_external("ext:out", False, lambda t: EXTERNAL_LEVEL["ext:out"])
        signal, inports = initial
        model = Model(signal, inports, auto)
        jack = sumpf.Jack(OWN, make_signal(signal), list(inports), auto)
        compare(sim, jack, model, "initially")
        for n, op in enumerate(ops):
            when = f"after {op} (operation {n})"
            if op[0] == "add" and op[1] in model.inports:
                raise SkipHistory()
            if op[0] == "record":
                record(sim, jack, model, when)
                compare(sim, jack, model, when)
                continue
            before = model.connections()
            expected = model.apply(op)
            if op[0] in ("plug", "unplug"):     # another client changes the connections
                if expected is not None:
                    raise SkipHistory()
                by_name = {r.name: s for s, r in sim.ports.items()}
                for o, i in before ^ model.connections():
                    sim.connections = sim.connections ^ {(by_name[o], by_name[i])}
                compare(sim, jack, model, when)
                continue
            call = {"connect": lambda: jack.connect(op[1], op[2]),
                    "add": lambda: jack.add_input_port(op[1]),
                    "remove": lambda: jack.remove_input_port(op[1]),
                    "input": lambda: jack.input(make_signal(op[1])),
                    "activate": lambda: jack.activate(),            # noqa; pylint: disable=unnecessary-lambda
                    "deactivate": lambda: jack.deactivate(),        # noqa; pylint: disable=unnecessary-lambda
                    "auto": lambda: jack.auto_deactivate(op[1])}[op[0]]
            try:
                call()
            except (ValueError, IndexError) as e:
                if expected is None:
                    raise Mismatch(f"{when}: unexpected {type(e).__name__}: {e}") from e
            else:
                if expected is not None:
                    raise Mismatch(f"{when}: no exception for an unknown port")
            compare(sim, jack, model, when)
        record(sim, jack, model, "final recording")
        compare(sim, jack, model, "after the final recording")
        if not model.active:
            jack.activate()
            model.apply(("activate",))
            compare(sim, jack, model, "after the final activation")
        del jack
        left = [r.name for r in sim.ports.values() if r.name.startswith(OWN + ":")]
        if left or sim.clients:
            raise Mismatch(f"after the deletion: the ports {left} are left")
        return True
    return program


def run_history(ck, case):
    install()
    initial, auto, ops = case["history"]
    ops = [tuple(op) for op in ops]
    sim = jacksim.Simulation(history(initial, auto, ops), (), BLOCK, 48000, serial=True).run()
    ck.transition(len(ops) + 2)
    if sim.error and sim.error.startswith("SkipHistory"):
        from mc.core import Skip
        raise Skip()
    if sim.hang:
        raise Mismatch("does not terminate")
    if sim.error:
        raise Mismatch(sim.error)
    if sim.callback_errors:
        raise Mismatch(sim.callback_errors[0])


def run_labels(ck, case):
    """the names of the output ports"""
    install()
    labels, channels = case["labels"]

    def program(sim):
        import sumpf
        signal = sumpf.Signal(channels=numpy.ones((channels, 4)), labels=tuple(labels))
        jack = sumpf.Jack(OWN)
        jack.input(signal)
        names = [p.shortname for p in sim.clients[0].outports]
        if len(names) != channels or len(set(names)) != channels or "" in names:
            raise Mismatch(f"the labels {labels} lead to the port names {names}")
        seen = set()
        for i, label in enumerate(signal.labels()[0:channels]):
            if isinstance(label, str) and label and label not in seen:
                if names[i] != label and label not in names[:i]:
                    raise Mismatch(f"the labels {labels} lead to the port names {names}, channel {i} has a different name")
            seen.add(label)
        return True

    sim = jacksim.Simulation(program, (), BLOCK, 48000, serial=True).run()
    ck.transition()
    if sim.hang or sim.error or sim.callback_errors:
        raise Mismatch(sim.error or f"hang: {sim.hang} {sim.callback_errors}")


INITIAL = [("2ab", ("p", "q")), ("1a", ())]


def explore(ck):
    install()

    def shard(c, item):
        initial, auto, first, alphabet, depth = item
        for n in range(depth):
            for rest in itertools.product(alphabet, repeat=n):
                ops = (first,) + rest
                case = {"history": [initial, auto, ops]}
                c.state(("history", initial, auto, ops))
                c.run(case, lambda: run_history(c, case))
    full = CONNECT + OTHER
    shards = [(initial, auto, first, full, 4 if ck.thorough else 3 if initial is INITIAL[0] else 2) for initial in INITIAL for auto in (True, False) for first in full]
    shards += [(initial, auto, first, CORE, 5 if ck.thorough else 4) for initial in INITIAL[:1] for auto in (True, False) for first in CORE]
    ck.parallel(shard, shards)
    cases = [{"labels": [labels, channels]} for channels in (1, 2, 3) for n in range(0, channels + 1)
             for labels in itertools.product((None, "", "a", "output_1", "output_2", "output_3", "output_1_", "output_2_", "output_3_"), repeat=n)]

    def some(c, part):
        for case in part:
            c.state(("labels", repr(case)))
            c.run(case, lambda: run_labels(c, case))
    ck.parallel(some, [cases[i::8] for i in range(8)])
    ck.sample({"history": shards[0][:3]})


def replay(ck, case):
    if "labels" in case:
        ck.run(case, lambda: run_labels(ck, case))
    else:
        case = {"history": [(case["history"][0][0], tuple(case["history"][0][1])), case["history"][1], case["history"][2]]}
        ck.run(case, lambda: run_history(ck, case))
