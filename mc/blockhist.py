"""Exhaustive exploration of the histories of a block with an ``add``/``remove``/``replace`` multi-input and an output.

The real object is mutable and caches its output, so every history is executed from scratch; the model is an ordered
mapping from the identifiers to the data. ``output`` is an action of its own, because it changes the state of the cache.
Data arrives directly or through connections from the outputs of other processing blocks.
"""

import connectors
from mc.ref import Mismatch, expect, expect_equal


class Source:
    """A processing block, whose output can be connected to the explored block."""

    def __init__(self, value):
        self.__value = value

    @connectors.Output()
    def output(self):
        return self.__value

    @connectors.Input("output")
    def set(self, value):
        self.__value = value
        return self


class Sink:
    """A processing block, that is connected to the explored block's output."""

    def __init__(self):
        self.__value = None

    @connectors.Output()
    def get(self):
        return self.__value

    @connectors.Input("get")
    def set(self, value):
        self.__value = value
        return self


class History:
    """Executes a sequence of actions on the block and the model in lock step.

    Model: ``entries`` is a list of [tag, data index]; the tag is an integer for added data and "s<n>" for sources.
    """

    def __init__(self, create, pool, expected, compare, initial, initial_mode=None):
        self.pool = pool
        self.expected = expected
        self.compare = compare
        self.block = create([pool[i] for i in initial])
        self.entries = []
        self.ids = {}
        self.mode = initial_mode
        self.sources = {}
        self.sink = None
        self.counter = 0
        self.outputs = []
        # the identifiers of the data sets, that are passed to the constructor, are not known to the caller
        for i in initial:
            self.entries.append(["initial", i])

    def perform(self, action):
        name, *args = action
        if name == "add":
            tag = self.counter
            self.counter += 1
            data_id = self.block.add(self.pool[args[0]])
            expect(data_id not in self.ids.values(), "the identifier {!r} is already in use", data_id)
            self.ids[tag] = data_id
            self.entries.append([tag, args[0]])
        elif name == "remove":
            tag = self.removable()[args[0]]
            expect(self.block.remove(self.ids.pop(tag)) is self.block, "remove does not return the block")
            self.entries = [e for e in self.entries if e[0] != tag]
        elif name == "replace":
            tag = self.removable()[args[0]]
            data_id = self.ids[tag]
            expect_equal(self.block.replace(data_id, self.pool[args[1]]), data_id, "identifier, that is returned by replace")
            next(e for e in self.entries if e[0] == tag)[1] = args[1]
        elif name == "mode":
            expect(self.block.set_mode(getattr(type(self.block).modes, args[0])) is self.block, "set_mode does not return the block")
            self.mode = args[0]
        elif name == "connect":
            tag = f"s{args[0]}"
            self.sources[tag] = self.sources.get(tag) or Source(None)
            self.sources[tag].set(self.pool[args[1]])
            self.block.add.connect(self.sources[tag].output)
            self.entries.append([tag, args[1]])
        elif name == "disconnect":
            tag = f"s{args[0]}"
            self.block.add.disconnect(self.sources[tag].output)
            self.entries = [e for e in self.entries if e[0] != tag]
        elif name == "set":
            tag = f"s{args[0]}"
            self.sources[tag].set(self.pool[args[1]])
            next(e for e in self.entries if e[0] == tag)[1] = args[1]
        elif name == "observe":
            self.sink = Sink()
            self.sink.set.connect(self.block.output)
        elif name == "output":
            self.check()

    def removable(self):
        return [e[0] for e in self.entries if isinstance(e[0], int)]

    def enabled(self, alphabet):
        """all actions of the alphabet, that are possible in the current state (and no pointless repetitions)"""
        tags = [e[0] for e in self.entries]
        result = []
        for action in alphabet:
            name, *args = action
            if name in ("remove", "replace") and args[0] >= len(self.removable()):
                continue
            if name == "connect" and f"s{args[0]}" in tags:
                continue
            if name in ("disconnect", "set") and f"s{args[0]}" not in tags:
                continue
            if name == "observe" and self.sink is not None:
                continue
            if name in ("add", "connect") and len(tags) >= 4:
                continue
            result.append(action)
        return result

    def check(self):
        data = [self.pool[i] for _, i in self.entries]
        if not data:
            try:
                result = self.block.output()
            except RuntimeError:
                self.outputs.append("empty")
                return
            raise Mismatch(f"the output of an empty block is {result!r} instead of raising a RuntimeError")
        result = self.block.output()
        again = self.block.output()
        wanted = self.expected([i for _, i in self.entries], self.mode)
        self.compare(result, wanted)
        self.compare(again, wanted)
        if self.sink is not None:
            self.compare(self.sink.get(), wanted)
        self.outputs.append(tuple(i for _, i in self.entries))

    def key(self):
        return (tuple((str(t), i) for t, i in self.entries), self.mode, self.sink is not None)


def long_histories(count):
    """histories of a block with many inputs: each one is removed or replaced; the others are added meanwhile; some inputs are connections"""
    everything = [["add", i % 6] for i in range(count)]
    for i in range(count):
        for action in (["remove", i], ["replace", i, (i + 1) % 6]):
            yield [*everything, ["output"], action, ["output"]]
            yield [*everything, action, ["output"], ["add", 3], ["output"]]
    yield [*everything, *[a for i in range(count - 1) for a in (["output"], ["remove", 0])], ["output"]]
    yield [*everything, *[a for i in reversed(range(1, count)) for a in (["remove", i], ["output"])], ["output"]]
    yield [*everything, *[a for i in range(count) for a in (["replace", i, (i + 2) % 6], ["output"])]]
    connections = [a for i in range(min(count, 8)) for a in (["connect", i, i % 6], ["add", (i + 3) % 6])]
    yield ["observe"] + connections + [["output"]] + [a for i in range(min(count, 8)) for a in (["set", i, (i + 1) % 6], ["output"])]
    yield connections + [a for i in range(min(count, 8)) for a in (["output"], ["disconnect", i])] + [["output"]]
    yield connections + [a for i in reversed(range(min(count, 8))) for a in (["disconnect", i], ["connect", i, (i + 4) % 6], ["output"], ["remove", 0], ["output"])]


def explore(ck, make, alphabet, depth, case, prefix=()):
    """depth first enumeration of all histories of up to ``depth`` actions; each one ends with a look at the output."""
    stack = [list(prefix)]
    while stack:
        actions = stack.pop()
        full = dict(case, actions=actions)
        enabled = ck.run(full, lambda: execute(ck, make, actions, alphabet if len(actions) < depth else ()))
        for action in enabled or ():
            if action[0] == "output" and actions and actions[-1][0] == "output":
                continue
            stack.append(actions + [action])
    ck.sample(full, 2)


def execute(ck, make, actions, alphabet):
    history = make()
    for action in actions:
        history.perform(action)
        ck.transition()
    enabled = history.enabled(alphabet)
    ck.state((history.key(), len(actions), tuple(history.outputs)))
    history.check()
    return enabled
