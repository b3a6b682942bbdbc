"""A simulated JACK server, clock and thread scheduler, under which the real ``sumpf.Jack`` is executed.

The simulator replaces what lies *around* the code under test: the ``jack`` module (the bindings for libjack and the
server behind it), the synchronization primitives of ``threading`` and the clock.  Everything inside ``sumpf`` is the
real code.  Two real threads, of which only the one, that holds the baton, runs, execute a program (the *main* thread)
and the process cycles of the JACK server (the *server* thread).  Scheduling points are the lines (or the bytecode
instructions) of ``sumpf/_blocks`` and every call of a simulated primitive.

Default schedule: the main thread runs until it blocks; a process cycle is run to completion; after a process cycle the
main thread continues, if it is enabled.  A *deviation* at a scheduling point takes the other thread instead (or, between
two process cycles, one more cycle, before the main thread continues).  :func:`explore` enumerates every schedule with up
to a given number of deviations.

Time: the clock advances by one block with each process cycle, and a callback always finishes within its cycle (no
xruns), so that after a sleep of at least one block, the callback, that was running, when the sleep began, is done.
"""

import gc
import math
import os
import sys
import threading
import time
import types

import numpy

from . import core

REAL_THREAD = threading.Thread
REAL_SEMAPHORE = threading.Semaphore
REAL = {name: getattr(threading, name) for name in ("Event", "Lock", "RLock", "Condition", "Semaphore", "BoundedSemaphore")}
REAL_TIME = {name: getattr(time, name) for name in ("sleep", "monotonic", "perf_counter", "time")}
SUMPF = os.path.join(core.REPO, "sumpf") + os.sep
BLOCKS = os.path.join(core.REPO, "sumpf", "_blocks") + os.sep
MAX_TICKS = 60          # a program, that has not ended after this number of cycles, hangs
CURRENT = None          # the running simulation
_local = threading.local()


class Abort(BaseException):     # noqa; pylint: disable=missing-class-docstring
    """Unwinds a simulated thread, when the simulation is over."""


def _simulated():
    return CURRENT is not None and getattr(_local, "sim", None) is CURRENT


############################################
# the simulated synchronization primitives #
############################################


class SimEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        _point()
        self._flag = True

    def clear(self):
        _point()
        self._flag = False

    def wait(self, timeout=None):
        return _wait(lambda: self._flag, timeout)


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        free = lambda: self._owner is None or (self._reentrant and self._owner == me)
        if not blocking:
            _point()
            if not free():
                return False
        elif not _wait(free, None if timeout is None or timeout < 0 else timeout):
            return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        _point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


class SimCondition:
    def __init__(self, lock=None):
        self._lock = SimRLock() if lock is None else lock
        self._waiters = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.acquire()

    def __exit__(self, *args):
        self._lock.release()

    def wait(self, timeout=None):
        token = [False]
        self._waiters.append(token)
        count, self._lock._count, self._lock._owner = self._lock._count, 0, None
        result = _wait(lambda: token[0], timeout)
        if not result and token in self._waiters:
            self._waiters.remove(token)
        _wait(lambda: self._lock._owner is None, None)
        self._lock._owner, self._lock._count = threading.get_ident(), count
        return result

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        for token in self._waiters[:n]:
            token[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class SimSemaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            _point()
            if not self._value:
                return False
        elif not _wait(lambda: self._value > 0, timeout):
            return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        _point()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


_SIM = {"Event": SimEvent, "Lock": SimLock, "RLock": SimRLock, "Condition": SimCondition, "Semaphore": SimSemaphore,
        "BoundedSemaphore": SimSemaphore}


def _concerned():
    """Whether a primitive is used by the code under test (rather than by the libraries below it)"""
    if not _simulated():
        return False
    filename = sys._getframe(2).f_code.co_filename      # pylint: disable=protected-access
    return filename.startswith(SUMPF) or filename.endswith((os.sep + "queue.py", os.sep + "jacksim.py", os.sep + "c12.py", os.sep + "c13.py"))


def _factory(name):
    def create(*args, **kwargs):
        return (_SIM if _concerned() else REAL)[name](*args, **kwargs)
    create.__name__ = name
    return create


def _sleep(seconds):
    if not _concerned():
        return REAL_TIME["sleep"](seconds)
    _wait(lambda: False, seconds)
    return None


def _clock(name):
    def read():
        if _concerned():
            return 1000.0 + CURRENT.tick * CURRENT.blocksize / CURRENT.samplerate
        return REAL_TIME[name]()
    return read


def install():
    """Replaces the ``jack`` module, the primitives of ``threading`` and the clock.  Has to be called before importing sumpf."""
    assert "sumpf" not in sys.modules
    for name in REAL:
        setattr(threading, name, _factory(name))
    time.sleep = _sleep
    for name in ("monotonic", "perf_counter", "time"):
        setattr(time, name, _clock(name))
    module = types.ModuleType("jack")
    for obj in (JackError, JackErrorCode, JackOpenError, CallbackExit, Status, Client, Port, OwnPort, Ports):
        setattr(module, obj.__name__, obj)
    sys.modules["jack"] = module


#################
# the scheduler #
#################


def _instrument():
    """Makes the interpreter call the scheduler for each line and instruction of the code in sumpf/_blocks."""
    import sumpf                                                        # noqa; pylint: disable=unused-import
    monitoring = sys.monitoring
    tool = monitoring.PROFILER_ID
    monitoring.use_tool_id(tool, "jacksim")
    seen = set()

    def add(code):
        if code in seen or not code.co_filename.startswith(BLOCKS) or code.co_name == "__init__":
            return
        seen.add(code)
        monitoring.set_local_events(tool, code, monitoring.events.LINE)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)

    def line(code, number):
        sim = CURRENT
        if sim is not None and not sim.over and not sim.opcodes and getattr(_local, "sim", None) is sim:
            sim.point((code.co_name, number - code.co_firstlineno))

    def instruction(code, offset):
        sim = CURRENT
        if sim is not None and not sim.over and sim.opcodes and getattr(_local, "sim", None) is sim:
            sim.point((code.co_name, offset))

    def granularity(opcodes):
        if _INSTRUMENTED[0] != opcodes:
            _INSTRUMENTED[0] = opcodes
            for code in seen:
                monitoring.set_local_events(tool, code, 0 if opcodes is None else monitoring.events.INSTRUCTION if opcodes else monitoring.events.LINE)

    monitoring.register_callback(tool, monitoring.events.LINE, line)
    monitoring.register_callback(tool, monitoring.events.INSTRUCTION, instruction)
    return granularity


_INSTRUMENTED = [False]
_granularity = None


def _point():
    if _simulated():
        CURRENT.point()


def _wait(condition, timeout):
    """Blocks the calling simulated thread, until the condition is fulfilled or the time is over."""
    sim = CURRENT
    if not _simulated():
        if not condition():
            raise RuntimeError("a simulated primitive is blocking outside of the simulation")
        return True
    sim.point()
    deadline = None
    if timeout is not None:
        deadline = sim.tick + math.floor(timeout * sim.samplerate / sim.blocksize + 1e-9)
    while not condition() and not sim.over:
        if deadline is not None and sim.tick >= deadline:
            return bool(condition())
        sim.block(lambda: condition() or (deadline is not None and sim.tick >= deadline))
    return True


class Simulation:
    """One execution of a program under one schedule."""

    def __init__(self, program, deviations=(), blocksize=4, samplerate=48000, opcodes=False, max_ticks=MAX_TICKS, serial=False):
        self.program = program
        self.deviations = frozenset(deviations)
        self.blocksize = blocksize
        self.samplerate = samplerate
        self.opcodes = opcodes
        self.max_ticks = max_ticks
        self.serial = serial            # only the default schedule is of interest
        self.tick = 0
        self.step = 0                   # counts the points, at which a deviation is possible
        self.points = []                # a description for each of them
        self.over = False
        self.hang = False
        self.result = None
        self.error = None
        self.callback_errors = []
        self.clients = []
        self.ports = {}                 # slot number -> _PortRecord
        self.connections = set()        # (slot of the output port, slot of the input port)
        self.external = {}              # name of an external output port -> function(tick) -> block
        self.listeners = {}             # name of an external input port -> list of blocks (one for each tick)
        self.events = {}                # number of a cycle -> functions, that are called just before it
        self.down = False
        self._semaphores = {"main": REAL_SEMAPHORE(0), "server": REAL_SEMAPHORE(0)}
        self._enabled = {"main": None, "server": None}   # None: enabled, function: condition for becoming enabled
        self._finished = REAL_SEMAPHORE(0)
        self._mid_cycle = False
        self._main_done = False

    # baton passing

    def _who(self):
        return _local.name

    def _hand_over(self, to):
        me = self._who()
        if to == me:
            return
        self._semaphores[to].release()
        self._semaphores[me].acquire()
        if self.over:
            self._unwind()

    def _is_enabled(self, name):
        condition = self._enabled[name]
        if condition is None:
            return True
        if condition():
            self._enabled[name] = None
            return True
        return False

    def _deviate(self, description):
        n = self.step
        self.step += 1
        self.points.append(description)
        return n in self.deviations

    def point(self, description=None):
        """A point, at which the other thread might continue."""
        if self.over:
            self._unwind()
            return
        if self.serial:
            return
        me = self._who()
        if me == "main":
            if not self._mid_cycle and not any(c._active for c in self.clients):
                return      # nothing but the clock would advance, which commutes with everything, that the main thread does
            if self._deviate(("main", description)):
                self._hand_over("server")
        elif self._main_alive() and self._is_enabled("main"):
            if self._deviate(("server", description)):
                self._hand_over("main")

    def block(self, condition):
        """Lets the other thread run, until the condition is fulfilled."""
        if self.over:
            self._unwind()
            return
        me = self._who()
        self._enabled[me] = condition
        if me == "main":
            self._hand_over("server")
            # the main thread is only resumed, when the condition is fulfilled
        else:
            if not self._main_alive() or not self._is_enabled("main"):
                self._stuck()
            self._hand_over("main")
        self._enabled[me] = None

    def _main_alive(self):
        return not self._main_done

    def _unwind(self):
        """Raises an Abort, unless the thread is already being unwound by one."""
        if not getattr(_local, "unwinding", False):
            _local.unwinding = True
            raise Abort()

    def _stuck(self):
        self.hang = True
        self._end()
        self._unwind()

    def _end(self):
        self.over = True
        for s in self._semaphores.values():
            s.release()

    # the threads

    def run(self):
        global CURRENT, _granularity                                     # pylint: disable=global-statement
        assert CURRENT is None
        if _granularity is None:
            _granularity = _instrument()
        _granularity(None if self.serial else self.opcodes)
        CURRENT = self
        threads = [REAL_THREAD(target=self._thread, args=("main", self._main), daemon=True),
                   REAL_THREAD(target=self._thread, args=("server", self._server), daemon=True)]
        try:
            for t in threads:
                t.start()
            self._semaphores["main"].release()
            for t in threads:
                t.join()
        finally:
            CURRENT = None
        return self

    def _thread(self, name, function):
        _local.sim = self
        _local.name = name
        _local.unwinding = False
        self._semaphores[name].acquire()
        try:
            if not self.over:
                function()
        except Abort:
            pass
        finally:
            _local.sim = None
            if name == "main":
                self._main_done = True
            if not self.over:
                self._end()

    def _main(self):
        try:
            self.result = self.program(self)
        except Abort:
            raise
        except BaseException as e:          # pylint: disable=broad-except
            import traceback
            self.error = f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}"
        self._main_done = True

    def _server(self):
        while True:
            # between two cycles
            if self.tick >= self.max_ticks:
                self._stuck()
            if self._main_alive() and self._is_enabled("main"):
                if not any(c._active for c in self.clients) or not self._deviate(("cycle", self.tick)):
                    self._hand_over("main")
            # a process cycle
            self.tick += 1
            for event in self.events.get(self.tick, ()):
                event(self)
            self._mid_cycle = True
            for record in self.ports.values():
                record.prepare(self)
            for client in list(self.clients):
                client._cycle()
            for name, blocks in self.listeners.items():
                blocks.append(self._mix(self._slot(name)))
            for client in list(self.clients):
                client._after_cycle()
            self._mid_cycle = False

    # the server's ports

    def _slot(self, name):
        for slot, record in self.ports.items():
            if record.name == name:
                return slot
        return None

    def _register(self, name, is_input, owner):
        if self._slot(name) is not None:
            return None
        slot = 0
        while slot in self.ports:
            slot += 1
        self.ports[slot] = _PortRecord(slot, name, is_input, owner, self.blocksize)
        return slot

    def _unregister(self, slot):
        self.connections = {c for c in self.connections if slot not in c}
        self.ports.pop(slot, None)

    def _mix(self, slot):
        """The data, that is available at an input port"""
        sources = sorted(o for o, i in self.connections if i == slot)
        if len(sources) == 1:
            return self.ports[sources[0]].buffer.copy()
        result = numpy.zeros(self.blocksize, dtype=numpy.float32)
        for o in sources:
            result += self.ports[o].buffer
        return result

    def add_external(self, name, is_input, data=None):
        """Adds a port of another client, which is always active."""
        slot = self._register(name, is_input, None)
        if is_input:
            self.listeners[name] = []
        else:
            self.ports[slot].source = data
        return slot

    def connection_names(self):
        """The connections in the server."""
        return {(self.ports[o].name, self.ports[i].name) for o, i in self.connections}

    def cycles(self, n):
        """Lets n process cycles pass (called by the program)."""
        deadline = self.tick + n
        _wait(lambda: self.tick >= deadline, None)

    def shutdown(self):
        """Ends the server."""
        self.down = True
        for client in list(self.clients):
            client._active = False
            client._callback("shutdown", Status(0), "the server has been shut down")

    def xrun(self, delay):
        """Notifies the clients about a xrun."""
        for client in list(self.clients):
            client._callback("xrun", delay)


class _PortRecord:
    def __init__(self, slot, name, is_input, owner, blocksize):
        self.slot = slot
        self.name = name
        self.is_input = is_input
        self.owner = owner
        self.source = None
        self.buffer = numpy.zeros(blocksize, dtype=numpy.float32)

    def prepare(self, sim):
        if self.source is not None:
            self.buffer[:] = self.source(sim.tick)


#############################
# the simulated jack module #
#############################


class JackError(Exception):
    pass


class JackErrorCode(JackError):
    pass


class JackOpenError(JackError):
    pass


class CallbackExit(Exception):
    pass


class Status:
    def __init__(self, code):
        self._code = code


class Port:
    def __init__(self, slot, client):
        self._ptr = slot
        self._client = client

    def _record(self):
        sim = self._client._sim
        return sim.ports.get(self._ptr) or _PortRecord(None, "", False, None, sim.blocksize)

    def __repr__(self):
        return f"jack.{type(self).__name__}('{self.name}')"

    def __eq__(self, other):
        return self._ptr == other._ptr

    def __ne__(self, other):
        return not self.__eq__(other)

    __hash__ = None

    @property
    def name(self):
        return self._record().name

    @property
    def shortname(self):
        return self._record().name.partition(":")[2]

    @shortname.setter
    def shortname(self, shortname):
        new = f"{self._record().name.partition(':')[0]}:{shortname}"
        if self._client._sim._slot(new) is not None:
            raise JackError("Error setting port name")
        self._record().name = new

    @property
    def is_input(self):
        return self._record().is_input

    @property
    def is_output(self):
        return not self._record().is_input

    is_audio = True
    is_midi = False
    is_physical = False
    is_terminal = False


class OwnPort(Port):
    @property
    def number_of_connections(self):
        return len(self.connections)

    @property
    def connections(self):
        _point()
        sim = self._client._sim
        if self.is_input:
            slots = [o for o, i in sim.connections if i == self._ptr]
        else:
            slots = [i for o, i in sim.connections if o == self._ptr]
        return [self._client._wrap(s) for s in sorted(slots)]

    def is_connected_to(self, port):
        slot = self._client._sim._slot(port.name if isinstance(port, Port) else port)
        return (self._ptr, slot) in self._client._sim.connections or (slot, self._ptr) in self._client._sim.connections

    def connect(self, port):
        if not isinstance(port, Port):
            port = self._client.get_port_by_name(port)
        if self.is_output:
            if not port.is_input:
                raise ValueError("Input port expected")
            self._client.connect(self, port)
        else:
            if not port.is_output:
                raise ValueError("Output port expected")
            self._client.connect(port, self)

    def disconnect(self, other=None):
        sim = self._client._sim
        if other is None:
            sim.connections = {c for c in sim.connections if self._ptr not in c}
        elif self.is_output:
            self._client.disconnect(self, other)
        else:
            self._client.disconnect(other, self)

    def unregister(self):
        _point()
        ports = self._client.inports if self.is_input else self._client.outports
        ports._portlist.remove(self)
        _point()
        self._client._sim._unregister(self._ptr)

    def get_array(self):
        sim = self._client._sim
        record = sim.ports.get(self._ptr)
        if record is None:      # the port has been unregistered during the callback: JACK returns a dummy buffer
            return numpy.zeros(sim.blocksize, dtype=numpy.float32)
        if record.is_input:
            result = sim._mix(self._ptr)
            result.setflags(write=False)
            return result
        return record.buffer

    def get_buffer(self):
        return memoryview(self.get_array())


class Ports:
    def __init__(self, client, is_input):
        self._client = client
        self._is_input = is_input
        self._portlist = []

    def __len__(self):
        return len(self._portlist)

    def __getitem__(self, name):
        return self._portlist[name]

    def __iter__(self):
        return iter(self._portlist)

    def __repr__(self):
        return repr(self._portlist)

    def register(self, shortname, is_terminal=False, is_physical=False):
        _point()
        slot = self._client._sim._register(f"{self._client.name}:{shortname}", self._is_input, self._client)
        if slot is None:
            raise JackError(f"{shortname!r}: port registration failed")
        port = OwnPort(slot, self._client)
        self._portlist.append(port)
        return port

    def clear(self):
        while self._portlist:
            self._portlist[0].unregister()


class Client:
    def __init__(self, name, use_exact_name=False, no_start_server=False, servername=None, session_id=None):
        self._sim = CURRENT
        self._active = False
        self._in_callback = False
        self._failed = False
        self._callbacks = {}
        self.inports = Ports(self, True)
        self.outports = Ports(self, False)
        names = {c.name for c in self._sim.clients} | {r.name.partition(":")[0] for r in self._sim.ports.values()}
        self.name = name
        n = 0
        while self.name in names:
            n += 1
            self.name = f"{name}-{n:02d}"
        self.status = Status(0)
        self.realtime = False
        self._sim.clients.append(self)
        self._closed = False

    def __enter__(self):
        self.activate()
        return self

    def __exit__(self, *args):
        self.deactivate()
        self.close()

    @property
    def samplerate(self):
        return self._sim.samplerate

    @property
    def blocksize(self):
        return self._sim.blocksize

    @property
    def frame_time(self):
        return self._sim.tick * self._sim.blocksize

    last_frame_time = frame_time
    frames_since_cycle_start = 0

    def cpu_load(self):
        return 0.0

    def activate(self):
        _point()
        if self._closed or self._sim.down:
            raise JackError("Error activating JACK client")
        if not self._active:
            self._active = True
            self._failed = False
        _point()

    def deactivate(self, ignore_errors=True):
        _point()
        if not self._sim.over and _simulated() and self._in_callback and _local.name == "main":
            self._sim.block(lambda: not self._in_callback)      # the server waits for the end of the callback
        self._deactivate()
        if not self._sim.over:
            _point()

    def _deactivate(self):
        self._active = False
        own = {s for s, r in self._sim.ports.items() if r.owner is self}
        self._sim.connections = {c for c in self._sim.connections if not own & set(c)}

    def close(self, ignore_errors=True):
        if not self._closed:
            self.deactivate()
            self._closed = True
            for slot in [s for s, r in self._sim.ports.items() if r.owner is self]:
                self._sim._unregister(slot)
            if self in self._sim.clients:
                self._sim.clients.remove(self)

    def owns(self, port):
        record = self._sim.ports.get(port._ptr if isinstance(port, Port) else self._sim._slot(port) if isinstance(port, str) else port)
        return record is not None and record.owner is self

    def _wrap(self, slot):
        record = self._sim.ports[slot]
        return (OwnPort if record.owner is self else Port)(slot, self)

    def get_port_by_name(self, name):
        slot = self._sim._slot(name)
        if slot is None:
            raise JackError(f"Port {name!r} not available")
        return self._wrap(slot)

    def get_all_connections(self, port):
        slots = [o if i == port._ptr else i for o, i in self._sim.connections if port._ptr in (o, i)]
        return [self._wrap(s) for s in sorted(slots)]

    def get_ports(self, name_pattern="", is_audio=False, is_midi=False, is_input=False, is_output=False, is_physical=False,
                  can_monitor=False, is_terminal=False):
        import re
        result = []
        for slot, record in sorted(self._sim.ports.items()):
            if is_input and not record.is_input or is_output and record.is_input or is_physical or is_terminal or can_monitor:
                continue
            if is_midi and not is_audio or not re.search(name_pattern, record.name):
                continue
            result.append(self._wrap(slot))
        return result

    def _endpoints(self, source, destination):
        names = [p.name if isinstance(p, Port) else p for p in (source, destination)]
        slots = [self._sim._slot(n) for n in names]
        records = [self._sim.ports.get(s) for s in slots]
        if None in records or records[0].is_input or not records[1].is_input:
            raise JackErrorCode(f"Error connecting {names[0]!r} -> {names[1]!r}")
        for r in records:
            if r.owner is not None and not r.owner._active:
                raise JackErrorCode(f"Error connecting {names[0]!r} -> {names[1]!r}: cannot connect ports owned by inactive clients")
        return tuple(slots)

    def connect(self, source, destination):
        _point()
        connection = self._endpoints(source, destination)
        if connection in self._sim.connections:
            raise JackErrorCode("Connection already exists")
        self._sim.connections = self._sim.connections | {connection}
        _point()

    def disconnect(self, source, destination):
        _point()
        connection = self._endpoints(source, destination)
        if connection not in self._sim.connections:
            raise JackErrorCode("Couldn't disconnect")
        self._sim.connections = self._sim.connections - {connection}

    # callbacks

    def _callback(self, name, *args):
        if name in self._callbacks:
            try:
                self._callbacks[name](*args)
            except CallbackExit:
                return False
            except Abort:
                raise
            except BaseException as e:              # pylint: disable=broad-except
                import traceback
                self._sim.callback_errors.append(f"{name}: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-3)}")
                return False
        return True

    def _cycle(self):
        if self._active and "process" in self._callbacks:
            self._in_callback = True
            if not self._callback("process", self._sim.blocksize):
                self._failed = True
            self._in_callback = False

    def _after_cycle(self):
        if self._failed:
            self._failed = False
            _point()
            self._deactivate()


def _setter(name):
    def set_callback(self, callback=None, *args, **kwargs):
        def decorator(function):
            self._callbacks[name] = function
            return function
        return decorator if callback is None else decorator(callback)
    return set_callback


for _name in ("shutdown", "process", "freewheel", "blocksize", "samplerate", "client_registration", "port_registration",
              "port_connect", "port_rename", "graph_order", "xrun", "sync", "timebase", "property_change"):
    setattr(Client, f"set_{_name}_callback", _setter(_name))


###################
# the exploration #
###################


def explore(make, bound, visit, first=(), shard=(0, 1)):
    """Executes every schedule with up to ``bound`` deviations.

    :param make: a function, that creates a simulation from a sequence of deviations
    :param bound: the maximum number of deviations
    :param visit: a function, that is called with the deviations and the finished simulation
    :param first: the deviations, from which the exploration starts
    :param shard: a tuple (i, n): only the i-th of n parts of the exploration is done (divided by the first deviation)
    """
    stack = [tuple(first)]
    while stack:
        deviations = stack.pop()
        sim = make(deviations).run()
        if deviations or shard[0] == 0:
            visit(deviations, sim)
        if len(deviations) < bound:
            start = deviations[-1] + 1 if deviations else 0
            stack.extend(deviations + (n,) for n in range(sim.step - 1, start - 1, -1)
                         if len(deviations) > len(first) or n % shard[1] == shard[0])
