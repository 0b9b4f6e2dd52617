"""
Controllable environment: clock, sleeping, system randomness and file
operations.  `install` runs before the package is imported, so whichever way
the package binds these functions it gets the controllable ones.
"""
import asyncio
import asyncio.tasks
import os
import random
import sys
import threading
import time

real_time_ns = time.time_ns
real_time = time.time
real_sleep = time.sleep
real_asleep = asyncio.sleep
real_urandom = os.urandom


class Wedged(BaseException):
    """Waiting can never end: nobody is left who could end it."""


# ------------------------------------------------------------------ clock
class _Clock:
    def __init__(self):
        self.frozen = None  # absolute ns or None
        self.offset = 0
        self.script = None  # callable -> ns

    def now(self):
        if self.script is not None:
            return self.script()
        if self.frozen is not None:
            return self.frozen
        return real_time_ns() + self.offset

    def freeze(self, ns=None):
        self.frozen = real_time_ns() if ns is None else ns

    def advance(self, seconds=0, ns=0):
        if self.frozen is None:
            self.freeze()
        self.frozen += int(seconds * 1_000_000_000) + ns

    def reset(self):
        self.frozen, self.offset, self.script = None, 0, None


clock = _Clock()


def time_ns():
    return clock.now()


def time_s():
    return clock.now() / 1_000_000_000


# ------------------------------------------------------------------ noise
class _Noise:
    """Seeded extra yields for tasks and short pauses for threads."""

    def __init__(self):
        self.async_rng = None
        self.async_rate = 0.0
        self.thread_sleep_rng = None
        self.local = threading.local()

    def off(self):
        self.async_rng = None
        self.thread_sleep_rng = None


noise = _Noise()


async def noisy_asleep(delay=0, result=None):
    rng = noise.async_rng
    if rng is not None and rng.random() < noise.async_rate:
        for _ in range(rng.choice((1, 1, 2, 3, 7))):
            await real_asleep(0)
    return await real_asleep(delay, result)


def budget_sleep(seconds):
    """`time.sleep` with an optional per-thread budget of calls."""
    left = getattr(noise.local, "budget", None)
    if left is not None:
        if left <= 0:
            raise Wedged("sleep budget of this thread exhausted")
        noise.local.budget = left - 1
    return real_sleep(seconds)


def set_sleep_budget(n):
    noise.local.budget = n


# ------------------------------------------------------------ randomness
class _Urandom:
    def __init__(self):
        self.source = None  # callable(n) -> bytes
        self.calls = 0

    def __call__(self, n):
        self.calls += 1
        src = self.source
        if src is not None:
            return src(n)
        return real_urandom(n)


urandom = _Urandom()


# ------------------------------------------------------------------ files
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class _Files:
    """
    Audit-hook monitor.  `handler(kind, path)` is called for every mutating
    file operation below `root`; it may raise to inject a fault.
    """

    def __init__(self):
        self.handler = None
        self.root = None
        self.escapes = []
        self.watch_escapes = False
        self.local = threading.local()

    def hook(self, event, args):
        if self.handler is None and not self.watch_escapes:
            return
        if event == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes)):
                return
            if isinstance(flags, int) and not flags & WRITE_FLAGS:
                kind = "read"
            else:
                kind = "write"
        elif event in _EVENTS:
            kind, path = _EVENTS[event], args[0]
        else:
            return
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, str):
            try:
                path = os.fspath(path)
            except TypeError:
                return
        if getattr(self.local, "busy", False):
            return
        self.local.busy = True
        try:
            path = os.path.abspath(path)
            if kind != "read" and self.watch_escapes and not path.startswith(self.root):
                self.escapes.append((kind, path))
            if self.handler is not None and path.startswith(self.root):
                self.handler(kind, path)
        finally:
            self.local.busy = False

    def off(self):
        self.handler = None
        self.watch_escapes = False


_EVENTS = {
    "os.remove": "remove",
    "os.rename": "rename",
    "os.mkdir": "mkdir",
    "os.rmdir": "rmdir",
    "os.chmod": "chmod",
    "os.truncate": "truncate",
    "os.link": "link",
    "os.symlink": "symlink",
}
files = _Files()


# ------------------------------------------------------------- threads
class _LineNoise:
    """
    Pauses threads at random source lines of the package, through
    `sys.monitoring`; other code is not slowed down.
    """

    TOOL = 4

    def __init__(self):
        self.rng = None
        self.rate = 0.0
        self.events = 0
        self.pauses = 0
        self.only = ()

    def _line(self, code, line):
        name = code.co_filename
        if "/aiootp/" not in name or (self.only and not any(o in name for o in self.only)):
            return sys.monitoring.DISABLE
        self.events += 1
        rng = self.rng
        if rng is not None and rng.random() < self.rate:
            self.pauses += 1
            real_sleep(rng.choice((0, 0, 0, 1e-6, 2e-5)))
        return None

    def on(self, rng, rate=0.2, only=()):
        mon = sys.monitoring
        self.rng, self.rate, self.only = rng, rate, tuple(only)
        if mon.get_tool(self.TOOL) is None:
            mon.use_tool_id(self.TOOL, "vmon")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        sys.setswitchinterval(1e-6)

    def off(self):
        mon = sys.monitoring
        if mon.get_tool(self.TOOL) is not None:
            mon.set_events(self.TOOL, 0)
        self.rng = None
        sys.setswitchinterval(0.005)


line_noise = _LineNoise()


# ----------------------------------------------------- virtual-time loop
class VirtualLoop(asyncio.SelectorEventLoop):
    """
    Event loop whose timers cost nothing: when nothing is ready, the clock
    jumps to the next timer.  Work given to an executor is waited for in
    reality.  `Wedged` is raised when nothing can ever become ready, or after
    `budget` passes over the ready queue.
    """

    def __init__(self, budget=2_000_000):
        super().__init__()
        self._vnow = 1000.0
        self._jobs = 0
        self._budget = budget
        self._select = self._selector.select
        self._selector.select = self._virtual_select

    def time(self):
        return self._vnow

    def run_in_executor(self, executor, func, *args):
        self._jobs += 1
        fut = super().run_in_executor(executor, func, *args)
        fut.add_done_callback(self._job_done)
        return fut

    def _job_done(self, _):
        self._jobs -= 1

    def _virtual_select(self, timeout=None):
        self._budget -= 1
        if self._budget < 0:
            self._budget = 100_000  # allow the clean-up to run
            raise Wedged("event loop made no progress within its step budget")
        if timeout is not None and timeout <= 0:
            self._vnow += 5e-6  # a pass takes time, so that spinning tasks do not stop the clock
            return self._select(0)
        if self._jobs:
            got = self._select(0.02)
            if got:
                return got
            if timeout is not None:
                self._vnow += min(timeout, 0.02)
            return got
        if timeout is None:
            got = self._select(0.05)
            if not got:
                raise Wedged("event loop has nothing left that could wake a task")
            return got
        self._vnow += timeout + 1e-7
        return self._select(0)


def install():
    time.time_ns = time_ns
    time.time = time_s
    time.sleep = budget_sleep
    asyncio.sleep = noisy_asleep
    asyncio.tasks.sleep = noisy_asleep
    os.urandom = urandom
    random._urandom = urandom
    sys.addaudithook(files.hook)
