"""
Scenario registry, monitors and the runner.
"""
import asyncio
import errno
import hashlib
import json
import os
import pathlib
import random
import shutil
import sys
import tempfile
import threading
import time
import traceback

from vmon import env

SCENARIOS = []
MAX_PER_KEY = 3
MAX_SHAPES = 20000


class Scenario:
    def __init__(self, fn, quick, thorough, required):
        self.fn, self.name = fn, fn.__name__
        self.quick, self.thorough = quick, thorough
        self.required = required


def scenario(quick, thorough, required=()):
    """Registers a scenario with its number of runs per tier and the monitors
    it must reach for the check to give a verdict."""

    def deco(fn):
        SCENARIOS.append(Scenario(fn, quick, thorough, tuple(required)))
        return fn

    return deco


def show(x, n=160):
    try:
        s = repr(x)
    except Exception as e:  # a broken repr must not hide the finding
        s = f"<unprintable {type(x).__name__}: {e!r}>"
    return s if len(s) <= n else s[: n - 20] + f"...<{len(s)}>"


class Stop(Exception):
    """Ends a scenario early; the violation is already recorded."""


class Ctx:
    def __init__(self, runner, name, index, rng, tier):
        self.runner, self.name, self.index = runner, name, index
        self.rng, self.tier = rng, tier
        self.lock = threading.Lock()
        self._tmp = None
        self.log = []

    # -- scratch
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = pathlib.Path(tempfile.mkdtemp(prefix="s-"))
        return self._tmp

    def mkdir(self, name):
        p = self.tmp / name
        p.mkdir(parents=True, exist_ok=True)
        return p

    def bytes(self, n):
        return self.rng.randbytes(n)

    # -- monitors
    def check(self, monitor, ok, detail="", shape=None, sample=None, key=None):
        r = self.runner
        with self.lock:
            r.monitors[monitor] = r.monitors.get(monitor, 0) + 1
            if shape is not None:
                s = r.shapes.setdefault(monitor, set())
                if len(s) < MAX_SHAPES:
                    h = hashlib.blake2b(repr(shape).encode(), digest_size=6).hexdigest()
                    if h not in s:
                        s.add(h)
                        q = r.samples.setdefault(monitor, [])
                        if len(q) < 3:
                            q.append(show(sample if sample is not None else shape, 300))
        if not ok:
            if callable(detail):
                detail = detail()
            self.violation(monitor, detail, key=key)
        return ok

    def violation(self, monitor, detail, key=None):
        r = self.runner
        key = key or monitor
        with self.lock:
            n = r.vcount[key] = r.vcount.get(key, 0) + 1
            if n <= MAX_PER_KEY:
                r.violations.append(
                    dict(key=key, monitor=monitor, scenario=self.name, index=self.index,
                         detail=str(detail)[:2000])
                )
                r.save(False)

    def eq(self, monitor, got, want, what="", shape=None, key=None):
        ok = type(got) is type(want) and got == want
        return self.check(
            monitor, ok, lambda: f"{what}: got {show(got)}, expected {show(want)}", shape, key=key
        )

    def raises(self, monitor, exc, fn, *a, what="", shape=None, key=None, **kw):
        """fn must raise one of `exc`; returns the exception or None."""
        try:
            got = fn(*a, **kw)
        except exc as e:
            self.check(monitor, True, shape=shape)
            return e
        except Exception as e:
            self.check(
                monitor, False,
                f"{what}: raised {e!r}, expected {names(exc)}", shape, key=key,
            )
            return None
        self.check(monitor, False, lambda: f"{what}: returned {show(got)} instead of failing", shape, key=key)
        return None

    async def araises(self, monitor, exc, coro, what="", shape=None, key=None):
        try:
            got = await coro
        except exc as e:
            self.check(monitor, True, shape=shape)
            return e
        except Exception as e:
            self.check(monitor, False, f"{what}: raised {e!r}, expected {names(exc)}", shape, key=key)
            return None
        self.check(monitor, False, lambda: f"{what}: returned {show(got)} instead of failing", shape, key=key)
        return None

    # -- running coroutines
    def run(self, coro, noise=0.0, virtual=False, budget=2_000_000):
        loop = env.VirtualLoop(budget) if virtual else asyncio.new_event_loop()
        if noise:
            env.noise.async_rng = random.Random(self.rng.random())
            env.noise.async_rate = noise
        env.set_sleep_budget(200_000)  # a blocking wait inside the loop
        try:
            asyncio.set_event_loop(loop)
            return loop.run_until_complete(coro)
        finally:
            env.set_sleep_budget(None)
            env.noise.off()
            try:
                pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
                for t in pending:
                    t.cancel()
                if pending:
                    loop.run_until_complete(asyncio.gather(*pending, return_exceptions=True))
                loop.run_until_complete(loop.shutdown_asyncgens())
                loop.run_until_complete(loop.shutdown_default_executor())
            except BaseException:
                pass
            asyncio.set_event_loop(None)
            loop.close()

    def threads(self, fns, budget=None, join=120):
        """Runs the functions in threads released together; returns the list
        of (result, error).  A thread that exhausts its sleep budget reports
        `Wedged`."""
        out = [(None, None)] * len(fns)
        gate = threading.Barrier(len(fns))

        def body(i, fn):
            env.set_sleep_budget(budget)
            try:
                gate.wait()
                out[i] = (fn(), None)
            except BaseException as e:
                out[i] = (None, e)
            finally:
                env.set_sleep_budget(None)

        ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        end = time.monotonic() + join
        for t in ts:
            t.join(max(0.1, end - time.monotonic()))
        if any(t.is_alive() for t in ts):
            raise TimeoutError("threads still running (watchdog)")
        return out


def names(exc):
    return "/".join(e.__name__ for e in (exc if isinstance(exc, tuple) else (exc,)))


ENVIRONMENT = {errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT}


def through_package(tb):
    while tb is not None:
        if "/aiootp/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


class Runner:
    def __init__(self, prop, tier, seed, shard, nshards, out, only):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards, self.out, self.only = shard, nshards, out, only
        self.monitors, self.shapes, self.samples = {}, {}, {}
        self.violations, self.vcount, self.errors, self.runs = [], {}, [], {}
        self.times = {}

    def plan(self):
        if self.only:
            for s in SCENARIOS:
                if s.name == self.only["scenario"]:
                    yield s, self.only["index"]
            return
        todo, offset = [], 0
        for s in SCENARIOS:
            n = s.quick if self.tier == "quick" else s.thorough
            for i in range(n):
                if (offset + i) % self.nshards == self.shard:
                    todo.append((i / max(1, n), s, i))
            offset += n
        todo.sort(key=lambda x: x[0])
        for _, s, i in todo:
            yield s, i

    def run(self):
        began = time.monotonic()
        for s, i in self.plan():
            rng = random.Random(f"{self.seed}/{self.prop}/{s.name}/{i}")
            ctx = Ctx(self, s.name, i, rng, self.tier)
            t0 = time.monotonic()
            try:
                s.fn(ctx)
            except Stop:
                pass
            except env.Wedged as e:
                ctx.violation("no-progress", f"{e}\n{traceback.format_exc()[-1500:]}",
                              key=f"no-progress/{s.name}")
            except BaseException as e:
                tb = traceback.format_exc()
                environmental = isinstance(e, (MemoryError, KeyboardInterrupt, TimeoutError)) or (
                    isinstance(e, OSError) and e.errno in ENVIRONMENT
                )
                if through_package(e.__traceback__) and not environmental:
                    ctx.violation(
                        "unexpected-exception", tb[-1800:],
                        key=f"unexpected-exception/{s.name}/{type(e).__name__}",
                    )
                else:
                    self.errors.append(dict(scenario=s.name, index=i, trace=tb[-3000:]))
            finally:
                env.noise.off()
                env.line_noise.off()
                env.clock.reset()
                env.urandom.source = None
                env.files.off()
                if ctx._tmp is not None:
                    scrub(ctx._tmp)
            self.runs[s.name] = self.runs.get(s.name, 0) + 1
            self.times[s.name] = self.times.get(s.name, 0) + time.monotonic() - t0
            self.monitors.setdefault("unexpected-exception", 0)
            self.monitors["unexpected-exception"] += 1
            stuck = sum(n for k, n in self.vcount.items() if k.startswith("no-progress"))
            slow = self.vcount and time.monotonic() - began > 120
            if stuck >= 2 or slow or sum(self.vcount.values()) >= 200:
                break  # the verdict is clear; save the remaining time
        self.save(True)

    def save(self, complete):
        required = set()
        for s in SCENARIOS:
            if (s.quick if self.tier == "quick" else s.thorough) > 0:
                required |= set(s.required)
        data = dict(
            complete=complete, monitors=self.monitors,
            shapes={k: sorted(v) for k, v in self.shapes.items()}, samples=self.samples,
            violations=self.violations, errors=self.errors, runs=self.runs,
            required=sorted(required), times={k: round(v, 2) for k, v in self.times.items()},
        )
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(data, f)
        os.replace(tmp, self.out)


def scrub(path):
    for d, dirs, fs in os.walk(path):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(path, ignore_errors=True)
