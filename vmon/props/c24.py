"""C24: generated identifiers."""
import asyncio
import random
import threading

import aiootp

from vmon import env
from vmon.core import scenario, show

GUID = aiootp.GUID
SIZES = range(12, 33)
EPOCH = 1672531200 * 10**9


def fixed(rng):
    """A random source that repeats itself."""
    r = rng.random()
    if r < 0.4:
        byte = rng.choice((b"\0", b"\xff", bytes([rng.randrange(256)])))
        return lambda n: byte * n
    if r < 0.7:
        block = rng.randbytes(64)
        return lambda n: (block * (n // 64 + 1))[:n]
    few = [rng.randbytes(64) for _ in range(rng.randrange(2, 5))]
    pick = random.Random(rng.random())
    return lambda n: (pick.choice(few) * (n // 64 + 1))[:n]


def instant(rng):
    r = rng.random()
    if r < 0.15:
        return EPOCH + rng.randrange(3)
    if r < 0.3:
        return EPOCH + (1 << rng.randrange(1, 63)) + rng.randrange(-1, 2)
    if r < 0.35:
        return EPOCH + (1 << 64) - 1 - rng.randrange(3)
    return EPOCH + rng.randrange(1 << 60)


def key(rng, size):
    n = GUID.key_size(size)
    r = rng.random()
    if r < 0.1:
        return bytes([rng.choice((1, 127, 128, 255))]) * n
    if r < 0.15:
        return bytes(n - 1) + b"\1"
    return rng.randbytes(n)


def node(rng):
    return bytes([rng.choice((0, 1, 127, 128, 254, 255, rng.randrange(256)))])


def fields(c):
    return c.timestamp, c.token, c.node_id, c.ticker


def maker(rng, size, k, n):
    kw = dict(key=k, config_id=size)
    if n != b"\0" or rng.random() < 0.5:
        kw["node_id"] = n
    return GUID(**kw)


async def make(g, how):
    return g.new() if how == "sync" else await g.anew()


async def read(g, how, x):
    return g.read(x) if how == "sync" else await g.aread(x)


def hows(rng):
    return rng.choice(("sync", "async"))


@scenario(quick=60, thorough=900, required=("unique", "fields", "order"))
def history(ctx):
    """One generator under a stepping clock and a repeating random source."""
    rng = ctx.rng
    size = SIZES[ctx.index % len(SIZES)]
    k, n = key(rng, size), node(rng)
    g = maker(rng, size, k, n)

    async def body():
        env.clock.freeze(EPOCH + 5 * 10**17)
        for _ in range(rng.choice((0, 0, 1, 254, 255, 256, rng.randrange(600)))):
            g.new()  # the counter may start anywhere
        now = instant(rng)
        env.urandom.source = fixed(rng)
        seen, log = {}, []
        for step in range(rng.randrange(2, 9)):
            if now - EPOCH >= 1 << 64:
                break
            env.clock.freeze(now)
            ticks = set()
            burst = rng.choice((1, 2, 3, 17, 255, 256, 256))
            for _ in range(burst):
                how = hows(rng)
                x = await make(g, how)
                ctx.check("size", type(x) is bytes and len(x) == size, lambda: f"{how} size {size}: {show(x)}", shape=(size, how))
                ctx.check("unique", x not in seen, lambda: f"size {size} node {n}: {x.hex()} made at ns {seen[x]} came again at {now}, burst of {burst}", shape=(size, burst, len(seen) % 256))
                seen[x] = now
                reader = rng.choice((g, maker(rng, size, k, n), maker(rng, size, k, node(rng))))
                back = hows(rng)
                c = await read(reader, back, x)
                want = (now - EPOCH).to_bytes(8, "big")
                ctx.check("fields", c.timestamp == want and c.node_id == n and len(c.ticker) == 1 and len(c.token) == size - 10,
                          lambda: f"size {size} {how}->{back}: {show(fields(c))}, made at {want.hex()} by node {n}", shape=(size, how, back, n))
                ctx.check("counter", c.ticker not in ticks, lambda: f"size {size}: counter {c.ticker.hex()} twice in one tick, burst of {burst}", shape=(size, burst, len(ticks)))
                ticks.add(c.ticker)
                log.append(c)
            now += rng.choice((1, 1, 2, 255, 256, 257, 10**9, rng.randrange(1, 1 << 50)))
        # whatever order they are handed over in, sorting restores the order of creation
        mixed = log[:]
        rng.shuffle(mixed)
        stamps = [c.timestamp for c in sorted(mixed)]
        ctx.check("order", stamps == sorted(stamps) == [c.timestamp for c in log], lambda: f"size {size}: sorted stamps {show(stamps)}", shape=(size, len(log)))
        for _ in range(60):
            a, b = rng.choice(log), rng.choice(log)
            if a.timestamp == b.timestamp:
                ctx.check("order", (a == b) == (fields(a) == fields(b)) and not (a < b and a > b), lambda: f"size {size}: {fields(a)} and {fields(b)}", shape=(size, "tie"))
                continue
            early, late = (a, b) if a.timestamp < b.timestamp else (b, a)
            ok = early < late and late > early and not late < early and not early > late and early != late
            ctx.check("order", ok, lambda: f"size {size}: {fields(early)} does not sort before {fields(late)}", shape=(size, early.node_id, early.ticker < late.ticker))
        for bad in (b"", x[:-1], x + b"\0", b"\0" + x):
            back = hows(rng)
            await ctx.araises("refused", ValueError, read(g, back, bad), what=f"size {size} {back} reading {len(bad)} bytes", shape=(size, len(bad) - size, back))

    ctx.run(body(), noise=rng.choice((0, 0.3)))


@scenario(quick=60, thorough=600, required=("nodes",))
def nodes(ctx):
    """Generators with one key and different node numbers in one instant."""
    rng = ctx.rng
    size = SIZES[ctx.index % len(SIZES)]
    k = key(rng, size)
    count = rng.choice((2, 3, 16, 256))
    ids = [bytes([i]) for i in rng.sample(range(256), count)]
    gens = [maker(rng, size, k, n) for n in ids]
    per = rng.choice((1, 2, 5)) if count > 16 else rng.choice((1, 7, 64, 256))
    env.clock.freeze(instant(rng))
    env.urandom.source = fixed(rng)
    seen = {}

    async def body():
        calls = [(n, g) for n, g in zip(ids, gens) for _ in range(per)]
        if rng.random() < 0.5:
            rng.shuffle(calls)
        for n, g in calls:
            x = await make(g, hows(rng))
            ctx.check("nodes", x not in seen, lambda: f"size {size}: node {n} and node {seen[x]} both made {x.hex()}", shape=(size, count, per))
            seen[x] = n
            c = await read(rng.choice(gens), hows(rng), x)
            ctx.check("fields", c.node_id == n, lambda: f"size {size}: node {n} read as {c.node_id}", shape=(size, n))

    ctx.run(body())


def judge(ctx, g, made, size, what, shape):
    """No repeats among those of one instant with at most 256 of them."""
    by = {}
    for x in made:
        by.setdefault(g.read(x).timestamp, []).append(x)
    for stamp, xs in by.items():
        if len(xs) > 256:
            continue
        dup = len(xs) - len(set(xs))
        ctx.check("concurrent-unique", dup == 0, lambda: f"{what}, size {size}: {dup} of {len(xs)} identifiers of one instant are repeats", shape=shape)


@scenario(quick=80, thorough=900, required=("concurrent-unique",))
def in_threads(ctx):
    """Threads share one generator."""
    rng = ctx.rng
    size = rng.choice(SIZES)
    g = maker(rng, size, key(rng, size), node(rng))
    n = rng.choice((2, 3, 4, 8))
    per = rng.choice((4, 16, 256 // n))
    for _ in range(rng.choice((0, 0, 250, 255))):
        g.new()
    env.urandom.source = fixed(rng)
    now = instant(rng) // 2 + EPOCH // 2  # room to move on
    kind = rng.choice(("still", "moving"))
    if kind == "still":
        env.clock.freeze(now)
    else:
        every, calls, lock = rng.choice((2, 5, 20)), [0], threading.Lock()
        per = rng.choice((per, 300))

        def tick():
            with lock:
                calls[0] += 1
                return now + calls[0] // every

        env.clock.script = tick
    env.line_noise.on(random.Random(rng.random()), rate=rng.choice((0.05, 0.3, 0.7)), only=("/randoms/", "/clocks"))

    def body(how):
        if how == "sync":
            return [g.new() for _ in range(per)]

        async def some():
            return [await g.anew() for _ in range(per)]

        loop = asyncio.new_event_loop()
        try:
            return loop.run_until_complete(some())
        finally:
            loop.close()

    out = ctx.threads([lambda how=hows(rng): body(how) for _ in range(n)])
    env.line_noise.off()
    for _, e in out:
        if e is not None:
            raise e
    judge(ctx, g, [x for got, _ in out for x in got], size, f"{n} threads, {per} each, {kind} clock", (n, per, kind))


@scenario(quick=60, thorough=600, required=("concurrent-unique",))
def tasks(ctx):
    """Tasks share one generator."""
    rng = ctx.rng
    size = rng.choice(SIZES)
    g = maker(rng, size, key(rng, size), node(rng))
    n = rng.choice((2, 5, 16, 64))
    per = 256 // n
    env.urandom.source = fixed(rng)
    env.clock.freeze(instant(rng))
    made = []

    async def one():
        for _ in range(per):
            made.append(await make(g, hows(rng)))

    async def body():
        await asyncio.gather(*(one() for _ in range(n)))

    ctx.run(body(), noise=rng.choice((0, 0.3, 0.8)))
    judge(ctx, g, made, size, f"{n} tasks", (n, per, "tasks"))


@scenario(quick=20, thorough=200, required=("default",))
def defaults(ctx):
    """Generators without a key of their own read each other's identifiers."""
    rng = ctx.rng
    env.clock.freeze(instant(rng))
    env.urandom.source = fixed(rng)
    seen = set()
    for size in SIZES:
        a, b = GUID(config_id=size), GUID(node_id=b"\1", config_id=size)
        for g, n in ((a, b"\0"), (b, b"\1")) * 3:
            x = g.new()
            c = rng.choice((a, b)).read(x)
            ctx.check("default", c.node_id == n and x not in seen and c.timestamp == (env.clock.frozen - EPOCH).to_bytes(8, "big"), lambda: f"size {size}: {fields(c)}", shape=(size, n))
            seen.add(x)
    for bad in (b"", b"12", b"\0\0"):
        ctx.raises("refused", ValueError, GUID, node_id=bad, config_id=16, what=f"node number {bad}", shape=len(bad))
