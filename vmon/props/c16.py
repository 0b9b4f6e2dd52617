"""C16: salt files stay whole, private and un-clobbered under concurrency."""
import asyncio
import itertools
import random
import stat

from aiootp import _paths as P

from vmon import env
from vmon.core import scenario, show

FN = {
    True: dict(make=P._amake_salt_file, read=P._aread_salt_file, update=P._aupdate_salt_file, delete=P._adelete_salt_file,
               path=P.AsyncSecureSaltPath, find=P._afind_salt_file),
    False: dict(make=P._make_salt_file, read=P._read_salt_file, update=P._update_salt_file, delete=P._delete_salt_file,
                path=P.SecureSaltPath, find=P._find_salt_file),
}


async def call(a, name, *args, **kw):
    r = FN[a][name](*args, **kw)
    return await r if a else r


def mode(p):
    return stat.S_IMODE(p.stat().st_mode)


def raw(p):
    p.chmod(0o600)
    try:
        return p.read_bytes()
    finally:
        p.chmod(0)


def private(ctx, p, why, shape=None):
    ctx.check("inaccessible", mode(p) == 0, lambda: f"{why}: mode {mode(p):o} with no operation running", shape=shape or why)


def salt(rng, n=None):
    return rng.randbytes(n or rng.choice((32, 32, 33, 64, 100, 5000)))


@scenario(quick=60, thorough=600, required=("content", "inaccessible", "refused", "kept"))
def sequential(ctx):
    """Random histories of one path, alternating interfaces."""
    rng = ctx.rng

    async def body():
        root = ctx.mkdir("d")
        p, now = root / "salt", None
        key, spath = rng.randbytes(32), None
        for _ in range(40):
            a = rng.random() < 0.5
            op = rng.choice(("make", "read", "read", "update", "update", "short", "short-make", "delete", "path", "broken"))
            shape = (op, a, now is None)
            if op == "make" and now is None:
                s = rng.choice((b"", salt(rng)))
                await call(a, "make", p, salt=s)
                now = s or raw(p)
                ctx.check("content", raw(p) == now and len(now) >= 32, f"made salt {show(raw(p))}, given {show(s)}", shape=shape)
            elif op == "read":
                if now is None:
                    await ctx.araises("refused", FileNotFoundError, call(a, "read", p), what="reading a missing salt", shape=shape)
                    ctx.check("kept", not p.exists(), "reading a missing salt made a file", shape=shape)
                    continue
                got = await call(a, "read", p)
                ctx.check("content", got == now, lambda: f"read {show(got)}, last written {show(now)}", shape=shape + (len(now),))
            elif op == "update":
                s = salt(rng)
                if now is None:
                    continue
                await call(a, "update", p, salt=s)
                now = s
                ctx.check("content", raw(p) == now, lambda: f"after update holds {show(raw(p))}, given {show(now)}", shape=shape + (len(s),))
            elif op in ("short", "short-make"):
                s = rng.randbytes(rng.choice((1, 16, 31)))
                before = (mode(p), raw(p)) if now is not None else None
                if op == "short-make" or now is not None:
                    await ctx.araises("refused", ValueError, call(a, "update" if op == "short" else "make", p, salt=s), what=f"{op} of {len(s)} bytes", shape=shape + (len(s),))
                    after = (mode(p), raw(p)) if p.exists() else None
                    ctx.check("kept", before == after, f"a refused {op} of {len(s)} bytes changed the file", shape=shape)
            elif op == "delete" and now is not None:
                await call(a, "delete", p)
                ctx.check("content", not p.exists(), "deleted salt still exists", shape=shape)
                now = None
            elif op == "path":
                got = await call(a, "path", root, key=key, _admin=False)
                ctx.check("kept", got.is_file() and (spath is None or got == spath[0]), f"salt path {got}, before {spath}", shape=shape)
                s = await call(not a, "read", got)
                ctx.check("kept", spath is None or s == spath[1], "asking again for an existing salt path replaced its salt", shape=shape)
                private(ctx, got, "after making a salt path", shape)
                if spath is None or rng.random() < 0.7:
                    spath = got, s
                else:
                    s = salt(rng)
                    await call(a, "update", got, salt=s)
                    spath = got, s
            elif op == "broken" and now is not None:
                # a file that is too short is reported and closed again
                p.chmod(0o600)
                p.write_bytes(now[:31])
                p.chmod(0)
                await ctx.araises("refused", ValueError, call(a, "read", p), what="reading a short salt", shape=shape)
                private(ctx, p, "after reading a short salt", shape)
                await call(a, "update", p, salt=now)
            if now is not None:
                private(ctx, p, f"after {op}", shape)

    ctx.run(body())


class Register:
    """Unique values; judges every read against the writes around it."""

    def __init__(self, ctx, first):
        self.ctx, self.n = ctx, itertools.count(1)
        self.writes = [(first, 0, 0)]
        self.reads = []

    def tick(self):
        return next(self.n)

    def judge(self, shape):
        when = {v: (s, e) for v, s, e in self.writes}
        for got, s, e in self.reads:
            ok = got in when and when[got][0] < e
            if ok:
                ws, we = when[got]
                # not superseded before the read began
                ok = not any(we is not None and e2 is not None and s2 > we and e2 < s for v2, s2, e2 in self.writes if v2 != got)
            self.ctx.check("whole-read", ok, lambda: f"read {show(got)} ({len(got)} bytes): "
                           + ("superseded before the read began" if got in when else "not a value ever written"), shape=shape)


def value(tag, i, rng):
    head = f"{tag}-{i}-".encode()
    return head + rng.randbytes(rng.choice((40, 60, 3000, 9000)))


async def actor(ctx, reg, p, a, me, rng, root, key, steps):
    for i in range(steps):
        op = rng.choice(("read", "read", "update", "path"))
        s = reg.tick()
        if op == "read":
            got = await call(a, "read", p)
            reg.reads.append((got, s, reg.tick()))
        elif op == "update":
            v = value(me, i, rng)
            entry = [v, s, None]
            reg.writes.append(entry)
            await call(a, "update", p, salt=v)
            entry[2] = reg.tick()
        else:
            got = await call(a, "path", root, key=key)
            ctx.check("kept", got == p, f"salt path moved to {got}")
        if a:
            await asyncio.sleep(0)


@scenario(quick=24, thorough=300, required=("whole-read", "inaccessible"))
def tasks(ctx):
    """Readers, updaters and creators as tasks of one loop."""
    rng = ctx.rng
    root, key = ctx.mkdir("d"), rng.randbytes(32)

    async def body():
        p = await call(True, "path", root, key=key)
        reg = Register(ctx, await call(True, "read", p))
        n = rng.choice((2, 4, 8))
        await asyncio.gather(*(actor(ctx, reg, p, True, k, random.Random(rng.random()), root, key, 6) for k in range(n)))
        reg.judge((n, "tasks"))
        private(ctx, p, "after the tasks", ("tasks", n))
        last = await call(True, "read", p)
        ctx.check("content", last in [w[0] for w in reg.writes], "final salt was never written", shape=n)

    ctx.run(body(), noise=rng.choice((0.0, 0.3)))


@scenario(quick=24, thorough=250, required=("whole-read", "inaccessible"))
def threads(ctx):
    """The same with threads, some of them running their own loops."""
    rng = ctx.rng
    root, key = ctx.mkdir("d"), rng.randbytes(32)
    p = P.SecureSaltPath(root, key=key)
    reg = Register(ctx, P._read_salt_file(p))
    n = rng.choice((2, 3, 5))
    mixed = rng.random() < 0.5
    if rng.random() < 0.6:
        env.line_noise.on(random.Random(rng.random()), 0.1, only=("_paths",))
    try:
        out = ctx.threads([
            lambda k=k, r=random.Random(rng.random()): asyncio.run(actor(ctx, reg, p, mixed and k % 2 == 0, k, r, root, key, 6))
            for k in range(n)
        ])
    finally:
        env.line_noise.off()
    for _, err in out:
        if err is not None:
            raise err
    reg.judge((n, mixed, "threads"))
    private(ctx, p, "after the threads", ("threads", n, mixed))


@scenario(quick=60, thorough=600, required=("one-salt", "inaccessible"))
def creators(ctx):
    """Many create the same salt path at once; all must get one salt."""
    rng = ctx.rng
    root, keys = ctx.mkdir("d"), [rng.randbytes(32) for _ in range(2)]
    n = rng.choice((2, 4, 8))
    kind = ("tasks", "threads", "mixed")[ctx.index % 3]
    admin = rng.random() < 0.5

    async def make(a, key):
        p = await call(a, "path", root, key=key, _admin=admin)
        first = await call(a, "read", p)
        if a:
            await asyncio.sleep(0)
        p2 = await call(a, "path", root, key=key, _admin=admin)
        return key, p, first, p2, await call(a, "read", p)

    if kind == "tasks":
        async def body():
            return await asyncio.gather(*(make(True, keys[i % 2]) for i in range(n)))
        got = ctx.run(body(), noise=rng.choice((0.0, 0.3)))
    else:
        if rng.random() < 0.7:
            env.line_noise.on(random.Random(rng.random()), 0.2, only=("_paths",))
        try:
            out = ctx.threads([lambda i=i: asyncio.run(make(kind == "mixed" and i % 2 == 1, keys[i // 2 % 2])) for i in range(n)])
        finally:
            env.line_noise.off()
        for _, err in out:
            if err is not None:
                raise err
        got = [r for r, _ in out]
    for key in keys:
        mine = [g for g in got if g[0] == key]
        salts = {s for g in mine for s in (g[2], g[4])}
        ctx.check("one-salt", len(salts) <= 1, lambda: f"{kind}: {len(mine)} creators of one path saw {len(salts)} salts", shape=(kind, n, admin))
        for g in mine[:1]:
            private(ctx, g[1], f"after creation by {kind}", (kind, n))
            ctx.check("one-salt", raw(g[1]) in salts, "the salt on disk is not the one the creators read")


@scenario(quick=40, thorough=400, required=("deleted",))
def deletions(ctx):
    """Deleting while others read: a reader gets the salt or an error."""
    rng = ctx.rng
    root = ctx.mkdir("d")
    p = root / "salt"
    s = salt(rng)
    a = bool(ctx.index % 2)

    async def reader(a):
        try:
            return await call(a, "read", p)
        except FileNotFoundError:
            return None

    if a:
        async def body():
            await call(True, "make", p, salt=s)
            return await asyncio.gather(*(reader(True) for _ in range(4)), call(True, "delete", p), *(reader(True) for _ in range(4)))
        got = ctx.run(body(), noise=rng.choice((0.0, 0.3)))
        got = got[:4] + got[5:]
    else:
        P._make_salt_file(p, salt=s)
        out = ctx.threads([lambda: asyncio.run(reader(False)) for _ in range(4)] + [lambda: P._delete_salt_file(p)], budget=300_000)
        for _, err in out:
            if err is not None:
                raise err
        got = [r for r, _ in out[:4]]
    ctx.check("deleted", all(g in (None, s) for g in got), lambda: f"readers during deletion saw {show([g for g in got if g not in (None, s)])}",
              shape=(a, sum(g is None for g in got)))
    ctx.check("deleted", not p.exists(), "the deleted salt exists", shape=a)
