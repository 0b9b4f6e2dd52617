"""C04: expired data is never accepted and unexpired data always is."""
import math

import aiootp

from vmon import crypto as cr
from vmon import env
from vmon.core import scenario

S = 1_000_000_000
EPOCH = 1672531200 * S
Expired = aiootp.asynchs.Clock.TimestampExpired


def start(rng):
    """An instant with an arbitrary sub-second part, often next to a tick."""
    t = EPOCH + rng.randrange(10**6, 3 * 10**9) * S
    return t + rng.choice((0, 1, S - 1, S // 2, rng.randrange(S)))


def age(t0, t1):
    """Whole units passed between the two instants, as the clock counts."""
    return (t1 - EPOCH) // S - (t0 - EPOCH) // S


def instants(rng, t0, ttl):
    """Opening instants around the limit and far from it."""
    tick = t0 - (t0 - EPOCH) % S
    edge = tick + (ttl + 1) * S
    out = [t0, edge - 1, edge, edge + 1, edge - S, edge + S, t0 + ttl * S, t0 + (ttl + 1) * S,
           t0 - rng.randrange(0, 100) * S, t0 + rng.randrange(0, 2 * ttl + 5) * S,
           t0 + rng.randrange(1, 900_000_000) * S]
    rng.shuffle(out)
    return out[: rng.randrange(4, 12)]


def limits(rng):
    return rng.choice((0, 1, 2, 3, 10, 59, 60, 61, 3600, 86400, 31536000, rng.randrange(1, 10**8)))


async def opening(how, c, sealed, aad, ttl):
    kw = {} if ttl is None else dict(ttl=ttl)
    if how == "bytes":
        return c.bytes_decrypt(sealed, aad=aad, **kw)
    if how == "abytes":
        return await c.abytes_decrypt(sealed, aad=aad, **kw)
    if how == "token":
        return c.read_token(sealed, aad=aad, **kw)
    if how == "atoken":
        return await c.aread_token(sealed, aad=aad, **kw)
    if how == "json":
        return c.json_decrypt(sealed, aad=aad, **kw)
    return await c.ajson_decrypt(sealed, aad=aad, **kw)


async def judge(ctx, where, t0, t1, ttl, want, coro, shape):
    """One opening attempt against the oracle."""
    a = age(t0, t1)
    late = ttl is not None and a > ttl
    try:
        got = await coro
    except Expired as e:
        ctx.check("unexpired-accepted", late, lambda: f"{where}: age {a} s, ttl {ttl}: refused as expired", shape=(shape, a, ttl))
        if late:
            ctx.check("expired-refused", True, shape=(shape, a, ttl), sample=f"{where}: age {a} s, ttl {ttl}: refused")
            by = getattr(e, "expired_by", None)
            if by is not None:
                ctx.check("expired-by", by == a - ttl, f"{where}: reported expiry by {by}, expected {a - ttl}")
        return
    except Exception as e:
        ctx.check("expired-refused" if late else "unexpired-accepted", False,
                  f"{where}: age {a} s, ttl {ttl}: raised {e!r}")
        return
    if late:
        ctx.check("expired-refused", False, f"{where}: age {a} s, ttl {ttl}: opened to {got!r:.80}")
    else:
        ctx.check("unexpired-accepted", type(got) is type(want) and got == want,
                  lambda: f"{where}: age {a} s, ttl {ttl}: opened to {got!r:.80}, sealed {want!r:.80}", shape=(shape, a, ttl))


@scenario(quick=240, thorough=4000, required=("expired-refused", "unexpired-accepted"))
def messages(ctx):
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    aad = cr.raad(rng)
    c = cr.new_cipher(name, cr.rkey(rng))
    t0 = start(rng)
    env.clock.freeze(t0)
    msg, val = cr.message(rng, cr.length(rng, name)), cr.json_value(rng)
    sealed = {}

    async def body():
        sealed["bytes"] = rng.choice((c.bytes_encrypt(msg, aad=aad), await c.abytes_encrypt(msg, aad=aad)))
        sealed["token"] = rng.choice((c.make_token(msg, aad=aad), await c.amake_token(msg, aad=aad)))
        sealed["json"] = rng.choice((c.json_encrypt(val, aad=aad), await c.ajson_encrypt(val, aad=aad)))
        sealed["stream"] = await cr.seal(c, rng.choice(("stream", "astream")), msg, aad)
        for _ in range(2):
            ttl = limits(rng)
            for t1 in instants(rng, t0, ttl):
                env.clock.freeze(t1)
                how = rng.choice(("bytes", "abytes", "token", "atoken", "json", "ajson"))
                data = sealed[how.lstrip("a")]
                if "bytes" in how and rng.random() < 0.5:
                    data = sealed["stream"]
                want = val if "json" in how else msg
                lim = None if rng.random() < 0.15 else ttl
                await judge(ctx, f"{name} {how}", t0, t1, lim, want, opening(how, c, data, aad, lim), (name, how))

    ctx.run(body())


def packets(name, key, msg, aad, salt=None):
    c = cr.new_cipher(name, key)
    s = c.stream_encrypt(salt=salt, aad=aad)
    s.buffer(msg)
    out = [i + b for i, b in s] + [i + b for i, b in s.finalize()]
    return s, out


class Driver:
    """Uniform blocking/asynchronous access to a decryption stream."""

    def __init__(self, stream, is_async):
        self.s, self.a = stream, is_async

    async def buffer(self, data):
        return await self.s.abuffer(data) if self.a else self.s.buffer(data)

    async def drain(self, sink, limit=None, final=False):
        """Plaintext goes into `sink` even if the iteration then fails."""
        if self.a:
            it = self.s.afinalize() if final else self.s
            n = 0
            async for x in it:
                sink.append(x)
                n += 1
                if n == limit:
                    break
        else:
            it = self.s.finalize() if final else self.s
            for n, x in enumerate(it, 1):
                sink.append(x)
                if n == limit:
                    break


@scenario(quick=700, thorough=12000, required=("stream-gate", "stream-accepts", "stream-early-iteration"))
def streams(ctx):
    """Random histories of one decryption stream while time passes."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    is_async = bool((ctx.index // 2) % 2)
    key, aad = cr.rkey(rng), cr.raad(rng)
    msg = cr.message(rng, cr.length(rng, name))
    t0 = start(rng)
    env.clock.freeze(t0)
    enc, pk = packets(name, key, msg, aad)
    ttl = limits(rng)
    c = cr.new_cipher(name, key)
    trace, out = [], []
    state = dict(passed=False, fed=0, closed=False)
    mode = rng.choice(("late", "late", "fresh", "mixed"))

    def now():
        if mode == "late":
            return t0 + (ttl + 2) * S + rng.randrange(10**6) * S
        if mode == "fresh":
            return max(t0, t0 - (t0 - EPOCH) % S + rng.randrange(ttl + 1) * S)
        return rng.choice(instants(rng, t0, ttl))

    async def body():
        kw = dict(salt=enc.salt, aad=aad, iv=enc.iv, ttl=ttl)
        d = Driver(await c.astream_decrypt(**kw) if is_async else c.stream_decrypt(**kw), is_async)
        plan = []
        i = 0
        while i < len(pk):
            n = rng.choice((1, 1, 2, len(pk)))
            plan.append(("feed", b"".join(pk[i : i + n]), min(n, len(pk) - i)))
            i += n
        ops = []
        for p in plan:
            for _ in range(rng.choice((0, 0, 1, 2))):
                ops.append(("iter",))
            ops.append(p)
        for _ in range(rng.choice((0, 1, 2))):
            ops.append(("iter",))
        ops += [("final",)]
        ops += [rng.choice((("final",), ("iter",), ("feed", pk[-1], 1))) for _ in range(rng.randrange(3))]
        for op in ops:
            t1 = now()
            env.clock.freeze(t1)
            late = age(t0, t1) > ttl
            before = len(out)
            err = None
            try:
                if op[0] == "feed":
                    await d.buffer(op[1])
                    state["fed"] += op[2]
                elif op[0] == "iter":
                    await d.drain(out, limit=rng.choice((None, None, 1, 2)))
                else:
                    await d.drain(out, final=True)
            except Exception as e:
                err = e
            trace.append((op[0], age(t0, t1), type(err).__name__ if err else len(out) - before))
            what = lambda: f"{name} {'async' if is_async else 'sync'} stream, ttl {ttl}, history {trace}"
            shape = (name, is_async, tuple(x[0] for x in trace)[-6:], late, state["passed"])
            if op[0] == "feed":
                ctx.check("stream-feed", not isinstance(err, Expired), what)
                continue
            got = len(out) > before
            if not state["fed"]:
                ctx.check("stream-early-iteration", not got, what, shape=shape)
                continue
            closed_now = state["closed"]
            if op[0] == "final":
                state["closed"] = True
            if late and not state["passed"]:
                ctx.check("stream-gate", not got, lambda: "plaintext of an expired stream was yielded: " + what(),
                          shape=shape, sample=f"{trace}")
                if not (op[0] == "final" and closed_now):
                    ctx.check("stream-gate-error", isinstance(err, Expired),
                              lambda: "expired stream did not raise the expiry error: " + what(), shape=shape)
            elif not late or state["passed"]:
                ctx.check("stream-accepts", not isinstance(err, Expired),
                          lambda: "a stream opened within its time-to-live was refused: " + what(), shape=shape)
                if not late and not (op[0] == "final" and closed_now):
                    state["passed"] = True
                if op[0] == "final" and not closed_now:
                    ctx.check("stream-accepts", err is None, what)
                    if err is None and mode == "fresh":
                        pass
        if mode == "fresh":
            ctx.check("stream-message", b"".join(out) == msg, lambda: f"{name}: unexpired stream gave another message, {trace}")

    ctx.run(body())


@scenario(quick=60, thorough=700, required=("expired-refused", "unexpired-accepted"))
def databases(ctx):
    rng = ctx.rng
    key = cr.rkey(rng)
    path = ctx.mkdir("db")
    t0 = start(rng)
    env.clock.freeze(t0)

    async def body():
        db = aiootp.Database(key, path=path)
        adb = await aiootp.AsyncDatabase(key, path=ctx.mkdir("adb"))
        vals = dict(b=cr.message(rng, 40), j=cr.json_value(rng), n=[1, {"a": None}])
        subs = []
        for d in (db, adb):
            if d is db:
                sub = d.metatag("sub")
                for k, v in vals.items():
                    d.set_tag(k, v)
                    sub.set_tag(k, v)
                d.save_database()
                d.clear_cache(metatags=True)
            else:
                sub = await d.ametatag("sub")
                for k, v in vals.items():
                    await d.aset_tag(k, v)
                    await sub.aset_tag(k, v)
                await d.asave_database()
                await d.aclear_cache(metatags=True)
            subs.append(sub)
        targets = [db, adb, *subs]
        tok = {}
        for i, d in enumerate(targets):
            if i % 2 == 0:
                tok[i] = (d.make_token(b"token", filename="f", aad=b"x"), d.bytes_encrypt(b"bytes", filename="f"),
                          d.json_encrypt([1], filename="f"))
            else:
                tok[i] = (await d.amake_token(b"token", filename="f", aad=b"x"), await d.abytes_encrypt(b"bytes", filename="f"),
                          await d.ajson_encrypt([1], filename="f"))
        for _ in range(2):
            ttl = limits(rng)
            for t1 in instants(rng, t0, ttl):
                env.clock.freeze(t1)
                i = rng.randrange(4)
                d, is_async = targets[i], bool(i % 2)
                lim = None if rng.random() < 0.15 else ttl
                kw = {} if lim is None else dict(ttl=lim)
                what = ("Async" if is_async else "") + ("Metatag" if i > 1 else "Database")
                how = rng.choice(("query", "query", "query-silent", "token", "bytes", "json"))
                if how.startswith("query"):
                    tag = rng.choice(list(vals))
                    want = vals[tag]
                    if "silent" in how:
                        kw["silent"] = True

                    async def act():
                        return await d.aquery_tag(tag, **kw) if is_async else d.query_tag(tag, **kw)
                elif how == "token":
                    want = b"token"

                    async def act():
                        return await d.aread_token(tok[i][0], filename="f", aad=b"x", **kw) if is_async else \
                            d.read_token(tok[i][0], filename="f", aad=b"x", **kw)
                elif how == "bytes":
                    want = b"bytes"

                    async def act():
                        return await d.abytes_decrypt(tok[i][1], filename="f", **kw) if is_async else \
                            d.bytes_decrypt(tok[i][1], filename="f", **kw)
                else:
                    want = [1]

                    async def act():
                        return await d.ajson_decrypt(tok[i][2], filename="f", **kw) if is_async else \
                            d.json_decrypt(tok[i][2], filename="f", **kw)
                await judge(ctx, f"{what} {how}", t0, t1, lim, want, act(), (what, how))

    ctx.run(body())


@scenario(quick=16, thorough=60, required=("expired-refused", "unexpired-accepted"))
def passphrase_hashes(ctx):
    """Ages in nanoseconds; the verdict is asked a microsecond away from the
    limit on either side."""
    rng = ctx.rng
    P = aiootp.Passcrypt
    t0 = start(rng)
    env.clock.freeze(t0)
    p = P(mb=1, cpu=1, cores=1, tag_size=rng.choice((16, 32)))
    phrase, aad = rng.randbytes(20), cr.raad(rng)

    async def body():
        h = p.hash_passphrase(phrase, aad=aad) if ctx.index % 2 else await p.ahash_passphrase(phrase, aad=aad)
        ttl = limits(rng)
        pts = [t0 + ttl * S + 1000, t0 + ttl * S - 1000, t0 + ttl * S + rng.randrange(2000, 10**15),
               t0 + (ttl + 1) * S + 1000, t0]
        for k, t1 in enumerate(pts):
            env.clock.freeze(t1)
            lim = None if k == 3 and rng.random() < 0.3 else ttl
            late = lim is not None and t1 - t0 > ttl * S
            if not late and t1 < t0 and ttl == 0:
                late = False
            kw = {} if lim is None else dict(ttl=lim)
            err = None
            try:
                if rng.random() < 0.5:
                    P.verify(h, phrase, aad=aad, **kw)
                else:
                    await P.averify(h, phrase, aad=aad, **kw)
            except Exception as e:
                err = e
            what = lambda: f"passphrase hash aged {t1 - t0} ns, ttl {lim} s: {err!r}"
            if late:
                ctx.check("expired-refused", isinstance(err, Expired), what, shape=("passcrypt", ttl, k), sample=what())
            else:
                ctx.check("unexpired-accepted", err is None, what, shape=("passcrypt", ttl, k))

    ctx.run(body())
