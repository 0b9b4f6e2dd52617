"""C05: online encryption yields the same message for every chunking."""
from vmon import crypto as cr
from vmon.core import scenario
from vmon.streams import Dec, Enc, chunked


async def roundtrip(ctx, name, msg, parts, modes, style):
    """One message through both streams and one-shot opening."""
    rng = ctx.rng
    key, aad, salt = cr.rkey(rng), cr.raad(rng), cr.rsalt(rng)
    a, b = modes
    c = cr.new_cipher(name, key)
    e = await Enc.new(c, a, aad=aad, salt=salt)
    out, trace = [], []
    for p in parts:
        await e.buffer(p)
        trace.append(len(p))
        if style:
            lim = rng.choice(style)
            before = len(out)
            await e.drain(out, limit=lim)
            trace.append(f"i{len(out) - before}")
    await e.drain(out, final=True)
    pk = [x + y for x, y in out]
    where = f"{name} {'async' if a else 'sync'}->{'async' if b else 'sync'} length {len(msg)} {'calls ' + str(trace[:40])}"
    shape = (name, a, len(msg), tuple(trace))
    f, head = cr.fmt(name)
    body = b"".join(y for _, y in out)
    ctx.check("packet-layout", all(len(x) == f["pid"] and len(y) == f["block"] for x, y in out)
              and len(body) + head == cr.sealed_size(name, len(msg)),
              lambda: f"{where}: {len(out)} packets, body {len(body)}", shape=shape)
    whole = e.s.shmac.result + e.s.salt + e.s.iv + body
    if salt:
        ctx.check("salt-kept", e.s.salt == salt, where)
    other = cr.new_cipher(name, key)
    got = other.bytes_decrypt(whole, aad=aad) if b else await other.abytes_decrypt(whole, aad=aad)
    ctx.eq("one-shot-opens", got, msg, where, shape=shape)

    d = await Dec.new(other, b, salt=e.s.salt, aad=aad, iv=e.s.iv)
    res, i, regroup = [], 0, []
    while i < len(pk):
        n = rng.choice((1, 1, 2, 3, 5, len(pk)))
        await d.buffer(b"".join(pk[i : i + n]))
        regroup.append(min(n, len(pk) - i))
        i += n
        if style and rng.random() < 0.7:
            await d.drain(res, limit=rng.choice(style))
    await d.drain(res, final=True)
    ctx.eq("online-opens", b"".join(res), msg, f"{where} regrouped {regroup}", shape=(shape, tuple(regroup)))
    try:
        await d.test(e.s.shmac.result)
        ctx.check("final-test", True, shape=shape)
    except Exception as x:
        ctx.check("final-test", False, f"{where}: complete stream fails its final test: {x!r}")


STYLES = ((), (None,), (None, 1, 2, 0), (1,), (None, 0, 0), (2, 3, None))


@scenario(quick=3600, thorough=40000, required=("one-shot-opens", "online-opens", "final-test", "packet-layout"))
def random_division(ctx):
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    msg = cr.message(rng, cr.length(rng, name, big=rng.random() < 0.3))
    modes = ((ctx.index // 2) % 2 == 1, (ctx.index // 4) % 2 == 1)
    ctx.run(roundtrip(ctx, name, msg, chunked(rng, name, msg), modes, rng.choice(STYLES)), noise=rng.choice((0, 0.2)))


@scenario(quick=48, thorough=400, required=("one-shot-opens", "online-opens"))
def boundary_division(ctx):
    """Every single cut next to a block boundary, for lengths next to one."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    f = cr.FORMATS[name]
    b, h = f["block"], f["inner"]
    k = 1 + (ctx.index // 2) % 3
    off = (ctx.index // 6) % 8 - 4
    n = max(0, k * b - h + off)
    msg = rng.randbytes(n)

    async def body():
        pts = sorted({min(n, max(0, x + d)) for x in range(0, n + b, b) for d in (-h - 1, -h, -h + 1, -1, 0, 1)})
        for c in pts:
            for style in ((), (None,)):
                parts = [msg[:c], msg[c:]]
                if rng.random() < 0.3:
                    parts.insert(rng.randrange(3), b"")
                await roundtrip(ctx, name, msg, parts, (rng.random() < 0.5, rng.random() < 0.5), style)

    ctx.run(body())


@scenario(quick=4, thorough=40, required=("no-feed",))
def degenerate(ctx):
    """No feeding at all, or only empty feeds, is the empty message."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]

    async def body():
        for a in (False, True):
            for k in range(4):
                await roundtrip(ctx, name, b"", [b""] * k, (a, rng.random() < 0.5), rng.choice(STYLES))
                ctx.check("no-feed", True, shape=(name, a, k))

    ctx.run(body())


@scenario(quick=8, thorough=80, required=("large",))
def large(ctx):
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    b = cr.FORMATS[name]["block"]
    msg = rng.randbytes(rng.randrange(200 * b, 1500 * b))
    parts, i = [], 0
    while i < len(msg):
        n = rng.choice((1, b - 1, b, b + 1, 10 * b, 100 * b, rng.randrange(1, 50 * b)))
        parts.append(msg[i : i + n])
        i += n
    ctx.run(roundtrip(ctx, name, msg, parts, (rng.random() < 0.5, rng.random() < 0.5), rng.choice(STYLES)))
    ctx.check("large", True, shape=(name, len(msg)))


EDGES = [(1 << k) + d for k in (12, 13, 14, 15, 16, 17) for d in (-1, 0, 1)]


@scenario(quick=4 * len(EDGES), thorough=40 * len(EDGES), required=("big-feeds",))
def big_feeds(ctx):
    """Single feeds of all sizes up to 128 KiB, next to every power of two."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    n = EDGES[ctx.index // 4 % len(EDGES)]
    parts = [rng.randbytes(n)]
    if ctx.index >= 4 * len(EDGES):
        parts = [rng.randbytes(n) for n in rng.choice(([cr.size(rng)], [cr.size(rng, 9), cr.size(rng)], [cr.size(rng), cr.size(rng, 9)], [cr.size(rng)] * 2))]
    sync = ctx.index // 2 % 2 == 1
    ctx.run(roundtrip(ctx, name, b"".join(parts), parts, (sync, rng.random() < 0.5), rng.choice(STYLES)))
    ctx.check("big-feeds", True, shape=(name, sync, tuple(map(len, parts))))
