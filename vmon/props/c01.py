"""C01: sealed messages open to exactly what was sealed."""
from base64 import urlsafe_b64decode

from vmon import crypto as cr
from vmon.core import scenario


def copy_key(k):
    return bytes(bytearray(k))


@scenario(quick=400, thorough=12000, required=("round-trip", "sealed-size"))
def every_interface_pair(ctx):
    """One message, every way of sealing, every way of opening, by an
    independent object built from the same key."""
    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    key, aad, salt = cr.rkey(rng), cr.raad(rng), cr.rsalt(rng)
    n = cr.length(rng, name, big=True)
    msg = cr.message(rng, n, name)

    async def body():
        a = cr.new_cipher(name, key)
        b = cr.new_cipher(name, copy_key(key))
        for how in cr.SEAL:
            ct = await cr.seal(a, how, msg, aad, salt)
            ctx.check("sealed-size", len(ct) == cr.sealed_size(name, n),
                      lambda: f"{name} {how}: {n}-byte message sealed into {len(ct)} bytes, "
                              f"expected {cr.sealed_size(name, n)}", shape=(name, how, n))
            if salt and "token" not in how:
                ctx.check("salt-carried", cr.split(name, ct)[1] == salt, f"{name} {how}: salt not carried",
                          shape=(name, how))
            for back in ((rng.choice(cr.UNSEAL),) if n > 5000 else cr.UNSEAL):
                got = await cr.unseal(b, back, ct, aad)
                ctx.eq("round-trip", got, msg, f"{name} {how}->{back} len={n}", shape=(name, how, back, n))

    ctx.run(body(), noise=rng.choice((0, 0, 0.2)))


@scenario(quick=120, thorough=3000, required=("json-round-trip",))
def json_values(ctx):
    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    key, aad, salt = cr.rkey(rng), cr.raad(rng), cr.rsalt(rng)

    def same(x, y):
        return type(x) is type(y) and repr(x) == repr(y)

    async def body():
        a, b = cr.new_cipher(name, key), cr.new_cipher(name, key)
        for _ in range(4):
            v = cr.json_value(rng)
            for seal in ("json", "ajson"):
                if seal == "json":
                    ct = a.json_encrypt(v, salt=salt, aad=aad)
                else:
                    ct = await a.ajson_encrypt(v, salt=salt, aad=aad)
                for got in (b.json_decrypt(ct, aad=aad), await b.ajson_decrypt(ct, aad=aad)):
                    ctx.check("json-round-trip", same(got, v), lambda: f"{name} {seal}: {v!r} came back as {got!r}",
                              shape=(name, seal, type(v).__name__, len(repr(v))))

    ctx.run(body())


@scenario(quick=40, thorough=800, required=("text-token",))
def tokens_are_text(ctx):
    """Tokens are URL-safe text and reading accepts them as given, as str and
    without padding characters."""
    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    key, aad = cr.rkey(rng), cr.raad(rng)
    c = cr.new_cipher(name, key)
    ok = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=")
    for _ in range(5):
        n = cr.length(rng, name)
        msg = cr.message(rng, n)
        tok = c.make_token(msg, aad=aad) if rng.random() < 0.5 else ctx.run(c.amake_token(msg, aad=aad))
        ctx.check("text-token", type(tok) is bytes and set(tok) <= ok,
                  lambda: f"token has symbols {bytes(set(tok) - ok)!r}", shape=(name, len(tok)))
        for form in (tok, tok.decode(), tok.rstrip(b"=")):
            ctx.eq("round-trip", c.read_token(form, aad=aad), msg, f"token form {type(form).__name__}",
                   shape=(name, "form", n % 3))
            ctx.eq("round-trip", ctx.run(c.aread_token(form, aad=aad)), msg, "token form async")


@scenario(quick=24, thorough=400, required=("every-length",))
def every_length(ctx):
    """All message lengths of a window covering three block boundaries."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    b = cr.FORMATS[name]["block"]
    c = cr.new_cipher(name, cr.rkey(rng))
    aad = cr.raad(rng)
    parts = 12 if ctx.tier == "quick" else 200
    lo = (ctx.index // 2) % 12
    for n in range(lo, 3 * b + 3, 12):
        msg = cr.message(rng, n)
        ct = c.bytes_encrypt(msg, aad=aad)
        ctx.check("every-length", len(ct) == cr.sealed_size(name, n) and c.bytes_decrypt(ct, aad=aad) == msg,
                  lambda: f"{name}: length {n} does not round-trip", shape=(name, n))
        ct = ctx.run(c.abytes_encrypt(msg, aad=aad))
        ctx.check("every-length", len(ct) == cr.sealed_size(name, n)
                  and ctx.run(c.abytes_decrypt(ct, aad=aad)) == msg,
                  lambda: f"{name}: length {n} does not round-trip (async)", shape=(name, n, "a"))


@scenario(quick=16, thorough=200, required=("concurrent-round-trip",))
def concurrent_sealing(ctx):
    """One cipher object used by many tasks / threads at once."""
    import asyncio

    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    c = cr.new_cipher(name, cr.rkey(rng))
    msgs = [cr.message(rng, cr.length(rng, name)) for _ in range(8)]
    aads = [cr.raad(rng) for _ in msgs]

    async def one(i):
        ct = await c.abytes_encrypt(msgs[i], aad=aads[i])
        return await c.abytes_decrypt(ct, aad=aads[i])

    async def body():
        return await asyncio.gather(*(one(i) for i in range(8)))

    def job(i):
        return lambda: c.bytes_decrypt(c.bytes_encrypt(msgs[i], aad=aads[i]), aad=aads[i])

    for i, got in enumerate(ctx.run(body(), noise=0.3)):
        ctx.eq("concurrent-round-trip", got, msgs[i], "tasks", shape=("t", name, len(msgs[i])))
    from vmon import env

    import random
    env.line_noise.on(random.Random(rng.random()), 0.05)
    try:
        got = ctx.threads([job(i) for i in range(8)])
    finally:
        env.line_noise.off()
    for i, (r, e) in enumerate(got):
        if e is not None:
            ctx.violation("concurrent-round-trip", f"thread raised {e!r}")
        else:
            ctx.eq("concurrent-round-trip", r, msgs[i], "threads", shape=("th", name, len(msgs[i])))


@scenario(quick=48, thorough=600, required=("round-trip",))
def magnitudes(ctx):
    """Messages, keys and associated data of all sizes up to 128 KiB."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    key, aad = rng.randbytes(max(64, cr.size(rng, 15))), rng.randbytes(cr.size(rng))
    n = cr.size(rng) if rng.random() < 0.7 else 65536 * rng.choice((1, 2)) + rng.randrange(-40, 3)
    msg = cr.message(rng, n)

    async def body():
        for how in rng.sample(cr.SEAL, 2):
            ct = await cr.seal(cr.new_cipher(name, key), how, msg, aad)
            ctx.check("sealed-size", len(ct) == cr.sealed_size(name, n), lambda: f"{name} {how}: {n} bytes sealed into {len(ct)}", shape=(name, how, n))
            for back in rng.sample(cr.UNSEAL, 2):
                ctx.eq("round-trip", await cr.unseal(cr.new_cipher(name, key), back, ct, aad), msg, f"{name} {how}->{back} len={n}", shape=(name, how, back, n))

    ctx.run(body())
