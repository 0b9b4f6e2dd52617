"""C19: key derivation and hashing."""
import asyncio
import hashlib
import inspect

import aiootp

from vmon import crypto as cr, refs
from vmon.core import scenario, show

D = aiootp.Domains
H = {n: getattr(hashlib, n) for n in ("sha3_224", "sha3_256", "sha3_384", "sha3_512", "shake_128", "shake_256", "sha256", "blake2b")}
AAD = inspect.signature(aiootp.Domains.encode_constant).parameters["aad"].default
SALT = refs.constant(b"domain_kdf_salt", 168, aad=AAD)
KINDS = ("sha3_256", "sha3_512", "shake_128", "shake_256")


def piece(rng, top=40):
    r = rng.random()
    if r < 0.1:
        return b""
    if r < 0.2:
        return bytes(rng.randrange(1, 12))
    if r > 0.985:
        return rng.randbytes(cr.size(rng))
    return rng.randbytes(rng.choice((1, 2, 8, rng.randrange(top), 135, 136, 168, 169)))


def sizes(rng, name):
    return rng.choice((1, 8, 16, 32, 64, 136, 168, 169, 336, rng.randrange(1, 500), 1 << rng.randrange(12))) if name.startswith("shake") else None


@scenario(quick=200, thorough=3000, required=("hash",))
def reference(ctx):
    """Hashes and domain constants equal the independent computation."""
    rng = ctx.rng

    async def body():
        for _ in range(30):
            name = rng.choice(sorted(H))
            data = [piece(rng) for _ in range(rng.choice((0, 1, 2, 3, 6)))]
            kw = dict(hasher=H[name], pad=bytes([rng.choice((0, 0, 1, 255, rng.randrange(256)))]), size=sizes(rng, name), key=rng.choice((None, piece(rng) or b"k")))
            want = refs.hash_bytes(*data, **kw)
            for how in ("sync", "async"):
                got = aiootp.hash_bytes(*data, **kw) if how == "sync" else await aiootp.ahash_bytes(*data, **kw)
                ctx.check("hash", got == want, lambda: f"{how} {name} {show(data)} {show(kw)}: {show(got)}, independently {show(want)}",
                          shape=(name, how, len(data), kw["key"] is None, kw["size"] or 0))
        for _ in range(10):
            name = rng.choice(("const", "αβγ", b"\xff\x00", "", "x" * rng.randrange(400)))
            kw = dict(domain=piece(rng), aad=piece(rng), pad=bytes([rng.randrange(256)]))
            size = rng.choice((1, 8, 32, 168, 200))
            want = refs.constant(name, size, **kw)
            ctx.eq("constant", D.encode_constant(name, size, **kw), want, "encoded constant", shape=("sync", size, type(name).__name__))
            ctx.eq("constant", await D.aencode_constant(name, size, **kw), want, "encoded constant", shape=("async", size, type(name).__name__))

    ctx.run(body())


class Seen:
    """Outputs by input; no two inputs share an output, or the beginning of
    one when they are long enough to tell."""

    def __init__(self, ctx, monitor, width=16):
        self.ctx, self.monitor, self.width, self.by = ctx, monitor, width, {}

    def add(self, inputs, out, shape):
        if len(out) < self.width:
            return
        other = self.by.setdefault(out[: self.width], inputs)
        self.ctx.check(self.monitor, other == inputs, lambda: f"{show(inputs, 300)} and {show(other, 300)} give the same output {out[:self.width].hex()}", shape=shape)


def regroup(rng, data):
    blob = b"".join(data)
    out = [tuple(data), (blob,), (*data, b""), (b"", *data), (*data, b"\0"), tuple(data[::-1]), (refs.pack(*data),), (refs.pack(*data, blocksize=168),)]
    for _ in range(4):
        cuts = sorted(rng.randrange(len(blob) + 1) for _ in range(rng.randrange(1, 4)))
        out.append(tuple(blob[a:b] for a, b in zip([0, *cuts], [*cuts, len(blob)])))
    for i, x in enumerate(data):
        out.append((*data[:i], *data[i + 1 :]))
        out.append((*data[:i], x + b"\0", *data[i + 1 :]))
        if x:
            j = rng.randrange(len(x))
            out.append((*data[:i], x[:j] + bytes([x[j] ^ 1 << rng.randrange(8)]) + x[j + 1 :], *data[i + 1 :]))
            out.append((*data[:i], x[:-1] + bytes([x[-1] ^ 1]), *data[i + 1 :]))
    return list(dict.fromkeys(out))


@scenario(quick=160, thorough=2000, required=("hash-separates",))
def hashes_separate(ctx):
    rng = ctx.rng

    async def body():
        data = [piece(rng) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.2:
            data[rng.randrange(len(data))] = rng.randbytes(cr.size(rng))
        key = piece(rng) or b"k"
        seen = Seen(ctx, "hash-separates")
        for group in regroup(rng, data):
            for name in ("sha3_512", "sha3_256", "shake_128", "shake_256", "sha3_384"):
                size = None if name.startswith("sha3") else 32
                for pad in (b"\0", b"\1"):
                    for k in (None, key, key + b"\0", b"\0" + key, key[:-1] + bytes([key[-1] ^ 1])):
                        kw = dict(hasher=H[name], pad=pad, size=size, key=k)
                        seen.add((group, name, pad, size, k), aiootp.hash_bytes(*group, **kw), (name, len(group), pad, k is None))
            for size in (16, 17, 31, 33, 64, 168, 256, 4096):
                seen.add((group, size), await aiootp.ahash_bytes(*group, hasher=H["shake_128"], size=size), ("size", size, len(group)))
            # what is a key for one call is data for another
            seen.add(((key, *group), "sha3_512", b"\0", None, None), aiootp.hash_bytes(key, *group), ("keyless", len(group)))
        for const in ("a", "ab", "b", "A", "a\0"):
            for domain in (b"", b"a", b"ab", b"\0"):
                for aad in (AAD, b"", b"a", b"\0"):
                    for pad in (b"\0", b"\1"):
                        seen.add(("constant", const, domain, aad, pad), D.encode_constant(const, 16, domain=domain, aad=aad, pad=pad), ("constant", const))

    ctx.run(body())


@scenario(quick=160, thorough=2000, required=("kdf-separates",))
def kdfs_separate(ctx):
    """One changed input of a key derivation changes every kind of output."""
    rng = ctx.rng

    async def body():
        domain, key = piece(rng), piece(rng) or b"k"
        if rng.random() < 0.3:
            key = rng.randbytes(max(1, cr.size(rng)))
        data = [piece(rng) for _ in range(rng.randrange(4))]
        arg = [piece(rng) for _ in range(rng.randrange(3))]
        aad = piece(rng)
        seen = Seen(ctx, "kdf-separates")

        async def derive(d, k, x, updates, a, args, only=None):
            kdf = aiootp.DomainKDF(d, *x, key=k)
            for u in updates:
                kdf.update(*u) if rng.random() < 0.5 else await kdf.aupdate(*u)
            for name in only or KINDS:
                size = dict(size=32) if name.startswith("shake") else {}
                how = rng.random() < 0.5
                out = getattr(kdf, name)(*args, aad=a, **size) if how else await getattr(kdf, "a" + name)(*args, aad=a, **size)
                seen.add((d, k, x, updates, a, args, name), out, (name, len(x), len(args), len(updates)))

        flip = lambda b: b[:-1] + bytes([b[-1] ^ 1]) if b else b"\1"  # noqa: E731
        for d in {domain, domain + b"\0", flip(domain), domain + key[:1], b""}:
            for k in {key, key + b"\0", flip(key), domain + key, key[1:] or b"\7"}:
                await derive(d, k, tuple(data), (), aad, tuple(arg))
        if domain:
            await derive(domain[1:], key + domain[:1], tuple(data), (), aad, tuple(arg))
            await derive(domain[:-1], domain[-1:] + key, tuple(data), (), aad, tuple(arg))
        for x in regroup(rng, data):
            await derive(domain, key, x, (), aad, tuple(arg))
        for args in regroup(rng, [aad, *arg]):
            if args:
                await derive(domain, key, tuple(data), (), args[0], args[1:])
        u = [piece(rng) or b"u" for _ in range(rng.randrange(1, 4))]
        for g in regroup(rng, u):
            if g:
                await derive(domain, key, tuple(data), (g,), aad, tuple(arg), only=("shake_128", "sha3_512"))
                await derive(domain, key, tuple(data), tuple((y,) for y in g), aad, tuple(arg), only=("shake_128",)) if len(g) > 1 else None
                await derive(domain, key, (*data, *g), (), aad, tuple(arg), only=("shake_128",))
        kdf = aiootp.DomainKDF(domain, *data, key=key)
        for size in (16, 17, 32, 33, 64, 168, 169, 256, 4096, 65536):
            for name in ("shake_128", "shake_256"):
                if size != 32:
                    seen.add(("size", name, size), getattr(kdf, name)(*arg, size=size, aad=aad), ("size", name, size))

    ctx.run(body())


@scenario(quick=240, thorough=3000, required=("history", "copy-independent"))
def histories(ctx):
    """Copies, updates and derivations in random order, against chains kept by
    an independent computation."""
    rng = ctx.rng

    async def body():
        domain, key = piece(rng), piece(rng) or b"k"
        data = [piece(rng) for _ in range(rng.randrange(3))]
        live = [(aiootp.DomainKDF(domain, *data, key=key), refs.KDF(SALT, D.KDF, domain, *data, key=key))]
        trace = []

        async def compare(i, monitor):
            kdf, ref = live[i]
            name = rng.choice(KINDS)
            args, aad = [piece(rng) for _ in range(rng.randrange(3))], rng.choice((b"", piece(rng)))
            size = dict(size=sizes(rng, name)) if name.startswith("shake") else {}
            how = rng.choice(("", "a"))
            out = getattr(kdf, how + name)(*args, aad=aad, **size)
            out = await out if how else out
            want = ref.derive(name, *args, aad=aad, **size)
            ctx.check(monitor, out == want, lambda: f"{how}{name}{size} after {trace} on object {i}: {show(out)}, independently {show(want)}", shape=(name, how, *trace[-4:]))

        for _ in range(rng.randrange(6, 30)):
            i = rng.randrange(len(live))
            op = rng.choice(("copy", "update", "update", "aupdate", "derive", "derive", "empty"))
            kdf, ref = live[i]
            trace.append(op)
            if op == "copy" and len(live) < 6:
                live.append((kdf.copy(), ref.copy()))
            elif op in ("update", "aupdate"):
                u = [piece(rng) for _ in range(rng.choice((1, 1, 2, 4)))]
                r = getattr(kdf, op)(*u)
                r = await r if op == "aupdate" else r
                ctx.check("history", r is kdf, "an update did not return its object")
                ref.update(*u)
            elif op == "empty":
                try:
                    kdf.update() if rng.random() < 0.5 else await kdf.aupdate()
                    ctx.check("history", False, "an update without data was accepted")
                except ValueError:
                    pass
            await compare(i, "history")
            await compare(rng.randrange(len(live)), "copy-independent")

    ctx.run(body(), noise=rng.choice((0.0, 0.1)))


@scenario(quick=60, thorough=600, required=("tasks",))
def tasks(ctx):
    """Tasks deriving from one object and updating their own copies at once."""
    rng = ctx.rng

    async def body():
        key = rng.randbytes(64)
        root, ref = aiootp.DomainKDF(b"shared", key=key), refs.KDF(SALT, D.KDF, b"shared", key=key)

        async def one(i):
            kdf, mine = root.copy(), ref.copy()
            for n in range(4):
                u = [rng.randbytes(rng.randrange(1, 200)) for _ in range(rng.randrange(1, 3))]
                await kdf.aupdate(*u)
                mine.update(*u)
                for who, k, r in (("copy", kdf, mine), ("shared", root, ref)):
                    got = await k.ashake_256(bytes([i]), size=40)
                    ctx.check("tasks", got == r.derive("shake_256", bytes([i]), size=40), lambda: f"task {i} round {n}: {who} object derived {show(got)}", shape=(who, n))

        await asyncio.gather(*(one(i) for i in range(rng.choice((2, 5, 9)))))

    ctx.run(body(), noise=0.3)


@scenario(quick=1, thorough=1, required=("constants-differ",))
def constants(ctx):
    """All published domain constants differ."""
    seen = {}
    for name in dir(D):
        v = getattr(D, name)
        if name.isupper() and isinstance(v, bytes) and not name.startswith("_"):
            ctx.check("constants-differ", v not in seen and len(v) == 8, lambda: f"{name} and {seen.get(v)} share the constant {v.hex()}", shape=name)
            seen[v] = name
