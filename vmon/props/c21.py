"""C21: passphrase hashing."""
import asyncio
import concurrent.futures.process as pool
import hashlib
import math

import aiootp

from vmon import crypto as cr, env, refs
from vmon.core import scenario, show

P = aiootp.Passcrypt
SPEC = aiootp.keygens.passcrypt.config.passcrypt_spec
D = aiootp.Domains
SALT = refs.constant(b"passcrypt_proof_kdf_salt", 168, domain=D.PASSCRYPT, aad=b"")
MIB = 1024 * 1024
PEPPERS = {}


def hasher(pepper=b""):
    """Passcrypt with another pepper."""
    if pepper not in PEPPERS:
        PEPPERS[pepper] = type("Peppered", (P,), dict(PEPPER=pepper, __slots__=())) if pepper else P
    return PEPPERS[pepper]


def reference(passphrase, salt, aad=b"", *, mb, cpu, cores, tag_size, pepper=b""):
    n8 = lambda n: n.to_bytes(8, "big")  # noqa: E731
    results = []
    for core in range(cores):
        ad = refs.pack(pepper, aad, n8(core), n8(mb))
        part = math.ceil(mb / cores)
        proof = hashlib.shake_128(SALT)
        proof.update(refs.hash_bytes(D.PASSCRYPT, SPEC.PACKED_METADATA, salt, ad, n8(part), n8(cpu), n8(cores), n8(tag_size),
                                     key=passphrase + salt + ad, hasher=hashlib.shake_128, size=336, pad=b"\xf2"))
        columns = max(1, cpu // 2)
        row = 336 * columns
        rows = math.ceil(MIB * part / row)
        ram = bytearray(proof.digest(row * rows))
        proof.update(ram[-168:])
        for column in range(columns):
            for r in range(rows):
                a, b = r * row, (rows - 1 - r) * row
                proof.update(ram[a : a + row])
                ram[a + 336 * column : a + 336 * column + 168] = proof.digest(168)
                if r:  # the published algorithm leaves the last row out here
                    proof.update(ram[b : b + row])
                ram[b + 336 * column + 168 : b + 336 * column + 336] = proof.digest(168)
        for i in range(cpu + 2):
            ram[168 * i : 168 * i + 84] = proof.digest(84)
            proof.update(ram)
        results.append(proof.digest(168))
    return refs.hash_bytes(*results, size=tag_size, hasher=hashlib.shake_128, key=results[0])


async def compute(how, passphrase, salt, aad=b"", *, pepper=b"", **settings):
    p = hasher(pepper)(**settings)
    return p.new(passphrase, salt, aad=aad) if how == "sync" else await p.anew(passphrase, salt, aad=aad)


async def verify(how, h, passphrase, pepper=b"", **kw):
    return hasher(pepper).verify(h, passphrase, **kw) if how == "sync" else await hasher(pepper).averify(h, passphrase, **kw)


def inputs(rng):
    return dict(
        passphrase=rng.randbytes(rng.choice((12, 13, 30, rng.randrange(12, 400), max(12, cr.size(rng, 14))))),
        salt=rng.randbytes(rng.choice((4, 5, 8, 32, 255, 256, rng.randrange(4, 257)))),
        aad=rng.choice((b"", rng.randbytes(rng.randrange(1, 60)), rng.randbytes(cr.size(rng, 14)))),
        pepper=rng.choice((b"", b"", rng.randbytes(8))),
        mb=rng.choice((1, 1, 2, 3, 4)), cpu=rng.choice((1, 1, 2, 3, 4, 5, 6, 9)), cores=rng.choice((1, 1, 2, 3, 4)),
        tag_size=rng.choice((16, 17, 32, 64, 168, 169, rng.randrange(16, 600))),
    )


@scenario(quick=64, thorough=900, required=("reference",))
def against_reference(ctx):
    rng = ctx.rng

    async def body():
        kw = inputs(rng)
        want = reference(**kw)
        shape = (kw["mb"], kw["cpu"], kw["cores"], kw["tag_size"])
        for how in ("sync", "async"):
            got = await compute(how, **kw)
            ctx.check("reference", got == want, lambda: f"{how} {show(kw, 400)}: {show(got)}, independently {show(want)}", shape=(*shape, how))

    ctx.run(body(), budget=200_000)


@scenario(quick=24, thorough=300, required=("separates",))
def every_input_matters(ctx):
    rng = ctx.rng

    async def body():
        kw = dict(inputs(rng), mb=rng.choice((1, 2)), cpu=rng.choice((1, 2)), cores=rng.choice((1, 2)), tag_size=rng.choice((16, 32)))
        kw["pepper"] = rng.choice((b"", rng.randbytes(4)))
        kw["aad"] = kw["aad"][:500] or b"ad"
        p, s, a, x = kw["passphrase"] + b"..", kw["salt"][:250] + b"..", kw["aad"], kw["pepper"]
        kw.update(passphrase=p, salt=s)
        i, j, k = rng.randrange(len(p)), rng.randrange(len(s)), rng.randrange(len(a))
        flip = lambda b, n: b[:n] + bytes([b[n] ^ 1 << rng.randrange(8)]) + b[n + 1 :]  # noqa: E731
        variants = [
            ("as it is", {}),
            ("passphrase byte", dict(passphrase=flip(p, i))), ("last passphrase byte", dict(passphrase=flip(p, len(p) - 1))), ("longer passphrase", dict(passphrase=p + b"\0")),
            ("salt byte", dict(salt=flip(s, j))), ("longer salt", dict(salt=s + b"\0")), ("last salt byte", dict(salt=flip(s, len(s) - 1))),
            ("aad byte", dict(aad=flip(a, k))), ("longer aad", dict(aad=a + b"\0")), ("shorter aad", dict(aad=a[:-1])),
            ("pepper", dict(pepper=x + b"\0")), ("aad byte to pepper", dict(pepper=x + a[:1], aad=a[1:])),
            ("passphrase byte to salt", dict(passphrase=p[:-1], salt=p[-1:] + s)), ("salt byte to aad", dict(salt=s[:-1], aad=s[-1:] + a)),
            ("salt byte to passphrase", dict(passphrase=p + s[:1], salt=s[1:])),
            ("mb", dict(mb=kw["mb"] + 1)), ("mb of both cores", dict(mb=kw["mb"] + 2)), ("cpu", dict(cpu=kw["cpu"] + 1)), ("cpu 2", dict(cpu=kw["cpu"] + 2)), ("cores", dict(cores=kw["cores"] + 1)),
            ("cores 2", dict(cores=kw["cores"] + 2)), ("tag size", dict(tag_size=kw["tag_size"] + 1)), ("tag size 2", dict(tag_size=kw["tag_size"] * 2)),
        ]
        seen = {}
        for what, change in rng.sample(variants[1:], 12 if ctx.tier == "quick" else len(variants) - 1) + variants[:1]:
            out = await compute(rng.choice(("sync", "async")), **{**kw, **change})
            ctx.check("separates", len(out) == {**kw, **change}["tag_size"], lambda: f"{what}: {len(out)} bytes", shape=(what, "size"))
            other = seen.setdefault(out[:16], what)
            ctx.check("separates", other == what, lambda: f"changed {what} and {other} hash alike for {show(kw, 300)}", shape=what)

    ctx.run(body(), budget=300_000)


class Work:
    """Counts what is submitted to the worker processes; optionally stops it."""

    def __init__(self, stop):
        self.stop, self.n = stop, 0

    def __enter__(self):
        self.real = pool.ProcessPoolExecutor.submit

        def submit(this, *a, **kw):
            self.n += 1
            if self.stop:
                raise RuntimeError("work submitted")
            return self.real(this, *a, **kw)

        pool.ProcessPoolExecutor.submit = submit
        return self

    def __exit__(self, *exc):
        pool.ProcessPoolExecutor.submit = self.real


SMALL = dict(mb_allowed=range(1, 4), cpu_allowed=range(1, 5), cores_allowed=range(1, 4))


@scenario(quick=40, thorough=500, required=("verifies", "refused", "format"))
def composed(ctx):
    """Composed hashes: their fields, the right and wrong inputs, and
    alterations."""
    rng = ctx.rng

    async def body():
        kw = inputs(rng)
        p, aad, pepper = kw["passphrase"], kw["aad"], kw["pepper"]
        st = dict(mb=rng.choice((1, 2)), cpu=rng.choice((1, 2, 3)), cores=rng.choice((1, 2)), tag_size=rng.choice((16, 32, 100)), salt_size=rng.choice((4, 8, 33, 256)))
        h = hasher(pepper)(**st).hash_passphrase(p, aad=aad) if rng.random() < 0.5 else await hasher(pepper)(**st).ahash_passphrase(p, aad=aad)
        want = st["mb"] - 1, st["cpu"] - 1, st["cores"] - 1, st["salt_size"] - 1
        got = int.from_bytes(h[8:11], "big"), h[11], h[12], h[13]
        ctx.check("format", got == want and len(h) == 14 + st["salt_size"] + st["tag_size"], lambda: f"{st}: header {got} of {len(h)} bytes", shape=tuple(st.values()))
        tag = reference(p, h[14 : 14 + st["salt_size"]], h[:8] + aad, mb=st["mb"], cpu=st["cpu"], cores=st["cores"], tag_size=st["tag_size"], pepper=pepper)
        ctx.check("reference", h[14 + st["salt_size"] :] == tag, lambda: f"composed hash {st} differs from the independent computation", shape=("composed", *st.values()))
        for how in ("sync", "async"):
            ctx.check("verifies", await verify(how, h, p, aad=aad, pepper=pepper, **SMALL) is None, shape=(how, *st.values()))

        async def refuse(what, h=h, p=p, aad=aad, pepper=pepper, exc=Exception, ranges=SMALL, **more):
            how = rng.choice(("sync", "async"))
            try:
                await verify(how, h, p, aad=aad, pepper=pepper, **ranges, **more)
            except exc:
                ctx.check("refused", True, shape=(what, how))
            except Exception as e:
                ctx.check("refused", False, lambda: f"{how} {what}: {e!r}", shape=(what, how))
            else:
                ctx.check("refused", False, lambda: f"{how} {what}: verified ({st})", shape=(what, how))

        bad = P.InvalidPassphrase
        await refuse("another passphrase", p=p[:-1] + bytes([p[-1] ^ 1]), exc=bad)
        await refuse("longer passphrase", p=p + b"\0", exc=bad)
        await refuse("another aad", aad=aad + b"\0", exc=bad)
        if aad:
            await refuse("shorter aad", aad=aad[:-1], exc=bad)
        await refuse("another pepper", pepper=pepper + b"\0", exc=bad)
        n = len(h)
        spots = [0, rng.randrange(8), 7, 10, 11, 12, 13, 14, rng.randrange(14, n), 13 + st["salt_size"], 14 + st["salt_size"], n - 1]
        for i in spots if ctx.tier == "thorough" else rng.sample(spots, 5):
            v = h[i] ^ 1 << rng.randrange(8) if i not in (10, 11, 12) else h[i] ^ 1
            await refuse(f"byte {'field' if i < 14 else 'body'} {min(i, 14)} changed", h=h[:i] + bytes([v]) + h[i + 1 :])
        for what, x in rng.sample([("cut by one", h[:-1]), ("cut to the minimum tag", h[: 14 + st["salt_size"] + 16 - (st["tag_size"] == 16)]), ("extended", h + b"\0"), ("one byte in front", b"\0" + h),
                                   ("without tag", h[: -st["tag_size"]]), ("header only", h[:14]), ("empty", b""), ("salt moved to the tag", h[:13] + bytes([h[13] - 1]) + h[14:] if h[13] > 3 else b""),
                                   ("two bytes exchanged", h[:-2] + h[-1:] + h[-2:-1] if h[-1] != h[-2] else b"")], 3):
            await refuse(what, h=x)

    ctx.run(body(), budget=300_000)


@scenario(quick=80, thorough=1000, required=("refused-before-work",))
def costs(ctx):
    """Cost settings outside the allowed ranges are refused before any work."""
    rng = ctx.rng

    async def body():
        salt, tag = rng.randbytes(8), rng.randbytes(32)
        for _ in range(6):
            allowed = {}
            for name, low, high, default in (("mb", 1, 1 << 24, range(1, 512)), ("cpu", 1, 256, range(1, 33)), ("cores", 1, 256, range(1, 9))):
                allowed[name] = rng.choice((None, default, range(2, 5), range(1, 2), range(3, 20, 4), range(0)))
                allowed[name] = (default, allowed[name], low, high)
            values, ok = {}, True
            for name, (default, own, low, high) in allowed.items():
                r = default if own is None else own
                pick = [low, low + 1, 2, 3, 4, 5, 7, r.start, r.stop - 1, r.stop, r.stop + 1, high, high - 1, rng.randrange(low, high + 1)]
                values[name] = min(high, max(low, rng.choice(pick)))
                ok = ok and values[name] in r
            h = b"\0" * 8 + (values["mb"] - 1).to_bytes(3, "big") + bytes([values["cpu"] - 1, values["cores"] - 1, 7]) + salt + tag
            kw = {f"{n}_allowed": own for n, (_, own, _, _) in allowed.items() if own is not None}
            how = rng.choice(("sync", "async"))
            with Work(stop=True) as work:
                try:
                    await verify(how, h, b"passphrase..", **kw)
                    err = None
                except Exception as e:
                    err = e
            shape = (ok, how, *values.values(), *(str(v) for v in kw.values()))
            ctx.check("refused-before-work", err is not None and (ok or not work.n), lambda: f"{how} {values} with {kw}: {work.n} pieces of work submitted, {err!r}", shape=shape)
            ctx.check("allowed-is-worked", not ok or work.n > 0, lambda: f"{how} {values} with {kw} refused: {err!r}", shape=shape)

    ctx.run(body())


@scenario(quick=8, thorough=40, required=("limits",))
def limits(ctx):
    """Inputs at and just outside the documented limits."""
    rng = ctx.rng

    async def body():
        good = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=8)
        for name, inside, outside in (
            ("mb", (1, 2, 256**3), (0, -1, 256**3 + 1, 1.0, "1", None, True, b"\1")),
            ("cpu", (1, 256), (0, -1, 257, 1.5, "1", None, True)),
            ("cores", (1, 256), (0, -1, 257, 2.0, "2", None, True)),
            ("tag_size", (16, 17, 100000), (15, 0, -1, 16.0, "16", None)),
            ("salt_size", (4, 256), (3, 0, -1, 257, 4.0, "8", None)),
        ):
            for v in inside:
                P(**{**good, name: v})
                ctx.check("limits", True, shape=(name, repr(v)))
            for v in outside:
                try:
                    P(**{**good, name: v})
                    ok = False
                except (ValueError, TypeError):
                    ok = True
                ctx.check("limits", ok, lambda: f"{name}={v!r} accepted", shape=(name, repr(v)))
        how = ("sync", "async")[ctx.index % 2]
        for what, p, s, a in (
            ("11 byte passphrase", b"x" * 11, b"s" * 8, b""), ("empty passphrase", b"", b"s" * 8, b""), ("text passphrase", "x" * 12, b"s" * 8, b""), ("bytearray passphrase", bytearray(12), b"s" * 8, b""),
            ("3 byte salt", b"x" * 12, b"sss", b""), ("empty salt", b"x" * 12, b"", b""), ("257 byte salt", b"x" * 12, b"s" * 257, b""), ("text salt", b"x" * 12, "s" * 8, b""),
            ("text aad", b"x" * 12, b"s" * 8, "aad"), ("no aad", b"x" * 12, b"s" * 8, None),
        ):
            with Work(stop=True) as work:
                try:
                    await compute(how, p, s, a, mb=1, cpu=1, cores=1, tag_size=16)
                    ok = False
                except (ValueError, TypeError):
                    ok = True
                except Exception:
                    ok = False
            ctx.check("limits", ok and not work.n, lambda: f"{how} {what} accepted", shape=(what, how))
        for p, s in ((b"x" * 12, b"ssss"), (b"x" * 12, b"s" * 256)):
            ctx.eq("limits", await compute(how, p, s, mb=1, cpu=1, cores=1, tag_size=16), reference(p, s, mb=1, cpu=1, cores=1, tag_size=16), f"{how} at the limits", shape=(len(s), how))

    ctx.run(body(), budget=200_000)


@scenario(quick=16, thorough=200, required=("concurrent",))
def at_once(ctx):
    """Many hashes and verifications at once, in tasks and threads."""
    rng = ctx.rng
    jobs = [dict(inputs(rng), mb=1, cpu=rng.choice((1, 2)), cores=rng.choice((1, 2, 3))) for _ in range(rng.choice((3, 6)))]
    wants = [reference(**j) for j in jobs]

    def judge(kind, results):
        for i, (got, want) in enumerate(zip(results, wants)):
            ctx.check("concurrent", got == want, lambda: f"{kind}: hash {i} of {len(jobs)} is {show(got)}, alone {show(want)}", shape=(kind, len(jobs), jobs[i]["cores"]))

    async def tasks():
        h = await P(mb=1, cpu=1, cores=1, tag_size=16).ahash_passphrase(b"the right one")
        others = [verify("async", h, x) for x in (b"the right one", b"the wrong one", b"the right one")]
        *out, a, b, c = await asyncio.gather(*(compute("async", **j) for j in jobs), *others, return_exceptions=True)
        judge("tasks", out)
        ctx.check("concurrent", a is None and c is None and isinstance(b, P.InvalidPassphrase), lambda: f"verifications among others: {a!r} {b!r} {c!r}", shape=("verify", len(jobs)))

    if ctx.index % 2:
        ctx.run(tasks(), noise=0.1, budget=500_000)
    else:
        res = ctx.threads([lambda j=j: asyncio.run(compute("sync", **j)) for j in jobs], budget=500_000)
        judge("threads", [r if e is None else e for r, e in res])


@scenario(quick=6, thorough=40, required=("fresh",))
def fresh(ctx):
    """Hashing one passphrase twice never repeats a salt or a tag."""
    async def body():
        p = P(mb=1, cpu=1, cores=1, tag_size=32, salt_size=8)
        hs = [p.hash_passphrase(b"one passphrase") if i % 2 else await p.ahash_passphrase(b"one passphrase") for i in range(6)]
        ctx.check("fresh", len({h[14:22] for h in hs}) == len({h[22:] for h in hs}) == len(hs), "a salt or tag repeated", shape=ctx.index)

    if ctx.index % 2:
        env.clock.freeze()
    ctx.run(body(), budget=200_000)
