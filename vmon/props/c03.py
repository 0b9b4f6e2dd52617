"""C03: encryption never reuses randomness or one-message key material."""
import asyncio
import json
import os
import random

from vmon import crypto as cr
from vmon import env
from vmon.core import scenario


def gen(items):
    for x in items:
        yield x


class Population:
    """Ciphertexts of one (key, salt, AAD, message); nothing may repeat."""

    def __init__(self, ctx, name, label):
        self.ctx, self.name, self.label = ctx, name, label
        self.ivs, self.bodies, self.tags, self.blocks = set(), set(), set(), set()
        self.cols = [set() for _ in range(8)]
        self.n = 0

    def add(self, ct, salt):
        ctx, what = self.ctx, f"{self.name} {self.label}"
        tag, s, iv, body = cr.split(self.name, ct)
        self.n += 1
        ctx.check("iv-unique", iv not in self.ivs, lambda: f"{what}: IV {iv.hex()} repeated", shape=(what, iv))
        ctx.check("body-unique", body not in self.bodies and tag not in self.tags, lambda: f"{what}: ciphertext repeated")
        for b in cr.blocks(self.name, body):
            if not ctx.check("block-unique", b not in self.blocks, lambda: f"{what}: a ciphertext block repeated"):
                break
            self.blocks.add(b)
        self.ivs.add(iv)
        self.bodies.add(body)
        self.tags.add(tag)
        for c, x in zip(self.cols, iv):
            c.add(x)
        if salt is not None:
            ctx.check("salt-kept", s == salt, f"{what}: given salt not used")

    def spread(self):
        """Each IV byte position takes about as many values as a uniform one:
        the chance of fewer than half of the expected number is negligible."""
        if self.n >= 256:
            expected = 256 * (1 - (255 / 256) ** self.n)
            for i, c in enumerate(self.cols):
                self.ctx.check("iv-spread", len(c) > expected / 2,
                               lambda: f"{self.name} {self.label}: IV byte {i} took {len(c)} values in {self.n} draws, "
                                       f"expected about {expected:.0f}", shape=(self.name, self.label, i))


@scenario(quick=16, thorough=120, required=("iv-unique", "body-unique", "iv-spread", "block-unique"))
def identical_inputs(ctx):
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    how = cr.SEAL[(ctx.index // 2) % len(cr.SEAL)]
    key, aad, salt = cr.rkey(rng), cr.raad(rng), rng.randbytes(8)
    msg = rng.choice((b"", bytes(300), b"same message" * 10))
    env.clock.freeze()
    c = cr.new_cipher(name, key)
    pop = Population(ctx, name, how)
    if "token" in how:
        salt = None

    async def body():
        for i in range(300 if ctx.index % 4 else 1200):
            obj = c if i % 3 else cr.new_cipher(name, key)
            pop.add(await cr.seal(obj, how, msg, aad, salt), salt)

    ctx.run(body())
    pop.spread()


@scenario(quick=8, thorough=60, required=("iv-unique",))
def concurrent_identical(ctx):
    """Tasks, threads and forked children seal the same thing at once."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    key, aad, salt = cr.rkey(rng), cr.raad(rng), rng.randbytes(8)
    msg = b"identical" * 40
    env.clock.freeze()
    c = cr.new_cipher(name, key)
    pop = Population(ctx, name, "concurrent")

    async def tasks():
        return await asyncio.gather(*(cr.seal(c, rng.choice(("abytes", "astream", "bytes")), msg, aad, salt) for _ in range(40)))

    for ct in ctx.run(tasks(), noise=0.3):
        pop.add(ct, salt)
    env.line_noise.on(random.Random(rng.random()), 0.03)
    try:
        out = ctx.threads([lambda: [c.bytes_encrypt(msg, salt=salt, aad=aad) for _ in range(6)] for _ in range(6)])
    finally:
        env.line_noise.off()
    for r, e in out:
        if e is not None:
            raise e
        for ct in r:
            pop.add(ct, salt)
    for _ in range(3):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                data = json.dumps([c.bytes_encrypt(msg, salt=salt, aad=aad).hex() for _ in range(8)]).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        for h in json.loads(data):
            pop.add(bytes.fromhex(h), salt)


@scenario(quick=24, thorough=300, required=("inner-key-separates",))
def repeated_iv_still_separates(ctx):
    """If the system source hands out the same IV again, the inner random key
    still makes every block of the keystream different."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    c = cr.new_cipher(name, cr.rkey(rng))
    aad, salt = cr.raad(rng), rng.randbytes(8)
    msg = bytes(4 * cr.FORMATS[name]["block"])
    env.clock.freeze()
    block = cr.FORMATS[name]["block"]
    seen = [set() for _ in range(6)]
    sizes = set()

    def constant(n):
        sizes.add(n)
        return bytes(n)

    def one(use_async):
        env.urandom.source = constant
        try:
            bundle = c._KeyAADBundle(c._kdfs, salt=salt, aad=aad)
        finally:
            env.urandom.source = None
        padded = c._padding.pad_plaintext(msg)
        parts = [padded[i : i + block] for i in range(0, len(padded), block)]
        if use_async:
            async def go():
                async def feed():
                    for p in parts:
                        yield p

                shmac = c._StreamHMAC(await bundle.async_mode())._for_encryption()
                return [b async for b in c._Junction.abytes_encipher(feed(), shmac=shmac)], bundle.iv

            return ctx.run(go())
        shmac = c._StreamHMAC(bundle.sync_mode())._for_encryption()
        return list(c._Junction.bytes_encipher(gen(parts), shmac=shmac)), bundle.iv

    ivs = set()
    for k in range(rng.choice((30, 30, 300, 600))):
        body, iv = one(k % 2)
        ivs.add(iv)
        for i, b in enumerate(body[:6]):
            ctx.check("inner-key-separates", b not in seen[i],
                      lambda: f"{name}: with a repeated IV, block {i} of the ciphertext repeated", shape=(name, i, b[:4]))
            seen[i].add(b)
    ctx.check("iv-from-system", len(ivs) == 1, f"{name}: IVs under a constant source: {len(ivs)}", shape=(name,))


@scenario(quick=60, thorough=600, required=("misuse-refused",))
def misuse(ctx):
    """Second use, chosen IV, wrong direction, wrong mode."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    c = cr.new_cipher(name, cr.rkey(rng))
    aad, salt, iv = cr.raad(rng), rng.randbytes(8), rng.randbytes(8)
    block = cr.FORMATS[name]["block"]
    blk = [rng.randbytes(block)]

    async def feed():
        for b in blk:
            yield b

    async def drain(gen):
        return [x async for x in gen]

    def bundle(**kw):
        return c._KeyAADBundle(c._kdfs, salt=salt, aad=aad, **kw)

    def refuse(what, fn):
        ctx.raises("misuse-refused", Exception, fn, what=f"{name}: {what}", shape=(name, what))

    J, H = c._Junction, c._StreamHMAC
    # second message with the same bundle, same authenticator
    kb = bundle().sync_mode()
    h = H(kb)._for_encryption()
    list(J.bytes_encipher(gen(blk), shmac=h))
    refuse("authenticator reused", lambda: list(J.bytes_encipher(gen(blk), shmac=h)))
    refuse("bundle reused by a second authenticator", lambda: list(J.bytes_encipher(gen(blk), shmac=H(kb)._for_encryption())))
    refuse("bundle reused after finalisation", lambda: (h.finalize(), list(J.bytes_encipher(gen(blk), shmac=H(kb)._for_encryption()))))
    # direction
    refuse("encryption with a chosen IV", lambda: H(bundle(iv=iv).sync_mode())._for_encryption())
    refuse("decryption without an IV", lambda: H(bundle().sync_mode())._for_decryption())
    refuse("direction set twice", lambda: H(bundle().sync_mode())._for_encryption()._for_encryption())
    refuse("direction switched", lambda: H(bundle(iv=iv).sync_mode())._for_decryption()._for_encryption())
    refuse("encipher with a decrypting authenticator",
           lambda: list(J.bytes_encipher(gen(blk), shmac=H(bundle(iv=iv).sync_mode())._for_decryption())))
    refuse("decipher with an encrypting authenticator",
           lambda: list(J.bytes_decipher(gen(blk), shmac=H(bundle().sync_mode())._for_encryption())))
    refuse("no direction", lambda: list(J.bytes_encipher(gen(blk), shmac=H(bundle().sync_mode()))))
    # mode
    refuse("no mode declared", lambda: H(bundle()))

    async def amode(**kw):
        return await bundle(**kw).async_mode()

    refuse("async bundle in blocking cipher",
           lambda: list(J.bytes_encipher(gen(blk), shmac=H(ctx.run(amode()))._for_encryption())))

    async def sync_in_async():
        return await drain(J.abytes_encipher(feed(), shmac=H(bundle().sync_mode())._for_encryption()))

    refuse("blocking bundle in async cipher", lambda: ctx.run(sync_in_async()))

    async def areuse(second_shmac):
        kb = await amode()
        h = H(kb)._for_encryption()
        await drain(J.abytes_encipher(feed(), shmac=h))
        if second_shmac:
            h = H(kb)._for_encryption()
        await drain(J.abytes_encipher(feed(), shmac=h))

    refuse("async bundle reused", lambda: ctx.run(areuse(True)))
    refuse("async authenticator reused", lambda: ctx.run(areuse(False)))
    # second message over the first one's decryption material
    kb = bundle(iv=iv).sync_mode()
    h = H(kb)._for_decryption()
    list(J.bytes_decipher(gen(blk), shmac=h))
    refuse("decryption bundle reused", lambda: list(J.bytes_decipher(gen(blk), shmac=H(kb)._for_decryption())))
    refuse("decryption bundle turned to encryption", lambda: list(J.bytes_encipher(gen(blk), shmac=H(kb)._for_encryption())))
    # wrong IV and salt sizes
    for n in (0, 1, 7, 9, 16):
        if n:
            refuse(f"salt of {n} bytes", lambda: c._KeyAADBundle(c._kdfs, salt=rng.randbytes(n), aad=aad))
        refuse(f"iv of {n} bytes", lambda: c._KeyAADBundle(c._kdfs, salt=salt, aad=aad, iv=rng.randbytes(n)))
    for kw in ({"iv": iv}, {"iv": bytes(8)}):
        refuse("stream encryption given an IV", lambda: c.stream_encrypt(salt=salt, aad=aad, **kw))
        refuse("bytes encryption given an IV", lambda: c.bytes_encrypt(b"", salt=salt, aad=aad, **kw))


@scenario(quick=12, thorough=100, required=("stream-iv-unique",))
def streams_fresh(ctx):
    """Every new encryption stream draws its own IV; finished or abandoned
    ones included, and each object's packets differ from all others'."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    c = cr.new_cipher(name, cr.rkey(rng))
    aad, salt = cr.raad(rng), rng.randbytes(8)
    env.clock.freeze()
    ivs, packets = set(), set()

    async def body():
        for i in range(120):
            s = c.stream_encrypt(salt=salt, aad=aad) if i % 2 else await c.astream_encrypt(salt=salt, aad=aad)
            ctx.check("stream-iv-unique", s.iv not in ivs, lambda: f"{name}: stream IV repeated", shape=(name, s.iv))
            ivs.add(s.iv)
            if i % 5 == 0:
                continue
            msg = bytes(3 * cr.FORMATS[name]["block"])
            out = []
            if i % 2:
                s.buffer(msg)
                out += list(s)
                out += list(s.finalize())
            else:
                await s.abuffer(msg)
                async for p in s:
                    out.append(p)
                async for p in s.afinalize():
                    out.append(p)
            for pid, blk in out:
                ctx.check("packet-unique", blk not in packets and pid not in packets, lambda: f"{name}: packet repeated")
                packets.update((pid, blk))

    ctx.run(body())
