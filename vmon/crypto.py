"""Drivers for the cipher interfaces shared by several properties."""
import aiootp

# wire format: (class, tag, salt, iv, inner header, block, packet id)
FORMATS = {
    "Chunky2048": dict(tag=32, salt=8, iv=8, inner=20, block=256, pid=24, frame=256),
    "Slick256": dict(tag=24, salt=8, iv=8, inner=12, block=32, pid=16, frame=32),
}
NAMES = tuple(FORMATS)


def cls(name):
    return getattr(aiootp, name)


def new_cipher(name, key):
    return cls(name)(key)


def fmt(name):
    f = FORMATS[name]
    return f, f["tag"] + f["salt"] + f["iv"]


def sealed_size(name, n):
    f, head = fmt(name)
    b = f["block"]
    return head + ((f["inner"] + n) // b + 1) * b


def split(name, ct):
    f, head = fmt(name)
    a, b = f["tag"], f["tag"] + f["salt"]
    return ct[:a], ct[a:b], ct[b:head], ct[head:]


def blocks(name, body):
    b = FORMATS[name]["block"]
    return [body[i : i + b] for i in range(0, len(body), b)]


def size(rng, top=17):
    """Sizes spread over all magnitudes below 2**top, often next to a power
    of two, where a field or a limit of some width would run out."""
    n = 1 << rng.randrange(0, top)
    if rng.random() < 0.6:
        return max(0, n + rng.randrange(-1, 2))
    return rng.randrange(n, 2 * n)


def rkey(rng, extra=True):
    n = 64
    r = rng.random()
    if extra and r < 0.4:
        n = rng.choice((65, 96, 128, 167, 168, 169, 200, 336, 337, 500, 1024))
    elif extra and r < 0.45:
        n = max(64, size(rng, 14))
    return rng.randbytes(n)


def raad(rng):
    r = rng.random()
    if r < 0.06:
        return rng.randbytes(size(rng))
    return rng.choice((b"", b"", rng.randbytes(1), rng.randbytes(rng.randrange(2, 40)),
                       rng.randbytes(rng.choice((135, 136, 168, 169, 255, 256, 257, 1000)))))


def rsalt(rng):
    return rng.choice((None, None, rng.randbytes(8), bytes(8)))


def length(rng, name, big=False):
    """Message lengths, mostly around block boundaries of the padded form."""
    f = FORMATS[name]
    b, inner = f["block"], f["inner"]
    k = rng.randrange(0, 6)
    r = rng.random()
    if r < 0.65:
        n = k * b - inner + rng.randrange(-3, 4)
    elif r < 0.8:
        n = k * b + rng.randrange(-2, 3)
    elif r < 0.95 or not big:
        n = rng.randrange(0, 6 * b)
    else:
        n = rng.randrange(20 * b, 300 * b)
    return max(0, n)


def message(rng, n, name="Chunky2048"):
    r = rng.random()
    if r < 0.5:
        return rng.randbytes(n)
    if r < 0.62:
        return bytes(n)
    if r < 0.74:
        return b"\xff" * n
    if r < 0.86:
        return bytes([rng.randrange(256)]) * n
    m = bytearray(rng.randbytes(n))
    if m:  # tails that look like padding sentinels
        m[-1] = rng.choice((0, 1, 31, 32, 255, 12, 20))
    return bytes(m)


def json_value(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < 0.5:
        return rng.choice(
            (None, True, False, 0, 1, -1, rng.randrange(-(2**70), 2**70), rng.random() * 1e9,
             "", "text", "ünïcödé ☃ \U0001f600", "\x00\x1f\"\\", "a" * rng.randrange(300),
             [], {}, 1.5, -0.0, "null", "0", "\ud800", "a\udfffb", "\ufffd", "\u2028", 2**64, -(2**63), 5e-324, 1.7976931348623157e308)
        )
    if r < 0.75:
        return [json_value(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {rng.choice(("", "k", "ключ", "a b", "\udc00", str(rng.random()))): json_value(rng, depth + 1)
            for _ in range(rng.randrange(4))}


# ------------------------------------------------------------ one-shot use
async def seal(cipher, how, msg, aad, salt=None):
    """how: bytes | abytes | token | atoken | stream | astream -> raw ciphertext"""
    from base64 import urlsafe_b64decode as unb64

    if how == "bytes":
        return cipher.bytes_encrypt(msg, salt=salt, aad=aad)
    if how == "abytes":
        return await cipher.abytes_encrypt(msg, salt=salt, aad=aad)
    if how == "token":
        t = cipher.make_token(msg, aad=aad)
        return unb64(t + b"=" * (-len(t) % 4))
    if how == "atoken":
        t = await cipher.amake_token(msg, aad=aad)
        return unb64(t + b"=" * (-len(t) % 4))
    if how == "stream":
        s = cipher.stream_encrypt(salt=salt, aad=aad)
        s.buffer(msg)
        body = b"".join(b for _, b in s) + b"".join(b for _, b in s.finalize())
        return s.shmac.result + s.salt + s.iv + body
    s = await cipher.astream_encrypt(salt=salt, aad=aad)
    await s.abuffer(msg)
    out = []
    async for _, b in s:
        out.append(b)
    async for _, b in s.afinalize():
        out.append(b)
    return s.shmac.result + s.salt + s.iv + b"".join(out)


async def unseal(cipher, how, ct, aad, **kw):
    from base64 import urlsafe_b64encode as b64

    if how == "bytes":
        return cipher.bytes_decrypt(ct, aad=aad, **kw)
    if how == "abytes":
        return await cipher.abytes_decrypt(ct, aad=aad, **kw)
    token = b64(ct)
    if how == "token":
        return cipher.read_token(token, aad=aad, **kw)
    if how == "token-str":
        return cipher.read_token(token.decode(), aad=aad, **kw)
    if how == "token-bare":
        return cipher.read_token(token.rstrip(b"="), aad=aad, **kw)
    return await cipher.aread_token(token, aad=aad, **kw)


SEAL = ("bytes", "abytes", "token", "atoken", "stream", "astream")
UNSEAL = ("bytes", "abytes", "token", "token-str", "token-bare", "atoken")
