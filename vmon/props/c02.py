"""C02: forged, altered or re-contexted ciphertexts never open."""
import itertools
from base64 import urlsafe_b64encode

from vmon import crypto as cr
from vmon.core import scenario, show


class Lab:
    """A cipher with a few sealed messages that share key, salt and AAD."""

    def __init__(self, ctx, name, nmsgs=3, same_salt=True, maxblocks=3):
        rng = ctx.rng
        self.ctx, self.name, self.rng = ctx, name, rng
        self.key, self.aad = cr.rkey(rng), cr.raad(rng)
        self.salt = rng.randbytes(8) if same_salt else None
        self.c = cr.new_cipher(name, self.key)
        b = cr.FORMATS[name]["block"]
        self.msgs, self.cts = [], []
        for i in range(nmsgs):
            n = rng.randrange(0, maxblocks * b)
            m = cr.message(rng, n)
            self.msgs.append(m)
            if rng.random() < 0.5:
                ct = self.c.bytes_encrypt(m, salt=self.salt, aad=self.aad)
            else:
                ct = ctx.run(self.c.abytes_encrypt(m, salt=self.salt, aad=self.aad))
            self.cts.append(ct)

    def opens(self, cipher, ct, aad, how=None):
        how = how or self.rng.choice(("bytes", "bytes", "bytes", "abytes", "token"))
        if how == "bytes":
            return cipher.bytes_decrypt(ct, aad=aad)
        if how == "token":
            return cipher.read_token(urlsafe_b64encode(ct), aad=aad)
        return self.ctx.run(cipher.abytes_decrypt(ct, aad=aad))

    def refuse(self, monitor, ct, what, cipher=None, aad=None, shape=None, how=None):
        cipher = cipher or self.c
        aad = self.aad if aad is None else aad
        try:
            got = self.opens(cipher, ct, aad, how)
        except Exception:
            self.ctx.check(monitor, True, shape=(self.name, shape if shape is not None else what))
        else:
            self.ctx.check(monitor, False, lambda: f"{self.name}: {what} opened to {show(got)}",
                           shape=(self.name, shape if shape is not None else what))

    def still_good(self):
        for m, ct in zip(self.msgs, self.cts):
            self.ctx.eq("untouched-still-opens", self.opens(self.c, ct, self.aad), m, "after failed openings",
                        shape=(self.name, len(m)))


@scenario(quick=120, thorough=3000, required=("altered-byte", "untouched-still-opens"))
def every_byte_position(ctx):
    """Each byte of a ciphertext is altered in turn."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    lab = Lab(ctx, name, nmsgs=1, maxblocks=3 if name == "Slick256" else 2)
    ct = lab.cts[0]
    f, head = cr.fmt(name)
    for i in range(len(ct)):
        bit = rng.choice((1, 2, 4, 8, 16, 32, 64, 128, rng.randrange(1, 256)))
        bad = ct[:i] + bytes([ct[i] ^ bit]) + ct[i + 1 :]
        lab.refuse("altered-byte", bad, f"byte {i} of {len(ct)} xor {bit}",
                   shape=(i if i < head else "body", (i - head) % f["block"]),
                   how=rng.choice(("bytes", "bytes", "bytes", "bytes", "bytes", "abytes")))
    lab.still_good()


@scenario(quick=120, thorough=2000, required=("cut-or-extended",))
def lengths(ctx):
    """Truncations and extensions at every length, and whole-block edits."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    lab = Lab(ctx, name, nmsgs=2, maxblocks=4)
    ct = lab.cts[0]
    f, head = cr.fmt(name)
    b = f["block"]
    cuts = set(range(0, len(ct), max(1, len(ct) // 90))) | set(range(head, len(ct), b)) | {head - 1, head + 1, 0, 1}
    for i in sorted(cuts):
        if i < len(ct):
            lab.refuse("cut-or-extended", ct[:i], f"first {i} of {len(ct)} bytes", shape=("cut", i))
    for i in (1, b - 1, b):
        lab.refuse("cut-or-extended", ct[i:], f"without first {i} bytes", shape=("front", i))
    for extra in (1, b - 1, b, b + 1, 2 * b):
        for tail in (bytes(extra), rng.randbytes(extra), (lab.cts[1] * 3)[-extra:]):
            lab.refuse("cut-or-extended", ct + tail, f"extended by {extra}", shape=("ext", extra))
            lab.refuse("cut-or-extended", tail + ct, f"prefixed by {extra}", shape=("pre", extra))
    tag, salt, iv, body = cr.split(name, ct)
    bl = cr.blocks(name, body)
    other = cr.blocks(name, cr.split(name, lab.cts[1])[3])
    variants = []
    for i in range(len(bl)):
        variants.append(bl[:i] + bl[i + 1 :])
        variants.append(bl[:i] + [bl[i]] + bl[i:])
        variants.append(bl[:i] + [rng.choice(other)] + bl[i:])
        variants.append(bl[:i] + [rng.choice(other)] + bl[i + 1 :])
        variants.append(bl[:i] + [bytes(b)] + bl[i + 1 :])
        for j in range(i):
            v = list(bl)
            v[i], v[j] = v[j], v[i]
            variants.append(v)
    variants.append(bl + other)
    variants.append([bl[0]] + other)
    for v in variants:
        if v != bl:
            lab.refuse("block-edit", tag + salt + iv + b"".join(v), f"block edit {len(bl)}->{len(v)}",
                       shape=(len(bl), len(v)))
    lab.still_good()


@scenario(quick=60, thorough=1500, required=("spliced",))
def splices(ctx):
    """All recombinations of tag, salt, IV and body of messages that share
    key, AAD and (half of the time) salt."""
    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    lab = Lab(ctx, name, nmsgs=3, same_salt=rng.random() < 0.5)
    parts = [cr.split(name, ct) for ct in lab.cts]
    good = set(lab.cts)
    for combo in itertools.product(range(3), repeat=4):
        ct = b"".join(parts[j][k] for k, j in enumerate(combo))
        if ct not in good:
            lab.refuse("spliced", ct, f"fields from messages {combo}", shape=combo)
    for perm in itertools.permutations(range(4)):
        ct = b"".join(parts[0][k] for k in perm)
        if ct not in good:
            lab.refuse("spliced", ct, f"fields permuted {perm}", shape=("perm", perm))
    lab.still_good()


@scenario(quick=80, thorough=2000, required=("wrong-context",))
def wrong_context(ctx):
    """Right ciphertext, wrong key, AAD or cipher."""
    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    lab = Lab(ctx, name, nmsgs=1)
    ct, key, aad = lab.cts[0], lab.key, lab.aad
    for i in range(len(key)):
        k = bytearray(key)
        k[i] ^= 1 << rng.randrange(8)
        lab.refuse("wrong-context", ct, f"key byte {i} of {len(key)} changed", cipher=cr.new_cipher(name, bytes(k)),
                   shape=("key", i, len(key)), how="bytes")
    for k in (key + b"\0", b"\0" + key, key[1:] + key[:1], key[::-1], key * 2, key[:-1]):
        if len(k) >= 64 and k != key:
            lab.refuse("wrong-context", ct, f"key variant of {len(k)} bytes", cipher=cr.new_cipher(name, k),
                       shape=("keyvar", len(k)))
    variants = {aad + b"\0", aad + b"\x01", b"\0" + aad, aad[:-1], aad[1:], aad[::-1], aad * 2, b"", b"\0",
                rng.randbytes(8), cr.split(name, ct)[1], cr.split(name, ct)[1] + aad}
    for i in range(0, len(aad), max(1, len(aad) // 24)):
        a = bytearray(aad)
        a[i] ^= 1 << rng.randrange(8)
        variants.add(bytes(a))
    variants.discard(aad)
    for a in variants:
        lab.refuse("wrong-context", ct, f"AAD {show(a, 60)} for {show(aad, 60)}", aad=a, shape=("aad", len(a), len(aad)))
    for other in cr.NAMES:
        if other != name:
            oc = cr.new_cipher(other, key)
            f, h = cr.fmt(other)
            lab.refuse("wrong-context", ct, f"given to {other}", cipher=oc, shape=("cipher",))
            fit = h + (len(ct) - h) // f["block"] * f["block"]
            if fit > h:
                lab.refuse("wrong-context", ct[:fit], f"cut for {other}", cipher=oc, shape=("cipher", fit))
    lab.still_good()


@scenario(quick=60, thorough=1000, required=("token-edit",))
def token_text(ctx):
    """Text edits of a token never open to anything but the sealed message."""
    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    key, aad = cr.rkey(rng), cr.raad(rng)
    c = cr.new_cipher(name, key)
    msg = cr.message(rng, rng.randrange(0, 60))
    tok = c.make_token(msg, aad=aad)
    sym = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    for _ in range(150):
        t = bytearray(tok)
        i = rng.randrange(len(t))
        r = rng.random()
        if r < 0.6:
            t[i] = rng.choice(sym)
        elif r < 0.7:
            t[i] = rng.choice(b"=+/ \n.")
        elif r < 0.8:
            del t[i]
        elif r < 0.9:
            t.insert(i, rng.choice(sym))
        else:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        t = bytes(t)
        if t == tok:
            continue
        try:
            got = c.read_token(t, aad=aad) if rng.random() < 0.8 else ctx.run(c.aread_token(t, aad=aad))
        except Exception:
            ctx.check("token-edit", True, shape=(name, i, "refused"))
        else:
            ctx.check("token-edit", got == msg, lambda: f"{name}: edited token opened to {show(got)}",
                      shape=(name, i, "same"))


@scenario(quick=60, thorough=1500, required=("random-input",))
def garbage(ctx):
    """Inputs that were never sealed."""
    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    lab = Lab(ctx, name, nmsgs=1)
    f, head = cr.fmt(name)
    for _ in range(40):
        n = rng.choice((0, 1, head - 1, head, head + 1, head + f["block"], head + 2 * f["block"],
                        rng.randrange(0, head + 3 * f["block"])))
        lab.refuse("random-input", rng.choice((bytes(n), b"\xff" * n, rng.randbytes(n))), f"{n} made-up bytes",
                   shape=("len", n))
    # a tag computed by someone with another key over the same fields
    other = cr.new_cipher(name, rng.randbytes(64)).bytes_encrypt(lab.msgs[0], salt=lab.salt, aad=lab.aad)
    lab.refuse("random-input", other, "sealed under another key", shape=("foreign",))
    ct = lab.cts[0]
    for cutoff in range(0, f["tag"] + 1):
        # truncated, zeroed or prefixed tags of a genuine message
        lab.refuse("random-input", bytes(cutoff) + ct[cutoff:] if any(ct[:cutoff]) else b"", f"{cutoff} tag bytes zeroed",
                   shape=("tagzero", cutoff), how="bytes")
        t = ct[:cutoff] + rng.randbytes(f["tag"] - cutoff)
        if t != ct[: f["tag"]]:
            lab.refuse("random-input", t + ct[f["tag"] :], f"{cutoff} right tag bytes", shape=("tagpart", cutoff), how="bytes")
    lab.still_good()


@scenario(quick=24, thorough=400, required=("json-altered",))
def json_altered(ctx):
    rng = ctx.rng
    name = rng.choice(cr.NAMES)
    key, aad = cr.rkey(rng), cr.raad(rng)
    c = cr.new_cipher(name, key)
    v = rng.choice((1, "a", [1], {"a": 1}, None, 12345))
    ct = c.json_encrypt(v, aad=aad)
    for i in rng.sample(range(len(ct)), 40):
        bad = ct[:i] + bytes([ct[i] ^ rng.randrange(1, 256)]) + ct[i + 1 :]
        ctx.raises("json-altered", Exception, c.json_decrypt, bad, aad=aad, what=f"{name} byte {i}", shape=(name, i))
        ctx.raises("json-altered", Exception, lambda: ctx.run(c.ajson_decrypt(bad, aad=aad)), what=f"{name} byte {i} async")
    ctx.raises("json-altered", Exception, c.json_decrypt, ct, aad=aad + b"x", what="wrong aad")
    ctx.eq("untouched-still-opens", c.json_decrypt(ct, aad=aad), v, "json")


@scenario(quick=96, thorough=1500, required=("big-context",))
def big_context(ctx):
    """Long keys, associated data and messages, altered near their ends and at
    random places."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    key, aad = rng.randbytes(max(64, cr.size(rng, 16))), rng.randbytes(1 + cr.size(rng))
    c = cr.new_cipher(name, key)
    msg = cr.message(rng, cr.size(rng, 13 if name == "Slick256" else 16))
    ct = c.bytes_encrypt(msg, aad=aad) if rng.random() < 0.5 else ctx.run(c.abytes_encrypt(msg, aad=aad))

    def flips(data):
        n = len(data)
        for i in {n - 1, n - 2, n // 2, rng.randrange(n), rng.randrange(n), rng.randrange(n)}:
            if 0 <= i < n:
                yield i, data[:i] + bytes([data[i] ^ 1 << rng.randrange(8)]) + data[i + 1 :]

    def refuse(what, cipher, ct, aad, shape):
        try:
            got = cipher.bytes_decrypt(ct, aad=aad) if rng.random() < 0.5 else ctx.run(cipher.abytes_decrypt(ct, aad=aad))
        except Exception:
            ctx.check("big-context", True, shape=shape)
        else:
            ctx.check("big-context", False, lambda: f"{name}: {what} opened to {show(got)}", shape=shape)

    for i, k in flips(key):
        refuse(f"key byte {i} of {len(key)} changed", cr.new_cipher(name, k), ct, aad, (name, "key", len(key), i))
    refuse(f"key of {len(key)} bytes extended", cr.new_cipher(name, key + b"\0"), ct, aad, (name, "key+", len(key)))
    if len(key) > 64:
        refuse(f"key of {len(key)} bytes shortened", cr.new_cipher(name, key[:-1]), ct, aad, (name, "key-", len(key)))
    for i, a in flips(aad):
        refuse(f"AAD byte {i} of {len(aad)} changed", c, ct, a, (name, "aad", len(aad), i))
    refuse(f"AAD of {len(aad)} bytes extended", c, ct, aad + b"\0", (name, "aad+", len(aad)))
    refuse(f"AAD of {len(aad)} bytes shortened", c, ct, aad[:-1], (name, "aad-", len(aad)))
    for i, x in flips(ct):
        refuse(f"byte {i} of {len(ct)} changed", c, x, aad, (name, "ct", len(ct), i))
    b = cr.FORMATS[name]["block"]
    refuse("last block removed", c, ct[:-b], aad, (name, "ct-", len(ct)))
    ctx.eq("untouched-still-opens", c.bytes_decrypt(ct, aad=aad), msg, f"{name} big context", shape=(name, len(msg), "big"))
