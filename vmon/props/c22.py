"""C22: key exchanges."""
import asyncio

from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey, X25519PublicKey

import aiootp

from vmon import refs
from vmon.core import scenario, show

X = aiootp.X25519
D = aiootp.Domains
SALT = refs.constant(b"domain_kdf_salt", 168, aad=b"")
P25519 = 2**255 - 19
LOW_ORDER = [n.to_bytes(32, "little") for n in (
    0, 1, P25519 - 1, P25519, P25519 + 1,
    325606250916557431795983626356110631294008115727848805560023387167927233504,
    39382357235489614581723060781553021112529911719440698176882885853963445705823,
)]


class _Type(type):
    def __subclasscheck__(cls, other):
        return issubclass(other, X25519PrivateKey)

    def __instancecheck__(cls, obj):
        return isinstance(obj, X25519PrivateKey)


class Recorded(metaclass=_Type):
    """Secret keys as the package makes them, remembered by public key."""
    made = {}

    @classmethod
    def generate(cls):
        k = X25519PrivateKey.generate()
        cls.made[k.public_key().public_bytes_raw()] = k
        return k

    from_private_bytes = staticmethod(X25519PrivateKey.from_private_bytes)


class Key(X):
    __slots__ = ()
    SecretKey = Recorded


async def do(how, obj, name, *a):
    return getattr(obj, name)(*a) if how == "sync" else await getattr(obj, "a" + name)(*a)


def forms(rng, public):
    """A public key as bytes or as an object."""
    return public if rng.random() < 0.6 else X25519PublicKey.from_public_bytes(public)


async def material(rng, kdf):
    a = await kdf.ashake_256(b"x", size=64) if rng.random() < 0.5 else kdf.shake_256(b"x", size=64)
    return a + kdf.sha3_512(b"y")


async def run(rng, protocol, hows, client_id, server_id, relay=lambda what, value: value):
    """One exchange through `relay`; returns both sides' material and what was
    sent."""
    c_how, s_how = hows
    sent = {"server identity": server_id.public_bytes}
    pub = relay("server identity", sent["server identity"])
    server = server_id.dh2_server() if protocol == "dh2" else server_id.dh3_server()
    client = Key.dh2_client() if protocol == "dh2" else client_id.dh3_client()
    out = await do(c_how, client, "send", forms(rng, pub))
    if protocol == "dh2":
        sent["client ephemeral"] = out
        kdf_s = await do(s_how, server, "receive", forms(rng, relay("client ephemeral", out)))
    else:
        sent["client identity"], sent["client ephemeral"] = out
        kdf_s = await do(s_how, server, "receive", forms(rng, relay("client identity", out[0])), forms(rng, relay("client ephemeral", out[1])))
    sent["server ephemeral"] = await do(s_how, server, "send")
    kdf_c = await do(c_how, client, "receive", forms(rng, relay("server ephemeral", sent["server ephemeral"])))
    return await material(rng, kdf_c), await material(rng, kdf_s), sent, client, server


def expected(protocol, sent, client_id, server_id):
    """What an honest exchange derives, from the secret keys."""
    ce, se = Recorded.made[sent["client ephemeral"]], Recorded.made[sent["server ephemeral"]]
    ci, si = client_id.secret_key, server_id.secret_key
    pubs = [sent["client ephemeral"], sent["server identity"], sent["server ephemeral"]]
    key = ce.exchange(si.public_key())
    if protocol == "dh3":
        pubs.insert(0, sent["client identity"])
        key += ci.exchange(se.public_key())
    key += ce.exchange(se.public_key())
    kdf = refs.KDF(SALT, D.KDF, D.DH2 if protocol == "dh2" else D.DH3, *pubs, key=key)
    return kdf.derive("shake_256", b"x", size=64) + kdf.derive("sha3_512", b"y")


MODES = [(p, (c, s)) for p in ("dh2", "dh3") for c in ("sync", "async") for s in ("sync", "async")]
SEEN = {}


@scenario(quick=160, thorough=3000, required=("agree", "runs-differ", "secrets-used"))
def honest(ctx):
    rng = ctx.rng
    protocol, hows = MODES[ctx.index % len(MODES)]

    async def body():
        cid, sid = await Key().agenerate(), Key().generate()
        for _ in range(4):
            c, s, sent, client, server = await run(rng, protocol, hows, cid, sid)
            ctx.check("agree", c == s, lambda: f"{protocol} {hows}: client {show(c)}, server {show(s)}", shape=(protocol, hows))
            ctx.check("secrets-used", c == expected(protocol, sent, cid, sid), lambda: f"{protocol} {hows}: material is not that of its secret keys", shape=(protocol, hows))
            for out in (c, sent["client ephemeral"], sent["server ephemeral"]):
                ctx.check("runs-differ", SEEN.setdefault(out, (ctx.index, _)) == (ctx.index, _), lambda: f"{protocol} {hows}: {show(out)} occurred in an earlier run", shape=(protocol, hows))
            for how, obj, name, a in (("sync", client, "send", (sid.public_bytes,)), ("async", server, "receive", (sent["client ephemeral"],) * (2 if protocol == "dh3" else 1))):
                try:
                    await do(how, obj, name, *a)
                    ctx.check("one-run", False, f"{protocol}: an object was used for a second run", shape=(protocol, name))
                except Exception:
                    ctx.check("one-run", True, shape=(protocol, name))
        a, b = Key().generate(), Key().generate()
        want = a.secret_key.exchange(b.public_key)
        for how in ("sync", "async"):
            for me, peer in ((a, b), (b, a)):
                got = await do(how, me, "exchange", forms(rng, peer.public_bytes))
                ctx.check("agree", got == want, lambda: f"plain {how}: {show(got)}", shape=("plain", how))

    ctx.run(body(), noise=rng.choice((0.0, 0.1)))


@scenario(quick=320, thorough=5000, required=("substituted",))
def substitution(ctx):
    """Every public value is replaced in transit, one at a time."""
    rng = ctx.rng
    protocol, hows = MODES[ctx.index % len(MODES)]
    places = ["server identity", "client ephemeral", "server ephemeral"] + ["client identity"] * (protocol == "dh3")

    async def body():
        cid, sid = Key().generate(), Key().generate()
        *_, before, _, _ = await run(rng, protocol, hows, cid, sid)
        for place in places:
            for what in ("another key", "high bit", "from an earlier run", "identity for ephemeral", "own key", "one bit", "not reduced"):
                changed = False

                def relay(where, value):
                    nonlocal changed
                    if where != place:
                        return value
                    new = {
                        "another key": lambda: Key().generate().public_bytes,
                        "high bit": lambda: value[:31] + bytes([value[31] ^ 0x80]),
                        "from an earlier run": lambda: before[place],
                        "identity for ephemeral": lambda: (sid if "client" in place else cid).public_bytes,
                        "own key": lambda: (cid if "client" in place else sid).public_bytes,
                        "one bit": lambda: (int.from_bytes(value, "little") ^ 1 << rng.randrange(255)).to_bytes(32, "little"),
                        "not reduced": lambda: value,
                    }[what]()
                    n = int.from_bytes(value, "little")
                    if what == "not reduced" and n + P25519 < 2**255:
                        new = (n + P25519).to_bytes(32, "little")
                    changed = new != value
                    return new

                try:
                    c, s, sent, _, _ = await run(rng, protocol, hows, cid, sid, relay)
                except ValueError:
                    ctx.check("substituted", True, shape=(protocol, place, what, "refused"))
                    continue
                if changed:
                    ctx.check("substituted", c != s, lambda: f"{protocol} {hows}: {what} instead of {place}: both sides derived {show(c)}", shape=(protocol, hows, place, what))
        # another identity behind the one the peer expects
        for fake in ("client", "server"):
            other = Key().generate()
            place = f"{fake} identity"
            if place not in places:
                continue
            real = cid if fake == "client" else sid
            c, s, *_ = await run(rng, protocol, hows, other if fake == "client" else cid, other if fake == "server" else sid,
                                 lambda where, value: real.public_bytes if where == place else value)
            ctx.check("substituted", c != s, lambda: f"{protocol}: another key passed for the {place}", shape=(protocol, hows, place, "impostor"))
        a, b, c = Key().generate(), Key().generate(), Key().generate()
        for how in ("sync", "async"):
            ctx.check("substituted", await do(how, a, "exchange", b.public_bytes) != await do(how, b, "exchange", c.public_bytes), "plain: another key gave the same secret", shape=("plain", how))

    ctx.run(body())


@scenario(quick=48, thorough=400, required=("refused",))
def malformed(ctx):
    """Unusable public keys at every place."""
    rng = ctx.rng
    protocol, hows = MODES[ctx.index % len(MODES)]
    bad = [("low order", x) for x in LOW_ORDER] + [("low order", x[:31] + bytes([x[31] | 0x80])) for x in LOW_ORDER[:2]]
    bad += [("length", rng.randbytes(n)) for n in (0, 1, 31, 33, 64)] + [("type", x) for x in ("x" * 32, bytearray(32), None, 7, [1])]

    async def body():
        cid, sid = Key().generate(), Key().generate()

        async def refuse(what, make):
            try:
                got = await make()
            except Exception:
                ctx.check("refused", True, shape=what)
            else:
                ctx.check("refused", False, lambda: f"{what} accepted: {show(got)}", shape=what)

        for kind, value in bad:
            for how in ("sync", "async"):
                await refuse(("plain", kind, how), lambda: do(how, cid, "exchange", value))
                if kind != "low order":
                    await refuse(("import", kind, how), lambda: do(how, Key(), "import_public_key", value))
            for place in ["server identity", "client ephemeral", "server ephemeral"] + ["client identity"] * (protocol == "dh3"):
                # forms() cannot wrap these; hand them over as they are
                class Plain:
                    random = staticmethod(lambda: 0.0)
                await refuse((protocol, kind, place, hows), lambda: run(Plain, protocol, hows, cid, sid, lambda where, v: value if where == place else v))

    ctx.run(body())


@scenario(quick=120, thorough=1500, required=("kept", "imports"))
def key_objects(ctx):
    """Keys are taken once and never replaced; what goes in comes out."""
    rng = ctx.rng

    async def body():
        for cls, secret_type in ((aiootp.X25519, X25519PrivateKey), (aiootp.Ed25519, None)):
            src = cls().generate()
            secret, public = src.secret_bytes, src.public_bytes
            for how in ("sync", "async"):
                k = cls()
                ctx.check("imports", not k.has_secret_key() and not k.has_public_key(), "a new object has a key", shape=(cls.__name__, "new"))
                for junk in (b"", bytes(31), bytes(33), "x" * 32, None, 5):
                    for name in ("import_secret_key", "import_public_key"):
                        try:
                            await do(how, k, name, junk)
                            ctx.check("imports", False, lambda: f"{cls.__name__}.{name} accepted {junk!r}")
                        except Exception:
                            ctx.check("imports", not k.has_secret_key() and not k.has_public_key(), lambda: f"{cls.__name__}: refused {junk!r} left a key behind", shape=(cls.__name__, name, how, repr(junk)))
                kind = rng.choice(("secret bytes", "secret object", "generated", "public bytes", "public object"))
                if kind == "generated":
                    await do(how, k, "generate")
                elif kind.startswith("secret"):
                    await do(how, k, "import_secret_key", secret if kind == "secret bytes" else src.secret_key)
                    ctx.check("imports", k.secret_bytes == secret and k.public_bytes == public, lambda: f"{cls.__name__} {kind}: other bytes came out", shape=(cls.__name__, kind, how))
                else:
                    await do(how, k, "import_public_key", public if kind == "public bytes" else src.public_key)
                    ctx.check("imports", k.public_bytes == public and not k.has_secret_key(), lambda: f"{cls.__name__} {kind}: other bytes came out", shape=(cls.__name__, kind, how))
                before = (k.public_bytes, k.secret_bytes if k.has_secret_key() else None)
                other = cls().generate()
                for h2 in ("sync", "async"):
                    for name, a in (("import_secret_key", (other.secret_bytes,)), ("import_public_key", (other.public_bytes,)), ("generate", ())):
                        try:
                            await do(h2, k, name, *a)
                            ok = False
                        except Exception:
                            ok = True
                        after = (k.public_bytes, k.secret_bytes if k.has_secret_key() else None)
                        ctx.check("kept", ok and before == after, lambda: f"{cls.__name__} with {kind}: {h2} {name} {'refused' if ok else 'accepted'}, key {'kept' if before == after else 'replaced'}",
                                  shape=(cls.__name__, kind, name, h2))
            # racing imports: one wins and stays
            k, keys = cls(), [cls().generate() for _ in range(3)]
            res = await asyncio.gather(*(k.aimport_secret_key(x.secret_bytes) for x in keys), return_exceptions=True)
            won = [x for x, r in zip(keys, res) if not isinstance(r, Exception)]
            ctx.check("kept", len(won) == 1 and k.secret_bytes == won[0].secret_bytes and k.public_bytes == won[0].public_bytes, lambda: f"{cls.__name__}: {len(won)} of 3 racing imports succeeded", shape=(cls.__name__, "race"))

    ctx.run(body(), noise=rng.choice((0.0, 0.3)))
