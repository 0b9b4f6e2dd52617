"""C23: signatures and package summaries."""
import copy
import hashlib
import json

import aiootp

from vmon import crypto as cr
from vmon.core import scenario, show

E = aiootp.Ed25519
S, V = aiootp.PackageSigner, aiootp.PackageVerifier


async def do(how, obj, name, *a, **kw):
    return getattr(obj, name)(*a, **kw) if how == "sync" else await getattr(obj, "a" + name)(*a, **kw)


@scenario(quick=160, thorough=3000, required=("verifies", "refused"))
def signatures(ctx):
    rng = ctx.rng

    async def body():
        k, other = E().generate(), await E().agenerate()
        data = rng.randbytes(rng.choice((0, 1, 32, 64, rng.randrange(300), cr.size(rng))))
        how = rng.choice(("sync", "async"))
        sig = await do(how, k, "sign", data)
        public = E().import_public_key(k.public_bytes)
        again = E().import_secret_key(k.secret_bytes)
        ctx.check("verifies", len(sig) == 64 and await do(how, again, "sign", data) == sig, "signing is not reproducible", shape=(how, len(data)))
        for back in ("sync", "async"):
            for who, kw in ((k, {}), (public, {}), (other, dict(public_key=k.public_bytes)), (other, dict(public_key=k.public_key)), (E(), dict(public_key=k.public_bytes))):
                ctx.check("verifies", await do(back, who, "verify", sig, data, **kw) is None, shape=(how, back, tuple(kw), len(data)))

            async def refuse(what, who, sig, data, exc=E.InvalidSignature, **kw):
                try:
                    await do(back, who, "verify", sig, data, **kw)
                except exc:
                    ctx.check("refused", True, shape=(what, back))
                else:
                    ctx.check("refused", False, lambda: f"{back}: {what}: accepted for {show(data)}", shape=(what, back))

            await refuse("another key", other, sig, data)
            await refuse("another key given", k, sig, data, public_key=other.public_bytes)
            await refuse("another key object given", public, sig, data, public_key=other.public_key)
            await refuse("longer data", k, sig, data + b"\0")
            await refuse("other data", public, sig, rng.randbytes(len(data) + 1))
            if data:
                i = rng.choice((0, len(data) - 1, rng.randrange(len(data))))
                await refuse("altered data", public, sig, data[:i] + bytes([data[i] ^ 1 << rng.randrange(8)]) + data[i + 1 :])
                await refuse("shorter data", public, sig, data[:-1])
            for i in {0, 31, 32, 63, rng.randrange(64), rng.randrange(64)}:
                await refuse("altered signature", public, sig[:i] + bytes([sig[i] ^ 1 << rng.randrange(8)]) + sig[i + 1 :], data)
            for what, x in (("cut", sig[:-1]), ("extended", sig + b"\0"), ("empty", b""), ("zero", bytes(64)), ("halves exchanged", sig[32:] + sig[:32])):
                await refuse(f"{what} signature", public, x, data, exc=Exception)
            # the same point, the other representation of the scalar
            s = int.from_bytes(sig[32:], "little") + 2**252 + 27742317777372353535851937790883648493
            if s < 2**256:
                await refuse("unreduced signature", public, sig[:32] + s.to_bytes(32, "little"), data)
            await refuse("malformed key given", k, sig, data, exc=Exception, public_key=b"\1" * 31)

    ctx.run(body())


NAMES = ("a.py", "pkg/b.py", "pkg/sub/c.txt", "LICENSE", "weiß.md", "d e.py", "z.bin", "A.py", "pkg/b.pyi", "__init__.py")
VALUES = (1, 0, True, "x", "", "1", None, 1.5, [1, 2], [2, 1], {"k": 1}, {"k": "1"}, "é", 10**20, False, [[]], {})


class World:
    """A signer with the files it summarises, and what it should answer."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.root, self.db = ctx.mkdir("src"), ctx.mkdir("db")
        self.who = dict(username=b"u", passphrase=b"passphrase 1234", path=self.db, mb=1, cpu=1, cores=1)
        self.saved = self.creds = self.key = None
        self.files, self.signed, self.trace = {}, {}, []
        self.scope = {}

    def open(self):
        rng = self.rng
        extra = {n: rng.choice(VALUES) for n in rng.sample(("author", "branch", "build", "z", "A"), rng.randrange(3))}
        self.scope = dict(extra, package="pkg", version=rng.choice(("1.0", "1.1")), date=rng.choice((1, 19000, 20000)))
        self.signer = S(**self.scope).connect_to_secure_database(**self.who)
        self.files = {}
        # what was never saved is gone
        self.creds, self.key, self.signed = copy.deepcopy(self.saved) if self.saved else ({}, None, {})

    def state(self):
        return json.dumps([sorted(self.scope.items()), sorted(self.files.items()), sorted(self.creds.items()), self.key and self.key.public_bytes.hex()])

    def write(self, name, data):
        p = self.root / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(data)

    def step(self, op):
        rng, s = self.rng, self.signer
        self.trace.append(op)
        if op == "file":
            name = rng.choice(NAMES)
            data = rng.choice((b"", b"same", rng.randbytes(rng.randrange(200)), rng.randbytes(cr.size(rng))))
            self.write(name, data)
            s.add_file(name, data)
            self.files[name] = hashlib.sha384(data).hexdigest()
        elif op == "unlist" and self.files:
            name = rng.choice(sorted(self.files))
            del s.files[name], self.files[name]
        elif op == "scope":
            new = {rng.choice(("author", "branch", "extra")): rng.choice(VALUES)}
            s.update_scope(**new)
            self.scope.update(new)
        elif op == "version":
            v = rng.choice(("1.0", "1.1", "1.10", "2.0"))
            s.update_scope(version=v)
            self.scope["version"] = v
        elif op == "credentials":
            new = {rng.choice(("name", "x25519", "z")): rng.choice(VALUES)}
            s.update_public_credentials(**new)
            self.creds.update(new)
        elif op == "key":
            self.key = S.generate_signing_key()
            s.update_signing_key(rng.choice((self.key, self.key.secret_bytes, self.key.secret_key)))
        elif op == "sign":
            if self.key is None:
                self.refused("sign", lambda: s.sign_package())
            else:
                s.sign_package()
                self.signed[self.scope["version"]] = self.state()
                self.saved = copy.deepcopy((self.creds, None, self.signed))
                self.saved = (self.saved[0], self.key, self.saved[2])
        elif op == "reopen":
            self.open()
        return self.summary()

    def refused(self, what, fn):
        try:
            got = fn()
        except Exception:
            self.ctx.check("stale-refused", True, shape=(what, *self.trace[-3:]))
            return None
        self.ctx.check("stale-refused", False, lambda: f"{what} succeeded after {self.trace[-8:]}: {show(got)}", shape=(what, *self.trace[-3:]))
        return got

    def summary(self):
        """The signer summarises exactly what it signed last for this version."""
        if self.key is not None and self.signed.get(self.scope["version"]) == self.state():
            try:
                s = self.signer.summarize()
            except Exception as e:
                self.ctx.check("summarised", False, lambda: f"current signature refused after {self.trace[-8:]}: {e!r}", shape=tuple(self.trace[-3:]))
                return None
            ok = s["checksums"] == self.files and s["scope"] == self.scope and s["public_credentials"] == self.creds and s["signing_key"] == self.key.public_bytes.hex()
            self.ctx.check("summarised", ok, lambda: f"summary {show(s, 400)} after {self.trace[-8:]}", shape=tuple(self.trace[-3:]))
            return s
        return self.refused("summarize", lambda: self.signer.summarize())


def verifies(key, summary, root=None):
    v = V(key, path=root) if root is not None else V(key, verify_files=False)
    v.verify_summary(summary)


def leaves(x, path=()):
    """All places of a nested JSON value."""
    yield path, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, (*path, k))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, (*path, i))


def with_change(summary, path, change):
    new = copy.deepcopy(summary)
    at = new
    for p in path[:-1]:
        at = at[p]
    change(at, path[-1])
    return new


def alterations(rng, summary):
    other = lambda v: rng.choice([x for x in VALUES if json.dumps(x) != json.dumps(v)])  # noqa: E731
    hexed = lambda s: s[:-1] + ("0" if s[-1] != "0" else "1") if s else "00"  # noqa: E731
    for path, v in leaves(summary):
        if not path:
            continue
        name = ".".join(map(str, path[:1]))

        def put(value):
            return lambda at, k: at.__setitem__(k, value)

        yield f"{name} value", with_change(summary, path, put(other(v)))
        if isinstance(v, str):
            i = rng.randrange(len(v) + 1)
            yield f"{name} text", with_change(summary, path, put(v[:i] + "x" + v[i:]))
            if len(v) > 60:
                j = rng.randrange(len(v))
                yield f"{name} digit", with_change(summary, path, put(v[:j] + ("0" if v[j] != "0" else "1") + v[j + 1 :]))
                yield f"{name} last digit", with_change(summary, path, put(hexed(v)))
                yield f"{name} short", with_change(summary, path, put(v[:-2]))
        if isinstance(v, dict):
            yield f"{name} added", with_change(summary, path, lambda at, k: at[k].__setitem__("added", "00" * 48))
            if len(v) > 1:
                a, b = rng.sample(sorted(v), 2)
                if json.dumps(v[a]) != json.dumps(v[b]):
                    yield f"{name} exchanged", with_change(summary, path, lambda at, k: at[k].update({a: v[b], b: v[a]}))
        yield f"{name} removed", with_change(summary, path, lambda at, k: at.pop(k))
        if isinstance(path[-1], str):
            def rename(at, k):
                at[k + "x"] = at.pop(k)
            yield f"{name} renamed", with_change(summary, path, rename)
    yield "extra field", {**summary, "extra": 1}


@scenario(quick=48, thorough=600, required=("summary-verifies", "altered-refused", "file-refused"))
def summaries(ctx):
    """A signed summary, its alterations, and alterations of its files."""
    rng = ctx.rng
    w = World(ctx)
    w.open()
    for op in ["key", *["file"] * rng.randrange(0, 6), *["scope"] * rng.randrange(3), *["credentials"] * rng.randrange(3)]:
        w.step(op)
    summary = w.step("sign")
    if summary is None:
        return
    key, root = w.key.public_bytes, w.root
    shared = V(key, path=root)

    def accept(what, fn):
        try:
            fn()
        except Exception as e:
            ctx.check("summary-verifies", False, lambda: f"{what}: {e!r}", shape=what)
        else:
            ctx.check("summary-verifies", True, shape=(what, len(w.files)))

    text = json.dumps(summary)
    for k in (key, E().import_public_key(key), w.key.public_key):
        for form in (summary, text, text.encode(), json.loads(text), json.dumps(summary, indent=4)):
            accept("genuine", lambda: verifies(k, form, root))
            accept("genuine, without files", lambda: verifies(k, form))
    accept("genuine, path as text", lambda: V(key, path=str(root)).verify_summary(summary))

    def refuse(monitor, what, fn):
        try:
            fn()
        except Exception:
            ctx.check(monitor, True, shape=(what, len(w.files)))
        else:
            ctx.check(monitor, False, lambda: f"{what}: verified", shape=what)

    kept = copy.deepcopy(summary)
    for what, bad in alterations(rng, summary):
        form = bad if rng.random() < 0.5 else json.dumps(bad)
        refuse("altered-refused", what, lambda: verifies(key, form))
        refuse("altered-refused", what, lambda: shared.verify_summary(form))
        # whoever lacks the key can still recompute the checksum
        if {"checksum", "signature", "signing_key"} <= set(bad):
            rest = {k: v for k, v in bad.items() if k not in ("checksum", "signature")}
            forged = {**bad, "checksum": hashlib.sha384(json.dumps(rest).encode()).hexdigest()}
            if forged != summary:
                refuse("altered-refused", f"{what}, checksum recomputed", lambda: verifies(key, forged, root))
                refuse("altered-refused", f"{what}, checksum recomputed", lambda: verifies(key, forged))
                thief = E().generate()
                forged["signature"] = thief.sign(bytes.fromhex(forged["checksum"])).hex()
                refuse("altered-refused", f"{what}, signed by another key", lambda: verifies(key, forged))
    accept("genuine after refusals", lambda: shared.verify_summary(summary))
    ctx.check("summary-verifies", summary == kept, "verification changed the summary", shape="unchanged")
    thief = E().generate()
    refuse("altered-refused", "checked against another key", lambda: verifies(thief.public_bytes, summary, root))
    rest = {**{k: v for k, v in summary.items() if k not in ("checksum", "signature")}, "signing_key": thief.public_bytes.hex()}
    check = hashlib.sha384(json.dumps(rest).encode()).digest()
    refuse("altered-refused", "another signer's summary", lambda: verifies(key, {"checksum": check.hex(), **rest, "signature": thief.sign(check).hex()}, root))
    for name in rng.sample(sorted(w.files), min(3, len(w.files))):
        p = root / name
        data = p.read_bytes()
        changes = [("extended", data + b"\0"), ("replaced", data + b"x")]
        if data:
            i = rng.choice((0, len(data) - 1, rng.randrange(len(data))))
            changes += [("cut", data[:-1]), ("one bit", data[:i] + bytes([data[i] ^ 1 << rng.randrange(8)]) + data[i + 1 :]), ("emptied", b"")]
        for what, new in changes:
            p.write_bytes(new)
            refuse("file-refused", what, lambda: verifies(key, summary, root))
            refuse("file-refused", what, lambda: shared.verify_summary(text))
            accept("changed file, files not checked", lambda: verifies(key, summary))
        p.unlink()
        refuse("file-refused", "missing", lambda: shared.verify_summary(summary))
        p.write_bytes(data)
        w.write("not listed", rng.randbytes(9))
        accept("file restored", lambda: shared.verify_summary(summary))
    ctx.check("file-refused", True, shape="done")


@scenario(quick=64, thorough=800, required=("summarised", "stale-refused"))
def histories(ctx):
    """Updates, signing and reopening in random order."""
    rng = ctx.rng
    w = World(ctx)
    w.open()
    ops = ("file", "file", "unlist", "scope", "version", "credentials", "key", "sign", "sign", "sign", "reopen")
    for i in range(rng.randrange(8, 24)):
        op = rng.choice(ops)
        if i == 0 and rng.random() < 0.8:
            op = "key"
        if op == "reopen" and rng.random() < 0.6:
            op = "sign"
        s = w.step(op)
        if s is not None and rng.random() < 0.5:
            try:
                verifies(w.key.public_bytes, rng.choice((s, json.dumps(s))), w.root)
                ctx.check("summary-verifies", True, shape=tuple(w.trace[-2:]))
            except Exception as e:
                ctx.check("summary-verifies", False, lambda: f"after {w.trace[-8:]}: {e!r}")
