"""C06: streams release only authentic data, in order, and stay usable."""
import aiootp

from vmon import crypto as cr
from vmon.core import scenario
from vmon.streams import Dec, emit


def flip(rng, data, lo, hi):
    i = rng.randrange(lo, hi)
    out = bytearray(data)
    out[i] ^= 1 << rng.randrange(8)
    return bytes(out)


class World:
    """One message under attack and material from related streams."""

    def __init__(self, ctx, name):
        self.ctx, self.rng, self.name = ctx, ctx.rng, name
        rng = ctx.rng
        self.f = cr.FORMATS[name]
        self.key, self.aad, self.salt = cr.rkey(rng), cr.raad(rng), rng.randbytes(8)
        n = cr.length(rng, name)
        self.msg = rng.randbytes(max(n, 1)) if rng.random() < 0.8 else cr.message(rng, n)

    async def make(self, is_async):
        c = cr.new_cipher(self.name, self.key)
        self.enc, self.pk = await emit(c, is_async, self.msg, salt=self.salt, aad=self.aad)
        # same key, salt, AAD and message, another IV
        _, self.twin = await emit(c, not is_async, self.msg, salt=self.salt, aad=self.aad)
        _, self.foreign = await emit(cr.new_cipher(self.name, self.rng.randbytes(64)), is_async, self.msg, salt=self.salt, aad=self.aad)
        self.tag = self.enc.shmac.result

    def hostile(self, i):
        """A packet that is not pk[i], with a label."""
        rng, pk, pid = self.rng, self.pk, self.f["pid"]
        right = pk[i] if i < len(pk) else None
        kinds = ["random", "twin", "foreign", "zero"]
        if right is not None:
            kinds += ["flip-id", "flip-block", "flip-id", "flip-block", "twin-id", "twin-block", "edge-id", "edge-block"]
        if i:
            kinds += ["replay-last", "replay-any", "replay-any", "old-block", "old-id"] if right is not None else ["replay-last", "replay-any"]
        if i + 1 < len(pk):
            kinds += ["skip", "skip", "swap"]
        while True:
            k = rng.choice(kinds)
            size = len(pk[0])
            j = rng.randrange(i) if i else 0
            p = {
                "random": lambda: rng.randbytes(size),
                "zero": lambda: bytes(size),
                "twin": lambda: self.twin[min(i, len(self.twin) - 1)],
                "foreign": lambda: self.foreign[min(i, len(self.foreign) - 1)],
                "flip-id": lambda: flip(rng, right, 0, pid),
                "flip-block": lambda: flip(rng, right, pid, size),
                "edge-id": lambda: flip(rng, right, *rng.choice(((0, 1), (pid - 1, pid)))),
                "edge-block": lambda: flip(rng, right, *rng.choice(((pid, pid + 1), (size - 1, size)))),
                "twin-id": lambda: self.twin[min(i, len(self.twin) - 1)][:pid] + right[pid:],
                "twin-block": lambda: right[:pid] + self.twin[min(i, len(self.twin) - 1)][pid:],
                "replay-last": lambda: pk[i - 1],
                "replay-any": lambda: pk[j],
                "old-block": lambda: right[:pid] + pk[j][pid:],
                "old-id": lambda: pk[j][:pid] + right[pid:],
                "skip": lambda: pk[rng.randrange(i + 1, len(pk))],
                "swap": lambda: pk[i + 1][:pid] + right[pid:],
            }[k]()
            if right is None or p != right:
                return k, p


async def feed(ctx, w, d, what, good, bad, tail):
    """Feeds good genuine packets, then a hostile one, then more, in one call."""
    data = b"".join(good) + bad + tail
    try:
        await d.buffer(data)
    except d.s.InvalidBlockID as e:
        state = getattr(e, "failure_state", None)
        ok = state is not None and state.block_id + state.block == bad and state.buffer() == tail
        ctx.check("failure-state", ok, lambda: f"{what()}: failure state does not describe the refused packet")
        return True
    except Exception as e:
        ctx.check("hostile-refused", False, f"{what()}: raised {e!r} instead of the block-ID error")
        return True
    return False


@scenario(quick=4000, thorough=40000, required=("hostile-refused", "genuine-accepted", "authentic-prefix", "complete-message",
                                               "final-tag", "wrong-tag", "closed", "truncated-tag"))
def attacks(ctx):
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    is_async = bool((ctx.index // 2) % 2)

    async def body():
        w = World(ctx, name)
        await w.make(rng.random() < 0.5)
        c = cr.new_cipher(name, w.key)
        d = await Dec.new(c, is_async, salt=w.salt, aad=w.aad, iv=w.enc.iv)
        Closed = aiootp._exceptions.CipherStreamIsClosed
        out, trace, i = [], [], 0
        what = lambda: f"{name} {'async' if is_async else 'sync'}, {len(w.pk)} packets, history {trace}"

        def prefix():
            got = b"".join(out)
            ctx.check("authentic-prefix", w.msg.startswith(got) if got else True,
                      lambda: f"{what()}: yielded {got[-40:].hex()} which is not next in the message", shape=(name, tuple(trace)))

        cut = rng.random() < 0.3
        stop = rng.randrange(1, len(w.pk) + 1) if cut else len(w.pk)
        rate = rng.choice((0.3, 0.6, 0.9))
        while i < stop:
            if rng.random() < rate:
                n = rng.choice((0, 0, 0, 1, 2))
                n = min(n, stop - i)
                kind, bad = w.hostile(i + n)
                tail = b"".join(rng.choice(w.pk) for _ in range(rng.choice((0, 0, 1, 2))))
                trace.append((n, kind, len(tail) // len(bad)))
                refused = await feed(ctx, w, d, what, w.pk[i : i + n], bad, tail)
                ctx.check("hostile-refused", refused, lambda: f"{what()}: a {kind} packet was accepted at position {i + n}",
                          shape=(name, is_async, kind, i + n, n), sample=f"{kind} at {i + n}")
                if not refused:
                    return
                i += n
                rate *= 0.8
            elif rng.random() < 0.1:
                bad = rng.choice((b"", w.pk[i][:-1], w.pk[i] + b"\0", w.pk[i][:5]))
                trace.append(("odd", len(bad)))
                try:
                    await d.buffer(bad)
                    ctx.check("odd-size-refused", False, what)
                    return
                except Exception:
                    ctx.check("odd-size-refused", True, shape=(name, len(bad)))
            else:
                n = min(rng.choice((1, 1, 2, 3)), stop - i)
                trace.append(n)
                try:
                    await d.buffer(b"".join(w.pk[i : i + n]))
                    ctx.check("genuine-accepted", True, shape=(name, is_async, tuple(trace[-4:])))
                except Exception as e:
                    ctx.check("genuine-accepted", False, f"{what()}: the right packet {i} was refused: {e!r}")
                    return
                i += n
            if rng.random() < 0.5 and i:
                await d.drain(out, limit=rng.choice((None, 1, 2)))
                prefix()
        err = None
        try:
            await d.drain(out, final=True)
        except Exception as e:
            err = e
        prefix()
        if i == len(w.pk):
            ctx.check("complete-message", err is None and b"".join(out) == w.msg,
                      lambda: f"{what()}: complete stream gave {err!r} {b''.join(out)[:40].hex()}", shape=(name, tuple(trace)))
            try:
                await d.test(w.tag)
                ctx.check("final-tag", True, shape=(name, is_async, len(trace)))
            except Exception as e:
                ctx.check("final-tag", False, f"{what()}: final test of the complete stream failed: {e!r}")
            bad_tags = [flip(rng, w.tag, 0, 1), flip(rng, w.tag, len(w.tag) - 1, len(w.tag)), flip(rng, w.tag, 0, len(w.tag)),
                        w.tag[:-1], w.tag + b"\0", b"", w.tag[:16]]
            mon = "wrong-tag"
        else:
            bad_tags, mon = [w.tag], "truncated-tag"
        for t in bad_tags:
            try:
                await d.test(t)
                ctx.check(mon, False, lambda: f"{what()}: final test passed for tag {t.hex()} "
                          f"({'complete' if i == len(w.pk) else f'only {i} packets received'})")
            except Exception as e:
                ctx.check(mon, True, shape=(name, is_async, i - len(w.pk), len(t)))
        before = len(out)
        for _ in range(rng.randrange(1, 3)):
            op = rng.choice(("feed", "final"))
            try:
                if op == "feed":
                    await d.buffer(rng.choice((w.pk[min(i, len(w.pk) - 1)], w.pk[0], w.hostile(i)[1])))
                else:
                    await d.drain(out, final=True)
                ctx.check("closed", False, lambda: f"{what()}: {op} on a closed stream was accepted")
            except Closed:
                ctx.check("closed", True, shape=(name, is_async, op))
            except Exception as e:
                ctx.check("closed", False, f"{what()}: {op} on a closed stream raised {e!r}")
        ctx.check("closed", len(out) == before, lambda: f"{what()}: a closed stream yielded more")

    ctx.run(body(), noise=rng.choice((0, 0, 0.2)))


@scenario(quick=160, thorough=2500, required=("context-refused", "result-before-end"))
def contexts(ctx):
    """The same packets under another key, salt, IV, AAD or cipher."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]

    async def body():
        w = World(ctx, name)
        await w.make(rng.random() < 0.5)
        base = dict(key=w.key, salt=w.salt, aad=w.aad, iv=w.enc.iv)
        for is_async in (False, True):
            for field in base:
                b = dict(base)
                v = b[field]
                muts = [flip(rng, v, 0, len(v)) if v else b"x"]
                if field == "aad":
                    muts += [v + b"\0", v[:-1] if v else b"\0"]
                if field == "key":
                    muts += [v + b"\0"]
                if field in ("salt", "iv"):
                    muts += [flip(rng, v, 0, 1), flip(rng, v, len(v) - 1, len(v)), b["salt"] if field == "iv" else b["iv"]]
                for m in muts:
                    if m == v:
                        continue
                    b[field] = m
                    d = await Dec.new(cr.new_cipher(name, b["key"]), is_async, salt=b["salt"], aad=b["aad"], iv=b["iv"])
                    await ctx.araises("context-refused", d.s.InvalidBlockID, d.buffer(w.pk[0]),
                                      what=f"{name} first packet under another {field}", shape=(name, is_async, field, len(m)))
            # reading the result before the end is refused
            d = await Dec.new(cr.new_cipher(name, w.key), is_async, salt=w.salt, aad=w.aad, iv=w.enc.iv)
            await d.buffer(w.pk[0])
            try:
                await d.test(w.tag)
                ctx.check("result-before-end", False, f"{name}: final test passed before the stream was finalised")
            except Exception:
                ctx.check("result-before-end", True, shape=(name, is_async, len(w.pk)))

    ctx.run(body())


@scenario(quick=200, thorough=3000, required=("encrypt-closed",))
def closing_encryption(ctx):
    """A finalised encryption stream accepts nothing and is not finalised twice."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    is_async = bool((ctx.index // 2) % 2)
    Closed = aiootp._exceptions.CipherStreamIsClosed
    from vmon.streams import Enc

    async def body():
        c = cr.new_cipher(name, cr.rkey(rng))
        e = await Enc.new(c, is_async)
        msg = cr.message(rng, cr.length(rng, name))
        await e.buffer(msg)
        out = []
        if rng.random() < 0.5:
            await e.drain(out)
        await e.drain(out, final=True)
        tag, n = e.s.shmac.result, len(out)
        for _ in range(3):
            op = rng.choice(("feed", "feed-empty", "final", "iter"))
            err = None
            try:
                if op.startswith("feed"):
                    await e.buffer(b"" if "empty" in op else b"more")
                else:
                    await e.drain(out, final=op == "final")
            except Closed:
                err = "closed"
            except Exception as x:
                err = repr(x)
            ctx.check("encrypt-closed", (err == "closed" or op == "iter") and len(out) == n and e.s.shmac.result == tag,
                      lambda: f"{name}: {op} after closing: {err}, {len(out) - n} more packets", shape=(name, is_async, op, len(msg)))

    ctx.run(body())
