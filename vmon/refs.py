"""
Independent reference computations of the package's encodings.
"""
import hashlib


class Malformed(Exception):
    pass


def pack(*items, blocksize=1, pad=b"\0", width=8):
    out = bytearray([width])
    items = (blocksize.to_bytes(width, "big"), pad, *items)
    out += len(items).to_bytes(width, "big")
    for x in items:
        out += len(x).to_bytes(width, "big") + x
    while len(out) % blocksize:
        out += pad * (-len(out) % blocksize)
    return bytes(out)


def unpack(data):
    """The items of a packing, which may have more padding than it needs."""
    def take(n):
        nonlocal at
        if n > len(data) - at:
            raise Malformed("too short")
        at += n
        return data[at - n : at]

    at = 0
    width = take(1)[0]
    count = int.from_bytes(take(width), "big")
    if count * max(1, width) > len(data):
        raise Malformed("more items than bytes")
    items = [take(int.from_bytes(take(width), "big")) for _ in range(count)]
    if count < 2:
        raise Malformed("no metadata")
    blocksize, pad = int.from_bytes(items[0], "big"), items[1]
    if not blocksize or len(data) % blocksize:
        raise Malformed("not whole blocks")
    if len(pad) != 1 or data[at:].strip(pad):
        raise Malformed("not padding")
    return items[2:]


def encode_key(key, blocksize, pad=b"\0"):
    out = key + len(key).to_bytes(8, "little") + blocksize.to_bytes(8, "little") + pad
    return out + pad * (-len(out) % blocksize)


def hash_bytes(*data, hasher=hashlib.sha3_512, pad=b"\0", size=None, key=None):
    h = hasher()
    if key is not None:
        h.update(encode_key(key, h.block_size, pad))
    h.update(pack((size or h.digest_size).to_bytes(8, "big"), *data, blocksize=h.block_size, pad=pad))
    return h.digest(size) if size else h.digest()


def constant(value, size=8, *, domain=b"", aad, pad=b"\0"):
    if isinstance(value, str):
        value = value.encode()
    return hash_bytes(b"domain_constant_encoder", domain, aad, value, hasher=hashlib.shake_128, size=size, pad=pad)


class KDF:
    """The derivation chain of one key object, kept as the list of what was
    absorbed."""

    def __init__(self, salt, kdf_domain, domain, *data, key):
        self.absorbed = [salt, hash_bytes(kdf_domain, domain, *data, key=key + domain, size=168, hasher=hashlib.shake_128)]

    def copy(self):
        new = object.__new__(KDF)
        new.absorbed = list(self.absorbed)
        return new

    def update(self, *data):
        self.absorbed.append(pack(*data, blocksize=168))

    def derive(self, name, *data, size=None, aad=b""):
        hasher = getattr(hashlib, name)
        h = hasher()
        key = hashlib.shake_128(b"".join(self.absorbed)).digest(h.block_size)
        return hash_bytes(aad, *data, size=size if name.startswith("shake") else None, key=key, hasher=hasher)
