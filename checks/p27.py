"""P27: encrypted data is only returned decrypted with the right key and level."""
import contextlib
import copy
import hashlib
import os

from symx import core, world
from symx.core import sym_and

from checks import ropes
from checks.ropes import BadData, Cache, IdealCipher, blob, opened, same, shape, storage

from litdata import StreamingDataset  # noqa: E402
from litdata.streaming.item_loader import TokensLoader  # noqa: E402
import litdata.utilities.encryption as m_enc  # noqa: E402

ID = "P27"
REACH = ["right", "reloaded", "refused", "two-chunks", "compressed", "chunk-level", "sample-level", "tokens", "plain"]
STUBS = ["content of the samples: arbitrary bytes (uninterpreted blobs) of symbolic length; files hold symbolic bytes",
         "Fernet: an ideal cipher (symbolic mode): any output length, only the same key decrypts; key derivation: any injective "
         "function of salt and password; the real ones in replays",
         "zstd: an ideal invertible function; numpy on sizes and offsets, json, reader thread: as P08"]
OUTSIDE = "the strength of the ciphers (P31); RSA's own limits on the length of a sample"
READERS = ["same", "reloaded", "wrong-password", "other-key", "other-level", "other-algorithm", "none"]


def BOUNDS(tier):
    q = tier == "quick"
    return {"samples": f"1..{3 if q else 4} of one or two leaves of any length in [0, 10**6]", "levels": "sample, chunk",
            "samples per chunk": "1, 2, 3", "reader": READERS, "reads": "three reads at any positions, by the cache or the dataset",
            "compression": "none, zstd", "loader": "structures; tokens (one sample of any length)"}


def tasks(tier):
    q = tier == "quick"
    out = []
    for level in ("sample", "chunk"):
        for n in range(1, 4 if q else 5):
            for cs in sorted({1, 2, n}):
                if cs > n:
                    continue
                for comp in (False, True):
                    k = 2 if n < 3 else 1
                    out.append({"name": f"{level}-n{n}-cs{cs}-{'zip' if comp else 'raw'}", "kind": "tree", "level": level, "n": n,
                                "cs": cs, "zip": comp, "k": k})
        out.append({"name": f"tokens-{level}", "kind": "tokens", "level": level})
    out.append({"name": "plain", "kind": "plain"})
    for t in out:
        t["opts"] = {"validate_cap": 3}
    return out


def harness(task):
    return {"tree": h_tree, "tokens": h_tokens, "plain": h_plain}[task["kind"]].__get__(task)


class Kdf:
    def __init__(self, salt=b"", **k):
        self.salt = salt

    def derive(self, password):
        return hashlib.sha256(self.salt + b"|" + password).digest()


@contextlib.contextmanager
def ciphers(ctx):
    """The ideal primitives, in symbolic mode."""
    if not ctx.symbolic:
        yield
        return
    R = ropes.rope()
    n = [0]

    class Ideal:
        def __init__(self, key):
            self.key = bytes(key)

        def encrypt(self, data):
            n[0] += 1
            return R.fresh(f"enc{n[0]}", ctx.int(f"enclen{n[0]}", 1, 10 ** 8), ("enc", R.Rope.of(data), self.key))

        def decrypt(self, data):
            return opened(data, "enc", self.key)

    old = m_enc.Fernet, m_enc.PBKDF2HMAC
    m_enc.Fernet, m_enc.PBKDF2HMAC = Ideal, Kdf
    try:
        yield
    finally:
        m_enc.Fernet, m_enc.PBKDF2HMAC = old


def reader_key(kind, enc, ctx, d):
    """The encryption object given to the reader, and whether it must be able to read."""
    if kind == "same":
        return enc, True
    if kind == "none":
        return None, False
    if kind == "other-key":
        return m_enc.FernetEncryption("secret", enc.level), False
    if kind == "other-algorithm":
        return IdealCipher(ctx, "secret", enc.level, 10 ** 6, "rsa"), False
    p = os.path.join(d, "key.json")
    enc.save(p)
    e = m_enc.FernetEncryption.load(p, "secret" if kind != "wrong-password" else "Secret")
    if kind == "other-level":
        e.level = "chunk" if enc.level == "sample" else "sample"
    return e, kind == "reloaded"


def refused(f):
    """The exception the read ended with, or None."""
    try:
        f()
    except Exception as e:
        return e
    return None


def h_tree(task, ctx):
    n, k = task["n"], task["k"]
    with storage(ctx, False, 10 ** 6 if task["zip"] else None) as d, ciphers(ctx):
        leaves = [[blob(ctx, f"len{i}_{j}", 0, 10 ** 6) for j in range(k)] for i in range(n)]
        comp = "zstd" if task["zip"] else None
        enc = m_enc.FernetEncryption("secret", task["level"])
        kind = ctx.pick("reader", READERS)
        c = Cache(d, chunk_size=task["cs"], compression=comp, encryption=enc)
        for i in range(n):
            c[i] = shape("one" if k == 1 else "list", leaves[i])
        c.done()
        c.merge()
        key, ok = reader_key(kind, enc, ctx, d)
        if ctx.pick("dataset", [False, True]):
            c = StreamingDataset(d, encryption=key)
        else:
            c = Cache(d, chunk_size=task["cs"], compression=comp, encryption=key)
        a = ctx.pick("first", list(range(n)))
        b = ctx.pick("second", list(range(n))) if ok else a
        if not ok:
            e = refused(lambda: c[a])
            ctx.check(e is not None, f"a read with {kind} returned data")
            ctx.reach("refused")
            return
        for i in (a, b, a):
            ctx.check(same(c[i], shape("one" if k == 1 else "list", leaves[i])), "the sample read is not the sample written")
        ctx.reach("right", kind == "same")
        ctx.reach("reloaded", kind == "reloaded")
        ctx.reach("two-chunks", n > task["cs"])
        ctx.reach("compressed", task["zip"])
        ctx.reach(task["level"] + "-level")


def h_tokens(task, ctx):
    """Tokens: the loader has no decryption: writing or reading must be refused."""
    import torch

    n = int(ctx.int("tokens", 0, 6))
    with storage(ctx, True) as d:
        enc = IdealCipher(ctx, "secret", task["level"], 10 ** 6)
        kind = ctx.pick("reader", ["same", "none"])
        toks = torch.arange(n)
        B = ctx.pick("block", [1, 2])

        def use():
            c = Cache(d, chunk_size=100, encryption=enc, item_loader=TokensLoader())
            c[0] = toks
            c.done()
            c.merge()
            got.extend(StreamingDataset(d, item_loader=TokensLoader(block_size=B), encryption=enc if kind == "same" else None))

        got = []
        e = refused(use)
        if e is None:
            ctx.check(kind == "same" and torch.equal(torch.cat(got) if got else torch.arange(0), toks[: n // B * B]),
                      "encrypted tokens were returned as they are stored")
        ctx.reach("tokens")


def h_plain(task, ctx):
    """Data that is not encrypted stays readable, whatever is given."""
    with storage(ctx) as d, ciphers(ctx):
        v = [blob(ctx, f"len{i}", 0, 10 ** 6) for i in range(2)]
        c = Cache(d, chunk_size=2)
        for i in range(2):
            c[i] = v[i]
        c.done()
        c.merge()
        c = Cache(d, chunk_size=2, encryption=m_enc.FernetEncryption("x", "sample") if ctx.pick("given", [False, True]) else None)
        i = ctx.pick("first", [0, 1])
        ctx.check(same(c[i], v[i]), "the sample read is not the sample written")
        ctx.reach("plain")
