"""P30: a byte size given as text denotes number times unit, and a malformed one is refused."""
from symx import core, text, world
from symx.core import implies, sym_and, sym_not, sym_or

world.install()

from litdata.streaming.cache import Cache  # noqa: E402
from litdata.streaming.writer import BinaryWriter  # noqa: E402
from litdata.utilities import format as fmt  # noqa: E402

ID = "P30"
REACH = ["valid", "refused", "fraction", "exponent", "underscore", "spaces", "upper case", "negative", "not a number", "whole", "no unit", "writer", "kb", "mb", "gb", "tb"]
STUBS = ["float() of a text: the grammar of Python's float literals; a double's rounding is any relative error up to 2**-53"]
UNITS = {"kb": 10 ** 3, "mb": 10 ** 6, "gb": 10 ** 9, "tb": 10 ** 12}


def BOUNDS(tier):
    q = tier == "quick"
    return {"any text": f"1..{5 if q else 7} characters, each any printable ASCII character or a tab",
            "number and unit": f"numbers of up to {3 if q else 5} characters (digits . + - e E _ and blanks), every unit and letter case",
            "whole numbers": "1..12 digits, every unit and letter case, with and without blanks",
            "two sizes": "whole numbers of up to 7 digits with any two units, below 2**53 bytes"}


OUTSIDE = "texts with letters outside ASCII; numbers of more than 12 digits; the rounding of sizes that are not whole numbers below one byte"


def tasks(tier):
    q = tier == "quick"
    out = [{"name": f"any-{n}", "kind": "any", "n": n} for n in range(1, (6 if q else 8))]
    out += [{"name": f"number-{u}-{n}", "kind": "number", "unit": u, "n": n} for u in UNITS for n in range(1, (4 if q else 6))]
    out += [{"name": f"whole-{n}", "kind": "whole", "n": n} for n in range(1, 13)]
    out += [{"name": f"order-{a}-{b}", "kind": "order", "a": a, "b": b} for a, b in ((1, 1), (1, 4), (2, 3), (3, 7), (4, 5), (5, 5), (7, 7))]
    out.append({"name": "used", "kind": "used"})
    return out


def harness(task):
    return globals()["h_" + task["kind"]].__get__(task)


def cased(ctx, unit):
    cs = [ctx.int(f"case{i}", 0, 1) for i in range(2)]
    cs = [ord(x) - 32 * c for x, c in zip(unit, cs)]
    return text.Text(cs) if ctx.symbolic else "".join(chr(c) for c in cs)


def spelled(ctx, t):
    """(value as numerator and denominator, ratio, whole) of a well-formed size, or None."""
    c = text.Text(text.chars(t)).strip().c
    low = text.Text(c).lower()
    for u, ratio in UNITS.items():
        if low.endswith(u):
            ctx.reach(u)
            n = text.number(c[:-2])
            if n is None or isinstance(n, str):
                ctx.reach("not a number")
                return None
            m, scale, digits = n
            num = m * ratio * 10 ** max(scale, 0)
            return num, 10 ** max(-scale, 0), scale >= 0 and digits + scale <= 12
    return None


def convert(ctx, t):
    try:
        return fmt._convert_bytes_to_int(t)
    except (ValueError, OverflowError):
        return None


def judge(ctx, t):
    want = spelled(ctx, t)
    got = convert(ctx, t)
    if want is None:
        ctx.check(got is None, "a malformed size is accepted")
        ctx.reach("refused")
        return None
    ctx.check(got is not None, "a well-formed size is refused")
    num, den, whole = want
    ctx.reach("valid")
    ctx.reach("negative", num < 0)
    if whole and den == 1:
        ctx.reach("whole")
        ctx.check(implies(sym_and(num <= 2 ** 53, num >= -2 ** 53), got == num), "a whole number of units is another number of bytes")
    if den != 1:
        ctx.reach("fraction")
    # to one byte, besides the rounding of doubles
    slack = 2 ** 50
    diff = (got * den - num) * slack
    bound = den * slack + core.ite(num < 0, 0 - num, num)
    ctx.check(sym_and(diff < bound, diff > 0 - bound), "a size is more than one byte off")
    return got


def h_any(task, ctx):
    t = text.text(ctx, "c", task["n"], extra=(9,))
    judge(ctx, t)
    cs = text.chars(t)
    ctx.reach("no unit", text.is_digit(cs[-1]))


def h_number(task, ctx):
    cs = []
    for i in range(task["n"]):
        c = ctx.int(f"c{i}", 9, 101)
        ctx.assume(sym_or(text.is_digit(c), *[c == ord(x) for x in ".+-eE_ \t"]))
        cs.append(c)
    u = cased(ctx, task["unit"])
    t = text.Text(cs) + u if ctx.symbolic else "".join(chr(c) for c in cs) + u
    if judge(ctx, t) is not None:
        ctx.reach("exponent", sym_or(*[sym_or(c == 69, c == 101) for c in cs]))
        ctx.reach("underscore", sym_or(*[c == 95 for c in cs]))
        ctx.reach("spaces", sym_or(cs[0] == 32, cs[-1] == 32))


def number(ctx, name, n):
    cs = [ctx.int(f"{name}{i}", 48, 57) for i in range(n)]
    return text.Text(cs) if ctx.symbolic else "".join(chr(c) for c in cs)


def h_whole(task, ctx):
    unit = ctx.pick("unit", list(UNITS))
    u = cased(ctx, unit)
    pad = ctx.pick("pad", [("", "", ""), (" ", "", ""), ("", " ", ""), ("", "", " "), (" ", "\t", "  ")])
    t = pad[0] + number(ctx, "d", task["n"]) + pad[1] + u + pad[2]
    got = judge(ctx, t)
    ctx.check(got is not None, "a whole number with a unit is refused")
    ctx.reach("upper case", sym_or(*[text.chars(u)[i] < 97 for i in range(2)]))


def h_order(task, ctx):
    a, b = number(ctx, "a", task["a"]), number(ctx, "b", task["b"])
    u, v = ctx.pick("u", list(UNITS)), ctx.pick("v", list(UNITS))
    p, q = text.number(text.chars(a))[0] * UNITS[u], text.number(text.chars(b))[0] * UNITS[v]
    ctx.assume(sym_and(p <= 2 ** 53, q <= 2 ** 53))
    x, y = convert(ctx, a + u), convert(ctx, b + v)
    ctx.check(x is not None and y is not None, "a size is refused")
    ctx.check(sym_and(implies(p < q, x < y), implies(p == q, x == y), implies(p > q, x > y)), "a larger number denotes a smaller size")


def h_used(task, ctx):
    """Where sizes are given: the writer's chunks hold as many bytes as the text says."""
    kb, size = int(ctx.int("kb", 1, 9)), int(ctx.int("size", 1, 9))
    t = f"{kb}kb"
    with world.scratch() as d, world.quiet():
        w = BinaryWriter(d, chunk_bytes=t)
        for i in range(12):
            w[i] = b"x" * (int(size) * 900)
        w.done()
        w.merge(1)
        import json
        import os

        with open(os.path.join(d, "index.json")) as f:
            chunks = json.load(f)["chunks"]
    n = [c["chunk_size"] for c in chunks]
    ctx.check(sum(n) == 12, "not every sample is stored")
    ctx.check(all(c["chunk_bytes"] <= int(kb) * 1000 + 8 * c["chunk_size"] + 4 or c["chunk_size"] == 1 for c in chunks), "a chunk holds more bytes than the limit says")
    fit = max(1, (int(kb) * 1000) // (int(size) * 900 + 8))
    ctx.check(all(x >= min(fit, 12) for x in n[:-1]), "a chunk holds less than the limit says")
    ctx.reach("writer")
