"""P13: sample structure survives flattening, the index file and reading."""
from collections import OrderedDict, defaultdict, deque, namedtuple

from symx import core, world
from symx.core import is_sym, sym_and

from checks.ropes import Cache, storage

from litdata import StreamingDataset  # noqa: E402
from litdata.utilities import _pytree  # noqa: E402
from litdata.utilities._pytree import tree_flatten, tree_unflatten, treespec_dumps, treespec_loads  # noqa: E402

ID = "P13"
REACH = ["list", "tuple", "dict", "odict", "named", "default", "deque", "leaf", "empty", "nested", "reordered",
         "numbered", "other-structure", "unreadable"]
STUBS = ["leaf values: any 64-bit integers", "numpy on sizes and offsets, json, files, the reader's thread: as P08"]
OUTSIDE = "container types registered by the user (their own functions)"

Pair = namedtuple("Pair", ["u", "v"])
Solo = namedtuple("Solo", ["u"])
Nil = namedtuple("Nil", [])
NAMED = {0: Nil, 1: Solo, 2: Pair}


def register():
    for t in NAMED.values():
        if t not in _pytree.SUPPORTED_SERIALIZED_TYPES:
            _pytree._register_namedtuple(t, serialized_type_name=f"verif.{t.__name__}")


register()
KINDS = ["list", "tuple", "dict", "odict", "named", "default", "deque"]
KEYS = {"names": ["b", "a", "é\" ,"], "numbers": [10, 2, 0], "mixed": ["1", 1, None]}


def BOUNDS(tier):
    q = tier == "quick"
    return {"structures": "every nesting of lists, tuples, dicts, ordered and default dicts, named tuples and deques of depth 2 with "
            "up to 2 entries each (one entry level deeper in thorough), leaves included", "keys": KEYS,
            "leaves": "every 64-bit integer", "samples": "3: two of the structure, then one with the keys in another order or of "
            "another structure", "unusual": "keys json cannot hold, factories that cannot be found again (refused)"}


def tasks(tier):
    q = tier == "quick"
    out = [{"name": "leaf", "top": "leaf", "depth": 0, "n": 0, "kind": "rt"}]
    for top in KINDS:
        for n in range(0, 3):
            if n < 2:
                out.append({"name": f"{top}{n}", "top": top, "n": n, "kind": "rt", "depth": 3 if n == 1 and not q else 2})
            else:
                for k in ["leaf"] + KINDS:
                    out.append({"name": f"{top}2-{k}", "top": top, "n": 2, "first": k, "kind": "rt", "depth": 2})
    for top in KINDS:
        out.append({"name": f"other-{top}", "kind": "other", "top": top})
    out.append({"name": "unusual", "kind": "unusual"})
    for t in out:
        t["opts"] = {"validate_cap": 3}
    return out


def harness(task):
    return {"rt": h_roundtrip, "other": h_other, "unusual": h_unusual}[task["kind"]].__get__(task)


# ------------------------------------------------------------------ structures
class Shape:
    def __init__(self, kind, kids, keys=()):
        self.kind, self.kids, self.keys = kind, kids, list(keys)

    def build(self, leaf, order=lambda ks: ks):
        if self.kind == "leaf":
            return leaf()
        xs = [k.build(leaf, order) for k in self.kids]
        if self.kind in ("dict", "odict", "default"):
            m = dict(zip(self.keys, xs))
            items = [(k, m[k]) for k in order(self.keys)]
            if self.kind == "default":
                r = defaultdict(list)
                r.update(items)
                return r
            return dict(items) if self.kind == "dict" else OrderedDict(items)
        if self.kind == "named":
            return NAMED[len(xs)](*xs)
        return {"list": list, "tuple": tuple, "deque": lambda v: deque(v, 5)}[self.kind](xs)

    def leaves(self):
        return 1 if self.kind == "leaf" else sum(k.leaves() for k in self.kids)

    def has_dict(self):
        return self.kind in ("dict", "odict", "default") and len(self.kids) > 1 or any(k.has_dict() for k in self.kids)


def grow(ctx, name, depth, kind=None, n=None, keys=None):
    kind = kind or ctx.pick(name, ["leaf"] + KINDS if depth else ["leaf"])
    if kind == "leaf":
        return Shape("leaf", [])
    if n is None:
        n = ctx.pick(name + "n", [0, 1, 2])
    return Shape(kind, [grow(ctx, f"{name}{i}", depth - 1, None, None, keys) for i in range(n)], KEYS[keys or "names"][:n])


def equal(a, b):
    """Condition: same structure, same leaves."""
    if is_sym(a) or is_sym(b):
        return a == b
    if isinstance(a, (list, tuple, deque)):
        if type(a) is not type(b) or len(a) != len(b) or isinstance(a, deque) and a.maxlen != b.maxlen:
            return False
        return sym_and(*[equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if type(a) is not type(b) or set(a) != set(b) or [type(k) for k in sorted(a, key=repr)] != [type(k) for k in sorted(b, key=repr)]:
            return False
        if isinstance(a, defaultdict) and a.default_factory is not b.default_factory:
            return False
        return sym_and(*[equal(a[k], b[k]) for k in a])
    return a == b


def same_order(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same_order(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, deque)):
        return all(same_order(x, y) for x, y in zip(a, b))
    return True


class Numbers:
    """The leaves: any integers (symbolic), named in order of use."""

    def __init__(self, ctx, top=4):
        self.ctx, self.n = ctx, 0

    def __call__(self):
        self.n += 1
        return self.ctx.int(f"leaf{self.n}", 0, 2 ** 40)


def h_roundtrip(task, ctx):
    keys = ctx.pick("keys", list(KEYS)) if task["top"] in ("dict", "odict", "default") and task.get("first", "leaf") == "leaf" else "names"
    if task["top"] == "leaf":
        s = Shape("leaf", [])
    elif "first" in task:
        second = grow(ctx, "s1", 1) if task["first"] in ("leaf", "dict", "list") else Shape("leaf", [])
        s = Shape(task["top"], [grow(ctx, "s0", 1, task["first"]), second], KEYS[keys][:2])
    else:
        s = grow(ctx, "s", task["depth"], task["top"], task["n"], keys)
    with storage(ctx) as d:
        nums = Numbers(ctx)
        a, b = s.build(nums), s.build(nums)
        # flattening and the stored description
        flat, spec = tree_flatten(a)
        ctx.check(len(flat) == s.leaves(), "number of leaves")
        flat2, spec2 = tree_flatten(b)
        ctx.check(spec == spec2, "equal structures flatten differently")
        again = treespec_loads(treespec_dumps(spec))
        ctx.check(again == spec, "the stored structure differs")
        ctx.check(equal(tree_unflatten(flat, again), a), "flattening and the stored description do not give the sample back")
        # through a dataset
        samples = [a, b]
        if s.leaves():
            c = Cache(d, chunk_size=2)
            c[0], c[1] = a, b
            if s.has_dict():
                x = s.build(nums, lambda ks: list(reversed(ks)))
                try:
                    with world.quiet():
                        c[2] = x
                    samples.append(x)
                    ctx.reach("reordered")
                except (ValueError, TypeError, KeyError):
                    ctx.reach("refused")
            c.done()
            c.merge()
            ds = StreamingDataset(d)
            ctx.check(len(ds) == len(samples), "number of samples")
            for i, v in enumerate(samples):
                got = ds[i]
                ctx.check(equal(v, got), "the sample read is not the sample written")
                ctx.check(i == 2 or same_order(v, got), "the keys come back in another order")
        ctx.reach(task["top"])
        ctx.reach("empty", any(k.kind != "leaf" and not k.kids for k in [s] + s.kids))
        ctx.reach("nested", any(k.kids for k in s.kids))
        ctx.reach("numbered", keys == "numbers")


def h_other(task, ctx):
    """A later sample of another structure is refused, or read back as it is."""
    n = ctx.pick("n", [1, 2])
    s = Shape(task["top"], [Shape("leaf", []), Shape("leaf", [])][:n], KEYS["names"][:n])
    kind = ctx.pick("kind", ["leaf"] + KINDS)
    if kind == "leaf":
        t = Shape("leaf", [])
    else:
        m = ctx.pick("m", [0, 1, 2, 3]) if kind != "named" else ctx.pick("m", [0, 1, 2])
        wrap = ctx.pick("wrap", [False, True])
        one = Shape("list", [Shape("leaf", [])]) if wrap else Shape("leaf", [])
        t = Shape(kind, [one] * m, ctx.pick("keys2", [["b", "a", "c"], ["a", "b", "c"], ["z", "a", "c"]])[:m]
                  if kind in ("dict", "odict", "default") else ())
    with storage(ctx) as d:
        nums = Numbers(ctx)
        a, b, x = s.build(nums), s.build(nums), t.build(nums)
        c = Cache(d, chunk_size=2)
        kept = []
        c[0] = a
        kept.append(a)
        try:
            with world.quiet():
                c[1] = x
            kept.append(x)
        except (ValueError, TypeError, KeyError, AssertionError):
            ctx.check(not (t.kind == s.kind and len(t.kids) == len(s.kids) and all(k.kind == "leaf" for k in t.kids)
                           and list(t.keys) == list(s.keys)), "a sample of the same structure is refused")
            ctx.reach("other-structure")
            c[1] = b
            kept.append(b)
        c.done()
        c.merge()
        ds = StreamingDataset(d)
        for i, v in enumerate(kept):
            # the kinds of dictionaries are interchangeable
            ctx.check(equal(plain(v), plain(ds[i])), "the sample read is not the sample written")


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, deque):
        return ("deque", [plain(x) for x in v])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [plain(x) for x in v])
    return v


def h_unusual(task, ctx):
    which = ctx.pick("which", ["tuple-key", "bytes-key", "lambda", "no-factory", "unregistered", "bool-key", "method", "nested"])
    Loose = namedtuple("Loose", ["q"])
    with storage(ctx) as d:
        x = ctx.int("leaf", -(2 ** 63), 2 ** 63 - 1)

        def dd(f):
            r = defaultdict(f)
            r["k"] = x
            return r

        class Local:
            pass

        v = {"tuple-key": lambda: {(1, 2): x}, "bytes-key": lambda: {b"k": x}, "lambda": lambda: dd(lambda: 0),
             "no-factory": lambda: dd(None), "unregistered": lambda: Loose(x), "bool-key": lambda: {True: x},
             "method": lambda: dd(dict.fromkeys), "nested": lambda: dd(Local)}[which]()
        try:
            c = Cache(d, chunk_size=2)
            c[0] = v
            c.done()
            c.merge()
        except (ValueError, TypeError, NotImplementedError, AttributeError):
            ctx.reach("unreadable")
            return
        ctx.check(equal(StreamingDataset(d)[0], v), "the sample read is not the sample written")
