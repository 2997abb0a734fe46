"""C08: what is memorized is what is remembered."""
import array
import collections
import datetime as dt
import decimal
import enum
import fractions
import itertools
import json
import uuid

import numpy as np

from .. import simshm
from .. import world as W
from ..core import CaseHarness
from ..stores import attempt, expect, is_a, same, same_array, show
from .c02 import ARRAYS

LEVEL = "exploration"
RULE = ("every structured value up to the stated size through every codec, "
        "every ordered pair of a menu of values at one address, and every "
        "array of a grid of shapes, dtypes and memory layouts over every "
        "previous content; non-trivial: the value is a container, or there "
        "was something at the address before")
ASSUMPTIONS = [
    "a codec's domain: JSON -- None, bool, int, float, str, list, dict with "
    "str keys; literal -- Python literals (finite numbers); pickle -- "
    "picklable objects that compare equal to their copies",
]

JSON_ATOMS = [None, True, False, 0, -1, 10 ** 30, 0.1, -0.0, 1e300, 5e-324,
              "", "a", "1", "null", "é", "\U0001f600", "\ud800", "a\"b'c\\",
              "\n\0", " "]
LITERAL_ATOMS = JSON_ATOMS[:16] + [
    "a\"b'c\\", "\n\0", " ", "'a'", "None", "[1]", "x" * 5000, b"", b"a\xff",
    1j, ..., 2 - 3.5j, (), frozenset]
LITERAL_ATOMS = [a for a in LITERAL_ATOMS if a is not frozenset
                 and a != "\ud800" and a is not ...]


class Color(enum.Enum):
    RED = 1


class Point:
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Point and other.x == self.x

    def __hash__(self):
        return 1

    def __repr__(self):
        return f"Point({self.x!r})"


class Slotted:
    """no __dict__"""
    __slots__ = ("x", "unset")

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Slotted and other.x == self.x and not hasattr(
            other, "unset")

    def __hash__(self):
        return 2

    def __repr__(self):
        return f"Slotted({self.x!r})"


class Keyed:
    """can only be made with a keyword"""
    def __new__(cls, *, x):
        made = super().__new__(cls)
        made.x = x
        return made

    def __getnewargs_ex__(self):
        return (), {"x": self.x}

    def __eq__(self, other):
        return type(other) is Keyed and other.x == self.x

    def __hash__(self):
        return 3

    def __repr__(self):
        return f"Keyed({self.x!r})"

    class Within:
        pass


Pair = collections.namedtuple("Pair", ["one", "two"])


PICKLE_ATOMS = JSON_ATOMS + [
    Slotted("s"), Keyed(x=1), Keyed.Within, Pair(1, [2]),
    collections.OrderedDict(b=1, a=2), collections.deque([1], 3),
    collections.Counter("aab"), array.array("d", [1.5, 2]),
    dt.datetime(2020, 1, 2, tzinfo=dt.timezone.utc), "x" * 70000,
    b"", b"a\xff" * 20, 1j, float("inf"), float("nan"), ..., (), range(3),
    frozenset([1, 2]), bytearray(b"xy"), dt.date(2020, 1, 2),
    dt.timedelta(1), decimal.Decimal("1.10"), fractions.Fraction(1, 3),
    Color.RED, Point([1]), int, slice(1, 2), uuid.UUID(int=5),
    np.int8(3), np.float32(1.5),
]


def structures(atoms, kinds, few, few_only=True):
    """all atoms, all containers of up to 2 of them, one level deeper of few"""
    def hashable(x):
        try:
            hash(x)
            return x == x
        except TypeError:
            return False

    def contain(parts):
        for n in (0, 1, 2):
            for combo in itertools.product(parts, repeat=n):
                for kind in kinds:
                    if kind is dict:
                        yield {f"k{i}": v for i, v in enumerate(combo)}
                        if n:
                            yield {"": combo[0], "é k": combo[-1]}
                    elif kind == "anydict":
                        if all(map(hashable, combo)):
                            yield {v: i for i, v in enumerate(combo)}
                    elif kind in (set, frozenset):
                        if all(map(hashable, combo)):
                            yield kind(combo)
                    else:
                        yield kind(combo)

    yield from atoms
    yield from contain(atoms)
    inner = list(contain(few))
    yield from contain(inner[:40 if few_only else 120])


CODECS = {
    "json": (JSON_ATOMS, [list, dict], [None, 1, 0.5, "a"]),
    "ast": (LITERAL_ATOMS, [list, tuple, dict, set, "anydict"],
            [None, 2, "a", b"b"]),
    "pickle": (PICKLE_ATOMS, [list, tuple, dict, set, frozenset, "anydict"],
               [1, "a", Point(2)]),
}


def module():
    return W.copy(0)["codex.codecs"]


def codec(name):
    return getattr(module(), f"{name}_codec_factory")()


class Codecs(CaseHarness):
    """decode(encode(value)) for every value."""
    name = "codecs"

    def prepare(self):
        self.lists = {}

    def values(self, name, tier):
        if (name, tier) not in self.lists:
            self.lists[name, tier] = list(structures(
                *CODECS[name], few_only=tier == "quick"))
        return self.lists[name, tier]

    def cases(self, tier):
        for name in CODECS:
            for i in range(len(self.values(name, tier))):
                yield name, i, tier

    def run(self, case):
        name, i, tier = case
        value = self.values(name, tier)[i]
        encode, decode = codec(name)
        before = repr(value)
        got = attempt(encode, value)
        expect(got[0] == "ok" and isinstance(got[1], bytes), f"{name}-encode",
               f"{name} encoding of {value!r}: {show(got)}")
        back = attempt(decode, got[1])
        expect(back[0] == "ok" and same(back[1], value), f"{name}",
               f"{name}: {value!r} came back as {show(back)}")
        expect(repr(value) == before, "argument-changed",
               f"{name}: encoding changed {before}")
        return (name, got[1]), isinstance(value, (list, tuple, dict, set))


MENU = [0, None, "", "a", [1, 2], {"k": [1.5]}, "x" * 100, list(range(2000)),
        "y" * 4096, {"a": "z" * 70000}]


class Overwrite(CaseHarness):
    """memorize over every content, through every codec."""
    name = "overwrite"

    def cases(self, tier):
        for name in CODECS:
            for old in [-1] + list(range(len(MENU))):
                for new in range(len(MENU)):
                    for exists_ok in (True, False):
                        yield name, old, new, exists_ok

    def run(self, case):
        name, old, new, exists_ok = case
        fs = W.reset()
        memorize, remember = module().generic_mnemonic_factory()
        encode, decode = codec(name)
        if old >= 0:
            memorize(MENU[old], "x", True, encode)
        memorize([old], "other", exists_ok=False, encode=encode)
        before = fs.snapshot()
        got = attempt(memorize, MENU[new], "x", exists_ok, encode)
        if old >= 0 and not exists_ok:
            expect(is_a(got, "FileExistsError"), "not-refused",
                   f"{case}: {show(got)}, should be FileExistsError")
            expect(fs.snapshot() == before, "refused-but-changed",
                   f"{case} changed an existing block")
            want = MENU[old]
        else:
            expect(got == ("ok", "x"), "memorize", f"{case}: {show(got)}")
            want = MENU[new]
        for how in ("fetch", "default", "block"):
            if how == "fetch":
                back = attempt(remember, "x", True, decode)
            elif how == "default":
                back = attempt(lambda: remember("x", decode=decode))
            else:
                block = remember("x", fetch=False)
                back = attempt(lambda: decode(block.buf.tobytes()))
            expect(back[0] == "ok" and same(back[1], want), "remember",
                   f"{case}: {how}: {show(back)}, should be {want!r}"[:600])
        back = attempt(remember, "other", True, decode)
        expect(back[0] == "ok" and back[1] == [old], "other-address",
               f"{case}: the object at another address became {show(back)}")
        back = attempt(remember, "absent", True, decode)
        expect(is_a(back, "FileNotFoundError"), "absent",
               f"remembering an absent address: {show(back)}")
        return (case, exists_ok), old >= 0


class Sizes(CaseHarness):
    """every old size against every new size."""
    name = "sizes"

    def cases(self, tier):
        sizes = list(range(0, 34)) + [63, 64, 65, 255, 256, 4095, 4096, 4097]
        if tier != "quick":
            sizes = list(range(0, 130)) + [
                n + d for n in (256, 512, 1024, 4096, 8192, 65536)
                for d in (-1, 0, 1)]
        for name in CODECS:
            for old in sizes:
                for new in sizes:
                    yield name, old, new

    def run(self, case):
        name, old, new = case
        W.reset()
        memorize, remember = module().generic_mnemonic_factory()
        encode, decode = codec(name)
        memorize("o" * old, "x", True, encode)
        memorize("n" * new, "x", True, encode)
        back = attempt(remember, "x", True, decode)
        expect(back == ("ok", "n" * new), "remember",
               f"{case}: {show(back)}")
        return case, old != new


DTYPES = ["?", "i1", "u1", "i2", ">i2", "i4", "u4", "i8", ">u8", "f2", "f4",
          "f8", ">f8", "c8", "c16", "U1", "U7", "S3", "V4", "M8[s]", "m8[D]",
          "M8[25us]", "g", "V0",
          [("a", "i1"), ("b", ">f8")],
          [("a", "U2"), ("b", "i4", (2, 2))],
          [("a", [("c", "i2"), ("d", "S1")]), ("b", "?")],
          np.dtype([("x", "i1"), ("y", "f8")], align=True)]
SHAPES = [(), (1,), (3,), (0,), (2, 3), (3, 0, 2), (2, 1, 3), (1, 1, 1, 2)]
LAYOUTS = ["C", "F", "reversed", "every other", "transposed", "broadcast",
           "offset", "read-only", "subarray"]


def fill(dtype, shape):
    n = int(np.prod(shape)) if shape else 1
    dtype = np.dtype(dtype)
    if dtype.kind in "MmUS":
        raw = np.arange(5, 5 + n)
        if dtype.kind in "US":
            out = np.array([str(i * 37) for i in raw], dtype=dtype)
        else:
            out = raw.astype(dtype)
            if n > 1:
                out[-1] = "NaT"
    else:
        size = n * dtype.itemsize
        if dtype.kind in "fc":
            out = (np.arange(n) - 1.5).astype(dtype)
            if n > 2:
                out[0], out[1] = np.nan, -np.inf
        elif dtype.kind == "?" or dtype == bool:
            out = (np.arange(n) % 2 == 0)
        elif dtype.names:
            out = np.zeros(n, dtype=dtype)
            put(out, 1)
        elif dtype.itemsize == 0:
            out = np.zeros(n, dtype=dtype)
        else:
            out = np.frombuffer(
                bytes((i * 37 + 5) % 256 for i in range(size)), dtype=dtype)
    return out.reshape(shape)


def put(out, k):
    """distinct values in every field."""
    for name in out.dtype.names:
        part = out[name]
        if part.dtype.names:
            put(part, k + 3)
        elif part.dtype.kind in "US":
            part[...] = str(k)
        else:
            part[...] = (np.arange(part.size) + k).reshape(part.shape) % 100
        k += 11


def layout(array, how):
    if how == "C":
        return array
    if how == "F":
        return np.asfortranarray(array) if array.ndim else array
    if how == "reversed":
        return array[tuple(slice(None, None, -1) for _ in array.shape)]
    if how == "every other":
        if array.ndim == 0:
            return array
        big = np.repeat(array, 2, axis=-1)
        return big[..., ::2]
    if how == "transposed":
        return array.T
    if how == "broadcast":
        return np.broadcast_to(array, (2,) + array.shape)
    if how == "offset":
        raw = bytearray(array.nbytes + 1)
        out = np.ndarray(array.shape, array.dtype, buffer=raw, offset=1)
        out[...] = array
        return out
    if how == "read-only":
        out = array.copy()
        out.flags.writeable = False
        return out
    return np.stack([array, array], axis=0)[1]


def equal(one, two):
    if one.dtype != two.dtype or one.shape != two.shape:
        return False
    if one.dtype.names:
        return all(equal(one[n], two[n]) for n in one.dtype.names)
    if one.dtype == np.longdouble:      # has padding bytes
        return np.array_equal(one, two, equal_nan=True)
    return one.tobytes() == two.tobytes()


class Arrays(CaseHarness):
    """every shape, dtype and layout through the numpy mnemonic."""
    name = "arrays"

    def cases(self, tier):
        for d in range(len(DTYPES)):
            for shape in SHAPES:
                for how in LAYOUTS:
                    for there in (0, 1, 5, 4096):
                        yield d, shape, how, there

    def run(self, case):
        d, shape, how, there = case
        fs = W.reset()
        array = np.asanyarray(layout(fill(DTYPES[d], shape), how))
        memorize, remember = module().numpy_mnemonic_factory()
        if there:
            block = W.copy(0)["codex.memutilz"].open_block("x", there)
            block.buf[:] = b"\xaa" * there
        before = array.tobytes()
        got = attempt(memorize, array, "x", True, False)
        expect(got[0] == "ok", "memorize", f"{case}: {show(got)}")
        expect(array.tobytes() == before, "argument-changed",
               f"{case}: memorizing changed the array")
        meta, block = got[1]
        expect(block is None, "block", f"{case}: returned block {block!r}")
        meta = json.dumps(meta).encode()
        for copy in (True, False):
            back = attempt(remember, meta, True, copy)
            expect(back[0] == "ok" and equal(back[1][0], array), "remember",
                   f"{case}: {array!r} {array.dtype} came back as "
                   f"{show(back)}")
        back = attempt(remember, meta, False)
        expect(back[0] == "ok" and hasattr(back[1], "buf"), "fetch-false",
               f"{case}: {show(back)}")
        return (case[:3], meta), there > 0


class ArrayPairs(CaseHarness):
    """arrays over arrays, exists_ok and keep_open on and off."""
    name = "array-pairs"

    def cases(self, tier):
        for old in [None] + list(ARRAYS):
            for new in ARRAYS:
                for exists_ok in (True, False):
                    for keep in (True, False):
                        yield old, new, exists_ok, keep

    def run(self, case):
        old, new, exists_ok, keep = case
        fs = W.reset()
        memorize, remember = module().numpy_mnemonic_factory()
        meta = None
        if old is not None:
            meta, _ = memorize(ARRAYS[old], "x", False, False)
        other, _ = memorize(ARRAYS["f8"], "other", False, False)
        before = fs.snapshot()
        got = attempt(memorize, ARRAYS[new], "x", exists_ok, keep)
        want = ARRAYS[new]
        if old is not None and not exists_ok:
            expect(is_a(got, "FileExistsError"), "not-refused",
                   f"{case}: {show(got)}, should be FileExistsError")
            expect(fs.snapshot() == before, "refused-but-changed",
                   f"{case} changed an existing block")
            want = ARRAYS[old]
        else:
            expect(got[0] == "ok", "memorize", f"{case}: {show(got)}")
            meta, block = got[1]
            expect((block is not None) == keep, "keep-open",
                   f"{case}: block {block!r}")
        back = attempt(remember, json.dumps(meta).encode())
        expect(back[0] == "ok" and equal(back[1][0], want), "remember",
               f"{case}: {show(back)}, should be {want!r}")
        expect(back[1][1] is None, "default-copies",
               lambda: f"{case}: remembered {back[1]!r}")
        if want.size and type(want) is np.ndarray:
            # what is remembered is independent of the block
            mine, kept = back[1][0], back[1][0].copy()
            memorize(np.zeros_like(want), "x", True, False)
            expect(equal(mine, kept), "shared",
                   lambda: f"{case}: a copy changed with the block")
        back = attempt(remember, json.dumps(other).encode())
        expect(back[0] == "ok" and same_array(back[1][0], ARRAYS["f8"]),
               "other-address", f"{case}: {show(back)}")
        return (old, new, exists_ok), old is not None


class Refused(CaseHarness):
    """what could not be restored is refused, and changes nothing."""
    name = "refused"
    BAD = {
        "object": lambda: np.array([1, "a", None], dtype=object),
        "object-0d": lambda: np.array({}, dtype=object),
        "object-empty": lambda: np.array([], dtype=object),
        "object-field": lambda: np.array([(1, "a")],
                                         dtype=[("a", "i4"), ("b", object)]),
    }

    def cases(self, tier):
        for bad in self.BAD:
            for old in (None, "i4", "large"):
                for exists_ok in (True, False):
                    yield bad, old, exists_ok

    def run(self, case):
        bad, old, exists_ok = case
        fs = W.reset()
        memorize, remember = module().numpy_mnemonic_factory()
        if old:
            memorize(ARRAYS[old], "x", True, False)
        before = fs.snapshot()
        got = attempt(memorize, self.BAD[bad](), "x", exists_ok, False)
        expect(got[0] != "ok", "accepted",
               f"{case}: an array of objects was accepted: {show(got)}")
        expect(fs.snapshot() == before, "refused-but-changed",
               f"{case}: {sorted(before)} became {fs.listing()}")
        return (case, got[0]), True


class RealArrays(ArrayPairs):
    """a share of the above in lockstep with the real /dev/shm."""
    name = "real"

    def cases(self, tier):
        for i, case in enumerate(super().cases(tier)):
            if i % 7 == 0:
                yield case

    def run(self, case):
        simshm.set_dual(True)
        try:
            return super().run(case)
        finally:
            simshm.set_dual(False)


def harnesses(tier):
    return [Codecs(), Overwrite(), Sizes(), Arrays(), ArrayPairs(), Refused(),
            RealArrays()]
