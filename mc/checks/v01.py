"""V01: downcast keeps every value within tolerance."""
import itertools
import math
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

from ..core import CaseHarness
from ..judge import attempt, expect, show
from ..loader import load

LEVEL = "exploration"
RULE = ("every array up to length 3 over boundary values of all integer and "
        "float types and non-finite values, of every integer and float dtype, "
        "x library x nillable x tolerances; errors computed with exact "
        "fractions; non-trivial: at least two elements")
ASSUMPTIONS = [
    "complex, datetime and object arrays must be refused; what happens to "
    "bool, timedelta, string and structured ones is not judged",
]

FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 2.00001, 127.0, 128.0, -128.0,
          -129.0, 255.0, 256.0, 65504.0, 65519.0, 65520.0, 70000.5, 1e-5,
          1e-8, 2.0 ** 31, -2.0 ** 31 - 1, 2.0 ** 53 + 2, 2.0 ** 63,
          -2.0 ** 63, 2.0 ** 64, 3.4028234663852886e38, 3.5e38, 1e300, 1e-40,
          5e-324, 0.333251953125, math.nan, math.inf, -math.inf]
FEW = [0.0, 1.0, -1.0, 0.1, 2.00001, 300.0, 1e-5, 65520.0, 2.0 ** 63, 1e300,
       math.nan, math.inf]
LONGS = [0, 1, -3, "0.1", "1e400", "-1e400", "1e-4000",
         "1.00000000000000000010842", "0.333333333333333333333",
         "18446744073709551617", 300.5, math.nan, math.inf, -math.inf]
INTS = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768,
        -32769, 65535, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1,
        2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63,
        2 ** 64 - 1]
INT_TYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32",
             "uint64"]
FLOAT_TYPES = ["float16", "float32", "float64", "longdouble"]
SETTINGS = [{}, {"library": "pandas"},
            {"library": "pandas", "use_nillable_int": True},
            {"atol": 1.0, "rtol": 1.0}, {"atol": 0, "rtol": 0},
            {"atol": 1e-9}, {"rtol": 1e-9, "atol": 10.0},
            {"atol": 1e-3, "rtol": 1e-2, "library": "pandas",
             "use_nillable_int": True}]


def exact(x):
    """the exact value of a finite number of any dtype"""
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, np.longdouble):
        n, d = x.as_integer_ratio()
        return Fraction(n, d)
    return Fraction(float(x))


def kind_of(x):
    if x is pd.NA or x is None:
        return "nan"
    if isinstance(x, (int, np.integer)):
        return "finite"
    if np.isnan(x):
        return "nan"
    if np.isinf(x):
        return "inf" if x > 0 else "-inf"
    return "finite"


# how much the types' own rounding may blur a comparison with a tolerance
SLACK = {"float16": Fraction(1, 20), "float32": Fraction(1, 10 ** 6)}


def judge(before, out, settings, what, name=None, errors=True):
    """before: 1-d numpy array; out: what downcast returned."""
    atol = Fraction(settings.get("atol", 5e-5))
    rtol = Fraction(settings.get("rtol", 1e-6))
    library = settings.get("library", "numpy")
    recast = out["recast"]
    if library == "pandas":
        expect(isinstance(recast, pd.Series), "library",
               f"{what}: got a {type(recast).__name__}")
        expect(recast.name == name, "name", f"{what}: its name is "
                                            f"{recast.name!r}, not {name!r}")
    else:
        expect(type(recast) is np.ndarray, "library",
               f"{what}: got a {type(recast).__name__}")
        expect(recast.ndim == 1, "shape", f"{what}: {recast.shape}")
    expect(len(recast) == len(before), "length",
           f"{what}: {len(recast)} values")
    values = list(recast) if library == "pandas" else list(recast)
    slack = 1 + SLACK.get(before.dtype.name, Fraction(1, 10 ** 9))
    aerr = rerr = Fraction(0)
    for i, (one, two) in enumerate(zip(before, values)):
        k = kind_of(one)
        expect(kind_of(two) == k, "nonfinite",
               f"{what}: element {i} became {two!r}")
        if k != "finite":
            continue
        a, b = exact(one), exact(two)
        err = abs(a - b)
        aerr = max(aerr, err)
        expect(err <= atol * slack, "atol",
               f"{what}: element {i} became {two!r}, atol is {float(atol)}")
        if a != 0:
            rerr = max(rerr, err / abs(a))
            expect(err / abs(a) <= rtol * slack, "rtol",
                   f"{what}: element {i} became {two!r}, rtol is "
                   f"{float(rtol)}")
        else:
            expect(b == 0, "zero", f"{what}: zero became {two!r}")
    if not errors:
        return str(recast.dtype)
    for label, want in (("aerr", aerr), ("rerr", rerr)):
        got = out[label]
        expect(kind_of(got) == "finite", label, f"{what}: {label} is {got!r}")
        got = exact(got)
        close = abs(got - want) <= want * Fraction(1, 500) + (
            Fraction(1, 10 ** 6) if before.dtype == np.float16
            else Fraction(1, 10 ** 14) * want)
        expect(close, label, f"{what}: {label} is reported as {float(got)}, "
                             f"but is {float(want)}")
    return str(recast.dtype)


def run_downcast(arr, settings):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return attempt(load("pivot").downcast, arr, **settings)


class Floats(CaseHarness):
    name = "floats"

    def cases(self, tier):
        longest = 2 if tier == "quick" else 3
        for t in FLOAT_TYPES:
            for s in range(len(SETTINGS)):
                for n in range(longest + 1):
                    for items in itertools.product(range(len(FLOATS)),
                                                   repeat=n):
                        yield t, s, tuple(FLOATS.index(FLOATS[i])
                                          if FLOATS[i] == FLOATS[i] else i
                                          for i in items), "all"
                for items in itertools.product(range(len(FEW)), repeat=3):
                    yield t, s, items, "few"
        for s in range(len(SETTINGS)):
            for n in range(1, longest + 2):
                for items in itertools.product(range(len(LONGS)), repeat=n):
                    yield "longdouble", s, items, "long"

    def run(self, case):
        t, s, items, menu = case
        menu = {"all": FLOATS, "few": FEW, "long": LONGS}[menu]
        with np.errstate(all="ignore"):
            if menu is LONGS:
                arr = np.array([np.longdouble(menu[i]) for i in items])
            else:
                arr = np.array([menu[i] for i in items],
                               dtype="float64").astype(t)
        settings = SETTINGS[s]
        before = arr.copy()
        name = None
        given = arr
        if len(items) == 2:
            # also as pandas series, lists
            if s % 2:
                given = pd.Series(arr, name="col", index=[7, 3])
                name = "col"
            elif t == "float64":
                given = arr.tolist()
        got = run_downcast(given, settings)
        what = f"downcast({before!r}, {settings})"
        expect(got[0] == "ok", "failed", f"{what}: {show(got)}")
        dtype = judge(before, got[1], settings, what, name)
        expect(arr.tobytes() == before.tobytes() and arr.dtype ==
               before.dtype, "changed", f"{what} changed its argument to "
                                        f"{arr!r}")
        # nor when the result is changed later
        if len(items) and isinstance(got[1]["recast"], np.ndarray):
            got[1]["recast"][:] = 3
            expect(arr.tobytes() == before.tobytes(), "aliased",
                   f"{what}: the result shares memory with the argument")
        return (t, s, dtype, [kind_of(x) for x in before]), len(items) > 1


class Ints(CaseHarness):
    name = "ints"

    def cases(self, tier):
        longest = 3 if tier == "quick" else 4
        for t in INT_TYPES:
            info = np.iinfo(t)
            fit = [i for i in INTS if info.min <= i <= info.max]
            if len(fit) > 12 and tier == "quick":
                pass
            for n in range(longest + 1):
                menu = fit if n < 3 else fit[:3] + fit[-5:]
                for items in itertools.product(menu, repeat=n):
                    for s in (0, 1, 2):
                        yield t, s, items

    def run(self, case):
        t, s, items = case
        arr = np.array(items, dtype=t)
        before = arr.copy()
        settings = SETTINGS[s]
        given, name = arr, None
        if s == 1 and len(items) == 2:
            given, name = pd.Series(arr, name=("a", 1)), ("a", 1)
        got = run_downcast(given, settings)
        what = f"downcast({before!r}, {settings})"
        expect(got[0] == "ok", "failed", f"{what}: {show(got)}")
        dtype = judge(before, got[1], settings, what, name)
        if items:
            sign = "" if min(items) < 0 else "u"
            want = next(
                f"{sign}int{d}" for d in (8, 16, 32, 64)
                if np.iinfo(f"{sign}int{d}").min <= min(items)
                and max(items) <= np.iinfo(f"{sign}int{d}").max)
            expect(dtype == want, "smallest",
                   f"{what} is {dtype}, should be {want}")
        expect(got[1]["aerr"] == 0 and got[1]["rerr"] == 0, "errors",
               f"{what} reports errors {got[1]}")
        expect(arr.tobytes() == before.tobytes() and arr.dtype ==
               before.dtype, "changed", f"{what} changed its argument")
        if items and isinstance(got[1]["recast"], np.ndarray):
            got[1]["recast"][:] = 3
            expect(arr.tobytes() == before.tobytes(), "aliased",
                   f"{what}: the result shares memory with the argument")
        return (t, s, dtype), len(items) > 1


class Refusals(CaseHarness):
    """types it does not handle."""
    name = "refusals"
    BAD = ["np.array([1j])", "np.array(['2020-01-01'], dtype='M8[D]')",
           "np.array([1, 'a'], dtype=object)",
           "pd.Series(['a'])", "[None, {}]",
           "np.array([1 + 0j, 2], dtype='complex64')",
           "pd.Series([pd.Timestamp(0)])"]

    def cases(self, tier):
        for b in self.BAD:
            for s in range(len(SETTINGS)):
                yield b, s
        for good in ("[1, 2]", "[0.5]", "[]", "[float('nan')]"):
            yield good, "nillable-numpy"

    def run(self, case):
        text, s = case
        arr = eval(text)
        settings = SETTINGS[s] if s != "nillable-numpy" else {
            "use_nillable_int": True}
        got = run_downcast(arr, settings)
        expect(got[0] == "TypeError", "refused",
               f"downcast({text}, {settings}): {show(got)}, should raise "
               "TypeError")
        return text, True


LAYOUTS = {
    "row": lambda a: a.reshape(1, -1), "column": lambda a: a.reshape(-1, 1),
    "square": lambda a: a.reshape(2, 2),
    "transposed": lambda a: a.reshape(2, 2).T,
    "fortran": lambda a: np.asfortranarray(a.reshape(2, 2)),
    "cube": lambda a: a.reshape(2, 1, 2),
    "reversed": lambda a: a[::-1], "strided": lambda a: np.repeat(a, 2)[::2],
    "negative-strides": lambda a: a.reshape(2, 2)[::-1, ::-1],
    "one": lambda a: a[:1].reshape(()), "empty": lambda a: a[:0].reshape(0, 3),
    "broadcast": lambda a: np.broadcast_to(a, (2, 4)),
    "swapped": lambda a: a.astype(a.dtype.newbyteorder(">")),
    "unaligned": lambda a: np.frombuffer(
        b"x" + a.tobytes(), dtype=a.dtype, offset=1),
    "nested-list": lambda a: a.reshape(2, 2).tolist(),
    "tuple": lambda a: tuple(a.tolist()),
    "scalars": lambda a: list(a),
}


class Layouts(CaseHarness):
    """arrays of every shape and layout; the result keeps the shape."""
    name = "layouts"
    POOLS = {"float64": [0.0, 1.0, -1.0, 0.1, 300.0, math.nan, math.inf,
                         -70000.0],
             "float32": [0.0, 1.0, -0.5, 300.0, math.nan, 2.0 ** 20 + 0.5],
             "int64": [0, 1, -1, 200, 40000, -2 ** 40],
             "uint16": [0, 1, 255, 256]}

    def cases(self, tier):
        for dtype, pool in self.POOLS.items():
            for layout in LAYOUTS:
                for picks in itertools.product(range(len(pool)), repeat=4) if (
                        tier == "thorough") else itertools.product(
                            range(len(pool)), repeat=2):
                    for s in (0, 3, 4):
                        yield dtype, layout, picks, s

    def run(self, case):
        dtype, layout, picks, s = case
        pool = self.POOLS[dtype]
        picks = (picks * 2)[:4]
        base = np.array([pool[i] for i in picks], dtype=dtype)
        given = LAYOUTS[layout](base)
        before = np.array(given, copy=True)
        if isinstance(given, np.ndarray):
            given.flags.writeable = False
        what = f"downcast({layout} of {base!r}, {SETTINGS[s]})"
        got = run_downcast(given, SETTINGS[s])
        expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
        recast = got[1]["recast"]
        expect(type(recast) is np.ndarray and recast.shape == before.shape,
               "shape", lambda: f"{what}: got {recast!r}")
        expect(same_bits(before, np.asarray(given)), "changed",
               lambda: f"{what} changed its argument to {given!r}")
        flat = dict(got[1], recast=recast.reshape(-1))
        judge(before.reshape(-1), flat, SETTINGS[s], what)
        if recast.size:
            expect(recast.flags.writeable and not (
                isinstance(given, np.ndarray)
                and np.shares_memory(recast, given)), "shared",
                lambda: f"{what}: the result is not an array of its own")
        return (dtype, layout, picks, str(recast.dtype)), recast.size > 1


def same_bits(one, two):
    return one.dtype == two.dtype and one.shape == two.shape and (
        one.tobytes() == two.tobytes())


def harnesses(tier):
    return [Floats(), Ints(), Layouts(), Refusals()]
