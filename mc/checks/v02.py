"""V02: downcast_df changes nothing but the width of numeric columns."""
import itertools
import warnings

import numpy as np
import pandas as pd

from ..core import CaseHarness
from ..judge import attempt, expect, show
from ..loader import load
from .v01 import judge

LEVEL = "exploration"
RULE = ("every dataframe of 0 to 3 columns from a menu of 22, x 0, 1, 2 or 3 "
        "rows x 8 kinds of index x 8 kinds of column labels x tolerances, "
        "nillable integers, reassembling and copying; the values are compared "
        "with exact fractions; non-trivial: a numeric column with rows")
ASSUMPTIONS = [
    "a column of booleans may be cast to integers (pandas counts them as "
    "numeric); nullable integer and floating columns with missing values are "
    "documented as not handled and are left out",
]

NAN, INF = float("nan"), float("inf")
# three values each; a dataframe of n rows uses the first n
COLUMNS = [
    ("int64", [3, 1, 2]),
    ("int64", [-1, 300, 2 ** 40]),
    ("int8", [1, -1, 127]),
    ("uint64", [2 ** 63, 0, 1]),
    ("float64", [1.0, 2.0, 300.0]),
    ("float64", [NAN, 1.0, 2.0]),
    ("float64", [0.5, NAN, 0.1]),
    ("float64", [INF, -1.0, NAN]),
    ("float64", [1e300, 1e-5, 0.0]),
    ("float32", [0.25, 1.5, -2.0]),
    ("float32", [NAN, NAN, NAN]),
    ("float64", [2.00000001, 1.0, NAN]),
    ("bool", [True, False, True]),
    ("object", ["x", None, 1]),
    ("object", [[1], {"a": 1}, "y"]),
    ("str", ["1", "2", None]),
    ("datetime64[ns]", ["2020-01-01", "NaT", "2021-01-01"]),
    ("timedelta64[ns]", [1, 2, "NaT"]),
    ("category", [1, 2, 1]),
    ("Int64", [1, 300, -2]),
    ("float64", [1 / 3e7, 0.0, 1 / 7e6]),
    ("float64", [123456.789, -1 / 3, 2.0 ** 20 + 1 / 3]),
]
FEWER = [0, 5, 6, 11, 13, 16, 18]
SOME = [0, 5, 13, 16]

INDICES = {
    "range": lambda n: pd.RangeIndex(n),
    "reversed": lambda n: pd.Index(range(n)[::-1]),
    "repeated": lambda n: pd.Index([7] * n, name="ix"),
    "strings": lambda n: pd.Index(list("bac")[:n], name=("a", 1)),
    "mixed": lambda n: pd.Index([None, "a", 1][:n], dtype=object),
    "dates": lambda n: pd.date_range("2020-01-01", periods=n),
    "floats": lambda n: pd.Index([2.5, NAN, NAN][:n], dtype=float),
    "multi": lambda n: pd.MultiIndex.from_tuples(
        [(1, "b"), (1, "a"), (1, "b")][:n], names=["u", None])
    if n else pd.MultiIndex.from_arrays([[], []], names=["u", None]),
}
LABELS = {
    "letters": lambda n: pd.Index(list("bac")[:n]),
    "numbers": lambda n: pd.Index([5, 0, 2][:n]),
    "repeated": lambda n: pd.Index(["a"] * n, name="label"),
    "range": lambda n: pd.RangeIndex(n),
    "none": lambda n: pd.Index([None, 0, "x"][:n], dtype=object),
    "multi": lambda n: pd.MultiIndex.from_tuples(
        [("a", "x"), ("a", "y"), ("b", "x")][:n], names=["p", "q"])
    if n else pd.MultiIndex.from_arrays([[], []], names=["p", "q"]),
    "dates": lambda n: pd.date_range("2020-01-01", periods=n)[::-1],
    "index": lambda n: pd.Index(["index", "name", 0][:n], dtype=object),
}
TOLERANCES = [{}, {"atol": 1e-3, "rtol": 1e-3}, {"atol": 0, "rtol": 0},
              {"atol": 1e-3, "rtol": 1e-12}, {"atol": 1e-12, "rtol": 1e-2},
              {"atol": 1e-2}, {"rtol": 1e-2}]


def build(cols, rows, index, labels):
    parts = []
    with np.errstate(all="ignore"):
        for i in cols:
            t, values = COLUMNS[i]
            parts.append(pd.Series(values[:rows], dtype=t))
    df = pd.concat(parts, axis=1) if parts else pd.DataFrame(
        index=range(rows))
    df.index = INDICES[index](rows)
    df.columns = LABELS[labels](len(cols))
    return df


def image(df):
    """everything about a dataframe, comparable"""
    return (repr(df.columns), repr(df.index), [str(t) for t in df.dtypes],
            [[repr(v) for v in df.iloc[:, i]] for i in range(df.shape[1])])


class Frames(CaseHarness):
    def __init__(self, name):
        self.name = name

    def cases(self, tier):
        thorough = tier == "thorough"
        n = len(COLUMNS)
        if self.name == "settings":
            # every column alone, every pair, every triple of a few
            groups = [()] + [(i,) for i in range(n)]
            groups += list(itertools.product(
                range(n), repeat=2))
            groups += list(itertools.product(
                range(0, n, 2) if thorough else SOME, repeat=3))
            for cols in groups:
                for rows in range(4):
                    for tol in range(len(TOLERANCES)):
                        for nil, whole, copy in itertools.product(
                                (False, True), repeat=3):
                            if len(cols) > 1 and not thorough and (
                                    tol or copy != whole):
                                continue
                            yield (cols, rows, "repeated", "letters", tol,
                                   nil, whole, copy)
        else:
            for k in range(4):
                for cols in itertools.product(
                        [0, 6, 13] if not thorough else FEWER, repeat=k):
                    for rows in range(4):
                        for index in INDICES:
                            for labels in LABELS:
                                if k == 3 and len(set(cols)) < 3:
                                    continue
                                yield (cols, rows, index, labels, 0, False,
                                       True, True)
                                if k < 3 or thorough:
                                    yield (cols, rows, index, labels, 0,
                                           bool(rows % 2), False, True)

    def run(self, case):
        cols, rows, index, labels, tol, nil, whole, copy = case
        df = build(cols, rows, index, labels)
        before = image(df)
        settings = {**TOLERANCES[tol], "use_nillable_int": nil,
                    "reassemble": whole, "copy_all": copy}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = attempt(load("pivot").downcast_df, df, **settings)
        what = f"downcast_df({self.name}: {case!r})"
        expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
        out = got[1]
        expect(image(df) == before, "changed",
               f"{what} changed its argument to {image(df)}")
        if whole:
            expect(isinstance(out, pd.DataFrame), "type",
                   f"{what}: a {type(out).__name__}")
            expect(out.shape == df.shape, "shape", f"{what}: {out.shape}")
            for axis in ("index", "columns"):
                one, two = getattr(df, axis), getattr(out, axis)
                expect(list(map(repr, one)) == list(map(repr, two)), axis,
                       f"{what}: its {axis} is {two!r}, not {one!r}")
                expect(list(one.names) == list(two.names), axis + "-names",
                       f"{what}: the names of its {axis} are {two.names!r}, "
                       f"not {one.names!r}")
            columns = [out.iloc[:, i] for i in range(len(cols))]
        else:
            expect(isinstance(out, (list, tuple)) and len(out) == len(cols),
                   "type", lambda: f"{what}: {out!r}")
            columns = list(out)
        dtypes = []
        for i, col in enumerate(columns):
            one = df.iloc[:, i]
            expect(isinstance(col, pd.Series), "type",
                   f"{what}: column {i} is a {type(col).__name__}")
            expect(list(map(repr, col.index)) == list(map(repr, one.index)),
                   "series-index", f"{what}: column {i} has index "
                                   f"{col.index!r}")
            expect(repr(col.name) == repr(one.name), "series-name",
                   f"{what}: column {i} is named {col.name!r}")
            kind = one.dtype
            where = f"{what}: column {i}"
            numeric = COLUMNS[cols[i]][0] not in (
                "bool", "object", "str", "datetime64[ns]",
                "timedelta64[ns]", "category")
            if numeric:
                limits = {"atol": 1e-5, "rtol": 1e-7, **TOLERANCES[tol],
                          "library": "pandas"}
                arr = np.asarray(one)
                if str(kind) == "Int64":
                    arr = arr.astype("int64")
                # errors are not reported for dataframes
                dtypes.append(judge(
                    arr, {"recast": col}, limits, where, one.name, False))
                ints = [v for v in arr if v == v]
                if rows and arr.dtype.kind in "iu":
                    sign = "" if min(ints) < 0 else "u"
                    want = next(
                        f"{sign}int{d}" for d in (8, 16, 32, 64)
                        if np.iinfo(f"{sign}int{d}").min <= min(ints)
                        and max(ints) <= np.iinfo(f"{sign}int{d}").max)
                    expect(str(col.dtype).lower() == want, "smallest",
                           f"{where} is {col.dtype}, should be {want}")
                elif rows and 4 <= cols[i] <= 5 and (
                        cols[i] == 4 or nil):
                    # integral floats (and missing values) become integers
                    small = str(col.dtype).lower()
                    want = ("uint8" if max(v for v in arr if v == v) < 256
                            else "uint16") if ints else small
                    expect(small == want, "smallest",
                           f"{where} is {col.dtype}, should be {want}")
            elif str(kind) == "bool":
                expect([bool(v) for v in col] == [bool(v) for v in one],
                       "bool", f"{where} became {list(col)!r}")
            else:
                expect(str(col.dtype) == str(kind), "non-numeric",
                       f"{where} is {col.dtype}, not {kind}")
                expect(list(map(repr, col)) == list(map(repr, one)),
                       "non-numeric", f"{where} became {list(col)!r}")
        # changing the result
        if copy and rows and cols:
            for i in range(len(cols)):
                col = (out.iloc[:, i] if whole else columns[i])
                value = col.iloc[-1]
                if isinstance(value, (list, dict)):
                    value = None
                try:
                    col.array[0] = value
                except (ValueError, TypeError):
                    pass  # read-only, or of another type
                if whole:
                    out.iloc[0, i] = value
                else:
                    col.iloc[0] = value
            expect(image(df) == before, "aliased",
                   f"{what}: changing the result changed the dataframe to "
                   f"{image(df)}")
        if copy:
            for part in ([out.columns, out.index] if whole else
                         [col.index for col in columns]):
                part.names = [f"new{i}" for i in range(part.nlevels)]
            expect(image(df) == before, "aliased-names",
                   f"{what}: naming the levels of the result's labels changed "
                   f"the dataframe to {image(df)}")
        return (cols, rows, index, labels, nil, dtypes), bool(dtypes and rows)


def harnesses(tier):
    return [Frames("settings"), Frames("labels")]
