"""V04: dataframe helpers agree with row-by-row definitions."""
import collections
import itertools
import warnings
from collections import Counter

import numpy as np
import pandas as pd

from ..core import CaseHarness
from ..judge import attempt, expect, show
from ..loader import load

LEVEL = "exploration"
RULE = ("for each helper, every series or dataframe up to 3 rows over a small "
        "alphabet of cells (numbers, strings, lists, missing values), index "
        "and column labels (unique, repeated, multi-level, named), x every "
        "argument; oracles work on python lists; non-trivial: at least two "
        "rows")
ASSUMPTIONS = [
    "junction, unique_to_records and smash are judged on keys without missing "
    "values, which pandas' own counting leaves out",
    "the order of unique records, of aggregated labels and of smashed "
    "values is left open",
]
NAN = float("nan")

INDICES = {
    "range": lambda n: pd.RangeIndex(n),
    "strings": lambda n: pd.Index(list("bca")[:n], name="ix"),
    "repeated": lambda n: pd.Index([4, 4, -1][:n]),
    "negative": lambda n: pd.Index([-1, -2, 0][:n]),
    "multi": lambda n: pd.MultiIndex.from_tuples(
        [(1, "b"), (1, "a"), (1, "b")][:n], names=["u", "v"])
    if n else pd.MultiIndex.from_arrays([[], []], names=["u", "v"]),
}


def missing(x):
    return x is None or x is pd.NA or x is pd.NaT or (
        isinstance(x, (float, np.floating)) and x != x)


def alike(one, two):
    if missing(one) or missing(two):
        return missing(one) and missing(two)
    if isinstance(one, (list, tuple)) or isinstance(two, (list, tuple)):
        return type(one) is type(two) and len(one) == len(two) and all(
            map(alike, one, two))
    return bool(one == two) and isinstance(one, str) == isinstance(two, str)


def image(obj):
    if isinstance(obj, pd.Series):
        return (repr(obj.name), list(map(repr, obj.index)),
                list(map(repr, obj.index.names)), str(obj.dtype),
                [repr(v) for v in obj])
    return (list(map(repr, obj.columns)), list(map(repr, obj.index)),
            list(map(str, obj.dtypes)), obj.shape,
            [[repr(v) for v in obj.iloc[:, j]]
             for j in range(obj.shape[1])])


def call(name, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return attempt(getattr(load("pivot"), name), *args, **kwargs)


class Helper(CaseHarness):
    """run() for one helper, given its arguments"""

    def ok(self, what, inputs, name, *args, **kwargs):
        before = [image(i) for i in inputs]
        got = call(name, *args, **kwargs)
        what = f"{name}({what})"
        expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
        for i, b in zip(inputs, before):
            expect(image(i) == b, "changed",
                   lambda: f"{what} changed its argument: {b!r} became "
                           f"{image(i)!r}")
        return got[1]


class Split(Helper):
    name = "split_on"

    def cases(self, tier):
        for n in range(4 if tier == "quick" else 6):
            for index in INDICES:
                if n > 3 and index != "range":
                    continue
                for kind in ("bool", "boolean", "object", "array"):
                    verdicts = (True, False) if kind in ("bool", "array") \
                        else (True, False, None)
                    for p in itertools.product(verdicts, repeat=n):
                        yield n, index, kind, p

    def run(self, case):
        n, index, kind, p = case
        df = pd.DataFrame({"a": range(10, 10 + n), "b": ["x"] * n},
                          index=INDICES[index](n))
        predicate = (np.array(p, dtype=bool) if kind == "array" else
                     pd.Series(list(p), dtype=kind, index=df.index))
        what = f"{n} rows, index {index}, {kind} {p}"
        out = self.ok(what, [df], "split_on", df, predicate)
        expect(len(out) == 2, "pair", lambda: f"split_on({what}): {out!r}")
        for part, label, want in zip(out, ("yes", "no"), (
                [i for i in range(n) if p[i]],
                [i for i in range(n) if not p[i]])):
            expect(image(part) == image(df.iloc[want]), label,
                   lambda: f"split_on({what}): the {label} part is "
                           f"{image(part)!r}, should be rows {want}")
        return case, n > 1


class Duplicates(Helper):
    name = "duplicate-columns"
    ALPHABETS = {"float64": [1.0, 2.0, NAN], "Int64": [1, 2, None],
                 "object": ["a", 1, None], "str": ["a", "1", None],
                 "bool": [True, False]}

    def cases(self, tier):
        longest = 2 if tier == "quick" else 3
        for t, values in self.ALPHABETS.items():
            for rows in range(longest + 1):
                columns = list(itertools.product(range(len(values)),
                                                 repeat=rows))
                for n in range(4):
                    if rows == 3 and n == 3 and t != "float64":
                        continue
                    for labels in ("aaa", "aab", "aba", "baa", "abc"):
                        if n < 3 and labels in ("aba", "abc"):
                            continue
                        for cells in itertools.product(columns, repeat=n):
                            yield t, labels[:n], rows, cells
        # of different types
        for types in itertools.permutations(("float64", "int64", "object",
                                             "bool"), 2):
            for cells in itertools.product(((0,), (1,)), repeat=2):
                yield types, "aa", 1, cells

    def run(self, case):
        t, labels, rows, cells = case
        columns = []
        for j, c in enumerate(cells):
            kind = t if isinstance(t, str) else t[j]
            menu = self.ALPHABETS.get(kind, [0, 1]) if isinstance(t, str) \
                else [0, 1]
            columns.append(pd.Series([menu[i] for i in c], dtype=kind))
        df = pd.concat(columns, axis=1) if columns else pd.DataFrame(
            index=range(rows))
        df.columns = list(labels)
        before = image(df)
        got = call("check_and_drop_duplicate_columns", df)
        what = f"check_and_drop_duplicate_columns({before!r})"
        expect(image(df) == before, "changed", f"{what} changed its argument")
        keep, clash = [], False
        for j, label in enumerate(labels):
            first = labels.index(label)
            if first == j:
                keep.append(j)
            elif not all(map(alike, columns[first], columns[j])):
                clash = True
        if clash:
            expect(got[0] == "ValueError", "clash",
                   lambda: f"{what}: {show(got)}, should raise ValueError")
            return case, rows > 1
        expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
        want = image(df.iloc[:, keep])
        expect(image(got[1]) == want, "kept",
               lambda: f"{what}: got {image(got[1])!r}, should be {want!r}")
        return case, rows > 1


class Sets(Helper):
    name = "junction"
    KEYS = list(itertools.product((1, 2), "ab"))
    METHODS = {"difference": set.difference, "union": set.union,
               "intersection": set.intersection,
               "symmetric_difference": set.symmetric_difference,
               "issubset": set.issubset, "isdisjoint": set.isdisjoint}

    def cases(self, tier):
        longest = 2 if tier == "quick" else 3
        rows = [r for n in range(longest + 1)
                for r in itertools.product(range(4), repeat=n)]
        for one, two in itertools.product(rows, repeat=2):
            for columns in (("x",), ("x", "y"), ("y", "x")):
                for method in (None, *self.METHODS):
                    if len(one) + len(two) > 4 and method not in (
                            None, "symmetric_difference"):
                        continue
                    yield one, two, columns, method

    def run(self, case):
        one, two, columns, method = case
        dfs = []
        for part, index in ((one, "range"), (two, "repeated")):
            keys = [self.KEYS[i] for i in part]
            dfs.append(pd.DataFrame({
                "x": pd.Series([k[0] for k in keys], dtype="int64"),
                "z": pd.Series([NAN] * len(keys), dtype=float),
                "y": pd.Series([k[1] for k in keys], dtype=object)}))
            dfs[-1].index = INDICES[index](len(keys))
        args = [*dfs, list(columns)] + ([method] if method else [])
        what = f"{one}, {two}, {columns}, {method}"
        out = self.ok(what, dfs, "junction", *args)
        where = [{"x": 0, "y": 1}[c] for c in columns]
        sets = [{tuple(self.KEYS[i][w] for w in where) for i in part}
                for part in (one, two)]
        want = self.METHODS[method or "difference"](*sets)
        expect(type(out) is type(want) and out == want, "keys",
               lambda: f"junction({what}): got {out!r}, should be {want!r}")
        return case, len(one) + len(two) > 2


class Unique(Helper):
    name = "unique_to_records"

    def cases(self, tier):
        for n in range(4 if tier == "quick" else 5):
            for rows in itertools.product(range(4), repeat=n):
                for columns in (("x",), ("y",), ("x", "y"), ("y", "x")):
                    yield rows, columns

    def run(self, case):
        rows, columns = case
        keys = [Sets.KEYS[i] for i in rows]
        df = pd.DataFrame({
            "x": pd.Series([k[0] for k in keys], dtype="int64"),
            "z": pd.Series([NAN] * len(keys), dtype=float),
            "y": pd.Series([k[1] for k in keys], dtype=object)})
        df.index = INDICES["repeated"](len(keys)) if len(keys) < 4 else \
            pd.RangeIndex(4)
        out = self.ok(f"{keys}, {columns}", [df], "unique_to_records", df,
                      list(columns))
        what = f"unique_to_records({keys}, {columns})"
        expect(list(out.columns) == list(columns), "columns",
               lambda: f"{what}: columns {list(out.columns)!r}")
        where = [{"x": 0, "y": 1}[c] for c in columns]
        want = {tuple(k[w] for w in where) for k in keys}
        got = list(zip(*(list(out[c]) for c in columns)))
        expect(len(got) == len(set(got)) and set(got) == want, "records",
               lambda: f"{what}: got {got!r}, should be {want!r}")
        return case, len(rows) > 1


class Squeeze(Helper):
    name = "squeeze"
    AGGS = {
        None: lambda v: v[0],
        "sum": lambda v: sum(x for x in v if x == x),
        "max": lambda v: max([x for x in v if x == x], default=NAN),
        "min": lambda v: min([x for x in v if x == x], default=NAN),
        "first": lambda v: next((x for x in v if x == x), NAN),
        "last": lambda v: next((x for x in v[::-1] if x == x), NAN),
        "count": lambda v: len([x for x in v if x == x]),
        "mean": lambda v: (sum(x for x in v if x == x)
                           / len([x for x in v if x == x])
                           if any(x == x for x in v) else NAN),
    }
    LABELS = {"ints": [3, 1], "strings": ["b", "a"], "missing": [NAN, 1.0],
              "multi": [(1, "b"), (1, "a")]}
    NAMES = [None, "n", 0, "index", ("a", "b"), "ix"]

    def cases(self, tier):
        longest = 3 if tier == "quick" else 4
        for n in range(longest + 1):
            for labels in self.LABELS:
                for ix in itertools.product((0, 1), repeat=n):
                    for kind, menu in (("float64", (2.0, 1.0, NAN)),
                                       ("int64", (2, 1)),
                                       ("bool", (True, False)),
                                       ("object", ("x", "y"))):
                        if n == 4 and kind == "float64":
                            menu = menu[1:]
                        for values in itertools.product(menu, repeat=n):
                            for agg in self.AGGS:
                                if kind == "object" and agg not in (
                                        None, "max", "first", "count"):
                                    continue
                                if kind == "bool" and agg in (
                                        "mean", "first", "last"):
                                    continue
                                name = sum(ix) + n + sum(
                                    v == menu[0] for v in values)
                                for named in (0, 1):
                                    yield (labels, ix, kind, values, agg,
                                           name % 6, named)
        # every name with every name of the index
        for labels in self.LABELS:
            for kind, values in (("int64", (2, 1, 4)),
                                 ("bool", (False, True, False))):
                for agg in (None, "sum", "max"):
                    for name in range(len(self.NAMES)):
                        for named in (0, 1):
                            yield labels, (0, 1, 0), kind, values, agg, name, \
                                named

    def run(self, case):
        labels, ix, kind, values, agg, name, named = case
        keys = [self.LABELS[labels][i] for i in ix]
        if labels == "multi":
            names = ["ix", None] if named else [None, None]
            index = pd.MultiIndex.from_tuples(keys, names=names) if keys else \
                pd.MultiIndex.from_arrays([[], []], names=names)
        else:
            index = pd.Index(keys, name="ix" if named else None,
                             dtype=object if not keys else None)
        series = pd.Series(list(values), index=index, dtype=kind,
                           name=self.NAMES[name])
        what = f"{image(series)!r}, {agg!r}"
        args = [] if agg is None and named else [agg]
        out = self.ok(what, [series], "squeeze", series, *args)
        what = f"squeeze({what})"
        expect(isinstance(out, pd.Series), "type",
               lambda: f"{what}: a {type(out).__name__}")
        expect(repr(out.name) == repr(series.name), "name",
               lambda: f"{what}: it is named {out.name!r}")
        expect(list(out.index.names) == list(index.names), "index-name",
               lambda: f"{what}: its index is named {out.index.names!r}")
        groups = {}
        for k, v in zip(ix, values):
            groups.setdefault(k, []).append(v)
        fn = self.AGGS[agg]
        if agg is None and kind == "bool":
            fn = any
        want = {repr(self.LABELS[labels][k]): fn(v)
                for k, v in groups.items()}
        got = [(repr(k), v) for k, v in out.items()]
        expect(len(dict(got)) == len(got) and set(dict(got)) == set(want),
               "labels", lambda: f"{what}: got {got!r}, should be {want!r}")
        for k, v in got:
            expect(alike(v, want[k]), "value",
                   lambda: f"{what}: got {got!r}, should be {want!r}")
        if agg is None and kind == "bool":
            expect(not got or out.dtype == bool, "bool",
                   lambda: f"{what}: its type is {out.dtype}")
        elif agg is None:
            expect([k for k, _ in got] == list(want), "order",
                   lambda: f"{what}: got {got!r}, should be {want!r}")
        return case, len(ix) > 1


def of_type(kind, cells):
    """cells 0, 1, 2 of a type, None for missing ones"""
    menu = TYPED[kind]
    values = [None if c is None else menu[c] for c in cells]
    if kind.startswith("category"):
        return pd.Series(pd.Categorical(
            values, categories=menu[::-1], ordered=kind == "category-ordered"))
    if kind == "interval":
        return pd.Series(pd.arrays.IntervalArray(
            [NAN if v is None else v for v in values],
            dtype="interval[int64, right]" if None not in values else None))
    return pd.Series(values, dtype=kind)


TYPED = {
    "str": ["b", "a", ""], "string": ["b", "a", ""], "object": ["b", 1, ()],
    "Int64": [2, 1, 2 ** 60 + 1], "UInt8": [2, 1, 255],
    "Float64": [0.5, -1.0, 2.0], "boolean": [True, False, True],
    "bool": [True, False, True], "category": ["b", "a", "c"],
    "category-numbers": [2, 1, 3], "category-bools": [True, False],
    "category-ordered": ["b", "a", "c"],
    "datetime64[ns]": list(map(pd.Timestamp, ("2021", "2020", "2022"))),
    "datetime64[ns, UTC]": [pd.Timestamp(t, tz="UTC")
                            for t in ("2021", "2020", "2022")],
    "timedelta64[ns]": list(map(pd.Timedelta, (2, 1, 3))),
    "period[M]": [pd.Period(p, "M") for p in ("2021-01", "2020-01",
                                              "2022-01")],
    "interval": [pd.Interval(1, 2), pd.Interval(0, 1), pd.Interval(2, 3)],
    "int64[pyarrow]": [2, 1, 2 ** 60 + 1],
    "bool[pyarrow]": [True, False, True],
    "string[pyarrow]": ["b", "a", ""],
    "float16": [0.5, -1.0, 2.0], "uint64": [2, 1, 2 ** 64 - 1],
}


def word(v):
    return repr(v.item() if isinstance(v, np.generic) and
                v.dtype.kind not in "mM" else v)


class Typed(Helper):
    """every helper on columns, keys and labels of every type."""
    name = "types"

    def cases(self, tier):
        longest = 3 if tier == "quick" else 4
        for kind, menu in TYPED.items():
            whole = range(len(menu)) if len(set(map(repr, menu))) == len(
                menu) else (0, 1)
            gaps = () if kind in ("bool", "float16", "uint64") else (None,)
            for n in range(longest + 1):
                for cells in itertools.product([*whole, *gaps], repeat=n):
                    yield kind, cells

    def run(self, case):
        kind, cells = case
        n = len(cells)
        series = of_type(kind, cells).rename("v")
        values = list(series)
        df = pd.DataFrame({"v": series, "w": range(n)})
        frame = image(df)
        what = f"{kind} {values!r}"

        def check(name, got, want):
            expect(len(got) == len(want) and all(map(alike, got, want)), name,
                   lambda: f"{name} of {what}: got {got!r}, should be "
                           f"{want!r}")

        # values under labels, two of which are the same
        labels = [(1, 1, 2, 1)[i] for i in range(n)]
        labelled = series.set_axis(pd.Index(labels, dtype="int64"))
        out = self.ok(what, [labelled], "squeeze", labelled)
        groups = {}
        for label, v in zip(labels, values):
            groups.setdefault(label, []).append(v)
        if series.dtype.kind == "b":
            want = [any(not missing(x) and bool(x) for x in g)
                    for g in groups.values()]
        else:
            want = [g[0] for g in groups.values()]
        check("squeeze", list(out), want)
        out = self.ok(what, [labelled], "squeeze", labelled, "count")
        check("squeeze by count", list(out),
              [sum(not missing(v) for v in g) for g in groups.values()])
        # as labels
        if kind not in ("interval", "float16"):
            under = pd.Series(range(n), index=pd.Index(series))
            out = self.ok(what, [under], "squeeze", under)
            firsts = {}
            for i, v in enumerate(values):
                firsts.setdefault("-" if missing(v) else repr(v), i)
            check("squeeze by label", list(out), list(firsts.values()))
        # rows
        wanted = [not missing(v) and alike(v, values[0]) for v in values]
        out = self.ok(what, [df], "split_on", df, pd.Series(
            wanted, index=df.index, dtype=bool))
        for part, picked in zip(out, (True, False)):
            check("split_on", list(part["v"]),
                  [v for v, w in zip(values, wanted) if w == picked])
            expect(part["v"].dtype == series.dtype, "type",
                   f"split_on: {what} became {part['v'].dtype}")
        out = self.ok(what, [df], "dupe_df_block", df, 2)
        check("dupe_df_block", list(out["v"]),
              [v for v in values for _ in (0, 1)])
        expect(out["v"].dtype == series.dtype, "type",
               f"dupe_df_block: {what} became {out['v'].dtype}")
        nested = df.assign(l=pd.Series([[i] for i in range(n)], dtype=object))
        out = self.ok(what, [df], "unpack_column", nested, "l")
        check("unpack_column", list(out["v"]), values)
        expect(out["v"].dtype == series.dtype, "type",
               f"unpack_column: {what} became {out['v'].dtype}")
        twice = pd.concat([series, series, df["w"]], axis=1)
        out = self.ok(what, [df], "check_and_drop_duplicate_columns", twice)
        expect(image(out) == frame, "duplicates",
               lambda: f"of {what} twice, {image(out)!r} is left")
        # keys, which have no gaps, and can't be of half floats in pandas
        if any(map(missing, values)) or kind == "float16":
            return case, n > 1
        distinct = list({word(v): v for v in values}.values())
        for columns in (["v"], ["w", "v"], ["v", "w"]):
            out = self.ok(what, [df], "unique_to_records", df, columns)
            rows = sorted(map(word, zip(*(list(out[c]) for c in columns))))
            plain = sorted(map(word, distinct)) if columns == ["v"] else \
                sorted(map(word, values))
            cells_got = sorted(map(word, out["v"]))
            expect(len(rows) == len(set(rows)) and len(cells_got) == len(
                plain) and cells_got == plain, "records",
                lambda: f"unique_to_records({what}, {columns}): "
                        f"{cells_got!r}, should be {plain!r}")
        for k in range(n + 1):
            rest = df.iloc[k:]
            have = {word(v) for v in values[k:]}
            out = self.ok(what, [df, rest], "junction", df, rest, ["v"])
            got = sorted(word(key[0]) for key in out)
            want = sorted(word(v) for v in distinct if word(v) not in have)
            expect(len(got) == len(want) and got == want, "junction",
                   lambda: f"junction of {what} and its rows from {k} on: "
                           f"{got!r}, should be {want!r}")
        if kind in ("object",):
            return case, n > 1
        for given in (None, distinct[:1], distinct):
            args = ["v"] if given is None else ["v", given]
            out = self.ok(f"{what}, {given}", [df], "smash", df, *args)
            got = sorted(map(int, out))
            want = [i for i, v in enumerate(values)
                    if given is None or word(v) in map(word, given)]
            expect(got == want, "smash",
                   lambda: f"smash({what}, {given!r}): {got!r}, should be "
                           f"{want!r}")
        out = self.ok(what, [df], "smash", df, "w")
        check("smash", list(out), values)
        return case, n > 1


CELLS = [[1, 2], [3], (4, 5), None, [], ["a", None], [[6], 7.5]]


def spread(cells):
    kept = [(i, list(c)) for i, c in enumerate(cells) if c is not None]
    width = max((len(c) for _, c in kept), default=0)
    return {i: c + [None] * (width - len(c)) for i, c in kept}, width


class Unpack(Helper):
    name = "unpack"
    NAMES = {"strings": 5, "repeated": "", "negative": ("a", "b")}

    def cases(self, tier):
        for n in range(4):
            for cells in itertools.product(range(len(CELLS)), repeat=n):
                for index in INDICES:
                    if n == 3 and tier == "quick" and index in (
                            "range", "strings"):
                        continue
                    yield cells, index

    def run(self, case):
        cells, index = case
        n = len(cells)
        cells = [CELLS[i] for i in cells]
        rows, width = spread(cells)
        name = self.NAMES.get(index, "n")
        series = pd.Series(cells, dtype=object, index=INDICES[index](n),
                           name=name)
        out = self.ok(f"{cells}, index {index}", [series], "unpack", series)
        what = f"unpack({cells}, index {index})"
        expect(list(out.columns) == [f"{name}_{i}" for i in range(width)],
               "columns", lambda: f"{what}: columns {list(out.columns)!r}")
        if width:
            expect(list(map(repr, out.index)) ==
                   [repr(list(series.index)[i]) for i in rows], "index",
                   lambda: f"{what}: index {out.index!r}")
        for k, row in enumerate(rows.values()):
            for j in range(width):
                expect(alike(out.iloc[k, j], row[j]), "cell",
                       lambda: f"{what}: row {k}, column {j} is "
                               f"{out.iloc[k, j]!r}, should be {row[j]!r}")
        # and as a column of a dataframe
        for where in (0, 1, 2):
            df = pd.DataFrame({"m": [10 + i for i in range(n)],
                               "s": [f"s{i}" for i in range(n)]},
                              index=series.index)
            df.insert(where, name, series.to_numpy())
            whole = f"unpack_column({cells}, index {index}, at {where})"
            out = self.ok(f"{cells}, index {index}, at {where}", [df],
                          "unpack_column", df, name)
            columns = list(out.columns)
            expect([c for c in columns if c in ("m", "s")] == ["m", "s"] and
                   [c for c in columns if c not in ("m", "s")] ==
                   [f"{name}_{i}" for i in range(width)], "column-columns",
                   lambda: f"{whole}: columns {columns!r}")
            expect(list(map(repr, out.index)) == list(map(repr, df.index)),
                   "column-index", lambda: f"{whole}: index {out.index!r}")
            for i in range(n):
                expect(out["m"].iloc[i] == 10 + i and
                       out["s"].iloc[i] == f"s{i}", "column-others",
                       lambda: f"{whole}: row {i} is {out.iloc[i]!r}")
                for j in range(width):
                    want = rows[i][j] if i in rows else None
                    value = out[f"{name}_{j}"].iloc[i]
                    expect(alike(value, want), "column-cell",
                           lambda: f"{whole}: row {i}, column {name}_{j} is "
                                   f"{value!r}, should be {want!r}")
        return case, n > 1


Pair = collections.namedtuple("Pair", ["one", "two"])


class UnpackNamed(Helper):
    """cells whose items have names of their own: their positions count."""
    name = "unpack-named"
    VALUES = [1, None, "a"]

    def cases(self, tier):
        cells = [None, *itertools.product(range(len(self.VALUES)), repeat=2)]
        for n in range(1, 4 if tier == "thorough" else 3):
            yield from itertools.product(cells, repeat=n)

    def run(self, case):
        cells = [c and Pair(*(self.VALUES[i] for i in c)) for c in case]
        rows, width = spread(cells)
        series = pd.Series(cells, dtype=object, name="n")
        out = self.ok(f"{cells}", [series], "unpack", series)
        columns = [f"n_{i}" for i in range(width)]
        expect(list(out.columns) == columns, "columns",
               lambda: f"unpack({cells}): columns {list(out.columns)!r}")
        df = pd.DataFrame({"n": series, "m": range(len(cells))})
        whole = self.ok(f"{cells}", [df], "unpack_column", df, "n")
        expect(sorted(whole.columns) == sorted(["m", *columns]), "columns",
               lambda: f"unpack_column({cells}): columns "
                       f"{list(whole.columns)!r}")
        for i, row in rows.items():
            for c, want in zip(columns, row):
                for got in out.loc[i, c], whole.loc[i, c]:
                    expect(alike(got, want), "cell",
                           lambda: f"unpacking {cells}: row {i}, column {c} "
                                   f"is {got!r}, should be {want!r}")
        return case, width > 0


class Smash(Helper):
    name = "smash"
    LABELS = [("v", "w"), ("value", "variable"), (5, "x_y"), ("v",), ()]

    def cases(self, tier):
        longest = 2 if tier == "quick" else 3
        for n in range(longest + 1):
            for rows in itertools.product(itertools.product((1, 2), "ab"),
                                          repeat=n):
                for labels in range(len(self.LABELS)):
                    for by in ("k", ("k",), ("k", "l"), ("l", "k"), "l"):
                        for values in (None, (1, "a"), ("b",),
                                       (1, 2, "a", "b"), ()):
                            for named in (None, "cn"):
                                yield rows, labels, by, values, named

    def run(self, case):
        rows, labels, by, values, named = case
        labels = self.LABELS[labels]
        n = len(rows)
        df = pd.DataFrame({"k": pd.Series([r[0] for r in rows], dtype=int),
                           "l": pd.Series([r[1] for r in rows], dtype=object),
                           **{v: [10 * i + j for i in range(n)]
                              for j, v in enumerate(labels)}})
        keys = [by] if isinstance(by, str) else list(by)
        df = df[keys + list(labels)]
        df.index = INDICES["repeated"](n)
        df.columns.name = named
        args = [by if isinstance(by, str) else list(by)]
        if values is not None:
            args.append(list(values))
        what = f"{rows}, {labels}, {by}, {values}, {named}"
        out = self.ok(what, [df], "smash", df, *args)
        what = f"smash({what})"
        expect(isinstance(out, pd.Series), "type",
               lambda: f"{what}: a {type(out).__name__}")
        where = [{"k": 0, "l": 1}[k] for k in keys]
        want = Counter()
        for i, row in enumerate(rows):
            key = [row[w] for w in where]
            if values is not None and not all(k in values for k in key):
                continue
            for j, v in enumerate(labels):
                want["_".join(map(str, key + [v])), 10 * i + j] += 1
        got = Counter(zip(out.index, map(int, out)))
        expect(got == want, "values",
               lambda: f"{what}: got {got!r}, should be {want!r}")
        return case, n > 1


class Blocks(Helper):
    name = "dupe_df_block"
    COLUMNS = [("int64", [2 ** 53 + 1, 1, -1]), ("float64", [0.5, NAN, 1e300]),
               ("object", ["x", None, [1]]), ("bool", [True, False, True]),
               ("uint8", [1, 2, 255]), ("Int64", [1, None, 2 ** 60 + 1]),
               ("datetime64[ns]", ["2020-01-01", "NaT", "2021-01-01"])]

    def cases(self, tier):
        for n in range(4):
            for cols in itertools.product(range(len(self.COLUMNS)), repeat=n):
                for rows in range(4):
                    for repeats in range(4):
                        for index in ("range", "repeated"):
                            for labels in ("abc", "aaa"):
                                if n == 3 and tier == "quick" and (
                                        labels, index) != ("abc", "repeated"):
                                    continue
                                yield cols, rows, repeats, index, labels

    def run(self, case):
        cols, rows, repeats, index, labels = case
        columns = [pd.Series(self.COLUMNS[i][1][:rows],
                             dtype=self.COLUMNS[i][0]) for i in cols]
        df = pd.concat(columns, axis=1) if cols else pd.DataFrame(
            index=range(rows))
        df.columns = list(labels[:len(cols)])
        df.index = INDICES[index](rows)
        what = f"{image(df)!r}, {repeats}"
        out = self.ok(what, [df], "dupe_df_block", df, repeats)
        what = f"dupe_df_block({what})"
        expect(list(out.columns) == list(df.columns), "columns",
               lambda: f"{what}: columns {list(out.columns)!r}")
        expect(len(out) == rows * repeats, "length",
               lambda: f"{what}: {len(out)} rows")
        expect(list(out.index) == list(range(rows * repeats)), "index",
               lambda: f"{what}: index {out.index!r}")
        for j in range(len(cols)):
            got = list(out.iloc[:, j])
            want = [v for v in df.iloc[:, j] for _ in range(repeats)]
            expect(all(map(alike, got, want)), "cells",
                   lambda: f"{what}: column {j} is {got!r}, should be "
                           f"{want!r}")
        return case, rows > 1


class Types(Helper):
    name = "typed_columns"
    TYPES = {
        "int8": [1], "int64": [1], "uint8": [1], "uint64": [1],
        "float16": [1], "float64": [1], "Int64": [1], "UInt8": [1],
        "Float32": [1], "bool": [1], "boolean": [True], "object": [[1]],
        "str": ["1"], "datetime64[ns]": ["2020-01-01"], "category": [1],
        "timedelta64[ns]": [1], "complex64": [1],
        "interval": None,
    }
    NAMES = {
        "int": ("int8", "int64", "uint8", "uint64", "Int64", "UInt8"),
        "uint": ("uint8", "uint64", "UInt8"),
        "float": ("float16", "float64", "Float32"),
        "INT8": ("int8", "uint8", "UInt8"),
        "bool": ("bool", "boolean"), "object": ("object",), "str": ("str",),
        "datetime": ("datetime64[ns]",), "category": ("category",),
        "timedelta": ("timedelta64[ns]",), "nothing": (),
        r"float\d": ("float16", "float64", "Float32"),
        "complex": ("complex64",),
    }

    def cases(self, tier):
        for n in range(3 if tier == "quick" else 4):
            for types in itertools.product(self.TYPES, repeat=n):
                for labels in ("abc", "aaa"):
                    if n < 2 and labels == "aaa":
                        continue
                    if n == 3 and labels == "abc":
                        continue
                    yield types, labels

    def run(self, case):
        types, labels = case
        parts = []
        for t in types:
            if t == "interval":
                parts.append(pd.Series([pd.Interval(0, 1)]))
            else:
                parts.append(pd.Series(self.TYPES[t], dtype=t))
        df = pd.concat(parts, axis=1) if parts else pd.DataFrame(index=[5])
        df.columns = list(labels[:len(types)])
        df.index = [5]
        requests = [(n, (n,)) for n in self.NAMES] + [
            ((n, m), (n, m)) for n, m in itertools.permutations(
                ("int", "float", "bool", "object", "str"), 2)]
        for given, names in requests:
            if "int" in names and "interval" in types:
                continue
            keep = [j for j, t in enumerate(types)
                    if any(t in self.NAMES[n] for n in names)]
            out = self.ok(f"{types}, {labels}, {given!r}", [df],
                          "typed_columns", df, given)
            want = image(df.iloc[:, keep])
            expect(image(out) == want, "columns",
                   lambda: f"typed_columns({types}, {labels}, {given!r}): "
                           f"got {image(out)!r}, should be {want!r}")
        keep = [j for j, t in enumerate(types)
                if t in self.NAMES["int"] + self.NAMES["float"]]
        out = self.ok(f"{types}, {labels}", [df], "numeric_columns", df)
        want = image(df.iloc[:, keep])
        expect(image(out) == want, "numeric",
               lambda: f"numeric_columns({types}, {labels}): got "
                       f"{image(out)!r}, should be {want!r}")
        if len(types) == 1:
            series = parts[0]
            out = self.ok(f"series of {types}", [series], "numeric_columns",
                          series)
            if keep:
                expect(isinstance(out, pd.Series) and
                       image(out) == image(series), "series",
                       lambda: f"numeric_columns(series of {types}): {out!r}")
            else:
                expect(out.shape[1:] in ((), (0,)) and
                       (out.ndim == 2 or len(out) == 0), "series",
                       lambda: f"numeric_columns(series of {types}): {out!r}")
        return case, len(types) > 1


class Strings(Helper):
    name = "pdstr"
    METHODS = [("replace", ("a", "b"), {"regex": False},
                lambda s: s.replace("a", "b")),
               ("upper", (), {}, str.upper), ("len", (), {}, len),
               ("contains", ("a",), {}, lambda s: "a" in s),
               ("slice", (1,), {}, lambda s: s[1:]),
               ("split", ("a",), {}, lambda s: s.split("a")),
               ("startswith", ("ab",), {}, lambda s: s.startswith("ab")),
               ("pad", (3,), {"side": "right", "fillchar": "-"},
                lambda s: s.ljust(3, "-"))]
    CELLS = ["", "a", "ab", "ba", "aba", None]

    def cases(self, tier):
        for m in range(len(self.METHODS)):
            for n in range(4):
                for cells in itertools.product(self.CELLS, repeat=n):
                    yield m, cells, "repeated"

    def run(self, case):
        m, cells, index = case
        method, args, kwargs, fn = self.METHODS[m]
        # an empty object series has no string methods before pandas knows
        series = pd.Series(list(cells), index=INDICES[index](len(cells)),
                           dtype="str", name="n")
        got = call("pdstr", method, *args, **kwargs)
        expect(got[0] == "ok" and callable(got[1]), "callable",
               lambda: f"pdstr({method}): {show(got)}")
        for _ in range(2):  # it can be used again
            out = attempt(got[1], series)
            expect(out[0] == "ok", "failed",
                   lambda: f"pdstr({method})({cells}): {show(out)}")
            want = [None if c is None else fn(c) for c in cells]
            if method in ("contains", "startswith"):
                want = [w or False for w in want]
            values = list(out[1])
            if method in ("contains", "startswith"):
                values = [False if missing(v) else v for v in values]
            expect(len(values) == len(want) and all(map(alike, values, want)),
                   "values", lambda: f"pdstr({method})({cells}): {values!r}, "
                                     f"should be {want!r}")
            expect(list(out[1].index) == list(series.index), "index",
                   lambda: f"pdstr({method})({cells}): {out[1].index!r}")
        return case, len(cells) > 1


class Items(Helper):
    name = "itemize_numpy"
    VALUES = [f"np.{t}({v})" for t in (
        "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32",
        "uint64") for v in ("0", "1", f"np.iinfo(np.{t}).max",
                            f"np.iinfo(np.{t}).min")] + [
        f"np.{t}({v})" for t in ("float16", "float32", "float64")
        for v in ("0", "-0.0", "0.1", "np.inf", "np.nan",
                  f"np.finfo(np.{t}).max")] + [
        "np.bool_(True)", "np.bool_(False)", "np.str_('x')", "np.str_('')",
        "np.bytes_(b'x')", "np.complex64(1j)"]
    OTHERS = ["1", "1.5", "True", "None", "'x'", "[np.int8(1)]", "(1,)", "{}",
              "np.array([1])", "np.array(1)", "np.int8", "np.dtype('int8')",
              "pd.Series([1])", "pd.NA"]

    def cases(self, tier):
        yield from (("numpy", v) for v in self.VALUES)
        yield from (("other", v) for v in self.OTHERS)

    def run(self, case):
        kind, text = case
        value = eval(text)
        got = call("itemize_numpy", value)
        expect(got[0] == "ok", "failed",
               lambda: f"itemize_numpy({text}): {show(got)}")
        if kind == "other":
            expect(got[1] is value, "other",
                   lambda: f"itemize_numpy({text}): {got[1]!r}")
            return text, True
        python = {"i": int, "u": int, "f": float, "b": bool, "U": str,
                  "S": bytes, "c": complex}[value.dtype.kind]
        want = python(value)
        expect(type(got[1]) is python and (
            got[1] == want or got[1] != got[1] and want != want) and
            str(got[1]) == str(want), "numpy",
            lambda: f"itemize_numpy({text}): {got[1]!r}, should be {want!r}")
        return text, True


def harnesses(tier):
    return [Split(), Duplicates(), Sets(), Unique(), Squeeze(), Typed(), Unpack(), UnpackNamed(),
            Smash(), Blocks(), Types(), Strings(), Items()]
