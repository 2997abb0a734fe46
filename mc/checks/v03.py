"""V03: extract_constants finds exactly the constants and their values."""
import itertools
import warnings

import numpy as np
import pandas as pd

from ..core import CaseHarness
from ..judge import attempt, expect, show
from ..loader import load

LEVEL = "exploration"
RULE = ("every dataframe up to 3x3 over three numbers (one missing), and over "
        "strings, lists and None; every single column of 9 types up to 3 "
        "rows, every pair and many triples of columns of different types; x "
        "all settings x unique, repeated and multi-level labels; the oracle "
        "compares python values cell by cell; non-trivial: at least two "
        "cells")
ASSUMPTIONS = [
    "with dropna off it is left open whether a column of nothing but missing "
    "values is constant",
    "cells holding numpy arrays are left out: they have no single truth value",
]

NAN = float("nan")
SETTINGS = list(itertools.product((True, False), (True, False),
                                  ("rows", "columns"), (True, False)))
ALPHABETS = {
    "numbers": ("float64", [1.0, 2.0, NAN]),
    "objects": ("object", ["a", [1, 2], None]),
    "lists": ("object", [[1, 2], [1, 3], [1, 2, 3]]),
    "mixed": ("object", [1, "1", NAN]),
    "ints": ("int64", [0, 1, -1]),
    "bools": ("bool", [True, False]),
    "nullable": ("Int64", [1, 0, None]),
    "strings": ("str", ["a", "", None]),
    "dates": ("datetime64[ns]", ["2020-01-01", "2021-01-01", "NaT"]),
    "categories": ("category", ["a", "b", None]),
    "na": ("object", [1, pd.NA, None]),
    "large": ("Int64", [2 ** 53 + 1, 2 ** 53, None]),
    "large-int": ("int64", [2 ** 53 + 1, 2 ** 53]),
    "large-uint": ("uint64", [2 ** 53 + 1, 2 ** 53]),
    "large-float": ("float64", [2.0 ** 53, NAN]),
    "tenths": ("float32", [0.1, 0.5]),
    "exact-tenths": ("float64", [0.1, float(np.float32(0.1))]),
    "tuples": ("object", [(1, 2), (1,), {"a": 1}]),
}
# (alphabet, cells of three rows)
MENU = [("numbers", (0, 0, 0)), ("numbers", (2, 0, 2)), ("numbers", (2, 2, 2)),
        ("numbers", (0, 1, 2)), ("objects", (1, 1, 1)), ("objects", (2, 1, 1)),
        ("objects", (0, 0, 1)), ("ints", (1, 1, 1)), ("ints", (0, 1, 1)),
        ("bools", (0, 0, 0)), ("nullable", (0, 0, 2)), ("nullable", (2, 2, 1)),
        ("strings", (0, 2, 0)), ("strings", (0, 1, 0)), ("dates", (0, 0, 2)),
        ("categories", (0, 2, 0)), ("categories", (0, 0, 1)),
        ("lists", (0, 0, 0)), ("lists", (0, 0, 2)), ("objects", (2, 2, 2))]
# types without a common one that would hold all their values
CLOSE = [(alphabet, cells)
         for alphabet in ("large", "large-int", "large-uint", "large-float",
                          "tenths", "exact-tenths")
         for cells in itertools.product(
             range(len(ALPHABETS[alphabet][1])), repeat=2)]
LABELS = {
    "unique": (lambda n: list("xyz")[:n], lambda n: list(range(n))),
    "repeated": (lambda n: ["x"] * n, lambda n: [4] * n),
    "reversed": (lambda n: [2, 1, 0][:n], lambda n: list("cba")[:n]),
    "multi": (
        lambda n: pd.MultiIndex.from_tuples(
            [("a", 1), ("a", 2), ("b", 1)][:n]) if n else
        pd.MultiIndex.from_arrays([[], []]),
        lambda n: pd.MultiIndex.from_tuples(
            [("a", 1), ("a", 2), ("b", 1)][:n]) if n else
        pd.MultiIndex.from_arrays([[], []])),
}


def missing(x):
    return x is None or x is pd.NA or x is pd.NaT or (
        isinstance(x, (float, np.floating)) and x != x)


def build(cols, rows, labels):
    parts = []
    for alphabet, cells in cols:
        t, values = ALPHABETS[alphabet]
        parts.append(pd.Series([values[i] for i in cells[:rows]], dtype=t))
    df = pd.concat(parts, axis=1) if parts else pd.DataFrame(
        index=range(rows))
    columns, index = LABELS[labels]
    df.columns = columns(len(cols))
    df.index = index(rows)
    return df


def table(df):
    columns = [list(df.iloc[:, j]) for j in range(df.shape[1])]
    return [[col[i] for col in columns] for i in range(df.shape[0])]


def image(df):
    return (list(map(repr, df.columns)), list(map(repr, df.index)),
            df.shape, [[repr(v) for v in row] for row in table(df)])


def equal(one, two):
    listlike = (list, tuple, dict)
    if isinstance(one, listlike) != isinstance(two, listlike):
        return False  # Timestamps broadcast
    # numpy rounds integers it compares with floats
    return bool(getattr(one, "item", lambda: one)()
                == getattr(two, "item", lambda: two)())


def constant(values, dropna):
    """True, False or None (left open), and the constant's value"""
    kept = [v for v in values if not missing(v)]
    if dropna or not values:
        if not kept:
            return True, NAN
    elif not kept:
        return None, NAN
    elif len(kept) < len(values):
        return False, None
    if all(equal(v, kept[0]) for v in kept):
        return True, kept[0]
    return False, None


class Frames(CaseHarness):
    def __init__(self, name):
        self.name = name

    def each(self, tier):
        thorough = tier == "thorough"
        if self.name == "uniform":
            for alphabet in ("numbers", "objects", "lists", "mixed", "na"):
                k = len(ALPHABETS[alphabet][1])
                for rows in range(4):
                    columns = list(itertools.product(range(k), repeat=rows))
                    for n in range(4):
                        big = rows * n > 6
                        if big and not thorough and alphabet not in (
                                "numbers", "objects"):
                            continue
                        for cells in itertools.product(columns, repeat=n):
                            if big and not thorough and any(
                                    a > b for a, b in zip(cells, cells[1:])):
                                continue
                            for s in range(len(SETTINGS)):
                                if rows * n == 6 and not thorough and (
                                        SETTINGS[s][:2] not in (
                                            (True, True), (False, False))
                                        or not SETTINGS[s][3]
                                        and alphabet != "na"):
                                    continue
                                # of 3x3, the two main uses
                                if big and SETTINGS[s] not in (
                                        (True, True, "rows", True),
                                        (True, False, "columns", True)):
                                    continue
                                yield (tuple((alphabet, c) for c in cells),
                                       rows, "unique", s)
        elif self.name == "columns":
            for alphabet, (t, values) in ALPHABETS.items():
                for rows in range(5 if thorough else 4):
                    for cells in itertools.product(range(len(values)),
                                                   repeat=rows):
                        for s in range(len(SETTINGS)):
                            yield ((alphabet, cells),), rows, "unique", s
        elif self.name == "close":
            for n in (2, 3) if thorough else (2,):
                for cols in itertools.product(CLOSE, repeat=n):
                    for s in range(len(SETTINGS)):
                        if n == 2 or SETTINGS[s] in (
                                (True, True, "columns", True),
                                (False, False, "columns", True)):
                            yield cols, 2, "unique", s
        else:
            for n in (2, 3):
                menu = MENU if n == 2 or thorough else MENU[::3]
                for cols in itertools.product(menu, repeat=n):
                    for labels in LABELS:
                        if n == 3 and not thorough and labels != "unique":
                            continue
                        if n == 2 and not thorough and labels in (
                                "reversed", "multi") and cols[0] > cols[1]:
                            continue
                        for rows in ((3,) if n == 3 else (1, 3)):
                            for s in range(len(SETTINGS)):
                                if labels not in ("unique", "repeated") and \
                                        not SETTINGS[s][3]:
                                    continue
                                yield cols, rows, labels, s

    def cases(self, tier):
        """group the settings of one dataframe together"""
        key, group = None, []
        for *frame, s in self.each(tier):
            if frame != key:
                if group:
                    yield (*key, tuple(group))
                key, group = frame, []
            group.append(s)
        if group:
            yield (*key, tuple(group))

    def run(self, case):
        cols, rows, labels, group = case
        df = build(cols, rows, labels)
        before, cells = image(df), table(df)
        for s in group:
            self.one(df, before, cells, cols, labels, s)
        return case, rows * len(cols) > 1

    def one(self, df, before, cells, cols, labels, s):
        to_dict, drop, how, dropna = SETTINGS[s]
        settings = dict(to_dict=to_dict, drop_constants=drop, how=how,
                        dropna=dropna)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = attempt(load("pivot").extract_constants, df, **settings)
        what = f"extract_constants of {before!r}, {settings}"
        expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
        expect(isinstance(got[1], tuple) and len(got[1]) == 2, "pair",
               lambda: f"{what}: {got[1]!r}")
        constants, rest = got[1]
        expect(image(df) == before, "changed",
               f"{what}: the dataframe is now {image(df)}")
        names = list(df.columns) if how == "rows" else list(df.index)
        lines = ([[row[j] for row in cells] for j in range(len(cols))]
                 if how == "rows" else cells)
        verdicts = [constant(line, dropna) for line in lines]
        must = {i for i, v in enumerate(verdicts) if v[0] is True}
        may = {i for i, v in enumerate(verdicts) if v[0] is not False}

        def part(keep):
            return image(df.iloc[:, keep] if how == "rows"
                         else df.iloc[keep])

        # choose what is left open
        options = [must | set(extra)
                   for n in range(len(may - must) + 1)
                   for extra in itertools.combinations(sorted(may - must), n)]
        if to_dict:
            expect(type(constants) is dict, "dict",
                   f"{what}: the constants are a {type(constants).__name__}")
            for name, value in constants.items():
                where = [i for i in may if names[i] == name]
                expect(where, "not-constant",
                       f"{what}: {name!r} is not constant, but given as "
                       f"{value!r}")
                right = [verdicts[i][1] for i in where]
                expect(any(missing(value) if missing(r) else
                           not missing(value) and equal(value, r)
                           for r in right), "value",
                       f"{what}: {name!r} is {value!r}, should be {right!r}")
                expect(not isinstance(value, np.generic), "value-type",
                       f"{what}: {name!r} is a {type(value).__name__}")
            for i in must:
                expect(names[i] in constants, "missed",
                       f"{what}: {names[i]!r} is constant, got {constants!r}")
            options = [o for o in options
                       if {names[i] for i in o} == set(constants)]
        else:
            expect(isinstance(constants, pd.DataFrame), "frame",
                   f"{what}: the constants are a {type(constants).__name__}")
            seen = image(constants)
            options = [o for o in options if seen == part(sorted(o))]
            expect(options, "constants",
                   f"{what}: got {seen!r}, should be {part(sorted(must))!r}")
        expect(isinstance(rest, pd.DataFrame), "frame",
               f"{what}: the rest is a {type(rest).__name__}")
        if drop:
            seen = image(rest)
            wants = [part([i for i in range(len(lines)) if i not in o])
                     for o in options]
        else:
            seen, wants = image(rest), [before]
        expect(seen in wants, "rest",
               f"{what}: the other dataframe is {seen!r}, should be "
               f"{wants[0] if wants else None!r}")

def harnesses(tier):
    return [Frames("uniform"), Frames("columns"), Frames("types"),
            Frames("close")]
