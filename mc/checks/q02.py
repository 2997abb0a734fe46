"""Q02: reading between bounds and metadata tables match the file."""
import contextlib
import datetime as dt
import io
import itertools
import os

import numpy as np
import pandas as pd

from ..core import CaseHarness
from ..judge import attempt, expect, show
from ..loader import load
from .q01 import INF, NAN, SCRATCH, TYPES, key, limit_threads, make_table, nano, \
    missing, name_cases, name_table

LEVEL = "exploration"
RULE = ("every column up to 4 rows over a small alphabet with duplicates and "
        "nulls, and up to 3 rows over extremes of several types, x row groups "
        "of 1 to 4 rows x with and without statistics x every pair of bounds "
        "x choices of columns; every file of up to 3 columns of 6 types x up "
        "to 4 row groups x compressions for the metadata tables; oracles "
        "filter python lists and ask pyarrow column by column; non-trivial: "
        "at least two rows")
ASSUMPTIONS = [
    "the records given to read_between are those of the bounded column or of "
    "all columns of the file",
    "a file has at least one row group",
    "num_values may or may not count nulls, but the table adds up the records",
]

BOUNDS = {
    "int64": [-1, 0, 1, 3, 5, 6, 0.5],
    "float64": [-INF, -1.0, 0.1, 0.2, 0.3, INF],
    "int64-close": [2 ** 60 - 2, 2 ** 60 - 1, 2 ** 60, 2 ** 60 + 1,
                    2 ** 60 + 2],
    "float64-close": [0.9, 1.0, 1.0000000000000002, 0.9999999999999999, 1.1],
    "uint64": [-1, *TYPES["uint64"][1][:5]],
    "timestamp": TYPES["timestamp"][1][:3],
    "timestamp-ns": [*TYPES["timestamp-ns"][1][:4], nano("2020-01-01", 71)],
    "timestamp-zone": [*TYPES["timestamp-zone"][1][:3],
                       dt.datetime(2020, 1, 1, 14, tzinfo=dt.timezone.utc)],
    "timestamp-ms": [*TYPES["timestamp-ms"][1][:3],
                     dt.datetime(2020, 1, 1, 0, 0, 0, 500)],
    "decimal": TYPES["decimal"][1][:3],
}
SELECTIONS = [None, ["i"], ["x", "i"], ["s"], []]


class Between(CaseHarness):
    name = "read_between"

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        more = tier == "thorough"
        for t in BOUNDS:
            n = len(TYPES[t][1])
            longest = (4 if t == "int64" else 3) + more
            if n > 5:
                longest -= 1
            for rows in range(1, longest + 1):
                for cells in itertools.product(range(n), repeat=rows):
                    for size in (1, 2, 3, 4):
                        if size > max(rows, 1):
                            continue
                        for stats in (True, False):
                            if not stats and size != 2:
                                continue
                            yield t, cells, size, stats

    def run(self, case):
        limit_threads()
        from pyarrow import parquet
        t, cells, size, stats = case
        values = [TYPES[t][1][i] for i in cells]
        table = make_table(t, values)
        source = SCRATCH("in.parquet")
        mosaic = load("mosaic")
        out = io.StringIO()
        try:
            parquet.write_table(table, source, row_group_size=size,
                                write_statistics=stats)
            records = attempt(mosaic.parquet_metadata_records, source)
            expect(records[0] == "ok", "records",
                   lambda: f"parquet_metadata_records of {case}: "
                           f"{show(records)}")
            everything = records[1]
            own = [r for r in everything if r["path_in_schema"] == "x"]
            reader = parquet.ParquetFile(source)
            exact = table["x"].to_pylist()
            kept = repr(everything)
            for k, (low, high) in enumerate(itertools.product(
                    BOUNDS[t], [*BOUNDS[t], None])):
                records = everything if (k + len(cells)) % 2 else own
                columns = SELECTIONS[k % len(SELECTIONS)]
                kwargs = {"verbose": False}
                if columns is not None:
                    kwargs["columns"] = columns
                if t == "decimal" and low == high:
                    continue
                what = (f"reading {values!r} ({size} rows a group, statistics "
                        f"{stats}) between {low!r} and {high!r}, columns "
                        f"{columns}, given the records of "
                        f"{'x' if records is own else 'all columns'}")
                with contextlib.redirect_stdout(out):
                    got = attempt(mosaic.read_between, reader, "x",
                                  (low, high), records, **kwargs)
                expect(got[0] == "ok", "failed",
                       lambda: f"{what}: {show(got)}")
                expect(not out.getvalue(), "verbose",
                       lambda: f"{what} printed {out.getvalue()!r}")
                expect(repr(everything) == kept, "records-changed",
                       f"{what} changed the metadata records")
                want = [i for i, v in enumerate(exact) if not missing(v)
                        and low <= v and (high is None or v < high)]
                if got[1] is None:
                    expect(not want, "nothing",
                           f"{what}: got nothing, should be rows {want}")
                    continue
                part = got[1]
                names = ["i", "x", "s", "y"] if columns is None else columns
                expect(part.column_names == names, "columns",
                       lambda: f"{what}: columns {part.column_names}")
                expect(part.num_rows == len(want) or not names, "rows",
                       lambda: f"{what}: got {part.to_pylist()!r}, should be "
                               f"rows {want}")
                full = {"i": list(range(len(values))), "x": exact,
                        "s": [f"s{i}" for i in range(len(values))],
                        "y": table["y"].to_pylist()}
                for name in names:
                    expect(list(map(key, part[name].to_pylist())) ==
                           [key(full[name][i]) for i in want], "cells",
                           lambda: f"{what}: got {part.to_pylist()!r}, should "
                                   f"be rows {want}")
            for asked in ([], everything, own):
                got = attempt(mosaic.read_between, reader, "z", (low, None),
                              asked, verbose=False)
                expect(got[0] == "KeyError", "no-such-column",
                       lambda: f"reading column 'z' of {values!r}, which "
                               f"has none: {show(got)}")
        finally:
            if os.path.exists(source):
                os.remove(source)
        return case, len(values) > 1


class Named(CaseHarness):
    """names of columns, beside nested ones that may have such a path."""
    name = "names"

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        yield from name_cases(tier)

    def run(self, case):
        limit_threads()
        from pyarrow import parquet
        name, cells, other, size = case
        table = name_table(name, cells, other)
        source = SCRATCH("in.parquet")
        mosaic = load("mosaic")
        try:
            parquet.write_table(table, source, row_group_size=size)
            records = mosaic.parquet_metadata_records(source)
            reader = parquet.ParquetFile(source)
            for low in (0, 1, 2):
                for high in (1, 2, 3, None):
                    got = attempt(mosaic.read_between, reader, name,
                                  (low, high), records, verbose=False)
                    expect(got[0] == "ok", "failed",
                           lambda: f"{case}: {show(got)}")
                    rows = [] if got[1] is None else got[1].to_pylist()
                    want = [r for r in table.to_pylist() if low <= r[name]
                            and (high is None or r[name] < high)]
                    expect(rows == want, "rows",
                           lambda: f"{case} between {low} and {high}: read "
                                   f"{rows}, should be {want}")
        finally:
            if os.path.exists(source):
                os.remove(source)
        return case, True


COLUMNS = {
    "int": ("int64", [3, 1, None, 2]),
    "same": ("int64", [7, 7, 7, 7]),
    "float": ("float64", [0.5, NAN, -1.0, None]),
    "string": ("string", ["b", "", None, "a"]),
    "null": ("int64", [None, None, None, None]),
    "bool": ("bool_", [True, False, None, True]),
    "list": (None, [[1, 2], [], None, [3]]),
    "struct": (None, [{"a": 1, "b": "x"}, {"a": 2, "b": None},
                      {"a": None, "b": "y"}, {"a": 1, "b": "x"}]),
}
COMPRESSIONS = [{}, {"compression": "none"}, {"compression": "gzip"},
                {"write_statistics": False}, {"use_dictionary": False}]
RENAMES = {"type": "physical_type", "column": "path_in_schema",
           "comp_size": "total_compressed_size",
           "uncomp_size": "total_uncompressed_size",
           "num_values": "num_values", "dict_page": "has_dictionary_page",
           "encodings": "encodings", "compression": "compression"}
SUMS = ("comp_size", "uncomp_size", "num_values")


class Meta(CaseHarness):
    name = "metadata"

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        for n in (1, 2, 3):
            for cols in itertools.permutations(COLUMNS, n):
                for rows in (0, 1, 2, 4):
                    for size in (1, 2, 3, 4):
                        if size > max(rows, 1):
                            continue
                        for option in range(len(COMPRESSIONS)):
                            if n == 3 and tier == "quick" and (
                                    option or rows < 4 or size == 4 or
                                    list(cols) != sorted(cols)):
                                continue
                            yield cols, rows, size, option
        for cols in itertools.permutations(COLUMNS, 2):
            for size in (1, 2, 4):
                yield cols, 4, size, "mixed"

    def run(self, case):
        limit_threads()
        import pyarrow as pa
        from pyarrow import parquet
        cols, rows, size, option = case
        arrays = {}
        for j, c in enumerate(cols):
            t, values = COLUMNS[c]
            t = getattr(pa, t)() if t else (
                pa.list_(pa.int64()) if c == "list" else
                pa.struct([("a", pa.int64()), ("b", pa.string())]))
            arrays[f"{c}{j}"] = pa.array(values[:rows], t)
        source = SCRATCH("meta.parquet")
        names = list(arrays)
        option = ({"compression": {names[0]: "gzip", names[1]: "none"},
                   "use_dictionary": [names[1]]}
                  if option == "mixed" else COMPRESSIONS[option])
        mosaic = load("mosaic")
        try:
            parquet.write_table(pa.table(arrays), source,
                                row_group_size=size, **option)
            meta = parquet.read_metadata(source)
            self.compare(mosaic, case, source, meta)
        finally:
            if os.path.exists(source):
                os.remove(source)
        return case, rows > 1

    def compare(self, mosaic, case, source, meta):
        cells = {(c, g): meta.row_group(g).column(c)
                 for c in range(meta.num_columns)
                 for g in range(meta.num_row_groups)}
        got = attempt(mosaic.parquet_metadata_records, source)
        what = f"parquet_metadata_records of {case}"
        expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
        records = got[1]
        where = [(r["col_ix"], r["row_group"]) for r in records]
        expect(sorted(where) == sorted(cells), "records",
               lambda: f"{what}: they are for {where}")
        for r, place in zip(records, where):
            cell = cells[place]
            for name in RENAMES.values():
                expect(r[name] == getattr(cell, name) or
                       name == "num_values" and cell.statistics is not None
                       and r[name] == cell.statistics.num_values, "record",
                       lambda: f"{what}: {name} of {place} is {r[name]!r}, "
                               f"should be {getattr(cell, name)!r}")
            stat = cell.statistics
            if stat is not None:
                for name in ("min", "max", "null_count"):
                    one, two = r[name], getattr(stat, name)
                    expect(key(one) == key(two), "statistics",
                           lambda: f"{what}: {name} of {place} is {one!r}, "
                                   f"should be {two!r}")
        paths = [meta.schema.column(c).path for c in range(meta.num_columns)]
        for extended in (False, True):
            for fn in ("meta_record_df", "meta_column_df"):
                arg = records if fn == "meta_record_df" else source
                before = repr(records)
                what = f"{fn} of {case}, extended={extended}"
                got = attempt(getattr(mosaic, fn), arg, extended=extended)
                expect(got[0] == "ok", "failed",
                       lambda: f"{what}: {show(got)}")
                expect(repr(records) == before, "records-changed",
                       f"{what} changed the records")
                df = got[1]
                if not extended:
                    named = df.columns if fn == "meta_record_df" else df.index
                    expect(set(named) == {*RENAMES, "col_ix"}, "brief",
                           lambda: f"{what}: fields {list(named)}")
                    plain = attempt(getattr(mosaic, fn), arg)
                    expect(plain[0] == "ok" and plain[1].equals(df),
                           "default", lambda: f"{what}: without `extended`: "
                                              f"{show(plain)}")
                if fn == "meta_column_df":
                    expect(list(df.columns) == paths, "table-columns",
                           lambda: f"{what}: columns {list(df.columns)!r}")
                    df = df.T
                expect(list(df["column"]) == paths, "table-rows",
                       lambda: f"{what}: rows {list(df['column'])!r}")
                for c in range(meta.num_columns):
                    for name, field in RENAMES.items():
                        all_ = [r[field] for r in records
                                if r["col_ix"] == c]
                        if name in SUMS:
                            want = sum(all_)
                        elif any(a != all_[0] for a in all_):
                            continue
                        else:
                            want = all_[0]
                        if name not in df.columns:
                            expect(False, "table-missing",
                                   lambda: f"{what}: no {name}")
                        value = df[name].iloc[c]
                        same = (tuple(value) == tuple(want)
                                if isinstance(want, tuple) and
                                isinstance(value, (tuple, list)) else
                                value == want)
                        expect(bool(same), "table-cell",
                               lambda: f"{what}: {name} of {paths[c]} is "
                                       f"{value!r}, should be {want!r}")
                    if extended:
                        self.extended(df, c, records, f"{what}: {paths[c]}")
                    value = df["col_ix"].iloc[c]
                    expect(value == c, "table-cell",
                           lambda: f"{what}: col_ix of {paths[c]} is "
                                   f"{value!r}")


    @staticmethod
    def extended(df, c, records, what):
        """every other field that is the same in all row groups is there,
        and nothing is claimed of those that are not."""
        names = {v: k for k, v in RENAMES.items()}
        records = [r for r in records if r["col_ix"] == c]
        for field in {f for r in records for f in r}:
            name = names.get(field, field)
            if name in SUMS:
                continue
            values = [r.get(field) for r in records]
            one = values[0]
            value = df[name].iloc[c] if name in df.columns else None
            if isinstance(value, (list, np.ndarray)):
                value = tuple(value)
            none = not isinstance(value, (tuple, dict)) and missing(
                None if value is pd.NA else value)
            if all(key(v) == key(one) for v in values):
                if isinstance(one, dict):
                    continue
                expect(none if missing(one) and not isinstance(one, tuple)
                       else not none and key(value) == key(one)
                       or value == one, "extended",
                       lambda: f"{what}: {field} is {value!r}, should be "
                               f"{one!r}")
            elif len({repr(v) for v in values if not missing(v)}) > 1:
                # (whether a value next to missing ones is constant is a
                # matter of taste)
                expect(none, "extended-varying",
                       lambda: f"{what}: {field} is {value!r}, but varies: "
                               f"{values}")


def harnesses(tier):
    return [Between(), Named(), Meta()]
