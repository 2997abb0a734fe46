"""Q01: chunked sorting writes a sorted permutation of the input."""
import atexit
import contextlib
import datetime as dt
import decimal
import io
import itertools
import os
import shutil
import tempfile

from ..core import CaseHarness
from ..judge import attempt, expect, show
from ..loader import load

LEVEL = "exploration"
RULE = ("every column up to 4 rows over a small alphabet with duplicates and "
        "nulls, x row groups of 1 to 4 rows x 1 to 10 chunks x both "
        "directions; every column up to 3 rows over the extremes of 12 types "
        "incl. NaN and infinities; with and without statistics, schemas, "
        "processors, row-group sizes; the oracle sorts python lists; "
        "non-trivial: at least two rows")
ASSUMPTIONS = [
    "the order of rows whose sort values are equal (or missing) is left open",
    "sort columns of strings, booleans, half floats, times and durations "
    "raise exceptions and are left out",
]

NAN, INF = float("nan"), float("inf")
D = decimal.Decimal


def nano(day, ns):
    import pandas as pd
    return pd.Timestamp(day) + pd.Timedelta(ns, "ns")


ZONE = dt.timezone(dt.timedelta(hours=-3))

TYPES = {
    "int64": ("int64", [0, 1, 5, None]),
    "int64-extremes": ("int64", [2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1,
                                 2 ** 53 + 2, None]),
    "int64-close": ("int64", [2 ** 60, 2 ** 60 + 1, 2 ** 60 - 1, None]),
    "int8": ("int8", [-128, 127, 0, None]),
    "uint8": ("uint8", [0, 255, 128, None]),
    "uint32": ("uint32", [0, 2 ** 32 - 1, 2 ** 31, None]),
    "uint64": ("uint64", [2 ** 64 - 1, 0, 2 ** 63, 2 ** 63 - 1, 2 ** 63 + 1,
                          None]),
    "int32": ("int32", [-2 ** 31, 2 ** 31 - 1, 7, None]),
    "float64": ("float64", [0.1, 0.3, NAN, None, INF, -INF]),
    "float64-extremes": ("float64", [1.7e308, -1.7e308, 5e-324, -0.0, 0.0]),
    "float64-close": ("float64", [1.0, 1.0000000000000002,
                                  0.9999999999999999, NAN]),
    "float32": ("float32", [0.1, 3.4e38, -1e-45, NAN, INF]),
    "timestamp": ("timestamp", [dt.datetime(2020, 1, 1),
                                dt.datetime(1969, 12, 31, 23, 59, 59, 999999),
                                dt.datetime(2020, 1, 1, 0, 0, 0, 1), None]),
    "timestamp-ns": ("ns", [nano("2020-01-01", 5), nano("2020-01-01", 70),
                            nano("2020-01-01", 999), nano("2020-01-01", 1001),
                            nano("1969-12-31", -1), None]),
    "timestamp-zone": ("zone", [dt.datetime(2020, 1, 1, 12, tzinfo=ZONE),
                                dt.datetime(2020, 1, 1, 14, 0, 0, 1,
                                            tzinfo=dt.timezone.utc),
                                dt.datetime(1969, 12, 31, 23, 59, 59,
                                            tzinfo=ZONE), None]),
    "timestamp-ms": ("ms", [dt.datetime(2020, 1, 1, 0, 0, 0, 1000),
                            dt.datetime(2020, 1, 1), dt.datetime(3020, 1, 1),
                            None]),
    "date": ("date", [dt.date(2020, 1, 1), dt.date(1960, 1, 2),
                      dt.date(2020, 1, 2), None]),
    "decimal": ("decimal", [D("1.25"), D("-3.00"), D("1.26"), None]),
}
OPTIONS = [
    {}, {"stats": False}, {"row_group_size": 1}, {"row_group_size": 2},
    {"use_dictionary": False}, {"use_dictionary": ["s"]}, {"schema": True},
    {"version": "1.0"}, {"version": "2.4"}, {"verbose": True},
    {"process": "count"}, {"process": "drop"}, {"process": "double"},
    {"process": "rename", "schema": "renamed"}, {"in_memory": True},
    {"stats": False, "process": "count"}, {"row_group_size": 1,
                                           "process": "count"},
    {"groups": "odd"}, {"groups": "odd", "stats": False},
    {"groups": "odd", "process": "count"}, {"groups": "bare"},
    {"groups": "bare", "schema": True}, {"groups": "bare", "stats": False},
]


def missing(v):
    return v is None or isinstance(v, float) and v != v


def key(v):
    return "nan" if isinstance(v, float) and v != v else v


def arrow_type(name):
    import pyarrow as pa
    return {"timestamp": pa.timestamp("us"), "date": pa.date32(),
            "ns": pa.timestamp("ns"), "zone": pa.timestamp("us", "-03:00"),
            "ms": pa.timestamp("ms"),
            "decimal": pa.decimal128(10, 2), "float64": pa.float64(),
            "float32": pa.float32()}.get(name) or getattr(pa, name)()


def limit_threads():
    import pyarrow as pa
    if pa.cpu_count() > 1:
        pa.set_cpu_count(1)


class Scratch:
    """files of this process's own in a directory of the check's own"""

    def __init__(self):
        self.dir = None

    def prepare(self):
        if self.dir is None:
            base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
            self.dir = tempfile.mkdtemp(prefix="mc-q-", dir=base)
            atexit.register(self.clear, os.getpid())

    def clear(self, pid):
        if pid == os.getpid():
            shutil.rmtree(self.dir, ignore_errors=True)

    def __call__(self, name):
        return os.path.join(self.dir, f"{os.getpid()}-{name}")


SCRATCH = Scratch()


def make_table(t, values):
    import pyarrow as pa
    name = TYPES[t][0]
    n = len(values)
    return pa.table({
        "i": pa.array(range(n), pa.int64()),
        "x": pa.array(list(values), arrow_type(name)),
        "s": pa.array([f"s{i}" for i in range(n)], pa.string()),
        "y": pa.array([-v if isinstance(v, (int, float)) and name in (
            "float64",) else None for v in values], pa.float64()),
    })


class Sorted(CaseHarness):
    def __init__(self, name):
        self.name = name

    def prepare(self):
        SCRATCH.prepare()

    def frames(self, t, longest):
        n = len(TYPES[t][1])
        for rows in range(longest + 1):
            yield from itertools.product(range(n), repeat=rows)

    def cases(self, tier):
        more = tier == "thorough"
        both = ("ascending", "descending")
        if self.name == "layouts":
            for values in self.frames("int64", 5 if more else 4):
                for size in (1, 2, 4, 5) if more else (1, 2, 4):
                    for chunks in (1, 2, 3, 4, 10) if more else (1, 2, 3, 10):
                        for way in both:
                            yield "int64", values, size, chunks, way, 0
        elif self.name == "types":
            for t in TYPES:
                if t == "int64":
                    continue
                for values in self.frames(t, 4 if more else 3):
                    for size in (1, 2, 3) if more else (1, 3):
                        for chunks in (1, 2, 3, 7) if more else (2, 3):
                            for way in both:
                                if not more and len(values) == 3 and \
                                        chunks == 2 and size == 1:
                                    continue
                                yield t, values, size, chunks, way, 0
                        if t.startswith("timestamp"):
                            yield t, values, size, 3, both[size == 1], 1
        else:
            for t in ("int64", "float64"):
                for values in self.frames(t, 3 if t == "int64" else 2):
                    for size in (1, 2):
                        for way in both:
                            for option in range(len(OPTIONS)):
                                yield t, values, size, 3, way, option

    def run(self, case):
        limit_threads()
        import pyarrow as pa
        from pyarrow import parquet
        t, cells, size, chunks, way, option = case
        option = dict(OPTIONS[option])
        values = [TYPES[t][1][i] for i in cells]
        table = make_table(t, values)
        stats = option.pop("stats", True)
        source, target = SCRATCH("in.parquet"), SCRATCH("out.parquet")
        groups = option.pop("groups", None)
        if groups is None:
            parquet.write_table(table, source, row_group_size=size,
                                write_statistics=stats)
        else:
            # no row groups at all for no rows; or some that have no rows
            pieces = [table.slice(i, size)
                      for i in range(0, len(values), size)]
            if groups == "odd":
                pieces = [p for piece in pieces
                          for p in (piece, table.slice(0, 0))]
            with parquet.ParquetWriter(source, table.schema,
                                       write_statistics=stats) as writer:
                for piece in pieces:
                    writer.write_table(piece)
        with open(source, "rb") as f:
            before = f.read()
        process = option.pop("process", None)
        schema = option.pop("schema", None)
        given = []

        def processor(part):
            given.extend(part["i"].to_pylist())
            if process == "drop":
                return part.filter(pa.compute.equal(
                    pa.compute.bit_wise_and(part["i"], 1), 0))
            if process == "double":
                return pa.concat_tables([part, part])
            if process == "rename":
                return part.rename_columns(["i", "z", "s", "y"])
            return part

        if process:
            option["inline_processor"] = processor
        if schema == "renamed":
            option["schema"] = table.rename_columns(
                ["i", "z", "s", "y"]).schema
        elif schema:
            option["schema"] = table.schema
        if option.pop("in_memory", False):
            feed = io.BytesIO(before)
        else:
            feed = source
        out = io.StringIO()
        what = (f"sorting {values!r} ({TYPES[t][0]}, {size} rows a group) "
                f"{way} in {chunks} chunks, "
                f"{OPTIONS[case[-1]] if case[-1] else ''}")
        option.setdefault("verbose", False)
        try:
            with contextlib.redirect_stdout(out):
                got = attempt(load("mosaic").sort_chunked, feed, target, "x",
                              way, n_chunks=chunks, **option)
            expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
            expect(option["verbose"] or not out.getvalue(), "verbose",
                   lambda: f"{what} printed {out.getvalue()!r}")
            with open(source, "rb") as f:
                expect(f.read() == before, "input",
                       f"{what} changed the input file")
            result = attempt(parquet.read_table, target)
            expect(result[0] == "ok", "unreadable",
                   lambda: f"{what}: the output can't be read: "
                           f"{show(result)}")
            result = result[1]
            groups = parquet.read_metadata(target)
            sizes = [groups.row_group(i).num_rows
                     for i in range(groups.num_row_groups)]
        finally:
            for path in (source, target):
                if os.path.exists(path):
                    os.remove(path)
        wanted = option.get("schema", table.schema)
        expect(result.schema.equals(wanted), "schema",
               lambda: f"{what}: its schema is {result.schema}")
        if "row_group_size" in option:
            expect(max(sizes, default=0) <= option["row_group_size"],
                   "row-groups", lambda: f"{what}: row groups of {sizes}")
        column = "z" if process == "rename" else "x"
        rows = result.to_pylist()
        ids = [r["i"] for r in rows]
        want = list(range(len(values)))
        if process:
            expect(sorted(given) == want, "processor",
                   lambda: f"{what}: the processor was given rows {given}")
        if process == "drop":
            want = want[::2]
        if process == "double":
            want = sorted(want * 2)
        expect(sorted(ids) == want, "rows",
               lambda: f"{what}: wrote rows {ids}")
        exact = table["x"].to_pylist()
        for r in rows:
            i = r["i"]
            expect(key(r[column]) == key(exact[i]) and r["s"] == f"s{i}" and
                   key(r["y"]) == key(table["y"][i].as_py()), "row",
                   lambda: f"{what}: row {i} became {r!r}")
        sequence = [r[column] for r in rows]
        if process != "double":
            there = [v for v in sequence if not missing(v)]
            expect(all(missing(v) for v in sequence[len(there):]),
                   "missing-last", lambda: f"{what}: got {sequence!r}")
            expect(there == sorted(there, reverse=way == "descending"),
                   "order", lambda: f"{what}: got {sequence!r}")
        return (case, sizes), len(values) > 1


NAMES = ("x.y", "x", "", "x y", "min", "row_group", "x.list.element", "path",
         "\u00e9", "x.y.z")


def name_cases(tier):
    rows = 3 if tier == "quick" else 4
    for name in NAMES:
        for n in range(2, rows + 1):
            for cells in itertools.product(range(3), repeat=n):
                for other in (None, "struct", "list", "deep"):
                    for size in (1, 2, 3):
                        yield name, cells, other, size


def name_table(name, cells, other):
    """a column of ints, beside nested ones that may have a path like its"""
    import pyarrow as pa
    n = len(cells)
    columns = {"i": pa.array(range(n), pa.int64())}
    if other == "struct":
        columns["x"] = pa.array([{"y": 2 - c} for c in cells])
    elif other == "list":
        columns["x"] = pa.array([[2 - c] * c for c in cells],
                                pa.list_(pa.int64()))
    elif other == "deep":
        columns["x"] = pa.array([{"y": {"z": c // 2}} for c in cells])
    columns[name] = pa.array(cells, pa.int64())
    return pa.table(columns)


class Named(CaseHarness):
    name = "names"

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        for case in name_cases(tier):
            for way in ("ascending", "descending"):
                yield *case, way

    def run(self, case):
        limit_threads()
        from pyarrow import parquet
        name, cells, other, size, way = case
        table = name_table(name, cells, other)
        source, target = SCRATCH("in.parquet"), SCRATCH("out.parquet")
        try:
            parquet.write_table(table, source, row_group_size=size)
            got = attempt(load("mosaic").sort_chunked, source, target, name,
                          way, n_chunks=2, verbose=False)
            expect(got[0] == "ok", "failed", lambda: f"{case}: {show(got)}")
            rows = parquet.read_table(target).to_pylist()
        finally:
            for path in (source, target):
                if os.path.exists(path):
                    os.remove(path)
        wanted = table.to_pylist()
        ids = [r["i"] for r in rows]
        expect(sorted(ids) == list(range(len(cells))) and
               all(r == wanted[r["i"]] for r in rows), "rows",
               lambda: f"{case}: wrote {rows}")
        expect([r[name] for r in rows] == sorted(
            cells, reverse=way == "descending"), "order",
            lambda: f"{case}: wrote {rows}")
        return ids, True


def harnesses(tier):
    return [Sorted("layouts"), Sorted("types"), Sorted("options"), Named()]
