"""R01: scraping returns the first match, as a literal if it is one."""
import ast
import atexit
import io
import itertools
import re
import os
import pathlib
import shutil
import tempfile
import warnings

from ..core import CaseHarness
from ..judge import attempt, expect, same, show
from ..loader import load

LEVEL = "exploration"
RULE = ("every text of up to 4 or 5 fragments of labels (keys, literals, text, "
        "line ends, blanks) x 12 patterns, alone and together; every byte "
        "string of up to 5 fragments (endings, parts of endings, nulls) x "
        "every size limit x paths, path objects and streams; every sequence "
        "of 4 scrapes of 2 files with changes to the results between them; "
        "oracles use find() and slices; non-trivial: a match or an ending")
ASSUMPTIONS = [
    "labels are ASCII, patterns have a group (the first counts)",
    "if a text has both kinds of ending, cutting at either is accepted",
]

FRAGMENTS = ["A = ", "B = ", "AB = ", "1", "'x'", "x", "\n", "[1, 2]", "{[1]}",
             " ", "\t1\x0b", "007", "END\r\n", "None", "-0.5"]


def first_line(key):
    """the oracle of the pattern '<key>(.*)'"""
    def find(text):
        at = text.find(key)
        if at < 0:
            return None
        return text[at + len(key):].split("\n")[0]
    return find


def first_word(key):
    """of '<key>(\\S+)': the first place where the key comes before a word"""
    def find(text):
        at = text.find(key)
        while at >= 0:
            rest = text[at + len(key):]
            if rest and not rest[0].isspace():
                n = next((i for i, c in enumerate(rest) if c.isspace()),
                         len(rest))
                return rest[:n]
            at = text.find(key, at + 1)
        return None
    return find


def first_digits(text):
    digits = next((i for i, c in enumerate(text) if c.isdigit()), None)
    if digits is None:
        return None
    n = next((i for i, c in enumerate(text[digits:]) if not c.isdigit()),
             len(text))
    return text[digits:digits + n]


def block(text):
    """of 'A =([^E]*)': all up to the next E, over the ends of lines"""
    at = text.find("A =")
    return None if at < 0 else text[at + 3:].split("E")[0]


def at_start(text):
    """of '^B = (.*)': only where the text begins"""
    return text[4:].split("\n")[0] if text.startswith("B = ") else None


def last_line(text):
    """of '(.*)$': the line before the end, or before a last line end"""
    return text.removesuffix("\n").split("\n")[-1]


def which(text):
    """of '(AB?) = (.*)': the name that comes first"""
    found = [(text.find(f"{name} = "), name) for name in ("AB", "A")
             if f"{name} = " in text]
    return min(found)[1] if found else None


def two_signs(text):
    """of 'B = (.)(.)?': the first character after the first B that has one"""
    at = text.find("B = ")
    while at >= 0:
        if text[at + 4:at + 5] not in ("", "\n"):
            return text[at + 4]
        at = text.find("B = ", at + 1)
    return None


def perhaps(text):
    """of "A = (?:1|('x'))": the group may have no part in the match"""
    for rest in text.split("A = ")[1:]:
        if rest.startswith("1"):
            return None
        if rest.startswith("'x'"):
            return "'x'"
    return None


PATTERNS = {
    "(AB?) = (.*)": which, "B = (.)(.)?": two_signs,
    "A = (?:1|('x'))": perhaps, "((B) = .)": lambda text: None if (
        sign := two_signs(text)) is None else f"B = {sign}",
    "^B = (.*)": at_start, "(.*)$": last_line,
    "a = (.*)": lambda text: None,
    "A =(.*)": first_line("A ="), "A =([^E]*)": block,
    "A = (.*)": first_line("A = "), "B = (.*)": first_line("B = "),
    r"A = (\S+)": first_word("A = "), r"B = (\S+)": first_word("B = "),
    r"(\d+)": first_digits,
    "AB = (.*)": first_line("AB = "),
    "ZZ = (.*)": lambda text: None,
    re.compile("a = (.*)", re.IGNORECASE): first_line("A = "),
    re.compile("(?<=B = )(.*)$", re.MULTILINE): first_line("B = "),
}


def literal(text):
    if text is None:
        return None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ast.literal_eval(text)
    except Exception:
        return text


class Texts(CaseHarness):
    name = "scraper"

    def cases(self, tier):
        longest = 5 if tier == "thorough" else 4
        for n in range(longest + 1):
            yield from itertools.product(range(len(FRAGMENTS)), repeat=n)
        few = [0, 1, 2, 3, 4, 6, 7, 9, 11]
        yield from itertools.product(
            few, repeat=6 if tier == "thorough" else 5)

    def run(self, case):
        text = "".join(FRAGMENTS[i] for i in case)
        scrape = load("scrape")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = attempt(scrape.make_scraper, text)
            expect(got[0] == "ok", "failed",
                   lambda: f"make_scraper({text!r}): {show(got)}")
            found = {}
            for pattern, find in PATTERNS.items():
                want = literal(find(text))
                out = attempt(got[1], pattern)
                what = f"scraping {text!r} for {pattern!r}"
                expect(out[0] == "ok", "failed",
                       lambda: f"{what}: {show(out)}, should be {want!r}")
                expect(same(out[1], want), "value",
                       lambda: f"{what}: got {out[1]!r}, should be {want!r}")
                if want is not None:
                    found[pattern] = want
            # several at once
            fields = {f"f{i}": p for i, p in enumerate(PATTERNS)}
            loads = []

            def loader(label):
                loads.append(label)
                return text

            out = attempt(scrape.scrape_patterns, "the label", fields,
                          label_loader=loader)
            want = {f"f{i}": literal(find(text))
                    for i, find in enumerate(PATTERNS.values())}
            what = f"scrape_patterns of {text!r}"
            expect(out[0] == "ok", "patterns-failed",
                   lambda: f"{what}: {show(out)}")
            expect(same(out[1], want), "patterns",
                   lambda: f"{what}: got {out[1]!r}, should be {want!r}")
            expect(set(loads) == {"the label"}, "loader",
                   lambda: f"{what} loaded {loads!r}")
            expect(list(fields.values()) == list(PATTERNS), "changed",
                   lambda: f"{what} changed its patterns to {fields!r}")
        return text, bool(found)


class Literals(CaseHarness):
    """values that are almost literals, or too long or deep to be parsed."""
    name = "near-literals"
    UNITS = ["-", "~", "(", "[", "not ", "1+", "a.", "x[0]", "9", "'", "\"",
             "{1:", "1,", "*", "f''", "b''", "#", "\\", "\0", "\ud800", "\u00e9",
             "1_", "0x", "1e", "...", "lambda:", "1 if ", "[1]:2,", "\x0c",
             "None", "{[1]}", "{[1]:2}", "b'\u00e9'", "'\\ud800'", "1j",
             "-1j+", "True", "set()", "{}", "()"]

    def cases(self, tier):
        for unit in self.UNITS:
            for times in (1, 2, 3, 10, 99, 4300, 4301, 20000, 100000):
                for end in ("", "1", ")", "}"):
                    yield unit, times, end
        for one, two in itertools.product(self.UNITS, repeat=2):
            for end in ("", "1", "]", "}"):
                yield one + two, 1, end

    def run(self, case):
        unit, times, end = case
        value = unit * times + end
        want = literal(value)
        scrape = load("scrape")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = attempt(scrape.make_scraper(f"X = 1\nA = {value}\nB = 2"),
                          "A = (.*)")
        what = f"scraping {case}"
        expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)[:300]}")
        expect(same(got[1], want), "value",
               lambda: f"{what}: got {show(got)[:200]}, should be "
                       f"{show(want)[:200]}")
        return case, True


class Supplements(CaseHarness):
    """supplemental results go on top; many files."""
    name = "supplements"
    EXTRA = [None, {}, {"a": "new"}, {"z": 0}, {"b": None, "z": [1]}]
    LABELS = ["A = 1\nB = 'x'", "B = 2", "", "A = [3]"]

    def cases(self, tier):
        for labels in itertools.chain.from_iterable(
                itertools.product(range(4), repeat=n) for n in range(4)):
            for extra in range(len(self.EXTRA)):
                for patterns in ((), ("a",), ("a", "b"), ("b", "a")):
                    yield labels, extra, patterns

    def run(self, case):
        labels, extra, patterns = case
        extra = self.EXTRA[extra]
        finds = {"a": first_line("A = "), "b": first_line("B = ")}
        menu = {"a": "A = (.*)", "b": "B = (.*)"}
        scrape = load("scrape")
        seen = []

        def supplement(label, text):
            seen.append((label, text))
            return dict(extra)

        def scraper(label):
            return scrape.scrape_patterns(
                label, {p: menu[p] for p in patterns},
                None if extra is None else supplement,
                lambda name: self.LABELS[int(name)])

        for source in (list, iter, tuple):
            seen.clear()
            got = attempt(scrape.bulk_scrape_metadata,
                          source([str(i) for i in labels]), scraper)
            what = f"bulk_scrape_metadata of {case}"
            expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
            want = [{**{p: literal(finds[p](self.LABELS[i]))
                        for p in patterns}, **(extra or {})} for i in labels]
            expect(isinstance(got[1], list) and len(got[1]) == len(want) and
                   all(map(same, got[1], want)), "records",
                   lambda: f"{what}: got {got[1]!r}, should be {want!r}")
            expect(extra is None or seen == [
                (str(i), self.LABELS[i]) for i in labels], "supplement",
                lambda: f"{what}: the supplement was given {seen!r}")
        return case, len(labels) > 1


BYTES = [b"a", b"END\r\n", b"END", b"\r\n", b"\0", b"\0\0", b"\0\0\0",
         "\u00e9".encode(), "\u20ac".encode()]
ENDINGS = (b"END\r\n", b"\0\0\0")


def text_of(data, size):
    """of the first bytes; the limit may fall within a character."""
    return data[:size].decode(
        errors="strict" if size is None or size >= len(data) else "ignore")


class Trims(CaseHarness):
    name = "trim_label"

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        for n in range(7 if tier == "thorough" else 6):
            for items in itertools.product(range(len(BYTES)), repeat=n):
                if n < 5 or sum(i > 6 for i in items) < 2:
                    yield items

    def run(self, case):
        data = b"".join(BYTES[i] for i in case)
        scrape = load("scrape")
        sources = ["stream"] if len(case) > 2 else ["stream", "path", "Path"]
        path = SCRATCH("label")
        ended = False
        try:
            if len(sources) > 1:
                with open(path, "wb") as f:
                    f.write(data)
            for source in sources:
                for size in [None, *range(len(data) + 2)]:
                    for loud in (None, False, True):
                        ended |= self.one(scrape, data, source, path, size,
                                          loud)
        finally:
            if os.path.exists(path):
                os.remove(path)
        return data, ended

    def one(self, scrape, data, source, path, size, loud):
        feed = {"stream": io.BytesIO(data), "path": path,
                "Path": pathlib.Path(path)}[source]
        kwargs = {}
        if size is not None:
            kwargs["max_size"] = size
        if loud is not None:
            kwargs["raise_for_failure"] = loud
        got = attempt(scrape.trim_label, feed, **kwargs)
        what = f"trim_label({data!r} from a {source}, {kwargs})"
        head = data if size is None else data[:size]
        cuts = [head[:head.find(e) + len(e)] for e in ENDINGS if e in head]
        if not cuts and loud:
            expect(got[0] == "ValueError", "no-ending",
                   lambda: f"{what}: {show(got)}, should raise ValueError")
            return False
        wants = [c.decode() for c in cuts] or [text_of(data, size)]
        expect(got[0] == "ok", "failed", lambda: f"{what}: {show(got)}")
        expect(type(got[1]) is str and got[1] in wants, "cut",
               lambda: f"{what}: got {got[1]!r}, should be {wants[0]!r}")
        return bool(cuts)


class Slow(io.BytesIO):
    def read(self, n=-1):
        return super().read(2 if n is None or n < 0 else min(n, 2))


class Heads(CaseHarness):
    """what the loaders read."""
    name = "loaders"

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        for n in range(5):
            for items in itertools.product(range(len(BYTES)), repeat=n):
                if n == 4 and len(set(items)) < 4:
                    continue
                yield items

    def run(self, case):
        data = b"".join(BYTES[i] for i in case)
        scrape = load("scrape")
        path = SCRATCH("head")
        with open(path, "wb") as f:
            f.write(data)
        try:
            for size in [*range(len(data) + 2), 10 ** 6]:
                # a stream that gives less than it is asked for
                got = attempt(scrape.head_file, Slow(data), size)
                head = got[1].read() if got[0] == "ok" else None
                expect(head is not None and len(head) <= size
                       and data.startswith(head), "slow",
                       lambda: f"head_file(slow {data!r}, {size}): "
                               f"{show(got)} with {head!r}")
                for feed in (path, pathlib.Path(path), io.BytesIO(data),
                             open(path, "rb")):
                    got = attempt(scrape.head_file, feed, size)
                    what = f"head_file({data!r}, {size})"
                    expect(got[0] == "ok", "failed",
                           lambda: f"{what}: {show(got)}")
                    expect(got[1].read() == data[:size], "head",
                           lambda: f"{what}: got {got[1].getvalue()!r}")
                    if hasattr(feed, "read"):
                        expect(feed.closed, "open",
                               lambda: f"{what} leaves its source open")
                for feed in (path, pathlib.Path(path)):
                    got = attempt(scrape.get_label_text, feed, size)
                    what = f"get_label_text({data!r}, {size})"
                    expect(got[0] == "ok" and type(got[1]) is str and
                           got[1] == text_of(data, size), "text",
                           lambda: f"{what}: {show(got)}")
            got = attempt(scrape.get_label_text, path)
            expect(got[0] == "ok" and got[1] == data.decode(), "text",
                   lambda: f"get_label_text({data!r}): {show(got)}")
        finally:
            os.remove(path)
        return data, len(case) > 1


class Files(CaseHarness):
    """sequences of scrapes of files, whose results are changed between."""
    name = "files"
    LABELS = ["A = [1, 2]\nB = 5\nEND\r\n", "A = [7]\nB = {'k': []}"]

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        ops = [(f, p, way) for f in (0, 1) for p in ("A = (.*)", "B = (.*)")
               for way in ("scrape", "patterns", "Path")]
        for n in range(1, 6 if tier == "thorough" else 5):
            yield from itertools.product(ops, repeat=n)

    def run(self, case):
        scrape = load("scrape")
        Files.serial = getattr(Files, "serial", 0) + 1
        paths = [SCRATCH(f"{Files.serial}-{i}.lbl") for i in (0, 1)]
        for path, text in zip(paths, self.LABELS):
            with open(path, "w", newline="") as f:
                f.write(text)
        try:
            for i, (f, pattern, way) in enumerate(case):
                want = literal(PATTERNS[pattern](self.LABELS[f]))
                if way == "patterns":
                    got = attempt(scrape.scrape_patterns, paths[f],
                                  {"field": pattern})
                    if got[0] == "ok":
                        got = "ok", got[1]["field"]
                else:
                    path = pathlib.Path(paths[f]) if way == "Path" else \
                        paths[f]
                    got = attempt(scrape.scrape_from_file, path, pattern)
                what = f"scrape {i + 1} of {case}"
                expect(got[0] == "ok" and same(got[1], want), "value",
                       lambda: f"{what}: {show(got)}, should be {want!r}")
                if isinstance(got[1], list):
                    got[1].append("changed")
                elif isinstance(got[1], dict):
                    got[1]["changed"] = True
        finally:
            for path in paths:
                os.remove(path)
        return case, len(case) > 1


class Large(CaseHarness):
    """labels as large as they get, read with the default limits."""
    name = "large"

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        for size in (0, 100, 10_000, 35_000, 100_000, 400_000):
            for ending in (0, 1):
                for rest in (0, 1, 10_000):
                    yield size, ending, rest

    def run(self, case):
        size, ending, rest = case
        scrape = load("scrape")
        label = ("A = 1\r\n" * (size // 7)).encode() + ENDINGS[ending]
        data = label + b"z" * rest
        folder = tempfile.mkdtemp(dir=SCRATCH.dir)
        path = os.path.join(folder, "label")
        with open(path, "wb") as f:
            f.write(data)
        try:
            for trim in (scrape.trim_label, scrape.cached_label_trimmer,
                         scrape.cached_label_trimmer):
                got = attempt(trim, path)
                expect(got[0] == "ok" and got[1] == label.decode(), "cut",
                       lambda: f"a label of {len(label)} bytes is cut to "
                       f"{len(got[1])} ({got[0]})")
            for read in (scrape.get_label_text, scrape.cached_label_loader,
                         scrape.cached_label_loader):
                got = attempt(read, path)
                expect(got[0] == "ok" and data.decode().startswith(got[1])
                       and len(got[1]) >= min(len(data), 35_000), "text",
                       lambda: f"of a file of {len(data)} bytes, "
                       f"{len(got[1])} are read ({got[0]})")
            expect(list(scrape.cached_ls(folder)) == ["label"], "ls",
                   f"listed {scrape.cached_ls(folder)}")
            expect(scrape.cached_exists(path) is True
                   and scrape.cached_exists(path + "x") is False, "exists",
                   f"of {path}")
        finally:
            shutil.rmtree(folder)
        return case, True


class Blocks(CaseHarness):
    """limits around the sizes in which files are read"""
    name = "blocks"

    def prepare(self):
        SCRATCH.prepare()

    def cases(self, tier):
        edges = [2 ** k for k in range(9, 21)] + [35_000, 70_000, 100_000,
                                                  200_000]
        for edge in edges:
            for size in (edge - 1, edge, edge + 1):
                for off in (-edge // 2, -7, -1, 0, 1, 5, edge // 2 + 1, edge):
                    for source in ("path", "stream", "slow"):
                        yield size, size + off, source

    def run(self, case):
        limit, size, source = case
        scrape = load("scrape")
        data = (b"".join(b"%07d\n" % i for i in range(size // 8 + 1)))[:size]
        path = SCRATCH(f"block-{limit}-{size}-{source}")
        with open(path, "wb") as f:
            f.write(data)

        def feed():
            if source == "path":
                return path
            if source == "stream":
                return io.BytesIO(data)
            return open(path, "rb", buffering=512)
        try:
            got = attempt(scrape.head_file, feed(), limit)
            expect(got[0] == "ok", "failed", lambda: f"{case}: {show(got)}")
            head = got[1].read()
            expect(head == data[:limit], "head",
                   lambda: f"the first {limit} of {size} bytes of a {source} "
                   f"are {len(head)} bytes, or other ones")
            if source == "path":
                for read in (scrape.get_label_text,
                             scrape.cached_label_loader):
                    got = attempt(read, path, limit)
                    expect(got == ("ok", data[:limit].decode()), "text",
                           lambda: f"the first {limit} of {size} bytes as "
                           f"text are {len(got[1])} ({got[0]})")
                getattr(scrape.cached_label_loader, "cache_clear",
                        lambda: None)()
            # an ending just within the limit, and one just beyond
            for at in (limit - 5, limit - 4):
                if not 0 <= at < size - 5:
                    continue
                label = data[:at] + b"END\r\n" + data[at + 5:]
                stream = io.BytesIO(label)
                got = attempt(scrape.trim_label, stream, max_size=limit,
                              raise_for_failure=False)
                want = (label[:at + 5] if at + 5 <= limit
                        else label[:limit]).decode()
                expect(got == ("ok", want), "cut",
                       lambda: f"an ending at {at} of {size}, limit {limit}: "
                       f"cut to {len(got[1])}, should be {len(want)} bytes")
        finally:
            os.remove(path)
        return case, size > limit


class Subframes(CaseHarness):
    name = "subframes"

    def cases(self, tier):
        numbers = ["1", "0", "1648", "007"]
        for n in range(1, 5):
            for values in itertools.product(numbers, repeat=n):
                for before in ("", "X = 9\n", "END = 3\n"):
                    for after in ("", "\nY = 8\nEND\n"):
                        yield values, before, after

    def run(self, case):
        values, before, after = case
        text = (before + "SUBFRAME\n" + "\n".join(
            f"K = {v}" for v in values) + "\nEND_SUB\n" + after)
        got = attempt(load("scrape").scrape_subframe, text)
        want = tuple(map(int, values))
        expect(got[0] == "ok" and same(got[1], want), "numbers",
               lambda: f"scrape_subframe({text!r}): {show(got)}, should be "
                       f"{want!r}")
        return case, len(values) > 1


class Numbers(CaseHarness):
    """subframes in every notation: their numbers, in order"""
    name = "numbers"
    PARTS = ["A = 1\r\n", "B=(2, 3)\n", "4\t5 ", "x6y", "C = \"7\"", "8-9",
             "\n/* 10 */\n", "sample_11", " = ", "1.5", "end", "0012"]

    def cases(self, tier):
        for n in range(1, 4 if tier == "quick" else 5):
            yield from itertools.product(range(len(self.PARTS)), repeat=n)

    def run(self, case):
        inside = "".join(self.PARTS[i] for i in case)
        text = f"0 SUBFRAME{inside}END 99\nEND\n"
        want, digits = [], ""
        for c in inside + ".":
            if c.isdigit():
                digits += c
            elif digits:
                want.append(int(digits))
                digits = ""
        got = attempt(load("scrape").scrape_subframe, text)
        expect(got[0] == "ok" and same(got[1], tuple(want)), "numbers",
               lambda: f"scrape_subframe({text!r}): {show(got)}, should be "
                       f"{want}")
        return case, len(want) > 1


class Scratch:
    def __init__(self):
        self.dir = None

    def prepare(self):
        if self.dir is None:
            base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
            self.dir = tempfile.mkdtemp(prefix="mc-r-", dir=base)
            atexit.register(self.clear, os.getpid())

    def clear(self, pid):
        if pid == os.getpid():
            shutil.rmtree(self.dir, ignore_errors=True)

    def __call__(self, name):
        return os.path.join(self.dir, f"{os.getpid()}-{name}")


SCRATCH = Scratch()


def harnesses(tier):
    return [Texts(), Literals(), Supplements(), Trims(), Heads(), Files(),
            Subframes(), Large(), Blocks(), Numbers()]
