"""C11: raw reads and dumps hold exactly the stored bytes."""
import os
import pathlib
import shutil
import tempfile

import numpy as np

from .. import world as W
from ..core import SeqHarness
from ..stores import attempt, blocks, copies_state, dump, expect, show

LEVEL = "model_checking"
RULE = ("every history of storing, deleting, reading raw and dumping (to named "
        "files, path objects, default names; writing and appending) through "
        "two handles up to the stated depth, for both kinds of store and "
        "several codecs; after every operation all files are compared with a "
        "table of byte strings")
ASSUMPTIONS = [
    "operations do not overlap in time",
    "the raw bytes of a Notepad entry are what its codec makes of the value; "
    "a GridPaper dumps the array's items in C order",
]

NP = {"short": [1], "long": ["x" * 40, {"a": (1, 2.5)}], "empty": "",
      "none": None}
JS = {"short": [1], "long": ["x" * 40, {"a": [1, 2.5]}], "empty": "",
      "none": None}
GP = {
    "short": np.array([1, 2], dtype="i2"),
    "long": np.arange(12.).reshape(3, 4).T,
    "empty": np.zeros((0, 2)),
    "none": np.array(7, dtype=">u4"),
}


class World:
    pass


class Dumps(SeqHarness):
    name = "notepad"
    kind = "Notepad"
    codec = None
    validate = 20
    keys = ("k", "a.b")
    values = ("short", "long")
    files = ("out", "other.bin")
    deep = 4

    def depth(self, tier):
        return self.deep if tier == "quick" else self.deep + 1

    def prepare(self):
        W.copy(0), W.copy(1)
        self.dir = tempfile.mkdtemp(prefix="mc-c11-")

    def explore(self, tier, report, *args):
        try:
            super().explore(tier, report, *args)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def menu(self):
        return (GP if self.kind == "GridPaper" else
                JS if self.codec == "json" else NP)

    def open(self, h, create=False):
        c = W.copy(h)
        kwargs = {}
        if self.codec:
            kwargs["codec_factory"] = getattr(
                c["codex.codecs"], f"{self.codec}_codec_factory")
        return getattr(c["codex.implements"], self.kind)(
            "p.q", create=create, **kwargs)

    def encoded(self, v):
        value = self.menu()[v]
        if self.kind == "GridPaper":
            return value.tobytes()
        return getattr(W.copy(0)["codex.codecs"],
                       f"{self.codec or 'pickle'}_codec_factory")()[0](value)

    def world(self):
        W.reset()
        w = World()
        w.back = os.getcwd()
        w.dir = os.path.join(self.dir, str(os.getpid()))
        shutil.rmtree(w.dir, ignore_errors=True)
        os.mkdir(w.dir)
        os.chdir(w.dir)
        w.handles = [self.open(0, True), self.open(1)]
        w.model, w.files = {}, {}
        w.outcome = None
        return w

    def dispose(self, w):
        os.chdir(w.back)

    def ops(self, tier):
        out = []
        for k in self.keys:
            for v in self.values:
                out.append(("put", 0, k, v))
            out.append(("drop", 1, k))
            for h in (0, 1):
                out.append(("dump", h, k, "default", None))
            for f in self.files:
                out.append(("dump", 1, k, f, None))
            out.append(("dump", 0, k, "Path", None))
            if self.kind == "Notepad":
                out += [("dump", 0, k, self.files[0], "ab"),
                        ("dump", 1, k, self.files[0], "wb"),
                        ("dump", 0, k, self.files[0], "xb")]
                out.append(("raw", 1, k))
        out.append(("put", 1, self.keys[0], self.values[-1]))
        return out

    def step(self, w, op):
        what, h, k = op[:3]
        s = w.handles[h]
        if what == "put":
            s[k] = self.menu()[op[3]]
            w.model[k] = op[3]
        elif what == "drop":
            attempt(s.__delitem__, k)
            w.model.pop(k, None)
        elif what == "raw":
            got = attempt(s.get_raw, k)
            if k in w.model:
                want = self.encoded(w.model[k])
                expect(got[0] == "ok" and bytes(got[1]) == want, "raw",
                       f"{op}: {show(got)}, should be {want!r}")
            else:
                expect(got[0] != "ok", "raw-missing", f"{op}: {show(got)}")
        else:
            self.dump_one(w, op, s)
        self.compare(w, op)

    def dump_one(self, w, op, s):
        _, h, k, target, mode = op
        args = [k]
        name = target
        if target == "default":
            name = f"p.q_{k}".replace(".", "_")
        elif target == "Path":
            name = self.files[0]
            args.append(pathlib.Path(name))
        else:
            args.append(name)
        if mode is not None:
            args.append(mode)
        got = attempt(s.dump, *args)
        if k not in w.model or mode == "xb" and name in w.files:
            expect(got[0] != "ok", "dump-missing", f"{op}: {show(got)}")
            return
        expect(got[0] == "ok", "dump-failed", f"{op}: {show(got)}")
        old = w.files.get(name, b"") if mode == "ab" else b""
        w.files[name] = old + self.encoded(w.model[k])

    def compare(self, w, op):
        now = {}
        for f in os.listdir(w.dir):
            with open(os.path.join(w.dir, f), "rb") as stream:
                now[f] = stream.read()
        expect(now == w.files, "files",
               f"after {op} the files are {now}, should be {w.files}")

    def audit(self, w):
        for k in self.keys:
            for h in (0, 1):
                if self.kind == "Notepad":
                    self.step(w, ("raw", h, k))
        for k in self.keys:
            self.step(w, ("dump", 0, k, "audit", None))
        left = sorted(map(str, w.handles[1].keys()))
        expect(left == sorted(map(str, w.model)), "keys",
               f"after dumps the store lists {left}, should list {w.model}")
        got = attempt(w.handles[1].close, dump=True)
        expect(got[0] == "ok", "close", f"close(dump=True): {show(got)}")
        for k, v in w.model.items():
            w.files[f"p.q_{k}".replace(".", "_")] = self.encoded(v)
        self.compare(w, "close(dump=True)")
        w.outcome = repr(sorted(w.files.items()))

    def canon(self, w):
        return repr((sorted(blocks().items()), dump(w.handles),
                     copies_state(), w.model, sorted(w.files.items())))


def make(label, kind, codec=None, values=("short", "long"), deep=4, **more):
    class Made(Dumps):
        pass
    h = Made()
    h.name, h.kind, h.codec, h.values, h.deep = (label, kind, codec, values,
                                                 deep)
    for k, v in more.items():
        setattr(h, k, v)
    return h


def harnesses(tier):
    everything = ("short", "long", "empty", "none")
    return [
        make("notepad", "Notepad"),
        make("notepad-values", "Notepad", None, everything, 3),
        make("notepad-json", "Notepad", "json", everything, 3),
        make("notepad-ast", "Notepad", "ast", everything, 3),
        make("gridpaper", "GridPaper"),
        make("gridpaper-values", "GridPaper", None, everything, 3),
        make("unmerged", "Notepad", deep=3, merge=False, keys=("k", 3)),
    ]
