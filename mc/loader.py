"""
Load the code under test from the repository's working tree.

`Copy` gives one simulated process its own private copy of the dustgoggles
package (its own module globals, class objects and caches), so that state which
would not be shared between real processes is not shared between simulated
ones.  `Copy.reset()` puts module-level state back to how it was at import, so
that executions of one check are independent.
"""
import importlib
import os
import sys
import types
from collections import OrderedDict, deque

REPO = os.environ.get("DG_REPO", "/repo")
PKG = "dustgoggles"

sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

_CODE = {}


class _CachedLoader(importlib.machinery.SourceFileLoader):
    """compile each source file once per check process."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in _CODE:
            _CODE[path] = self.source_to_code(self.get_data(path), path)
        return _CODE[path]


class _Finder:
    """finds dustgoggles under REPO only, whatever else is installed."""

    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base):
            file, sub = os.path.join(base, "__init__.py"), [base]
        else:
            file, sub = base + ".py", None
        if not os.path.exists(file):
            return None
        return importlib.util.spec_from_file_location(
            fullname, file, loader=_CachedLoader(fullname, file),
            submodule_search_locations=sub,
        )


import importlib.machinery  # noqa: E402
import importlib.util  # noqa: E402

sys.meta_path.insert(0, _Finder)


def load(*names):
    """import modules of the package normally (shared with sys.modules)."""
    mods = [importlib.import_module(f"{PKG}.{n}") for n in names]
    for m in mods:
        assert os.path.realpath(m.__file__).startswith(
            os.path.realpath(REPO) + os.sep
        ), m.__file__
    return mods[0] if len(mods) == 1 else mods


_MUTABLE = (list, dict, set, bytearray, deque)


class Copy:
    """a private copy of (part of) the package."""

    def __init__(self, *names):
        saved = {
            k: sys.modules.pop(k)
            for k in list(sys.modules)
            if k == PKG or k.startswith(PKG + ".")
        }
        try:
            load(*names)
            self.modules = {
                k: v for k, v in sys.modules.items()
                if k == PKG or k.startswith(PKG + ".")
            }
        finally:
            for k in list(sys.modules):
                if k == PKG or k.startswith(PKG + "."):
                    del sys.modules[k]
            sys.modules.update(saved)
        self._mark()

    def __getitem__(self, name):
        return self.modules[f"{PKG}.{name}"]

    def __getattr__(self, name):
        # look a public name up in whichever module defines it
        for mod in self.modules.values():
            if name in vars(mod):
                return vars(mod)[name]
        raise AttributeError(name)

    # -- module-level state ----------------------------------------------
    def _own(self, obj):
        mod = getattr(obj, "__module__", None)
        return isinstance(mod, str) and (
            mod == PKG or mod.startswith(PKG + ".")
        )

    def _mark(self):
        self._bindings, self._contents, self._caches = [], [], []
        seen = set()

        def visit(obj, depth=0):
            if id(obj) in seen or depth > 6:
                return
            seen.add(id(obj))
            if hasattr(obj, "cache_clear") and self._own(obj):
                self._caches.append(obj)
            if isinstance(obj, types.FunctionType):
                if not self._own(obj):
                    return
                for part in (obj.__defaults__ or ()):
                    visit(part, depth + 1)
                for part in (obj.__kwdefaults__ or {}).values():
                    visit(part, depth + 1)
                for cell in (obj.__closure__ or ()):
                    try:
                        visit(cell.cell_contents, depth + 1)
                    except ValueError:
                        pass
                visit(obj.__dict__, depth + 1)
            elif isinstance(obj, (staticmethod, classmethod)):
                visit(obj.__func__, depth + 1)
            elif isinstance(obj, property):
                for part in (obj.fget, obj.fset, obj.fdel):
                    if part is not None:
                        visit(part, depth + 1)
            elif isinstance(obj, type):
                if not self._own(obj):
                    return
                attrs = {
                    k: v for k, v in vars(obj).items()
                    if k not in ("__dict__", "__weakref__", "__doc__",
                                 "__abstractmethods__", "_abc_impl")
                }
                self._bindings.append((obj, attrs))
                for part in attrs.values():
                    visit(part, depth + 1)
            elif isinstance(obj, _MUTABLE):
                if isinstance(obj, dict):
                    self._contents.append((obj, dict(obj)))
                    for part in list(obj.values()):
                        visit(part, depth + 1)
                else:
                    self._contents.append((obj, list(obj)))
                    if not isinstance(obj, bytearray):
                        for part in list(obj):
                            visit(part, depth + 1)
            elif self._own(type(obj)) and hasattr(obj, "__dict__"):
                visit(obj.__dict__, depth + 1)

        for mod in self.modules.values():
            attrs = {
                k: v for k, v in vars(mod).items()
                if k not in ("__builtins__", "__spec__", "__loader__")
            }
            self._bindings.append((mod, attrs))
            for value in attrs.values():
                visit(value)

    def state(self):
        """digestible image of mutable module-level state."""
        from .stores import dump
        out = []
        for obj, attrs in self._bindings:
            now = vars(obj)
            changed = [
                (k, dump(v)) for k, v in now.items()
                if not (k.startswith("__") or k == "_abc_impl")
                and (k not in attrs or attrs[k] is not v)
            ]
            if changed:
                out.append((getattr(obj, "__name__", "?"), tuple(changed)))
        for i, (obj, content) in enumerate(self._contents):
            same = (
                _same(list(obj.items()), list(content.items()))
                if isinstance(obj, dict) else
                obj == set(content) if isinstance(obj, set) else
                _same([(x, None) for x in obj], [(x, None) for x in content])
            )
            if not same:
                out.append((i, dump(obj if not isinstance(obj, deque)
                                    else list(obj))))
        for i, cached in enumerate(self._caches):
            if cached.cache_info().currsize:
                out.append(("cache", i, tuple(cached.cache_info())))
        return tuple(out)

    def reset(self):
        for obj, attrs in self._bindings:
            now = vars(obj)
            for k, v in attrs.items():
                if now.get(k) is not v:
                    setattr(obj, k, v)
            if len(now) > len(attrs):
                for k in [
                    k for k in now
                    if k not in attrs and not (
                        k.startswith("__") and k.endswith("__")
                    ) and k != "_abc_impl"
                ]:
                    delattr(obj, k)
        for obj, content in self._contents:
            if isinstance(obj, dict):
                if not _same(list(obj.items()), list(content.items())):
                    obj.clear()
                    obj.update(content)
            elif isinstance(obj, set):
                if obj != set(content):
                    obj.clear()
                    obj.update(content)
            elif not _same([(x, None) for x in obj],
                           [(x, None) for x in content]):
                if isinstance(obj, deque):
                    obj.clear()
                    obj.extend(content)
                else:
                    obj[:] = content
        for cached in self._caches:
            cached.cache_clear()


def _same(one, two):
    return len(one) == len(two) and all(
        (k1 is k2 or (type(k1) in (str, int) and k1 == k2)) and v1 is v2
        for (k1, v1), (k2, v2) in zip(one, two)
    )
