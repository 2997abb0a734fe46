"""comparisons shared by all checks; needs no simulation."""
import functools
import types

from .core import Violation


def dump(obj, seen=None, depth=0):
    """structural image of an object graph, for state identity."""
    seen = {} if seen is None else seen
    if obj is None or isinstance(obj, (int, float, str, bytes, bool, complex)):
        return (type(obj).__name__, obj)
    if id(obj) in seen:
        return ("ref", seen[id(obj)])
    seen[id(obj)] = len(seen)
    if depth > 12:
        return type(obj).__name__
    if isinstance(obj, dict):
        return ("dict", tuple(
            (dump(k, seen, depth + 1), dump(v, seen, depth + 1))
            for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__,
                tuple(dump(x, seen, depth + 1) for x in obj))
    if isinstance(obj, (set, frozenset)):
        return ("set", tuple(sorted(repr(dump(x, seen, depth + 1))
                                    for x in obj)))
    if isinstance(obj, functools.partial):
        return ("partial", dump(obj.args, seen, depth + 1),
                dump(obj.keywords, seen, depth + 1))
    if isinstance(obj, (types.FunctionType, types.MethodType, type,
                        types.BuiltinFunctionType)):
        return getattr(obj, "__qualname__", "f")
    if type(obj).__module__ == "numpy":
        return ("np", repr(obj), str(getattr(obj, "dtype", "")))
    if hasattr(obj, "__dict__"):
        return (type(obj).__name__, dump(dict(vars(obj)), seen, depth + 1))
    return type(obj).__name__


class Arraylike:
    """like an array: comparisons give another one, which has no truth"""
    __hash__ = None

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return Arraylike(f"({self.name} compared)")

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__

    def __bool__(self):
        raise ValueError("the truth value of an array is ambiguous")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.name}>"


ARRAY, OTHER_ARRAY = Arraylike("array"), Arraylike("other array")


# values that are equal, or look or count as if they were, and aren't the same
TWINS = {repr(v): v for v in (
    1, 1.0, True, 0, 0.0, False, None, "", [], {}, "1", "None", float("nan"),
    [1], [True], [1.0], {"a": 1}, {"a": True}, {"a": None}, [None], [[]],
    2 ** 70, float(2 ** 70), "[]")}
MORE_TWINS = TWINS | {repr(v): v for v in (
    b"", (), b"1", (1,), (True,), {1: 1}, {True: 1.0}, set(), frozenset(),
    {1}, 1 + 0j, bytearray(b"1"), range(0), ...)}


def same(one, two):
    """equal and of the same type, at every level."""
    if one is two:
        return True
    if isinstance(one, Arraylike) or isinstance(two, Arraylike):
        return False
    if type(one) is not type(two):
        return False
    if isinstance(one, dict):
        return list(map(repr, one)) == list(map(repr, two)) and all(
            same(one[k], two[k]) for k in one)
    if isinstance(one, (list, tuple)):
        return len(one) == len(two) and all(map(same, one, two))
    if isinstance(one, float) and one != one:
        return two != two
    if type(one).__module__ == "numpy":
        return same_array(one, two)
    return one == two


def same_array(one, two):
    import numpy as np
    one_a, two_a = np.asarray(one), np.asarray(two)
    return (one_a.dtype == two_a.dtype and one_a.shape == two_a.shape
            and (one_a.tobytes() == two_a.tobytes()))


def attempt(fn, *args, **kwargs):
    """('ok', value) or (exception class name, exception)."""
    try:
        return "ok", fn(*args, **kwargs)
    except Exception as ex:
        return type(ex).__name__, ex


def is_a(outcome, *names):
    """did it raise one of these (or a subclass)?"""
    if outcome[0] == "ok":
        return False
    mro = [c.__name__ for c in type(outcome[1]).__mro__]
    return any(n in mro for n in names)


def expect(cond, key, what):
    if not cond:
        raise Violation(key, what() if callable(what) else what)


def show(outcome):
    text = repr(outcome[1])
    return f"{outcome[0]}: {text[:300]}"
