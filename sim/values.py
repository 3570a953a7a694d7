"""Plain values used by simulated programs, their canonical form, and copies."""
import copy, zlib
import numpy as np
import pandas as pd


def canon(v):
    """Canonical, type-tagged text of a plain value (independent of hash seed and insertion order)."""
    t = type(v)
    if v is None or t in (bool, int, str, bytes):
        return t.__name__ + ":" + repr(v)
    if t is float:
        return "float:" + v.hex() if v == v else "float:nan"
    if t is list or t is tuple:
        return t.__name__ + "[" + ",".join(canon(x) for x in v) + "]"
    if t in (set, frozenset):
        return t.__name__ + "{" + ",".join(sorted(canon(x) for x in v)) + "}"
    if t is dict:
        return "dict{" + ",".join(sorted(canon(k) + "=>" + canon(x) for k, x in v.items())) + "}"
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return "nd<object,%s>[" % (v.shape,) + ",".join(canon(x) for x in v.ravel().tolist()) + "]"
        return "nd<%s,%s>" % (v.dtype.str, v.shape) + zlib_hex(np.ascontiguousarray(v).tobytes())
    if isinstance(v, np.generic):
        return "np.%s:%r" % (v.dtype.str, v.item())
    if isinstance(v, pd.DataFrame):
        return "df(" + ",".join(canon(str(c)) for c in v.columns) + ";" + canon([list(map(str, r)) for r in v.values.tolist()]) \
            + ";" + canon(list(map(str, v.index))) + ")"
    if hasattr(v, "_sim_canon"):
        return v._sim_canon()
    return t.__name__ + "?" + repr(v)


def zlib_hex(b):
    return "%d:%08x:%08x" % (len(b), zlib.crc32(b), zlib.adler32(b))


def is_ignored_mark(x):
    """Values which the simulated user only passes where they are ignored; ops treat all of them alike."""
    return type(x) is str and x.startswith("IGN")


def crc(*vals):
    return zlib.crc32("|".join(canon(v) for v in vals).encode())


def scramble(x):
    """Mutate a mutable value in place, whatever its kind (used by ops and callers that misbehave)."""
    if isinstance(x, list):
        for e in x:
            scramble(e)
        x.append("scrambled")
        if len(x) > 1:
            x.pop(0)
    elif isinstance(x, dict):
        for e in x.values():
            scramble(e)
        x["scrambled"] = 1
    elif isinstance(x, set):
        x.add("scrambled")
    elif isinstance(x, np.ndarray) and x.size and x.dtype != object:
        if x.flags.writeable:
            x.flat[0] = x.flat[0] + 1
    elif isinstance(x, pd.DataFrame) and len(x):
        x.iloc[0, 0] = -999


def array(c):
    n = 2 + c % 3
    return (np.arange(n, dtype=[np.int64, np.float64, np.int32][c % 3]) * (c % 7)).copy()


def frame(c):
    return pd.DataFrame({"a": [c % 5, c % 7], "b": [str(c % 3), "z"]})


def big(c, n):
    k = 1 + (c % 3)
    if c % 2:
        return np.full(200 * k, c % 251, dtype=np.int64)
    return ("%08x" % c) * (150 * k)


def dup(v):
    """Deep copy without sharing (joblib's hash is sensitive to aliasing inside one value)."""
    if isinstance(v, list):
        return [dup(x) for x in v]
    if isinstance(v, tuple):
        return tuple(dup(x) for x in v)
    if isinstance(v, dict):
        return {k: dup(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return type(v)(dup(x) for x in v)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, pd.DataFrame):
        return v.copy(deep=True)
    return v


def reorder(v):
    """An equal copy whose dicts and sets were filled in the opposite order."""
    if type(v) is list:
        return [reorder(x) for x in v]
    if type(v) is tuple:
        return tuple(reorder(x) for x in v)
    if type(v) is dict:
        return {k: reorder(v[k]) for k in reversed(list(v))}
    if type(v) in (set, frozenset):
        out = set()
        for x in sorted(v, key=canon, reverse=True):
            out.add(reorder(x))
        return type(v)(out)
    return dup(v)


CONSTS = [
    lambda: 0, lambda: 1, lambda: 2, lambda: 3, lambda: True, lambda: None, lambda: 1.0, lambda: "", lambda: "a", lambda: "ab",
    lambda: -1, lambda: 2.5, lambda: b"by", lambda: (1, 2), lambda: [1, 2], lambda: [], lambda: {}, lambda: {"a": 1},
    lambda: {"b": [1], "a": {"c": 2}}, lambda: {1, 2, 3}, lambda: {"x", "y", "zz"}, lambda: [[0], [1, [2]]],
    lambda: np.arange(3), lambda: np.array([1.5, 2.5]), lambda: pd.DataFrame({"a": [1, 2], "b": ["x", "y"]}),
    lambda: (1, (2, "three")), lambda: {"k": (1, 2)}, lambda: "long" * 60, lambda: np.zeros((2, 2)), lambda: 10**12,
]
N_CONST = len(CONSTS)
# more constants, whose iteration order depends on the process (used in relays)
CONSTS += [
    lambda: {"alpha", "beta", "gamma", "delta", "eps"}, lambda: frozenset({"alpha", "beta", "gamma"}), lambda: frozenset(),
    lambda: {frozenset({"a", "b"}), frozenset({"c", "d", "e"}), frozenset({"zz"})},
    lambda: {frozenset({"a", "b"}): 1, frozenset({"c", "d"}): [2], frozenset(): None},
    lambda: {("k", frozenset({"x", "y"})): {"p", "q"}, ("k", frozenset({"x", "z"})): {"r"}},
    lambda: {1: "a", "1": "b", (1, 2): {"c", "d"}, None: 0}, lambda: {1, "a", (2, "b"), None, 2.5},
    lambda: [{"m", "n", "o"}, {"dict": {"of", "sets"}, "and": frozenset({"more", "parts"})}],
    lambda: (frozenset({"t", "u"}), {"v", "w", "x"}), lambda: {"zeta": 1, "eta": 2, "theta": {"iota": 3, "kappa": 4}},
    lambda: {b"x", b"y", b"zz"}, lambda: {True, 2, "two"}, lambda: frozenset({frozenset({"i"}), frozenset({"i", "j"}), frozenset({"k"})}),
    lambda: {frozenset({1, 2}), 3, "x"}, lambda: {"s": {"one", "two", "three", "four"}, "t": ({"five", "six"},)},
]
N_SIMPLE = 4
