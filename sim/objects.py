"""Cloning and snapshots of the objects under test (harness side)."""
import copy
import types
import warnings

import numpy as np

from sim.refmodel import ARRS, SIG, close

SCAL = (int, float, complex, str, bool, bytes, type(None), np.generic)


def clone(obj):
    """Independent deep copy made by the harness, not by the code under test."""
    d = copy._deepcopy_dispatch
    had = types.ModuleType in d
    d[types.ModuleType] = copy._deepcopy_atomic
    try:
        return copy.deepcopy(obj)
    finally:
        if not had:
            del d[types.ModuleType]


def basis_of(obj):
    return getattr(obj, "_basis_set", obj)


def snap(obj):
    """Everything observable about a basis set or system; works on a clone so
    that looking does not trigger lazy initialisation in obj itself."""
    c = clone(obj)
    out = {}
    objs = [("", c)]
    if hasattr(c, "_basis_set"):
        if hasattr(c._basis_set, "__dict__"):
            objs.append(("basis.", c._basis_set))
        else:
            out["basis"] = repr(c._basis_set)
    for pre, x in objs:
        for k in ARRS + SIG + ["grid", "nuclear_repulsion_energy", "includes_spin", "anti_symmetrized_u", "l", "dim",
                               "n", "m", "o", "v", "u_repr"]:
            try:
                v = getattr(x, k)
            except AttributeError:
                continue
            except Exception as e:
                v = "getter raised %s" % type(e).__name__
            out[pre + k] = v
        for k, v in vars(x).items():
            if k.startswith("_") or k in out or k == "np":
                continue
            if isinstance(v, (np.ndarray, slice) + SCAL):
                out.setdefault(pre + k, v)
            elif isinstance(v, (list, tuple)) and all(isinstance(y, SCAL) for y in v):
                out.setdefault(pre + k, v)
            elif type(v).__name__ == "DataFrame":
                for col in v.columns:
                    out["%s%s[%s]" % (pre, k, col)] = np.array(v[col])
            elif k == "potential" and callable(v):
                try:
                    out[pre + "potential(x)"] = np.array(v(np.linspace(-1.7, 2.3, 5)))
                except Exception as e:
                    out[pre + "potential(x)"] = "raised %s" % type(e).__name__
        mod = getattr(x, "np", None)
        out[pre + "np"] = None if mod is None else getattr(mod, "__name__", "?")
        out[pre + "type"] = type(x).__name__
    return out


def parts(obj):
    """Everything a caller can reach through public names and write into:
    arrays, tables, and the numeric parameters of a potential."""
    out, seen = [], set()
    for x in (obj, getattr(obj, "_basis_set", None)):
        if x is None:
            continue
        names = [k for k in ARRS + SIG + ["grid"] if hasattr(x, k)] + [k for k in vars(x) if not k.startswith("_")]
        for k in names:
            v = getattr(x, k)
            if v is None or id(v) in seen:
                continue
            if isinstance(v, np.ndarray) and v.flags.writeable and v.size and v.dtype.kind in "fc":
                out.append((k, v))
            elif type(v).__name__ == "DataFrame" or (k == "potential" and hasattr(v, "__dict__")):
                out.append((k, v))
            else:
                continue
            seen.add(id(v))
    return out


def write(v, rs):
    """Write into one such part."""
    if isinstance(v, np.ndarray):
        v[tuple(rs.randint(n) for n in v.shape)] += 1.25
    elif type(v).__name__ == "DataFrame":
        c = list(v.columns)[rs.randint(len(v.columns))]
        v.loc[:, c] = v[c] + 1
    else:
        num = sorted(k for k, y in vars(v).items() if isinstance(y, (int, float)) and not isinstance(y, bool))
        if num:
            k = num[rs.randint(len(num))]
            setattr(v, k, getattr(v, k) + 0.5)


def diff(a, b, ignore=()):
    """First difference between two snapshots, or None."""
    for k in sorted(set(a) | set(b)):
        if k in ignore:
            continue
        if k not in a or k not in b:
            return "%s %s" % (k, "appeared" if k not in a else "is gone")
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray)):
                return "%s is %s, expected %s" % (k, "absent" if y is None else type(y).__name__, "absent" if x is None else "an array")
            if x.shape != y.shape:
                return "%s has shape %s, expected %s" % (k, y.shape, x.shape)
            if x.dtype.kind != y.dtype.kind:
                return "%s has dtype %s, expected %s" % (k, y.dtype, x.dtype)
            if x.dtype.kind in "fciub":
                if not close(y, x):
                    return "%s differs by up to %.3g" % (k, np.max(np.abs(y - x)))
        else:
            try:
                same = type(x) is type(y) and x == y or (isinstance(x, SCAL[:2] + (np.generic,)) and x == y)
            except Exception:
                same = False
            if not same:
                if isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-9 * max(1, abs(x)):
                    continue
                return "%s is %r, expected %r" % (k, y, x)
    return None
