"""Runs on the package's own interpreter (/opt/venv/bin/python) against the unmodified /repo sources.
Protocol: one JSON request per line {"code": source defining run(x), "x": {...}} -> one JSON answer per line."""
import json
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.environ.get("PYGMM_SRC", "/repo/src/pygmm")))
sys.dont_write_bytecode = True
import numpy as np

_cache = {}


def enc(v):
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, np.recarray) or (isinstance(v, np.ndarray) and v.dtype.names):
        return {n: enc(v[n]) for n in v.dtype.names}
    if isinstance(v, np.ndarray):
        return enc(v.tolist())
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, complex) or isinstance(v, np.complexfloating):
        return {"__f__": "complex"}
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v or v in (float("inf"), float("-inf")):
            return {"__f__": repr(v)}
        return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if v is None or isinstance(v, str):
        return v
    return repr(v)


def dec(v):
    if isinstance(v, dict):
        if "__f__" in v:
            return float(v["__f__"])
        if "__nd__" in v:
            return np.array([dec(x) for x in v["__nd__"]], dtype=float)
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def fresh(name):
    """the module, loaded anew together with every other module of the package"""
    import importlib
    for k in [k for k in sys.modules if k == "pygmm" or k.startswith("pygmm.")]:
        del sys.modules[k]
    return importlib.import_module("pygmm." + name)


def tables():
    """every coefficient table, list and dictionary reachable from the modules and classes of the package"""
    out, seen, keep = {}, set(), []

    def walk(o, where, depth):
        if depth > 5 or id(o) in seen:
            return
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, np.ndarray):
            out[where] = (o.dtype.str, o.shape, o.tobytes() if o.dtype != object else repr(o.tolist()))
        elif isinstance(o, dict) or type(o).__name__ == "Series":
            out[where] = {repr(k): repr(v) if isinstance(v, (str, int, float, bool, type(None), list, tuple)) else id(v) for k, v in o.items()}
            for k, v in list(o.items()):
                walk(v, "%s[%r]" % (where, k), depth + 1)
        elif isinstance(o, (list, tuple)):
            out[where] = [repr(v) if isinstance(v, (str, int, float, bool, type(None))) else id(v) for v in o]
            for i, v in enumerate(o):
                walk(v, "%s[%d]" % (where, i), depth + 1)
        elif isinstance(o, type) and o.__module__.startswith("pygmm"):
            for k, v in list(vars(o).items()):
                if not k.startswith("__"):
                    walk(v, "%s.%s" % (o.__name__, k), depth + 1)
        elif type(o).__module__.startswith("pygmm") and hasattr(o, "__dict__"):
            for k, v in list(vars(o).items()):
                walk(v, "%s.%s" % (where, k), depth + 1)
    for n in sorted(k for k in sys.modules if k.startswith("pygmm.")):
        for k, v in list(vars(sys.modules[n]).items()):
            if not k.startswith("__") and type(v).__name__ != "module" and not (isinstance(v, type) and not v.__module__.startswith("pygmm")):
                walk(v, k if isinstance(v, type) else "%s.%s" % (n, k), 0)
    out[""] = keep
    return out


def tables_changed(before):
    now = tables()

    def same(a, b):      # containers may grow (a cache is no change of a table)
        if isinstance(a, dict):
            return isinstance(b, dict) and all(k in b and b[k] == v for k, v in a.items())
        if isinstance(a, list):
            return isinstance(b, list) and b[:len(a)] == a
        return a == b
    return sorted(k for k in before if k and not same(before[k], now.get(k)))


def main():
    _out, sys.stdout = sys.stdout, sys.stderr
    for line in sys.stdin:
        req = json.loads(line)
        try:
            code = req["code"]
            ns = _cache.get(code)
            if ns is None:
                ns = {"__name__": "replay", "fresh": fresh, "tables": tables, "tables_changed": tables_changed}
                exec(compile(code, "<replay>", "exec"), ns)
                _cache[code] = ns
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                with np.errstate(all="ignore"):
                    r = ns["run"](dec(req["x"]))
            ans = {"ok": enc(r), "warnings": [[str(i.message), i.category.__name__] for i in w]}
        except BaseException as e:
            ans = {"exc": type(e).__name__, "msg": str(e)[:500]}
        _out.write(json.dumps(ans) + "\n")
        _out.flush()


if __name__ == "__main__":
    main()
