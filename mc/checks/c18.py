"""C18: outcomes never depend on what was done before."""
import gc
import hashlib
import json
import os
import pickle
import sys
import traceback
import types
from datetime import datetime

from mc import ops
from yangson.schemanode import SchemaNode

PROPERTY = "C18"
POOLS = {"main": ops.pool, "types": ops.typepool}


def forked(fn):
    """Result of fn() computed in a forked process."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            gc.disable()
            try:
                res = (True, fn())
            except BaseException:
                res = (False, traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, res = pickle.loads(data) if data else (False, "process died")
    if not ok:
        raise RuntimeError(res)
    return res


def fingerprint(w):
    """Hash of everything that is reachable from the data models, the shared
    instances and the modules of the library (validation counters aside)."""
    seen = {}
    out = hashlib.sha1()
    roots = [w.dm, w._dm2, w.insts]
    for name in sorted(sys.modules):
        if name.split(".")[0] == "yangson":
            m = sys.modules[name]
            roots.append({k: v for k, v in vars(m).items()
                          if not k.startswith("__")})
    stack = list(reversed(roots))
    put = out.update
    while stack:
        x = stack.pop()
        if x is None or isinstance(x, (bool, int, float, str, bytes)):
            put(repr(x).encode())
            continue
        if isinstance(x, datetime):
            put(b"dt")
            continue
        i = id(x)
        if i in seen:
            put(b"#%d" % seen[i][0])
            continue
        seen[i] = (len(seen), x)
        t = type(x)
        put(t.__name__.encode())
        if isinstance(x, type):
            put(x.__qualname__.encode())
            if x.__module__.split(".")[0] == "yangson":
                stack.append({k: v for k, v in vars(x).items()
                              if not callable(v) and k[:2] != "__"})
        elif isinstance(x, (types.FunctionType, types.ModuleType,
                            types.BuiltinFunctionType, property, staticmethod,
                            classmethod)):
            put(getattr(x, "__name__", "").encode())
        elif isinstance(x, dict):
            put(b"%d" % len(x))
            for k, v in reversed(x.items()):
                stack.append(v)
                stack.append(k)
        elif isinstance(x, (list, tuple)):
            put(b"%d" % len(x))
            stack.extend(reversed(x))
        if isinstance(x, (set, frozenset)):
            put(repr(sorted(map(repr, x))).encode())
        d = getattr(x, "__dict__", None)
        if d is not None and not isinstance(x, (type, types.FunctionType,
                                                types.ModuleType)):
            if isinstance(x, SchemaNode):
                d = {k: v for k, v in d.items() if k != "val_count"}
            stack.append(dict(d))
        for k in getattr(t, "__slots__", ()):
            stack.append(getattr(x, k, None))
    return out.hexdigest()


def fresh(prebuilt):
    w = ops.World()
    if prebuilt:
        for r in ops.RAW:
            w.inst(r)
        w.dm2
    gc.collect()
    gc.freeze()
    return w


def step(w, pool, name):
    return ops.outcome(pool[name], w)


def baselines(w, pool):
    return {n: forked(lambda n=n: step(w, pool, n)) for n in pool}


def prints(w, pool, names):
    """Fingerprint of the state after each operation."""
    def sub(n):
        step(w, pool, n)
        return fingerprint(w)
    return {n: forked(lambda n=n: sub(n)) for n in names}


def states(w, pool, names, seen):
    """Operations that lead to states not in seen, one for each state."""
    res = []
    for n, fp in prints(w, pool, names).items():
        if fp not in seen:
            seen.add(fp)
            res.append(n)
    return res


def explore(w, pool, base, prefix, depth, seen):
    """Every operation after the prefix, which this process has performed,
    and (if depth > 1) the same from the new states that are reached.

    Returns (executions, [(sequence, outcome)], states seen).
    """
    n, diffs = 0, []
    for b in pool:
        got = forked(lambda b=b: step(w, pool, b))
        n += 1
        if got != base[b]:
            diffs.append((prefix + [b], got))
    if depth > 1:
        for a in states(w, pool, pool, seen):
            def sub(a=a):
                step(w, pool, a)
                return explore(w, pool, base, prefix + [a], depth - 1, seen)
            m, d, seen = forked(sub)
            n += m
            diffs += d
    return n, diffs, seen


def run_group(g, rec):
    pool = POOLS[g["pool"]]()
    w = fresh(g["prebuilt"])
    base = baselines(w, pool)
    again = baselines(fresh(g["prebuilt"]), pool) if not g["part"] else {}
    for n in again:
        if base[n] != again[n]:
            raise RuntimeError(f"outcome of {n} isn't deterministic")
    names = list(pool)
    seen = set()
    if g["kind"] == "pairs":
        firsts = names
    else:
        seen.add(forked(lambda: fingerprint(w)))
        firsts = states(w, pool, names, seen)
        rec.outcomes["states after one operation"] = len(firsts)
    firsts = firsts[g["part"]::g["parts"]]
    rec.sample({"pool": g["pool"], "op": names[g["part"]],
                "outcome": base[names[g["part"]]][:200]})
    for a in firsts:
        def sub(a=a):
            step(w, pool, a)
            return explore(w, pool, base, [a], g["depth"] - 1, seen)
        n, diffs, seen = forked(sub)
        rec.nstates += n
        rec.step(n)
        rec.agreed += n - len(diffs)
        for seq, got in diffs:
            rec.fail({"pool": g["pool"], "prebuilt": g["prebuilt"],
                      "ops": seq}, message(seq, base[seq[-1]], got))


def message(seq, want, got):
    i = next((i for i in range(min(len(want), len(got)))
              if want[i] != got[i]), min(len(want), len(got)))
    lo = max(0, i - 60)
    return (f"after {seq[:-1]} the operation {seq[-1]} gives "
            f"...{got[lo:i + 120]!r} instead of ...{want[lo:i + 120]!r}")


def bounds(tier):
    q = tier == "quick"
    return {"operations": {k: len(v()) for k, v in POOLS.items()},
            "pairs": "every pair of operations of the main pool, with the "
            "instances created on demand" + (
                "" if q else " and beforehand; every pair of the types pool"),
            "states": "from every state (fingerprint of all that is "
            "reachable from the data models, the instances and the library's "
            "modules) that " + ("one operation" if q else
            "up to three operations (main pool)") +
            " lead to: every operation",
            "isolation": "each operation runs in its own fork of the process "
            "that performed the prefix"}


def groups(tier):
    q = tier == "quick"

    def gs(kind, pool, pre, depth, parts):
        return [{"kind": kind, "pool": pool, "prebuilt": pre, "depth": depth,
                 "part": i, "parts": parts} for i in range(parts)]
    if q:
        return (gs("pairs", "main", False, 2, 16) +
                gs("states", "main", True, 2, 8) +
                gs("states", "types", False, 2, 16))
    return (gs("states", "main", True, 4, 64) +
            gs("pairs", "types", False, 2, 64) +
            gs("pairs", "main", False, 2, 32) +
            gs("pairs", "main", True, 2, 32))


def replay(case):
    pool = POOLS[case["pool"]]()
    w = fresh(case["prebuilt"])
    seq = case["ops"]
    want = forked(lambda: step(w, pool, seq[-1]))

    def run():
        for n in seq[:-1]:
            step(w, pool, n)
        return step(w, pool, seq[-1])
    got = forked(run)
    return None if got == want else message(seq, want, got)
