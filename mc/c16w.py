"""Worker of C16: one process with one hash seed.

Reads {"worlds": ..., "orders": ..., "base": ...} from stdin; writes the
observations that differ from the base, and the iteration orders of the sets
of modules that this hash seed gives.
"""
import itertools
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), VERIF]
sys.dont_write_bytecode = True

from mc import worlds                             # noqa: E402
from yangson.datamodel import DataModel           # noqa: E402


def orders(entries, what):
    """Listing orders of a library: identity first."""
    ns = range(len(entries))
    if what == "few":
        yield tuple(ns), 0
        yield tuple(reversed(ns)), 1
        return
    for p in itertools.permutations(ns):
        yield p, 0
    for i in range(1, 6):
        yield tuple(ns), i


def permuted(entries, order):
    p, inner = order
    res = []
    for i in p:
        e = dict(entries[i])
        for k in ("features", "submodules"):
            if k in e:
                ps = list(itertools.permutations(e[k]))
                e[k] = ps[inner % len(ps)]
        res.append(e)
    return res


def observe(entries, order, dirs, light=False):
    lib = worlds.library(permuted(entries, order))
    try:
        dm = DataModel(lib, dirs)
    except Exception as e:
        return {"build": f"{type(e).__name__}: {e}"}
    return dict(worlds.observe(dm, light))


def diff(a, b):
    """First difference."""
    for k in b:
        if k not in a:
            return f"extra {k[:120]} {b[k][:120]}"
        if a[k] != b[k]:
            for x, y in zip(a[k].splitlines(), b[k].splitlines()):
                if x != y:
                    i = next((j for j in range(min(len(x), len(y)))
                              if x[j] != y[j]), min(len(x), len(y)))
                    lo = max(0, i - 40)
                    return (f"{k[:120]}: ...{y[lo:i + 80]!r} instead of "
                            f"...{x[lo:i + 80]!r}")
            return f"{k[:120]}: {b[k][-80:]!r} instead of {a[k][-80:]!r}"
    return None


def main():
    job = json.load(sys.stdin)
    texts, entries = job["world"]
    base = job["base"]
    res = {"diffs": [], "n": 0, "docs": 0}
    mids = [(e["name"], e.get("revision", "")) for e in entries
            if e.get("conformance", "implement") == "implement"]
    res["setorder"] = [m[0] for m in set(mids)]
    res["suborder"] = [[m[0] for m in set(
        (s, "") for s in e.get("submodules", ()))] for e in entries]
    for k, o in enumerate([job["order"]] if "order" in job
                          else orders(entries, job["orders"])):
        o = (tuple(o[0]), o[1])
        for j, ds in enumerate(job["dirs"]):
            ob = observe(entries, o, ds, "order" not in job and (
                j or k > 1))
            res["n"] += 1
            res["docs"] += len(ob)
            if base is None:
                base = ob
                res["base"] = ob
                continue
            d = diff(base, ob)
            if d:
                res["diffs"].append([o, ds, d])
    json.dump(res, sys.stdout)


if __name__ == "__main__":
    main()
