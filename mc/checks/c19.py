"""C19: threads that share a data model get the sequential results."""
import os
import pickle
import signal
import sys
import threading

from mc import core, ops, shared
from mc.checks.c18 import forked, fresh

PROPERTY = "C19"
ASSUMPTIONS = [
    "a thread switch may occur between any two bytecode instructions; a "
    "single instruction (and a method of a built-in container) is atomic",
    "validation counters (SchemaNode.val_count), a diagnostic aid, are "
    "allowed to be inexact",
]
POOLS = {"main": ops.pool, "types": ops.typepool}
SRC = os.path.join(core.REPO, "yangson") + os.sep
LIMIT = 60


def preload():
    for name, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if name.split(".")[0] in ("yangson", "collections", "weakref") and f:
            shared.lines(f)


def world(mode):
    """mode: instances and data models are all there and used (1), or created
    by the threads (0)."""
    preload()
    w = fresh(mode)
    if not mode:
        w.dm2
    return w


def roots(w):
    return [("dm", w.dm), ("dm2", w._dm2), ("insts", w.insts)]


def analyse(w, fn):
    """(stores into shared objects, number of lines) of an operation."""
    sh = shared.reachable(roots(w))
    own = id(w.insts)

    def go():
        m = shared.Monitor({k: v for k, v in sh.items() if k != own})
        m.run(lambda: ops.outcome(fn, w))
        return m.writes, m.nlines
    return forked(go)


class Points:
    """Tracer that calls on_point at every point where a switch matters."""

    def __init__(self, names, on_point):
        self.names = names
        self.on_point = on_point
        self.off = False

    def start(self):
        sys.settrace(self.trace)

    def stop(self):
        self.off = True
        sys.settrace(None)

    def hot(self, code):
        """Line -> does it store?, for the relevant lines of a function."""
        key = code, self.names
        if key not in _hot:
            table = shared.lines(code.co_filename)
            res = {}
            for *_, n in code.co_lines():
                ln = table.get(n)
                if ln and not self.names.isdisjoint(ln.names):
                    res[n] = any(x[1] in self.names for x in ln.stores)
            _hot[key] = res
        return _hot[key]

    def trace(self, frame, event, arg):
        if self.off or not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.names is None:
            return self.every
        hot = self.hot(frame.f_code)
        if not hot:
            return None
        if any(hot.values()):
            frame.f_trace_opcodes = True

        def local(frame, event, arg):
            if not self.off and (
                    event == "line" and frame.f_lineno in hot or
                    event == "opcode" and hot.get(frame.f_lineno)):
                self.on_point()
            return local
        return local

    def every(self, frame, event, arg):
        if event == "line" and not self.off:
            self.on_point()
        return self.every


_hot = {}


def timer():
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(LIMIT)


def in_thread(fn):
    res = []
    t = threading.Thread(target=lambda: res.append(fn()))
    t.start()
    t.join()
    return res[0]


def preempted(w, pool, a, b, names, base, stride=1, first=0, only=None):
    """Operation a, preempted at each point by the whole operation b.

    Returns (number of schedules, [(point, message)]).  Runs in a process of
    its own; each schedule is continued in a fork of it.
    """
    count = [0, 0]
    bad = []
    child = []

    def on_point():
        k = count[0]
        count[0] += 1
        if k % stride != first or len(bad) > 2 or only not in (None, k):
            return
        count[1] += 1
        r, wr = os.pipe()
        pid = os.fork()
        if pid:
            os.close(wr)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            st = os.waitpid(pid, 0)[1]
            if data:
                bad.append((k, data.decode()))
            elif st:
                bad.append((k, f"ends with status {st} (signal 14: hangs)"))
            return
        os.close(r)
        p.stop()
        timer()
        child.append(wr)
        child.append(in_thread(lambda: ops.outcome(pool[b], w)))
    p = Points(names, on_point)
    p.start()
    try:
        got = ops.outcome(pool[a], w)
    finally:
        p.stop()
        if child:
            try:
                msg = differs(base, ((a, got), (b, child[1])))
                os.write(child[0], msg[:4000].encode())
            finally:
                os._exit(0)
    return count[1], bad


def differs(base, results):
    for n, got in results:
        want = base[n]
        if got != want:
            i = next((i for i in range(min(len(want), len(got)))
                      if want[i] != got[i]), min(len(want), len(got)))
            lo = max(0, i - 60)
            return (f"{n} gives ...{got[lo:i + 120]!r} instead of "
                    f"...{want[lo:i + 120]!r}")
    return ""


def twice(w, pool, a, b, names, k1, k2):
    """Outcomes with a preempted at point k1, b at k2; and did b get there?"""
    sema, semb = threading.Semaphore(0), threading.Semaphore(0)
    res = {}
    reached = [False, False]
    done = [False, False]

    def body(i, n, own, other, k):
        count = [0]

        def on_point():
            if count[0] == k and not done[1 - i]:
                reached[i] = True
                other.release()
                own.acquire()
            count[0] += 1
        own.acquire()
        p = Points(names, on_point)
        p.start()
        res[i] = ops.outcome(pool[n], w)
        p.stop()
        done[i] = True
        other.release()
    ts = [threading.Thread(target=body, args=(0, a, sema, semb, k1)),
          threading.Thread(target=body, args=(1, b, semb, sema, k2))]
    for t in ts:
        t.start()
    sema.release()
    for t in ts:
        t.join()
    return (a, res[0]), (b, res[1]), reached


def explore_twice(w, pool, a, b, names, base, limit):
    n, bad = 0, []
    for k1 in range(limit):
        for k2 in range(limit):
            def go():
                timer()
                ra, rb, reached = twice(w, pool, a, b, names, k1, k2)
                return differs(base, (ra, rb)), reached
            n += 1
            try:
                msg, reached = forked(go)
            except RuntimeError as e:
                msg, reached = str(e), [True, True]
            if msg:
                bad.append(([k1, k2], msg))
                if len(bad) > 2:
                    return n, bad
            if not reached[1]:
                break
        if not reached[0]:
            break
    return n, bad


# -- groups ----------------------------------------------------------------------

def slices(items, n):
    return [items[i::n] for i in range(n) if items[i::n]]


def parallel(fn, items, n=8):
    """[fn(x) for x in items] computed by several processes."""
    procs = []
    for part in slices(list(enumerate(items)), n):
        r, wr = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                with os.fdopen(wr, "wb") as f:
                    pickle.dump([(i, fn(x)) for i, x in part], f)
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid, r))
    res = {}
    for pid, r in procs:
        with os.fdopen(r, "rb") as f:
            res.update(pickle.loads(f.read()))
        os.waitpid(pid, 0)
    return [res[i] for i in range(len(items))]


def bounds(tier):
    q = tier == "quick"
    return {"operations": {k: len(v()) for k, v in POOLS.items()},
            "threads": 2,
            "reduction": "operations that store into no object that existed "
            "before: all schedules are equivalent to the sequential one",
            "preemptions": "one preemption (by a whole operation) at each "
            "point where shared state that a pair stores into may be "
            "accessed, two for " + ("a part of the" if q else "all") +
            " pairs; one at each line executed by " +
            ("operations of up to 700 lines" if q else "every operation")}


def groups(tier):
    q = tier == "quick"
    res = []
    for mode in (1, 0):
        w = world(mode)
        for pname in POOLS:
            if not mode and pname == "types":
                continue
            pool = POOLS[pname]()
            names = list(pool)
            info = parallel(lambda n: analyse(w, pool[n]), names)
            res += [{"kind": "alone", "pool": pname, "mode": mode,
                     "ops": [(n, len(i[0]), i[1]) for n, i in
                             zip(names, info)]}]
            classes = {}
            for n, (wr, ln) in zip(names, info):
                if wr:
                    classes.setdefault(frozenset(wr), []).append((ln, n))
            some = []
            for c in classes.values():
                c.sort()
                some += [n for _, n in (c[:2] if q else c)]
            others = [c[0][1] for c in classes.values()]
            if q and len(some) > 24:
                some = some[::-(-len(some) // 24)]
                others = others[:12]
            wof = dict(zip(names, info))
            res += [{"kind": "pairs", "pool": pname, "mode": mode, "a": a,
                     "stores": sorted({x[1] for x in wof[a][0]}),
                     "bs": [a] + [b for b in others if b != a],
                     "readers": readers(names, a, q), "quick": q}
                    for a in some]
            if pname == "main":
                res += brute(names, info, mode, q)
    return res


def readers(names, a, q):
    return [n for n in names if n != a][::20 if q else 3]


def family(n):
    return n.split(":")[0]


def brute(names, info, mode, q):
    """Preemption at every line, by operations of the same family."""
    res = []
    fam = {}
    for n in names:
        fam.setdefault(family(n), []).append(n)
    for n, (_, ln) in zip(names, info):
        if q and ln > 700 or not ln:
            continue
        f = fam[family(n)]
        i = f.index(n)
        bs = [f[(i + 1) % len(f)], "val:good"]
        if not q:
            bs += [n, "dfl:other", "raw:small", "xml:good"]
        for b in bs[:1] if q and not mode else bs:
            if b not in names:
                continue
            parts = 1 + ln // 1500
            res += [{"kind": "lines", "pool": "main", "mode": mode, "a": n,
                     "b": b, "part": k, "parts": parts}
                    for k in range(parts)]
    if q:      # few processes, each with the same world
        return [{"kind": "many", "groups": s} for s in slices(res, 32)]
    return [{"kind": "many", "groups": s}
            for s in slices(res, max(1, len(res) // 8))]


def report(rec, g, a, b, names, n, bad, kind):
    rec.nstates += n
    rec.step(n)
    rec.agreed += n - len(bad)
    for k, msg in bad:
        rec.fail({"pool": g["pool"], "mode": g["mode"], "a": a, "b": b,
                  "names": names, "points": k, "kind": kind},
                 f"{a} preempted at {k} by {b}: {msg}")


_worlds = {}


def run_group(g, rec):
    if g["kind"] == "many":
        for x in g["groups"]:
            run_group(x, rec)
        return
    if g["kind"] == "alone":
        for n, wr, ln in g["ops"]:
            rec.state()
            rec.step(ln)
            rec.agree("stores into shared objects" if wr else "none")
        rec.sample({"op": g["ops"][0]})
        return
    key = g["mode"], g["pool"]
    if key not in _worlds:
        w = world(g["mode"])
        _worlds[key] = w, POOLS[g["pool"]](), {}
    w, pool, base = _worlds[key]

    def outcome_of(*names):
        for n in names:
            if n not in base:
                base[n] = forked(lambda: ops.outcome(pool[n], w))
    if g["kind"] == "lines":
        a, b = g["a"], g["b"]
        outcome_of(a, b)
        n, bad = forked(lambda: preempted(w, pool, a, b, None, base,
                                          g["parts"], g["part"]))
        report(rec, g, a, b, None, n, bad, "one")
        return
    names = frozenset(g["stores"])
    a = g["a"]
    outcome_of(a, *g["bs"], *g["readers"])
    for b in g["bs"] + g["readers"]:
        for x, y in ((a, b), (b, a))[:1 if a == b else 2]:
            n, bad = forked(lambda: preempted(w, pool, x, y, names, base))
            report(rec, g, x, y, sorted(names), n, bad, "one")
    for b in g["bs"][:2 if g["quick"] else 8]:
        n, bad = explore_twice(w, pool, a, b, names, base,
                               12 if g["quick"] else 60)
        report(rec, g, a, b, sorted(names), n, bad, "two")


def replay(case):
    w = world(case["mode"])
    pool = POOLS[case["pool"]]()
    a, b = case["a"], case["b"]
    base = {n: forked(lambda: ops.outcome(pool[n], w)) for n in (a, b)}
    names = frozenset(case["names"]) if case["names"] is not None else None
    if case["kind"] == "two":
        def go():
            timer()
            ra, rb, _ = twice(w, pool, a, b, names, *case["points"])
            return differs(base, (ra, rb))
        return forked(go) or None
    n, bad = forked(lambda: preempted(w, pool, a, b, names, base,
                                      only=case["points"]))
    return bad[0][1] if bad else None
