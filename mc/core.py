"""Runner shared by all checks: bounded exhaustive exploration of the real
library against reference models.

A check module defines
    PROPERTY  = "Cxx"
    groups(tier) -> list of JSON-able group descriptors (the finite space,
                    split into independent pieces)
    run_group(group, rec) -> explores one piece completely; calls rec.state(),
                    rec.step(), rec.agree(), rec.fail(case, message)
    replay(case) -> message or None: one case, without the explorer
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

MAX_FAILS_PER_GROUP = 20
KNOWN = {}


class GroupTimeout(BaseException):
    pass


class Rec:
    """Counts what one group explored and records failures."""

    def __init__(self):
        self.states = set()
        self.nstates = 0
        self.steps = 0
        self.agreed = 0
        self.fails = []
        self.known = {}
        self.nfails = 0
        self.samples = []
        self.outcomes = {}
        self.caps = []

    def state(self, key=None):
        """A distinct model state / input was visited."""
        if key is None:
            self.nstates += 1
            return True
        h = hash(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        """A transition was executed on the implementation."""
        self.steps += n

    def agree(self, outcome=None):
        """One implementation outcome was compared with the model's."""
        self.agreed += 1
        if outcome is not None:
            self.outcomes[outcome] = self.outcomes.get(outcome, 0) + 1

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def fail(self, case, message):
        k = case_key(case)
        if k in KNOWN:
            self.known[k] = message
            return
        self.nfails += 1
        if len(self.fails) < MAX_FAILS_PER_GROUP:
            self.fails.append((case, message))

    def cap(self, text):
        self.caps.append(text)

    def check(self, cond, case, message, outcome=None):
        self.agree(outcome)
        if not cond:
            self.fail(case() if callable(case) else case,
                      message() if callable(message) else message)
        return cond


def case_key(case):
    """Stable identity of a failing case, used by the known-findings file."""
    if isinstance(case, dict) and "key" in case:
        return case["key"]
    txt = json.dumps(case, sort_keys=True, ensure_ascii=False, default=str)
    return hashlib.sha256(txt.encode("utf-8", "surrogatepass")).hexdigest()[:16]


def innermost_in_repo(tb):
    """True if the deepest project frame of a traceback is library code."""
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "/"):
            last = "repo"
        elif fn.startswith(VERIF + "/"):
            last = "verif"
        tb = tb.tb_next
    return last == "repo"


_mod = None
_scratch = None


def scratch():
    """Scratch directory of this process (created lazily, removed at end)."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(),
                    tempfile.mkdtemp(prefix="w", dir=os.environ["MC_SCRATCH"]))
    return _scratch[1]


def _alarm(signum, frame):
    raise GroupTimeout()


def _init(modname, limit):
    global _mod, _limit
    _mod = importlib.import_module(modname)
    KNOWN.update(load_known(_mod.PROPERTY))
    _limit = limit
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(job):
    idx, group = job
    rec = Rec()
    err = None
    t0 = time.time()
    try:
        signal.alarm(_limit)
        try:
            _mod.run_group(group, rec)
        finally:
            signal.alarm(0)
    except GroupTimeout:
        tb = sys.exc_info()[2]
        where = "".join(traceback.format_tb(tb)[-3:])
        if innermost_in_repo(tb):
            rec.fail({"group": group, "timeout": True},
                     f"library call did not finish within {_limit} s; at\n"
                     + where)
        else:
            err = f"group {group!r} exceeded {_limit} s in the harness\n{where}"
    except Exception as e:
        tb = sys.exc_info()[2]
        txt = traceback.format_exc(limit=-8)
        if innermost_in_repo(tb):
            rec.fail({"group": group, "uncaught": type(e).__name__},
                     "unexpected exception from the library: " + txt)
        else:
            err = f"group {group!r}: {txt}"
    return (idx, rec.nstates + len(rec.states), rec.steps, rec.agreed,
            rec.nfails, rec.fails, rec.known, rec.samples, rec.outcomes, rec.caps, err,
            time.time() - t0)


def load_known(pid):
    """known findings of a property: {key: description}"""
    res = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn, encoding="utf-8"):
            ln = ln.strip()
            if not ln.startswith("finding: "):
                continue
            _, prop, key, desc = ln.split(None, 3)
            if prop == "property=" + pid and key.startswith("key="):
                res[key[4:]] = desc
    return res


def write_replay(pid, modname, case, msg, group):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    k = case_key(case)
    fn = os.path.join(d, "".join(c if c.isalnum() else "_"
                                 for c in k)[:60] + ".json")
    with open(fn, "w", encoding="utf-8") as f:
        json.dump({"property": pid, "module": modname, "key": k,
                   "case": case, "group": group, "message": msg}, f,
                  indent=1, ensure_ascii=False, default=str)
    return fn


def main(modname, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = argv[0] if argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="mc-")
    os.environ["MC_SCRATCH"] = base
    try:
        return _main(modname, tier, seed, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(modname, tier, seed, t0):
    mod = importlib.import_module(modname)
    pid = mod.PROPERTY
    known = load_known(pid)
    groups = list(mod.groups(tier))
    limit = getattr(mod, "GROUP_LIMIT", 600 if tier == "quick" else 3000)
    order = list(range(len(groups)))
    weight = getattr(mod, "group_weight", None)
    if weight:
        order.sort(key=lambda i: weight(groups[i]), reverse=True)
    nproc = min(int(os.environ.get("MC_PROCS", "0")) or os.cpu_count() or 1,
                max(1, len(groups)))
    tot = dict(states=0, steps=0, agreed=0, nfails=0)
    fails, samples, outcomes, caps, errs = [], [], {}, [], []
    seen_known = {}
    slow = (0, None)
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc, _init, (modname, limit)) as pool:
        results = {}
        for r in pool.imap_unordered(_work, [(i, groups[i]) for i in order],
                                     chunksize=getattr(mod, "CHUNK", 1)):
            results[r[0]] = r
        pool.close()
        pool.join()
    for i in range(len(groups)):
        (_, st, sp, ag, nf, fl, kn, sa, oc, cp, err, dt) = results[i]
        tot["states"] += st
        tot["steps"] += sp
        tot["agreed"] += ag
        tot["nfails"] += nf
        fails += [(i, n, c, m) for n, (c, m) in enumerate(fl)]
        seen_known.update(kn)
        if len(samples) < 6:
            samples += sa[:2]
        for k, v in oc.items():
            outcomes[k] = outcomes.get(k, 0) + v
        caps += cp
        if err:
            errs.append(err)
        slow = max(slow, (dt, i))
    if errs:
        print("HARNESS ERROR:", errs[0], f"({len(errs)} groups)")
    fails.sort(key=lambda x: (x[1], x[0]))
    newfails = [(i, c, m) for i, _, c, m in fails]
    show = int(os.environ.get("MC_SHOW", "10"))
    for k in known:
        if k in seen_known:
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
        else:
            print(f"note: known finding no longer observed: {k} {known[k]}")
    seenk = set()
    replays = []
    for i, case, msg in newfails:
        k = case_key(case)
        if k in seenk:
            continue
        seenk.add(k)
        if len(replays) < show:
            fn = write_replay(pid, modname, case, msg, groups[i])
            replays.append(fn)
            print(f"--- {msg}")
            print(f"VIOLATION property={pid} replay={fn}")
    cov = {"states": tot["states"], "transitions": tot["steps"],
           "traces_validated_against_impl": tot["agreed"],
           "groups": len(groups), "exhaustive": not caps and not errs,
           "distinct_outcomes": len(outcomes),
           "outcomes": {str(k): outcomes[k] for k in
                        sorted(outcomes, key=str)[:60]},
           "samples": samples[:6], "caps": sorted(set(caps))[:10],
           "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else ""}
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(seenk)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w",
              encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print(f"{pid} [{tier}] groups={len(groups)} states={tot['states']} "
          f"transitions={tot['steps']} compared={tot['agreed']} "
          f"outcomes={len(outcomes)} failing={tot['nfails']} "
          f"(new {len(seenk)}) known={len(seen_known)} "
          f"slowest_group={slow[0]:.1f}s wall={time.time()-t0:.1f}s")
    if seenk:
        return 1
    if errs:
        return 2
    return 0


def replay_main(path):
    rp = json.load(open(path, encoding="utf-8"))
    base = tempfile.mkdtemp(prefix="mc-")
    os.environ["MC_SCRATCH"] = base
    try:
        mod = importlib.import_module(rp["module"])
        case = rp["case"]
        if isinstance(case, dict) and ("timeout" in case
                                       or "uncaught" in case):
            rec = Rec()
            mod.run_group(rp["group"], rec)
            msg = rec.fails[0][1] if rec.fails else None
        elif hasattr(mod, "replay"):
            msg = mod.replay(case)
        else:
            rec = Rec()
            mod.run_group(rp["group"], rec)
            k = rp["key"]
            msg = next((m for c, m in rec.fails if case_key(c) == k), None)
        print("REPRODUCED: " + msg if msg else "not reproduced")
        return 1 if msg else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
