"""C02: navigation and editing agree with editing a plain tree."""
import itertools

from mc import edits as E
from mc.models import build, module
from yangson.exceptions import YangsonException

PROPERTY = "C02"


def depth(tier):
    return 5 if tier == "quick" else 6


def bounds(tier):
    return (f"all operation sequences of length <= {depth(tier)} from every "
            f"node of {len(E.DOCS)} documents; merged when every value on "
            "the focus chain and the path coincide; look_up with every set "
            "of keys in all lists of <= 3 of 8 entries with keys of a union "
            "type")


LOOK = module("a", """
  list ul { config false; key "k j";
    leaf k { type union { type boolean; type uint8;
             type decimal64 { fraction-digits 1; } type string; } }
    leaf j { type uint8; } leaf v { type uint8; } }
""")
ENTRIES = [{"k": True, "j": 0}, {"k": 1, "j": 0}, {"k": "1.0", "j": 0},
           {"k": "", "j": 0}, {"k": 0, "j": 1, "v": 0}, {"k": False},
           {"j": 0}, {"k": "true", "j": 1}]
KEYS = [{"k": k} for k in (True, False, 0, 1, "1.0", "0.0", "true", "")] + [
    {}, {"j": 0}, {"j": 1}, {"v": 0}, {"k": 1, "j": 0}, {"k": True, "j": 0},
    {"k": "1.0", "j": 1}, {"k": "", "j": 0}, {"k": False, "v": 0}]
_look = None


def look_trial(entries, keys, raw):
    """Compare look_up with a search of the plain list."""
    global _look
    if _look is None:
        _look = build({"a": LOOK})
    ul = _look.from_raw({"a:ul": entries})["a:ul"]
    exp = [i for i, en in enumerate(entries)
           if all(k in en and E.same(en[k], keys[k]) for k in keys)][:1]
    if raw:
        args = dict(keys)
    else:
        en = _look.from_raw({"a:ul": [keys]})["a:ul"][0].value
        args = {k: en[k] for k in keys}
    try:
        res = ul.look_up(True, **args) if raw else ul.look_up(**args)
        got = [res.index]
        if not E.same(res.raw_value(), entries[res.index]):
            return f"value {res.raw_value()} at index {res.index}"
    except YangsonException as e:
        got = []
        if type(e).__name__ != "NonexistentInstance":
            return repr(e)
    return None if got == exp else f"found {got}, expected {exp}"


def run_look(first, rec):
    """All lists of up to 3 entries that start with the entry `first`."""
    for n in range(3):
        for rest in itertools.product(ENTRIES, repeat=n):
            entries = ([ENTRIES[first]] + list(rest)) if first >= 0 else []
            rec.state()
            for keys in KEYS:
                for raw in (True, False):
                    rec.step()
                    msg = look_trial(entries, keys, raw)
                    rec.agree("look_up")
                    if msg:
                        rec.fail({"entries": entries, "keys": keys,
                                  "raw": raw},
                                 f"look_up {keys} in {entries}: {msg}")
            if first < 0:
                return


def groups(tier):
    return [["look", i] for i in range(-1, len(ENTRIES))] + [[i, list(p), depth(tier)] for i, d in enumerate(E.DOCS)
            for p in E.start_paths(d)]


def run_seq(doc, path, ops):
    """Replay on the implementation from scratch."""
    node = E.start(doc, path)
    return node


def trial(node, state, op):
    """One transition on both sides -> (new node, new state, message)."""
    try:
        exp = E.apply(state, op)
        err = None
    except E.Err as e:
        exp, err = None, e.args
    try:
        res = E.execute(node, state[1], op)
    except YangsonException as e:
        nm = type(e).__name__
        if err is None:
            return None, None, f"{op} at {state[1]}: unexpected {nm}: {e}"
        if nm not in err:
            return None, None, (f"{op} at {state[1]}: {nm} instead of "
                                f"{'/'.join(err)}")
        return None, None, None
    except Exception as e:
        return None, None, f"{op} at {state[1]}: internal error {e!r}"
    if err is not None:
        return None, None, (f"{op} at {state[1]}: no error, expected "
                            + "/".join(err))
    try:
        d = E.observe_diff(res, exp)
    except Exception as e:
        d = f"inspection failed: {e!r}"
    if d:
        return None, None, f"after {op} at {state[1]}: {d}"
    return res, exp, None


def run_group(group, rec):
    if group[0] == "look":
        return run_look(group[1], rec)
    di, path, dep = group
    path = tuple(path)
    doc = E.DOCS[di]
    s0 = (doc, path)
    frontier = [(E.start(doc, path), s0, [])]
    seen = {E.fingerprint(frontier[0][0])}
    rec.state()
    for d in range(dep):
        nxt = []
        for node, state, hist in frontier:
            for op in E.menu(state):
                new, exp, msg = trial(node, state, op)
                rec.step()
                rec.agree(op[0] + ("!" if new is None else ""))
                if msg:
                    rec.fail({"doc": di, "path": list(path),
                              "ops": hist + [op]}, msg)
                    continue
                if new is None:
                    continue
                fp = E.fingerprint(new)
                if fp not in seen:
                    seen.add(fp)
                    rec.state()
                    nxt.append((new, exp, hist + [op]))
                    if len(hist) == dep - 1:
                        rec.sample({"doc": doc, "path": list(path),
                                    "ops": hist + [op]})
        frontier = nxt


def replay(case):
    if "entries" in case:
        return look_trial(case["entries"], case["keys"], case["raw"])
    doc = E.DOCS[case["doc"]]
    path = tuple(case["path"])
    node, state = E.start(doc, path), (doc, path)
    for op in case["ops"]:
        node, state, msg = trial(node, state, op)
        if msg:
            return msg
        if node is None:
            return None
    return None
