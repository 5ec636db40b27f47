"""C16: a data model does not depend on listing order, hash seed, load order."""
import itertools
import json
import os
import shutil
import subprocess
import sys

from mc import core, models, worlds
from mc.models import module
from yangson.datamodel import DataModel
from yangson.exceptions import YangsonException

PROPERTY = "C16"
WORLDS = worlds.worlds()
# hash seeds that together give every iteration order of the set of
# implemented modules (four modules: 24 orders) and of each set of submodules;
# which orders they really gave is counted in the evidence
SEEDS = {
        "augment": [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 14, 15, 16, 17, 20, 26,
        29, 33, 36, 42, 48, 50, 80],
        "chain": [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 14, 15, 16, 17, 20, 26,
        29, 33, 36, 42, 48, 50, 80],
    "sub": [0, 3, 2, 5, 8, 14],
        "identity": [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 19, 20, 23, 27, 29,
        31, 33, 34, 38, 44, 51, 52, 63],
        "deviation": [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 14, 15, 16, 17, 20,
        26, 29, 33, 36, 42, 48, 50, 80],
    "feature": [0, 1, 2, 3, 7, 8],
        "revision": [0, 1, 2, 3, 4, 7, 8, 9, 10, 14, 17, 19, 20, 22, 25, 34,
        43, 44, 46, 57, 65, 68, 70, 87],
    "operation": [0, 2, 3, 4, 6, 8],
    "reference": [0, 2, 3, 4, 6, 8],
}


def copies(texts):
    """Search paths that hold the same files in different ways."""
    base = models.moddir(texts)
    one = models.moddir({k: v for i, (k, v) in enumerate(sorted(
        texts.items())) if i % 2})
    two = models.moddir({k: v for i, (k, v) in enumerate(sorted(
        texts.items())) if not i % 2})
    empty = models.moddir({})
    return [[base], [one, two], [two, empty, one], [empty, base, one]]


def worker(seed, job):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=core.REPO)
    p = subprocess.run([sys.executable, "-m", "mc.c16w"], cwd=core.VERIF,
                       env=env, input=json.dumps(job), text=True,
                       capture_output=True, timeout=600)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout)


def order_group(g, rec):
    name = g["world"]
    texts, entries = WORLDS[name]
    dirs = copies(texts)
    base = worker(0, {"world": [texts, entries], "orders": "few",
                      "dirs": [dirs[0]], "base": None})["base"]
    if "build" in base:
        rec.fail({"kind": "order", "world": name, "seed": 0,
                  "order": [list(range(len(entries))), 0], "dirs": 0},
                 f"world {name} is rejected: {base['build']}")
        return
    orders = set()
    for i, seed in enumerate(g["seeds"]):
        full = seed in g["full"]
        r = worker(seed, {"world": [texts, entries], "base": base,
                          "orders": "all" if full else "few",
                          "dirs": dirs if i < 2 else dirs[:2]})
        orders.add(json.dumps([r["setorder"], r["suborder"]]))
        rec.step(r["docs"])
        rec.agreed += r["docs"] - len(r["diffs"])
        rec.nstates += r["n"]
        for o, ds, d in r["diffs"]:
            rec.fail({"kind": "order", "world": name, "seed": seed,
                      "order": o, "dirs": dirs.index(ds)},
                     f"world {name}, hash seed {seed}, library order {o}, "
                     f"search path {dirs.index(ds)}: {d}")
    rec.outcomes[f"set orders {name}"] = len(orders)
    rec.sample({"world": name, "hash seeds": g["seeds"],
                "set orders seen": len(orders)})


def order_replay(c):
    texts, entries = WORLDS[c["world"]]
    dirs = copies(texts)
    base = worker(0, {"world": [texts, entries], "orders": "few",
                      "dirs": [dirs[0]], "base": None})["base"]
    if "build" in base:
        return base["build"]
    r = worker(c["seed"], {"world": [texts, entries], "base": base,
                           "order": c["order"],
                           "dirs": [dirs[c["dirs"]]]})
    return r["diffs"][0][2] if r["diffs"] else None


# --------------------------------------- the same process, loaded repeatedly

def again_case(a, b):
    """Observations of world a after world b was loaded and used."""
    def load(n):
        texts, entries = WORLDS[n]
        d = models.moddir(texts)
        try:
            return DataModel(worlds.library(entries), (d,))
        finally:
            shutil.rmtree(d)
    from mc.c16w import diff
    first = dict(worlds.observe(load(a), light=True))
    dm = load(b)
    for _ in worlds.observe(dm, light=True):
        pass
    second = load(a)
    for _ in worlds.observe(dm, light=True):
        pass
    d = diff(first, dict(worlds.observe(second, light=True)))
    return d and f"world {a} loaded again after {b}: {d}"


# ------------------------------------------------------------- file search

R1, R2 = "2020-01-01", "2021-01-01"
CONTENT = ("absent", "right", "otherrev", "othername", "norev", "dir")


def mtext(content, mark, rev):
    name = "x" if content == "othername" else "m"
    r = {"right": rev, "otherrev": R2, "othername": rev,
         "norev": ""}[content]
    return module(name, f"leaf {mark} {{ type uint8; }}", rev=r or None)


def search_case(c):
    """c: revision, and contents of d1/m@r, d1/m, d2/m@r, d2/m."""
    rev, files = c["rev"], c["files"]
    top = models.moddir({})
    ok = []
    for i, content in enumerate(files):
        d = os.path.join(top, f"d{i // 2}")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f"m@{rev or R1}.yang" if i % 2 == 0
                          else "m.yang")
        if content == "absent":
            continue
        if content == "dir":
            os.mkdir(fn)
            continue
        with open(fn, "w") as f:
            f.write(mtext(content, f"f{i}", rev))
        if content == "right" or content == "norev" and not rev:
            if rev or i % 2:
                ok.append(i)
    try:
        try:
            dm = DataModel(worlds.library([{"name": "m", "revision": rev}]),
                           [os.path.join(top, "d0"),
                            os.path.join(top, "d1")])
            got = sorted(x.name for x in dm.schema.children)
        except YangsonException as e:
            got = type(e).__name__
        except Exception as e:
            return f"library revision {rev!r}, files {files}: {e!r}"
    finally:
        shutil.rmtree(top)
    if not ok:
        want = ["ModuleNotFound"]
    else:       # a right file of the first directory that has one
        want = [[f"f{i}"] for i in ok if i // 2 == ok[0] // 2]
    if got not in want:
        return (f"library revision {rev!r}, files d0/m@r, d0/m, d1/m@r, d1/m "
                f"= {files}: {got}, expected {want}")
    return None


def search_cases():
    for rev in (R1, ""):
        for files in itertools.product(CONTENT, repeat=4):
            if files.count("dir") > 1:
                continue
            yield {"kind": "search", "rev": rev, "files": list(files)}


# -------------------------------------------------------------- revisions

REVS = ("2019-05-05", "2020-06-06", "2021-07-07")


def rev_world(conf, date, subdate, style):
    """Module m in three revisions; module u imports it, also in its
    submodule.  Texts, entries."""
    texts = {}
    entries = []
    for i, (r, c) in enumerate(zip(REVS, conf)):
        revs = {"plain": f"revision {r};", "history": "".join(
            f"revision {x};" for x in reversed(REVS[:i + 1])),
                "oldfirst": "".join(f"revision {x};" for x in REVS[:i + 1])
                }[style]
        texts[f"m@{r}"] = module(
            "m", f'typedef t {{ type uint8 {{ range "{i + 1}"; }} }} '
            f"grouping g {{ leaf g{i} {{ type t; }} }} leaf top{i} {{ type "
            f"t; }} container mc {{ }} identity id; identity d{i} {{ base "
            f"id; }}", head=revs)
        if c != "-":
            entries.append({"name": "m", "revision": r, "conformance":
                            {"I": "implement", "i": "import"}[c]})
    rd = f" revision-date {REVS[date]};" if date is not None else ""
    sd = f" revision-date {REVS[subdate]};" if subdate is not None else ""
    texts["u"] = module("u", "leaf x { type m:t; } container c { uses m:g; }"
                        " include us;",
                        head=f"import m {{ prefix m;{rd} }} ")
    texts["u"] = texts["u"].replace(" include us;", "").replace(
        "import m", "include us; import m")
    texts["us"] = worlds.sub("us", "u", "u", f"import m {{ prefix m;{sd} }} "
                             "leaf y { type m:t; } container d { uses m:g; }")
    entries.append({"name": "u", "submodules": ["us"]})
    return texts, entries


def rev_case(c):
    conf, date, subdate = c["conf"], c["date"], c["subdate"]
    texts, entries = rev_world(conf, date, subdate, c["style"])
    entries = [entries[i] for i in c["order"]]
    d = models.moddir(texts)
    got = None
    try:
        dm = DataModel(worlds.library(entries), (d,))
    except YangsonException as e:
        got = type(e).__name__
    except Exception as e:
        return f"revisions {c}: {e!r}"
    finally:
        shutil.rmtree(d)
    listed = [i for i in range(3) if conf[i] != "-"]

    def resolved(dt):
        if dt is None:
            return max(listed) if listed else None
        return dt if dt in listed else None
    want = None
    if conf.count("I") > 1:
        want = "MultipleImplementedRevisions"
    elif resolved(date) is None or resolved(subdate) is None:
        want = "ModuleNotRegistered"
    if want or got:
        return None if want == got else (
            f"revisions {c}: {got or 'accepted'}, expected "
            f"{want or 'acceptance'}")
    exp = {"u:x", "u:c", "u:y", "u:d"}
    if "I" in conf:
        exp |= {f"m:top{conf.index('I')}", "m:mc"}
    kids = {k.iname(): k for k in dm.schema.children}
    if set(kids) != exp:
        return f"revisions {c}: top nodes {sorted(kids)}, not {sorted(exp)}"
    for leaf, cont, dt in (("u:x", "u:c", date), ("u:y", "u:d", subdate)):
        i = resolved(dt)
        v = [x for x in range(5) if x in kids[leaf].type]
        if v != [i + 1]:
            return f"revisions {c}: {leaf} accepts {v}, not {[i + 1]}"
        g = [k.name for k in kids[cont].children]
        if g != [f"g{i}"]:
            return f"revisions {c}: {cont} has {g}, not g{i}"
    if "I" in conf:
        i = conf.index("I")
        v = [x for x in range(5) if x in kids[f"m:top{i}"].type]
        if v != [i + 1]:
            return f"revisions {c}: m:top{i} accepts {v}, not {[i + 1]}"
        ids = {x[0] for x in dm.schema_data.derived_from(("id", "m"))}
        if f"d{i}" not in ids:
            return f"revisions {c}: identity d{i} is missing"
    return None


def rev_cases():
    for conf in itertools.product("-iI", repeat=3):
        n = 1 + sum(x != "-" for x in conf)
        for date, sd in itertools.product((None, 0, 1, 2), repeat=2):
            for style in ("plain", "history", "oldfirst"):
                for o in itertools.permutations(range(n)):
                    yield {"kind": "revision", "conf": "".join(conf),
                           "date": date, "subdate": sd, "order": list(o),
                           "style": style}


# ------------------------------------------------------------------ cycles

def cycle_case(c):
    """Import graph over modules a, b, c (and a submodule of a)."""
    names = "abc"
    texts, entries = {}, []
    edges = [tuple(e) for e in c["edges"]]
    for i, n in enumerate(names):
        im = [(names[j], f"p{names[j]}") for k, j in edges if k == i]
        body = f"typedef t {{ type uint8; }} container top {{ }} "
        body += "".join(f"leaf {n}{m} {{ type {p}:t; }} " for m, p in im)
        if i == 0 and c["sub"]:
            texts["as"] = worlds.sub("as", "a", "a", body, imports=im)
            texts["a"] = module("a", "", head="include as; ")
        else:
            texts[n] = module(n, body, imports=im)
        if n in c["listed"]:
            entries.append({"name": n, "conformance": "implement" if n in
                            c["impl"] else "import",
                            "submodules": ["as"] if i == 0 and c["sub"]
                            else []})
    d = models.moddir(texts)
    got = None
    try:
        dm = DataModel(worlds.library(entries), (d,))
    except YangsonException as e:
        got = type(e).__name__
    except Exception as e:
        return f"imports {c}: {e!r}"
    finally:
        shutil.rmtree(d)
    used = [(k, j) for k, j in edges if names[k] in c["listed"]]
    reach = {(k, j) for k, j in used}
    for _ in range(3):
        reach |= {(a, d) for a, b in reach for b2, d in reach if b == b2}
    if any(names[j] not in c["listed"] for _, j in used):
        want = "ModuleNotRegistered"
        # an import cycle is another possible reason
        ok = got == want or got == "CyclicImports" and any(
            a == b for a, b in reach)
    elif any(a == b for a, b in reach):
        want = "CyclicImports"
        ok = got == want
    else:
        want = None
        ok = got is None
    if not ok:
        return (f"imports {c}: {got or 'accepted'}, expected "
                f"{want or 'acceptance'}")
    if got:
        return None
    exp = sorted({f"{n}:top" for n in c["impl"]} | {
        f"{names[k]}:{names[k]}{names[j]}" for k, j in edges
        if names[k] in c["impl"]})
    kids = sorted(k.iname() for k in dm.schema.children)
    if kids != exp:
        return f"imports {c}: top nodes {kids}, expected {exp}"
    return None


def cycle_cases():
    allp = [(i, j) for i in range(3) for j in range(3)]
    for bits in range(1 << 9):
        edges = [p for k, p in enumerate(allp) if bits >> k & 1]
        if sum(i == j for i, j in edges) > 1:
            continue
        for listed in ("abc", "ab", "bc"):
            for k in range(1, len(listed) + 1):
                for impl in itertools.combinations(listed, k):
                    for sub in (False, True):
                        if listed != "abc" and (sub or len(edges) > 4):
                            continue
                        if any("abc"[i] not in listed for i, j in edges):
                            continue
                        yield {"kind": "cycle", "edges": edges,
                               "listed": listed, "impl": "".join(impl),
                               "sub": sub}


# --------------------------------------------------------------- submodules

def sub_case(c):
    """Module a with one or two submodules, module b; how they are included,
    listed and what they belong to."""
    texts = {"a": module("a", "leaf a { type uint8; }",
                         head="".join(f"include {s}; " for s in c["inc"])),
             "b": module("b", "leaf b { type uint8; }")}
    for s in ("s", "t"):
        main = c["of"][s]
        if main == "module":
            texts[s] = module(s, f"leaf {s} {{ type uint8; }}")
        else:
            texts[s] = worlds.sub(s, main, "p", f"leaf {s} {{ type uint8; }}",
                                  includes=["t"] if s == "s" and c["nest"]
                                  else [])
    entries = [{"name": n, "submodules": c["listed"][n]} for n in "ab"]
    if c["rev"]:
        entries.reverse()
    d = models.moddir(texts)
    got = None
    try:
        dm = DataModel(worlds.library(entries), (d,))
    except YangsonException as e:
        got = type(e).__name__
    except Exception as e:
        return f"submodules {c}: {e!r}"
    finally:
        shutil.rmtree(d)
    bad = any(c["of"][s] != n for n in "ab" for s in c["listed"][n])
    missing = any(s not in c["listed"]["a"] for s in c["inc"]) or (
        c["nest"] and any("s" in c["listed"][n] and "t" not in
                          c["listed"][n] for n in "ab"))
    if bad or missing:
        if got is None:
            return (f"submodules {c}: accepted, but a submodule "
                    + ("belongs to another module" if bad else
                       "that is included is not listed"))
        return None
    stray = any(s not in c["inc"] and not (c["nest"] and s == "t" and "s" in
                                           c["inc"])
                for n in "ab" for s in c["listed"][n])
    if stray:
        return None             # listed, but not included: left open
    if got:
        return f"submodules {c}: {got}"
    exp = sorted(["a:a", "b:b"] + [f"a:{s}" for s in c["listed"]["a"]])
    kids = sorted(k.iname() for k in dm.schema.children)
    if kids != exp:
        return f"submodules {c}: top nodes {kids}, expected {exp}"
    return None


def sub_cases():
    subsets = [[], ["s"], ["t"], ["s", "t"], ["t", "s"]]
    for inc in subsets:
        for la in subsets:
            for lb in ([], ["s"], ["t"]):
                for os_, ot in itertools.product(("a", "b", "module"),
                                                 repeat=2):
                    for nest in (False, True):
                        if nest and os_ == "module":
                            continue
                        for rev in (False, True):
                            yield {"kind": "submodule", "inc": inc,
                                   "listed": {"a": la, "b": lb},
                                   "of": {"s": os_, "t": ot}, "nest": nest,
                                   "rev": rev}


# ------------------------------------------------------- broken libraries

FAULTLIB = [{"name": "a", "revision": "", "submodules": ["as"],
             "features": ["f", "g"]},
            {"name": "b", "revision": R1, "conformance": "import"}]
FAULTTEXTS = {
    "a": module("a", "feature f; feature g { if-feature f; } leaf x { type "
                "b:t; if-feature g; }", imports=[("b", "b")],
                head="include as; "),
    "as": worlds.sub("as", "a", "a", "leaf y { type b:t; }",
                     imports=[("b", "b")]),
    "b": module("b", "typedef t { type uint8; }", rev=R1)}
VALUES = [None, True, 0, 1.5, "x", "", [], {}, ["x"], [[]], [None], {"x": 1},
          [{}], "implement", "import"]


def faultlib():
    lib = json.loads(worlds.library(FAULTLIB))
    top = lib["ietf-yang-library:modules-state"]
    top["module"][0]["yangson-yl:keep-obsolete"] = True
    top["module"][0]["deviation"] = [{"name": "b", "revision": R1}]
    top["module"][1]["schema"] = "http://x"
    return lib


def places(v, path=()):
    yield path
    if isinstance(v, dict):
        for k in v:
            yield from places(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from places(x, path + (i,))


def mutate(lib, path, what):
    lib = json.loads(json.dumps(lib))
    if not path:
        return what
    p = lib
    for k in path[:-1]:
        p = p[k]
    if what == "DELETE":
        del p[path[-1]]
    elif what == "DOUBLE":
        if isinstance(p, list):
            p.insert(path[-1], p[path[-1]])
    else:
        p[path[-1]] = what
    return lib


HARMLESS = ("schema", "deviation", "namespace", "module-set-id",
            "yangson-yl:keep-obsolete")


def lib_case(c, d=None):
    own = d is None
    if own:
        d = models.moddir(FAULTTEXTS)
    try:
        if "text" in c:
            txt = json.dumps(faultlib())[:c["text"]]
        else:
            txt = json.dumps(mutate(faultlib(), c["path"], c["value"]))
        try:
            DataModel(txt, (d,))
            got = None
        except YangsonException as e:
            got = type(e).__name__
        except Exception as e:
            return f"library {c}: {e!r}"
    finally:
        if own:
            shutil.rmtree(d)
    if "text" in c:
        return None if got == "BadYangLibraryData" else \
            f"library cut at {c['text']}: {got}"
    path, v = tuple(c["path"]), c["value"]
    if got is None and must_fail(path, v):
        return f"library {c}: accepted"
    return None


# type of the value of each name in a library
TYPES = {"name": str, "revision": str, "namespace": str, "module-set-id": str,
         "conformance-type": str, "yangson-yl:keep-obsolete": bool,
         "module": list, "submodule": list, "feature": list,
         "ietf-yang-library:modules-state": dict}


def must_fail(path, v):
    """Must the library be rejected?  False also where it is left open."""
    if not path:
        return True
    if "deviation" in path or "schema" in path or v == "DOUBLE":
        return False
    last = path[-1]
    if isinstance(last, int):
        typ = str if path[-2] == "feature" else dict
        if v == "DELETE":
            # without module b or submodule as
            return path[-2] == "submodule" or path[-2:] == ("module", 1)
        if typ is str:
            return not isinstance(v, str)
        return True
    if v == "DELETE":
        return last in ("ietf-yang-library:modules-state", "name", "revision",
                        "conformance-type", "submodule", "feature",
                        "module-set-id") and (
            last != "feature") or last == "module"
    if not isinstance(v, TYPES[last]):
        return True
    if last in ("module-set-id", "namespace", "yangson-yl:keep-obsolete"):
        return False
    if last == "feature":
        return not all(isinstance(x, str) for x in v)
    if last == "conformance-type":
        return v not in ("implement", "import")
    if last == "revision":
        return not (v == "" and path[-2] == 0)
    return last == "name" or v != []


def lib_cases():
    lib = faultlib()
    n = len(json.dumps(lib))
    for i in range(n):
        yield {"kind": "library", "text": i}
    for p in places(lib):
        for v in VALUES + ["DELETE", "DOUBLE"]:
            if not p and v in ("DELETE", "DOUBLE"):
                continue
            yield {"kind": "library", "path": list(p), "value": v}


# ------------------------------------------------------------------ checks

FAMILIES = {"search": (search_cases, search_case),
            "revision": (rev_cases, rev_case),
            "cycle": (cycle_cases, cycle_case),
            "submodule": (sub_cases, sub_case),
            "library": (lib_cases, lib_case)}


def bounds(tier):
    return ("nine libraries of three to six modules: all listing orders of "
            "modules and inner lists, four search paths, hash seeds that "
            "give every iteration order of the module sets; all pairs of "
            "libraries loaded in one process; all contents of two candidate "
            "files in two directories; all listings of three revisions with "
            "all import dates and listing orders; all import graphs over "
            "three modules; all listings of two submodules; all single "
            "faults and truncations of a library")


PARTS = {"search": 8, "revision": 16, "cycle": 16, "submodule": 4,
         "library": 4}


def groups(tier):
    res = []
    for n, s in SEEDS.items():
        parts = 2 if tier == "quick" else 6
        for i in range(parts):
            res.append({"kind": "order", "world": n, "seeds": s[i::parts],
                        "full": s[:2] if tier == "quick" else s})
    for a in WORLDS:
        res.append({"kind": "again", "world": a})
    for f, k in PARTS.items():
        res += [{"kind": f, "part": i, "parts": k} for i in range(k)]
    return res


def run_group(g, rec):
    if g["kind"] == "order":
        return order_group(g, rec)
    if g["kind"] == "again":
        for b in WORLDS:
            rec.state()
            rec.step()
            m = again_case(g["world"], b)
            rec.check(m is None, {"kind": "again", "a": g["world"], "b": b},
                      m)
        return
    gen, one = FAMILIES[g["kind"]]
    for i, c in enumerate(gen()):
        if i % g["parts"] != g["part"]:
            continue
        rec.state()
        rec.step()
        m = one(c)
        rec.check(m is None, c, m, g["kind"])


def replay(case):
    if case["kind"] == "order":
        return order_replay(case)
    if case["kind"] == "again":
        return again_case(case["a"], case["b"])
    return FAMILIES[case["kind"]][1](case)
