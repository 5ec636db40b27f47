"""C22: command-line tools report outcomes exactly as documented."""
import contextlib
import io
import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys
import runpy

from mc import core, models, ops, worlds
from mc.models import libtext, module
from yangson import __main__ as cli, convert8525
from yangson.datamodel import DataModel
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import YangsonException

PROPERTY = "C22"
ASSUMPTIONS = [
    "a damaged binary data model is a problem with reading a file (status 1)",
    "a binary data model that can't be written gives status 1",
    "an unusable --subschema is a failed validation (status 3)",
    "usage errors are left to argparse (status 2, nothing on standard output)",
]
MD = module("ietf-yang-metadata", "extension annotation { argument name; }",
            prefix="md")
A = module("a", """
  identity base; identity i1 { base base; }
  typedef small { type uint8 { range "1..9"; } }
  md:annotation note { type a:small; }
  container c {
    must "not(t = 9)" { error-message "nine"; }
    leaf t { type small; mandatory true; }
    leaf st { config false; type uint8; mandatory true; }
    list l { key k; leaf k { type string; } leaf n { type uint8; } }
    leaf r { type leafref { path "../l/k"; } }
    leaf id { type identityref { base base; } }
    leaf u { type union { type small; type boolean; } }
  }
  rpc op { input { leaf p { type small; mandatory true; } }
           output { leaf q { type string; } } }
  notification ev { leaf what { type small; } }
""", imports=[("ietf-yang-metadata", "md")])
B = module("b", "augment \"/a:c\" { leaf x { type uint8; default 1; } }",
           imports=[("a", "a")])
MODS = [{"name": "a"}, {"name": "b"}, {"name": "ietf-yang-metadata"}]
LIB = libtext(MODS, "set")

GOOD = {"a:c": {"t": 1, "st": 2, "l": [{"k": "x"}], "r": "x", "id": "i1",
                "b:x": 3}}


def _c(**kw):
    return {"a:c": dict(GOOD["a:c"], **kw)}


# instance files: name -> text or bytes or None (missing), "dir"
INSTANCES = {
    "good": json.dumps(GOOD),
    "config": json.dumps({"a:c": {"t": 1}}),
    "state": json.dumps({"a:c": {"st": 1}}),
    "must": json.dumps(_c(t=9)),
    "range": json.dumps(_c(t=10)),
    "type": json.dumps(_c(t="x")),
    "union": json.dumps(_c(u="x")),
    "member": json.dumps(_c(zz=1)),
    "module": json.dumps({"z:c": {}}),
    "ref": json.dumps(_c(r="y")),
    "dup": json.dumps(_c(l=[{"k": "x"}, {"k": "x"}])),
    "nokey": json.dumps(_c(l=[{"n": 1}])),
    "list": json.dumps(_c(l={"k": "x"})),
    "ident": json.dumps(_c(id="z:zz")),
    "ann": json.dumps(_c(**{"@t": {"a:note": 3}})),
    "annval": json.dumps(_c(**{"@t": {"a:note": 30}})),
    "anntype": json.dumps(_c(**{"@t": {"a:note": "x"}})),
    "annundef": json.dumps(_c(**{"@t": {"a:zz": 1}})),
    "anntgt": json.dumps(_c(**{"@u": {"a:note": 1}})),
    "array": "[]", "number": "17", "null": "null", "string": '"a:c"',
    "object": "{}", "empty": "", "nojson": "{\"a:c\": ",
    "nan": '{"a:c": {"t": NaN}}',
    "nonutf8": b"{\"a:c\": \"\xff\xfe\"}",
    "missing": None, "directory": "dir",
    "rpc": json.dumps({"a:input": {"p": 1}}),
    "rpcbad": json.dumps({"a:input": {"p": 11}}),
    "rpcnone": json.dumps({"a:input": {}}),
    "rpcout": json.dumps({"a:output": {"q": "z"}}),
    "event": json.dumps({"a:what": 1}),
}
UNREADABLE = ("empty", "nojson", "nonutf8", "missing", "directory")


def _mods(**texts):
    """Library kind: names -> text; entries as by default."""
    return texts


# data models that can't be built: name -> (library text, module texts)
def broken():
    base = {"a": A, "b": B, "ietf-yang-metadata": MD}

    def lib(mods, **texts):
        return libtext(mods), dict(base, **texts)
    body = {
        "syntax": "module b { leaf }", "brace": B + "}",
        "unfinished": B.rstrip()[:-1],
        "name": B.replace("module b", "module q"),
        "prefix": module("b", "leaf x { type z:t; }"),
        "grouping": module("b", "uses nothing;"),
        "typedef": module("b", "leaf x { type nothing; }"),
        "leafref": module("b", "leaf x { type leafref { path '../y'; } }"),
        "xpath": module("b", "leaf x { must '1 +'; type string; }"),
        "default": module("b", "leaf x { type uint8; default x; }"),
        "pattern": module("b", "leaf x { type string { pattern '['; } }"),
        "range": module("b", "leaf x { type uint8 { range 'x'; } }"),
        "notype": module("b", "leaf x;"),
        "iffeature": module("b", "leaf x { if-feature '('; type string; }"),
    }
    res = {k: lib(MODS, b=v) for k, v in body.items()}
    res["missing-module"] = (libtext(MODS + [{"name": "zz"}]), base)
    res["import"] = lib(MODS, b=module("b", "", imports=[("zz", "z")]))
    res["cycle"] = lib(MODS, a=A.replace("prefix a;",
                                         "prefix a; import b { prefix b; }"))
    res["multiple"] = (libtext(MODS + [{"name": "a",
                                        "revision": "2020-01-01"}]),
                       dict(base, **{"a@2020-01-01": module(
                           "a", "", rev="2020-01-01")}))
    res["feature"] = (libtext([{"name": "f", "features": ["g"]}]),
                      {"f": module("f", "feature f; feature g "
                                   "{ if-feature f; }")})
    res["empty-object"] = ("{}", base)
    res["array"] = ("[]", base)
    res["number"] = ("1", base)
    res["noset"] = (json.dumps({"ietf-yang-library:modules-state": {}}), base)
    res["badentry"] = (json.dumps({"ietf-yang-library:modules-state": {
        "module-set-id": "", "module": [{"name": "a"}]}}), base)
    return res


BROKEN = broken()
LIBFILES = {"empty": "", "nojson": "{", "nonutf8": b"\"\xff\"",
            "missing": None, "directory": "dir"}
PICKLES = ["missing", "directory", "empty", "text", "json", "list", "class",
           "noname"]


class Out(io.StringIO):
    def close(self):
        pass


def call(main, argv, env=None, cwd=None):
    """(status, stdout, stderr) of an entry point called in this process."""
    out, err = Out(), Out()
    old = sys.argv, os.getcwd(), dict(os.environ)
    try:
        sys.argv = [argv[0]] + argv[1:]
        os.environ.pop("YANG_MODPATH", None)
        os.environ.update(env or {})
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                st = main()
            except SystemExit as e:
                st = e.code
            except BaseException as e:
                st = f"exception {type(e).__name__}: {str(e)[:100]}"
    finally:
        sys.argv = old[0]
        os.chdir(old[1])
        os.environ.clear()
        os.environ.update(old[2])
    return st, out.getvalue(), err.getvalue()


def process(argv, env=None, cwd=None):
    """The same as a process of its own."""
    e = {k: v for k, v in os.environ.items() if k != "YANG_MODPATH"}
    e.update(env or {}, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-m", "yangson" if argv[0] ==
                        "yangson" else "yangson.convert8525"] + argv[1:],
                       env=e, cwd=cwd, capture_output=True, text=True,
                       timeout=120)
    st = p.returncode
    if "Traceback" in p.stderr:
        st = "traceback " + p.stderr[-200:]
    return st, p.stdout, p.stderr


class Place:
    """A directory with all files."""

    def __init__(self):
        d = self.dir = models.moddir({})
        self.mods = models.moddir({"a": A, "b": B, "ietf-yang-metadata": MD})
        self.part1 = models.moddir({"a": A})
        self.part2 = models.moddir({"b": B, "ietf-yang-metadata": MD})
        self.empty = models.moddir({})
        for k, v in INSTANCES.items():
            self.put("i-" + k, v)
        for k, v in LIBFILES.items():
            self.put("l-" + k, v)
        self.put("l-good", LIB)
        for k in ("a", "b"):       # modules in the current directory, too
            self.put(k + ".yang", {"a": A, "b": B}[k])
        self.put("ietf-yang-metadata.yang", MD)
        self.dm = DataModel(LIB, (self.mods,))
        good = pickle.dumps(self.dm, pickle.HIGHEST_PROTOCOL)
        self.put("p-good", good)
        self.put("p-directory", "dir")
        self.put("p-empty", b"")
        self.put("p-text", "hello\n")
        self.put("p-json", LIB)
        self.put("p-list", pickle.dumps([1, 2]))
        self.put("p-class", pickle.dumps(DataModel))
        self.put("p-noname", b"cyangson.datamodel\nNoModel\n.")
        self.size = len(good)
        self.cuts = {}

    def cut(self, n):
        with open(self.path("p-good"), "rb") as f:
            data = f.read()
        name = f"p-cut{n}"
        self.put(name, data[:n])
        return name

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, v):
        if v is None:
            return
        if v == "dir":
            os.mkdir(self.path(name))
            return
        with open(self.path(name), "wb") as f:
            f.write(v if isinstance(v, bytes) else v.encode())


_place = None


def place():
    global _place
    if _place is None or not os.path.isdir(_place.dir):
        _place = Place()
    return _place


def scopes(x):
    return ValidationScope[x] if x else ValidationScope.all


def ctypes(x):
    return ContentType[x] if x else ContentType.all


def expected(pl, c):
    """(status, stdout) by means of the library."""
    dm = pl.dm
    op = c.get("op")
    if op == "-i":
        return 0, dm.module_set_id() + "\n"
    if op == "-t":
        return 0, dm.ascii_tree(bool(c.get("n"))) + "\n"
    if op == "-d":
        return 0, dm.schema_digest() + "\n"
    if op == "-D":
        return (1 if c.get("out") in ("nodir/x", "l-directory") else 0), ""
    if op != "-v":
        return 0, ""
    if c["inst"] in UNREADABLE:
        return 1, ""
    try:
        i = dm.from_raw(json.loads(INSTANCES[c["inst"]]), c.get("sub"))
        i.validate(scopes(c.get("scope")), ctypes(c.get("ctype")))
    except YangsonException:
        return 3, ""
    return 0, ""


# what each instance is, apart from the library: status with default options
STATUS = {k: 0 if k in ("good", "ann") else
          1 if k in UNREADABLE else 3 for k in INSTANCES}
LONG = {"-i": "--id", "-t": "--tree", "-d": "--digest", "-D": "--dump",
        "-v": "--validate", "-n": "--no-types", "-s": "--scope",
        "-c": "--ctype", "-S": "--subschema", "-p": "--path",
        "-P": "--pickled"}


def arguments(pl, c):
    """(argv, environment)."""
    env = {}
    av = []
    how = c.get("path", "p")
    infile = "l-good"
    if how == "pickled":
        av += ["-P"]
        infile = c.get("pickle", "p-good")
    else:
        infile = c.get("lib", "l-good")
    if how == "p":
        av += ["-p", pl.mods]
    elif how == "p2":
        av += ["-p", f"{pl.empty}:{pl.part1}:{pl.part2}"]
    elif how == "env":
        env["YANG_MODPATH"] = pl.mods
    elif how == "env2":
        env["YANG_MODPATH"] = f"{pl.part2}:nowhere:{pl.part1}"
    elif how == "p-over-env":
        av += ["-p", pl.mods]
        env["YANG_MODPATH"] = pl.empty
    elif how == "wrong":
        av += ["-p", f"{pl.empty}:nowhere"]
    elif how == "wrong-over-env":
        av += ["-p", pl.part1]
        env["YANG_MODPATH"] = pl.mods
    elif how == "wrong-env":
        env["YANG_MODPATH"] = pl.empty
    op = c.get("op")
    if op == "-D":
        av += [op, c.get("out", "dumped")]
    elif op == "-v":
        av += [op, "i-" + c["inst"]]
    elif op:
        av.append(op)
    if c.get("n"):
        av.append("-n")
    for o, k in (("-s", "scope"), ("-c", "ctype"), ("-S", "sub")):
        if c.get(k) is not None:
            av += [o, c[k]]
    av.insert(0 if c.get("first") else len(av), infile)
    if c.get("long"):
        av = [LONG.get(x, x) for x in av]
    return ["yangson"] + av, env


def trial(c):
    """Message or None."""
    pl = place()
    if "cut" in c:
        c = dict(c, pickle=pl.cut(c["cut"]))
    argv, env = arguments(pl, c)
    if "want" in c:
        want, wout = c["want"], ""
    else:
        want, wout = expected(pl, c)
    if os.path.exists(pl.path("dumped")):
        os.unlink(pl.path("dumped"))
    how = process if c.get("process") else lambda *a: call(cli.main, *a)
    st, out, err = how(argv, env, pl.dir)
    st = 0 if st is None else st
    if "cut" in c:
        os.unlink(pl.path(c["pickle"]))
    shown = " ".join(argv).replace(pl.mods, "MODS")
    if st != want:
        return f"{shown}: status {st} instead of {want} ({err[:150]})"
    if out != wout:
        return f"{shown}: prints {out[:100]!r} instead of {wout[:100]!r}"
    if (st == 0) != (err == ""):
        return f"{shown}: status {st} with error output {err[:100]!r}"
    if c.get("op") == "-D" and st == 0:
        with open(pl.path("dumped"), "rb") as f:
            dm = pickle.load(f)
        os.unlink(pl.path("dumped"))
        if dm.schema_digest() != pl.dm.schema_digest() or \
                dm.ascii_tree() != pl.dm.ascii_tree():
            return f"{shown}: the dumped data model differs"
    return None


def run_trial(rec, c):
    bad = trial(c)
    rec.state()
    rec.step()
    if bad:
        rec.fail(c, bad)
    else:
        rec.agreed += 1


PATHS = ["p", "p2", "env", "env2", "p-over-env", "cwd", "pickled"]
SCOPES = [None, "syntax", "semantics", "all"]
CTYPES = [None, "config", "nonconfig", "all"]
SUBS = [None, "a:op", "a:ev", "", "op", "a:zz", "z:op", "a:c", ":op", "a:",
        "a:op:x"]


def validate_group(g, rec):
    for inst in g["insts"]:
        if "sub" not in g and inst in STATUS:
            got = expected(place(), {"op": "-v", "inst": inst})[0]
            if got != STATUS[inst]:
                rec.fail({"op": "-v", "inst": inst, "want": STATUS[inst]},
                         f"instance {inst}: the library gives status {got} "
                         f"instead of {STATUS[inst]}")
        for s, c in itertools.product(SCOPES, CTYPES):
            case = {"op": "-v", "inst": inst, "scope": s, "ctype": c,
                    "path": g["path"], "sub": g["sub"], "long": g["long"],
                    "first": g["long"]}
            run_trial(rec, case)
    rec.sample(case)


def print_group(g, rec):
    for op, n, s, c, sub in itertools.product(
            [None, "-i", "-t", "-d", "-D"], (0, 1), SCOPES, CTYPES,
            (None, "a:op", "zz")):
        run_trial(rec, {"op": op, "n": n, "scope": s, "ctype": c, "sub": sub,
                        "path": g["path"], "long": g["long"]})
    for out in ("nodir/x", "l-directory"):
        run_trial(rec, {"op": "-D", "out": out, "path": g["path"]})


OPS = [None, "-i", "-t", "-d", "-D", "-v"]


def input_group(g, rec):
    pl = place()
    for op in OPS:
        base = {"op": op, "inst": "good"}
        for lf in LIBFILES:
            run_trial(rec, dict(base, lib="l-" + lf, want=1))
        for how in ("wrong", "wrong-over-env", "wrong-env"):
            run_trial(rec, dict(base, path=how, want=2))
        for pk in PICKLES:
            run_trial(rec, dict(base, path="pickled", pickle="p-" + pk,
                                want=1))
        for lf in LIBFILES:    # unreadable library and instance
            run_trial(rec, {"op": "-v", "inst": "must", "lib": "l-" + lf,
                            "want": 1})
    for i in range(0, g["cuts"]):
        run_trial(rec, {"op": "-i", "path": "pickled", "want": 1,
                        "cut": pl.size * i // g["cuts"]})
    for args in (["-i", "-t"], ["-t", "-d"], ["-D", "x", "-v", "i-good"],
                 ["-P", "-p", "x"], ["-s", "zz"], ["-c", "zz"], ["-v"], ["-Q"],
                 ["extra"]):
        st, out, err = call(cli.main, ["yangson", "l-good"] + args, {},
                            pl.dir)
        rec.state()
        rec.step()
        if st != 2 or out or not err:
            rec.fail({"usage": args}, f"yangson {args}: status {st}, prints "
                     f"{out[:60]!r}, {err[:60]!r}")
        else:
            rec.agreed += 1


def broken_trial(c):
    libt, texts = BROKEN[c["broken"]]
    pl = place()
    d = models.moddir(texts)
    with open(os.path.join(d, "lib"), "w") as f:
        f.write(libt)
    av = [c["op"]] if c["op"] else []
    if c["op"] in ("-D", "-v"):
        av.append(pl.path("i-good") if c["op"] == "-v" else
                  os.path.join(d, "dump"))
    st, out, err = call(cli.main, ["yangson", "-p", d] + av + [
        os.path.join(d, "lib")], {}, d)
    wrote = os.path.exists(os.path.join(d, "dump"))
    shutil.rmtree(d)
    if st != 2 or out or not err or wrote:
        return (f"library {c['broken']}, {c['op']}: status {st} instead of 2, "
                f"prints {out[:60]!r}, {err[:60]!r}")
    return None


def broken_group(g, rec):
    for op in OPS:
        case = {"broken": g["name"], "op": op}
        rec.state()
        rec.step()
        bad = broken_trial(case)
        if bad:
            rec.fail(case, bad)
        else:
            rec.agreed += 1


def process_group(g, rec):
    """The entry point as a process behaves as the function call."""
    for c in g["cases"]:
        run_trial(rec, dict(c, process=True))


def process_cases():
    res = [{"op": op, "inst": "good", "path": p}
           for op in OPS for p in ("p", "pickled", "env")]
    res += [{"op": "-v", "inst": i} for i in INSTANCES]
    res += [{"op": "-v", "inst": "rpc", "sub": s} for s in SUBS]
    res += [{"op": "-i", "lib": "l-" + lf, "want": 1} for lf in LIBFILES]
    res += [{"op": "-i", "path": "pickled", "pickle": "p-" + pk, "want": 1}
            for pk in PICKLES]
    res += [{"op": "-D", "out": "nodir/x"}, {"op": "-t", "n": 1},
            {"op": "-i", "path": "wrong", "want": 2}]
    return res


# -- binary form ---------------------------------------------------------------

class Pickled(ops.World):
    def __init__(self, data):
        super().__init__()
        self.dm = pickle.loads(data)


def pickle_group(g, rec):
    pool = ops.pool()
    w = ops.World()
    data = pickle.dumps(w.dm, pickle.HIGHEST_PROTOCOL)
    base = {n: ops.outcome(f, w) for n, f in pool.items()}
    used = pickle.dumps(w.dm, g["protocol"])
    again = pickle.dumps(pickle.loads(data), g["protocol"])
    for what, d in (("fresh", data), ("used", used), ("again", again)):
        p = Pickled(d)
        for n, f in pool.items():
            got = ops.outcome(f, p)
            rec.state()
            rec.step()
            if got == base[n]:
                rec.agreed += 1
            else:
                rec.fail({"pickle": what, "op": n, "protocol": g["protocol"]},
                         f"data model pickled ({what}): {n} gives "
                         f"{got[:150]} instead of {base[n][:150]}")


def pickle_replay(case):
    pool = ops.pool()
    w = ops.World()
    data = pickle.dumps(w.dm, pickle.HIGHEST_PROTOCOL)
    want = ops.outcome(pool[case["op"]], w)
    if case["pickle"] == "used":
        for f in pool.values():
            ops.outcome(f, w)
        data = pickle.dumps(w.dm, case["protocol"])
    elif case["pickle"] == "again":
        data = pickle.dumps(pickle.loads(data), case["protocol"])
    got = ops.outcome(pool[case["op"]], Pickled(data))
    return None if got == want else f"{got[:200]} instead of {want[:200]}"


SEEDED = """
import json, pickle, sys
sys.path[:0] = sys.argv[1:3]
sys.dont_write_bytecode = True
from mc import worlds
with open(sys.argv[3], "rb") as f:
    dm = pickle.load(f)
json.dump(dict(worlds.observe(dm, False)), sys.stdout)
"""


def world_group(g, rec):
    """Binary form written and read by processes with several hash seeds."""
    texts, entries = worlds.worlds()[g["world"]]
    d = models.moddir(texts)
    lib = os.path.join(d, "lib.json")
    with open(lib, "w") as f:
        f.write(worlds.library(entries))
    dm = DataModel(worlds.library(entries), (d,))
    base = dict(worlds.observe(dm, False))
    for s1, s2 in g["seeds"]:
        case = {"world": g["world"], "seeds": [s1, s2]}
        st, out, err = process(["yangson", "-p", d, "-D",
                                os.path.join(d, "dump"), lib],
                               {"PYTHONHASHSEED": str(s1)}, d)
        rec.state()
        if st != 0:
            rec.fail(case, f"dump of {g['world']}: {st} {err[-200:]}")
            continue
        p = subprocess.run([sys.executable, "-c", SEEDED, core.REPO,
                            core.VERIF, os.path.join(d, "dump")],
                           env=dict(os.environ, PYTHONHASHSEED=str(s2)),
                           capture_output=True, text=True, timeout=300)
        if p.returncode:
            rec.fail(case, f"loading {g['world']}: {p.stderr[-200:]}")
            continue
        got = json.loads(p.stdout)
        rec.step(len(got))
        bad = [k for k in base if got.get(k) != base[k]]
        if bad or len(got) != len(base):
            rec.fail(case, f"{g['world']} loaded from binary form: {bad[:1]} "
                     f"differs: {str(got.get(bad[0]) if bad else '')[:100]}")
        else:
            rec.agreed += len(got)


# -- converter -------------------------------------------------------------------

YL = "ietf-yang-library:"


def ds(x):
    return "ietf-datastores:" + x


def mod8525(name, revision=None, features=(), submodules=(), deviations=(),
            location=None, only=False):
    e = {"name": name, "namespace": "urn:" + name}
    if revision is not None:
        e["revision"] = revision
    if location:
        e["location"] = location
    if submodules:
        e["submodule"] = [dict({"name": s}, **({"revision": r} if r else {}))
                          for s, r in submodules]
    if not only:
        if features:
            e["feature"] = list(features)
        if deviations:
            e["deviation"] = list(deviations)
    return e


def convert_cases():
    """RFC 8525 data: combinations of the parts."""
    main = [
        [mod8525("m")],
        [mod8525("m", "2020-01-01", ["f1", "f2"], [("s", "2019-01-01"),
                                                   ("q", None)])],
        [mod8525("m", None, ["f1"], (), ["d"]), mod8525("d", "2018-02-02")],
        [mod8525("m", "2020-01-01", (), (), ["d", "n"],
                 ["http://x.y/m", "http://x.y/m2"]), mod8525("d"),
         mod8525("n", "2017-01-01")],
    ]
    only = [
        [],
        [mod8525("t", "2016-01-01", only=True)],
        [mod8525("t", "2016-01-01", only=True),
         mod8525("t", "2017-01-01", (), [("ts", "2017-01-01")], only=True),
         mod8525("t0", "", only=True)],
    ]
    for m, o in itertools.product(main, only):
        for split in (0, 1):
            for n in (1, 2):
                sets = [{"name": "one", "module": m}]
                if o:
                    if split:
                        sets.append({"name": "two",
                                     "import-only-module": o})
                    else:
                        sets[0]["import-only-module"] = o
                elif split:
                    continue
                sets.append({"name": "rest", "module": [
                    mod8525("z"), mod8525("d", "2011-01-01")]})
                schema = [{"name": "sa", "module-set": [
                    s["name"] for s in sets[:-1]]}]
                dss = [{"name": ds("running"), "schema": "sa"}]
                if n == 2:
                    schema.append({"name": "sb", "module-set": ["rest"]})
                    dss.append({"name": ds("operational"), "schema": "sb"})
                yield {YL + "yang-library": {
                    "module-set": sets, "schema": schema, "datastore": dss,
                    "content-id": "id17"}}


def reference(raw, datastore, schema):
    """Reference conversion: status or normalized RFC 7895 data."""
    top = raw[YL + "yang-library"]
    if schema is None:
        for d in top.get("datastore", []):
            if d["name"] == ds(datastore):
                schema = d["schema"]
                break
        else:
            return 2
    ent = [s for s in top.get("schema", []) if s["name"] == schema]
    if not ent:
        return 2
    res = {}
    for msn in ent[0].get("module-set", []):
        ms, = [s for s in top["module-set"] if s["name"] == msn]
        for kind in ("module", "import-only-module"):
            for m in ms.get(kind, []):
                dev = set()
                for d in m.get("deviation", []):
                    r, = [x.get("revision", "") for x in ms["module"]
                          if x["name"] == d]
                    dev.add((d, r))
                res[m["name"], m.get("revision", "")] = (
                    m["namespace"],
                    "implement" if kind == "module" else "import",
                    frozenset(m.get("feature", [])),
                    frozenset((s["name"], s.get("revision", ""))
                              for s in m.get("submodule", [])),
                    frozenset(dev), (m.get("location") or [None])[0])
    return top["content-id"], res


def normal(lib):
    st = lib[YL + "modules-state"]
    res = {}
    for m in st["module"]:
        res[m["name"], m["revision"]] = (
            m["namespace"], m["conformance-type"],
            frozenset(m.get("feature", [])),
            frozenset((s["name"], s["revision"])
                      for s in m.get("submodule", [])),
            frozenset((s["name"], s["revision"])
                      for s in m.get("deviation", [])), m.get("schema"))
    if len(res) != len(st["module"]):
        raise ValueError("duplicate modules")
    return st["module-set-id"], res


IETF = os.path.join(core.REPO, "yang-modules", "ietf")
YL8525 = """
{
  "ietf-yang-library:modules-state": {
    "module-set-id": "",
    "module": [
      {
        "name": "ietf-yang-library",
        "revision": "2019-01-04",
        "namespace": "urn:ietf:params:xml:ns:yang:ietf-yang-library",
        "conformance-type": "implement"
      },
      {
        "name": "ietf-inet-types",
        "revision": "2013-07-15",
        "namespace": "urn:ietf:params:xml:ns:yang:ietf-inet-types",
        "conformance-type": "import"
      },
      {
        "name": "ietf-datastores",
        "revision": "2018-02-14",
        "namespace": "urn:ietf:params:xml:ns:yang:ietf-datastores",
        "conformance-type": "implement"
      },
      {
        "name": "ietf-yang-types",
        "revision": "2013-07-15",
        "namespace": "urn:ietf:params:xml:ns:yang:ietf-yang-types",
        "conformance-type": "import"
      }
    ]
  }
}
"""
_dm8525 = None


def valid8525(raw):
    """Is it valid RFC 8525 data, as far as the library can tell?"""
    global _dm8525
    if _dm8525 is None:
        _dm8525 = DataModel(YL8525, [IETF])
    try:
        _dm8525.from_raw(raw).validate(ctype=ContentType.nonconfig)
    except YangsonException:
        return False
    return YL + "yang-library" in raw


def convert_trial(c):
    d = models.moddir({})
    try:
        return _convert_trial(c, d)
    finally:
        shutil.rmtree(d)


def _convert_trial(c, d):
    inp = os.path.join(d, "in")
    raw = c.get("raw")
    if "file" in c:
        v = LIBFILES[c["file"]]
        if v == "dir":
            os.mkdir(inp)
        elif v is not None:
            with open(inp, "wb") as f:
                f.write(v if isinstance(v, bytes) else v.encode())
    else:
        with open(inp, "w") as f:
            json.dump(raw, f)
    av = ["convert8525"]
    env = {}
    path = c.get("path", "p")
    if path == "p":
        av += ["-p", IETF]
    elif path == "p2":
        av += ["--path", d + ":" + IETF]
    elif path == "env":
        env["YANG_MODPATH"] = IETF
    elif path == "wrong":
        av += ["-p", d]
    if c.get("ds"):
        av += ["-d", c["ds"]]
    if c.get("schema"):
        av += ["-s", c["schema"]]
    outf = None
    if c.get("out"):
        outf = {"file": os.path.join(d, "out"),
                "nodir": os.path.join(d, "no", "out"), "dir": d}[c["out"]]
        av += ["-o", outf]
    av.append(inp)
    if "file" in c or path == "wrong":
        want = 1
    elif not valid8525(raw):
        want = 1
    else:
        want = reference(raw, c.get("ds") or "running", c.get("schema"))
        if want != 2 and c.get("out") in ("nodir", "dir"):
            want = 3
    how = process if c.get("process") else lambda *a: call(
        convert8525.main, *a)
    st, out, err = how(av, env, d)
    shown = f"convert8525 {' '.join(av[1:-1])}"
    if isinstance(want, int):
        if st != want:
            return f"{shown}: status {st} instead of {want} ({err[:100]})"
        if out or not err:
            return f"{shown}: status {st}, prints {out[:60]!r} {err[:60]!r}"
        return None
    if st != 0 or err:
        return f"{shown}: status {st} ({err[:150]})"
    if c.get("out"):
        if out:
            return f"{shown}: prints {out[:60]!r}"
        with open(outf) as f:
            out = f.read()
    try:
        got = normal(json.loads(out))
    except Exception as e:
        return f"{shown}: {type(e).__name__} {e} in {out[:100]!r}"
    if got != want:
        return f"{shown}: {got} instead of {want}"
    return None


def faulty(raw):
    """All single faults."""
    def places(x, path):
        yield path
        if isinstance(x, dict):
            for k in x:
                yield from places(x[k], path + [k])
        elif isinstance(x, list):
            for i in range(len(x)):
                yield from places(x[i], path + [i])
    for p in list(places(raw, [])):
        for v in ("del", None, "", "zz", 7, [], {}, ["m"], [None], True,
                  "dup"):
            new = json.loads(json.dumps(raw))
            if not p:
                if v in ("del", "dup"):
                    continue
                new = v
            else:
                x = new
                for k in p[:-1]:
                    x = x[k]
                if v == "del":
                    del x[p[-1]]
                elif v == "dup":
                    if not isinstance(x, list):
                        continue
                    x.append(json.loads(json.dumps(x[p[-1]])))
                else:
                    x[p[-1]] = v
            yield new


def convert_group(g, rec):
    cases = list(convert_cases())
    raw = cases[g["case"]]
    if g["what"] == "faults":
        todo = [{"raw": r, "ds": o, "schema": s} for r in
                itertools.islice(faulty(raw), g["part"], None, 8)
                for o, s in ((None, None), (None, "sb"))]
    else:
        todo = [{"raw": raw, "ds": o, "schema": s, "out": f, "path": p}
                for o, s in ((None, None), ("running", None),
                             ("operational", None), ("candidate", None),
                             (ds("running"), None), (None, "sa"),
                             (None, "sb"), (None, "zz"))
                for f in (None, "file", "nodir", "dir")
                for p in ("p", "env", "p2", "wrong")]
    for c in todo:
        rec.state()
        rec.step()
        bad = convert_trial(c)
        if bad:
            rec.fail(c, bad)
        else:
            rec.agreed += 1


def convert_files(g, rec):
    raw = next(iter(convert_cases()))
    todo = [{"file": f, "out": o} for f in LIBFILES for o in (None, "file")]
    todo += [dict(c, process=True) for c in todo]
    todo += [{"raw": raw, "out": o, "schema": s, "process": True,
              "path": p} for o in (None, "file", "dir")
             for s in (None, "sb") for p in ("p", "env", "wrong")]
    for c in todo:
        rec.state()
        rec.step()
        bad = convert_trial(c)
        if bad:
            rec.fail(c, bad)
        else:
            rec.agreed += 1


def same_model(world):
    """Message or None: the model built from the converted library."""
    texts, entries = worlds.worlds()[world]
    mods, only = [], []
    for e in entries:
        imp = e.get("conformance", "implement") == "import"
        m = mod8525(e["name"], e.get("revision", "") if imp
                    else e.get("revision") or None, e.get("features", ()),
                    [(s, None) if isinstance(s, str) else
                     (s["name"], s.get("revision"))
                     for s in e.get("submodules", ())], (), None, imp)
        m["namespace"] = e.get("namespace", "urn:" + e["name"])
        (only if imp else mods).append(m)
    raw = {YL + "yang-library": {
        "module-set": [dict({"name": "x", "module": mods}, **(
            {"import-only-module": only} if only else {}))],
        "schema": [{"name": "s", "module-set": ["x"]}],
        "datastore": [{"name": ds("running"), "schema": "s"}],
        "content-id": "1"}}
    d = models.moddir(texts)
    with open(os.path.join(d, "in"), "w") as f:
        json.dump(raw, f)
    st, out, err = call(convert8525.main, [
        "convert8525", "-p", IETF, os.path.join(d, "in")], {}, d)
    if st != 0:
        return f"converter gives {st}: {err[:200]}"
    base = dict(worlds.observe(DataModel(worlds.library(entries), [d]),
                               False))
    got = dict(worlds.observe(DataModel(out, [d]), False))
    base.pop("description", None)
    got.pop("description", None)
    bad = [k for k in base if got.get(k) != base[k] and
           "Data model ID" not in base[k]]
    if bad:
        return (f"{bad[0]}: {got.get(bad[0], '')[:100]} instead of "
                f"{base[bad[0]][:100]}")
    return None


def model_group(g, rec):
    rec.state()
    rec.step()
    bad = same_model(g["world"])
    if bad:
        rec.fail({"model": g["world"]}, f"world {g['world']}: {bad}")
    else:
        rec.agreed += 1


# -- library generator -----------------------------------------------------------

BODIES = {
    "none": ("", False), "typedef": ("typedef t { type string; }", False),
    "grouping": ("grouping g { leaf x { type string; } }", False),
    "container": ("container %s;", True),
    "leaf": ("leaf %s { type string; }", True),
    "leaf-list": ("leaf-list %s { type string; }", True),
    "list": ("list %s { config false; }", True),
    "choice": ("choice ch { leaf %s { type string; } }", True),
    "anydata": ("anydata %s;", True), "anyxml": ("anyxml %s;", True),
    "uses": ("grouping g { leaf %s { type string; } } uses g;", True),
    "rpc": ("rpc %s;", True), "notification": ("notification %s;", True),
    "identity": ("identity %s;", True),
    "augment": ("augment '/base:top' { leaf %s { type string; } }", True),
    "deviation": ("deviation '/base:top' { deviate add { config false; } }",
                  True),
}
BASE = module("base", "container top;")


def generated(c):
    """Message or None."""
    m, s, frev, first = c["main"], c["sub"], c["rev"], c["order"]
    inc = imports = ""
    if s is not None:
        inc = "include ms" + (" { revision-date 2020-02-02; }" if
                              c["date"] else ";")
    feature = "feature fm;" if c["feature"] else ""
    texts = {"base": BASE}
    imp = [("base", "base")]
    body, real = BODIES[m]
    body = body.replace("%s", "nm")
    texts["m"] = module("m", feature + body if first else body + feature,
                        imports=imp, rev="2021-01-01" if frev else None,
                        head=inc)
    if s is not None:
        sb, sreal = BODIES[s]
        sb = sb.replace("%s", "ns").replace("grouping g", "grouping gs"
                                            ).replace("uses g", "uses gs"
                                                      ).replace(
            "typedef t", "typedef ts").replace("choice ch", "choice chs")
        real = real or sreal
        texts["ms"] = ("submodule ms { yang-version 1.1; belongs-to m "
                       "{ prefix m; } import base { prefix base; } revision "
                       "2020-02-02; " + ("feature fs; " if c["feature"] else
                                         "") + sb + "}")
    d = models.moddir(texts)
    try:
        st, out, err = call(mkylib_main, ["mkylib.py", d])
        if st not in (0, None):
            return f"status {st} {err[:200]}"
        lib = json.loads(out)
        ent = {e["name"]: e for e in
               lib[YL + "modules-state"]["module"]}
        fs = (["fm"] + (["fs"] if s is not None else []) if c["feature"]
              else [])
        want = {"name": "m", "revision": "2021-01-01" if frev else "",
                "namespace": "urn:m",
                "conformance-type": "implement" if real else "import"}
        if fs:
            want["feature"] = fs
        if s is not None:
            want["submodule"] = [{"name": "ms", "revision": "2020-02-02"}]
        if set(ent) != {"base", "m"} or ent["m"] != want:
            return f"{ent.get('m')} instead of {want}"
        wlib = {YL + "modules-state": {"module-set-id": "", "module": [
            {"name": "base", "revision": "", "namespace": "urn:base",
             "conformance-type": "implement"},
            dict(want, **{"conformance-type": "implement"})]}}
        t1 = DataModel(out, [d]).ascii_tree()
        t2 = DataModel(json.dumps(wlib), [d]).ascii_tree()
        if t1 != t2:
            return f"data model {t1!r} instead of {t2!r}"
    finally:
        shutil.rmtree(d)
    return None


def mkylib_main():
    runpy.run_path(os.path.join(core.REPO, "tools", "python", "mkylib.py"),
                   run_name="__main__")


def mkylib_group(g, rec):
    subs = [None] + [b for b in BODIES]
    for s in subs:
        if s == g["main"] == "deviation":
            continue
        for rev, feature, order, date in itertools.product(
                (0, 1), (0, 1), (0, 1), (0, 1)):
            if s is None and date or not feature and order:
                continue
            c = {"main": g["main"], "sub": s, "rev": rev, "feature": feature,
                 "order": order, "date": date}
            rec.state()
            rec.step()
            bad = generated(c)
            if bad:
                rec.fail({"mkylib": c}, f"mkylib {c}: {bad}")
            else:
                rec.agreed += 1


KINDS = {"validate": validate_group, "print": print_group,
         "input": input_group, "broken": broken_group,
         "process": process_group, "pickle": pickle_group,
         "world": world_group, "convert": convert_group,
         "files": convert_files, "model": model_group,
         "mkylib": mkylib_group}


def run_group(g, rec):
    KINDS[g["kind"]](g, rec)


def bounds(tier):
    d = tier == "thorough"
    return {"instances": list(INSTANCES), "subschemas": SUBS,
            "paths": PATHS, "libraries": list(LIBFILES) + list(BROKEN),
            "binary": PICKLES + [f"truncated at {256 if d else 64} places"],
            "converter": "all combinations of library parts and options; "
            "all single faults of " + ("every library" if d else
                                       "two libraries"),
            "generator": "all pairs of contents of module and submodule"}


def groups(tier):
    d = tier == "thorough"
    insts = list(INSTANCES)
    res = []
    for path in (PATHS if d else ["p", "pickled"]):
        for sub in SUBS:
            for lng in ((False, True) if d else (sub == "a:op",)):
                for k in range(0, len(insts), 12):
                    res.append({"kind": "validate", "path": path, "sub": sub,
                                "long": lng, "insts": insts[k:k + 12]})
    res += [{"kind": "print", "path": p, "long": x} for p in PATHS
            for x in (False, True)]
    res.append({"kind": "input", "cuts": 256 if d else 64})
    res += [{"kind": "broken", "name": n} for n in BROKEN]
    pc = process_cases()
    res += [{"kind": "process", "cases": pc[i::16]} for i in range(16)]
    res += [{"kind": "pickle", "protocol": p} for p in range(2, 6)]
    seeds = [(0, 1), (1, 0), (2, 3)] + (
        [(a, b) for a in range(6) for b in range(6)] if d else [])
    res += [{"kind": "world", "world": w, "seeds": seeds}
            for w in worlds.worlds()]
    n = len(list(convert_cases()))
    res += [{"kind": "convert", "what": "options", "case": i}
            for i in range(n)]
    res += [{"kind": "convert", "what": "faults", "case": i, "part": k}
            for i in (range(n) if d else (3, n - 1)) for k in range(8)]
    res.append({"kind": "files"})
    res += [{"kind": "model", "world": w} for w in worlds.worlds()
            if w not in ("deviation", "feature")]
    res += [{"kind": "mkylib", "main": b} for b in BODIES]
    return res


def replay(case):
    if "broken" in case:
        return broken_trial(case)
    if "protocol" in case:
        return pickle_replay(case)
    if "seeds" in case:
        rec = core.Rec()
        world_group({"world": case["world"], "seeds": [case["seeds"]]}, rec)
        return rec.fails[0][1] if rec.fails else None
    if "usage" in case:
        st, out, err = call(cli.main, ["yangson", "l-good"] + case["usage"],
                            {}, place().dir)
        return None if st == 2 and not out and err else f"status {st}"
    if "model" in case:
        return same_model(case["model"])
    if "mkylib" in case:
        return generated(case["mkylib"])
    if "raw" in case or "file" in case:
        return convert_trial(case)
    return trial(case)
