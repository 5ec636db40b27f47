"""Building data models from inline YANG text."""
import json
import os
import shutil

from mc.core import scratch
from yangson.datamodel import DataModel

_n = 0


def module(name, body, ns=None, prefix=None, imports=(), rev=None,
           version="1.1", head=""):
    """Text of a YANG module."""
    imp = "".join(f"  import {m} {{ prefix {p}; }}\n" for m, p in imports)
    r = f"  revision {rev};\n" if rev else ""
    return (f"module {name} {{\n  yang-version {version};\n"
            f"  namespace \"{ns or 'urn:' + name}\";\n"
            f"  prefix {prefix or name};\n{imp}{head}{r}{body}\n}}\n")


def libtext(mods, msid=""):
    """YANG library (RFC 7895) in JSON.

    mods: list of dicts: name, revision, conformance, features, deviations,
    submodules.
    """
    res = []
    for m in mods:
        e = {"name": m["name"], "revision": m.get("revision", ""),
             "namespace": m.get("namespace", "urn:" + m["name"]),
             "conformance-type": m.get("conformance", "implement")}
        if m.get("features"):
            e["feature"] = list(m["features"])
        if m.get("deviations"):
            e["deviation"] = [{"name": d, "revision": ""}
                              if isinstance(d, str) else d
                              for d in m["deviations"]]
        if m.get("submodules"):
            e["submodule"] = [{"name": d, "revision": ""}
                              if isinstance(d, str) else d
                              for d in m["submodules"]]
        res.append(e)
    return json.dumps({"ietf-yang-library:modules-state":
                       {"module-set-id": msid, "module": res}})


def moddir(texts):
    """Write modules (name -> text) to a fresh directory."""
    global _n
    _n += 1
    d = os.path.join(scratch(), f"m{os.getpid()}_{_n}")
    os.mkdir(d)
    for name, txt in texts.items():
        with open(os.path.join(d, name + ".yang"), "w", encoding="utf-8",
                  newline="") as f:
            f.write(txt)
    return d


def build(texts, lib=None, **kw):
    """Data model for modules given as name -> text."""
    d = moddir(texts)
    try:
        if lib is None:
            lib = [{"name": n} for n in texts]
        return DataModel(lib if isinstance(lib, str) else libtext(lib), (d,),
                         **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def outcome(f, *args, **kw):
    """('ok', value) or ('exc', class name, text)."""
    try:
        return ("ok", f(*args, **kw))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))
