"""Which shared state does an operation access?  (For C19.)

An operation is run alone under a tracer.  At each line of Python code the
stores that the line may perform (attributes, items, globals) are taken from
its syntax tree, and the object that is stored into is found by evaluating
the corresponding expression in the frame; calls of methods of built-in
containers are seen by a profile function.  A store counts if the object was
there before the operation started: only such objects can be accessed by
another thread, too.
"""
import ast
import linecache
import sys
import threading
import types

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort",
            "reverse", "add", "discard", "update", "setdefault", "popitem",
            "appendleft", "popleft", "extendleft", "rotate",
            "difference_update", "intersection_update",
            "symmetric_difference_update", "__setitem__", "__delitem__",
            "__setattr__", "__delattr__", "__iadd__", "__ior__", "set",
            "move_to_end", "__dict__"}
SKIP = (types.FunctionType, types.BuiltinFunctionType, property, staticmethod,
        classmethod, types.MethodType, type(threading.local()))
# a diagnostic counter whose exactness isn't claimed for threads
IGNORED = {"val_count"}


def reachable(roots):
    """id -> (object, name of the attribute or variable that leads to it)."""
    res = {}
    stack = [(r, n) for n, r in roots]
    for name in sorted(sys.modules):
        if name.split(".")[0] == "yangson":
            m = sys.modules[name]
            res[id(m)] = (m, name)
            res[id(vars(m))] = (vars(m), name)
            stack.extend((v, k) for k, v in vars(m).items()
                         if not k.startswith("__"))
    while stack:
        x, n = stack.pop()
        if x is None or isinstance(x, (bool, int, float, str, bytes)):
            continue
        if id(x) in res:
            continue
        if isinstance(x, types.ModuleType):
            continue
        if isinstance(x, types.FunctionType):
            if x.__module__ and x.__module__.split(".")[0] == "yangson":
                res[id(x)] = (x, n)
                for d in (x.__defaults__ or ()):
                    stack.append((d, n))
                for c in x.__closure__ or ():
                    try:
                        stack.append((c.cell_contents, n))
                    except ValueError:
                        pass
                stack.append((x.__dict__, n))
            continue
        if isinstance(x, (staticmethod, classmethod)):
            stack.append((x.__func__, n))
            continue
        if isinstance(x, property):
            stack.extend((f, n) for f in (x.fget, x.fset, x.fdel) if f)
            continue
        if isinstance(x, SKIP):
            continue
        if isinstance(x, type):
            if x.__module__.split(".")[0] != "yangson":
                continue
            res[id(x)] = (x, n)
            stack.extend((v, k) for k, v in vars(x).items()
                         if k not in ("__doc__", "__module__", "__mro__"))
            continue
        res[id(x)] = (x, n)
        if isinstance(x, dict):
            for k, v in x.items():
                stack.append((k, n))
                stack.append((v, n))
        elif isinstance(x, (list, tuple, set, frozenset)):
            stack.extend((v, n) for v in x)
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict):
            res[id(d)] = (d, n)
            stack.extend((v, k) for k, v in d.items())
        for c in type(x).__mro__:
            sl = c.__dict__.get("__slots__", ())
            for k in ((sl,) if isinstance(sl, str) else sl):
                if hasattr(x, k):
                    stack.append((getattr(x, k), k))
    return res


class Line:
    """Accesses of a line: stores [(code of the object expression or None,
    name)] and all names that it mentions."""
    __slots__ = ("stores", "names")

    def __init__(self):
        self.stores = []
        self.names = set()


def pure(x):
    return all(isinstance(y, (ast.Name, ast.Attribute, ast.Subscript,
                              ast.Constant, ast.Load, ast.UnaryOp, ast.USub))
               for y in ast.walk(x))


_files = {}


def lines(filename):
    """lineno -> Line of a source file."""
    if filename in _files:
        return _files[filename]
    res = {}
    src = "".join(linecache.getlines(filename))
    try:
        tree = ast.parse(src)
    except (SyntaxError, ValueError):
        tree = ast.Module([], [])
    glob = {}
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            gs = {n for s in ast.walk(f) if isinstance(s, ast.Global)
                  for n in s.names}
            if gs:
                for s in ast.walk(f):
                    glob.setdefault(id(s), set()).update(gs)

    def name(x):
        while isinstance(x, ast.Subscript):
            x = x.value
        return x.attr if isinstance(x, ast.Attribute) else (
            x.id if isinstance(x, ast.Name) else "?")
    for x in ast.walk(tree):
        if not hasattr(x, "lineno"):
            continue
        store = isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del))
        # a statement of several lines is entered by one of them; all of
        # them get its stores
        ln = res.setdefault(x.lineno, Line())
        if isinstance(x, ast.Attribute):
            ln.names.add(x.attr)
            if store:
                ln.stores.append((_code(x.value), x.attr))
        elif isinstance(x, ast.Subscript):
            if store:
                ln.stores.append((_code(x.value), name(x.value)))
        elif isinstance(x, ast.Name):
            ln.names.add(x.id)
            if store and x.id in glob.get(id(x), ()):
                ln.stores.append((_code(ast.parse("globals()").body[0].value,
                                        True), x.id))
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            # x += y changes a container in place
            ln.stores.append((_code(ast.Name(x.target.id, ast.Load())),
                              x.target.id))
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ("setattr", "delattr"):
            ln.stores.append((_code(x.args[0]), getattr(
                x.args[1], "value", "?")))
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                and x.func.attr in ("__setattr__", "__delattr__") and x.args:
            ln.stores.append((_code(x.args[0]), getattr(
                x.args[-2] if len(x.args) > 1 else x.args[0], "value", "?")))
    _files[filename] = res
    return res


def _code(x, force=False):
    if not force and not pure(x):
        return None
    e = ast.Expression(ast.fix_missing_locations(ast.parse(
        ast.unparse(x), mode="eval")).body)
    return compile(ast.fix_missing_locations(e), "<access>", "eval")


class Monitor:
    """Stores of an operation into shared objects."""

    def __init__(self, shared, skip=()):
        self.shared = shared
        self.skip = skip
        self.writes = set()     # (type name, attribute or leading name)
        self.nlines = 0

    def run(self, fn):
        sys.setprofile(self._profile)
        sys.settrace(self._trace)
        try:
            return fn()
        finally:
            sys.settrace(None)
            sys.setprofile(None)

    def _profile(self, frame, event, arg):
        if event != "c_call":
            return
        n = getattr(arg, "__name__", "")
        if n not in MUTATORS:
            return
        s = self.shared.get(id(getattr(arg, "__self__", None)))
        if s is not None:
            self._write(type(s[0]).__name__, s[1], frame)

    def _write(self, cls, name, frame):
        if name not in IGNORED:
            self.writes.add((cls, name, frame.f_code.co_name))

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith("<") or "/mc/" in fn:
            return None
        table = lines(fn)
        get = table.get

        def local(frame, event, arg):
            if event != "line":
                return local
            self.nlines += 1
            ln = get(frame.f_lineno)
            if ln is None or not ln.stores:
                return local
            for code, name in ln.stores:
                if code is None:
                    self._write("?", name, frame)
                    continue
                try:
                    x = eval(code, frame.f_globals, frame.f_locals)
                except Exception:
                    continue
                if id(x) in self.shared and not isinstance(x, SKIP) and \
                        not isinstance(x, (int, str, tuple, frozenset)):
                    n = name
                    if isinstance(x, (dict, list, set)):
                        n = self.shared[id(x)][1]
                        if x is frame.f_globals:
                            n = name
                    self._write(type(x).__name__, n, frame)
            return local
        return local
