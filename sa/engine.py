"""Flow-, context- and path-partitioned abstract interpretation of Python functions.

Values are Herbrand terms (value numbers) over the inputs, constants and abstract heap objects.
Control flow is partitioned by the atomic conditions tested on the way; loops are analysed once
for a generic iteration (all loop-carried state is havocked to a fixpoint and accumulations are
turned into closed forms), so that a result covers any number of iterations.  Repo functions are
analysed in the context of their call sites, everything else is an opaque call that is recorded as
an event.  No code of the analysed program is executed and no solver is involved."""
import ast
import os
import string
from collections import namedtuple

import regex
from liveness import live_after
from program import AnchorError, Class, Func  # noqa

Ev = namedtuple("Ev", "kind a b c loc ret fargs")


def ev(kind, a=None, b=None, c=None, loc=None, ret=None, fargs=None):
    return Ev(kind, a, b, c, loc, ret, fargs)


# fields and parameters that hold dictionaries (without the value None)
# sets of file names
SETS = {"cache_files", "touched_files"}
# parameters of functions of the library, with their defaults: (number of positional ones, names, defaults)
SIGNATURES = {
    "builtins.open": (2, ("file", "mode", "buffering", "encoding", "errors", "newline"), {"mode": "r", "buffering": -1, "encoding": None, "errors": None, "newline": None}),
    "io.open": (2, ("file", "mode", "buffering", "encoding", "errors", "newline"), {"mode": "r", "buffering": -1, "encoding": None, "errors": None, "newline": None}),
    "tempfile.NamedTemporaryFile": (1, ("mode", "buffering", "encoding", "newline", "suffix", "prefix", "dir", "delete"),
                                    {"mode": "w+b", "buffering": -1, "encoding": None, "newline": None, "suffix": None, "prefix": None, "dir": None, "delete": True}),
}
DICTS = {"_styles", "styles", "temp_cache", "query_cache", "used_query_cache"}


class Limit(Exception):
    """The analysis gave up (too many partitions); the obligation stays undecided."""


def C(v):
    return ("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(v):
    return v[0] == "c"


def cval(v):
    return v[2]


class Obj:
    __slots__ = ("kind", "cls", "attrs", "items", "base", "site")

    def __init__(self, kind, cls=None, attrs=None, items=(), base=(), site=None):
        self.kind = kind  # inst | list | dict | set
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items
        self.base = base
        self.site = site

    def copy(self, **kw):
        o = Obj(self.kind, self.cls, dict(self.attrs), self.items, self.base, self.site)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return (
            self.kind == o.kind and self.cls is o.cls and self.attrs == o.attrs
            and self.items == o.items and self.base == o.base
        )


class State:
    __slots__ = ("frames", "heap", "store", "conds", "events", "exc", "nref", "calls", "loops", "hooks")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.store = {}
        self.conds = {}
        self.events = ()
        self.exc = None
        self.nref = 0
        self.calls = {}
        self.loops = ()
        self.hooks = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.store = dict(self.store)
        s.conds = dict(self.conds)
        s.events = self.events
        s.exc = self.exc
        s.nref = self.nref
        s.calls = dict(self.calls)
        s.loops = self.loops
        s.hooks = self.hooks
        return s

    def emit(self, e):
        self.events = self.events + (e,)

    def new(self, obj):
        self.nref += 1
        self.heap[self.nref] = obj
        return ("ref", self.nref)


class Path:
    def __init__(self, outcome, value, state):
        self.outcome = outcome  # ret | raise
        self.value = value
        self.state = state

    @property
    def conds(self):
        return self.state.conds

    @property
    def events(self):
        return self.state.events


MUTATORS = {
    "append", "insert", "extend", "remove", "pop", "clear", "sort", "reverse", "add", "discard",
    "update", "setdefault", "popitem", "difference_update", "intersection_update", "write",
    "writelines", "flush", "move_to_end", "appendleft",
}
CONTAINER_METHODS = MUTATORS | {
    "get", "items", "keys", "values", "copy", "index", "count", "join", "split", "format", "encode",
    "decode", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "splitlines",
    "read", "close", "set", "match", "search", "union", "difference", "intersection", "issubset",
}
PURE_EXT = {
    "builtins." + n for n in
    "len str int float bool repr abs round min max sum any all isinstance issubclass type hash ord chr "
    "sorted reversed enumerate zip range tuple frozenset divmod pow callable hasattr format id map filter".split()
} | {
    "os.path.join", "os.path.abspath", "os.path.basename", "os.path.dirname", "os.path.realpath",
    "os.path.relpath", "os.path.normpath", "os.path.splitext", "re.compile", "math.sin",
    "math.cos", "math.atan2", "math.sqrt", "math.radians", "math.hypot", "math.floor", "math.ceil",
    "itertools.chain", "copy.copy", "copy.deepcopy", "base64.b64encode", "base64.encodebytes", "base64.standard_b64encode",
}
NOT_NONE = {
    "builtins." + n for n in
    "len str int float bool repr abs round sorted reversed enumerate zip range tuple frozenset divmod ord chr id format".split()
} | {n for n in PURE_EXT if n.startswith(("math.", "os.path."))}
BUILTINS = set(dir(__import__("builtins")))
EXC_PARENTS = {
    "FileNotFoundError": "OSError", "PermissionError": "OSError", "IsADirectoryError": "OSError",
    "OSError": "Exception", "IOError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
    "UnicodeError": "ValueError", "TypeError": "Exception", "AttributeError": "Exception",
    "AssertionError": "Exception", "RuntimeError": "Exception", "StopIteration": "Exception",
    "ImportError": "Exception", "NotImplementedError": "RuntimeError", "Exception": "BaseException",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "json.JSONDecodeError": "ValueError", "JSONDecodeError": "ValueError",
    "BrokenPipeError": "OSError", "EOFError": "Exception",
    "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
}


def said(events, call):
    """The position of the last event of a call."""
    for i in range(len(events) - 1, -1, -1):
        if events[i].kind == "call" and events[i].a == call[1] and (events[i].ret is None or events[i].ret == call):
            return i
    return None


def exc_is(name, handler):
    while name is not None:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name)
    return False


def contains(term, sub):
    if term == sub:
        return True
    if isinstance(term, tuple):
        return any(contains(x, sub) for x in term)
    return False


def find_terms(term, pred, out=None):
    if out is None:
        out = []
    if isinstance(term, tuple):
        if term and isinstance(term[0], str) and pred(term):
            out.append(term)
        for x in term:
            if isinstance(x, tuple):
                find_terms(x, pred, out)
    return out


def subst(term, m):
    if isinstance(term, tuple):
        if term in m:
            return m[term]
        if type(term) is Ev:
            return Ev(*(subst(x, m) for x in term))
        return tuple(subst(x, m) for x in term)
    return term


def subst_ev(e, m):
    return Ev(*(subst(x, m) if isinstance(x, tuple) else x for x in e))


def subst_state(s, m):
    s.frames = {k: {n: subst(v, m) for n, v in d.items()} for k, d in s.frames.items()}
    s.heap = {k: o.copy(attrs={n: subst(v, m) for n, v in o.attrs.items()}, items=subst(o.items, m)) for k, o in s.heap.items()}
    s.store = {k: subst(v, m) for k, v in s.store.items()}
    s.conds = {subst(k, m): v for k, v in s.conds.items()}
    s.events = tuple(subst_ev(e, m) for e in s.events)
    return s


class Engine:
    def __init__(self, prog, inline=None, raises=None, types=None, record_reads=(), max_paths=3000,
                 trace=(), max_depth=30, opaque=(), pure=(), peel=None, carry=False):
        self.carry = carry  # give loop-carried values without a closed form a name of their own
        self.carry_no = ()
        self.prog = prog
        self.peel = peel  # iterations of a loop that are kept apart (None: one generic iteration)
        self.peeled = set()
        self.inline_pred = inline
        self.raises_pred = raises
        self.types = dict(types or {})
        self.record_reads = set(record_reads)
        self.max_paths = max_paths
        self.trace = set(trace)
        self.max_depth = max_depth
        self.pure = set(pure)
        self.opaque = set(opaque) | self.pure
        self.fparent = {}
        self.ffunc = {}
        self.loop_nodes = []
        self.nframes = 0
        self.stack = []
        self.analysed = set()
        self.steps = 0
        self.unknowns = []
        self.loop_id = 0

    # ------------------------------------------------------------ entry
    def run(self, func, args=None, self_val=None, kwargs=None, state=None, star=True):
        """Analyse a function for arbitrary arguments (parameters that are not given are symbols)."""
        st = state or State()
        a = func.node.args
        bound = {}
        given = dict(args or {})
        params = [x.arg for x in a.posonlyargs + a.args]
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            name = x.arg
            if i == 0 and func.cls is not None and not func.is_static and x in a.posonlyargs + a.args:
                if func.is_classmethod:
                    bound[name] = given.get(name, self_val or ("cls", func.cls.qual))
                else:
                    v = given.get(name) or self_val or ("p", "self")
                    bound[name] = v
                    if v[0] == "p":
                        self.types.setdefault(v, func.cls)
                continue
            bound[name] = given[name] if name in given else ("p", name)
            if bound[name][0] == "p":
                v = bound[name]
                t = self.prog.annotation_class(func.module, x.annotation)
                if t is None:
                    h = self.prog.NAME_HINTS.get(name)
                    t = self.prog.class_by_name.get(h) if h else None
                    if t is not None and x.annotation is not None:
                        t = None if "str" in ast.unparse(x.annotation) or self.prog.mixed(x.annotation) else t
                if t is not None:
                    self.types.setdefault(v, t)
        if a.vararg:
            bound[a.vararg.arg] = given.get(a.vararg.arg, ("p", "*" + a.vararg.arg))
        if a.kwarg:
            bound[a.kwarg.arg] = given.get(a.kwarg.arg) or st.new(
                Obj("dict", base=(("p", "**" + a.kwarg.arg),)))
        del params
        return [Path(o, v, s) for (o, v, s) in self.invoke(func, bound, None, st, force=True)]

    # ------------------------------------------------------------ calls of repo functions
    def new_frame(self, func, parent, st, vars):
        self.nframes += 1
        fid = self.nframes
        self.fparent[fid] = parent
        self.ffunc[fid] = func
        st.frames[fid] = dict(vars)
        return fid

    def invoke(self, func, bound, parent, st, force=False):
        """-> [(outcome, value, state)]"""
        self.analysed.add(func.qual)
        if len(self.stack) > self.max_depth:
            raise Limit("inlining depth")
        fid = self.new_frame(func, parent, st, bound)
        self.stack.append(func.qual)
        try:
            if isinstance(func.node, ast.Lambda):
                res = []
                for s, v in self.ev(func.node.body, st, fid):
                    res.append(("raise", s.exc, s) if s.exc is not None else ("ret", v, s))
            else:
                gen = func.is_generator
                if gen:
                    st.frames[fid]["__yields__"] = st.new(Obj("list"))
                res = []
                for out, s in self.block(func.node.body, st, fid):
                    if out[0] == "next":
                        res.append(("ret", NONE, s))
                    elif out[0] == "ret":
                        res.append(("ret", out[1], s))
                    elif out[0] == "raise":
                        res.append(("raise", out[1], s))
                    else:
                        res.append(("ret", NONE, s))
                if gen:
                    res = [(o, s.frames[fid]["__yields__"] if o == "ret" else v, s) for o, v, s in res]
        finally:
            self.stack.pop()
        for o, v, s in res:
            if o == "raise":
                s.exc = v
        if len(res) > self.max_paths:
            raise Limit("paths of {}".format(func.qual))
        return res

    def clear_exc(self, st):
        st.exc = None
        return st

    def loc(self, node, fid):
        f = self.ffunc[fid]
        top = f
        while top.parent is not None:
            top = top.parent
        return (f.module.relpath, getattr(node, "lineno", 0), f.qual)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fid):
        """-> [(outcome, state)], outcome: ('next',) ('ret', v) ('raise', e) ('brk',) ('cont',)"""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                self.steps += 1
                if self.steps > 400000:
                    raise Limit("steps")
                for out, y in self.stmt(s, x, fid):
                    if out[0] == "next":
                        nxt.append(y)
                    else:
                        done.append((out, y))
            cur = nxt
            if len(cur) + len(done) > self.max_paths:
                raise Limit("paths")
            if not cur:
                break
        return [(("next",), x) for x in cur] + done

    def _ok(self, pairs):
        """Split evaluation results into normal ones and outcomes of raising ones."""
        ok, bad = [], []
        for s, v in pairs:
            if s.exc is not None:
                e = s.exc
                s.exc = None
                bad.append((("raise", e), s))
            else:
                ok.append((s, v))
        return ok, bad

    def stmt(self, n, st, fid):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.unknowns.append((type(n).__name__, self.loc(n, fid)))
            return [(("next",), st)]
        return m(n, st, fid)

    def s_Expr(self, n, st, fid):
        if isinstance(n.value, ast.Constant):
            return [(("next",), st)]
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(n.value, st, fid, None)
        ok, bad = self._ok(self.ev(n.value, st, fid))
        return [(("next",), s) for s, _ in ok] + bad

    def do_yield(self, y, st, fid, target):
        f = self.ffunc[fid]
        out = []
        val = y.value
        pairs = self.ev(val, st, fid) if val is not None else [(st, NONE)]
        ok, bad = self._ok(pairs)
        out += bad
        for s, v in ok:
            if f.is_contextmanager and s.hooks and s.hooks[-1][0] == fid:
                hook = s.hooks[-1][1]
                s.hooks = s.hooks[:-1]
                for o, s2 in hook(s, v):
                    if o[0] == "next":
                        out.append((o, s2))
                    elif o[0] == "raise":
                        out.append((o, s2))
                    else:
                        # return/break/continue inside the with body: the generator finishes normally
                        s2.frames[fid]["__pending__"] = o
                        out.append((("next",), s2))
                continue
            yl = s.frames[fid].get("__yields__")
            if yl is not None:
                o = s.heap[yl[1]]
                if isinstance(y, ast.YieldFrom):
                    s.heap[yl[1]] = o.copy(items=o.items + self.as_items(v, s))
                else:
                    s.heap[yl[1]] = o.copy(items=o.items + (("i", v),))
            out.append((("next",), s))
        return out

    def s_Pass(self, n, st, fid):
        return [(("next",), st)]

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, n, st, fid):
        f = self.ffunc[fid]
        for alias, dotted in self.prog.import_names(f.module, n):
            st.frames[fid][alias] = self.from_resolved(self.prog.resolve_dotted(dotted), st)
        return [(("next",), st)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st, fid):
        f = self.prog.func_by_node.get(n)
        st.frames[fid][n.name] = ("fn", f.qual, fid) if f else ("unk", n.name)
        if f:
            self.fn_nodes[(f.qual, fid)] = f
        return [(("next",), st)]

    fn_nodes = {}

    def s_ClassDef(self, n, st, fid):
        q = self.ffunc[fid].qual + ".<locals>." + n.name
        st.frames[fid][n.name] = ("cls", q)
        return [(("next",), st)]

    def s_Return(self, n, st, fid):
        if n.value is None:
            return [(("ret", NONE), st)]
        ok, bad = self._ok(self.ev(n.value, st, fid))
        return [(("ret", v), s) for s, v in ok] + bad

    def s_Break(self, n, st, fid):
        return [(("brk",), st)]

    def s_Continue(self, n, st, fid):
        return [(("cont",), st)]

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            e = None
            f = fid
            while f is not None and e is None:
                e = st.frames[f].get("__exc__")
                f = self.fparent[f]
            st.emit(ev("reraise", loc=self.loc(n, fid)))
            return [(("raise", e or ("exc", "Exception", ())), st)]
        ok, bad = self._ok(self.ev(n.exc, st, fid))
        out = list(bad)
        for s, v in ok:
            e = self.exc_value(v, s)
            s.emit(ev("raise", e, loc=self.loc(n, fid)))
            out.append((("raise", e), s))
        return out

    def exc_value(self, v, st):
        if v[0] == "exc":
            return v
        if v[0] == "call" and v[1][0] == "ext":
            return ("exc", v[1][1].replace("builtins.", ""), v[2])
        if v[0] == "ext":
            return ("exc", v[1].replace("builtins.", ""), ())
        if v[0] == "ref":
            o = st.heap[v[1]]
            return ("exc", o.cls.name if o.cls else "Exception", (v,))
        if v[0] == "cls":
            return ("exc", v[1].rpartition(".")[2], ())
        return ("exc", "Exception", (v,))

    def s_Assert(self, n, st, fid):
        out = []
        for s, b in self.cond(n.test, st, fid):
            if s.exc is not None:
                e, s.exc = s.exc, None
                out.append((("raise", e), s))
            elif b:
                out.append((("next",), s))
            else:
                e = ("exc", "AssertionError", ())
                s.emit(ev("raise", e, loc=self.loc(n, fid)))
                out.append((("raise", e), s))
        return out

    def s_If(self, n, st, fid):
        out = []
        for s, b in self.cond(n.test, st, fid):
            if s.exc is not None:
                e, s.exc = s.exc, None
                out.append((("raise", e), s))
            else:
                out += self.block(n.body if b else n.orelse, s, fid)
        return out

    def s_Assign(self, n, st, fid):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(n.value, st, fid, n.targets[0])
        ok, out = self._ok(self.ev(n.value, st, fid))
        for s, v in ok:
            cur = [s]
            for t in n.targets:
                nxt = []
                for c in cur:
                    for o, s2 in self.assign(t, v, c, fid):
                        if o[0] == "next":
                            nxt.append(s2)
                        else:
                            out.append((o, s2))
                cur = nxt
            out += [(("next",), c) for c in cur]
        return out

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            return [(("next",), st)]
        ok, out = self._ok(self.ev(n.value, st, fid))
        for s, v in ok:
            out += self.assign(n.target, v, s, fid)
        return out

    def s_AugAssign(self, n, st, fid):
        load = ast.copy_location(self.to_load(n.target), n)
        ok, out = self._ok(self.ev(load, st, fid))
        for s, old in ok:
            ok2, bad2 = self._ok(self.ev(n.value, s, fid))
            out += bad2
            for s2, v in ok2:
                if isinstance(n.op, ast.Add) and old[0] == "ref" and s2.heap[old[1]].kind == "list":
                    o = s2.heap[old[1]]
                    s2.heap[old[1]] = o.copy(items=o.items + self.as_items(v, s2))
                    out.append((("next",), s2))
                    continue
                if isinstance(n.op, ast.Sub) and old[0] == "a" and old[2] in SETS:
                    out += self.take_away(old, v, s2, fid, self.loc(n, fid))
                    continue
                if isinstance(n.op, ast.Add) and old[0] in ("a", "p", "elem") and v[0] == "ref" and s2.heap[v[1]].kind == "list":
                    out += self.take_away(old, v, s2, fid, self.loc(n, fid), "append")
                    continue
                r = self.binop(type(n.op).__name__, old, v, s2)
                out += self.assign(n.target, r, s2, fid)
        return out

    def take_away(self, base, v, st, fid, loc, method="remove"):
        """Removal of several elements from a set (or addition to a list), one by one."""
        def bindf(x, s):
            s.frames[fid]["*removed"] = x
            return [(("next",), s)]

        def bodyf(s):
            x = s.frames[fid].pop("*removed")
            s.emit(ev("mut", base, method, (x,), loc=loc, fargs=((self.freeze(x, s),), ())))
            return [(("next",), s)]
        return self.loop_over(v, st, fid, bindf, bodyf, (), loc)

    def to_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        return ast.Subscript(t.value, t.slice, ast.Load())

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, fid)
            return [(("next",), st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), st) if not star else None
            if star:
                k = v[1] if v[0] == "tup" else None
                i = star[0]
                after = len(t.elts) - i - 1
                if k is not None:
                    mid = st.new(Obj("list", items=tuple(("i", x) for x in k[i:len(k) - after])))
                    vals = list(k[:i]) + [mid] + list(k[len(k) - after:] if after else ())
                else:
                    vals = [("idx", v, C(j)) for j in range(i)] + [("slice", v, C(i), NONE)] + [
                        ("idx", v, C(-(after - j))) for j in range(after)]
            cur = [(("next",), st)]
            for e, x in zip(t.elts, vals):
                nxt = []
                for o, s in cur:
                    if o[0] != "next":
                        nxt.append((o, s))
                    else:
                        nxt += self.assign(e.value if isinstance(e, ast.Starred) else e, x, s, fid)
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            ok, out = self._ok(self.ev(t.value, st, fid))
            for s, b in ok:
                gone = self.without(("a", b, t.attr), v, s)
                if gone is not None:
                    s.emit(ev("mut", ("a", b, t.attr), "remove", (gone,), loc=self.loc(t, fid), fargs=((self.freeze(gone, s),), ())))
                    out.append((("next",), s))
                    continue
                out += self.set_attr(b, t.attr, v, s, self.loc(t, fid))
            return out
        if isinstance(t, ast.Subscript):
            ok, out = self._ok(self.ev_many([t.value, t.slice], st, fid))
            for s, (b, k) in ok:
                self.set_item(b, k, v, s, self.loc(t, fid))
                out.append((("next",), s))
            return out
        return [(("next",), st)]

    def without(self, old, v, st):
        """The element that a list no longer has when it is built again without one object."""
        if v[0] != "ref" or st.heap[v[1]].kind != "list" or len(st.heap[v[1]].items) != 1:
            return None
        i = st.heap[v[1]].items[0]
        if i[0] != "each" or i[1] != old or (old[1], old[2]) in st.store:
            return None
        e = ("elem", old, "b")
        gone = None
        for conds, vals in i[2]:
            if len(conds) != 1 or conds[0][0][0] != "is" or e not in conds[0][0][1:]:
                return None
            a, b = conds[0]
            x = a[2] if a[1] == e else a[1]
            if gone not in (None, x) or contains(x, e) or vals != (() if b else (e,)):
                return None
            gone = x
        return gone if len(i[2]) == 2 or len(i[2]) == 1 and not i[2][0][0][0][1] else None

    def set_name(self, name, v, st, fid):
        f = self.ffunc[fid]
        nl = getattr(f, "_nonlocal", None)
        if nl is None:
            nl = set()
            if not isinstance(f.node, ast.Lambda):
                for x in walk_stmts(f.node.body):
                    if isinstance(x, (ast.Nonlocal, ast.Global)):
                        nl |= set(x.names)
            f._nonlocal = nl
        if name in nl:
            p = self.fparent[fid]
            while p is not None:
                if name in st.frames.get(p, ()):
                    st.frames[p][name] = v
                    return
                p = self.fparent[p]
        st.frames[fid][name] = v

    def set_attr(self, b, attr, v, st, loc):
        cls = self.typeof(b, st)
        if cls is not None:
            f = cls.find(attr, "setters")
            if f is not None and self.inlinable(f):
                st.emit(ev("set", b, attr, v, loc=loc, ret="setter"))
                a = [x.arg for x in f.node.args.args]
                out = []
                for o, val, s in self.invoke(f, {a[0]: b, a[1]: v}, None, st):
                    s.exc = None
                    out.append((("raise", val) if o == "raise" else ("next",), s))
                return out
        st.emit(ev("set", b, attr, v, loc=loc))
        if b[0] == "ref":
            o = st.heap[b[1]].copy()
            o.attrs[attr] = v
            st.heap[b[1]] = o
        else:
            st.store[(b, attr)] = v
        return [(("next",), st)]

    def set_item(self, b, k, v, st, loc):
        st.emit(ev("setitem", b, k, v, loc=loc))
        if b[0] == "ref":
            o = st.heap[b[1]]
            if o.kind == "dict":
                o = o.copy()
                o.attrs[k] = v
                st.heap[b[1]] = o
            elif o.kind == "list":
                if is_const(k) and isinstance(cval(k), int) and all(i[0] == "i" for i in o.items) and -len(o.items) <= cval(k) < len(o.items):
                    it = list(o.items)
                    it[cval(k)] = ("i", v)
                    st.heap[b[1]] = o.copy(items=tuple(it))
                else:
                    st.heap[b[1]] = o.copy(items=(("ext", ("setitem", self.freeze(b, st), k, v)),))
            else:
                st.store[(b, ("item", k))] = v
        else:
            st.store[(b, ("item", k))] = v

    def s_Delete(self, n, st, fid):
        cur = [(("next",), st)]
        for t in n.targets:
            nxt = []
            for o, s in cur:
                if o[0] != "next":
                    nxt.append((o, s))
                    continue
                if isinstance(t, ast.Name):
                    s.frames[fid].pop(t.id, None)
                    nxt.append((o, s))
                elif isinstance(t, ast.Subscript):
                    ok, bad = self._ok(self.ev_many([t.value, t.slice], s, fid))
                    nxt += bad
                    for s2, (b, k) in ok:
                        s2.emit(ev("delitem", b, k, loc=self.loc(t, fid)))
                        if b[0] == "ref" and s2.heap[b[1]].kind == "dict":
                            ob = s2.heap[b[1]].copy()
                            ob.attrs.pop(k, None)
                            s2.heap[b[1]] = ob
                        elif b[0] == "ref" and s2.heap[b[1]].kind == "list" and not s2.heap[b[1]].items:
                            s2.events = s2.events[:-1]
                            nxt.append((("raise", ("exc", "IndexError", ())), s2))
                            continue
                        elif b[0] == "ref":
                            ob = s2.heap[b[1]]
                            s2.heap[b[1]] = ob.copy(items=(("ext", ("delitem", self.freeze(b, s2), k)),))
                        nxt.append((("next",), s2))
                else:
                    nxt.append((o, s))
            cur = nxt
        return cur

    # ------------------------------------------------------------ try / with
    def s_Try(self, n, st, fid):
        if len(n.body) == 1 and len(n.handlers) == 1 and not n.orelse and not n.finalbody and isinstance(n.body[0], ast.Expr) and \
                n.handlers[0].type is not None and ast.unparse(n.handlers[0].type) == "FileNotFoundError" and \
                all(isinstance(x, ast.Pass) for x in n.handlers[0].body):
            c = n.body[0].value
            if isinstance(c, ast.Call) and ast.unparse(c.func) in ("os.remove", "os.unlink") and len(c.args) == 1 and not c.keywords:
                # a file that does not exist need not be removed
                r = self._ok(self.ev(c.args[0], st, fid))
                out = list(r[1])
                for s, v in r[0]:
                    for s2, t in self.call_ext("os.path.exists", (v,), (), s, self.loc(c, fid), fid):
                        for s3, b in self.truth(t, s2):
                            if not b:
                                out.append((("next",), s3))
                                continue
                            for s4, _ in self.call_ext("os.remove", (v,), (), s3, self.loc(c, fid), fid):
                                if s4.exc is not None:
                                    e, s4.exc = s4.exc, None
                                    out.append((("raise", e), s4))
                                else:
                                    out.append((("next",), s4))
                return out
        res = []
        for out, s in self.block(n.body, st, fid):
            if out[0] == "raise":
                res += self.handle(n, out[1], s, fid)
            elif out[0] == "next" and n.orelse:
                res += self.block(n.orelse, s, fid)
            else:
                res.append((out, s))
        if n.finalbody:
            fin = []
            for out, s in res:
                for o2, s2 in self.block(n.finalbody, s, fid):
                    fin.append((out, s2) if o2[0] == "next" else (o2, s2))
            res = fin
        return res

    s_TryStar = s_Try

    def handler_types(self, h, fid):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            out.append(ast.unparse(t))
        return out

    def handle(self, n, e, st, fid):
        """Outcomes of an exception e raised in the body of a try statement."""
        cur = [st]
        res = []
        for h in n.handlers:
            types = self.handler_types(h, fid)
            verdict = False
            for t in types:
                m = self.exc_match(e, t)
                if m is True:
                    verdict = True
                    break
                if m is None:
                    verdict = None
            if verdict is False:
                continue
            for s in cur:
                s1 = s.copy() if verdict is None else s
                if h.name:
                    s1.frames[fid][h.name] = e
                old = s1.frames[fid].get("__exc__")
                s1.frames[fid]["__exc__"] = e
                s1.emit(ev("caught", e, tuple(types), loc=self.loc(h, fid)))
                for o, s2 in self.block(h.body, s1, fid):
                    if old is None:
                        s2.frames[fid].pop("__exc__", None)
                    else:
                        s2.frames[fid]["__exc__"] = old
                    res.append((o, s2))
            if verdict is True:
                return res
        return res + [(("raise", e), s) for s in cur]

    def exc_match(self, e, handler):
        name = e[1] if e[0] == "exc" else "Exception"
        if name == "?CUT":  # not a behaviour: the end of the analysed part
            return False
        if name == "?E":  # an arbitrary ordinary exception
            return True if handler in ("Exception", "BaseException") else None
        if name == "?B":  # an interruption (KeyboardInterrupt, SystemExit, ...)
            return True if handler == "BaseException" else (None if handler in ("KeyboardInterrupt", "SystemExit") else False)
        if exc_is(name, handler):
            return True
        c = self.prog.class_by_name.get(name)
        if c is not None:
            for k in c.mro():
                if k.name == handler:
                    return True
            return any(exc_is(x.replace("builtins.", ""), handler) for k in c.mro() for x in k.ext_bases)
        return False

    def s_With(self, n, st, fid):
        return self.with_items(list(n.items), n.body, st, fid)

    def with_items(self, items, body, st, fid):
        if not items:
            return self.block(body, st, fid)
        it, rest = items[0], items[1:]
        e = it.context_expr
        out = []
        # repo context manager written as a generator: splice the with body at its yield
        if isinstance(e, ast.Call):
            ok, bad = self._ok(self.ev(e.func, st, fid))
            out += bad
            for s, fv in ok:
                f, selfv, parent = self.callee(fv, s)
                if f is not None and f.is_contextmanager and not isinstance(f.node, ast.Lambda):
                    ok2, bad2 = self._ok(self.ev_args(e, s, fid))
                    out += bad2
                    for s2, (args, kw) in ok2:
                        out += self.with_generator(f, selfv, parent, args, kw, it, rest, body, s2, fid)
                    continue
                ok2, bad2 = self._ok(self.ev_call_rest(e, fv, s, fid))
                out += bad2
                for s2, v in ok2:
                    out += self.with_value(v, it, rest, body, s2, fid)
            return out
        ok, bad = self._ok(self.ev(e, st, fid))
        out += bad
        for s, v in ok:
            out += self.with_value(v, it, rest, body, s, fid)
        return out

    def with_generator(self, f, selfv, parent, args, kw, it, rest, body, st, fid):
        bound, err = self.bind(f, selfv, args, kw, st)
        if err:
            st.emit(ev("bindfail", f.qual, err, loc=self.loc(it.context_expr, fid)))
            return [(("raise", ("exc", "TypeError", ())), st)]
        gfid = self.new_frame(f, parent, st, bound)
        self.analysed.add(f.qual)

        def hook(s, v):
            if it.optional_vars is not None:
                rs = self.assign(it.optional_vars, v, s, fid)
            else:
                rs = [(("next",), s)]
            o = []
            for a, s2 in rs:
                if a[0] != "next":
                    o.append((a, s2))
                else:
                    o += self.with_items(rest, body, s2, fid)
            return o

        st.hooks = st.hooks + ((gfid, hook),)
        res = []
        self.stack.append(f.qual)
        try:
            for o, s in self.block(f.node.body, st, gfid):
                p = s.frames[gfid].pop("__pending__", None)
                if o[0] in ("ret", "next"):
                    res.append((p or ("next",), s))
                else:
                    res.append((o, s))
        finally:
            self.stack.pop()
        return res

    def with_value(self, v, it, rest, body, st, fid):
        loc = self.loc(it.context_expr, fid)
        cls = self.typeof(v, st)
        if cls is not None and cls.find("__enter__") is not None:
            out = []
            f = cls.find("__enter__")
            for o, val, s in self.invoke(f, {f.node.args.args[0].arg: v}, None, st):
                s.exc = None
                if o == "raise":
                    out.append((("raise", val), s))
                    continue
                rs = self.assign(it.optional_vars, val, s, fid) if it.optional_vars is not None else [(("next",), s)]
                for a, s2 in rs:
                    for o2, s3 in self.with_items(rest, body, s2, fid):
                        g = cls.find("__exit__")
                        names = [x.arg for x in g.node.args.args]
                        ex = NONE if o2[0] != "raise" else ("classof", o2[1])
                        b = dict(zip(names, [v, ex, NONE if o2[0] != "raise" else o2[1], NONE]))
                        for x in names[4:]:
                            b[x] = NONE
                        if g.node.args.vararg:
                            b[g.node.args.vararg.arg] = ("tup", (ex, ex, NONE))
                        for o3, v3, s4 in self.invoke(g, b, None, s3):
                            s4.exc = None
                            if o3 == "raise":
                                out.append((("raise", v3), s4))
                            elif o2[0] == "raise":
                                for s5, t in self.truth(v3, s4):
                                    out.append((("next",) if t else o2, s5))
                            else:
                                out.append((o2, s4))
            return out
        suppress = ()
        if v[0] == "call" and v[1] == ("ext", "contextlib.suppress"):
            suppress = tuple(x[1].replace("builtins.", "") if x[0] == "ext" else "Exception" for x in v[2])
        st.emit(ev("enter", v, loc=loc))
        st2 = st
        enterv = ("entered", v)
        if v[0] == "call" and v[1][0] == "ext" and (v[1][1] in ("builtins.open", "io.open", "os.fdopen") or "tempfile" in v[1][1]):
            enterv = v
        rs = self.assign(it.optional_vars, enterv, st2, fid) if it.optional_vars is not None else [(("next",), st2)]
        out = []
        for a, s in rs:
            if a[0] != "next":
                out.append((a, s))
                continue
            for o, s2 in self.with_items(rest, body, s, fid):
                s2.emit(ev("exit", v, o[0], loc=loc))
                if o[0] == "raise" and any(self.exc_match(o[1], t) for t in suppress):
                    o = ("next",)
                out.append((o, s2))
        return out

    # ------------------------------------------------------------ loops
    def s_For(self, n, st, fid):
        ok, out = self._ok(self.ev(n.iter, st, fid))
        self.loop_nodes.append(n)
        try:
            for s, itv in ok:
                r = self.by_position(n, itv, s, fid)
                if r is not None:
                    out += r
                    continue
                out += self.loop_over(
                    itv, s, fid,
                    lambda v, x: self.assign(n.target, v, x, fid),
                    lambda x: self.block(n.body, x, fid),
                    n.orelse, self.loc(n, fid))
        finally:
            self.loop_nodes.pop()
        return out

    def by_position(self, n, itv, st, fid):
        """for i in range(len(X)) with X[i] in the body: a loop over the elements of X."""
        if itv[0] != "range" or len(itv) != 3 or itv[1] != C(0) or not isinstance(n.target, ast.Name) or is_const(itv[2]):
            return None
        name = n.target.id
        seqs = {}
        for x in ast.walk(ast.Module(n.body, [])):
            if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load):
                return None
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == name and isinstance(x.ctx, ast.Load) and \
                    isinstance(x.value, (ast.Name, ast.Attribute)):
                seqs[ast.unparse(x.value)] = x.value
        for x in ast.walk(ast.Module(n.body, [])):
            if isinstance(x, (ast.Name, ast.Attribute)) and not isinstance(x.ctx, ast.Load):
                seqs.pop(ast.unparse(x), None)
        for text, e in sorted(seqs.items()):
            r = self.ev(e, st, fid)
            if len(r) != 1 or r[0][0].exc is not None or r[0][0] is not st:
                continue
            v = r[0][1]
            c = self.x_len([v], {}, st, None, fid)
            if c is None or len(c) != 1 or c[0][1] != itv[2]:
                continue
            key = "*at " + name

            def bindf(p, s):
                s.frames[fid][key] = ("at", text, p[1][1])
                return self.assign(n.target, p[1][0], s, fid)

            def bodyf(s):
                out = self.block(n.body, s, fid)
                for _, s2 in out:
                    s2.frames[fid].pop(key, None)
                return out
            return self.loop_over(("enumerate", v, C(0)), st, fid, bindf, bodyf, n.orelse, self.loc(n, fid))
        return None

    def finite(self, v, st):
        """Elements of an iterable if they are all known (and few)."""
        if v[0] == "tup" and len(v[1]) <= 12:
            return list(v[1])
        if v[0] == "c" and isinstance(cval(v), str) and len(cval(v)) <= 8:
            return [C(ch) for ch in cval(v)]
        if v[0] == "ref":
            o = st.heap[v[1]]
            if o.kind == "dict" and not o.base:
                return list(o.attrs)
            if o.kind in ("list", "set") and all(i[0] == "i" for i in o.items) and len(o.items) <= 12:
                return [i[1] for i in o.items]
        if v[0] == "range" and all(is_const(x) for x in v[1:]) and all(isinstance(cval(x), int) for x in v[1:]):
            r = range(*(cval(x) for x in v[1:]))
            if len(r) <= 12:
                return [C(i) for i in r]
        if v[0] == "enumerate":
            f = self.finite(v[1], st)
            if f is not None and is_const(v[2]):
                return [("tup", (C(i + cval(v[2])), x)) for i, x in enumerate(f)]
        if v[0] == "zip":
            fs = [self.finite(x, st) for x in v[1]]
            if all(f is not None for f in fs):
                return [("tup", tuple(t)) for t in zip(*fs)]
        if v[0] == "ditems":
            if v[1][0] == "ref":
                o = st.heap[v[1][1]]
                if not o.base:
                    return [("tup", (k, x)) for k, x in o.attrs.items()]
            if v[1][0] == "gdict":
                return [("tup", kv) for kv in v[1][1]]
        if v[0] == "dvals" and v[1][0] == "ref":
            o = st.heap[v[1][1]]
            if not o.base:
                return list(o.attrs.values())
        if v[0] == "gdict":
            return [k for k, _ in v[1]]
        if v[0] == "reversed":
            f = self.finite(v[1], st)
            return f[::-1] if f is not None else None
        return None

    def is_set(self, t):
        return t[0] == "a" and t[2] in SETS or self.difference(t) is not None

    def difference(self, t):
        """(A, B) for the difference of two sets"""
        if t[0] == "call" and t[1][0] == "m" and t[1][2] == "difference" and len(t[2]) == 1 and self.is_set(t[1][1]):
            return t[1][1], t[2][0]
        if t[0] == "sub" and self.is_set(t[1]):
            return t[1], t[2]
        return None

    def elements(self, itv, st):
        """Generic elements of an iterable -> [(iter key, conds, element value)] alternatives.

        A list built by a loop or comprehension over X yields the elements of X again."""
        t = itv
        if t[0] == "ref":
            o = st.heap[t[1]]
            if o.kind in ("list", "set"):
                if len(o.items) == 1:
                    i = o.items[0]
                    if i[0] == "ext":
                        return self.elements(i[1], st)
                    if i[0] == "each":
                        _, it, alts = i
                        n = sum(1 for x in st.loops if x == it)
                        alts2 = []
                        for conds, vals in alts:
                            m = {("elem", it, "b"): ("elem", it, n), ("pos", it, "b"): ("pos", it, n)}
                            alts2.append((subst(conds, m) if m else conds, subst(vals, m) if m else vals))
                        return it, alts2
                f = self.freeze(t, st)
                n = sum(1 for x in st.loops if x == f)
                return f, [((), (("elem", f, n),))]
        if t[0] == "list" and len(t[1]) == 1:
            i = t[1][0]
            if i[0] == "ext":
                return self.elements(i[1], st)
            if i[0] == "each":
                n = sum(1 for x in st.loops if x == i[1])
                m = {("elem", i[1], "b"): ("elem", i[1], n), ("pos", i[1], "b"): ("pos", i[1], n)}
                return i[1], [(subst(c, m), subst(v, m)) for c, v in i[2]]
        if t[0] == "range" and len(t) == 3 and t[1] == C(0) and t[2][0] == "call" and t[2][1] == ("ext", "builtins.len") and len(t[2][2]) == 1 and \
                t[2][2][0][0] in ("p", "a", "elem", "call"):
            # the positions of the elements of a sequence
            it = t[2][2][0]
            return it, [((), (("pos", it, sum(1 for x in st.loops if x == it)),))]
        if t[0] == "range" and len(t) == 3 and t[1] != C(0):
            it, alts = self.elements(("range", C(0), self.binop("Sub", t[2], t[1], st)), st)
            return it, [(c, tuple(self.binop("Add", v, t[1], st) for v in vs)) for c, vs in alts]
        if t[0] == "sorted" and len(t) > 1 and self.is_set(t[1]):
            return self.elements(t[1], st)
        d = self.difference(t)
        if d is not None:
            it, alts = self.elements(d[0], st)
            out = []
            for c, vs in alts:
                if len(vs) != 1:
                    return t, [((), (("elem", t, sum(1 for x in st.loops if x == t)),))]
                x = ("in", vs[0], d[1])
                out += [(c + ((x, False),), vs), (c + ((x, True),), ())]
            return it, out
        if t[0] == "enumerate":
            it, alts = self.elements(t[1], st)
            if len(alts) == 1 and alts[0][0] == () and len(alts[0][1]) == 1:
                n = sum(1 for x in st.loops if x == it)
                p = ("pos", it, n)
                if t[2] != C(0):
                    p = self.binop("Add", p, t[2], st)
                if alts[0][1][0][0] not in ("seg", "splice"):
                    return it, [((), (("tup", (p, alts[0][1][0])),))]

            def wrap(v):
                if v[0] == "seg" and v[1][0] == "each":
                    return ("seg", ("each", v[1][1], tuple((c, tuple(wrap(x) for x in vs)) for c, vs in v[1][2])))
                if v[0] in ("seg", "splice"):
                    return ("unk", "sequence")
                return ("tup", (("unk", "position"), v))
            return it, [(c, tuple(wrap(v) for v in vs)) for c, vs in alts]
        if t[0] == "ditems":
            d = self.freeze(t[1], st)
            n = sum(1 for x in st.loops if x == d)
            e = ("elem", d, n)
            return d, [((), (("tup", (e, ("idx", d, e))),))]
        if t[0] == "dvals":
            d = self.freeze(t[1], st)
            n = sum(1 for x in st.loops if x == d)
            return d, [((), (("idx", d, ("elem", d, n)),))]
        if t[0] == "zip":
            parts = [self.elements(x, st) for x in t[1]]
            if all(len(a) == 1 and a[0][0] == () and len(a[0][1]) == 1 for _, a in parts):
                it = ("zip", tuple(p[0] for p in parts))
                return it, [((), (("tup", tuple(p[1][0][1][0] for p in parts)),))]
        f = self.freeze(t, st)
        if f[0] == "reversed":
            inner, alts = self.elements(f[1], st)
            if len(alts) == 1 and alts[0][0] == () and alts[0][1] == (("elem", inner, sum(1 for x in st.loops if x == inner)),):
                pass
        n = sum(1 for x in st.loops if x == f)
        return f, [((), (("elem", f, n),))]

    def loop_over(self, itv, st, fid, bindf, bodyf, orelse, loc):
        fin = self.finite(itv, st)
        if fin is not None:
            cur = [st]
            out = []
            for v in fin:
                nxt = []
                for s in cur:
                    for o, s2 in bindf(v, s):
                        if o[0] != "next":
                            out.append((o, s2))
                            continue
                        for o3, s3 in bodyf(s2):
                            if o3[0] in ("next", "cont"):
                                nxt.append(s3)
                            elif o3[0] == "brk":
                                out.append((("next",), s3))
                            else:
                                out.append((o3, s3))
                cur = nxt
                if len(cur) > self.max_paths:
                    raise Limit("unrolled loop")
            for s in cur:
                out += self.block(orelse, s, fid) if orelse else [(("next",), s)]
            return out
        # a list of several segments: one loop after the other
        if itv[0] == "ref" and st.heap[itv[1]].kind == "list" and len(st.heap[itv[1]].items) > 1:
            segs = st.heap[itv[1]].items
        elif itv[0] == "list" and len(itv[1]) > 1:
            segs = itv[1]
        else:
            segs = None
        if segs is not None:
            cur = [(("next",), st)]
            for seg in segs:
                nxt = []
                for o, s in cur:
                    if o[0] != "next":
                        nxt.append((o, s))
                        continue
                    sub = ("tup", (seg[1],)) if seg[0] == "i" else ("list", (seg,))
                    nxt += self.loop_over(sub, s, fid, bindf, bodyf, (), loc)
                cur = nxt
            out = []
            for o, s in cur:
                out += self.block(orelse, s, fid) if o[0] == "next" and orelse else [(o, s)]
            return out
        it, alts = self.elements(itv, st)
        if self.peel is not None:
            whole = self.plain_loop(it, alts, st, fid, bindf, bodyf, orelse, loc)
            return whole or self.peeled_loop(it, alts, st, fid, bindf, bodyf, orelse, loc)
        return self.generic_loop(it, alts, st, fid, bindf, bodyf, orelse, loc)

    def plain_loop(self, it, alts, st, fid, bindf, bodyf, orelse, loc):
        """A loop over the result of a call that does the same for every element and changes no value: it need not be peeled."""
        if it[0] != "call" or it[1][0] != "f" or orelse or st.loops:
            return None
        before = {k: dict(v) for k, v in st.frames.items()}
        own = set()
        for _, s in bindf(("elem", it, 0), st.copy()):
            own |= {(k, x) for k, v in s.frames.items() for x in v if before.get(k, {}).get(x) != v[x]}
        heap, store = dict(st.heap), dict(st.store)
        out = self.generic_loop(it, alts, st.copy(), fid, bindf, bodyf, (), loc)
        for o, s in out:
            now = {k: {x: y for x, y in v.items() if (k, x) not in own} for k, v in s.frames.items()}
            was = {k: {x: y for x, y in v.items() if (k, x) not in own} for k, v in before.items()}
            if o[0] != "next" or now != was or s.heap != heap or s.store != store:
                return None
        return out

    def peeled_loop(self, it, alts, st, fid, bindf, bodyf, orelse, loc, test=None):
        """The first iterations of a loop one by one; longer runs are cut off."""
        self.peeled.add(it if alts is not None else ("while",))
        n = sum(1 for x in st.loops if x == it)
        out, done = [], []
        cur = [st]
        for i in range(self.peel + 1):
            nxt = []
            for s in cur:
                if alts is None:
                    starts = []
                    for s2, b in test(s):
                        if s2.exc is not None:
                            e, s2.exc = s2.exc, None
                            out.append((("raise", e), s2))
                        elif b:
                            starts.append(s2)
                        else:
                            done.append(s2)
                else:
                    end = s.copy()
                    if self.assume_all(((("more", it, C(i)), False),), end):
                        done.append(end)
                    starts = [s] if self.assume_all(((("more", it, C(i)), True),), s) else []
                for s2 in starts:
                    if i == self.peel:
                        out.append((("raise", ("exc", "?CUT", ())), s2))
                    elif alts is None:
                        nxt += bodyf(s2)
                    else:
                        m = {("elem", it, n): ("idx", it, C(i)), ("pos", it, n): C(i)}
                        for conds, vals in alts:
                            s3 = s2.copy()
                            if not self.assume_all(subst(conds, m), s3):
                                continue
                            r = [(("next",), s3)]
                            for v in subst(vals, m):
                                if v[0] in ("seg", "splice"):
                                    raise Limit("nested sequence")
                                r2 = [x for x in r if x[0][0] not in ("next", "cont")]
                                for o, s4 in r:
                                    if o[0] in ("next", "cont"):
                                        for o2, s5 in bindf(v, s4):
                                            r2 += bodyf(s5) if o2[0] == "next" else [(o2, s5)]
                                r = r2
                            nxt += r
            cur = []
            for o, s in nxt:
                if o[0] in ("next", "cont"):
                    cur.append(s)
                else:
                    out.append((("next",), s) if o[0] == "brk" else (o, s))
            if len(cur) + len(out) + len(done) > self.max_paths:
                raise Limit("loop paths")
        for s in done:
            out += self.block(orelse, s, fid) if orelse else [(("next",), s)]
        return out

    def snapshot(self, st):
        return ({k: dict(v) for k, v in st.frames.items()}, dict(st.heap), dict(st.store))

    def generic_loop(self, it, alts, st, fid, bindf, bodyf, orelse, loc, test=None):
        """A loop analysed for one generic iteration.  alts is None for while loops."""
        outer = self.carry_no
        self.carry_no = outer + (sum(1 for e in st.events if e.kind == "loop"),)
        try:
            return self.one_iteration(it, alts, st, fid, bindf, bodyf, orelse, loc, test, outer)
        finally:
            self.carry_no = outer

    def one_iteration(self, it, alts, st, fid, bindf, bodyf, orelse, loc, test, outer):
        base_frames = set(st.frames)
        havoc = {}  # key -> symbol; keys: ('v', fid, name) ('s', storekey) ('h', id, attr) ('l', id)
        depth = len(st.loops)
        for _round in range(12):
            start = st.copy()
            for key, sym in havoc.items():
                self.put(start, key, sym)
            start.events = ()
            start.loops = st.loops + (it,)
            iters = []
            exits = []
            for conds, vals in (alts if alts is not None else [((), ())]):
                s = start.copy()
                if not self.assume_all(conds, s):
                    continue
                if alts is None:
                    cur = []
                    for s2, b in test(s):
                        if s2.exc is not None:
                            e, s2.exc = s2.exc, None
                            iters.append((("raise", e), s2))
                        elif b:
                            cur.append(s2)
                        else:
                            exits.append(s2)
                    for s2 in cur:
                        iters += bodyf(s2)
                else:
                    cur = [(("next",), s)]
                    for v in vals:
                        nxt = []
                        for o, s2 in cur:
                            if o[0] not in ("next", "cont"):
                                nxt.append((o, s2))
                                continue
                            if v[0] in ("seg", "splice"):
                                def inner(s, bodyf=bodyf):
                                    r = bodyf(s)
                                    if any(o[0] == "brk" for o, _ in r):
                                        raise Limit("break in a nested sequence")
                                    return r
                                nxt += self.loop_over(("list", (v[1] if v[0] == "seg" else ("ext", v[1]),)), s2, fid, bindf, inner, (), loc)
                                continue
                            for o2, s3 in bindf(v, s2):
                                if o2[0] != "next":
                                    nxt.append((o2, s3))
                                else:
                                    nxt += bodyf(s3)
                        cur = nxt
                    iters += cur
            if len(iters) > self.max_paths:
                raise Limit("loop paths")
            changed = set()
            for o, s in iters:
                if o[0] in ("next", "cont"):
                    changed |= self.diff(start, s, base_frames)
            grown = {k[1] for k in changed if k[0] == "D"} | {k[1] for k in havoc if k[0] == "D"}
            changed = {k for k in changed if k[0] != "h" or k[1] not in grown}
            havoc = {k: v for k, v in havoc.items() if k[0] != "h" or k[1] not in grown}
            new = [k for k in changed if k not in havoc]
            if not new:
                break
            for k in sorted(new, key=repr):
                havoc[k] = ("lv", depth, len(havoc)) if k[0] != "l" else ("lvl", depth, len(havoc))
        else:
            raise Limit("loop fixpoint")
        no, self.carry_no = self.carry_no, outer
        return self.close_loop(it, alts, st, start, havoc, iters, exits, fid, orelse, loc, base_frames, no)

    def get(self, st, key):
        if key[0] == "v":
            return st.frames[key[1]].get(key[2])
        if key[0] == "s":
            return st.store.get(key[1])
        if key[0] == "h":
            return st.heap[key[1]].attrs.get(key[2])
        if key[0] == "D":
            o = st.heap[key[1]]
            return ("dictval", o.base, tuple(o.attrs.items()))
        return st.heap[key[1]].items

    def put(self, st, key, val):
        if key[0] == "v":
            if val is None:
                st.frames[key[1]].pop(key[2], None)
            else:
                st.frames[key[1]][key[2]] = val
        elif key[0] == "s":
            if val is None:
                st.store.pop(key[1], None)
            else:
                st.store[key[1]] = val
        elif key[0] == "h":
            o = st.heap[key[1]].copy()
            if val is None:
                o.attrs.pop(key[2], None)
            else:
                o.attrs[key[2]] = val
            st.heap[key[1]] = o
        elif key[0] == "D":
            o = st.heap[key[1]]
            if val[0] == "dictval":
                st.heap[key[1]] = o.copy(base=val[1], attrs=dict(val[2]))
            else:
                st.heap[key[1]] = o.copy(base=(val,), attrs={})
        else:
            o = st.heap[key[1]]
            if val and val[0] == "lvl":
                val = (("pre", val),)
            st.heap[key[1]] = o.copy(items=val)

    def diff(self, a, b, frames):
        out = set()
        for f in frames:
            x, y = a.frames.get(f, {}), b.frames.get(f, {})
            if x is y:
                continue
            for k in set(x) | set(y):
                if x.get(k) != y.get(k):
                    out.add(("v", f, k))
        for k in set(a.store) | set(b.store):
            if a.store.get(k) != b.store.get(k):
                out.add(("s", k))
        for i, o in a.heap.items():
            p = b.heap.get(i)
            if p is o or p is None:
                continue
            if o.items != p.items:
                out.add(("l", i))
            keys = [k for k in set(o.attrs) | set(p.attrs) if o.attrs.get(k) != p.attrs.get(k)]
            if o.kind == "dict" and (o.base != p.base or any(
                    not is_const(k) and find_terms(k, lambda t: t[0] in ("elem", "pos", "lv", "enter")) for k in keys)):
                out.add(("D", i))
                continue
            for k in keys:
                out.add(("h", i, k))
        return out

    def new_conds(self, start, s):
        return tuple((k, v) for k, v in s.conds.items() if k not in start.conds)

    def escape_objects(self, st, start, iters, exits):
        """Objects created in an iteration get unique names and stay known after the loop."""
        top = start.nref
        out = []
        for o, s in iters:
            new = sorted(i for i in s.heap if i not in start.heap)
            if new:
                m = {}
                for i in new:
                    top += 1
                    m[("ref", i)] = ("ref", top)
                heap = s.heap
                s = subst_state(s.copy(), m)
                s.heap = {m[("ref", i)][1] if ("ref", i) in m else i: x for i, x in s.heap.items()}
                s.store = {(subst(k[0], m),) + tuple(k[1:]): v for k, v in s.store.items()}
                del heap
                o = subst(o, m)
            out.append((o, s))
        if top > start.nref:
            extra = {}
            for o, s in out:
                extra.update({i: x for i, x in s.heap.items() if i > start.nref})
            for s in [st] + [x[1] for x in out] + list(exits):
                for i, x in extra.items():
                    s.heap.setdefault(i, x)
                s.nref = max(s.nref, top)
        return out

    def carried(self, it, alts, st, start, havoc, iters, exits, closed, no):
        """Loop-carried values without a closed form become named symbols: their values at the beginning of an iteration and at
        the end of the loop.  The event of the loop tells their initial values and how an iteration changes them."""
        def value(s, key):
            v = self.get(s, key)
            if v is None:
                return NONE
            if key[0] == "l":
                return ("list", tuple((i[0], self.freeze(i[1], s)) + tuple(i[2:]) if i[0] in ("i", "ext") else i for i in v))
            return v if key[0] == "D" else self.freeze(v, s)

        own = set(havoc.values())
        bad = [k for k in havoc if alts is None or find_terms(
            closed[k], lambda t: t[0] in ("unk", "unkseq", "grown") or t in own)]
        normal = [s for o, s in iters if o[0] in ("next", "cont")]
        bad = [k for k in bad if not self.dead_after(k, havoc[k], iters, exits, bad, value)]
        mask = {havoc[k]: ("w",) for k in bad}
        mask.update({("pre", havoc[k]): ("w",) for k in bad})
        rank = {k: repr((value(st, k), sorted(repr(subst(value(s, k), mask)) for s in normal))) for k in bad}
        # values that look the same are told apart by their names
        bad.sort(key=lambda k: (rank[k], repr(k)))
        mid, end = {}, {}
        for i, k in enumerate(bad):
            for m, c in ((mid, "lc"), (end, "lce")):
                m[havoc[k]] = (c, no, i)
                m[("pre", havoc[k])] = ("ext", (c, no, i))
        out = []
        for o, s in iters:
            s2 = subst_state(s, mid)
            if o[0] in ("next", "cont"):
                for k in bad:
                    s2.emit(ev("carry", mid[havoc[k]], None, value(s2, k)))
            out.append((subst(o, mid), s2))
        exits = [subst_state(s, end) for s in exits]
        init = tuple((mid[havoc[k]], value(st, k)) for k in bad)
        for k in bad:
            e = end[havoc[k]]
            closed[k] = (("ext", e),) if k[0] == "l" else ("dictval", (e,), ()) if k[0] == "D" else e
        done = [(self.new_conds(start, subst_state(x.copy(), {v: mid[h] for h, v in end.items()})), (), ("done",)) for x in exits]
        return out, exits, init, done

    def dead_after(self, key, sym, iters, exits, bad, value):
        """A variable that is set anew in each iteration before it is used, and not used after the loop."""
        if key[0] != "v" or not self.loop_nodes:
            return False
        node = self.ffunc[key[1]].node
        loop = self.loop_nodes[-1]
        if not any(x is loop for x in ast.walk(node)) or live_after(node, loop, key[2]):
            return False
        has = lambda t: isinstance(t, tuple) and contains(t, sym)  # noqa
        for o, s in iters + [((), x) for x in exits]:
            if any(has(c) for c in s.conds) or has(tuple(o)) or any(has(tuple(e)) for e in s.events):
                return False
            if any(k != key and has(value(s, k)) for k in bad):
                return False
        return True

    def close_loop(self, it, alts, st, start, havoc, iters, exits, fid, orelse, loc, base_frames, no=()):
        iters = self.escape_objects(st, start, iters, exits)
        summary = []
        for o, s in iters:
            summary.append((self.new_conds(start, s), s.events, o))
        normal = [(self.new_conds(start, s), s) for o, s in iters if o[0] in ("next", "cont")]
        closed = {}
        for key, sym in havoc.items():
            closed[key] = self.bind_elem(self.closed_form(key, sym, it, st, start, normal, havoc, alts is None), key, it, st)
        plain = alts is None and self.while_form(st, start, havoc, iters, normal, exits)
        if plain:
            for s in exits:
                s.conds = dict(st.conds)
                s.events = st.events + s.events
                s.loops = st.loops
                for key, val in plain.items():
                    self.put(s, key, val)
            return [r for s in exits for r in (self.block(orelse, s, fid) if orelse else [(("next",), s)])]
        if alts is not None and not havoc:
            v = membership(it, summary)
            out = [(o, s) for o, s in iters if o[0] not in ("next", "cont")]
            if v is not None:
                res = []
                for s, found in self.fork(("in", v, it), st):
                    if not found:
                        res += self.block(orelse, s, fid) if orelse else [(("next",), s)]
                        continue
                    for k, f in out[0][1].frames.items():
                        if k in s.frames:
                            s.frames[k] = f
                    res.append((("next",) if out[0][0][0] == "brk" else out[0][0], s))
                return res
        init, last = None, []
        if self.carry:
            iters, exits, init, last = self.carried(it, alts, st, start, havoc, iters, exits, closed, no)
            summary = [(self.new_conds(start, s), s.events, o) for o, s in iters]
        # loop-carried values that have a closed form: their value before the current iteration
        done = set()
        syms = tuple(havoc.values())
        for _ in range(len(havoc)):
            running = {}
            for key, sym in havoc.items():
                if sym in done:
                    continue
                v = closed[key]
                if key[0] == "D":
                    r = ("before", ("dictof", v[1])) if v[1] and v[1][0][0] != "unk" else v[1][0] if v[1] else ("before", ("dictof", ()))
                elif key[0] != "l" and isinstance(v, tuple) and v and v[0] in ("sumover", "maxover", "fold"):
                    r = ("before", v)
                elif key[0] != "l" and v is not None and v == self.get(st, key):
                    r = v
                else:
                    continue
                if not any(contains(r, x) for x in syms):
                    running[sym] = r
            if not running:
                break
            done |= set(running)
            summary = [(subst(c, running), tuple(subst_ev(e, running) for e in es), subst(o, running)) for c, es, o in summary]
            iters = [(subst(o, running), subst_state(s, running)) if o[0] not in ("next", "cont") else (o, s) for o, s in iters]
            closed = {k: subst(v, running) if v is not None else v for k, v in closed.items()}
        lev = ev("loop", it, tuple(summary) + tuple(last), "for" if alts is not None else "while", loc=loc, ret=init)
        results = []

        def finish(s0):
            """Drop frames of inlined calls, keep the rest."""
            return s0

        # 1. the loop ran to its end
        ends = []
        if alts is not None:
            s = st.copy()
            s.emit(lev)
            for key, val in closed.items():
                self.put(s, key, val)
            ends.append(s)
        else:
            for x in exits:
                s = x
                pre = self.new_conds(start, x)
                s.events = st.events + (lev,) + x.events
                for key, val in closed.items():
                    if self.get(s, key) == havoc[key] or key[0] in ("l", "D"):
                        self.put(s, key, val if key[0] != "l" else val)
                s.loops = st.loops
                s.conds = self.merge_exit_conds(st, pre, havoc, closed)
                ends.append(s)
        for s in ends:
            results += self.block(orelse, s, fid) if orelse else [(("next",), s)]
        # 2. early exits
        for o, s in iters:
            if o[0] in ("next", "cont"):
                continue
            s.events = st.events + (lev,) + (ev("iter", it, loc=loc),) + s.events
            s.loops = st.loops
            for key, sym in havoc.items():
                if key[0] == "l":
                    items = self.get(s, key)
                    pre = closed[key]
                    if items and items[0] == ("pre", sym):
                        self.put(s, key, tuple(pre) + tuple(items[1:]))
            if o[0] == "brk":
                results.append((("next",), s))
            else:
                results.append((o, s))
        return results

    def while_form(self, st, start, havoc, iters, normal, exits):
        """A loop that only iterates a function on local variables while a condition holds."""
        if len(iters) != 1 or len(normal) != 1 or len(exits) != 1 or iters[0][1].events or exits[0].events or not havoc:
            return None
        if any(k[0] != "v" or self.get(st, k) is None for k in havoc):
            return None
        conds, s = normal[0]
        if any(self.get(exits[0], k) != sym for k, sym in havoc.items()):
            return None
        rows = []
        mask = {sym: ("w",) for sym in havoc.values()}
        for k, sym in havoc.items():
            rows.append((repr((self.freeze(self.get(st, k), st), subst(self.freeze(self.get(s, k), s), mask))), k, sym))
        rows.sort(key=lambda r: r[0])
        names = {sym: ("w", i) for i, (_, k, sym) in enumerate(rows)}
        body = tuple((self.freeze(self.get(st, k), st), subst(self.freeze(self.get(s, k), s), names)) for _, k, sym in rows)
        test = tuple(sorted(((subst(c, names), b) for c, b in conds), key=repr))
        return {k: ("wfix", test, body, i) for i, (_, k, sym) in enumerate(rows)}

    def merge_exit_conds(self, st, pre, havoc, closed):
        c = dict(st.conds)
        for k, v in pre:
            c[k] = v
        return c

    def closed_form(self, key, sym, it, st, start, normal, havoc, is_while):
        init = self.get(st, key)
        if key[0] == "D":
            alts = []
            for conds, s in normal:
                _, base, attrs = self.get(s, key)
                if not base or base[0] != sym or is_while:
                    return ("dictval", (("unk", "dictionary", sym),), ())
                add = tuple(("*", b) for b in base[1:]) + tuple(attrs)
                if add:
                    alts.append((subst(conds, {sym: ("dacc",)}), subst(add, {sym: ("dacc",)})))
            if not alts:
                return init
            start_base = init[1] if not init[2] else init[1] + (("attrs", tuple(sorted(init[2], key=repr))),)
            return ("dictval", start_base + (("dfold", it, tuple(alts)),), ())
        if key[0] == "l":
            pre = ("pre", sym)
            alts = []
            okay = True
            for conds, s in normal:
                items = self.get(s, key)
                if not items or items[0] != pre or pre in items[1:]:
                    okay = False
                    break
                add = items[1:]
                if any(a[0] == "pre" for a in add):
                    okay = False
                alts.append((conds, add))
            if okay and not is_while:
                flat = all(a[0] == "i" for _, add in alts for a in add)
                if flat:
                    al = tuple((c, tuple(a[1] for a in add)) for c, add in alts if add)
                    return tuple(init) + ((("each", it, al),) if al else ())
                if all(len(add) <= 1 for _, add in alts):
                    al = tuple((c, tuple(("splice", a[1]) if a[0] == "ext" else ("seg", a) if a[0] != "i" else a[1] for a in add)) for c, add in alts if add)
                    return tuple(init) + (("each", it, al),)
                al = tuple((c, tuple(("seg", a) for a in add)) for c, add in alts if add)
                return tuple(init) + (("each", it, al),)
            if okay:
                return tuple(init) + (("ext", ("grown", sym, it)),)
            return (("ext", ("unkseq", sym, it)),)
        if not normal:
            return init
        vals = [(c, self.get(s, key)) for c, s in normal]
        if all(v == sym for _, v in vals):
            return init
        # accumulation
        if init is not None and is_const(init) and isinstance(cval(init), str):
            parts = [(c, self.appended(v, sym)) for c, v in vals]
            if all(x is not None and not any(contains(y, sym) for y in x) for _, x in parts):
                al = tuple((c, x) for c, x in parts if x)
                return ("join", C(""), ("list", ((("i", init),) if cval(init) else ()) + ((("each", it, al),) if al else ())))
            return ("unk", "accumulated text", sym)
        deltas = []
        for c, v in vals:
            if v is None:
                deltas = None
                break
            if v == sym:
                deltas.append((c, C(0)))
                continue
            d = self.linear_delta(v, sym)
            if d is None or contains(d, sym):
                deltas = None
                break
            deltas.append((c, d))
        if deltas is not None and init is not None:
            al = tuple(x for x in deltas if x[1] != C(0))
            return ("sumover", init, it, al)
        mx = self.as_max(vals, sym) if init is not None else None
        if mx is not None:
            return ("maxover", init, it, mx)
        if init is not None and all(v is not None and (v == sym or (v[0] == "max" and sym in v[1])) for _, v in vals):
            al = tuple((c, tuple(x for x in v[1] if x != sym)) for c, v in vals if v != sym)
            return ("maxover", init, it, al)
        if key[0] == "v" and all(v is not None and not contains(v, sym) for _, v in vals):
            return ("lastof", init if init is not None else NONE, it, tuple(vals))
        return ("fold", init if init is not None else NONE, it, tuple((subst(c, {sym: ("acc",)}), subst(v, {sym: ("acc",)}) if v else NONE) for c, v in vals))

    def as_max(self, vals, sym):
        """if x > m: m = x  is a maximum."""
        out = []
        hit = False
        for c, v in vals:
            if v is None:
                return None
            keep, x = [], None
            for a, b in c:
                if a[0] == "lt" and sym in a[1:]:
                    y = a[2] if a[1] == sym else a[1]
                    # m < y (b: taken, v == y), or not y < m
                    up = b if a[1] == sym else not b
                    if x is not None or contains(y, sym) or (v != y if up else v != sym):
                        return None
                    x = y
                    hit = True
                else:
                    keep.append((a, b))
            if x is None and v != sym:
                if v[0] == "max" and sym in v[1]:
                    out.append((tuple(keep), tuple(y for y in v[1] if y != sym)))
                    continue
                return None
            if x is not None and (tuple(keep), (x,)) not in out:
                out.append((tuple(keep), (x,)))
        return tuple(out) if hit else None

    def bind_elem(self, v, key, it, st):
        """The element of the loop is a bound variable of the closed form."""
        n = sum(1 for x in st.loops if x == it)
        m = {("elem", it, n): ("elem", it, "b"), ("pos", it, n): ("pos", it, "b")}
        if key[0] == "l" and isinstance(v, tuple):
            return tuple(i if i[0] != "each" or i[1] != it else ("each", it, subst(i[2], m)) for i in v)
        if key[0] == "D":
            return ("dictval", tuple(("dfold", it, subst(b[2], m)) if b[0] == "dfold" and b[1] == it else b for b in v[1]), v[2])
        if isinstance(v, tuple) and v and v[0] == "join" and v[1] == C("") and isinstance(v[2], tuple) and v[2][0] == "list":
            return v[:2] + (("list", self.bind_elem(v[2][1], ("l",), it, st)),)
        if isinstance(v, tuple) and v and v[0] in ("sumover", "maxover", "lastof", "fold") and v[2] == it:
            return v[:3] + (subst(v[3], m),)
        return v

    def appended(self, v, sym):
        """v = sym + a + b ...  ->  (a, b, ...)"""
        if v is None:
            return None
        if v == sym:
            return ()
        if v[0] == "add" and v[1] is not None:
            x = self.appended(v[1], sym)
            return None if x is None else x + (v[2],)
        if v[0] == "str" and v[1] and v[1][0] == sym:
            return tuple(v[1][1:])
        return None

    def linear_delta(self, v, sym):
        """v = sym + d  ->  d"""
        if v == sym:
            return C(0)
        if v[0] == "add":
            for i in (1, 2):
                d = self.linear_delta(v[i], sym) if contains(v[i], sym) else None
                if d is not None and not contains(v[3 - i], sym):
                    return v[3 - i] if d == C(0) else ("add", d, v[3 - i])
        if v[0] == "sub" and contains(v[1], sym) and not contains(v[2], sym):
            d = self.linear_delta(v[1], sym)
            if d is not None:
                return ("neg", v[2]) if d == C(0) else ("sub", d, v[2])
        return None

    def s_While(self, n, st, fid):
        it = ("while", 1 + sum(1 for e in st.events if e.kind == "loop" and e.c == "while") + len(st.loops))
        loop = self.generic_loop if self.peel is None else self.peeled_loop
        return loop(
            it, None, st, fid, None, lambda s: self.block(n.body, s, fid), n.orelse,
            self.loc(n, fid), test=lambda s: self.cond(n.test, s, fid))

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fid):
        """-> [(state, bool)]"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [(st, is_and)]
            out = []
            for x in e.values:
                nxt = []
                for s, _ in cur:
                    for s2, b in self.cond(x, s, fid):
                        if s2.exc is not None or b != is_and:
                            out.append((s2, b))
                        else:
                            nxt.append((s2, b))
                cur = nxt
            return out + cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b if s.exc is None else b) for s, b in self.cond(e.operand, st, fid)]
        out = []
        for s, v in self.ev(e, st, fid):
            if s.exc is not None:
                out.append((s, False))
            else:
                out += self.truth(v, s)
        return out

    def truth(self, v, st):
        k = v[0]
        if k == "c":
            return [(st, bool(cval(v)))]
        if k == "tup":
            return [(st, bool(v[1]))]
        if k in ("fn", "bm", "cls", "mod", "partial", "ext", "bmb", "gdict", "re"):
            return [(st, True)]
        if k == "ref":
            o = st.heap[v[1]]
            if o.kind == "inst":
                if o.cls is None or (o.cls.find("__bool__") is None and o.cls.find("__len__") is None):
                    return [(st, True)]
            elif o.kind == "dict":
                if o.attrs:
                    return [(st, True)]
                if not o.base:
                    return [(st, False)]
            else:
                if any(i[0] == "i" for i in o.items):
                    return [(st, True)]
                if not o.items:
                    return [(st, False)]
            return self.fork(("truthy", self.freeze(v, st)), st)
        if k == "str":
            if any(is_const(p) and cval(p) for p in v[1]):
                return [(st, True)]
        if k == "atom":
            return self.fork(v[1], st)
        if k == "natom":
            return [(s, not b) for s, b in self.fork(v[1], st)]
        if k == "notv":
            return [(s, not b) for s, b in self.truth(v[1], st)]
        if k == "anyof":  # disjunction of atoms
            out = []
            cur = [st]
            for a in v[1]:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(a, s):
                        (out if b else nxt).append((s2, True) if b else s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if k == "call" and v[1] == ("ext", "builtins.len"):
            return self.truth_atom(("truthy", v[2][0]), st)
        if is_match(v) or k == "rgroup" and not regex.group_nullable(match_pattern(v[1]), v[2]):
            return [(s, not b) for s, b in self.fork(("isnone", v), st)]
        c = self.typeof(v, st)
        if c is not None and c.find("__bool__") is None and c.find("__len__") is None:
            if v[0] == "p" and v[1] == "self":
                return [(st, True)]
            return [(s, not b) for s, b in self.fork(("isnone", v), st)]
        return self.truth_atom(("truthy", v), st)

    def truth_atom(self, a, st):
        return self.fork(a, st)

    def fork(self, atom, st):
        d = decide(atom, st.conds, self, st)
        if d is not None:
            return [(st, d)]
        a = st.copy()
        a.conds[atom] = True
        b = st
        b.conds[atom] = False
        return [(a, True), (b, False)]

    def assume_all(self, conds, st):
        for a, v in conds:
            d = decide(a, st.conds, self, st)
            if d is None:
                st.conds[a] = v
            elif d != v:
                return False
        return True

    # ------------------------------------------------------------ types
    def typeof(self, v, st):
        if v[0] == "ref":
            return st.heap[v[1]].cls
        t = self.types.get(v)
        if t is not None:
            return t
        if st is not None:
            for a, b in st.conds.items():
                if b and a[0] == "isinst" and a[1] == v:
                    c = self.prog.classes.get(a[2])
                    if c is not None:
                        return c
        if v[0] == "a":
            return self.prog.field_type(self.typeof(v[1], st), v[2])
        if v[0] == "inst":
            return self.prog.classes.get(v[1])
        if v[0] in ("getitem", "idx") and ("items", v[1]) in self.types:
            return self.types[("items", v[1])]
        if v[0] == "call" and v[1][0] == "f":
            f = self.prog.funcs.get(v[1][1])
            if f is not None and not isinstance(f.node, ast.Lambda):
                return self.prog.annotation_class(f.module, f.node.returns)
        if v[0] == "elem" and v[1][0] in self.prog.ELEM_HINTS:
            return self.prog.class_by_name.get(self.prog.ELEM_HINTS[v[1][0]])
        if v[0] == "call" and v[1][0] == "m" and v[1][2] in self.prog.METHOD_HINTS:
            c = self.prog.class_by_name.get(self.prog.METHOD_HINTS[v[1][2]])
            if c is not None:
                return c
        if v[0] == "call" and v[1][0] == "m" and len(v[1]) > 3 and v[1][3]:
            f = self.prog.funcs.get(v[1][3])
            if f is not None:
                return self.prog.annotation_class(f.module, f.node.returns)
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknowns.append((type(e).__name__, self.loc(e, fid)))
            return [(st, ("unk", type(e).__name__))]
        return m(e, st, fid)

    def ev_many(self, es, st, fid):
        cur = [(st, ())]
        out = []
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(e, s, fid):
                    if s2.exc is not None:
                        out.append((s2, None))
                    else:
                        nxt.append((s2, vs + (v,)))
            cur = nxt
        return cur + out

    def e_Constant(self, e, st, fid):
        return [(st, C(e.value))]

    def e_Name(self, e, st, fid):
        return [(st, self.lookup(e.id, st, fid))]

    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                return fr[name]
            f = self.fparent[f]
        m = self.ffunc[fid].module
        return self.global_name(m, name, st)

    def global_name(self, m, name, st):
        k = (("glob", m.name), name)
        if k in st.store:
            return st.store[k]
        r = self.prog.resolve_name(m, name)
        if r is None:
            if name in BUILTINS:
                return ("ext", "builtins." + name)
            return ("unk", "name " + name)
        return self.from_resolved(r, st)

    def from_resolved(self, r, st):
        if r[0] == "func":
            return ("fn", r[1].qual, None)
        if r[0] == "class":
            return ("cls", r[1].qual)
        if r[0] == "module":
            return ("mod", r[1].name)
        if r[0] == "ext":
            return ("ext", r[1])
        if r[0] == "assign":
            return self.static_value(r[1], r[2], r[3] if len(r) > 3 else None, st)
        return ("unk", repr(r))

    def static_value(self, m, e, name, st):
        """Value of a module or class level assignment."""
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.Tuple):
            return ("tup", tuple(self.static_value(m, x, None, st) for x in e.elts))
        if isinstance(e, (ast.List, ast.Set)):
            return ("tup", tuple(self.static_value(m, x, None, st) for x in e.elts))
        if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
            return ("gdict", tuple((self.static_value(m, k, None, st), self.static_value(m, v, None, st)) for k, v in zip(e.keys, e.values)))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return C(-e.operand.value)
        if isinstance(e, ast.BinOp):
            return self.binop(type(e.op).__name__, self.static_value(m, e.left, None, st), self.static_value(m, e.right, None, st), st)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(m, e)
            if r is not None and r[0] == "ext" and isinstance(e, ast.Name) and e.id in BUILTINS:
                return ("ext", "builtins." + e.id)
            return self.from_resolved(r, st) if r else ("unk", ast.unparse(e))
        if isinstance(e, ast.Call):
            f = self.static_value(m, e.func, None, st) if isinstance(e.func, (ast.Name, ast.Attribute)) else ("unk", "f")
            args = tuple(self.static_value(m, a, None, st) for a in e.args)
            if f == ("ext", "re.compile"):
                return ("re",) + args
            if f[0] == "fn":
                fn = self.prog.funcs.get(f[1])
                try:
                    res = self.invoke(fn, self.bind(fn, None, args, (), State())[0], None, State())
                    if len(res) == 1 and res[0][0] == "ret" and res[0][1][0] in ("c", "str", "tup"):
                        return res[0][1]
                except Exception:
                    pass
            return ("g", m.name, name) if name else ("call", f, args, (), 0)
        return ("g", m.name, name) if name else ("unk", "static")

    def e_Attribute(self, e, st, fid):
        out = []
        for s, b in self.ev(e.value, st, fid):
            if s.exc is not None:
                out.append((s, None))
            else:
                out += self.get_attr(b, e.attr, s, self.loc(e, fid))
        return out

    def get_attr(self, b, attr, st, loc=None):
        if attr in self.record_reads:
            st.emit(ev("read", b, attr, loc=loc))
        k = b[0]
        if k == "ref":
            o = st.heap[b[1]]
            if o.kind == "inst":
                if attr in o.attrs:
                    return [(st, o.attrs[attr])]
                if "__copyof__" in o.attrs and o.cls.find(attr) is None:
                    return self.get_attr(o.attrs["__copyof__"], attr, st, loc)
                return self.class_attr(o.cls, b, attr, st, loc)
            return [(st, ("bmb", b, attr))]
        if (b, attr) in st.store:
            return [(st, st.store[(b, attr)])]
        if k == "mod":
            return [(st, self.from_resolved(self.prog.resolve_dotted(b[1] + "." + attr), st))]
        if k == "ext":
            return [(st, ("ext", b[1] + "." + attr))]
        if k == "cls":
            c = self.prog.classes.get(b[1])
            if c is not None:
                f = c.find(attr)
                if f is not None:
                    if f.is_classmethod:
                        return [(st, ("bm", b, f.qual))]
                    return [(st, ("fn", f.qual, None))]
                a = self.class_assign(c, attr)
                if a is not None:
                    return [(st, self.static_value(a[0].module, a[1], None, st) if not isinstance(a[1], ast.Call) else self.cls_static(a, attr, st))]
            return [(st, ("a", b, attr))]
        if k in ("c", "str", "tup", "gdict", "range", "re", "join", "list"):
            return [(st, ("bmb", b, attr))]
        if k == "inst":
            for n, v in b[2]:
                if n == attr:
                    return [(st, v)]
        if k == "super":
            c = self.prog.classes[b[1]]
            mro = self.prog.classes[b[3]].mro() if b[3] else c.mro()
            if c in mro:
                for x in mro[mro.index(c) + 1:]:
                    if attr in x.methods:
                        return [(st, ("bm", b[2], x.methods[attr].qual))]
            return [(st, ("bmb", b, attr))]
        if attr == "__class__":
            c = self.typeof(b, st)
            return [(st, ("cls", c.qual) if c is not None and b[0] != "p" or c is not None else ("classof", b))]
        c = self.typeof(b, st)
        if c is not None:
            return self.class_attr(c, b, attr, st, loc)
        return [(st, ("a", b, attr))]

    def cls_static(self, a, attr, st):
        c, e = a
        v = self.static_value(c.module, e, None, st)
        return v if v[0] in ("re", "c", "tup") else ("a", ("cls", c.qual), attr)

    def class_assign(self, c, attr):
        for x in c.mro():
            if attr in x.assigns:
                return x, x.assigns[attr]
        return None

    def class_attr(self, c, b, attr, st, loc):
        if attr == "__class__":
            return [(st, ("cls", c.qual))]
        g = c.find(attr, "getters")
        if g is not None:
            if self.inlinable(g):
                out = []
                for o, v, s in self.invoke(g, {g.node.args.args[0].arg: b}, None, st):
                    if o == "raise":
                        s.exc = v
                        out.append((s, None))
                    else:
                        out.append((s, v))
                return out
            return [(st, ("a", b, attr))]
        f = c.find(attr)
        if f is not None:
            if f.is_static:
                return [(st, ("fn", f.qual, None))]
            if f.is_classmethod:
                return [(st, ("bm", ("cls", c.qual), f.qual))]
            over = [s.methods[attr] for s in c.all_subclasses() if attr in s.methods]
            if over and b[0] != "ref" and self.virtual(c, b):
                return [(st, ("vm", b, attr, f.qual))]
            return [(st, ("bm", b, f.qual))]
        a = self.class_assign(c, attr)
        if a is not None:
            v = self.cls_static(a, attr, st)
            return [(st, v)]
        # attribute of a mixin user or of a subclass
        subs = [s for s in c.all_subclasses() if s.find(attr) is not None or s.find(attr, "getters") is not None]
        if len(subs) == 1 and b[0] != "ref":
            return self.class_attr(subs[0], b, attr, st, loc)
        return [(st, ("a", b, attr))]

    def virtual(self, c, b):
        return b != ("p", "self") or self.types.get(b) is None or True

    def inlinable(self, f):
        if f.qual in self.opaque or f.name in self.opaque or ".".join(f.qual.split(".")[-2:]) in self.opaque:
            return False
        if self.stack.count(f.qual) >= 1:
            return False
        if self.inline_pred is not None:
            return self.inline_pred(f)
        return True

    # -- simple expressions
    def e_Tuple(self, e, st, fid):
        return self.seq(e.elts, st, fid, lambda vs, s: ("tup", vs))

    def seq(self, elts, st, fid, make):
        cur = [(st, ())]
        out = []
        for x in elts:
            nxt = []
            for s, vs in cur:
                starred = isinstance(x, ast.Starred)
                for s2, v in self.ev(x.value if starred else x, s, fid):
                    if s2.exc is not None:
                        out.append((s2, None))
                    elif starred:
                        f = self.finite(v, s2)
                        nxt.append((s2, vs + (tuple(f) if f is not None else (("*", self.freeze(v, s2)),))))
                    else:
                        nxt.append((s2, vs + (v,)))
            cur = nxt
        return [(s, make(vs, s)) for s, vs in cur] + out

    def e_List(self, e, st, fid):
        return self.seq(e.elts, st, fid, lambda vs, s: s.new(Obj("list", items=tuple(("ext", v[1]) if v[0] == "*" else ("i", v) for v in vs))))

    def e_Set(self, e, st, fid):
        return self.seq(e.elts, st, fid, lambda vs, s: s.new(Obj("set", items=tuple(("ext", v[1]) if v[0] == "*" else ("i", v) for v in vs))))

    def e_Dict(self, e, st, fid):
        cur = [(st, {}, ())]
        out = []
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, d, base in cur:
                ks = self.ev(k, s, fid) if k is not None else [(s, None)]
                for s2, kv in ks:
                    if s2.exc is not None:
                        out.append((s2, None))
                        continue
                    for s3, vv in self.ev(v, s2, fid):
                        if s3.exc is not None:
                            out.append((s3, None))
                        elif kv is None:
                            if vv[0] == "ref" and s3.heap[vv[1]].kind == "dict":
                                o = s3.heap[vv[1]]
                                nxt.append((s3, {**self.under(d, o.base, s3, o.attrs), **o.attrs}, base + o.base))
                            else:
                                nxt.append((s3, self.under(d, (vv,), s3), base + (vv,)))
                        else:
                            nxt.append((s3, {**d, kv: vv}, base))
            cur = nxt
        return [(s, s.new(Obj("dict", attrs=d, base=b))) for s, d, b in cur] + out

    def e_JoinedStr(self, e, st, fid):
        cur = [(st, ())]
        out = []
        for p in e.values:
            nxt = []
            for s, vs in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((s, vs + (C(p.value),)))
                    continue
                for s2, v in self.ev(p.value, s, fid):
                    if s2.exc is not None:
                        out.append((s2, None))
                        continue
                    if p.conversion == 114:
                        v = ("call", ("ext", "builtins.repr"), (self.freeze(v, s2),), (), 0)
                    if p.format_spec is not None:
                        v = ("fmt", v, ast.unparse(p.format_spec))
                    nxt.append((s2, vs + (v,)))
            cur = nxt
        return [(s, mkstr(tuple(self.freeze(x, s) for x in vs))) for s, vs in cur] + out

    def e_UnaryOp(self, e, st, fid):
        if isinstance(e.op, ast.Not):
            return [(s, C(not b) if s.exc is None else None) for s, b in self.cond(e.operand, st, fid)] \
                if not self.simple_not(e) else self.not_value(e, st, fid)
        out = []
        for s, v in self.ev(e.operand, st, fid):
            if s.exc is not None:
                out.append((s, None))
            elif isinstance(e.op, ast.USub):
                out.append((s, C(-cval(v)) if is_const(v) and isinstance(cval(v), (int, float)) else ("neg", v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, ("unop", type(e.op).__name__, v)))
        return out

    def simple_not(self, e):
        return False

    def not_value(self, e, st, fid):
        return []

    def e_BinOp(self, e, st, fid):
        out = []
        for s, vs in self.ev_many([e.left, e.right], st, fid):
            if s.exc is not None:
                out.append((s, None))
            else:
                out.append((s, self.binop(type(e.op).__name__, vs[0], vs[1], s)))
        return out

    def returns_list(self, qual):
        """Whether a function of the repository always returns a list that it has built."""
        memo = self.__dict__.setdefault("_returns_list", {})
        if qual not in memo:
            f = self.prog.funcs.get(qual)
            memo[qual] = f is not None and self.builds_list(f.node)
        return memo[qual]

    @staticmethod
    def builds_list(node):
        if isinstance(node, ast.Lambda):
            return isinstance(node.body, (ast.List, ast.ListComp))
        names, values = set(), []
        inner = [x for f in ast.walk(node) if f is not node and isinstance(f, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(f)]
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                return False
            if isinstance(x, ast.Return) and not any(x is y for y in inner):
                values.append(x.value)
        if not values:
            return False
        for v in values:
            if isinstance(v, ast.Name):
                names.add(v.id)
            elif not isinstance(v, (ast.List, ast.ListComp)):
                return False
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)) and names & set(x.names):
                return False
        done = {t.id for x in ast.walk(node) if isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.ListComp))
                for t in x.targets if isinstance(t, ast.Name)}
        others = [x for x in ast.walk(node) if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Store)]
        plain = [t for x in ast.walk(node) if isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.ListComp)) for t in x.targets]
        return names <= done and not any(a.arg in names for a in ast.walk(node) if isinstance(a, ast.arg)) and \
            all(any(x is t for t in plain) for x in others)

    def binop(self, op, a, b, st):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                r = {
                    "Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y,
                    "Div": lambda: x / y, "FloorDiv": lambda: x // y, "Mod": lambda: x % y,
                    "Pow": lambda: x ** y,
                }[op]()
                if not isinstance(r, (str, bytes)) or len(r) < 4000:
                    return C(r)
            except Exception:
                pass
        if op == "Add":
            if is_strish(a) or is_strish(b):
                return mkstr(concat_parts(a) + concat_parts(b))
            for x in (a, b):
                if x[0] == "ref" and st.heap[x[1]].kind == "list" or x[0] == "list" or x[0] == "call" and x[1][0] == "f" and self.returns_list(x[1][1]):
                    return st.new(Obj("list", items=self.as_items(a, st) + self.as_items(b, st)))
            if a[0] == "tup" and b[0] == "tup":
                return ("tup", a[1] + b[1])
        if op == "Mod" and is_const(a) and isinstance(cval(a), str):
            return percent_format(cval(a), b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x[0] == "ref" and st.heap[x[1]].kind == "list":
                    return st.new(Obj("list", items=(("ext", ("repeat", self.freeze(x, st), y)),)))
        if op == "BitOr" and a[0] == "ref" and st.heap[a[1]].kind == "dict":
            o = st.heap[a[1]]
            attrs, base = dict(o.attrs), o.base
            if b[0] == "ref" and st.heap[b[1]].kind == "dict":
                attrs = {**self.under(attrs, st.heap[b[1]].base, st, st.heap[b[1]].attrs), **st.heap[b[1]].attrs}
                base = base + st.heap[b[1]].base
            else:
                attrs = self.under(attrs, (b,), st)
                base = base + (b,)
            return st.new(Obj("dict", attrs=attrs, base=base))
        name = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div"}.get(op, op)
        a = self.freeze(a, st)
        b = self.freeze(b, st)
        if op == "Sub" and (a[0] in ("set", "list")):
            return ("call", ("m", a, "difference"), (b,), (), 0)
        return (name, a, b)

    def e_BoolOp(self, e, st, fid):
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in cur:
                for s2, v in self.ev(x, s, fid):
                    if s2.exc is not None or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            if v[0] in ("atom", "natom"):
                                v2 = C(b)
                            else:
                                v2 = v
                            out.append((s3, v2))
            cur = nxt
        return out

    def e_IfExp(self, e, st, fid):
        out = []
        for s, b in self.cond(e.test, st, fid):
            if s.exc is not None:
                out.append((s, None))
            else:
                out += self.ev(e.body if b else e.orelse, s, fid)
        return out

    def e_NamedExpr(self, e, st, fid):
        out = []
        for s, v in self.ev(e.value, st, fid):
            if s.exc is None:
                self.set_name(e.target.id, v, s, fid)
            out.append((s, v))
        return out

    def e_Lambda(self, e, st, fid):
        f = self.prog.func_by_node.get(e)
        if f is None:
            return [(st, ("unk", "lambda"))]
        self.fn_nodes[(f.qual, fid, e.lineno, e.col_offset)] = f
        return [(st, ("fn", f.qual, fid, (e.lineno, e.col_offset)))]

    def e_Starred(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def e_Yield(self, e, st, fid):
        self.unknowns.append(("yield expression", self.loc(e, fid)))
        return [(st, ("unk", "yield"))]

    def e_Compare(self, e, st, fid):
        out = []
        for s, vs in self.ev_many([e.left] + list(e.comparators), st, fid):
            if s.exc is not None:
                out.append((s, None))
                continue
            if len(e.ops) == 1:
                out.append((s, self.compare(e.ops[0], vs[0], vs[1], s)))
                continue
            cur = [s]
            res = []
            for i, op in enumerate(e.ops):
                nxt = []
                for x in cur:
                    for x2, b in self.truth(self.compare(op, vs[i], vs[i + 1], x), x):
                        if b:
                            nxt.append(x2)
                        else:
                            res.append((x2, FALSE))
                cur = nxt
            out += res + [(x, TRUE) for x in cur]
        return out

    def compare(self, op, a, b, st):
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b, st)
        elif isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b, st)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, st)
        else:
            if isinstance(op, (ast.Gt, ast.LtE)):
                x, y = b, a
            else:
                x, y = a, b
            neg = isinstance(op, (ast.LtE, ast.GtE))
            r = self.less(x, y, st)
        return negate(r) if neg else r

    def less(self, a, b, st):
        if is_const(a) and is_const(b):
            try:
                return C(cval(a) < cval(b))
            except TypeError:
                pass
        if a[0] == "tup" and b[0] == "tup" and all(is_const(x) for x in a[1] + b[1]):
            return C([cval(x) for x in a[1]] < [cval(x) for x in b[1]])
        a, b = self.freeze(a, st), self.freeze(b, st)
        L = ("ext", "builtins.len")
        if a in (C(0),) and b[0] == "call" and b[1] == L:
            return ("atom", ("truthy", b[2][0]))
        if b == C(1) and a[0] == "call" and a[1] == L:
            return ("natom", ("truthy", a[2][0]))
        return ("atom", ("lt", a, b))

    def identical(self, a, b, st):
        if b == NONE or a == NONE:
            x = a if b == NONE else b
            if x[0] == "c":
                return C(cval(x) is None)
            if x[0] in ("ref", "tup", "fn", "bm", "cls", "mod", "ext", "str", "partial", "gdict", "add",
                        "sub", "mul", "div", "range", "bmb", "inst", "list", "re", "atom", "natom", "exc",
                        "sumover", "join", "neg"):
                return FALSE
            if x[0] == "call" and x[1][0] == "ext" and x[1][1] in NOT_NONE:
                return FALSE
            return ("atom", ("isnone", x))
        if a[0] == "ref" and b[0] == "ref":
            return C(a == b)
        if is_const(a) and is_const(b):
            return C(cval(a) is cval(b))
        if a == b:
            return TRUE
        if a[0] == "cls" and b[0] == "cls":
            return FALSE
        x, y = sorted((self.freeze(a, st), self.freeze(b, st)), key=repr)
        return ("atom", ("is", x, y))

    def equal(self, a, b, st):
        if is_const(a) and is_const(b):
            return C(cval(a) == cval(b))
        if a == b and a[0] != "unk":
            return TRUE
        if a == NONE or b == NONE:
            return self.identical(a, b, st)
        if a[0] == "tup" and b[0] == "tup":
            if len(a[1]) != len(b[1]):
                return FALSE
            rs = [self.equal(x, y, st) for x, y in zip(a[1], b[1])]
            if all(r == TRUE for r in rs):
                return TRUE
            if any(r == FALSE for r in rs):
                return FALSE
            rs = [r for r in rs if r != TRUE]
            if len(rs) == 1:
                return rs[0]
        if a[0] == "cls" and b[0] == "cls":
            return C(a[1] == b[1])
        for x, y in ((a, b), (b, a)):
            if is_const(y):
                if x[0] == "idx" and x[2] == C(0) and isinstance(cval(y), str) and len(cval(y)) == 1:
                    return ("atom", ("startswith", x[1], y))
                if x[0] == "call" and x[1] == ("ext", "builtins.len") and cval(y) == 0:
                    return ("natom", ("truthy", x[2][0]))
                if cval(y) is True and x[0] == "atom":
                    return x
                if cval(y) is False and x[0] == "atom":
                    return negate(x)
                if x[0] == "ref" and st.heap[x[1]].kind == "inst":
                    return FALSE
                if x[0] == "str" and isinstance(cval(y), str):
                    fixed = "".join(cval(p) for p in x[1] if is_const(p) and isinstance(cval(p), str))
                    if len(fixed) > len(cval(y)):
                        return FALSE
        if a[0] == "classof" and b[0] in ("cls", "ext") or b[0] == "classof" and a[0] in ("cls", "ext"):
            return self.identical(a, b, st)  # classes compare by identity
        if a[0] == "ref" and b[0] == "ref" and all(st.heap[x[1]].kind == "list" and all(i[0] == "i" for i in st.heap[x[1]].items) for x in (a, b)):
            x, y = st.heap[a[1]].items, st.heap[b[1]].items
            if len(x) != len(y):
                return FALSE
            rs = [self.equal(i[1], j[1], st) for i, j in zip(x, y)]
            if any(r == FALSE for r in rs):
                return FALSE
            rs = [r for r in rs if r != TRUE]
            if not rs:
                return TRUE
            if len(rs) == 1:
                return rs[0]
            if all(r[0] in ("atom", "natom") for r in rs):
                return ("notv", ("anyof", tuple(negate(r) for r in rs)))
        for x, y in ((a, b), (b, a)):
            # an element of a sequence of pairs
            if y[0] == "tup" and len(y[1]) == 2 and is_const(y[1][0]) and x[0] in ("elem", "idx"):
                parts = []
                for i, z in enumerate(y[1]):
                    r = self.equal(("idx", self.freeze(x, st), C(i)), z, st)
                    if r == FALSE:
                        return FALSE
                    if r != TRUE:
                        parts.append(r)
                if all(r[0] in ("atom", "natom") for r in parts):
                    return ("notv", ("anyof", tuple(negate(r) for r in parts)))
        x, y = sorted((self.freeze(a, st), self.freeze(b, st)), key=repr)
        return ("atom", ("eq", x, y))

    def member(self, a, b, st):
        f = None
        if b[0] in ("tup", "ref", "gdict") or (b[0] == "ditems"):
            f = self.finite(b, st)
        if f is not None:
            rs = [self.equal(a, x, st) for x in f]
            if any(r == TRUE for r in rs):
                return TRUE
            rs = [r for r in rs if r != FALSE]
            if not rs:
                return FALSE
            if len(rs) == 1:
                return rs[0]
            return ("anyof", tuple(rs))
        if b[0] == "ref" and st.heap[b[1]].kind == "dict":
            o = st.heap[b[1]]
            if a in o.attrs:
                return TRUE
            return ("atom", ("in", a, self.freeze(b, st)))
        if is_const(a) and is_const(b):
            try:
                return C(cval(a) in cval(b))
            except TypeError:
                pass
        if b[0] == "bmb" and b[2] == "keys":
            b = b[1]
        return ("atom", ("in", self.freeze(a, st), self.freeze(b, st)))

    # -- subscripts
    def e_Subscript(self, e, st, fid):
        if isinstance(e.slice, ast.Slice):
            parts = [e.value] + [x if x is not None else ast.Constant(None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            out = []
            for s, vs in self.ev_many(parts, st, fid):
                if s.exc is not None:
                    out.append((s, None))
                    continue
                out.append((s, self.slice(vs[0], vs[1], vs[2], vs[3], s)))
            return out
        out = []
        if isinstance(e.slice, ast.Name):
            f = fid
            while f is not None and f in st.frames and e.slice.id not in st.frames[f]:
                f = self.fparent[f]
            at = st.frames[f].get("*at " + e.slice.id) if f is not None and f in st.frames else None
            if at is not None and at[1] == ast.unparse(e.value) and (f == fid or not isinstance(e.value, ast.Name) or e.value.id not in st.frames[fid]):
                return [(st, at[2])]
        for s, vs in self.ev_many([e.value, e.slice], st, fid):
            if s.exc is not None:
                out.append((s, None))
            else:
                out += self.get_item(vs[0], vs[1], s)
        return out

    def slice(self, v, lo, hi, step, st):
        def k(x):
            return cval(x) if is_const(x) else "?"
        ks = (k(lo), k(hi), k(step))
        if "?" not in ks:
            if v[0] == "tup":
                return ("tup", v[1][slice(*ks)])
            if is_const(v) and isinstance(cval(v), (str, bytes)):
                return C(cval(v)[slice(*ks)])
            if v[0] == "ref" and st.heap[v[1]].kind == "list":
                o = st.heap[v[1]]
                if ks == (None, None, None) or all(i[0] == "i" for i in o.items):
                    return st.new(Obj("list", items=o.items[slice(*ks)] if ks != (None, None, None) else o.items))
            if ks == (None, None, None):
                return st.new(Obj("list", items=(("ext", v),)))
            if ks == (None, None, -1):
                return ("reversed", self.freeze(v, st))
        if v[0] == "ref" and st.heap[v[1]].kind == "list" or v[0] == "list":
            return st.new(Obj("list", items=(("ext", ("slice", self.freeze(v, st), lo, hi, step)),)))
        return ("slice", self.freeze(v, st), self.freeze(lo, st), self.freeze(hi, st), step)

    def rgroup(self, m, k, st):
        """A group of a match."""
        if is_const(k):
            n = regex.number(match_pattern(m), cval(k))
            if n is not None:
                return ("rgroup", m, n)
        return ("idx", ("groups", m), self.freeze(k, st))

    def get_item(self, b, k, st):
        if is_match(b):
            return [(st, self.rgroup(b, k, st))]
        if b[0] == "tup" and is_const(k) and isinstance(cval(k), int):
            if -len(b[1]) <= cval(k) < len(b[1]):
                return [(st, b[1][cval(k)])]
        if is_const(b) and is_const(k):
            try:
                return [(st, C(cval(b)[cval(k)]))]
            except Exception:
                pass
        if b[0] == "ref":
            o = st.heap[b[1]]
            if o.kind == "dict":
                if k in o.attrs:
                    return [(st, o.attrs[k])]
                if not o.base and o.attrs and not is_const(k):
                    return self.dispatch(list(o.attrs.items()), k, st, None)
                if len(o.base) == 1 and o.base[0][0] == "groups":
                    return [(st, self.rgroup(o.base[0][1], k, st))]
                if o.base:
                    return [(st, ("idx", o.base[0] if len(o.base) == 1 else ("dicts", o.base), k))]
            elif is_const(k) and isinstance(cval(k), int) and o.items:
                i = cval(k)
                its = o.items
                if i >= 0 and all(x[0] == "i" for x in its[: i + 1]) and i < len(its):
                    return [(st, its[i][1])]
                if i < 0 and -i <= len(its) and all(x[0] == "i" for x in its[i:]):
                    return [(st, its[i][1])]
            elif is_const(k) and isinstance(cval(k), int) and o.kind == "list" and not o.items:
                st.exc = ("exc", "IndexError", ())
                return [(st, None)]
        if b[0] == "gdict":
            for kk, v in b[1]:
                if kk == k:
                    return [(st, v)]
            if not is_const(k):
                return self.dispatch(list(b[1]), k, st, None)
        key = (b, ("item", k))
        if key in st.store:
            return [(st, st.store[key])]
        if k[0] == "pos" and k[1] == b:
            return [(st, ("elem", b, k[2]))]
        return [(st, ("idx", self.freeze(b, st), self.freeze(k, st)))]

    def dispatch(self, items, k, st, default):
        """Look up a symbolic key in a dictionary with known keys."""
        if len(items) > 24:
            return [(st, ("idx", ("gdict", tuple(items)), k))]
        out = []
        cur = [st]
        for kk, v in items:
            nxt = []
            for s in cur:
                for s2, b in self.truth(self.equal(k, kk, s), s):
                    if b:
                        out.append((s2, v))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            if default is None:
                s.exc = ("exc", "KeyError", (k,))
                s.emit(ev("raise", s.exc))
                out.append((s, None))
            else:
                out.append((s, default))
        return out

    def unpack(self, v, n, st):
        if v[0] == "tup" and len(v[1]) == n:
            return list(v[1])
        if v[0] == "ref":
            o = st.heap[v[1]]
            if o.kind == "list" and len(o.items) == n and all(i[0] == "i" for i in o.items):
                return [i[1] for i in o.items]
        if is_const(v) and isinstance(cval(v), str) and len(cval(v)) == n:
            return [C(c) for c in cval(v)]
        v = self.freeze(v, st)
        return [("idx", v, C(i)) for i in range(n)]

    # -- comprehensions
    def comp(self, e, elt, st, fid, kind):
        lst = st.new(Obj(kind))
        cfid_func = self.ffunc[fid]
        cf = self.new_frame(cfid_func, fid, st, {})

        def level(i, s):
            if i == len(e.generators):
                ok, bad = self._ok(self.ev_many(list(elt), s, cf))
                r = list(bad)
                for s2, vs in ok:
                    o = s2.heap[lst[1]]
                    if kind == "dict":
                        o2 = o.copy()
                        o2.attrs[vs[0]] = vs[1]
                        s2.heap[lst[1]] = o2
                    else:
                        s2.heap[lst[1]] = o.copy(items=o.items + (("i", vs[0]),))
                    r.append((("next",), s2))
                return r
            g = e.generators[i]
            ok, out = self._ok(self.ev(g.iter, s, cf if i else cf))

            def body(s2):
                cur = [s2]
                res = []
                for c in g.ifs:
                    nxt = []
                    for x in cur:
                        for x2, b in self.cond(c, x, cf):
                            if x2.exc is not None:
                                ee, x2.exc = x2.exc, None
                                res.append((("raise", ee), x2))
                            elif b:
                                nxt.append(x2)
                            else:
                                res.append((("next",), x2))
                    cur = nxt
                for x in cur:
                    res += level(i + 1, x)
                return res

            for s2, itv in ok:
                out += self.loop_over(itv, s2, cf, lambda v, x: self.assign(g.target, v, x, cf), body, (), self.loc(e, fid))
            return out

        res = []
        for o, s in level(0, st):
            if o[0] == "raise":
                s.exc = o[1]
                res.append((s, None))
            else:
                res.append((s, lst))
        return res

    def e_ListComp(self, e, st, fid):
        return self.comp(e, (e.elt,), st, fid, "list")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fid):
        return self.comp(e, (e.elt,), st, fid, "set")

    def e_DictComp(self, e, st, fid):
        return self.comp(e, (e.key, e.value), st, fid, "dict")

    # -- calls
    def e_Call(self, e, st, fid):
        out = []
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            f = self.ffunc[fid]
            while f is not None and f.cls is None:
                f = f.parent
            if f is not None:
                a0 = f.node.args.args[0].arg
                sv = self.lookup(a0, st, fid)
                t = self.typeof(sv, st)
                return [(st, ("super", f.cls.qual, sv, t.qual if t else None))]
        for s, fv in self.ev(e.func, st, fid):
            if s.exc is not None:
                out.append((s, None))
            elif fv in (("ext", "builtins.map"), ("ext", "builtins.filter")) and len(e.args) == 2 and not e.keywords and \
                    not any(isinstance(a, ast.Starred) for a in e.args) and isinstance(e.args[0], (ast.Name, ast.Attribute, ast.Lambda, ast.Constant)):
                out += self.ev(self.as_generator(e, fv[1] == "builtins.map"), s, fid)
            else:
                out += self.ev_call_rest(e, fv, s, fid)
        return out

    def as_generator(self, e, mapped):
        """map(f, xs) and filter(f, xs) as generators."""
        if not hasattr(e, "as_generator"):
            x = ast.Name("<each>", ast.Load())
            call = x if isinstance(e.args[0], ast.Constant) and not mapped else ast.Call(e.args[0], [x], [])
            gen = ast.comprehension(ast.Name("<each>", ast.Store()), e.args[1], [] if mapped else [call], 0)
            g = ast.GeneratorExp(call if mapped else x, [gen])
            for n in ast.walk(g):
                if not hasattr(n, "lineno") and isinstance(n, ast.expr):
                    ast.copy_location(n, e)
            e.as_generator = g
        return e.as_generator

    def ev_args(self, e, st, fid):
        cur = [(st, (), ())]
        out = []
        for a in e.args:
            nxt = []
            for s, vs, kw in cur:
                starred = isinstance(a, ast.Starred)
                for s2, v in self.ev(a.value if starred else a, s, fid):
                    if s2.exc is not None:
                        out.append((s2, None))
                    elif starred:
                        f = self.finite(v, s2)
                        nxt.append((s2, vs + (tuple(f) if f is not None else (("*", self.freeze(v, s2)),)), kw))
                    else:
                        nxt.append((s2, vs + (v,), kw))
            cur = nxt
        for k in e.keywords:
            nxt = []
            for s, vs, kw in cur:
                for s2, v in self.ev(k.value, s, fid):
                    if s2.exc is not None:
                        out.append((s2, None))
                    elif k.arg is None:
                        if v[0] == "ref" and s2.heap[v[1]].kind == "dict":
                            o = s2.heap[v[1]]
                            extra = tuple((cval(kk), x) for kk, x in o.attrs.items() if is_const(kk))
                            extra += tuple(("**", b) for b in o.base)
                            nxt.append((s2, vs, kw + extra))
                        else:
                            nxt.append((s2, vs, kw + (("**", self.freeze(v, s2)),)))
                    else:
                        nxt.append((s2, vs, kw + ((k.arg, v),)))
            cur = nxt
        return [(s, (vs, kw)) for s, vs, kw in cur] + out

    def ev_call_rest(self, e, fv, st, fid):
        out = []
        for s, ak in self.ev_args(e, st, fid):
            if s.exc is not None:
                out.append((s, None))
            else:
                out += self.call(fv, ak[0], ak[1], s, self.loc(e, fid), fid)
        return out

    def callee(self, fv, st):
        """-> (Func | None, self value, closure frame)"""
        if fv[0] == "fn":
            if len(fv) > 3:
                for k, f in self.fn_nodes.items():
                    if len(k) == 4 and k[0] == fv[1] and (k[2], k[3]) == fv[3] and k[1] == fv[2]:
                        return f, None, fv[2]
            f = self.fn_nodes.get((fv[1], fv[2])) or self.prog.funcs.get(fv[1])
            return f, None, fv[2]
        if fv[0] == "bm":
            return self.prog.funcs.get(fv[2]), fv[1], None
        if fv[0] == "a":
            r = self.unique_method(fv[2])
            if r is not None:
                return r, fv[1], None
        return None, None, None

    def unique_method(self, name):
        if name in CONTAINER_METHODS or name.startswith("__"):
            return None
        owners = self.prog.method_owners.get(name, ())
        if len(owners) == 1:
            return owners[0].methods[name]
        return None

    def call(self, fv, args, kw, st, loc, fid=None):
        k = fv[0]
        if k == "partial":
            kws = dict(fv[3])
            kws.update(dict(kw)) if not any(x[0] == "**" for x in kw) else None
            return self.call(fv[1], fv[2] + tuple(args), tuple(kws.items()), st, loc, fid)
        if k == "cls":
            return self.instantiate(fv[1], args, kw, st, loc)
        if k == "ext":
            return self.call_ext(fv[1], args, kw, st, loc, fid)
        if k == "bmb":
            return self.call_builtin_method(fv[1], fv[2], args, kw, st, loc)
        if k == "vm":
            return self.opaque_call(("m", fv[1], fv[2], fv[3]), args, kw, st, loc)
        f, selfv, parent = self.callee(fv, st)
        if f is not None:
            if f.name in self.prog.WALKS and f.cls is not None and selfv is not None and len(args) == 1 and not kw and f not in self.stack:
                return self.walk_call(selfv, args[0], st, loc, fid)
            if self.inlinable(f):
                bound, err = self.bind(f, selfv, args, kw, st)
                if err:
                    st.emit(ev("bindfail", f.qual, err, loc=loc))
                    st.exc = ("exc", "TypeError", (C(err),))
                    return [(st, None)]
                tr = f.qual in self.trace or f.name in self.trace
                if tr:
                    st.emit(ev("enterfn", f.qual, selfv, tuple(bound.items()), loc=loc,
                               fargs=tuple((n, self.freeze(v, st)) for n, v in bound.items())))
                out = []
                for o, v, s in self.invoke(f, bound, parent, st):
                    if tr:
                        s.emit(ev("exitfn", f.qual, o, v, loc=loc))
                    if o == "raise":
                        s.exc = v
                        out.append((s, None))
                    else:
                        s.exc = None
                        out.append((s, v))
                return out
            tgt = ("m", selfv, f.name, f.qual) if selfv is not None else ("f", f.qual)
            return self.opaque_call(tgt, args, kw, st, loc)
        if k == "a":
            base, name = fv[1], fv[2]
            return self.call_sym_method(base, name, args, kw, st, loc)
        return self.opaque_call(("v", fv), args, kw, st, loc)

    def walk_call(self, selfv, fn, st, loc, fid):
        """A method that calls a function for every box of a subtree (conformance of the method itself is checked on its own)."""
        cur = []

        def bindf(v, s):
            cur[:] = [v]
            return [(("next",), s)]

        def bodyf(s):
            out = []
            for s2, _ in self.call(fn, (cur[0],), (), s, loc, fid):
                if s2.exc is not None:
                    e, s2.exc = s2.exc, None
                    out.append((("raise", e), s2))
                else:
                    out.append((("next",), s2))
            return out
        it = ("walk", self.freeze(selfv, st))
        out = []
        for o, s in self.loop_over(it, st, fid, bindf, bodyf, (), loc):
            if o[0] == "raise":
                s.exc = o[1]
                out.append((s, None))
            else:
                out.append((s, NONE))
        return out

    def bind(self, f, selfv, args, kw, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        args = list(args)
        if selfv is not None:
            args = [selfv] + args
        star = None
        for i, v in enumerate(args):
            if v[0] == "*":
                star = v[1]
                break
        if star is not None:
            fixed = args[:i]
        else:
            fixed = args
        if len(fixed) > len(pos):
            if not a.vararg:
                return None, "takes {} positional arguments but {} were given".format(len(pos), len(fixed))
            bound[a.vararg.arg] = ("tup", tuple(fixed[len(pos):]))
            fixed = fixed[: len(pos)]
        for n, v in zip(pos, fixed):
            bound[n] = v
        rest = pos[len(fixed):]
        if star is not None:
            for j, n in enumerate(rest):
                if n not in dict(kw):
                    bound.setdefault(n, ("idx", star, C(j)))
            if a.vararg:
                bound[a.vararg.arg] = star
        extra = {}
        unk = ()
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for n, v in kw:
            if n == "**":
                unk += (v,)
            elif n in names and n not in {x.arg for x in a.posonlyargs}:
                if n in bound and star is None:
                    return None, "multiple values for argument '{}'".format(n)
                bound[n] = v
            elif a.kwarg:
                extra[C(n)] = v
            else:
                return None, "unexpected keyword argument '{}'".format(n)
        if a.vararg and a.vararg.arg not in bound:
            bound[a.vararg.arg] = ("tup", ())
        if a.kwarg:
            bound[a.kwarg.arg] = st.new(Obj("dict", attrs=extra, base=unk))
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in bound:
                if unk:
                    d = self.static_value(f.module, defaults[n], None, st) if n in defaults else ("c", "missing", "missing")
                    bound[n] = ("kwget", unk, n, d)
                elif n in defaults:
                    bound[n] = self.default_value(f, defaults[n], st)
                else:
                    return None, "missing required argument '{}'".format(n)
        return bound, None

    def default_value(self, f, d, st):
        if isinstance(d, ast.Dict) and not d.keys:
            return ("unk", "mutable default")
        return self.static_value(f.module, d, None, st)

    def instantiate(self, qual, args, kw, st, loc):
        c = self.prog.classes.get(qual)
        if c is None or c.name in self.opaque or qual in self.opaque:
            return self.opaque_call(("new", qual), args, kw, st, loc)
        ref = st.new(Obj("inst", cls=c, site=loc))
        st.emit(ev("new", ref, c.qual, (tuple(args), tuple(kw)), loc=loc,
                   fargs=(tuple(self.freeze(x, st) for x in args), tuple((n, self.freeze(v, st)) for n, v in kw))))
        init = c.find("__init__")
        if init is None:
            return [(st, ref)]
        bound, err = self.bind(init, ref, args, kw, st)
        if err:
            st.emit(ev("bindfail", init.qual, err, loc=loc))
            st.exc = ("exc", "TypeError", (C(err),))
            return [(st, None)]
        if not self.inlinable(init):
            return [(st, ref)]
        out = []
        for o, v, s in self.invoke(init, bound, None, st):
            if o == "raise":
                s.exc = v
                out.append((s, None))
            else:
                s.exc = None
                out.append((s, ref))
        return out

    def opaque_call(self, target, args, kw, st, loc, pure=False):
        fa = tuple(self.freeze(x, st) for x in args)
        fk = tuple(sorted(((n, self.freeze(v, st)) for n, v in kw), key=repr))
        tgt = target
        if target[0] in ("m", "new"):
            tgt = (target[0], self.freeze(target[1], st) if target[0] == "m" else target[1]) + tuple(target[2:])
        if target[0] == "v":
            tgt = ("v", self.freeze(target[1], st))
        if tgt[0] == "m" and len(tgt) > 3:
            tgt3 = tgt
        else:
            tgt3 = tgt
        key = (tgt3, fa, fk)
        if self.pure and not pure:
            q = tgt3[3] if tgt3[0] == "m" and len(tgt3) > 3 else tgt3[1] if tgt3[0] in ("f", "ext", "new") else None
            pure = q is not None and (q in self.pure or q.split(".")[-1] in self.pure or ".".join(q.split(".")[-2:]) in self.pure)
        if pure:
            return [(st, ("call", tgt3 if tgt3[0] != "e" else ("ext", tgt3[1]), fa, fk, 0))]
        n = st.calls.get(key, 0)
        st.calls[key] = n + 1
        t = tgt3 if tgt3[0] != "e" else ("ext", tgt3[1])
        val = ("call", t, fa, fk, n)
        st.emit(ev("call", t, tuple(args), tuple(kw), loc=loc, ret=val, fargs=(fa, fk)))
        res = [(st, val)]
        if t[0] == "m" and t[2] in self.prog.FRESH_LISTS:
            res = [(st, st.new(Obj("list", items=(("ext", val),))))]
        if self.raises_pred is not None:
            r = self.raises_pred(t, fa, st)
            for kind in (r or ()):
                s = st.copy()  # success and failure are different partitions
                s.conds[("raises", val, kind)] = True
                s.emit(ev("raise", ("exc", kind, (val,)), loc=loc, ret="implicit"))
                s.exc = ("exc", kind, (val,))
                res.append((s, None))
            for kind in (r or ()):
                st.conds[("raises", val, kind)] = False
        return res

    def call_sym_method(self, base, name, args, kw, st, loc):
        """Method of a value of unknown class."""
        if is_match(base):
            if name == "groupdict" and not args:
                return [(st, st.new(Obj("dict", base=(("groups", base),))))]
            if name == "group" and len(args) == 1:
                return [(st, self.rgroup(base, args[0], st))]
            if name == "group" and len(args) > 1:
                return [(st, ("tup", tuple(self.rgroup(base, a, st) for a in args)))]
            if name == "groups" and not args:
                p = match_pattern(base)
                return [(st, ("tup", tuple(("rgroup", base, g) for g in regex.keys(p))))]
        if name == "difference_update" and base[0] == "a" and base[2] in SETS and len(args) == 1:
            return [(s, NONE) for o, s in self.take_away(base, args[0], st, next(iter(st.frames)), loc)]
        if name == "extend" and len(args) == 1 and base[0] in ("a", "p", "elem") and args[0][0] in ("ref", "tup"):
            return [(s, NONE) for o, s in self.take_away(base, args[0], st, next(iter(st.frames)), loc, "append")]
        if name == "discard" and base[0] == "a" and base[2] in SETS:
            name = "remove"
        if name == "write" and len(args) == 1 and args[0][0] == "call" and args[0][1] == ("ext", "json.dumps") and len(args[0][2]) == 1 and not args[0][3]:
            i = said(st.events, args[0])
            if i is not None:
                st.events = st.events[:i] + st.events[i + 1:]
            return self.call_ext("json.dump", (args[0][2][0], base), (), st, loc, next(iter(st.frames)))
        if name in MUTATORS:
            fa = tuple(self.freeze(x, st) for x in args)
            st.emit(ev("mut", base, name, tuple(args), loc=loc, fargs=(fa, kw)))
            return self.maybe_raise(("m", self.freeze(base, st), name), [(st, ("call", ("m", self.freeze(base, st), name), fa, (), self.bump(st, (base, name, fa))))], args, st, loc)
        if name in ("items", "keys", "values") and not args:
            return [(st, ("ditems", base) if name == "items" else ("dvals", base) if name == "values" else base)]
        if name == "startswith" and len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), str):
            return [(st, ("atom", ("startswith", base, args[0])))]
        if name == "get" and args and self.typeof(base, st) is None:
            key = (base, ("item", args[0]))
            if key in st.store:
                return [(st, st.store[key])]
            d = args[1] if len(args) > 1 else NONE
            return [(st, ("getitem", base, self.freeze(args[0], st), self.freeze(d, st)))]
        if name == "copy" and not args and base[0] in ("a", "p") and base[-1] in DICTS:
            return self.x_dict([base], {}, st, loc, None)
        if name == "copy" and not args:
            return [(st, ("copyof", base, self.bump(st, ("copy", base))))]
        if name in CONTAINER_METHODS and name not in ("read", "close", "set", "match", "search"):
            fa = tuple(self.freeze(x, st) for x in args)
            return [(st, ("call", ("m", self.freeze(base, st), name), fa, tuple((n, self.freeze(v, st)) for n, v in kw), 0))]
        return self.opaque_call(("m", base, name), args, kw, st, loc)

    def bump(self, st, key):
        n = st.calls.get(key, 0)
        st.calls[key] = n + 1
        return n

    def maybe_raise(self, tgt, res, args, st, loc):
        if self.raises_pred is not None:
            v = next((x for _, x in res if x is not None and x[0] == "call"), None)
            normal = list(res)
            for kind in (self.raises_pred(tgt, tuple(args), st) or ()):
                s = st.copy()
                if v is not None:  # success and failure are different partitions
                    for x, _ in normal:
                        x.conds[("raises", v, kind)] = False
                    s.conds[("raises", v, kind)] = True
                s.emit(ev("raise", ("exc", kind, ()), loc=loc, ret="implicit"))
                s.exc = ("exc", kind, ())
                res.append((s, None))
        return res

    # -- builtins
    def as_items(self, v, st):
        """List items of an iterable value."""
        if v[0] == "tup":
            return tuple(("i", x) if x[0] != "*" else ("ext", x[1]) for x in v[1])
        if v[0] == "ref":
            o = st.heap[v[1]]
            if o.kind in ("list", "set"):
                return o.items
            if o.kind == "dict" and not o.base:
                return tuple(("i", k) for k in o.attrs)
        if v[0] == "list":
            return v[1]
        f = self.finite(v, st)
        if f is not None:
            return tuple(("i", x) for x in f)
        return (("ext", self.freeze(v, st)),)

    def call_ext(self, name, args, kw, st, loc, fid):
        if name in SIGNATURES and not any(k == "**" for k, _ in kw) and not any(x[0] == "*" for x in args):
            args, kw = signature(name, args, kw)
        if name.startswith("hashlib.") and len(args) == 1 and not kw and name != "hashlib.new":
            # the first data can be given at once
            out = []
            for s, h in self.call_ext(name, (), (), st, loc, fid):
                if s.exc is not None:
                    out.append((s, h))
                    continue
                for s2, _ in self.call_sym_method(h, "update", args, (), s, loc):
                    out.append((s2, h if s2.exc is None else None))
            return out
        if name == "json.loads" and len(args) == 1 and not kw and args[0][0] == "call" and args[0][1][0] == "m" and args[0][1][2] == "read" and not args[0][2]:
            # where the text is read
            i = said(st.events, args[0])
            out = self.call_ext("json.load", (args[0][1][1],), (), st, loc, fid)
            if i is not None:
                for s, _ in out:
                    if len(s.events) > i + 1 and s.events[-1].kind == "call" and s.events[-1].a == ("ext", "json.load"):
                        s.events = s.events[:i] + s.events[-1:] + s.events[i + 1:-1]
            return out
        h = getattr(self, "x_" + name.replace("builtins.", "").replace(".", "_"), None)
        if h is not None:
            r = h(args, dict(kw) if not any(k == "**" for k, _ in kw) else {}, st, loc, fid)
            if r is not None:
                return r
        return self.opaque_call(("e", name), args, kw, st, loc, pure=name in PURE_EXT)

    def x_isinstance(self, args, kw, st, loc, fid):
        if len(args) != 2:
            return None
        v, t = args
        ts = list(t[1]) if t[0] == "tup" else [t]
        rs = []
        for x in ts:
            r = self.isinst(v, x, st)
            if r == TRUE:
                return [(st, TRUE)]
            if r != FALSE:
                rs.append(r)
        if not rs:
            return [(st, FALSE)]
        return [(st, rs[0] if len(rs) == 1 else ("anyof", tuple(rs)))]

    def isinst(self, v, t, st):
        if t[0] not in ("cls", "ext"):
            return ("atom", ("truthy", ("unk", "isinstance", self.freeze(v, st), self.freeze(t, st))))
        name = t[1].replace("builtins.", "")
        if is_const(v):
            py = {"int": int, "str": str, "float": float, "bool": bool, "bytes": bytes, "tuple": tuple, "list": list, "dict": dict}.get(name)
            return C(isinstance(cval(v), py)) if py else FALSE
        if v[0] == "tup":
            return C(name == "tuple")
        if v[0] in ("str", "join"):
            return C(name == "str")
        if v[0] in ("fn", "bm", "partial", "cls"):
            return FALSE if name in ("int", "str", "float", "list", "tuple", "dict", "bytes") else ("atom", ("isinst", v, name))
        if v[0] == "ref":
            o = st.heap[v[1]]
            if o.kind == "list":
                return C(name == "list")
            if o.kind == "dict":
                return C(name == "dict")
            if o.cls is not None:
                return C(any(c.qual == name for c in o.cls.mro()))
        c = self.typeof(v, st)
        if c is not None and any(x.qual == name for x in c.mro()):
            return TRUE
        if c is not None and name in self.prog.classes and self.prog.classes[name] not in c.all_subclasses() and name not in [x.qual for x in c.mro()]:
            return FALSE
        return ("atom", ("isinst", self.freeze(v, st), name))

    def x_len(self, args, kw, st, loc, fid):
        v = args[0]
        f = self.finite(v, st)
        if f is not None:
            return [(st, C(len(f)))]
        if is_const(v) and isinstance(cval(v), (str, bytes)):
            return [(st, C(len(cval(v))))]
        return [(st, ("call", ("ext", "builtins.len"), (self.freeze(v, st),), (), 0))]

    def x_str(self, args, kw, st, loc, fid):
        if not args:
            return [(st, C(""))]
        if is_const(args[0]):
            return [(st, C(str(cval(args[0]))))]
        if args[0][0] == "str":
            return [(st, args[0])]
        return [(st, mkstr((self.freeze(args[0], st),)))]

    def x_bool(self, args, kw, st, loc, fid):
        return [(s, C(b)) for s, b in self.truth(args[0], st)] if args else [(st, FALSE)]

    def num(self, name, fn, args, st):
        if len(args) == 1 and is_const(args[0]):
            try:
                return [(st, C(fn(cval(args[0]))))]
            except Exception:
                return None
        return None

    def x_int(self, args, kw, st, loc, fid):
        return self.num("int", int, args, st)

    def x_float(self, args, kw, st, loc, fid):
        return self.num("float", float, args, st)

    def x_abs(self, args, kw, st, loc, fid):
        return self.num("abs", abs, args, st)

    def x_tuple(self, args, kw, st, loc, fid):
        if not args:
            return [(st, ("tup", ()))]
        v = args[0]
        f = self.finite(v, st)
        if f is not None:
            return [(st, ("tup", tuple(f)))]
        return [(st, ("call", ("ext", "builtins.tuple"), (self.freeze(v, st),), (), 0))]

    def x_list(self, args, kw, st, loc, fid):
        return [(st, st.new(Obj("list", items=self.as_items(args[0], st) if args else ())))]

    def x_set(self, args, kw, st, loc, fid):
        return [(st, st.new(Obj("set", items=self.as_items(args[0], st) if args else ())))]

    def x_frozenset(self, args, kw, st, loc, fid):
        return self.x_set(args, kw, st, loc, fid)

    def x_dict(self, args, kw, st, loc, fid):
        attrs, base = {}, ()
        if args:
            v = args[0]
            if v[0] == "ref" and st.heap[v[1]].kind == "dict":
                o = st.heap[v[1]]
                attrs, base = dict(o.attrs), o.base
            else:
                base = (self.freeze(v, st),)
        for k, v in kw.items():
            attrs[C(k)] = v
        return [(st, st.new(Obj("dict", attrs=attrs, base=base)))]

    def x_range(self, args, kw, st, loc, fid):
        a = tuple(self.freeze(x, st) for x in args)
        if len(a) == 1:
            a = (C(0),) + a
        if len(a) == 3 and a[2] == C(1):
            a = a[:2]
        return [(st, ("range",) + a)]

    def x_enumerate(self, args, kw, st, loc, fid):
        return [(st, ("enumerate", args[0], args[1] if len(args) > 1 else kw.get("start", C(0))))]

    def x_zip(self, args, kw, st, loc, fid):
        return [(st, ("zip", tuple(args)))]

    def x_reversed(self, args, kw, st, loc, fid):
        f = self.finite(args[0], st)
        if f is not None:
            return [(st, ("tup", tuple(f[::-1])))]
        return [(st, ("reversed", self.freeze(args[0], st)))]

    def x_sorted(self, args, kw, st, loc, fid):
        key = self.key_term(kw.get("key"), st)
        return [(st, st.new(Obj("list", items=(("ext", ("sorted", self.freeze(args[0], st), key, kw.get("reverse", FALSE))),))))]

    def key_term(self, k, st):
        """Normal form of a sort key: the value it computes for a generic element."""
        if k is None or k == NONE:
            return NONE
        if k[0] == "call" and k[1] == ("ext", "operator.attrgetter") and len(k[2]) == 1:
            return ("a", ("elem", "key", 0), cval(k[2][0]))
        try:
            s = st.copy()
            s.events = ()
            res = self.call(k, (("elem", "key", 0),), (), s, None)
            if len(res) == 1 and res[0][0].exc is None:
                return self.freeze(res[0][1], res[0][0])
        except Limit:
            pass
        return ("unk", "key")

    def x_sum(self, args, kw, st, loc, fid):
        v = args[0]
        items = self.as_items(v, st)
        total = args[1] if len(args) > 1 else C(0)
        for i in items:
            if i[0] == "i":
                total = self.binop("Add", total, i[1], st)
            elif i[0] == "each" and all(len(vals) == 1 for _, vals in i[2]):
                total = ("sumover", total, i[1], tuple((c, vals[0]) for c, vals in i[2]))
            elif i[0] == "ext":
                total = ("sumover", total, i[1], (((), ("elem", i[1], "b")),))
            else:
                return None
        return [(st, total)]

    def minmax(self, which, args, kw, st):
        if len(args) == 1:
            items = self.as_items(args[0], st)
            if items and all(i[0] == "i" for i in items):
                args = tuple(i[1] for i in items)
            else:
                fa = self.freeze(args[0], st)
                r = (which + "of", fa)
                if "default" in kw:
                    r = r + (self.freeze(kw["default"], st),)
                if "key" in kw:
                    r = r + (("key", self.key_term(kw["key"], st)),)
                return [(st, r)]
        if kw.get("key") is not None:
            return None
        args = tuple(self.freeze(a, st) for a in args)
        if all(is_const(a) and isinstance(cval(a), (int, float)) for a in args):
            return [(st, C((max if which == "max" else min)(cval(a) for a in args)))]
        flat = []
        for a in args:
            if a[0] == which:
                flat += list(a[1])
            else:
                flat.append(a)
        if len(set(flat)) == 1:
            return [(st, flat[0])]
        return [(st, (which, tuple(sorted(set(flat), key=repr))))]

    def x_min(self, args, kw, st, loc, fid):
        return self.minmax("min", args, kw, st)

    def x_max(self, args, kw, st, loc, fid):
        return self.minmax("max", args, kw, st)

    def x_any(self, args, kw, st, loc, fid):
        return self.anyall("any", args, st)

    def x_all(self, args, kw, st, loc, fid):
        return self.anyall("all", args, st)

    def anyall(self, which, args, st):
        f = self.finite(args[0], st)
        if f is not None:
            cur = [st]
            out = []
            for v in f:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(v, s):
                        if b == (which == "any"):
                            out.append((s2, C(b)))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, C(which == "all")) for s in cur]
        items = self.as_items(args[0], st)
        if len(items) == 1 and items[0][0] in ("each", "ext"):
            it, alts = self.elements(("list", items), st)
            if all(len(vals) == 1 for _, vals in alts):
                summary, hits = [], []
                for conds, (val,) in alts:
                    s = st.copy()
                    s.events = ()
                    if not self.assume_all(conds, s):
                        continue
                    for s2, b in self.truth(val, s):
                        hit = b == (which == "any")
                        summary.append((self.new_conds(st, s2), (), ("ret", C(b)) if hit else ("next",)))
                        if hit:
                            hits.append(s2)
                v = membership(it, summary)
                if v is not None:
                    return [(s, C(b == (which == "any"))) for s, b in self.fork(("in", v, it), st)]
                lev = ev("loop", it, tuple(summary), "for")
                out = []
                for s in hits:
                    s.events = st.events + (lev, ev("iter", it))
                    out.append((s, C(which == "any")))
                st.emit(lev)
                return out + [(st, C(which == "all"))]
        return [(st, ("atom", (which, self.freeze(args[0], st))))]

    def x_divmod(self, args, kw, st, loc, fid):
        if len(args) != 2:
            return None
        return [(st, ("tup", (self.binop("FloorDiv", args[0], args[1], st), self.binop("Mod", args[0], args[1], st))))]

    def x_next(self, args, kw, st, loc, fid):
        v = args[0]
        if v[0] == "ref" and st.heap[v[1]].kind == "list":
            items = st.heap[v[1]].items
            if not items and len(args) > 1:
                return [(st, args[1])]
            if items and items[0][0] == "i":
                return [(st, items[0][1])]
            fz = self.freeze(v, st)
            return [(st, ("first", fz) + ((self.freeze(args[1], st),) if len(args) > 1 else ()))]
        return None

    def x_getattr(self, args, kw, st, loc, fid):
        if len(args) >= 2 and is_const(args[1]) and isinstance(cval(args[1]), str):
            if len(args) == 2:
                return self.get_attr(args[0], cval(args[1]), st, loc)
            cls = self.typeof(args[0], st)
            if cls is not None and (cls.find(cval(args[1])) or cls.find(cval(args[1]), "getters") or self.prog.field_type(cls, cval(args[1]))):
                return self.get_attr(args[0], cval(args[1]), st, loc)
            return [(st, ("getattr", self.freeze(args[0], st), args[1], self.freeze(args[2], st)))]
        return [(st, ("getattr", self.freeze(args[0], st), self.freeze(args[1], st)))]

    def x_setattr(self, args, kw, st, loc, fid):
        if len(args) == 3 and is_const(args[1]):
            out = []
            for o, s in self.set_attr(args[0], cval(args[1]), args[2], st, loc):
                if o[0] == "raise":
                    s.exc = o[1]
                out.append((s, NONE))
            return out
        st.emit(ev("set", args[0], ("dyn", self.freeze(args[1], st)), self.freeze(args[2], st), loc=loc))
        st.store[(args[0], ("dyn", self.freeze(args[1], st)))] = args[2]
        return [(st, NONE)]

    def x_callable(self, args, kw, st, loc, fid):
        if args[0][0] in ("fn", "bm", "partial", "cls", "ext"):
            return [(st, TRUE)]
        if args[0][0] in ("c", "str", "tup"):
            return [(st, FALSE)]
        return [(st, ("atom", ("callable", args[0])))]

    def x_type(self, args, kw, st, loc, fid):
        if len(args) == 1:
            c = self.typeof(args[0], st)
            if c is not None and args[0][0] == "ref":
                return [(st, ("cls", c.qual))]
            return [(st, ("classof", self.freeze(args[0], st)))]
        return None

    def x_functools_partial(self, args, kw, st, loc, fid):
        return [(st, ("partial", args[0], tuple(args[1:]), tuple(kw.items())))]

    def x_copy_copy(self, args, kw, st, loc, fid):
        return [(st, self.shallow(args[0], st))]

    def shallow(self, v, st):
        if v[0] == "ref":
            o = st.heap[v[1]]
            return st.new(o.copy())
        c = self.typeof(v, st)
        if c is not None:
            a = {"__copyof__": v}
            for (x, n), val in st.store.items():
                if x == v and isinstance(n, str):
                    a[n] = val
            return st.new(Obj("inst", cls=c, attrs=a, site="copy"))
        return ("copyof", v, self.bump(st, ("copy", v)))

    def x_copy_deepcopy(self, args, kw, st, loc, fid):
        return [(st, ("deepcopyof", self.freeze(args[0], st), self.bump(st, ("dcopy", args[0]))))]

    def x_re_match(self, args, kw, st, loc, fid, meth="match"):
        if len(args) != 2 or kw:
            return None
        return [(st, ("call", ("m", ("re",) + tuple(args[:1]), meth), tuple(self.freeze(a, st) for a in args[1:]), (), 0))]

    def x_re_fullmatch(self, args, kw, st, loc, fid):
        return self.x_re_match(args, kw, st, loc, fid, "fullmatch")

    def x_re_search(self, args, kw, st, loc, fid):
        return self.x_re_match(args, kw, st, loc, fid, "search")

    def x_re_compile(self, args, kw, st, loc, fid):
        return [(st, ("re",) + tuple(self.freeze(a, st) for a in args))] if not kw else None

    def x_os_path_join(self, args, kw, st, loc, fid):
        return [(st, ("path", tuple(self.freeze(a, st) for a in args)))]

    def call_builtin_method(self, b, name, args, kw, st, loc):
        """Methods of known containers, strings, tuples, ..."""
        if b[0] == "super":
            return [(st, NONE)]
        if b[0] == "ref":
            o = st.heap[b[1]]
            if o.kind in ("list", "set"):
                r = self.list_method(b, o, name, args, dict(kw), st, loc)
                if r is not None:
                    return r
            elif o.kind == "dict":
                r = self.dict_method(b, o, name, args, kw, st, loc)
                if r is not None:
                    return r
            fa = tuple(self.freeze(x, st) for x in args)
            if name in MUTATORS:
                st.emit(ev("mut", b, name, tuple(args), loc=loc, fargs=(fa, kw)))
            return [(st, ("call", ("m", self.freeze(b, st), name), fa, tuple(kw), self.bump(st, (b, name, fa)) if name in MUTATORS else 0))]
        fa = tuple(self.freeze(x, st) for x in args)
        if is_const(b) and isinstance(cval(b), str):
            if name == "format":
                r = brace_format(cval(b), fa, {k: self.freeze(v, st) for k, v in kw})
                if r is not None:
                    return [(st, r)]
            if name == "join":
                items = self.as_items(args[0], st)
                if all(i[0] == "i" for i in items):
                    parts = []
                    for j, i in enumerate(items):
                        if j:
                            parts.append(b)
                        parts.append(i[1])
                    return [(st, mkstr(tuple(parts)))]
                return [(st, ("join", b, self.freeze(args[0], st)))]
            if all(is_const(a) for a in fa) and not kw:
                try:
                    r = getattr(cval(b), name)(*[cval(a) for a in fa])
                    if isinstance(r, (str, int, bool, bytes)):
                        return [(st, C(r))]
                    if isinstance(r, list):
                        return [(st, st.new(Obj("list", items=tuple(("i", C(x)) for x in r))))]
                except Exception:
                    pass
        if b[0] == "gdict":
            if name == "get":
                d = args[1] if len(args) > 1 else NONE
                for kk, v in b[1]:
                    if kk == args[0]:
                        return [(st, v)]
                if is_const(args[0]):
                    return [(st, d)]
                return self.dispatch(list(b[1]), args[0], st, d)
            if name == "items":
                return [(st, ("ditems", b))]
            if name == "keys":
                return [(st, ("tup", tuple(k for k, _ in b[1])))]
            if name == "values":
                return [(st, ("tup", tuple(v for _, v in b[1])))]
            if name == "copy":
                return [(st, st.new(Obj("dict", attrs=dict(b[1]))))]
        if b[0] in ("str", "join", "c") and name == "startswith" and len(fa) == 1:
            if b[0] == "str" and is_const(b[1][0]) and is_const(fa[0]) and isinstance(cval(b[1][0]), str) and len(cval(b[1][0])) >= len(cval(fa[0])):
                return [(st, C(cval(b[1][0]).startswith(cval(fa[0]))))]
            return [(st, ("atom", ("startswith", b, fa[0])))]
        return [(st, ("call", ("m", b, name), fa, tuple((n, self.freeze(v, st)) for n, v in kw), 0))]

    def list_method(self, b, o, name, args, kw, st, loc):
        def put(items, ret=NONE):
            st.emit(ev("mut", b, name, tuple(args), loc=loc, fargs=(tuple(self.freeze(x, st) for x in args), ())))
            st.heap[b[1]] = o.copy(items=items)
            return [(st, ret)]
        if name in ("append", "add"):
            return put(o.items + (("i", args[0]),))
        if name in ("extend", "update"):
            items = o.items
            for a in args:
                items = items + self.as_items(a, st)
            return put(items)
        if name == "insert" and args[0] == C(0):
            return put((("i", args[1]),) + o.items)
        if name == "insert":
            return put((("ext", ("inserted", self.freeze(b, st), self.freeze(args[0], st), self.freeze(args[1], st))),))
        if name == "clear":
            return put(())
        if name == "copy":
            return [(st, st.new(o.copy()))]
        if name == "reverse":
            if all(i[0] == "i" for i in o.items):
                return put(tuple(reversed(o.items)))
            return put((("ext", ("reversed", self.freeze(b, st))),))
        if name == "sort":
            key = self.key_term(kw.get("key"), st)
            return put((("ext", ("sorted", self.freeze(b, st), key, kw.get("reverse", FALSE))),))
        if name == "pop":
            if (not args or args[0] == C(-1)) and o.items and o.items[-1][0] == "i":
                return put(o.items[:-1], o.items[-1][1])
            if args and args[0] == C(0) and o.items and o.items[0][0] == "i":
                return put(o.items[1:], o.items[0][1])
            if not o.items and o.kind == "list":
                st.exc = ("exc", "IndexError", ())
                return [(st, None)]
            fz = self.freeze(b, st)
            n = self.bump(st, ("pop", fz))
            return put((("ext", ("popped", fz, n)),), ("pop", fz, n))
        if name in ("remove", "discard"):
            return put((("ext", ("removed", self.freeze(b, st), self.freeze(args[0], st))),))
        if name in ("difference", "union", "intersection", "index", "count"):
            return [(st, ("call", ("m", self.freeze(b, st), name), tuple(self.freeze(a, st) for a in args), (), 0))]
        return None

    def under(self, attrs, bases, st, more=()):
        """Entries of a dictionary that an unknown one is put over."""
        if not bases:
            return dict(attrs)
        bases = tuple(self.freeze(b, st) for b in bases)
        over = bases[0] if len(bases) == 1 else ("dicts", bases)
        return {k: v if k in more else ("getitem", over, k, v if v[0] == "fn" else self.freeze(v, st)) for k, v in attrs.items()}

    def dict_method(self, b, o, name, args, kw, st, loc):
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            if args[0] in o.attrs:
                return [(st, o.attrs[args[0]])]
            if not o.base and (is_const(args[0]) or not o.attrs):
                return [(st, d)]
            if not o.base:
                return self.dispatch(list(o.attrs.items()), args[0], st, d)
            if len(o.base) == 1 and o.base[0][0] == "groups" and is_const(args[0]):
                if regex.number(match_pattern(o.base[0][1]), cval(args[0])) is not None:
                    return [(st, self.rgroup(o.base[0][1], args[0], st))]
                return [(st, d)]
            return [(st, ("getitem", o.base[0] if len(o.base) == 1 else ("dicts", o.base), self.freeze(args[0], st), self.freeze(d, st)))]
        if name == "setdefault":
            if args[0] in o.attrs:
                return [(st, o.attrs[args[0]])]
            o2 = o.copy()
            d = args[1] if len(args) > 1 else NONE
            v = o2.attrs[args[0]] = self.under({args[0]: d}, o.base, st)[args[0]]
            st.heap[b[1]] = o2
            st.emit(ev("mut", b, name, tuple(args), loc=loc))
            return [(st, v)]
        if name == "update":
            o2 = o.copy()
            for a in args:
                if a[0] == "ref" and st.heap[a[1]].kind == "dict":
                    x = st.heap[a[1]]
                    o2.attrs = {**self.under(o2.attrs, x.base, st, x.attrs), **x.attrs}
                    o2.base = o2.base + x.base
                else:
                    o2.attrs = self.under(o2.attrs, (a,), st)
                    o2.base = o2.base + (self.freeze(a, st),)
            for k, v in kw:
                if k == "**":
                    o2.attrs = self.under(o2.attrs, (v,), st)
                    o2.base = o2.base + (v,)
                else:
                    o2.attrs[C(k)] = v
            st.heap[b[1]] = o2
            st.emit(ev("mut", b, name, tuple(args), loc=loc))
            return [(st, NONE)]
        if name == "copy":
            return [(st, st.new(o.copy()))]
        if name == "items":
            return [(st, ("ditems", b))]
        if name == "values":
            return [(st, ("dvals", b))]
        if name == "keys":
            return [(st, b)]
        if name == "pop":
            o2 = o.copy()
            v = o2.attrs.pop(args[0], None)
            st.heap[b[1]] = o2
            st.emit(ev("mut", b, name, tuple(args), loc=loc))
            return [(st, v if v is not None else ("popitem", o.base, self.freeze(args[0], st), self.freeze(args[1], st) if len(args) > 1 else NONE))]
        return None

    # ------------------------------------------------------------ freezing
    def freeze(self, v, st, depth=0):
        """Structural, immutable form of a value (heap objects are expanded)."""
        if v is None:
            return None
        k = v[0]
        if k in ("c", "p", "ext", "cls", "mod", "fn", "lv", "lvl"):
            return v
        if depth > 12:
            return ("deep",)
        if k == "ref":
            o = st.heap.get(v[1])
            if o is None:
                return v
            if o.kind in ("list", "set"):
                if len(o.items) == 1 and o.items[0][0] == "ext" and o.kind == "list" and o.items[0][1][0] in ("p", "a", "sorted", "call"):
                    return ("list", ((o.items[0][0], self.freeze(o.items[0][1], st, depth + 1)),))
                return (o.kind, tuple(self.freeze_item(i, st, depth) for i in o.items))
            if o.kind == "dict":
                return ("dict", tuple(sorted(((self.freeze(a, st, depth + 1), self.freeze(b, st, depth + 1)) for a, b in o.attrs.items()), key=repr)),
                        tuple(self.freeze(b, st, depth + 1) for b in o.base))
            if o.cls is not None and depth < 6 and o.cls.name in ("Rect", "LazyValue", "LazyPoint", "TextStyle", "ShowInfo", "SizeValue", "PosValue"):
                src = o.attrs.get("__copyof__")
                return ("inst", o.cls.qual, tuple(sorted(((a, self.freeze(x, st, depth + 1)) for a, x in o.attrs.items() if src is None or x != ("a", src, a)), key=repr)))
            return v
        if k in ("a",):
            return (k, self.freeze(v[1], st, depth + 1)) + v[2:]
        if k in ("tup",):
            return ("tup", tuple(self.freeze(x, st, depth + 1) for x in v[1]))
        if has_ref(v):
            return tuple(self.freeze(x, st, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                         (tuple(self.freeze(y, st, depth + 1) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x)
                         for x in v)
        return v

    def freeze_item(self, i, st, depth):
        if i[0] in ("i", "ext"):
            return (i[0], self.freeze(i[1], st, depth + 1))
        if i[0] == "each":
            return ("each", self.freeze(i[1], st, depth + 1), tuple((c, tuple(self.freeze(x, st, depth + 1) for x in vals)) for c, vals in i[2]))
        return i


def has_ref(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "ref" and isinstance(v[1], int):
            return True
        return any(has_ref(x) for x in v)
    return False


def walk_stmts(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def is_strish(v):
    return v[0] in ("str", "join") or (v[0] == "c" and isinstance(v[2], str))


def concat_parts(v):
    """Operands of a chain of + that is known to be a string."""
    if v[0] == "add":
        return concat_parts(v[1]) + concat_parts(v[2])
    return (v,)


def mkstr(parts):
    """Normal form of a string concatenation."""
    out = []
    for p in parts:
        if p[0] == "str":
            ps = list(p[1])
        else:
            ps = [p]
        for q in ps:
            if q[0] == "c" and not isinstance(q[2], bytes):
                q = C(str(q[2]))
                if q[2] == "":
                    continue
                if out and out[-1][0] == "c":
                    out[-1] = C(out[-1][2] + q[2])
                    continue
            out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and out[0][0] == "c":
        return out[0]
    return ("str", tuple(out))


def brace_format(fmt, args, kw):
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            head = field
            attrs = []
            for i, ch in enumerate(field):
                if ch in ".[":
                    head = field[:i]
                    attrs = field[i + 1:].split(".") if ch == "." else None
                    break
            if attrs is None:
                return None
            if head == "":
                if auto >= len(args):
                    return None
                v = args[auto]
                auto += 1
            elif head.isdigit():
                v = args[int(head)]
            else:
                v = kw[head]
            for a in attrs:
                v = ("a", v, a)
            if v[0] == "*":
                return None
            if conv == "r":
                v = ("call", ("ext", "builtins.repr"), (v,), (), 0)
            if spec:
                v = ("fmt", v, spec)
            parts.append(v)
    except (KeyError, IndexError, ValueError):
        return None
    return mkstr(tuple(parts))


def percent_format(fmt, v):
    args = list(v[1]) if v[0] == "tup" else [v]
    parts = []
    i = 0
    buf = ""
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            if fmt[i + 1] == "%":
                buf += "%"
                i += 2
                continue
            if fmt[i + 1] in "sd" and args:
                parts.append(C(buf))
                buf = ""
                parts.append(args.pop(0))
                i += 2
                continue
            return ("Mod", C(fmt), v)
        buf += fmt[i]
        i += 1
    parts.append(C(buf))
    return mkstr(tuple(parts))


def negate(v):
    if v[0] == "c":
        return C(not v[2])
    if v[0] == "atom":
        return ("natom", v[1])
    if v[0] == "natom":
        return ("atom", v[1])
    return ("notv", v)


# ---------------------------------------------------------------- deciding atoms
_EXCL = [{"str"}, {"int", "bool", "float"}, {"tuple"}, {"list"}, {"dict"}, {"bytes"}]


def is_match(v):
    return v[0] == "call" and v[1][0] == "m" and v[1][1][0] == "re" and v[1][2] in ("match", "fullmatch", "search") and match_pattern(v) is not None


def match_pattern(v):
    r = v[1][1]
    return cval(r[1]) if len(r) == 2 and is_const(r[1]) and isinstance(cval(r[1]), str) else None


def membership(it, summary):
    """The value that a loop without effects looks for: it ends early exactly when an element equals the value."""
    ends = [x for x in summary if x[2][0] not in ("next", "cont")]
    rest = [x for x in summary if x[2][0] in ("next", "cont")]
    if len(ends) != 1 or len(rest) != 1 or any(x[1] for x in summary) or len(ends[0][0]) != 1 or len(rest[0][0]) != 1:
        return None
    (a, b), (c, d) = ends[0][0][0], rest[0][0][0]
    if a != c or not b or d or a[0] != "eq" or ends[0][2][0] not in ("ret", "brk", "raise"):
        return None

    def inside(t):
        return bool(find_terms(t, lambda x: x[0] in ("elem", "pos") and len(x) > 1 and x[1] == it))
    sides = [x for x in a[1:] if x[0] == "elem" and x[1] == it]
    other = [x for x in a[1:] if not inside(x)]
    return other[0] if len(sides) == 1 and len(other) == 1 and not inside(ends[0][2]) else None


def signature(name, args, kw):
    """Arguments of a library function: the first ones by position, the others by name, without the ones that are as by default."""
    count, names, defaults = SIGNATURES[name]
    if len(args) > len(names):
        return args, kw
    given = dict(zip(names, args))
    given.update(dict(kw))
    pos = []
    for x in names[:count]:
        if x in given:
            pos.append(given.pop(x))
        elif x in defaults:
            pos.append(C(defaults[x]))
        else:
            return args, kw
    return tuple(pos), tuple(sorted((k, v) for k, v in given.items() if not (k in defaults and v == C(defaults[k]))))


def decide_group(v, conds):
    """Is a group known to be captured (False) or not (True)?"""
    m, g = v[1], v[2]
    p = match_pattern(m)
    if p is None:
        return None
    none = {g}
    for a, b in conds.items():
        if a[0] in ("isnone", "truthy") and a[1][0] == "rgroup" and a[1][1] == m and a[1][2] != g:
            present = b is False if a[0] == "isnone" else b is True
            if present and regex.exclusive(p, a[1][2], g):
                return True
            if a[0] == "isnone" and b is True:
                none.add(a[1][2])
    if regex.covered(p, frozenset(none)):
        return False
    return None


SIBLINGS = ("marko.inline.", "marko.block.")  # library modules whose classes are not derived from each other


def decide(atom, conds, eng=None, st=None):
    """Truth of an atom implied by the atoms already known, or None."""
    if atom in conds:
        return conds[atom]
    k = atom[0]
    v = atom[1]
    if k == "more":
        i = cval(atom[2])
        for a, b in conds.items():
            if a[0] == "more" and a[1] == v and (b and cval(a[2]) >= i or not b and cval(a[2]) <= i):
                return b
        return conds.get(("truthy", v)) if i == 0 or conds.get(("truthy", v)) is False else None
    if k == "truthy":
        for a, b in conds.items():
            if a[0] == "more" and a[1] == v and (b or a[2] == C(0)):
                return b
        if v[0] == "notv":
            r = decide_value(v[1], conds, eng, st)
            return None if r is None else not r
        r = decide_value(v, conds, eng, st)
        if r is not None:
            return r
        if conds.get(("isnone", v)) is True:
            return False
        for a, b in conds.items():
            if b and a[0] == "eq" and v in a[1:]:
                o = a[2] if a[1] == v else a[1]
                if is_const(o):
                    return bool(o[2])
            if b and a[0] == "startswith" and a[1] == v and is_const(a[2]) and a[2][2]:
                return True
            if not b and a[0] == "eq" and v in a[1:] and C("") in a[1:] and v[0] == "idx" and v[2] == C(1) and \
                    any(y and e[0] == "eq" and C("text") in e[1:] and ("idx", v[1], C(0)) in e[1:] for e, y in conds.items()):
                return True  # the text of a token is a string
            if b and a[0] == "isinst" and a[1] == v and eng is not None and a[2] in eng.prog.classes:
                c = eng.prog.classes[a[2]]
                if c.find("__bool__") is None and c.find("__len__") is None:
                    return True
    elif k == "isnone":
        if v[0] == "rgroup":
            r = decide_group(v, conds)
            if r is not None:
                return r
        for a, b in conds.items():
            if not b:
                continue
            if a[0] in ("truthy", "startswith", "callable", "isinst") and a[1] == v:
                return False
            if a[0] == "eq" and v in a[1:]:
                o = a[2] if a[1] == v else a[1]
                if is_const(o):
                    return o[2] is None
            if a[0] == "lt" and v in a[1:]:
                return False
    elif k == "is":
        x, y = atom[1], atom[2]
        for p, q in ((x, y), (y, x)):
            if p[0] == "classof" and q[0] in ("cls", "ext"):
                for a, b in conds.items():
                    if a[0] == "is" and b and p in a[1:]:
                        o = a[2] if a[1] == p else a[1]
                        if o[0] == q[0] and o[1] != q[1]:
                            return False
    elif k == "eq":
        x, y = atom[1], atom[2]
        for p, q in ((x, y), (y, x)):
            if is_const(q):
                if q[2] is not None and conds.get(("isnone", p)) is True:
                    return False
                if bool(q[2]) and conds.get(("truthy", p)) is False:
                    return False
                if not bool(q[2]) and conds.get(("truthy", p)) is True:
                    return False
                for a, b in conds.items():
                    if a[0] == "eq" and b and p in a[1:]:
                        o = a[2] if a[1] == p else a[1]
                        if is_const(o):
                            return o[2] == q[2]
                    if a[0] == "isinst" and b and a[1] == p and not isinst_const(q, a[2]):
                        return False
                if isinstance(q[2], (int, float)) and not isinstance(q[2], bool):
                    lo, hi = bounds(p, conds)
                    if lo is not None and (q[2] < lo[0] or (q[2] == lo[0] and lo[1])):
                        return False
                    if hi is not None and (q[2] > hi[0] or (q[2] == hi[0] and hi[1])):
                        return False
    elif k == "lt":
        x, y = atom[1], atom[2]
        if x == y:
            return False
        if conds.get(("lt", y, x)) is True:
            return False
        if is_const(y) and isinstance(y[2], (int, float)):
            lo, hi = bounds(x, conds)
            if hi is not None and (hi[0] < y[2] or (hi[0] == y[2] and hi[1])):
                return True
            if lo is not None and lo[0] >= y[2]:
                return False
        if is_const(x) and isinstance(x[2], (int, float)):
            lo, hi = bounds(y, conds)
            if lo is not None and (lo[0] > x[2] or (lo[0] == x[2] and lo[1])):
                return True
            if hi is not None and hi[0] <= x[2]:
                return False
    elif k == "isinst":
        if conds.get(("isnone", v)) is True:
            return False
        t = atom[2]
        for a, b in conds.items():
            if a[0] == "isinst" and a[1] == v and b:
                u = a[2]
                if u == "bool" and t == "int":
                    return True
                for s in _EXCL:
                    if u in s and (t not in s) and any(t in z for z in _EXCL):
                        return False
                if u == "float" and t == "int" or u == "int" and t == "float":
                    return False
                if u != t and any(u.startswith(z) and t.startswith(z) for z in SIBLINGS) and "Element" not in u + t:
                    return False
                inprog = eng is not None and eng.prog.classes
                if inprog:
                    cu, ct = eng.prog.classes.get(u), eng.prog.classes.get(t)
                    prim = set().union(*_EXCL)
                    if (cu is not None and t in prim) or (ct is not None and u in prim):
                        return False
                    if cu is not None and ct is not None:
                        if ct in cu.mro():
                            return True
                        if ct not in cu.all_subclasses():
                            return False
            if a[0] == "eq" and b and v in a[1:]:
                o = a[2] if a[1] == v else a[1]
                if is_const(o):
                    return isinst_const(o, t)
    elif k == "startswith":
        if conds.get(("truthy", v)) is False or conds.get(("isnone", v)) is True:
            return False
        for a, b in conds.items():
            if a[0] == "eq" and b and v in a[1:]:
                o = a[2] if a[1] == v else a[1]
                if is_const(o) and isinstance(o[2], str) and is_const(atom[2]):
                    return o[2].startswith(atom[2][2])
    elif k == "in":
        if conds.get(("truthy", atom[2])) is False:
            return False
    return None


def isinst_const(c, t):
    py = {"int": int, "str": str, "float": float, "bool": bool, "bytes": bytes, "tuple": tuple, "list": list, "dict": dict}.get(t)
    return isinstance(c[2], py) if py else False


def bounds(t, conds):
    lo = hi = None
    for a, b in conds.items():
        if a[0] == "lt" and t in a[1:]:
            x, y = a[1], a[2]
            if x == t and is_const(y) and isinstance(y[2], (int, float)):
                if b:
                    if hi is None or y[2] <= hi[0]:
                        hi = (y[2], True)
                elif lo is None or y[2] > lo[0]:
                    lo = (y[2], False)
            elif y == t and is_const(x) and isinstance(x[2], (int, float)):
                if b:
                    if lo is None or x[2] >= lo[0]:
                        lo = (x[2], True)
                elif hi is None or x[2] < hi[0]:
                    hi = (x[2], False)
        elif a[0] == "eq" and b and t in a[1:]:
            o = a[2] if a[1] == t else a[1]
            if is_const(o) and isinstance(o[2], (int, float)):
                lo = hi = (o[2], False)
    return lo, hi


def decide_value(v, conds, eng, st):
    if v[0] == "c":
        return bool(v[2])
    if v[0] == "call" and v[1][0] == "m" and v[1][2] == "split" and v[2] and is_const(v[2][0]) and cval(v[2][0]):
        return True  # splitting at a separator gives at least one part
    if v[0] == "list":
        if any(i[0] == "i" for i in v[1]):
            return True
        for i in v[1]:
            if i[0] == "ext" and decide_value(i[1], conds, eng, st):
                return True
            if i[0] == "each" and isinstance(i[2], tuple) and i[2] and decide(("truthy", i[1]), conds, eng, st):
                if i[2][0] == "leaf" and i[2][1] or len(i[2]) == 1 and len(i[2][0]) == 2 and not i[2][0][0] and i[2][0][1]:
                    return True
    if v[0] == "atom":
        return decide(v[1], conds, eng, st)
    if v[0] == "natom":
        r = decide(v[1], conds, eng, st)
        return None if r is None else not r
    return None
