#!/usr/bin/env python3
"""Measure a check: equivalent rewrites of the analysed functions must stay quiet, faults should be reported.

mutate.py PROP [--only eq|bug] [--funcs substr] : functions taken from the evidence of the property.
"""
import ast, copy, importlib, os, shutil, sys, tempfile, time, traceback, io, contextlib
from multiprocessing import Pool
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
SA = os.path.join(os.path.dirname(HERE), "sa")
sys.path.insert(0, SA)
sys.setrecursionlimit(20000)
import framework  # noqa

REPO = "/repo"
HELP = [0]


def names_loaded(nodes):
    out = []
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in out:
                out.append(n.id)
    return out


def names_stored(nodes):
    out = set()
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def has(nodes, *types):
    return any(isinstance(x, types) for s in nodes for x in ast.walk(s))


def params(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


# ---- equivalent rewrites: yield (description, new function, extra module-level or class-level functions)
def eq_noop(fn):
    for stmt in ("pass", "_unused = None", "_n = 0 + 1"):
        f = copy.deepcopy(fn)
        f.body = ast.parse(stmt).body + f.body if not is_doc(f) else f.body[:1] + ast.parse(stmt).body + f.body[1:]
        yield "noop " + stmt, f, [], None
    f = copy.deepcopy(fn)
    done = False
    for n, fld, b in list(blocks(f)):
        if n is not f:
            b.insert(0, ast.parse("pass").body[0])
            done = True
    if done:
        yield "noop inside blocks", f, [], None


def is_doc(f):
    return isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and isinstance(f.body[0].value.value, str)


def eq_rename(fn):
    p = set(params(fn))
    stored = names_stored(fn.body) - p
    if any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
        return
    nested = [n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn]
    for n in ast.walk(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                stored.discard((a.asname or a.name).split(".")[0])
    inner = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            inner |= {x.arg for x in n.args.args}
    stored -= inner
    if not stored:
        return
    f = copy.deepcopy(fn)
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id in stored:
            n.id += "_r"
        elif isinstance(n, ast.FunctionDef) and n is not f and n.name in stored:
            n.name += "_r"
        elif isinstance(n, ast.ExceptHandler) and n.name in stored:
            n.name += "_r"
    yield "rename locals", f, [], None


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
        c = m.get(type(t.ops[0]))
        if c:
            return ast.Compare(t.left, [c()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def eq_if(fn):
    idx = [i for i, n in enumerate(ast.walk(fn)) if isinstance(n, ast.If)]
    for k in idx:
        f = copy.deepcopy(fn)
        n = list(ast.walk(f))[k]
        n.test = neg(n.test)
        n.body, n.orelse = (n.orelse or [ast.Pass()]), n.body
        yield "invert if @%d" % n.lineno, f, [], None
    # early return -> else
    for bi, (n0, fld, b0) in enumerate(list(blocks(fn))):
        for i, s in enumerate(b0):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b0):
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                b[i].orelse = b[i + 1:]
                del b[i + 1:]
                yield "else instead of early exit @%d" % s.lineno, f, [], None
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                rest = b[i].orelse
                b[i].orelse = []
                b[i + 1:i + 1] = rest
                yield "early exit instead of else @%d" % s.lineno, f, [], None
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                v = b[i].test.values
                b[i] = ast.If(v[0], [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), b[i].body, [])], [])
                yield "nested if for and @%d" % s.lineno, f, [], None


def eq_return(fn):
    idx = [i for i, n in enumerate(list(blocks(fn)))]
    f = copy.deepcopy(fn)
    done = False
    for n, fld, b in list(blocks(f)):
        if isinstance(b[-1], ast.Return) and b[-1].value is not None and not isinstance(b[-1].value, (ast.Name, ast.Constant)):
            r = b[-1]
            b[-1:] = [ast.Assign([ast.Name("result_", ast.Store())], r.value, lineno=0), ast.Return(ast.Name("result_", ast.Load()))]
            done = True
    if done:
        yield "return via variable", f, [], None
    # IfExp -> if statement
    for bi, (n0, fld, b0) in enumerate(list(blocks(fn))):
        for i, s in enumerate(b0):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                e = b[i].value
                s1, s2 = copy.deepcopy(b[i]), copy.deepcopy(b[i])
                s1.value, s2.value = e.body, e.orelse
                b[i] = ast.If(e.test, [s1], [s2])
                yield "if for conditional expression @%d" % s.lineno, f, [], None
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                o = b[i]
                b[i] = ast.Assign(o.body[0].targets, ast.IfExp(o.test, o.body[0].value, o.orelse[0].value), lineno=0)
                yield "conditional expression for if @%d" % s.lineno, f, [], None
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                st = b[i]
                g = st.value.generators[0]
                body = ast.Expr(ast.Call(ast.Attribute(ast.Name("acc_", ast.Load()), "append", ast.Load()), [st.value.elt], []))
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                loop = ast.For(g.target, g.iter, [body], [], lineno=0)
                st.value = ast.Name("acc_", ast.Load())
                b[i:i + 1] = [ast.Assign([ast.Name("acc_", ast.Store())], ast.List([], ast.Load()), lineno=0), loop, st]
                yield "loop for comprehension @%d" % s.lineno, f, [], None
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Attribute):
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                it = b[i].iter
                b[i].iter = ast.Name("items_", ast.Load())
                b.insert(i, ast.Assign([ast.Name("items_", ast.Store())], it, lineno=0))
                yield "alias of iterated attribute @%d" % s.lineno, f, [], None
            if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append" and i > 0 and isinstance(b0[i - 1], ast.Assign) and isinstance(b0[i - 1].value, ast.List) and not b0[i - 1].value.elts and ast.dump(b0[i-1].targets[0]).replace("Store", "Load") == ast.dump(s.body[0].value.func.value):
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                b[i - 1].value = ast.ListComp(b[i].body[0].value.args[0], [ast.comprehension(b[i].target, b[i].iter, [], 0)])
                del b[i]
                yield "comprehension for loop @%d" % s.lineno, f, [], None


def eq_temp(fn):
    """First pure argument of a call statement through a variable; augmented assignment of attributes spelled out."""
    for bi, (n0, fld, b0) in enumerate(list(blocks(fn))):
        for i, s in enumerate(b0):
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(getattr(s, "value", None), ast.Call):
                c = s.value
                if c.args and isinstance(c.args[0], (ast.BinOp, ast.Attribute, ast.Subscript)) and not has([c.args[0]], ast.Call):
                    f = copy.deepcopy(fn)
                    n, fl, b = list(blocks(f))[bi]
                    v = b[i].value.args[0]
                    b[i].value.args[0] = ast.Name("arg_", ast.Load())
                    b.insert(i, ast.Assign([ast.Name("arg_", ast.Store())], v, lineno=0))
                    yield "argument via variable @%d" % s.lineno, f, [], None
                for kw in c.keywords:
                    if kw.arg and isinstance(kw.value, (ast.BinOp, ast.Attribute, ast.Subscript)) and not has([kw.value], ast.Call):
                        f = copy.deepcopy(fn)
                        n, fl, b = list(blocks(f))[bi]
                        k2 = [k for k in b[i].value.keywords if k.arg == kw.arg][0]
                        v = k2.value
                        k2.value = ast.Name("arg_", ast.Load())
                        b.insert(i, ast.Assign([ast.Name("arg_", ast.Store())], v, lineno=0))
                        yield "keyword argument via variable @%d" % s.lineno, f, [], None
                        break
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Sub):
                f = copy.deepcopy(fn)
                n, fl, b = list(blocks(f))[bi]
                t = b[i].target
                b[i] = ast.Assign([ast.Name(t.id, ast.Store())], ast.BinOp(ast.Name(t.id, ast.Load()), b[i].op, b[i].value), lineno=0)
                yield "spelled-out augmented assignment @%d" % s.lineno, f, [], None


def eq_extract(fn, in_class, source_module):
    """Tail of a block into a helper."""
    local = set(params(fn)) | names_stored(fn.body)
    for bi, (n0, fld, b0) in enumerate(list(blocks(fn))):
        if n0 is not fn or has(b0, ast.Yield, ast.YieldFrom, ast.Nonlocal):
            continue
        start = 1 if is_doc(fn) else 0
        for i in range(start + 1, len(b0)):
            tail = b0[i:]
            if len(tail) < 2 and not isinstance(tail[0], (ast.For, ast.If, ast.With, ast.While, ast.Try)):
                continue
            # a name captured by an earlier nested function must not be assigned in the tail
            head_nested = [x for s in b0[:i] for x in ast.walk(s) if isinstance(x, (ast.FunctionDef, ast.Lambda))]
            st = names_stored(tail)
            if any(st & set(names_loaded([x])) for x in head_nested):
                continue
            need = [x for x in names_loaded(tail) if x in local and x in (set(params(fn)) | names_stored(b0[:i]))]
            if any(isinstance(x, ast.Name) and x.id == "super" for s in tail for x in ast.walk(s)) and not in_class:
                continue
            f = copy.deepcopy(fn)
            t2 = f.body[i:]
            if in_class and need and "self" in need and params(fn)[0] == "self" and not any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fn.decorator_list):
                args = [x for x in need if x != "self"]
                h = ast.FunctionDef("_extracted_part", ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in args], None, [], [], None, []), t2, [], lineno=0)
                call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_extracted_part", ast.Load()), [ast.Name(x, ast.Load()) for x in args], [])
                f.body[i:] = [ast.Return(call)]
                yield "extract method @%d" % tail[0].lineno, f, [h], "class"
            else:
                h = ast.FunctionDef("_extracted_part", ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), t2, [], lineno=0)
                call = ast.Call(ast.Name("_extracted_part", ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
                f.body[i:] = [ast.Return(call)]
                yield "extract function @%d" % tail[0].lineno, f, [h], "module"
        # body of a loop or if in the middle that assigns nothing used elsewhere
        for i, s in enumerate(b0):
            if isinstance(s, (ast.For, ast.If)) and len(s.body) >= 1 and not has(s.body, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Await):
                st = names_stored(s.body)
                others = copy.deepcopy(fn)
                o2 = others.body[i]
                o2.body = [ast.Pass()]
                if st & set(names_loaded([others])):
                    continue
                avail = set(params(fn)) | names_stored(b0[:i]) | (names_stored([ast.Assign([s.target], ast.Constant(0), lineno=0)]) if isinstance(s, ast.For) else set())
                need = [x for x in names_loaded(s.body) if x in avail]
                if st & set(need):
                    continue
                f = copy.deepcopy(fn)
                body = f.body[i].body
                if in_class and "self" in need and params(fn)[0] == "self":
                    args = [x for x in need if x != "self"]
                    h = ast.FunctionDef("_extracted_part", ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in args], None, [], [], None, []), body, [], lineno=0)
                    call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_extracted_part", ast.Load()), [ast.Name(x, ast.Load()) for x in args], [])
                    f.body[i].body = [ast.Expr(call)]
                    yield "extract body method @%d" % s.lineno, f, [h], "class"
                elif "self" not in need:
                    h = ast.FunctionDef("_extracted_part", ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), body, [], lineno=0)
                    call = ast.Call(ast.Name("_extracted_part", ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
                    f.body[i].body = [ast.Expr(call)]
                    yield "extract body function @%d" % s.lineno, f, [h], "module"


# ---- faults
SWAP_ATTR = {"width": "height", "height": "width", "x": "y", "y": "x", "p_left": "p_right", "p_right": "p_left", "p_top": "p_bottom",
             "p_bottom": "p_top", "_x": "_y", "_y": "_x", "_width": "_height", "_height": "_width", "min_size": "ratio", "begin_char": "end_char"}
SWAP_OP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}
SWAP_CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
            ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def bugs(fn):
    nodes = list(ast.walk(fn))
    ann = set()
    for n in nodes:
        if isinstance(n, ast.arg) and n.annotation is not None:
            ann |= {id(x) for x in ast.walk(n.annotation)}
    if fn.returns is not None:
        ann |= {id(x) for x in ast.walk(fn.returns)}
    for k, n in enumerate(nodes):
        if id(n) in ann:
            continue

        def at():
            f = copy.deepcopy(fn)
            return f, list(ast.walk(f))[k]
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP_OP:
            f, m = at()
            m.op = SWAP_OP[type(n.op)]()
            yield "op %s @%d" % (ast.unparse(n), ln), f
        if isinstance(n, ast.AugAssign) and type(n.op) in SWAP_OP:
            f, m = at()
            m.op = SWAP_OP[type(n.op)]()
            yield "op %s @%d" % (ast.unparse(n), ln), f
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP_CMP:
            f, m = at()
            m.ops[0] = SWAP_CMP[type(n.ops[0])]()
            yield "cmp %s @%d" % (ast.unparse(n), ln), f
        if isinstance(n, ast.BoolOp):
            f, m = at()
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield "bool %s @%d" % (ast.unparse(n), ln), f
            f, m = at()
            m.values = m.values[:-1] if len(m.values) > 2 else m.values[:1] * 2
            yield "drop operand %s @%d" % (ast.unparse(n), ln), f
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            f, m = at()
            m.value = n.value + 1
            yield "const %r+1 @%d" % (n.value, ln), f
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            f, m = at()
            m.value = not n.value
            yield "const not %r @%d" % (n.value, ln), f
        if isinstance(n, ast.Attribute) and n.attr in SWAP_ATTR:
            f, m = at()
            m.attr = SWAP_ATTR[n.attr]
            yield "attr %s @%d" % (ast.unparse(n), ln), f
        if isinstance(n, ast.Name) and n.id in SWAP_ATTR and isinstance(n.ctx, ast.Load):
            f, m = at()
            m.id = SWAP_ATTR[n.id]
            yield "name %s @%d" % (n.id, ln), f
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) :
            f, m = at()
            m.test = ast.UnaryOp(ast.Not(), m.test)
            yield "negate %s @%d" % (ast.unparse(n.test), ln), f
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            f, m = at()
            m.args[0], m.args[1] = m.args[1], m.args[0]
            yield "swap args %s @%d" % (ast.unparse(n)[:60], ln), f
        if isinstance(n, ast.Call) and n.keywords:
            for i, kw in enumerate(n.keywords):
                f, m = at()
                del m.keywords[i]
                yield "drop keyword %s %s @%d" % (kw.arg, ast.unparse(n.func)[:60], ln), f
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Pass,)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.If, ast.For, ast.Continue, ast.Break, ast.Delete, ast.Assert)):
                        f, m = at()
                        getattr(m, fld)[i] = ast.Pass()
                        yield "delete %s @%d" % (ast.unparse(s).split("\n")[0][:60], s.lineno), f
                    if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign)) and isinstance(b[i + 1], (ast.Expr, ast.Assign)):
                        f, m = at()
                        bb = getattr(m, fld)
                        bb[i], bb[i + 1] = bb[i + 1], bb[i]
                        yield "swap statements %s @%d" % (ast.unparse(s).split("\n")[0][:60], s.lineno), f
        if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            f, m = at()
            m.elts.reverse()
            yield "swap elements %s @%d" % (ast.unparse(n)[:60], ln), f
        if isinstance(n, ast.comprehension) and n.ifs:
            f, m = at()
            m.ifs = m.ifs[1:]
            yield "drop filter @%d" % fn.lineno, f


def locate(tree, qual):
    cur, parent = tree, None
    for part in qual:
        nxt = None
        for n in cur.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part:
                nxt = n
                # the last definition wins, but a property getter precedes its setter
                if isinstance(n, ast.FunctionDef):
                    break
        if nxt is None:
            return None, None
        cur, parent = nxt, cur
    return cur, parent


def find_file(qual):
    parts = qual.split(".")
    for i in range(len(parts) - 1, 0, -1):
        p = os.path.join(REPO, *parts[:i]) + ".py"
        if os.path.exists(p):
            return p, parts[i:]
    return None, None


def run_one(job):
    prop, path, qual, kind, desc, src = job
    import shutil
    d = WORK[0]
    if d is None:
        d = WORK[0] = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        shutil.copytree(REPO + "/elsie", d + "/elsie", ignore=shutil.ignore_patterns("__pycache__"))
    target = os.path.join(d, os.path.relpath(path, REPO))
    orig = open(path, encoding="utf-8").read()
    try:
        with open(target, "w", encoding="utf-8") as f:
            f.write(src)
        m = importlib.import_module("rules." + prop)
        ctx = framework.Ctx(prop, "quick", d)
        try:
            m.check(ctx)
            err = None
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e) + traceback.format_exc()[-300:]
        und = ["%s: %s" % (o[1], o[3]) for o in ctx.obligations if o[2] == "undecided"]
        return prop, qual, kind, desc, err, [v["construct"] + ": " + v["message"][:300] for v in ctx.violations], und
    finally:
        with open(target, "w", encoding="utf-8") as f:
            f.write(orig)


WORK = [None]


def jobs_for(prop, quals, only):
    for q in quals:
        path, rest = find_file(q)
        if path is None:
            continue
        text = open(path, encoding="utf-8").read()
        tree = ast.parse(text)
        fn, parent = locate(tree, rest)
        if not isinstance(fn, ast.FunctionDef):
            continue
        in_class = isinstance(parent, ast.ClassDef)

        def emit(kind, desc, f, extra, where):
            t = copy.deepcopy(tree)
            o, par = locate(t, rest)
            i = par.body.index(o)
            par.body[i] = f
            if extra:
                if where == "class":
                    par.body[i:i] = extra
                else:
                    t.body.extend(extra) if not in_class else t.body.extend(extra)
            ast.fix_missing_locations(t)
            try:
                src = ast.unparse(t)
                compile(src, "x", "exec")
            except SyntaxError:
                return None
            return (prop, path, q, kind, desc, src)
        if only in (None, "eq"):
            gens = [eq_noop(fn), eq_rename(fn), eq_if(fn), eq_return(fn), eq_temp(fn), eq_extract(fn, in_class, None)]
            for g in gens:
                for desc, f, extra, where in g:
                    j = emit("eq", desc, f, extra, where)
                    if j:
                        yield j
        if only in (None, "bug"):
            for desc, f in bugs(fn):
                j = emit("bug", desc, f, [], None)
                if j:
                    yield j


def main():
    import json
    args = sys.argv[1:]
    only = None
    sub = None
    verbose = "-v" in args
    if "-v" in args:
        args.remove("-v")
    if "--only" in args:
        i = args.index("--only")
        only = args[i + 1]
        del args[i:i + 2]
    if "--funcs" in args:
        i = args.index("--funcs")
        sub = args[i + 1].split(",")
        del args[i:i + 2]
    for prop in args:
        t = time.time()
        m = importlib.import_module("rules." + prop)
        ctx = framework.Ctx(prop, "quick")
        with contextlib.redirect_stdout(io.StringIO()):
            m.check(ctx)
        base = {"%s: %s" % (o[1], o[3]) for o in ctx.obligations if o[2] == "undecided"}
        quals = sorted(q for q in ctx.analysed if q.startswith("elsie."))
        if sub:
            quals = [q for q in quals if any(s in q for s in sub)]
        jobs = list(jobs_for(prop, quals, only))
        st = {"eq": [0, 0, 0, 0], "bug": [0, 0, 0, 0]}
        with Pool(8) as pool:
            try:
                for prop, q, kind, desc, err, vio, und in pool.imap_unordered(run_one, jobs, chunksize=4):
                    s = st[kind]
                    s[0] += 1
                    und = [u for u in und if u not in base]
                    if err:
                        s[3] += 1
                        if kind == "eq" or verbose:
                            print("ERROR  %s %s %s: %s" % (kind, q, desc, err))
                    elif vio:
                        s[1] += 1
                        if kind == "eq":
                            print("FALSE  %s: %s: %s" % (q, desc, vio[0]))
                    else:
                        if und:
                            s[2] += 1
                        if kind == "bug":
                            print("MISSED %s: %s%s" % (q, desc, "  (undecided: %s)" % und[0][:150] if und else ""))
                        elif und and verbose:
                            print("undecided %s: %s: %s" % (q, desc, und[0][:200]))
            finally:
                pool.terminate()
        os.system("rm -rf /tmp/mut????????")
        print("== %s: %d functions; equivalent %d: %d false alarms, %d undecided, %d errors; faults %d: %d reported, %d undecided, %d errors; %.0f s" % (
            prop, len(quals), st["eq"][0], st["eq"][1], st["eq"][2], st["eq"][3], st["bug"][0], st["bug"][1], st["bug"][2], st["bug"][3], time.time() - t))


if __name__ == "__main__":
    main()
