"""Dimensional analysis: horizontal and vertical quantities as exponents (h, v) of a product."""
import ast

H, V, N = (1, 0), (0, 1), (0, 0)
ANY = "any"  # a constant: fits every sum

NAMES = {}
for n in ("x x2 mid_x cx rx dx width image_width img_width device_width context_width p_left p_right p_x left right width_definition "
          "parent_width output_width slide_width viewbox_width").split():
    NAMES[n] = H
for n in ("y y2 mid_y cy ry dy height image_height img_height device_height context_height p_top p_bottom p_y top bottom height_definition "
          "parent_height output_height slide_height viewbox_height").split():
    NAMES[n] = V
PAIRS = {"size", "position", "mid_point", "compute_size_request", "min_children_size"}
# calls with coordinates: method -> axes of the arguments
CALLS = {"move_to": "hv", "line_to": "hv", "curve_to": "hvhvhv", "rel_line_to": "hv", "rel_curve_to": "hvhvhv", "rectangle": "hvhv",
         "translate": "hv", "arc": "hv", "set_source_surface": " hv"}
LETTER = {"h": H, "v": V}
WORD = {H: "horizontal", V: "vertical"}


class Axes:
    def __init__(self, prog, report):
        self.prog = prog
        self.report = report
        self.checked = 0
        self.params = {}
        for f in prog.funcs.values():
            if f.qual.startswith("spec."):
                continue
            a = f.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            if f.cls is not None and not f.is_static:
                pos = pos[1:]
            self.params.setdefault(f.qual.split(".")[-1], []).append((f, pos))

    def function(self, f):
        self.f = f
        node = f.node
        a = node.args
        env = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            env[x.arg] = NAMES.get(x.arg)
        stores = []
        body = node.body if isinstance(node.body, list) else [ast.Return(node.body)]
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                    for x in n.args.posonlyargs + n.args.args:
                        env.setdefault(x.arg, NAMES.get(x.arg) if isinstance(n, ast.FunctionDef) else None)
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bindings(t, n.value, stores)
                elif isinstance(n, ast.AugAssign):
                    stores.append((n.target, ast.BinOp(n.target, n.op, n.value), None))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            stores.append((x, None, None))
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if isinstance(i.optional_vars, ast.Name):
                            stores.append((i.optional_vars, None, None))
        # local variables: the join of everything that is assigned
        for _ in range(4):
            new = dict(env)
            for t, v, d in stores:
                if isinstance(t, ast.Name):
                    new[t.id] = "unset"
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if new.get(x.arg) == "unset":
                    new[x.arg] = NAMES.get(x.arg) or "unset"
            for t, v, d in stores:
                if not isinstance(t, ast.Name):
                    continue
                k = d if d is not None else self.dim(v, env) if v is not None else None
                old = new[t.id]
                new[t.id] = k if old in ("unset", ANY) else old if k in (ANY, old) else None
            new = {k: None if v == "unset" else v for k, v in new.items()}
            if new == env:
                break
            env = new
        for t, v, d in stores:
            if isinstance(t, ast.Attribute) and (v is not None or d is not None):
                want = NAMES.get(t.attr)
                if want:
                    self.expect(want, d if d is not None else self.dim(v, env), t, "attribute " + t.attr)
        for s in body:
            for n in ast.walk(s):
                self.node(n, env)
        want = NAMES.get(f.qual.split(".")[-1])
        if want:
            for s in body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Return) and n.value is not None:
                        self.expect(want, self.dim(n.value, env), n, "result")

    def bindings(self, target, value, stores):
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts):
                for t, v in zip(target.elts, value.elts):
                    self.bindings(t, v, stores)
                return
            name = None
            if isinstance(value, ast.Call) and isinstance(value.func, ast.Attribute):
                name = value.func.attr
            elif isinstance(value, ast.Attribute):
                name = value.attr
            pair = name in PAIRS and len(target.elts) == 2
            for t, d in zip(target.elts, (H, V) if pair else [None] * len(target.elts)):
                if isinstance(t, (ast.Name, ast.Attribute)):
                    stores.append((t, None, d))
            return
        stores.append((target, value, None))

    def expect(self, want, found, node, what):
        self.checked += 1
        if found in (H, V) and found != want:
            self.report(self.f, node, "{} is computed from {} quantities".format(what, WORD[found]))

    def node(self, n, env):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = self.dim(n.left, env), self.dim(n.right, env)
            self.checked += 1
            if {a, b} == {H, V}:
                self.report(self.f, n, "{} mixes a {} and a {} quantity".format(ast.unparse(n)[:80], WORD[a], WORD[b]))
        elif isinstance(n, ast.Call):
            self.call(n, env)
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            if self.dim(n.elts[0], env) == V and self.dim(n.elts[1], env) == H:
                self.report(self.f, n, "the pair {} has its axes exchanged".format(ast.unparse(n)[:80]))

    def call(self, n, env):
        for k in n.keywords:
            want = NAMES.get(k.arg)
            if want:
                self.expect(want, self.dim(k.value, env), k.value, "argument " + k.arg)
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
        if any(isinstance(a, ast.Starred) for a in n.args):
            return
        if name == "set" and isinstance(n.func, ast.Attribute) and len(n.args) >= 2 and isinstance(n.args[0], ast.Constant):
            want = NAMES.get(n.args[0].value) if isinstance(n.args[0].value, str) else None
            if want:
                self.expect(want, self.dim(n.args[1], env), n, "attribute " + n.args[0].value)
            return
        if isinstance(n.func, ast.Attribute) and name in CALLS:
            for a, c in zip(n.args, CALLS[name]):
                if c in LETTER:
                    self.expect(LETTER[c], self.dim(a, env), a, "coordinate of " + name)
            return
        cands = self.params.get(name, ())
        cls = self.prog.class_by_name.get(name) if name else None
        if cls is not None and cls.find("__init__") is not None:
            f = cls.find("__init__")
            cands = [(f, [x.arg for x in f.node.args.posonlyargs + f.node.args.args][1:])]
        if not cands:
            return
        for i, a in enumerate(n.args):
            wants = {NAMES.get(pos[i]) if i < len(pos) else None for f, pos in cands}
            if len(wants) == 1:
                want, = wants
                if want:
                    self.expect(want, self.dim(a, env), a, "argument {} of {}".format(i + 1, name))

    def dim(self, e, env):
        """Exponents of an expression, None if it is not known."""
        if isinstance(e, ast.Constant):
            return ANY if isinstance(e.value, (int, float)) or e.value is None else None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute):
            return NAMES.get(e.attr)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value in (0, 1):
            b = e.value
            name = b.attr if isinstance(b, ast.Attribute) else b.func.attr if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) else None
            return (H, V)[e.slice.value] if name in PAIRS else None
        if isinstance(e, ast.UnaryOp):
            return self.dim(e.operand, env)
        if isinstance(e, ast.BinOp):
            a, b = self.dim(e.left, env), self.dim(e.right, env)
            if a is None or b is None:
                if isinstance(e.op, (ast.Add, ast.Sub)):
                    return a if b is None and a in (H, V) and False else None
                return None
            if isinstance(e.op, (ast.Add, ast.Sub)):
                return b if a == ANY else a if b in (ANY, a) else None
            x = N if a == ANY else a
            y = N if b == ANY else b
            if isinstance(e.op, ast.Mult):
                return (x[0] + y[0], x[1] + y[1])
            if isinstance(e.op, (ast.Div, ast.FloorDiv)):
                return (x[0] - y[0], x[1] - y[1])
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.dim(e.body, env), self.dim(e.orelse, env)
            return a if b in (ANY, a) else b if a == ANY else None
        if isinstance(e, ast.BoolOp):
            ds = {self.dim(v, env) for v in e.values} - {ANY}
            return ds.pop() if len(ds) == 1 else None
        if isinstance(e, ast.Call):
            name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
            if name in ("max", "min", "abs", "float", "int", "round") and e.args and isinstance(e.func, ast.Name):
                ds = {self.dim(a, env) for a in e.args} - {ANY}
                return ds.pop() if len(ds) == 1 else None
            if name in ("x", "y") and isinstance(e.func, ast.Attribute):
                return NAMES[name]
            return None
        return None
