"""A small JavaScript front end: parses a script and translates it to Python functions for the engine.

Only what is needed for the scripts embedded in the sources is supported; everything else raises Unsupported."""
import re

TOKEN = re.compile(
    r"""\s+|//[^\n]*|/\*.*?\*/|(?P<num>\d+(?:\.\d+)?)|(?P<name>[A-Za-z_$\ue000-\uf8ff][\w$\ue000-\uf8ff]*)"""
    r"""|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<tpl>`(?:\\.|[^`\\])*`)"""
    r"""|(?P<op>=>|\.\.\.|===|!==|==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|[-+*/%<>=!?:;,.(){}\[\]])""", re.S)

BINARY = [("||",), ("&&",), ("==", "!=", "===", "!=="), ("<", ">", "<=", ">="), ("+", "-"), ("*", "/", "%")]


class Unsupported(Exception):
    pass


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Unsupported("character {!r}".format(text[i]))
        if m.lastgroup:
            out.append((m.lastgroup, m.group(), "\n" in text[i:m.start()]))
        i = m.end()
    return out + [("end", "", True)]


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, *vs):
        return self.t[self.i][1] in vs and self.t[self.i][0] in ("op", "name")

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def accept(self, v):
        if self.peek(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported("{!r} expected, {!r} found".format(v, self.t[self.i][1]))

    def name(self):
        k, v, _ = self.next()
        if k != "name":
            raise Unsupported("name expected, {!r} found".format(v))
        return v

    def program(self):
        out = []
        while self.t[self.i][0] != "end":
            out.append(self.statement())
        return out

    def block(self):
        if self.accept("{"):
            out = []
            while not self.accept("}"):
                out.append(self.statement())
            return out
        return [self.statement()]

    def statement(self):
        if self.accept(";"):
            return ("nop",)
        if self.peek("{"):
            return ("block", self.block())
        if self.peek("function") and self.t[self.i + 1][0] == "name":
            self.next()
            n = self.name()
            return ("func", n) + self.function()
        if self.peek("var", "let", "const"):
            self.next()
            out = self.declarators()
            self.accept(";")
            return out
        if self.accept("if"):
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.block()
            return ("if", c, a, self.block() if self.accept("else") else [])
        if self.accept("while"):
            self.expect("(")
            c = self.expr()
            self.expect(")")
            return ("while", c, self.block())
        if self.accept("for"):
            return self.loop()
        if self.accept("return"):
            v = None
            if not self.peek(";", "}"):
                v = self.expr()
            self.accept(";")
            return ("return", v)
        if self.peek("break", "continue"):
            k = self.next()[1]
            self.accept(";")
            return (k,)
        e = self.expr()
        self.accept(";")
        return ("expr", e)

    def declarators(self):
        ds = []
        while True:
            n = self.name()
            ds.append((n, self.assign() if self.accept("=") else None))
            if not self.accept(","):
                return ("var", ds)

    def loop(self):
        self.expect("(")
        if self.peek("var", "let", "const"):
            self.next()
            if self.t[self.i + 1][1] == "of":
                n = self.name()
                self.next()
                it = self.expr()
                self.expect(")")
                return ("forof", n, it, self.block())
            init = self.declarators()
        elif self.peek(";"):
            init = ("nop",)
        else:
            init = ("expr", self.expr())
        self.expect(";")
        c = self.expr()
        self.expect(";")
        u = self.expr()
        self.expect(")")
        return ("for", init, c, u, self.block())

    def function(self):
        self.expect("(")
        ps = []
        while not self.accept(")"):
            ps.append(self.name())
            self.accept(",")
        self.expect("{")
        self.i -= 1
        return (ps, self.block())

    def expr(self):
        return self.assign()

    def assign(self):
        # arrow functions
        save = self.i
        if self.t[self.i][0] == "name" and self.t[self.i + 1][1] == "=>":
            p = [self.name()]
            self.next()
            return self.arrow(p)
        if self.peek("("):
            try:
                self.next()
                ps = []
                while not self.accept(")"):
                    ps.append(self.name())
                    self.accept(",")
                if self.accept("=>"):
                    return self.arrow(ps)
            except Unsupported:
                pass
            self.i = save
        left = self.ternary()
        if self.peek("=", "+=", "-=", "*=", "/="):
            op = self.next()[1]
            right = self.assign()
            if op != "=":
                right = ("bin", op[0], left, right)
            return ("assign", left, right)
        return left

    def arrow(self, ps):
        if self.peek("{"):
            return ("fn", ps, self.block())
        return ("fn", ps, [("return", self.assign())])

    def ternary(self):
        c = self.binary(0)
        if self.accept("?"):
            a = self.assign()
            self.expect(":")
            return ("cond", c, a, self.assign())
        return c

    def binary(self, level):
        if level == len(BINARY):
            return self.unary()
        left = self.binary(level + 1)
        while self.t[self.i][0] == "op" and self.t[self.i][1] in BINARY[level]:
            op = self.next()[1]
            left = ("bin", op, left, self.binary(level + 1))
        return left

    def unary(self):
        if self.peek("!", "-", "+"):
            op = self.next()[1]
            return ("un", op, self.unary())
        if self.peek("++", "--"):
            op = self.next()[1]
            x = self.unary()
            return ("assign", x, ("bin", op[0], x, ("num", "1")))
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.accept("."):
                e = ("get", e, self.name())
            elif self.accept("["):
                e = ("idx", e, self.expr())
                self.expect("]")
            elif self.peek("("):
                self.next()
                args = []
                while not self.accept(")"):
                    args.append(self.assign())
                    self.accept(",")
                e = ("call", e, args)
            elif self.peek("++", "--") and not self.t[self.i][2]:
                op = self.next()[1]
                e = ("assign", e, ("bin", op[0], e, ("num", "1")))
            else:
                return e

    def primary(self):
        k, v, _ = self.next()
        if k == "num":
            return ("num", v)
        if k == "str":
            return ("str", unescape(v[1:-1]))
        if k == "tpl":
            return self.template(v[1:-1])
        if v == "(":
            e = self.expr()
            self.expect(")")
            return e
        if v == "[":
            out = []
            while not self.accept("]"):
                out.append(self.assign())
                self.accept(",")
            return ("list", out)
        if v == "function":
            if self.t[self.i][0] == "name":
                self.next()
            return ("fn",) + self.function()
        if k == "name" and v not in ("new", "class", "typeof", "delete", "this", "async", "await", "yield", "switch", "try", "throw", "do"):
            return ("name", v)
        raise Unsupported("token {!r}".format(v))

    def template(self, s):
        parts, i = [], 0
        out = None
        for m in re.finditer(r"\$\{([^{}]*)\}", s):
            parts.append(("str", unescape(s[i:m.start()])))
            p = Parser(m.group(1))
            parts.append(p.expr())
            if p.t[p.i][0] != "end":
                raise Unsupported("template")
            i = m.end()
        parts.append(("str", unescape(s[i:])))
        for p in parts:
            out = p if out is None else ("bin", "+", out, p)
        return out


def unescape(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)


def walk(x):
    if isinstance(x, (tuple, list)):
        if isinstance(x, tuple):
            yield x
        for y in x:
            yield from walk(y)


class Translator:
    """Python source of a script: its functions and main get the document, the mutable state and the holes as arguments."""

    def __init__(self, program, holes):
        self.holes = holes  # placeholder -> parameter name
        while len(program) == 1 and program[0][0] == "expr" and program[0][1][0] == "call" and program[0][1][1][0] == "fn" and not program[0][1][2]:
            program = program[0][1][1][2]
        self.program = program
        self.prefix = ["document", "state"] + sorted(set(holes.values()))
        self.funcs = {}
        self.consts = {}
        self.state = {}
        self.main = []
        self.handlers = {}
        assigned = {x[1][1] for x in walk(program) if x and x[0] == "assign" and x[1][0] == "name"}
        for s in program:
            if s[0] == "func":
                self.funcs[s[1]] = (s[2], s[3])
        for s in program:
            if s[0] == "func":
                continue
            if s[0] == "var":
                for n, v in s[1]:
                    if v is not None and v[0] == "fn":
                        self.funcs[n] = (v[1], v[2])
                    elif n in assigned:
                        self.state[n] = v
                        self.main.append(("state", n, v))
                    elif v is not None:
                        self.consts[n] = v
                continue
            if s[0] != "nop":
                self.main.append(s)
        if len(self.state) != 1:
            raise Unsupported("{} variables of state".format(len(self.state)))
        self.out = []
        self.n = 0

    def source(self):
        for n, (ps, body) in self.funcs.items():
            self.define("f_" + n, ps, body)
        self.define("main", [], self.main)
        for k, (role, (ps, body)) in enumerate(list(self.handlers.items())):
            self.define("on_" + role, [], body)
        return "\n".join(self.out) + "\n"

    def define(self, name, params, body):
        self.locals = set(params) | {n for s in walk(body) if s[0] == "var" and isinstance(s[1], list) for n, _ in s[1]}
        self.locals |= {s[1] for s in walk(body) if s[0] == "forof"}
        if self.locals & (set(self.state) | set(self.prefix)):
            raise Unsupported("a local variable hides another one")
        if any(p in self.holes for p in params):
            raise Unsupported("placeholder")
        lines = self.block(body, 1)
        self.out.append("def {}({}):".format(name, ", ".join(self.prefix + params)))
        self.out.extend(lines)
        self.out.append("")

    def block(self, body, d):
        out = []
        for s in body:
            out.extend(self.stmt(s, d))
        return out or [" " * 4 * d + "pass"]

    def stmt(self, s, d):
        ind = " " * 4 * d
        k = s[0]
        if k == "nop":
            return []
        if k == "block":
            return self.block(s[1], d)
        if k == "state":
            return [ind + "state.active = " + self.e(s[2])]
        if k == "var":
            return [ind + "{} = {}".format(n, self.e(v) if v is not None else "None") for n, v in s[1]]
        if k == "return":
            return [ind + "return" + (" " + self.e(s[1]) if s[1] is not None else "")]
        if k in ("break", "continue"):
            return [ind + k]
        if k == "if":
            out = [ind + "if {}:".format(self.e(s[1]))] + self.block(s[2], d + 1)
            if s[3]:
                out += [ind + "else:"] + self.block(s[3], d + 1)
            return out
        if k == "while":
            return [ind + "while {}:".format(self.e(s[1]))] + self.block(s[2], d + 1)
        if k == "forof":
            return [ind + "for {} in {}:".format(s[1], self.e(s[2]))] + self.block(s[3], d + 1)
        if k == "for":
            init, c, u, body = s[1:]
            if init[0] == "var" and len(init[1]) == 1:
                i, start = init[1][0]
                inc = ("assign", ("name", i), ("bin", "+", ("name", i), ("num", "1")))
                if u == inc and c[0] == "bin" and c[1] in ("<", "<=") and c[2] == ("name", i) and not any(
                        x[0] == "assign" and x[1] == ("name", i) for x in walk(body)):
                    end = self.e(c[3]) + (" + 1" if c[1] == "<=" else "")
                    if start == ("num", "0") and c[1] == "<" and c[3][0] == "get" and c[3][2] == "length":
                        arr = c[3][1]
                        uses = [x for x in walk(body) if x == ("name", i)]
                        sub = [x for x in walk(body) if x == ("idx", arr, ("name", i))]
                        if len(uses) == len(sub):  # a loop over the elements
                            self.n += 1
                            v = "el{}".format(self.n)
                            self.locals.add(v)
                            return [ind + "for {} in {}:".format(v, self.e(arr))] + self.block(replace(body, ("idx", arr, ("name", i)), ("name", v)), d + 1)
                    return [ind + "for {} in range({}, {}):".format(i, self.e(start), end)] + self.block(body, d + 1)
            raise Unsupported("for loop")
        if k == "expr":
            e = s[1]
            if e[0] == "assign":
                return [ind + "{} = {}".format(self.target(e[1]), self.e(e[2]))]
            if e[0] == "call" and e[1][0] == "get" and e[1][2] == "forEach" and len(e[2]) == 1 and e[2][0][0] == "fn":
                ps, body = e[2][0][1:]
                if any(x[0] == "return" for x in walk(body)) and not (len(body) == 1 and body[0][0] == "return"):
                    raise Unsupported("return inside forEach")
                if len(body) == 1 and body[0][0] == "return":
                    body = [("expr", body[0][1])]
                self.locals |= set(ps)
                if len(ps) == 1:
                    return [ind + "for {} in {}:".format(ps[0], self.e(e[1][1]))] + self.block(body, d + 1)
                if len(ps) == 2:
                    return [ind + "for {}, {} in enumerate({}):".format(ps[1], ps[0], self.e(e[1][1]))] + self.block(body, d + 1)
                raise Unsupported("forEach")
            return [ind + self.e(e)]
        raise Unsupported(k)

    def target(self, e):
        if e[0] == "name":
            if e[1] in self.state:
                return "state.active"
            if e[1] in self.locals:
                return e[1]
            raise Unsupported("assignment to " + e[1])
        return self.e(e)

    def is_str(self, e):
        if e[0] == "str":
            return True
        if e[0] == "bin" and e[1] == "+":
            return self.is_str(e[2]) or self.is_str(e[3])
        if e[0] == "call" and (e[1] == ("name", "String") or e[1][0] == "get" and e[1][2] == "toString"):
            return True
        if e[0] == "name" and e[1] in self.consts:
            return self.is_str(self.consts[e[1]])
        return False

    def text(self, e):
        if self.is_str(e):
            return self.e(e)
        return "str({})".format(self.e(e))

    def e(self, e):
        k = e[0]
        if k == "num":
            return e[1]
        if k == "str":
            return self.literal(e[1])
        if k == "name":
            n = e[1]
            if n in self.holes:
                return self.holes[n]
            if n in self.locals or n == "document":
                return n
            if n in self.state:
                return "state.active"
            if n in self.consts:
                return "({})".format(self.e(self.consts[n]))
            if n in ("true", "false", "null", "undefined"):
                return {"true": "True", "false": "False"}.get(n, "None")
            raise Unsupported("name " + n)
        if k == "bin":
            op = {"||": "or", "&&": "and", "===": "==", "!==": "!="}.get(e[1], e[1])
            if op == "+" and self.is_str(e):
                return "({} + {})".format(self.text(e[2]), self.text(e[3]))
            return "({} {} {})".format(self.e(e[2]), op, self.e(e[3]))
        if k == "un":
            return "({}{})".format({"!": "not "}.get(e[1], e[1]), self.e(e[2]))
        if k == "cond":
            return "({} if {} else {})".format(self.e(e[2]), self.e(e[1]), self.e(e[3]))
        if k == "get":
            if e[2] == "length":
                return "len({})".format(self.e(e[1]))
            return "{}.{}".format(self.e(e[1]), e[2])
        if k == "idx":
            return "{}[{}]".format(self.e(e[1]), self.e(e[2]))
        if k == "list":
            return "[{}]".format(", ".join(self.e(x) for x in e[1]))
        if k == "call":
            f = e[1]
            if f[0] == "name" and f[1] in self.funcs and f[1] not in self.locals:
                n = len(self.funcs[f[1]][0])
                args = [self.e(x) for x in e[2][:n]] + ["None"] * (n - len(e[2]))
                return "f_{}({})".format(f[1], ", ".join(self.prefix + args))
            if f == ("name", "String") and len(e[2]) == 1:
                return "str({})".format(self.e(e[2][0]))
            if f[0] == "get" and f[1] == ("name", "Math") and f[2] in ("min", "max"):
                return "{}({})".format(f[2], ", ".join(self.e(x) for x in e[2]))
            if f[0] == "get" and f[2] == "toString" and not e[2]:
                return self.text(f[1])
            if f[0] == "get" and f[2] == "concat":
                return " + ".join("(" + self.text(x) + ")" for x in [f[1]] + e[2])
            if f[0] == "get" and f[2] == "addEventListener" and len(e[2]) == 2:
                role = self.role(f[1])
                h = e[2][1]
                if h[0] == "name" and h[1] in self.funcs:
                    h = ("fn",) + self.funcs[h[1]]
                if h[0] != "fn":
                    raise Unsupported("handler")
                if role in self.handlers:
                    raise Unsupported("two handlers for " + role)
                self.handlers[role] = (h[1], h[2])
                return "{}.addEventListener({}, {!r})".format(self.e(f[1]), self.e(e[2][0]), role)
            if f[0] == "get":
                return "{}({})".format(self.e(f), ", ".join(self.e(x) for x in e[2]))
            raise Unsupported("call")
        raise Unsupported(k)

    def role(self, e):
        s = strings(e, self.consts)
        for r in ("next", "previous"):
            if any("elsie-" + r in x for x in s):
                return r
        raise Unsupported("handler of an unknown element")

    def literal(self, s):
        parts = re.split("([\ue000-\uf8ff]+)", s)
        out = []
        for p in parts:
            if p in self.holes:
                out.append("str({})".format(self.holes[p]))
            elif p:
                out.append(repr(p))
        return "({})".format(" + ".join(out)) if len(out) > 1 else (out[0] if out else "''")


def replace(x, a, b):
    if x == a:
        return b
    if isinstance(x, tuple):
        return tuple(replace(y, a, b) for y in x)
    if isinstance(x, list):
        return [replace(y, a, b) for y in x]
    return x


def strings(e, consts, seen=()):
    out = [x[1] for x in walk(e) if x[0] == "str"]
    for x in walk(e):
        if x[0] == "name" and x[1] in consts and x[1] not in seen:
            out += strings(consts[x[1]], consts, seen + (x[1],))
    return out


def translate(text, holes):
    t = Translator(Parser(text).program(), holes)
    return t, t.source()
