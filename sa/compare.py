"""Comparison of two path tables (summaries computed by the engine).

A table is the list of partitions of a function: the conditions, the outcome, the returned value and
the externally visible effects.  Two tables are compared partition by partition; terms are compared
in a normal form (polynomials, flattened max/min, canonical accumulations).  The result is three
valued: equal, a definite difference, or undecided when either side contains something that the
abstraction does not represent exactly."""
from fractions import Fraction

import ast
import codecs
import os

import regex
from escapes import charmap
from program import walk_scope
from engine import DICTS, Ev, mkstr, subst, EXC_PARENTS, C, NONE, decide, is_match, match_pattern, is_const, cval, contains, find_terms

LEN = ("ext", "builtins.len")
UNSURE = {"unk", "fold", "lv", "lvl", "grown", "unkseq", "popped", "removed", "inserted", "deep", "notv",
          "pre", "kwget", "dicts"}


# fields that hold natural numbers
# methods of which the result is a text
STRINGY = {"read", "readline", "strip", "lstrip", "rstrip", "decode", "lower", "upper", "format"}
# parameters that are functions, or None
CALLBACKS = {"slide_postprocessing"}
NATURAL = {"open_step"}
# fields and parameters that hold whole numbers
WHOLE = {"step", "show_begin", "max_step", "steps", "open_step", "min_steps", "_min_steps", "depth", "n_th", "index"}
# what two functions of the program have in common: a predicate that does not hold fixes the value of a function
IMPLIED = [("elsie.render.image.has_fragments", False, "elsie.render.image.get_image_steps", C(1))]

# arguments of methods of built-in types that do not make a difference
DEFAULTS = {"splitlines": {("keepends", C(False))}, "encode": {("encoding", C("utf-8"))}, "decode": {("encoding", C("utf-8"))}}

# functions that return an object that nothing else refers to
FRESH = {"elsie.text.textstyle.compose_style", "elsie.text.stylecontainer.StyleContainer.get_style"}

UNNAMED = {"unk", "lv", "lvl", "unkseq"}


class Diff(Exception):
    def __init__(self, what, a=None, b=None, loc=None):
        Exception.__init__(self, what)
        self.what, self.a, self.b, self.loc = what, a, b, loc


class Unsure(Exception):
    pass


def unsure(t):
    return bool(find_terms(t, lambda x: x[0] in UNSURE))


# ------------------------------------------------------------------ terms
ARITH = {"add", "sub", "mul", "div", "neg"}


class Norm:
    def __init__(self, eng=None, conds=None, ints=None):
        self.eng = eng
        self.conds = conds or {}
        self.ints = ints or (lambda t: False)
        self.memo = {}
        self.eqs = {}
        self.implied = {}
        for a, b in self.conds.items():
            if not isinstance(a, tuple):
                continue
            if a[0] == "isnone" and b:
                self.eqs[a[1]] = NONE
            elif a[0] == "eq" and b:
                if is_const(a[1]) and not is_const(a[2]):
                    self.eqs[a[2]] = a[1]
                elif is_const(a[2]) and not is_const(a[1]):
                    self.eqs[a[1]] = a[2]
                elif a[1][0] == "a" and a[2][0] == "a" and any(c[0] == "lt" and all(find_terms(c, lambda t, z=z: t == z) for z in a[1:]) for c in self.conds):
                    self.eqs[a[2]] = a[1]  # equal numbers
            elif a[0] == "truthy" and not b and a[1][0] == "a" and a[1][2] in NATURAL and self.conds.get(("isnone", a[1])) is False:
                self.eqs[a[1]] = C(0)
            elif a[0] == "truthy" and a[1][0] == "call" and a[1][1][0] == "f":
                for p, v, f, r in IMPLIED:
                    if a[1][1][1] == p and b == v:
                        self.implied[(f, a[1][2:4])] = r

        if self.implied:
            known = {(f, tuple(tuple(self(x) for x in y) if i == 0 else tuple((m, self(x)) for m, x in y) for i, y in enumerate(z))): r
                     for (f, z), r in self.implied.items()}
            self.implied.update(known)
            self.memo = {}

    def procedure(self, qual):
        """Whether a function of the repository returns nothing."""
        memo = self.eng.prog.__dict__.setdefault("_procedures", {})
        if qual not in memo:
            f = self.eng.prog.funcs.get(qual)
            memo[qual] = f is not None and isinstance(f.node, ast.FunctionDef) and not f.node.decorator_list and not any(
                isinstance(x, ast.Return) and x.value is not None or isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(f.node))
        return memo[qual]

    def is_empty(self, it):
        return self.conds.get(("truthy", it)) is False

    def __call__(self, t):
        try:
            r = self.memo.get(t)
        except TypeError:
            return t
        if r is None:
            r = self.memo[t] = self.norm(t)
        return r

    def norm(self, t):
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            if isinstance(t, tuple):
                return tuple(self(x) if isinstance(x, tuple) else x for x in t)
            return t
        if t in self.eqs:
            t = self.eqs[t]
        k = t[0]
        if k == "call" and t[1][0] in ("m", "ext") or k == "join":
            m = charmap(t, self.eng.prog if self.eng is not None else None)
            if m is not None:
                return ("chars", self(m[0]), tuple(sorted(m[1].items())))
        if k == "c":
            v = t[2]
            if type(v) is float and abs(v) < 1e15 and v == int(v):
                return C(int(v))
            return t
        if k in ("p", "ext", "cls", "mod"):
            return t
        if k in ARITH or k == "sumover" or k == "before" and t[1][0] == "sumover":
            return self.from_poly(self.poly(t))
        if k in ("max", "min"):
            args = []
            for x in t[1]:
                x = self(x)
                args += list(x[1]) if x[0] == k else [x]
            if k == "max":
                args = self.floored(args)
            args = sorted(set(args), key=repr)
            nums = [a for a in args if is_const(a) and isinstance(cval(a), (int, float))]
            if len(nums) > 1:
                m = (max if k == "max" else min)(nums, key=cval)
                args = sorted([a for a in args if a not in nums] + [m], key=repr)
            if len(args) > 1 and any(isinstance(a, tuple) and a[0] == "lt" for a in self.conds):
                args = self.extreme(args, k == "max")
            return args[0] if len(args) == 1 else (k, tuple(args))
        if k in ("maxover",):
            if self.is_empty(t[2]):
                return self(t[1])
            init = self(t[1])
            alts = t[3]
            if not is_const(init) and self.floor(init) is not None:
                return self(("max", (init, ("maxover", C(self.floor(init))) + tuple(t[2:]))))
            if is_const(init) and isinstance(cval(init), (int, float)) and cval(init) >= 0:
                alts = tuple((tuple((a, b) for a, b in c if not (b and a[0] == "truthy" and len(v) == 1 and a[1] == v[0])), v) for c, v in alts if v)
            return (k, init, self(t[2]), self.tree(alts))
        if k == "maxof" and len(t) == 2 and t[1][0] == "list" and len(t[1][1]) > 1 and any(i[0] == "i" for i in t[1][1]) and \
                all(i[0] in ("i", "each", "ext") for i in t[1][1]):
            items = sorted(t[1][1], key=lambda i: i[0] != "i" or not is_const(i[1]))
            if items[0][0] != "i":
                items.insert(0, items.pop([i[0] for i in items].index("i")))
            r = items[0][1]
            for i in items[1:]:
                if i[0] == "i":
                    r = ("max", (r, i[1]))
                elif i[0] == "ext":
                    r = ("maxover", r, i[1], (((), (("elem", i[1], "b"),)),))
                else:
                    r = ("maxover", r, i[1], i[2])
            return self(r)
        if k in ("maxof", "minof"):
            x = self(t[1])
            rest = tuple(self(y) for y in t[2:])
            if len(rest) == 1 and self.conds.get(("truthy", x)) is True:
                rest = ()
            elif len(rest) == 1 and self.is_empty(x):
                return rest[0]
            return (k, x) + rest
        if k == "each":
            return ("each", self(t[1]), self.tree(t[2]))
        if k == "idx" and len(t) == 3:
            x, i = self(t[1]), self(t[2])
            z = x
            while z[0] == "call" and z[1] in (("ext", "builtins.tuple"), ("ext", "builtins.list")) and len(z[2]) == 1 and not z[3]:
                z = z[2][0]
            if z[0] == "list" and len(z[1]) == 1 and z[1][0][0] == "each" and z[1][0][2][0] == "leaf" and len(z[1][0][2][1]) == 1 and \
                    is_const(i) and type(cval(i)) is int and cval(i) >= 0:
                it = z[1][0][1]
                seqs = it[1] if it[0] == "zip" else (it,)
                if all(q[0] in ("p", "a", "idx", "call", "tup", "zip") for q in seqs) and not find_terms(z[1][0][2], lambda q: q[0] in ("pos", "last")):
                    elems = {t for t in find_terms(z[1][0][2], lambda t: t[0] == "elem" and t[1] in seqs)}
                    if len({t[2] for t in elems}) <= 1:
                        return self(subst(z[1][0][2][1][0], {t: ("idx", t[1], i) for t in elems}))
            if x[0] == "list" and is_const(i) and type(cval(i)) is int and all(z[0] == "i" for z in x[1]) and -len(x[1]) <= cval(i) < len(x[1]):
                return x[1][cval(i)][1]
            return ("idx", x, i)
        if k == "getitem" and len(t) == 4:
            x = tuple(self(y) for y in t[1:])
            if x[2] == ("list", ()):
                x = x[:2] + (("tup", ()),)
            d = self.conds.get(("in", x[1], x[0]))
            if d is None and self.eqs:
                d = next((v for c, v in self.conds.items() if c[0] == "in" and c[2] == x[0] and c[1] in self.eqs and self(c[1]) == x[1]), None)
            return ("idx", x[0], x[1]) if d is True else x[2] if d is False else (k,) + x
        if k == "tup" and len(t[1]) == 2:
            # a pair put together again
            x, y = self(t[1][0]), self(t[1][1])
            for z in (x, y):
                if z[0] == "idx" and z[2] in (C(0), C(1)) and self(("idx", z[1], C(0))) == x and self(("idx", z[1], C(1))) == y:
                    return z[1]
            return ("tup", (x, y))
        if k == "call" and t[1][0] == "m" and t[1][2] in ("encode", "decode") and codec_names(t) != t:
            return self(codec_names(t))
        if k == "call" and t[1][0] == "m" and t[1][2] in DEFAULTS and (t[3] or t[2]):
            kw = tuple(x for x in t[3] if x not in DEFAULTS[t[1][2]])
            pos = () if t[2] in [(v,) for _, v in DEFAULTS[t[1][2]]] else t[2]
            if kw != t[3] or pos != t[2]:
                return self(t[:2] + (pos, kw) + t[4:])
        if k == "first":
            x = self(t[1])
            if x == ("list", ()) and len(t) == 3:
                return self(t[2])
            if x[0] == "list" and x[1] and x[1][0][0] == "i":
                return x[1][0][1]
            return (k, x) + tuple(self(y) for y in t[2:])
        if k == "copyof" and t[1][0] == "call" and t[1][1][0] == "f" and t[1][1][1] in FRESH:
            return self(t[1])
        if k == "copyof":
            return ("copyof", self(t[1]))
        if k == "dict" and not t[1] and len(t) == 3 and len(t[2]) == 1:
            return ("copyof", self(t[2][0]))
        if k == "dict" and len(t) == 3 and t[2] and t[1] and all(len(p) == 2 for p in t[1]):
            # entries that the last dictionary has itself
            last = self(t[2][-1])
            rest = tuple(p for p in t[1] if self(p[1]) != self(("idx", last, p[0])))
            if rest != t[1]:
                return self(("dict", rest, t[2]))
        if k == "list" and len(t[1]) == 1 and t[1][0][0] == "ext" and t[1][0][1][0] in ("p", "a"):
            return ("copyof", self(t[1][0][1]))
        if k == "dfold" and len(t) == 3 and not contains(t[2], ("dacc",)) and all(isinstance(p[0], tuple) for _, add in t[2] for p in add):
            # pairs collected into a dictionary
            return self(("list", (("each", t[1], tuple((c, tuple(("tup", p) for p in add)) for c, add in t[2])),)))
        if k in ("list", "set"):
            items = []
            for i in t[1]:
                if i[0] == "each" and self.is_empty(i[1]):
                    continue
                n = self.norm_item(shifted(i))
                if n[0] == "each" and n[2] == ("leaf", (("elem", n[1], "b"),)):
                    n = ("ext", n[1])
                if n[0] == "each" and n[2] == ("leaf", (("tup", (("elem", n[1], "b"), ("idx", n[1], ("elem", n[1], "b")))),)):
                    n = ("ext", ("ditems", n[1]))
                if n[0] == "ext" and n[1][0] == "list":
                    items += list(n[1][1])
                    continue
                if n[0] == "ext":
                    items += self.pieces(n[1])
                    continue
                items.append(n)
            if k == "list":
                items = self.joined(items)
            if k == "set":
                items = sorted(set(items), key=repr)
            return (k, tuple(items))
        if k == "lastof":
            return (k, self(t[1]), self(t[2]), self.tree(tuple((c, (v,)) for c, v in t[3]), default=None))
        if k == "splice" and len(t) == 2 and shifted(("ext", t[1])) != ("ext", t[1]):
            return self(("seg", shifted(("ext", t[1]))))
        if k == "seg" and len(t) == 2 and t[1][0] in ("each", "ext"):
            n = self.norm_item(t[1])
            if n[0] == "each" and n[2] == ("leaf", (("elem", n[1], "b"),)):
                n = ("ext", n[1])
            if n[0] == "ext":
                return ("splice", n[1])
            return ("seg", n)
        if k == "fold":
            r = ("foldt", self(t[1]), self(t[2]), self.tree(tuple((c, (v,)) for c, v in t[3]), default=(("acc",),)))
            return r
        if k == "str":
            from engine import mkstr
            return mkstr(tuple(self(p) for p in t[1]))
        if k == "join":
            x = untuple(self(t[2]))
            if x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "ext":
                x = x[1][0][1]
            if x[0] == "list" and t[1] == C(""):
                from engine import mkstr
                x = ("list", tuple(("each", i[1], self.map_tree(i[2], lambda v: (mkstr(v),) if len(v) > 1 else v)) if i[0] == "each" else i
                                   for i in x[1]))
            return ("join", self(t[1]), x[1] if x[0] == "copyof" else x)
        if k == "call" and t[1] == LEN:
            x = untuple(self(t[2][0]))
            if x[0] == "list" and all(i[0] == "i" for i in x[1]):
                return C(len(x[1]))
            if x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "ext":
                x = x[1][0][1]
            if x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "each":
                e = x[1][0]
                if e[2][0] == "leaf" and len(e[2][1]) == 1:
                    return ("call", LEN, (e[1],), (), 0)
                # the number of elements that satisfy a condition
                return self.from_poly(self.sigma(e[1], self.map_tree(e[2], lambda v: C(len(v)))))
            return ("call", LEN, (x,), (), 0)
        if k == "call" and t[1][0] == "m" and t[1][2] == "difference" and t[1][1][0] == "set" and len(t[1][1][1]) == 1:
            pass
        if k == "rgroup" and is_match(t[1]):
            p, meth, g = regex.canon_group(match_pattern(t[1]), t[1][1][2], t[2])
            return ("rgroup", ("call", ("m", ("re", C(p)), meth), tuple(self(x) for x in t[1][2]), (), 0), g)
        if k == "call" and is_match(t):
            p, meth = regex.canon_match(match_pattern(t), t[1][2])
            return ("call", ("m", ("re", C(p)), meth), tuple(self(x) for x in t[2]), (), 0)
        if k == "call" and t[1] == ("ext", "builtins.int") and len(t[2]) == 1 and t[2][0][0] == "str" and len(t[2][0][1]) == 1:
            return self(t[2][0][1][0])
        if k == "call" and len(t) == 5 and self.eng is not None and t[1][0] in ("f", "m", "new"):
            fa, fk = canon_call(self.eng.prog, t[1], t[2], t[3])
            fa, fk = tuple(self(x) for x in fa), tuple((n, self(v)) for n, v in fk)
            if t[1][0] == "f" and self.procedure(t[1][1]):
                return NONE
            if t[1][0] == "f" and (t[1][1], (fa, fk)) in self.implied:
                return self.implied[(t[1][1], (fa, fk))]
            return ("call", self(t[1]), fa, fk, t[4])
        if k == "atom" or k == "natom":
            a, v = self.atom(t[1], k == "atom")
            d = decide(a, self.conds, self.eng)
            if d is not None:
                return C(d == v)
            return ("atom" if v else "natom", a)
        if k == "Pow" and is_const(t[2]) and cval(t[2]) == 2:
            return self.from_poly(self.poly(("mul", t[1], t[1])))
        return tuple(self(x) if isinstance(x, tuple) else x for x in t)

    def floor(self, x):
        """A constant that a value is known to reach, or None."""
        if is_const(x) and isinstance(cval(x), (int, float)):
            return cval(x)
        if x[0] == "maxover":
            return self.floor(x[1])
        if x[0] == "a" and x[2] in NATURAL:
            return 1 if self.conds.get(("truthy", x)) is True else 0
        return None

    def floored(self, args):
        """Arguments of max, with the constant that the result reaches where it does not matter for the others."""
        low = [v for v in map(self.floor, args) if v is not None]
        if not low:
            return args
        low = max(low)
        out = []
        for x in args:
            if is_const(x) and isinstance(cval(x), (int, float)):
                continue
            if x[0] == "maxof" and (len(x) == 2 and self.conds.get(("truthy", x[1])) is True or len(x) == 3 and is_const(x[2]) and
                                    isinstance(cval(x[2]), (int, float)) and cval(x[2]) <= low):
                x = self(("maxover", C(low), x[1], (((), (("elem", x[1], "b"),)),)))
            elif x[0] == "maxover" and is_const(x[1]):
                x = ("maxover", C(low)) + x[2:]
            out.append(x)
        if all(self.floor(x) is None or self.floor(x) < low for x in out):
            out.append(C(low))
        return out

    def extreme(self, args, largest):
        """The arguments of max (min) without the ones that the partition knows to be dominated."""
        out = list(args)
        for a in args:
            for b in args:
                if a == b or a not in out or b not in out:
                    continue
                x, v = self.atom(("lt", a, b), True)
                known = self.conds.get(x)
                if known is None:
                    continue
                # a < b, or b <= a
                drop = (a if largest else b) if known == v else (b if largest else a)
                out.remove(drop)
        return out

    def pieces(self, x):
        """The parts of a list of which the first or the last element is replaced, or of such a list without its ends."""
        if x[0] == "setitem" and len(x) == 4 and x[2] in (C(0), C(-1)):
            parts = self.pieces(x[1])
            if x[2] == C(0):
                return [("i", x[3])] + self.cut(parts, True)
            return self.cut(parts, False) + [("i", x[3])]
        if x[0] == "list":
            return list(x[1])
        if x[0] == "slice" and x[2] in (C(0), C(1), NONE) and x[3] in (C(-1), NONE) and (len(x) < 5 or x[4] in (NONE, C(1))):
            parts = self.pieces(x[1])
            if x[2] == C(1):
                parts = self.cut(parts, True)
            return self.cut(parts, False) if x[3] == C(-1) else parts
        return [("ext", x)]

    def cut(self, parts, first):
        """Without the first (last) element."""
        if not parts:
            return []
        p = parts[0] if first else parts[-1]
        if p[0] == "i":
            q = []
        elif p[0] == "part":
            q = [("part", p[1], 1, p[3]) if first else ("part", p[1], p[2], 1)] if not p[2 if first else 3] else None
        elif p[0] in ("ext", "each"):
            q = [("part", p, 1, 0) if first else ("part", p, 0, 1)]
        else:
            q = None
        if q is None:
            return [("ext", ("slice", ("list", tuple(parts)), C(1) if first else C(0), NONE if first else C(-1), NONE))]
        return q + parts[1:] if first else parts[:-1] + q

    def joined(self, items):
        """Parts of lists next to the elements that they lack."""
        out = list(items)
        i = 0
        while i < len(out):
            x = out[i]
            if x[0] == "part":
                whole = x[1][1] if x[1][0] == "ext" else ("list", (x[1],))
                if x[2] and i and out[i - 1] in (("i", ("idx", whole, C(0))), ("i", self(("idx", whole, C(0))))):
                    out[i - 1:i + 1] = [("part", x[1], 0, x[3]) if x[3] else x[1]]
                    i = max(i - 1, 0)
                    continue
                if x[3] and i + 1 < len(out) and out[i + 1] == ("i", ("idx", whole, C(-1))):
                    out[i:i + 2] = [("part", x[1], x[2], 0) if x[2] else x[1]]
                    continue
            i += 1
        return out

    def norm_item(self, i):
        if i[0] == "each":
            return ("each", self(i[1]), self.tree(i[2]))
        if i[0] == "part":
            return i
        return (i[0], self(i[1]))

    # -- polynomials: {monomial (sorted tuple of leaves): Fraction}
    def poly(self, t):
        if t in self.eqs:
            t = self.eqs[t]
        k = t[0]
        if k == "c" and isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
            v = Fraction(t[2]) if t[2] == t[2] and abs(t[2]) != float("inf") else None
            if v is not None:
                return {(): v} if v else {}
        if k == "add" or k == "sub":
            return self.padd(self.poly(t[1]), self.poly(t[2]), 1 if k == "add" else -1)
        if k == "neg":
            return self.padd({}, self.poly(t[1]), -1)
        if k == "mul":
            return self.pmul(self.poly(t[1]), self.poly(t[2]))
        if k == "div":
            d = self.poly(t[2])
            if len(d) == 1 and () in d:
                return {m: c / d[()] for m, c in self.poly(t[1]).items()}
            if len(d) == 1:
                (m, c), = d.items()
                inv = {tuple(sorted((self.inv(x) for x in m), key=repr)): 1 / c}
            else:
                inv = {(("inv", self.from_poly(d)),): Fraction(1)}
            return self.pmul(self.poly(t[1]), inv)
        if k == "sumover":
            r = self.poly(t[1])
            if self.is_empty(t[2]):
                return r
            # split constant factors: Σ over alternatives, each a polynomial
            tree = self.tree(tuple((c, (v,)) for c, v in t[3]), default=(C(0),))
            tree = self.map_tree(tree, lambda v: v[0])
            it = self(t[2])
            for m, c in self.sigma(it, tree).items():
                r = self.padd(r, {m: c})
            return r
        if k == "before" and t[1][0] == "sumover":
            p = self.poly(t[1])
            i = self.poly(t[1][1])
            # the accumulated part, up to the current element
            d = self.padd(p, i, -1)
            return self.padd(i, {tuple(sorted((("Σ<",) + x[1:] if x[0] == "Σ" else ("pos", x[2][0], 0) if x[0] == "call" and x[1] == LEN else x for x in m), key=repr)): c for m, c in d.items()})
        n = self.norm(t)
        if n[0] == "c" and isinstance(n[2], (int, float)) and not isinstance(n[2], bool):
            return {(): Fraction(n[2])} if n[2] else {}
        if n[0] == "poly":
            return {m: Fraction(*c) for m, c in n[1]}
        return {(n,): Fraction(1)}

    def leaves_of(self, t):
        if t[0] == "if":
            return self.leaves_of(t[2]) + self.leaves_of(t[3])
        return [t[1]]

    def sigma(self, it, tree):
        """Linear normal form of a sum over the elements of it."""
        if tree[0] not in ("leaf", "if"):
            return {(("Σ", it, tree, ()),): Fraction(1)}
        monos = []
        for v in self.leaves_of(tree):
            for m in self.poly(v):
                if m not in monos:
                    monos.append(m)
        r = {}
        for m in monos:
            ct = self.map_tree(tree, lambda v: self.poly(v).get(m, Fraction(0)))
            c0 = next(x for x in self.leaves_of(ct) if x)
            ct = self.map_tree(ct, lambda x: (Fraction(x, c0).numerator, Fraction(x, c0).denominator))
            inside = tuple(x for x in m if contains(x, ("elem", it, "b")) or contains(x, ("pos", it, "b")))
            outside = tuple(x for x in m if x not in inside)
            if not inside and ct[0] == "leaf":
                leaf = ("call", LEN, (it,), (), 0)
            else:
                leaf = ("Σ", it, ct, inside)
            r = self.padd(r, {self.reduce(tuple(sorted(outside + (leaf,), key=repr))): c0})
        return r

    def inv(self, x):
        return x[1] if x[0] == "inv" else ("inv", x)

    def reduce(self, m):
        m = list(m)
        for x in list(m):
            if x[0] == "inv" and x[1] in m and x in m:
                m.remove(x)
                m.remove(x[1])
        return tuple(m)

    def padd(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + s * c
            if not r[m]:
                del r[m]
        return r

    def pmul(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.reduce(tuple(sorted(m + n, key=repr)))
                r[k] = r.get(k, 0) + c * d
                if not r[k]:
                    del r[k]
        return r

    def from_poly(self, p):
        if not p:
            return C(0)
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                return C(int(c)) if c.denominator == 1 else C(float(c))
            if c == 1 and len(m) == 1:
                return m[0]
        return ("poly", tuple(sorted(((m, (c.numerator, c.denominator)) for m, c in p.items()), key=repr)))

    # -- canonical decision trees of loop alternatives
    def tree(self, alts, default=()):
        if alts and alts[0] in ("leaf", "if", "unk"):
            return self.again(alts)
        norm = []
        for conds, v in alts:
            d = {}
            ok = True
            for a, b in conds:
                x, y = self.atom(a, b)
                if d.get(x, y) != y:
                    ok = False
                d[x] = y
            if ok:
                norm.append((d, tuple(self(z) if isinstance(z, tuple) else z for z in v) if v is not None else None))
        atoms = sorted({a for d, _ in norm for a in d}, key=repr)
        if len(atoms) > 14:
            return ("unk", "tree")
        return self.build(norm, atoms, dict(self.conds), default)

    def build(self, alts, atoms, known, default):
        if not alts:
            return ("leaf", default)
        if not atoms:
            return ("leaf", alts[0][1])
        a = atoms[0]
        d = decide(a, known, self.eng)
        if d is not None:
            return self.build([x for x in alts if x[0].get(a, d) == d], atoms[1:], known, default)
        r = []
        for b in (True, False):
            k = dict(known)
            k[a] = b
            r.append(self.build([x for x in alts if x[0].get(a, b) == b], atoms[1:], k, default))
        return r[0] if r[0] == r[1] else ("if", a, r[0], r[1])

    def again(self, t):
        """A tree that is canonical, under the present conditions."""
        if t[0] == "leaf":
            return ("leaf", tuple(self(z) if isinstance(z, tuple) else z for z in t[1]) if isinstance(t[1], tuple) else t[1])
        if t[0] == "if":
            a, v = self.atom(t[1], True)
            d = decide(a, self.conds, self.eng)
            if d is not None:
                return self.again(t[2] if d == v else t[3])
            x, y = self.again(t[2]), self.again(t[3])
            return x if x == y else ("if", a, x, y) if v else ("if", a, y, x)
        return t

    def map_tree(self, t, f):
        if t[0] == "leaf":
            return ("leaf", f(t[1]))
        if t[0] == "if":
            x, y = self.map_tree(t[2], f), self.map_tree(t[3], f)
            return x if x == y else ("if", t[1], x, y)
        return t

    def atom(self, a, val):
        """Canonical atom and polarity."""
        if not isinstance(a, tuple):
            return a, val
        k = a[0]
        if k == "lt":
            p = self.padd(self.poly(a[2]), self.poly(a[1]), -1)  # p > 0
            const = p.pop((), Fraction(0))
            if len(p) == 1:
                (m, c), = p.items()
                x = m[0] if len(m) == 1 else self.from_poly({m: Fraction(1)})
                b = -const / c
                b = int(b) if b.denominator == 1 else float(b)
                if c > 0:  # x > b
                    if isinstance(b, int) and self.integral(x):
                        return self.len_atom(x, b + 1, not val)
                    return ("lt", C(b), x), val
                if isinstance(b, int) and self.integral(x):
                    return self.len_atom(x, b, val)
                return ("lt", x, C(b)), val
            if p:
                lead = min(p, key=repr)
                s = p[lead]
                neg = s < 0
                q = {m: c / abs(s) for m, c in p.items()}
                cc = const / abs(s)
                if neg:
                    q = {m: -c for m, c in q.items()}
                    # -q + cc > 0  <=>  q < cc
                    return ("lt", self.from_poly(q), C(int(cc) if cc.denominator == 1 else float(cc))), val
                cc = -cc
                if cc.denominator == 1 and all(c.denominator == 1 for c in q.values()) and self.integral(self.from_poly(q)):
                    # cc < q  <=>  not q < cc + 1
                    return ("lt", self.from_poly(q), C(int(cc) + 1)), not val
                return ("lt", C(int(cc) if cc.denominator == 1 else float(cc)), self.from_poly(q)), val
            return ("lt", C(0), C(1 if const > 0 else 0)), val
        if k == "eq" and (a[1][0] in ARITH or a[2][0] in ARITH or a[1][0] == "sumover" or a[2][0] == "sumover"):
            p = self.padd(self.poly(a[1]), self.poly(a[2]), -1)
            const = p.pop((), Fraction(0))
            if len(p) == 1:
                (m, c), = p.items()
                b = -const / c
                x = m[0] if len(m) == 1 else self.from_poly({m: Fraction(1)})
                y = C(int(b) if b.denominator == 1 else float(b))
                return ("eq",) + tuple(sorted((x, y), key=repr)), val
            if p:
                lead = min(p, key=repr)
                q = {m: c / p[lead] for m, c in p.items()}
                cc = -const / p[lead]
                return ("eq", self.from_poly(q), C(int(cc) if cc.denominator == 1 else float(cc))), val
        if k in ("isnone", "truthy"):
            x = self(a[1])
            if x[0] == "getitem" and x[3] == NONE and x[1][0] in ("a", "p") and x[1][-1] in DICTS:
                return ("in", x[2], x[1]), val == (k == "truthy")
        if k == "eq":
            x, y = self(a[1]), self(a[2])
            for p, q in ((x, y), (y, x)):
                if p == C("") and q[0] == "call" and q[1][0] == "m" and q[1][2] in STRINGY:
                    return self.atom(("truthy", q), not val)
                if p == C(0) and self.counter(q):
                    return ("lt", q, C(1)), val
                if q[0] in ("max", "min") and len(q[1]) == 2 and p in q[1]:
                    o = q[1][1 - q[1].index(p)]
                    return self.atom(("lt", p, o) if q[0] == "max" else ("lt", o, p), not val)
        if k in ("eq", "is"):
            return (k,) + tuple(sorted((self(a[1]), self(a[2])), key=repr)), val
        if k == "truthy":
            x = self(a[1])
            if x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "ext":
                x = x[1][0][1]
            if x[0] in ("sorted", "reversed", "copyof"):
                x = x[1]
            if x[0] == "call" and x[1][0] == "m" and x[1][2] == "splitlines":
                x = x[1][1]
            if x[0] == "p" and x[1] in CALLBACKS or x[0] == "call" and self.is_object(x):
                return ("isnone", x), not val
            if x[0] == "call" and x[1] == LEN:
                x = x[2][0]
            return (k, x), val
        r = tuple(self(x) if isinstance(x, tuple) else x for x in a)
        if k == "in" and len(r) == 3 and r[2][0] == "copyof":
            r = r[:2] + (r[2][1],)
        return r, val

    def is_object(self, x):
        """Whether a value is None or an object that is always true."""
        c = self.eng.typeof(x, None) if self.eng is not None else None
        return c is not None and all(k.find(m) is None for k in [c] + c.all_subclasses() for m in ("__bool__", "__len__"))

    def len_atom(self, x, b, val):
        """x < b for an integral x"""
        if x[0] == "call" and x[1] == LEN and b == 1:
            return self.atom(("truthy", x[2][0]), not val)
        return ("lt", x, C(b)), val

    def counter(self, x):
        """Whether a value that a loop carries is a count."""
        if x[0] == "before":
            x = x[1]
        if x[0] == "fold":
            x = self(x)
        if x[0] != "foldt" or not is_const(x[1]) or type(cval(x[1])) is not int or cval(x[1]) < 0 or x[3][0] not in ("leaf", "if"):
            return False
        for v in self.leaves_of(x[3]):
            p = self.poly(v[0])
            p.pop((("acc",),), None) if p.get((("acc",),)) == 1 else None
            c = p.pop((), Fraction(0))
            if p or c < 0 or c.denominator != 1:
                return False
        return True

    def integral(self, x):
        if x[0] in ("before", "foldt") and self.counter(x):
            return True
        if x[0] == "call" and x[1] == LEN:
            return True
        if self.conds.get(("isinst", x, "int")) is True or x[0] == "a" and x[2] in WHOLE or x[0] == "p" and x[1] in WHOLE:
            return True
        if x[0] == "poly":
            return all(c[1] == 1 and all(self.integral(y) for y in m) for m, c in x[1])
        return self.ints(x)


# ------------------------------------------------------------------ tables
class Alt:
    """One partition: conditions, outcome, value, effects (list of events), final store, heap."""
    __slots__ = ("conds", "outcome", "value", "events", "state", "loc", "sets")

    def __init__(self, conds, outcome, value, events, state=None, sets=None):
        self.conds, self.outcome, self.value, self.events, self.state = conds, outcome, value, events, state
        self.sets = sets


def shifted(i):
    """The numbers of a range that does not start at 0."""
    if i[0] == "ext" and i[1][0] == "range" and len(i[1]) == 3 and i[1][1] != C(0):
        it = ("range", C(0), ("sub", i[1][2], i[1][1]))
        return ("each", it, (((), (("add", ("elem", it, "b"), i[1][1]),)),))
    return i


def codec_names(t):
    """encode and decode with the usual names of the encodings."""
    def named(v):
        if is_const(v) and isinstance(cval(v), str):
            try:
                return C(codecs.lookup(cval(v)).name)
            except LookupError:
                pass
        return v
    return t[:2] + (tuple(named(v) if i == 0 else v for i, v in enumerate(t[2])), tuple((n, named(v) if n == "encoding" else v) for n, v in t[3])) + t[4:]


def untuple(x):
    """The sequence that tuple() or list() was applied to."""
    while x[0] == "call" and x[1] in (("ext", "builtins.tuple"), ("ext", "builtins.list")) and len(x[2]) == 1 and not x[3]:
        x = x[2][0]
    return x


DEFAULT_KINDS = ("carry", "call", "mut", "setitem", "delitem", "loop", "del", "enter", "exit")


class Comparator:
    """compare(code paths, spec paths): raises Diff / Unsure, or returns the number of leaves."""

    def __init__(self, eng, ignore=lambda e: False, ints=None, ordered=False, kinds=DEFAULT_KINDS, value=True,
                 sets=True, set_ok=lambda b, a: True, channel=None, exc=False, max_leaves=20000,
                 raises_only_outcome=True, final_heap=True, callmap=None, arrange=None, lenient=False, domains=()):
        self.eng = eng
        self.domains = domains  # the only values of some terms
        self.lenient = lenient  # an element of an empty list: the input is not valid
        self.ignore = ignore
        self.ints = ints
        self.ordered = ordered
        self.kinds = set(kinds)
        self.value = value
        self.sets = sets
        self.set_ok = set_ok
        self.channel_fn = channel
        self.exc = exc
        self.leaves = 0
        self.max_leaves = max_leaves
        self.diffs = []
        self.unsure = []
        self.heaps = (None, None)
        self.bij = {}
        self.callmap = callmap or (lambda e: e)
        self.arrange = arrange

    # -- preparing
    def alts(self, paths):
        n = Norm(self.eng, None, self.ints)
        out = []
        for p in paths:
            conds = self.norm_conds(p.conds.items(), n)
            if conds is None:
                continue
            evs = p.events
            cnt = {}
            for i, e in enumerate(evs):
                if e.kind == "loop" and self.has_exit(e):
                    key = (n(e.a) if e.c == "for" else ("while",), )
                    j = cnt[key] = cnt.get(key, 0) + 1
                    self.exiting = True
                    conds[("loopexit", key[0], j)] = i + 1 < len(evs) and evs[i + 1].kind == "iter"
            out.append(Alt(conds, p.outcome, p.value, evs, p.state))
        return out

    def has_exit(self, e):
        return any(o[0] not in ("next", "cont", "done") for _, _, o in e.b)

    def norm_conds(self, items, n):
        d = self.norm_conds_once(items, n)
        if d and any(a[0] == "in" and b for a, b in d.items() if isinstance(a, tuple)) and \
                any(isinstance(a, tuple) and find_terms(a, lambda t: t[0] == "getitem") for a in d):
            known = {a: b for a, b in d.items() if isinstance(a, tuple) and a[0] == "in"}
            rest = self.norm_conds_once([(a, b) for a, b in d.items() if a not in known], Norm(self.eng, known, self.ints))
            if rest is None or any(rest.get(a, b) != b for a, b in known.items()):
                return None
            d = {**known, **rest}
        return d

    def norm_conds_once(self, items, n):
        d = {}
        for a, b in items:
            x, y = n.atom(a, b)
            if x[0] == "lt" and is_const(x[1]) and is_const(x[2]):
                if (cval(x[1]) < cval(x[2])) != y:
                    return None
                continue
            if x[0] == "eq" and is_const(x[1]) and is_const(x[2]):
                if (cval(x[1]) == cval(x[2])) != y:
                    return None
                continue
            if x[0] in ("isnone", "truthy") and is_const(x[1]):
                if (cval(x[1]) is None if x[0] == "isnone" else bool(cval(x[1]))) != y:
                    return None
                continue
            if d.get(x, y) != y:
                return None
            d[x] = y
        return d

    def compare(self, code, spec):
        self.walk(self.alts(code), self.alts(spec), {}, self.leaf)
        if self.diffs and self.recursion_results(code) != self.recursion_results(spec):
            self.unsure.append("results of a local recursion")
            self.diffs = []
        return self

    def recursion_results(self, paths):
        """Whether results of a local recursion are used."""
        def rec(t):
            return t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "f" and "<locals>" in t[1][1]

        def terms(evs):
            for e in evs:
                if e.kind == "loop":
                    yield e.a
                    for c, es, _ in e.b:
                        yield tuple(x for x, _ in c)
                        yield from terms(es)
                elif e.kind not in ("set", "new"):
                    yield e.fargs or ()
        for p in paths:
            todo = list(terms(p.events)) + [tuple(p.conds)]
            if p.value is not None and p.state is not None:
                todo.append(self.eng.freeze(p.value, p.state))
            if any(find_terms(t, rec) for t in todo):
                return True
        return False

    def walk(self, A, B, conds, leaf):
        stack = [(A, B, conds)]
        while stack:
            A, B, conds = stack.pop()
            A = self.filter(A, conds)
            B = self.filter(B, conds)
            atom = self.pick(A, B, conds)
            if atom is None:
                self.leaves += 1
                if self.leaves > self.max_leaves:
                    self.unsure.append("too many partitions")
                    return
                try:
                    leaf(A, B, conds)
                except Diff as d:
                    self.diffs.append((d, conds))
                    if len(self.diffs) > 20:
                        return
                except Unsure as u:
                    self.unsure.append(str(u))
                continue
            for b in (False, True):
                c = dict(conds)
                c[atom] = b
                stack.append((A, B, c))

    def filter(self, X, conds):
        out = []
        for x in X:
            ok = True
            for a, b in x.conds.items():
                d = decide(a, conds, self.eng)
                if d is not None and d != b:
                    ok = False
                    break
            if ok:
                out.append(x)
        return out

    def pick(self, A, B, conds):
        loop = None
        for X in (A, B):
            for x in X[:1] if len(X) == 1 else X:
                for a in x.conds:
                    if decide(a, conds, self.eng) is None:
                        return a
        return loop

    # -- leaves
    def leaf(self, A, B, conds):
        if not A and not B:
            return
        if not A or not B:
            # an infeasible combination of conditions
            return
        a, b = A[0], B[0]
        try:
            self.compare_alts(a, b, conds)
        except Diff:
            if self.eng.peel is None and not self._inloop and self.exits(a) != self.exits(b):
                raise Unsure("different searches")
            if self.eng.peel is not None and (self.stray(a) or self.stray(b)):
                raise Unsure("sequence used as a whole")
            if self.eng.peel is not None and self.peeled_loops(a) != self.peeled_loops(b):
                raise Unsure("different loops")
            if self.eng.peel is not None and self.searches(a) != self.searches(b):
                raise Unsure("search in a sequence")
            raise

    def peeled_loops(self, alt):
        """The sequences that a partition of a peeled analysis runs through (constants aside)."""
        def blur(t):
            if isinstance(t, tuple):
                return ("c",) if t and t[0] == "c" else tuple(blur(x) for x in t)
            return t
        return {blur(c[1]) for c in alt.conds if c[0] == "more"} | ({"while"} if ("while",) in self.eng.peeled else set())

    def exits(self, alt):
        return {c for c in alt.conds if c[0] == "loopexit"}

    def searches(self, alt):
        """Methods that look for something in a sequence: what they find is not related to its elements."""
        def at(t):
            return t[0] == "call" and len(t) == 5 and t[1][0] == "m" and t[1][2] in (
                "find", "rfind", "index", "rindex", "count", "partition", "rpartition", "split", "rsplit")
        found = set()
        for c in alt.conds:
            found |= {t[1][2] for t in find_terms(c, at)}
        return found

    def stray(self, alt):
        """Whether a partition of a peeled analysis uses a sequence other than by its elements."""
        its = self.eng.peeled - {("while",)}

        def bad(t):
            if not isinstance(t, tuple):
                return False
            if t in its:
                return True
            if t and (t[0] == "idx" and t[1] in its and is_const(t[2]) or t[0] in ("more", "truthy") and t[1] in its):
                return False
            return any(bad(x) for x in t)

        def events(evs):
            for e in evs:
                if e.kind == "loop":
                    if e.a in its or e.c == "while" or e.a[0] != "call":
                        return True
                    if bad(e.a):
                        return True
                    continue
                if e.kind in self.kinds and (bad(e.a) or bad(e.fargs) or bad(e.c)):
                    return True
            return False
        if any(bad(c) for c in alt.conds) or events(alt.events):
            return True
        v = alt.value
        if v is not None and alt.state is not None:
            v = self.eng.freeze(v, alt.state)
        return bad(v)

    def compare_alts(self, a, b, conds):
        if any(x.outcome == "raise" and x.value[:2] == ("exc", "?CUT") for x in (a, b)):
            return
        n = Norm(self.eng, conds, self.ints)
        self.heaps = (a.state, b.state)
        whole = (tuple(a.conds), tuple(b.conds), self.fz(a.value, 0), self.fz(b.value, 1), tuple((None if e.kind == "loop" else e.a, e.b, e.fargs) for e in a.events + b.events))
        self.whiles = bool(find_terms(whole, lambda t: t[0] == "while" and len(t) == 2))
        self.bij = {}
        loc = self.loc_of(a)
        both = set(a.conds) & set(b.conds)
        for x in conds:
            if isinstance(x, tuple) and unsure(x) and (x not in both or find_terms(x, lambda t: t[0] in UNNAMED)):
                raise Unsure("condition outside of the abstraction: " + show(x)[:300])
        if self.outside(conds) or self.crowded(conds, n) or self.extremes(conds, n):
            return
        if b.outcome == "raise" and b.value[0] == "exc" and (b.value[1] == "IndexError" and not b.value[2] or b.value[1].endswith("Unspecified")):
            return  # inputs for which nothing is required
        if a.outcome == "raise" and a.value[:2] == ("exc", "IndexError") and not a.value[2] and self.lenient:
            return
        if a.outcome != b.outcome:
            raise Diff("outcome {} instead of {}".format(a.outcome, b.outcome), a.value, b.value, loc)
        if a.outcome == "ret" and self.value:
            self.same(a.value, b.value, n, "returned value", loc)
        if a.outcome == "raise" and self.exc:
            x, y = a.value, b.value
            if x[0] == "exc" and y[0] == "exc" and x[1] != y[1]:
                raise Diff("raises {} instead of {}".format(x[1], y[1]), x, y, loc)
        if a.outcome == "raise":
            # what happened before a failure of the code's own is judged by another property; after the failure of something
            # that it calls, the same has to be undone
            if all(x.value[0] == "exc" and str(x.value[1]).startswith("?") for x in (a, b)):
                self.effects(a.events, b.events, n, conds, loc, top=True)
            return
        self.effects(a.events, b.events, n, conds, loc, top=True)
        if self.sets and a.state is not None:
            sa, sb = self.final_sets(a, n), self.final_sets(b, n)
            for k in sorted(set(sa) | set(sb), key=repr):
                x, y = sa.get(k), sb.get(k)
                if x is None or y is None:
                    base, attr = k
                    if unsure(k):
                        raise Unsure("assignment to unknown object")
                    cur = n(("a", base, attr)) if not isinstance(attr, tuple) else None
                    if x is None and cur is not None and n(self.fz(y, 1)) == cur or y is None and cur is not None and n(self.fz(x, 0)) == cur:
                        continue
                    raise Diff("{} {}".format("missing assignment of" if x is None else "unexpected assignment of", show_key(k)), x, y, loc)
                self.same(x, y, n, "value of " + show_key(k), loc)

    def extremes(self, conds, n):
        """Whether the conditions exclude each other, once a maximum is known to be one of its operands."""
        for a, b in conds.items():
            if isinstance(a, tuple) and find_terms(a, lambda t: t[0] in ("max", "min")):
                x, y = Norm(self.eng, {c: v for c, v in conds.items() if c != a}, self.ints).atom(a, b)
                if decide(x, conds, self.eng) == (not y):
                    return True
            if isinstance(a, tuple) and a[0] == "eq" and not is_const(a[1]) and not is_const(a[2]):
                other = Norm(self.eng, {c: v for c, v in conds.items() if c != a}, self.ints)
                less = []
                for p, q in ((a[1], a[2]), (a[2], a[1])):
                    x, y = other.atom(("lt", p, q), True)
                    less.append(None if x not in conds else conds[x] == y)
                if b and True in less or not b and less == [False, False]:
                    return True
        return False

    def outside(self, conds):
        """Whether a term has none of its possible values."""
        for values in self.domains:
            tested = {}
            for a, b in conds.items():
                if isinstance(a, tuple) and a[0] == "eq" and not b:
                    for x, c in ((a[1], a[2]), (a[2], a[1])):
                        if is_const(c):
                            tested.setdefault(x, set()).add(cval(c))
                if isinstance(a, tuple) and a[0] == "startswith" and not b and is_const(a[2]):
                    tested.setdefault(a[1], set()).add(cval(a[2]))
            if any(v >= values for v in tested.values()):
                return True
        return False

    def crowded(self, conds, n):
        """Whether a whole number has no value left."""
        low, high = {}, {}
        for a, b in conds.items():
            if a[0] == "lt" and is_const(a[2]) and type(cval(a[2])) is int and n.integral(a[1]):
                x, v = a[1], cval(a[2])
                if b:
                    high[x] = min(high.get(x, v), v)
                else:
                    low[x] = max(low.get(x, v), v)
        for x in set(low) & set(high):
            if 0 <= high[x] - low[x] <= 8 and all(conds.get(("eq",) + tuple(sorted((x, C(v)), key=repr))) is False for v in range(low[x], high[x])):
                return True
        return False

    def fz(self, v, side):
        st = self.heaps[side]
        return self.eng.freeze(v, st) if st is not None and v is not None else v

    def loc_of(self, a):
        for e in reversed(a.events):
            if e.loc is not None:
                return e.loc
        return None

    def final_sets(self, a, n):
        out = {}
        for (base, attr), v in a.state.store.items():
            if base[0] == "ref" or isinstance(attr, tuple) and attr[0] == "item" and base[0] == "ref":
                continue
            if not self.set_ok(base, attr):
                continue
            k = (n(self.eng.freeze(base, a.state)), attr if isinstance(attr, str) else tuple(n(x) if isinstance(x, tuple) else x for x in attr))
            out[k] = v
        return out

    def same(self, x, y, n, what, loc):
        if x is None or y is None:
            if x is not y:
                raise Diff(what, x, y, loc)
            return
        if x[0] == "ref" and y[0] == "ref":
            return self.same_ref(x, y, n, what, loc)
        fx, fy = n(self.fz(x, 0)), n(self.fz(y, 1))
        if fx == fy:
            self.known(fx, what)
            return
        if self.copied(fx, fy) or self.copied(fy, fx):
            return
        self.unify(fx, fy, n, what, loc, (fx, fy))
        self.known(fx, what)

    def copied(self, x, y):
        """Whether y creates an object with the fields of x, of a class of which the objects never change."""
        if x[0] != "p" or y[0] != "call" or y[1][0] != "new" or self.eng is None or y[2] or not y[3]:
            return False
        c = self.eng.prog.classes.get(y[1][1])
        t = self.eng.typeof(x, None)
        if c is None or t is not c:
            return False
        for m in c.methods.values():
            if m.name != "__init__" and any(isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store) for z in ast.walk(m.node)):
                return False
        init = c.find("__init__")
        names = {z.arg for z in init.node.args.args[1:] + init.node.args.kwonlyargs}
        return names == {k for k, _ in y[3]} and all(v in (("a", x, k), ("a", x, "_" + k)) for k, v in y[3])

    def known(self, t, what):
        """Equal terms stand for equal values unless they contain a value without a name of its own."""
        if find_terms(t, lambda x: x[0] in UNNAMED):
            raise Unsure(what + " is outside of the abstraction: " + show(t)[:100])

    def unify(self, x, y, n, what, loc, full):
        """Structural equality modulo a bijection of abstract objects."""
        if x == y and not has_refs(x):
            return
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) == 2 and len(y) == 2 and x[0] == "ref" and y[0] == "ref" and isinstance(x[1], int) and isinstance(y[1], int):
                return self.same_ref(x, y, n, what, loc)
            if is_fn(x) and is_fn(y):
                return self.same_fn(x, y, n, what, loc)
            if not (x and y and (isinstance(x[0], str) or isinstance(y[0], str))):
                x, y = spread(x, y, n), spread(y, x, n)
            if len(x) == len(y) and x and (x[0] == y[0] or not isinstance(x[0], str)):
                for p, q in zip(x, y):
                    if isinstance(p, tuple) or isinstance(q, tuple):
                        self.unify(p, q, n, what, loc, full)
                    elif p != q:
                        self.different(what, full, loc, (x, y))
                return
        self.different(what, full, loc, (x, y))

    def different(self, what, full, loc, local=None):
        if unsure(full[0]) or unsure(full[1]):
            raise Unsure(what + " is outside of the abstraction: " + show(full[0])[:100])
        x, y = local or full
        raise Diff(what, x, y, loc)

    def same_ref(self, x, y, n, what, loc):
        key = ("A", x[1])
        if key in self.bij:
            if self.bij[key] != y[1]:
                raise Diff(what + ": another object", x, y, loc)
            return
        self.bij[key] = y[1]
        ox, oy = self.heaps[0].heap.get(x[1]), self.heaps[1].heap.get(y[1])
        if ox is None or oy is None:
            raise Unsure("object")
        if ox.kind != oy.kind or ox.cls is not oy.cls and not (ox.cls and oy.cls and ox.cls.qual == oy.cls.qual):
            raise Diff("{}: {} instead of {}".format(what, ox.cls or ox.kind, oy.cls or oy.kind), x, y, loc)
        if ox.kind == "inst":
            for k in sorted(set(ox.attrs) | set(oy.attrs)):
                p, q = ox.attrs.get(k), oy.attrs.get(k)
                if p is None or q is None:
                    if isinstance(k, str) and k.startswith("__"):
                        if k == "__copyof__":
                            raise Unsure("copy of another object")
                        continue
                    so = (ox if p is None else oy).attrs.get("__copyof__")
                    if so is not None:
                        z = ("a", so, k)
                        self.same(p or z, q or z, n, "{} of {}".format(k, what), loc)
                        continue
                    raise Unsure("attribute {} is missing".format(k))
                self.same(p, q, n, "{} of {}".format(k, what), loc)
            return
        fx, fy = n(self.fz(x, 0)), n(self.fz(y, 1))
        self.unify(fx, fy, n, what, loc, (fx, fy))
        self.known(fx, what)

    def same_fn(self, x, y, n, what, loc):
        """Compare two callables by calling them with the same symbolic arguments."""
        if x == y:
            return
        key = ("F", x, y)
        if key in self.bij:
            return
        self.bij[key] = True
        fx = self.eng.callee(x, self.heaps[0])[0] if x[0] != "partial" else None
        fy = self.eng.callee(y, self.heaps[1])[0] if y[0] != "partial" else None
        f = fy or fx
        if f is None:
            raise Unsure("callable")
        a = f.node.args
        names = [z.arg for z in a.posonlyargs + a.args]
        g = self.eng.callee(x, self.heaps[0])
        if y[0] == "bm":
            names = names[1:]
        args = tuple(("p", "arg%d" % i) for i in range(len(names)))
        res = []
        for v, h in ((x, self.heaps[0]), (y, self.heaps[1])):
            st = h.copy()
            st.events = ()
            st.exc = None
            st.store = {}
            st.conds = dict(n.conds)
            ps = []
            from engine import Path
            for s, r in self.eng.call(v, args, (), st, None):
                if s.exc is not None:
                    e, s.exc = s.exc, None
                    ps.append(Path("raise", e, s))
                else:
                    ps.append(Path("ret", r, s))
            res.append(ps)
        sub = Comparator(self.eng, self.ignore, self.ints, self.ordered, self.kinds, True, self.sets, self.set_ok, self.channel_fn, arrange=self.arrange)
        sub.compare(res[0], res[1])
        self.leaves += sub.leaves
        if sub.diffs:
            d, c = sub.diffs[0]
            c = {a: v for a, v in c.items() if a not in n.conds}
            when = " [when {}]".format(show_conds(c)[:400]) if c else ""
            raise Diff("{}: deferred computation{}: {}".format(what, when, d.what), d.a, d.b, d.loc or loc)
        if sub.unsure:
            raise Unsure(sub.unsure[0])

    # -- effects
    def visible(self, evs):
        out = []
        for e in evs:
            if e.kind not in self.kinds:
                if not (e.kind == "set" and self._inloop):
                    continue
            if e.kind == "mut" and e.a[0] == "ref":
                continue  # local container; its value is compared where it is used
            if e.kind in ("set", "setitem", "delitem") and e.a[0] == "ref":
                continue
            if e.kind == "call" and e.a[0] == "ext" and e.a[1].replace("builtins.", "") in EXC_PARENTS:
                continue  # creation of an exception
            if self.ignore(e):
                continue
            if e.kind == "exit" and e.a[0] == "call" and e.a[1] == ("ext", "builtins.open") and e.a[2][1:] in ((), (C("r"),), (C("rb"),)):
                continue  # the end of reading
            if e.kind == "loop":
                if not self.loop_visible(e):
                    continue
            out.append(e)
        return self.arrange(out) if self.arrange else out

    _inloop = 0
    whiles = False
    exiting = False  # some loop is left from inside

    def loop_visible(self, e):
        if e.c == "while" and self.whiles:
            return True  # values depend on it
        self._inloop += 1
        try:
            return self.has_exit(e) or any(self.visible(evs) for _, evs, _ in e.b)
        finally:
            self._inloop -= 1

    def channels(self, e, n=None):
        if self.ordered:
            return {"all"}
        if e.kind == "loop":
            r = set()
            self._inloop += 1
            for _, evs, _ in e.b:
                for x in self.visible(evs):
                    r |= self.channels(x, n)
            self._inloop -= 1
            if self.has_exit(e):
                r.add("control")
            return r
        if e.kind == "carry":
            return {"carry"}
        if self.channel_fn is not None:
            c = self.channel_fn(e)
            if c is not None:
                return {c}
        if e.kind in ("mut", "setitem", "delitem", "set"):
            return {("obj", self.chan_key(e.a, n))}
        if e.kind == "call":
            t = e.a
            if t[0] == "m":
                return {("obj", self.chan_key(t[1], n))}
            return {"glob"}
        return {"glob"}

    def chan_key(self, t, n):
        if t[0] == "ref":
            return ("ref",)
        return erase(n(t) if n is not None else t)

    def effects(self, ea, eb, n, conds, loc, top=False, want=None):
        va, vb = self.visible(ea), self.visible(eb)
        ca = set().union(*[self.channels(e, n) for e in va]) if va else set()
        cb = set().union(*[self.channels(e, n) for e in vb]) if vb else set()
        for ch in sorted(ca | cb, key=repr):
            if want is not None and ch != want:
                continue
            pa = [e for e in va if ch in self.channels(e, n)]
            pb = [e for e in vb if ch in self.channels(e, n)]
            self.sequence(pa, pb, n, conds, loc, ch)

    def sequence(self, pa, pb, n, conds, loc, ch):
        pa, pb = self.written(pa), self.written(pb)
        i = 0
        while i < len(pa) or i < len(pb):
            x = pa[i] if i < len(pa) else None
            y = pb[i] if i < len(pb) else None
            i += 1
            if x is None or y is None:
                z = x or y
                if self.uncertain_event(z):
                    raise Unsure("effect outside of the abstraction: " + (show_ev(x) if x else "none") + " / " + (show_ev(y) if y else "none"))
                # a loop over an empty sequence has no effect
                if z.kind == "loop" and n.is_empty(n(z.a)):
                    (pb if x is not None else pa).insert(i - 1, z)
                    continue
                raise Diff("{} effect {}".format("missing" if x is None else "unexpected", show_ev(z)),
                           x and show_ev(x), y and show_ev(y), (x.loc if x is not None and x.loc else loc))
            self.event(x, y, n, conds, x.loc or loc, ch)

    def written(self, evs):
        """Text put piece by piece into a file, or into the pieces of a document, as one text."""
        def text(e):
            if e.kind == "mut" and len(e.fargs[0]) == 1 and not e.fargs[1]:
                v = e.fargs[0][0]
                chunks = e.a[0] == "a" and e.a[2] == "chunks"
                if e.b == "write" or e.b == "append" and chunks:
                    return v
                if e.b == "writelines" or e.b == "extend" and chunks:
                    return ("join", C(""), v)
            if e.kind == "loop" and e.c != "while" and e.ret is None and len(e.b) == 1 and not e.b[0][0] and e.b[0][2][0] in ("next", "cont"):
                inner = self.written(self.visible(e.b[0][1]))
                if len(inner) == 1 and text(inner[0]) is not None and text(inner[0])[0] != "join":
                    where[e] = inner[0]
                    t = subst(text(inner[0]), {("elem", e.a, 0): ("elem", e.a, "b")})
                    return ("join", C(""), ("list", (("each", e.a, (((), (t,)),)),)))
            return None
        where = {}
        out = []
        last = None
        for e in evs:
            t = text(e)
            if t is None:
                last = None
                out.append(e)
                continue
            w = where.get(e, e)
            if last is not None and last[0] == w.a:
                t = mkstr((last[1], t))
                out.pop()
            elif e is w and e.b in ("write", "append"):
                last = (w.a, t)
                out.append(e)
                continue
            last = (w.a, t)
            name = {"writelines": "write", "extend": "append"}.get(w.b, w.b)
            out.append(Ev("mut", w.a, name, (t,), e.loc, None, ((t,), ())))
        return out

    def uncertain_event(self, e):
        if e.kind == "loop":
            return e.c == "while" or any(self.uncertain_event(z) for _, evs, _ in e.b for z in evs if z.kind in self.kinds)
        if e.kind == "call" and e.a[0] == "v":
            return unsure(e.a) or bool(find_terms(e.a, lambda t: t[0] == "call")) or unsure(e.fargs)
        if e.kind == "call" and e.a[0] in ("f",) and not self.known_target(e.a) and "<locals>" not in e.a[1]:
            return True
        return unsure(e.fargs) or unsure(e.a)

    def known_target(self, t):
        q = t[1]
        return q in self.eng.opaque or q.split(".")[-1] in self.eng.opaque or ".".join(q.split(".")[-2:]) in self.eng.opaque

    def event(self, x, y, n, conds, loc, ch):
        if x.kind != y.kind:
            if self.uncertain_event(x) or self.uncertain_event(y):
                raise Unsure("effect outside of the abstraction: " + (show_ev(x) if x else "none") + " / " + (show_ev(y) if y else "none"))
            raise Diff("{} instead of {}".format(show_ev(x), show_ev(y)), show_ev(x), show_ev(y), loc)
        if x.kind == "loop":
            if x.c == "while" or y.c == "while":
                if x.c != y.c:
                    raise Unsure("while loop")
            else:
                a, b = n(x.a), n(y.a)
                if a != b:
                    if unsure(a) or unsure(b):
                        raise Unsure("iterable")
                    raise Diff("iterates over {} instead of {}".format(show(a), show(b)), a, b, loc)
            if x.ret is not None or y.ret is not None:
                # named loop-carried values: the same initial values here, the same changes below
                if x.ret is None or y.ret is None or len(x.ret) != len(y.ret):
                    if os.environ.get("ELSIE_SA_CARRY"):
                        print("  code carries", [(s, show(v)[:80]) for s, v in x.ret or ()], "spec carries", [(s, show(v)[:80]) for s, v in y.ret or ()])
                    raise Unsure("values carried by a loop")
                for (s1, v1), (s2, v2) in zip(x.ret, y.ret):
                    self.same(v1, v2, n, "initial value", loc)
            nn = Norm(self.eng, conds, self.ints)
            A = []
            for side, l in ((x, 0), (y, 1)):
                lst = []
                for c, evs, o in side.b:
                    d = self.norm_conds(c, nn)
                    if d is None:
                        continue
                    lst.append(Alt(d, "next" if o[0] in ("next", "cont") else "done" if o[0] == "done" else "exit", None, evs))
                A.append(lst)

            def leaf(P, Q, cc):
                if A[0] and not P or A[1] and not Q or self.outside(cc):
                    return  # infeasible
                a = P[0] if P else None
                b = Q[0] if Q else None
                ea = a.events if a else ()
                eb = b.events if b else ()
                oa = a.outcome if a else "next"
                ob = b.outcome if b else "next"
                both = set(a.conds) & set(b.conds) if a and b else set()
                for z in cc:
                    if isinstance(z, tuple) and unsure(z) and (z not in both or find_terms(z, lambda t: t[0] in UNNAMED)):
                        raise Unsure("condition outside of the abstraction: " + show(z)[:300])
                if oa != ob:
                    raise Diff("iteration {} instead of {}".format(oa, ob), None, None, loc)
                if oa in ("exit", "done"):
                    return
                self.effects(ea, eb, Norm(self.eng, cc, self.ints), cc, loc, want=ch)

            self._inloop += 1
            try:
                sub_d, sub_u = self.diffs, self.unsure
                self.diffs, self.unsure = [], []
                self.walk(A[0], A[1], dict(conds), leaf)
                d, u = self.diffs, self.unsure
                self.diffs, self.unsure = sub_d, sub_u
            finally:
                self._inloop -= 1
            if d:
                dd = d[0][0]
                raise Diff("in loop over {}: {}".format(show(n(x.a)), dd.what), dd.a, dd.b, dd.loc or loc)
            if u:
                raise Unsure(u[0])
            return
        if x.kind == "carry":
            if x.a != y.a:
                raise Unsure("values carried by a loop")
            self.same(x.c, y.c, n, "carried value", loc)
        elif x.kind == "call":
            self.target(x, y, n, loc)
            self.args(x, y, n, loc)
        elif x.kind in ("mut",):
            if x.b != y.b:
                raise Diff("{} instead of {}".format(show_ev(x), show_ev(y)), show_ev(x), show_ev(y), loc)
            self.args(x, y, n, loc)
        elif x.kind in ("setitem", "delitem", "set"):
            self.same(x.b if isinstance(x.b, tuple) else C(x.b), y.b if isinstance(y.b, tuple) else C(y.b), n, "key", loc)
            if x.c is not None or y.c is not None:
                self.same(x.c, y.c, n, "stored value", loc)
        else:
            pass

    def target(self, x, y, n, loc):
        a, b = x.a, y.a
        if a[0] == "m" and b[0] == "m":
            if a[2] != b[2]:
                raise Diff("calls {} instead of {}".format(show_ev(x), show_ev(y)), show_ev(x), show_ev(y), loc)
            self.same(a[1], b[1], n, "receiver of " + a[2], loc)
            return
        if a[0] == "f" and b[0] == "f" and "<locals>" in a[1] and "<locals>" in b[1]:
            return  # recursion of the local function that is being compared
        if n(a) != n(b):
            if any(t[0] == "f" and not self.known_target(t) for t in (a, b)):
                raise Unsure("recursion: " + show_ev(x) + " / " + show_ev(y))
            if a[0] == "v" or b[0] == "v" or a[0] == "f" and not self.known_target(a):
                self.same(a, b, n, "callee", loc)
                return
            raise Diff("calls {} instead of {}".format(show_ev(x), show_ev(y)), show_ev(x), show_ev(y), loc)

    def args(self, x, y, n, loc):
        (fa, fk), (ga, gk) = self.canon_args(x), self.canon_args(y)
        name = show_target(x)
        fa, ga = spread(fa, ga, n), spread(ga, fa, n)
        if len(fa) != len(ga) or [k for k, _ in fk] != [k for k, _ in gk]:
            if x.kind == "call" and x.a[0] == "f" and "<locals>" in x.a[1]:
                raise Unsure("arguments of a local recursion")
            self.different("arguments of " + name, ((fa, fk), (ga, gk)), loc)
        for i, (p, q) in enumerate(zip(fa, ga)):
            self.same(p, q, n, "argument {} of {}".format(i + 1, name), loc)
        for (k, p), (_, q) in zip(fk, gk):
            self.same(p, q, n, "argument {} of {}".format(k, name), loc)

    def canon_args(self, e):
        """Positional and keyword arguments in one canonical order for repo functions."""
        fa, fk = e.fargs
        return canon_call(self.eng.prog, e.a if e.kind == "call" else None, fa, fk)


def spread(args, other, n):
    """Positional arguments of which one is a whole sequence, as many as in the other call."""
    stars = [i for i, a in enumerate(args) if isinstance(a, tuple) and a and a[0] == "*"]
    k = len(other) - len(args) + 1
    if len(stars) != 1 or k < 1 or any(isinstance(a, tuple) and a and a[0] == "*" for a in other):
        return args
    i = stars[0]
    return tuple(args[:i]) + tuple(n(("idx", args[i][1], C(j))) for j in range(k)) + tuple(args[i + 1:])


def canon_call(prog, t, fa, fk):
    """Arguments of a call of a repo function by parameter name, with its constant defaults."""
    f = None
    if t is not None:
        q = t[1] if t[0] == "f" else t[3] if t[0] == "m" and len(t) > 3 else None
        if t[0] == "new":
            c = prog.classes.get(t[1])
            f = c.find("__init__") if c else None
        elif q:
            f = prog.funcs.get(q)
    if f is None and t is not None and t[0] == "m" and fa and not any(a[0] == "*" for a in fa):
        # an unknown receiver: the names on which all methods of that name agree
        pos = agreed(prog, t[2])
        if len(pos) >= len(fa) and not set(pos[:len(fa)]) & {k for k, _ in fk}:
            return (), tuple(sorted(tuple(zip(pos, fa)) + tuple(fk), key=repr))
    if f is not None and fa and fa[-1][0] == "*" and not any(a[0] == "*" for a in fa[:-1]) and f.node.args.vararg is None:
        # the elements of the last argument are the required parameters that are left
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][:len(a.posonlyargs + a.args) - len(a.defaults)]
        if f.cls is not None and not f.is_static and t[0] in ("m", "new"):
            pos = pos[1:]
        pos = pos[len(fa) - 1:]
        if pos and not set(pos) & {k for k, _ in fk}:
            fa = tuple(fa[:-1]) + tuple(("idx", fa[-1][1], C(i)) for i in range(len(pos)))
    if f is None or any(a[0] == "*" for a in fa):
        return fa, tuple(sorted(fk, key=repr))
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    defaults.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    if f.cls is not None and not f.is_static and t[0] in ("m", "new"):
        pos = pos[1:]
    out = dict(zip(pos, fa))
    rest = tuple(fa[len(pos):])
    stars = []
    for k, v in fk:
        if k == "**":
            stars.append((k, v))
        elif k in out:
            return fa, tuple(sorted(fk, key=repr))
        else:
            out[k] = v
    if not stars:
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in out and n in defaults and isinstance(defaults[n], ast.Constant):
                out[n] = C(defaults[n].value)
    return rest, tuple(sorted(out.items())) + tuple(stars)


def agreed(prog, name):
    """Names of the positional parameters of the methods with a name, as far as they are the same."""
    memo = prog.__dict__.setdefault("agreed_memo", {})
    if name not in memo:
        lists = []
        for c in prog.classes.values():
            f = c.methods.get(name)
            if f is not None and c.qual.startswith("elsie."):
                if f.node.args.vararg is not None and not f.node.args.args[1:]:
                    continue
                lists.append([x.arg for x in f.node.args.posonlyargs + f.node.args.args][0 if f.is_static else 1:])
        out = []
        for names in zip(*lists) if lists else ():
            if len(set(names)) > 1:
                break
            out.append(names[0])
        memo[name] = out
    return memo[name]


def _mkstate():
    from engine import State
    return State()


def is_fn(t):
    """A function value, as opposed to an argument that happens to have such a name."""
    return len(t) > 2 and (t[0] == "fn" and isinstance(t[1], str) or t[0] in ("bm", "partial"))


def erase(t):
    """Term without the identity of local functions and objects."""
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] in ("fn", "bm", "partial", "ref"):
            return (t[0],)
        return tuple(erase(x) for x in t)
    return t


def has_refs(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "ref" and isinstance(x[1], int):
            return True
        return any(has_refs(y) for y in x)
    return False


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 8:
        return "…"
    s = lambda x: show(x, depth + 1)  # noqa
    k = t[0]
    if k == "c" and len(t) == 3:
        return repr(t[2])
    if k == "p":
        return str(t[1])
    if k == "a" and len(t) == 3:
        return s(t[1]) + "." + str(t[2])
    if k == "elem":
        return "each(" + s(t[1]) + ")"
    if k == "idx":
        return s(t[1]) + "[" + s(t[2]) + "]"
    if k == "poly":
        return " + ".join(("" if c == (1, 1) else "%s*" % (Fraction(*c))) + "*".join(s(x) for x in m) if m else str(Fraction(*c)) for m, c in t[1])
    if k in ("add", "sub", "mul", "div") and len(t) == 3:
        return "(" + s(t[1]) + {"add": " + ", "sub": " - ", "mul": " * ", "div": " / "}[k] + s(t[2]) + ")"
    if k == "ext" or k == "cls" or k == "mod":
        return str(t[1])
    if k == "str":
        return "".join(x[2] if x[0] == "c" else "{" + s(x) + "}" for x in t[1]).join("''")
    if k == "call" and len(t) == 5:
        g = t[1]
        name = s(g[1]) + "." + g[2] if g[0] == "m" else str(g[1])
        return name + "(" + ", ".join([s(x) for x in t[2]] + ["%s=%s" % (a, s(b)) for a, b in t[3]]) + ")"
    if k in ("atom", "natom"):
        return ("not " if k == "natom" else "") + s(t[1])
    if isinstance(k, str):
        return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
    return "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t) + ")"


def show_key(k):
    return "{}.{}".format(show(k[0]), k[1] if isinstance(k[1], str) else show(k[1]))


def show_target(e):
    if e.kind == "mut":
        return "{}.{}".format(show(e.a), e.b)
    t = e.a
    if t[0] == "m":
        return "{}.{}".format(show(t[1]), t[2])
    return str(t[1]) if isinstance(t[1], str) else show(t[1])


def show_ev(e):
    if isinstance(e, str):
        return e
    if e.kind == "loop":
        return "loop over " + show(e.a)
    if e.kind in ("call", "mut"):
        a = e.fargs or ((), ())
        return "{}({})".format(show_target(e), ", ".join([show(x) for x in a[0]] + ["%s=%s" % (k, show(v)) for k, v in a[1]]))
    return "{} {}".format(e.kind, show(e.a) if isinstance(e.a, tuple) else e.a)


def show_conds(conds):
    return "; ".join("{}{}".format("" if v else "not ", show(a)) for a, v in conds.items() if isinstance(a, tuple))
