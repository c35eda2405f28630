"""Chains of character replacements as tables: (text, {character: what replaces it})."""
import ast
import html
import re

REF = re.compile(r"&(?:#[0-9]+|#[xX][0-9a-fA-F]+|apos|quot);|\u00a0")


def is_str(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "c" and isinstance(t[2], str)


def tidy(s):
    """The same character reference for a reader of XML, written in one way."""
    return REF.sub(lambda m: "&#{};".format(ord(html.unescape(m.group()))) if len(html.unescape(m.group())) == 1 else m.group(), s)


def charmap(t, prog=None):
    r = table(t, prog)
    if r is None:
        return None
    base, m = r
    return base, {k: tidy(v) for k, v in m.items() if v != k}


def table(t, prog):
    step = one(t, prog)
    if step is None:
        return None
    base, new, chain = step
    old = table(base, prog)
    if old is None:
        return base, dict(new)
    base, m = old
    apply = (lambda s: s.translate(str.maketrans(new)))
    m = {k: apply(v) for k, v in m.items()}
    for k, v in new.items():
        m.setdefault(k, v)
    return base, m


def one(t, prog):
    """(text, table, None) of one replacement."""
    if t[0] == "call" and len(t) == 5 and t[4] == 0:
        f, args, kw = t[1], t[2], dict(t[3])
        if f[0] == "m" and f[2] == "replace" and len(args) == 2 and is_str(args[0]) and is_str(args[1]) and not kw:
            if len(args[0][2]) == 1:
                return f[1], {args[0][2]: args[1][2]}, None
        if f[0] == "m" and f[2] == "translate" and len(args) == 1 and not kw:
            d = translation(args[0], prog)
            if d is not None:
                return f[1], d, None
        if f[0] == "ext" and f[1] in ("html.escape", "xml.sax.saxutils.escape") and args:
            d = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
            if f[1] == "html.escape":
                q = args[1] if len(args) > 1 else kw.get("quote", ("c", "bool", True))
                if q == ("c", "bool", True):
                    d.update({'"': "&quot;", "'": "&#x27;"})
                elif q != ("c", "bool", False):
                    return None
            elif len(args) > 1 or kw:
                e = translation(args[1] if len(args) > 1 else kw.get("entities"), prog)
                if e is None:
                    return None
                d = {**e, **d} if not any(set(v) & set("&<>") - {"&"} for v in e.values()) else None
                if d is None:
                    return None
            return args[0], d, None
    if t[0] == "join" and t[1] == ("c", "str", ""):
        return joined(t[2])
    return None


def joined(seq):
    """''.join(table.get(c, c) for c in text)"""
    if seq[0] == "ext":
        seq = seq[1]
    if seq[0] != "list" or len(seq[1]) != 1 or seq[1][0][0] != "each" or len(seq[1][0]) != 3:
        return None
    _, it, alts = seq[1][0]
    elem = ("elem", it, "b")
    d = {}
    default = False
    if not isinstance(alts, tuple) or not all(isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) for a in alts):
        return None
    for conds, values in alts:
        ch = None
        for c, v in conds:
            if c[0] != "eq" or elem not in c[1:]:
                return None
            k = c[1] if c[2] == elem else c[2]
            if not is_str(k) or len(k[2]) != 1:
                return None
            if v:
                ch = k[2]
        if len(values) != 1:
            return None
        if ch is None:
            if values[0] != elem:
                return None
            default = True
        else:
            v = values[0]
            if v == elem:
                continue
            if not is_str(v):
                return None
            d[ch] = v[2]
    return (it, d, None) if default and d else None


def translation(t, prog):
    if t is None:
        return None
    if t[0] == "dict" and not t[2]:
        out = {}
        for k, v in t[1]:
            if k[0] == "call" and k[1] == ("ext", "builtins.ord") and is_str(k[2][0]):
                k = k[2][0]
            if k[0] == "c" and type(k[2]) is int:
                k = ("c", "str", chr(k[2]))
            if not is_str(k) or not is_str(v) or len(k[2]) != 1:
                return None
            out[k[2]] = v[2]
        return out
    if t[0] == "call" and t[1] in (("m", ("ext", "builtins.str"), "maketrans"), ("ext", "builtins.str.maketrans")) and len(t[2]) == 1:
        return translation(t[2][0], prog)
    if t[0] in ("g", "gdict") and prog is not None:
        mod = prog.modules.get(t[1])
        if mod is None:
            return None
        found = [n.value for n in mod.tree.body if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t[2] for x in n.targets)]
        if len(found) != 1:
            return None
        e = found[0]
        if isinstance(e, ast.Call) and ast.unparse(e.func) == "str.maketrans" and len(e.args) == 1:
            e = e.args[0]
        try:
            d = ast.literal_eval(e)
        except ValueError:
            return None
        if not isinstance(d, dict):
            return None
        out = {}
        for k, v in d.items():
            k = chr(k) if isinstance(k, int) else k
            if not isinstance(k, str) or len(k) != 1 or not isinstance(v, str):
                return None
            out[k] = v
        return out
    return None
