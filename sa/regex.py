"""Canonical automata of regular expressions: two patterns are equal iff they accept the same strings with the same named groups."""
import functools
import re
import unicodedata

try:
    from re import _parser as sre_parse
    from re import _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sc

ALPHABET = [chr(i) for i in range(128)] + ["\u00e9", "\u0663", "\u3000", "\u20ac"]


class Unsupported(Exception):
    pass


def category(cat, ch):
    n = str(cat)
    if n.endswith("NOT_DIGIT"):
        return not ch.isdecimal()
    if n.endswith("DIGIT"):
        return ch.isdecimal()
    if n.endswith("NOT_SPACE"):
        return not ch.isspace()
    if n.endswith("SPACE"):
        return ch.isspace()
    if n.endswith("NOT_WORD"):
        return not (ch.isalnum() or ch == "_")
    if n.endswith("WORD"):
        return ch.isalnum() or ch == "_"
    raise Unsupported(n)


def in_set(items, ch):
    neg = False
    hit = False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            hit = hit or ord(ch) == av
        elif op is sc.RANGE:
            hit = hit or av[0] <= ord(ch) <= av[1]
        elif op is sc.CATEGORY:
            hit = hit or category(av, ch)
        else:
            raise Unsupported(str(op))
    return hit != neg


class Nfa:
    def __init__(self):
        self.edges = []  # per state: list of (label, target); label: None | frozenset of chars | ("mark", x) | "begin" | "end" | "endstr"

    def state(self):
        self.edges.append([])
        return len(self.edges) - 1

    def edge(self, a, label, b):
        self.edges[a].append((label, b))
        if len(self.edges) > 4000:
            raise Unsupported("size")


def build(nfa, items, start, names):
    cur = start
    for op, av in items:
        if op is sc.LITERAL or op is sc.NOT_LITERAL or op is sc.ANY or op is sc.IN:
            if op is sc.LITERAL:
                chars = frozenset([chr(av)]) if chr(av) in ALPHABET else None
            elif op is sc.NOT_LITERAL:
                chars = frozenset(c for c in ALPHABET if ord(c) != av)
            elif op is sc.ANY:
                chars = frozenset(c for c in ALPHABET if c != "\n")
            else:
                chars = frozenset(c for c in ALPHABET if in_set(av, c))
            if chars is None:
                raise Unsupported("character")
            nxt = nfa.state()
            nfa.edge(cur, chars, nxt)
            cur = nxt
        elif op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported("flags")
            name = names.get(gid)
            if name is not None:
                a = nfa.state()
                nfa.edge(cur, ("mark", "<" + name), a)
                b = build(nfa, sub, a, names)
                cur = nfa.state()
                nfa.edge(b, ("mark", name + ">"), cur)
            else:
                cur = build(nfa, sub, cur, names)
        elif op is sc.BRANCH:
            end = nfa.state()
            for alt in av[1]:
                a = nfa.state()
                nfa.edge(cur, None, a)
                nfa.edge(build(nfa, alt, a, names), None, end)
            cur = end
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 64 or (hi is not sc.MAXREPEAT and hi > 64):
                raise Unsupported("repeat")
            for _ in range(lo):
                cur = build(nfa, sub, cur, names)
            if hi is sc.MAXREPEAT:
                a = nfa.state()
                nfa.edge(cur, None, a)
                b = build(nfa, sub, a, names)
                nfa.edge(b, None, a)
                cur = nfa.state()
                nfa.edge(a, None, cur)
            else:
                end = nfa.state()
                nfa.edge(cur, None, end)
                for _ in range(hi - lo):
                    cur = build(nfa, sub, cur, names)
                    nfa.edge(cur, None, end)
                cur = end
        elif op is sc.AT:
            label = {"AT_BEGINNING": "begin", "AT_BEGINNING_STRING": "begin", "AT_END": "end", "AT_END_STRING": "endstr"}.get(str(av))
            if label is None:
                raise Unsupported(str(av))
            nxt = nfa.state()
            nfa.edge(cur, label, nxt)
            cur = nxt
        else:
            raise Unsupported(str(op))
    return cur


def closure(nfa, states):
    """States: (nfa state, nothing consumed yet, end flag 0 none | 1 before optional final newline | 2 nothing may follow)."""
    todo = list(states)
    seen = set(states)
    while todo:
        s, fresh, end = todo.pop()
        if s == "rest":
            continue
        for label, t in nfa.edges[s]:
            n = None
            if label is None:
                n = (t, fresh, end)
            elif label == "begin" and fresh:
                n = (t, fresh, end)
            elif label == "end":
                n = (t, fresh, max(end, 1))
            elif label == "endstr":
                n = (t, fresh, 2)
            if n is not None and n not in seen:
                seen.add(n)
                todo.append(n)
    return frozenset(seen)


def step(nfa, states, sym, final, method):
    out = set()
    for s, fresh, end in states:
        if s == "rest" or s == final:
            # the pattern is finished: the remaining characters are not part of the match
            if method != "fullmatch" and isinstance(sym, str):
                if end == 0:
                    out.add(("rest", False, 0))
                elif end == 1 and sym == "\n":
                    out.add(("rest", False, 2))
        if s == "rest":
            continue
        for label, t in nfa.edges[s]:
            if isinstance(label, frozenset) and isinstance(sym, str) and sym in label:
                if end == 0:
                    out.add((t, False, 0))
                elif end == 1 and sym == "\n":
                    out.add((t, False, 2))
            elif isinstance(label, tuple) and label == sym:
                out.add((t, fresh, end))
    return closure(nfa, out)


@functools.lru_cache(maxsize=None)
def automaton(pattern, flags=0, method="match", marks=True):
    """Canonical minimal automaton (a hashable value) or None when the pattern is not supported."""
    try:
        if flags & ~(re.UNICODE | re.VERBOSE):
            return None
        tree = sre_parse.parse(pattern, flags)
        names = {}
        if marks is True:
            names = {v: k for k, v in tree.state.groupdict.items()}
        elif marks:
            names = {number(pattern, marks[0], flags): marks[1]}
        nfa = Nfa()
        start = nfa.state()
        if method == "search":
            any_ = frozenset(ALPHABET)
            # a search may start anywhere; "begin" still needs the real start
            s2 = nfa.state()
            nfa.edge(start, None, s2)
            nfa.edge(start, any_, start)
            final = build(nfa, tree, s2, names)
        else:
            final = build(nfa, tree, start, names)
        fin = nfa.state()
        nfa.edge(final, None, fin)
        final = fin
        syms = list(ALPHABET) + [("mark", x) for n in sorted(names.values()) for x in ("<" + n, n + ">")]
        first = closure(nfa, {(start, True, 0)})
        order = {first: 0}
        todo = [first]
        delta = []
        acc = []
        while todo:
            q = todo.pop(0)
            acc.append(any(s == final or s == "rest" for s, _, _ in q))
            row = []
            for a in syms:
                t = step(nfa, q, a, final, method)
                if not t:
                    row.append(-1)
                    continue
                if t not in order:
                    if len(order) > 600:
                        raise Unsupported("states")
                    order[t] = len(order)
                    todo.append(t)
                row.append(order[t])
            delta.append(row)
        return minimise(delta, acc, tuple(sorted(names.values())))
    except (Unsupported, re.error, RecursionError):
        return None


def minimise(delta, acc, names):
    n = len(delta)
    # add the dead state
    k = len(delta[0])
    delta = [[(n if t < 0 else t) for t in row] for row in delta] + [[n] * k]
    acc = acc + [False]
    cls = [1 if a else 0 for a in acc]
    while True:
        sig = {}
        new = []
        for q in range(n + 1):
            s = (cls[q],) + tuple(cls[t] for t in delta[q])
            new.append(sig.setdefault(s, len(sig)))
        if new == cls or len(set(new)) == len(set(cls)):
            cls = new
            break
        cls = new
    # canonical numbering by breadth-first search
    rep = {}
    for q in range(n + 1):
        rep.setdefault(cls[q], q)
    num = {cls[0]: 0}
    todo = [cls[0]]
    rows = []
    while todo:
        c = todo.pop(0)
        row = []
        for t in delta[rep[c]]:
            d = cls[t]
            if d not in num:
                num[d] = len(num)
                todo.append(d)
            row.append(num[d])
        rows.append((acc[rep[c]],) + tuple(row))
    return names, tuple(rows)


@functools.lru_cache(maxsize=None)
def parsed(pattern, flags=0):
    try:
        return sre_parse.parse(pattern, flags)
    except (re.error, TypeError):
        return None


def number(pattern, key, flags=0):
    """Number of a group given by its name or number (None when there is no such group)."""
    t = parsed(pattern, flags)
    if t is None:
        return None
    if isinstance(key, str):
        return t.state.groupdict.get(key)
    return key if isinstance(key, int) and 0 < key < t.state.groups else None


def keys(pattern, flags=0):
    t = parsed(pattern, flags)
    return () if t is None else tuple(range(1, t.state.groups))


@functools.lru_cache(maxsize=None)
def group_nullable(pattern, key, flags=0):
    """May the group take part in a match and be empty? (True when unknown)"""
    t = parsed(pattern, flags)
    gid = number(pattern, key, flags)
    if gid is None:
        return True
    found = []

    def walk(p):
        for op, av in p:
            if op is sc.SUBPATTERN:
                if av[0] == gid:
                    found.append(av[3].getwidth()[0])
                walk(av[3])
            elif op is sc.BRANCH:
                for x in av[1]:
                    walk(x)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                walk(av[2])
            elif op not in SIMPLE:
                found.append(0)
    walk(t)
    return not found or min(found) == 0


SIMPLE = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.AT)


@functools.lru_cache(maxsize=None)
def covered(pattern, gids, flags=0):
    """Does every match capture at least one of these groups?"""
    def seq(p):
        for op, av in p:
            if op is sc.SUBPATTERN and (av[0] in gids or seq(av[3])):
                return True
            if op is sc.BRANCH and all(seq(x) for x in av[1]):
                return True
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] > 0 and seq(av[2]):
                return True
        return False
    t = parsed(pattern, flags)
    return t is not None and seq(t)


@functools.lru_cache(maxsize=None)
def exclusive(pattern, a, b, flags=0):
    """Are two groups in different alternatives (and not repeated)?"""
    def path(p, gid):
        for i, (op, av) in enumerate(p):
            if op is sc.SUBPATTERN:
                if av[0] == gid:
                    return ()
                r = path(av[3], gid)
                if r is not None:
                    return (("sub", id(av[3])),) + r
            elif op is sc.BRANCH:
                for k, x in enumerate(av[1]):
                    r = path(x, gid)
                    if r is not None:
                        return (("alt", id(av[1]), k),) + r
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                r = path(av[2], gid)
                if r is not None:
                    return (("rep" if av[1] != 1 else "opt", id(av[2])),) + r
        return None
    t = parsed(pattern, flags)
    if t is None or a == b:
        return False
    x, y = path(t, a), path(t, b)
    if x is None or y is None:
        return False
    for u, v in zip(x, y):
        if u[0] == "rep" or v[0] == "rep":
            return False
        if u != v:
            return u[0] == v[0] == "alt" and u[1] == v[1]
    return False


# -- canonical names: terms of equal languages and groups get the pattern that was seen first
_MATCH = {}
_GROUP = {}


@functools.lru_cache(maxsize=None)
def canon_match(pattern, method):
    a = automaton(pattern, 0, method, False)
    if a is None:
        return (pattern, method)
    register(pattern, method)
    return _MATCH.setdefault(a, (pattern, method))


@functools.lru_cache(maxsize=None)
def canon_group(pattern, method, gid):
    register(pattern, method)
    a = automaton(pattern, 0, method, (gid, "g"))
    if a is None:
        return (pattern, method, gid)
    return _GROUP.setdefault(a, (pattern, method, gid))


@functools.lru_cache(maxsize=None)
def register(pattern, method):
    for g in keys(pattern):
        a = automaton(pattern, 0, method, (g, "g"))
        if a is not None:
            _GROUP.setdefault(a, (pattern, method, g))


def witness(a, b):
    """A shortest string on which two canonical automata (without marks) differ."""
    if a is None or b is None:
        return None
    ra, rb = a[1], b[1]
    todo = [(0, 0, "")]
    seen = {(0, 0)}
    while todo:
        p, q, w = todo.pop(0)
        if ra[p][0] != rb[q][0]:
            return w
        for i, ch in enumerate(ALPHABET):
            n = (ra[p][i + 1], rb[q][i + 1])
            if n not in seen:
                seen.add(n)
                todo.append(n + (w + ch,))
    return None


unicodedata  # noqa
