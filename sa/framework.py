"""Obligations, reports and evidence shared by all rules."""
import ast
import json
import os
import signal
import sys
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from compare import Comparator, show, show_conds, show_ev  # noqa
from engine import C, Engine, Limit, Obj, State  # noqa
from program import AnchorError, Program  # noqa

SPEC = os.path.join(VERIF, "spec")


PEEL = {"quick": (2, 3, 4), "thorough": (2, 3, 4, 5, 6)}  # iterations analysed one by one where a loop has no closed form
BUDGET = {"quick": 60, "thorough": 300}  # seconds per obligation


def _alarm(signum, frame):
    raise Limit("time")


TOTAL = 600  # seconds for all obligations of a check
START = time.time()


class budget:
    """Time limit for one obligation (nested uses keep the outer limit)."""
    active = False

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.outer = budget.active
        if not self.outer:
            budget.active = True
            signal.signal(signal.SIGALRM, _alarm)
            left = max(0.5, min(self.seconds, TOTAL - (time.time() - START)))
            signal.setitimer(signal.ITIMER_REAL, left, 1)  # again, should the first one get lost in a handler

    def __exit__(self, *a):
        if not self.outer:
            signal.setitimer(signal.ITIMER_REAL, 0)
            budget.active = False
        return False


class Ctx:
    def __init__(self, prop, tier="quick", root=None):
        global START
        START = time.time()
        self.prop = prop
        self.tier = tier
        extra = []
        if os.path.isdir(SPEC):
            for f in sorted(os.listdir(SPEC)):
                if f.endswith(".py"):
                    extra.append(("spec." + f[:-3], os.path.join(SPEC, f)))
        self.prog = Program(root, extra=tuple(extra))
        self.obligations = []  # (rule, subject, verdict, detail)
        self.violations = []
        self.analysed = set()
        self.partitions = 0
        self._attrs = None
        self._tier = tier
        self.judge = None  # the differences that concern the property (default: all)

    # -- verdicts
    def ok(self, rule, subject, detail=""):
        self.obligations.append((rule, subject, "holds", detail))

    def undecided(self, rule, subject, why):
        self.obligations.append((rule, subject, "undecided", why))

    def violation(self, rule, subject, message, loc=None):
        self.obligations.append((rule, subject, "violated", message))
        where = ""
        if isinstance(loc, str):
            where = loc
        elif loc is not None and len(loc) >= 2:
            where = "{}:{}".format(loc[0], loc[1]) + (" in " + loc[2] if len(loc) > 2 and loc[2] else "")
        self.violations.append({
            "rule": rule, "construct": subject, "where": where, "message": message,
            "key": "{}|{}".format(rule, subject),
        })

    def verdict(self, rule, subject, bad, loc=None, detail=""):
        if bad:
            self.violation(rule, subject, bad, loc)
        else:
            self.ok(rule, subject, detail)

    def flow(self, api=()):
        """Origins of all values of the program."""
        from flow import Flow
        with budget(500):
            fl = Flow(self.prog, api)
        self.analysed |= {f.qual for f in fl.funcs}
        return fl

    # -- engine
    def engine(self, **kw):
        e = Engine(self.prog, **kw)
        return e

    def paths(self, func, eng=None, **kw):
        """Path table of a function; None (and an undecided obligation) when it is out of reach."""
        f = self.prog.func(func) if isinstance(func, str) else func
        eng = eng or self.engine()
        ps = eng.run(f, **kw)
        self.analysed |= eng.analysed
        self.partitions += len(ps)
        return ps

    def vocabulary(self):
        """All attribute, parameter and function names of the analysed program."""
        if self._attrs is None:
            v = set()
            for name, m in self.prog.modules.items():
                if name.startswith("spec."):
                    continue
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        v.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        v.add(n.name)
                    elif isinstance(n, ast.arg):
                        v.add(n.arg)
                    elif isinstance(n, ast.keyword) and n.arg:
                        v.add(n.arg)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        v.add(n.value)
                    elif isinstance(n, ast.Name):
                        v.add(n.id)
            self._attrs = v | set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set))
        return self._attrs

    def missing_vocabulary(self, spec):
        v = self.vocabulary()
        out = []
        for n in ast.walk(spec.node):
            if isinstance(n, ast.Attribute) and n.attr not in v:
                r = self.prog.resolve_expr(spec.module, n)
                if r is None or r[0] != "ext":
                    out.append(n.attr)
        return sorted(set(out))

    def default_mismatch(self, f, g):
        """Parameters whose constant defaults differ: {(code name, spec name): (code value, spec value)}."""
        def table(fn):
            a = fn.node.args
            pos = a.posonlyargs + a.args
            d = {x.arg: v for x, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
            d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
            return [x.arg for x in pos], [x.arg for x in a.kwonlyargs], d
        pf, kf, df = table(f)
        pg, kg, dg = table(g)
        pairs = list(zip(pf, pg)) + [(k, k) for k in kf if k in kg] + [(k, k) for k in kf if k in pg] + [(k, k) for k in kg if k in pf]
        out = {}
        for x, y in pairs:
            u, v = df.get(x), dg.get(y)
            if isinstance(u, ast.Constant) and isinstance(v, ast.Constant) and (type(u.value) is not type(v.value) or u.value != v.value):
                out[(x, y)] = (("c", type(u.value).__name__, u.value), ("c", type(v.value).__name__, v.value))
        return out

    def conform(self, rule, code, spec, *args, also=(), **kw):
        """Conformance to a specification, or to one of the other ways to do the same."""
        n, m = len(self.obligations), len(self.violations)
        result = self.conform_one(rule, code, spec, *args, **kw)
        if len(self.violations) > m and also:
            first = self.obligations[n:], self.violations[m:]
            for other in also:
                del self.obligations[n:], self.violations[m:]
                again = self.conform_one(rule, code, other, *args, **kw)
                if len(self.violations) == m:
                    return again
            self.obligations[n:], self.violations[m:] = first
        return result

    def conform_one(self, *args, **kw):
        try:
            with budget(BUDGET.get(self.tier, 60)):
                return self._conform(*args, **kw)
        except Limit as x:
            self.undecided(args[0], str(args[1]), "limit: {}".format(x))
            return None

    def _conform(self, rule, code, spec, subject=None, self_type=None, args=None, types=None, eng=None, run_kw=None,
                spec_args=None, cmp=None, filter_paths=None, opaque=(), pure=(), raises=None, inline=None, trace=(), anchor=False,
                assume=None, shapes=(), _defaults=False):
        """The summary of a repo function equals the summary given by the specification table."""
        subject = subject or (code if isinstance(code, str) else code.qual)
        cmp = dict(cmp or {})
        try:
            try:
                f = self.prog.func(code) if isinstance(code, str) else code
            except AnchorError as x:
                if anchor:
                    raise
                self.undecided(rule, subject, "there is no such function: {}".format(x))
                return None
            g = self.prog.func(spec)
            miss = self.missing_vocabulary(g)
            if miss:
                self.undecided(rule, subject, "the code no longer uses the names " + ", ".join(miss))
                return None
            if not _defaults:
                diff = self.default_mismatch(f, g)
                if diff:
                    a2, s2 = dict(args or {}), dict(spec_args or {})
                    for n, (x, y) in diff.items():
                        a2[n[0]] = x
                        s2[n[1]] = y
                    self.conform(rule, code, spec, subject + " (defaults)", self_type, a2, types, eng, run_kw, s2, cmp, filter_paths,
                                 opaque, pure, raises, inline, trace, anchor, assume, shapes, _defaults=True)
            keywords = []

            def compared(peel, eng=None, carry=False, shape=None):
                e = eng or self.engine(opaque=opaque, pure=pure, raises=raises, types=types, inline=inline, trace=trace, peel=peel, carry=carry)
                fa = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                ga = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
                amap = dict(args or {})
                smap = dict(args or {})
                smap.update(spec_args or {})
                if f.cls is not None and not f.is_static and fa and ga:
                    t = self_type or f.cls
                    if f.is_classmethod:
                        smap.setdefault(ga[0], ("cls", t.qual))
                        amap.setdefault(fa[0], ("cls", t.qual))
                    else:
                        e.types[("p", "self")] = t
                        smap.setdefault(ga[0], ("p", "self"))
                        amap.setdefault(fa[0], ("p", "self"))
                    fa, ga = fa[1:], ga[1:]
                for i, n in enumerate(ga):
                    if i < len(fa) and fa[i] not in amap:
                        amap[fa[i]] = smap.get(n, ("p", n))
                ko = [x.arg for x in f.node.args.kwonlyargs]
                for n in ko:
                    amap.setdefault(n, ("p", n))
                # types of the parameters from the code's annotations
                for x in f.node.args.args:
                    t = self.prog.annotation_class(f.module, x.annotation)
                    v = amap.get(x.arg)
                    if t is not None and v is not None and v[0] == "p":
                        e.types.setdefault(v, t)
                def start(fn, given, extra):
                    st = State()
                    st.conds.update(assume or {})
                    st.conds.update(shape or {})
                    kw = fn.node.args.kwarg
                    given = dict(given)
                    if kw is not None and kw.arg not in given and extra is not None:
                        given[kw.arg] = st.new(Obj("dict", attrs={C(n): v for n, v in extra.items()},
                                                   base=(("p", "**kwargs"),) if fkw and gkw else ()))
                    return dict(state=st, args=given)

                # names that one side takes with **kwargs and the other as parameters
                fkw, gkw = f.node.args.kwarg, g.node.args.kwarg
                go = [x.arg for x in g.node.args.kwonlyargs]
                more_g = [n for n in ga[len(fa):] + go if n not in fa + ko] if fkw else []
                more_f = [n for n in fa[len(ga):] + ko if n not in ga + go] if gkw else []
                plain = _defaults == "plain"
                ex_f = {n: smap.get(n, ("p", n)) for n in more_g} if not plain else {}
                ex_g = {n: amap.setdefault(n, ("p", n)) for n in more_f} if not plain else {}
                if plain:
                    for fn, names, m in ((g, more_g, smap), (f, more_f, amap)):
                        for n in names:
                            v = default_of(fn, n)
                            if v is not None:
                                m[n] = v
                            else:
                                (ex_f if m is smap else ex_g)[n] = ("p", n)
                for fn, other, m in ((f, g, amap), (g, f, smap)):
                    if fn.node.args.vararg is not None and other.node.args.vararg is None:
                        m.setdefault(fn.node.args.vararg.arg, ("tup", ()))
                if (more_g or more_f) and not _defaults:
                    keywords.append(True)
                pc = e.run(f, **start(f, amap, ex_f), self_val=amap.get(f.node.args.args[0].arg) if f.cls is not None and f.node.args.args and not f.is_static else None)
                loops, e.peeled = e.peeled, set()
                ps = e.run(g, **start(g, smap, ex_g))
                self.analysed |= {q for q in e.analysed if not q.startswith("spec.")}
                self.partitions += len(pc) + len(ps)
                if filter_paths:
                    pc, ps = filter_paths(pc), filter_paths(ps)
                e.peeled |= loops
                return Comparator(e, **cmp).compare(pc, ps)

            limit = c = None
            try:
                c = compared(None, eng)
            except Limit as x:
                limit = x
            carried = None
            if (limit or not c.diffs and c.unsure) and eng is None and not filter_paths:
                # loops that carry values: corresponding values stay equal in every iteration
                # (a loop that is left from inside is compared one iteration at a time first)
                try:
                    d = compared(None, carry=True)
                    if not d.diffs and not d.unsure:
                        if d.exiting:
                            carried = d
                        else:
                            c = d
                    elif os.environ.get("ELSIE_SA_CARRY"):
                        print("carry", subject, d.diffs[:1], d.unsure[:1])
                except Limit as x:
                    if os.environ.get("ELSIE_SA_CARRY"):
                        print("carry", subject, x)
            if (c is None or not c.diffs and c.unsure) and eng is None and not filter_paths:
                # the first iterations of the loops, one by one: only a difference counts
                try:
                    for k in PEEL.get(self.tier, (2, 3)):
                        d = compared(k)
                        if os.environ.get("ELSIE_SA_CARRY"):
                            print("peel", k, subject, len(d.diffs), d.unsure[:1])
                        if d.diffs:
                            c = d
                            break
                except Limit as x:
                    if os.environ.get("ELSIE_SA_CARRY"):
                        print("peel", k, subject, x)
                for k, shape in shapes if c is None or not c.diffs else ():
                    # inputs of a given shape
                    try:
                        d = compared(k, shape=shape)
                        if d.diffs:
                            c = d
                            break
                    except Limit as x:
                        if "time" in str(x):
                            break  # the time for this obligation is up
                if carried is not None and (c is None or not c.diffs):
                    c = carried
            if keywords and _defaults is False:
                self.conform(rule, code, spec, subject + " (no keywords)", self_type, args, types, eng, run_kw, spec_args, cmp, filter_paths,
                             opaque, pure, raises, inline, trace, anchor, assume, shapes, _defaults="plain")
            if c is None:
                raise limit
            diffs = [x for x in c.diffs if self.judge is None or self.judge(x[0])]
            if c.diffs and not diffs:
                self.ok(rule, subject, "differs in what other properties decide")
                return True
            if c.diffs:
                seen = set()
                for d, conds in diffs[:3]:
                    msg = d.what
                    if msg in seen:
                        continue
                    seen.add(msg)
                    if d.a is not None or d.b is not None:
                        msg += ": found {}, required {}".format(show(d.a) if isinstance(d.a, tuple) else d.a, show(d.b) if isinstance(d.b, tuple) else d.b)
                    if conds:
                        msg += " [when {}]".format(show_conds(conds))
                    self.violation(rule, subject, msg[:1200], d.loc or f.loc())
                return False
            if c.unsure:
                self.undecided(rule, subject, c.unsure[0])
                return None
            self.ok(rule, subject, "{} partitions agree".format(c.leaves))
            return True
        except Limit as x:
            self.undecided(rule, subject, "limit: {}".format(x))
            return None
        except AnchorError:
            raise
        except Exception as x:
            if os.environ.get("ELSIE_SA_DEBUG"):
                raise
            self.undecided(rule, subject, "not understood: {}: {}".format(type(x).__name__, str(x)[:200]))
            return None

    def attempt(self, rule, subject, fn, *args, **kw):
        """Run a special analysis; code outside of its abstraction leaves the obligation undecided."""
        try:
            with budget(BUDGET.get(self.tier, 60)):
                return fn(*args, **kw)
        except Limit as x:
            self.undecided(rule, subject, "limit: {}".format(x))
        except AnchorError:
            raise
        except Exception as x:
            if os.environ.get("ELSIE_SA_DEBUG"):
                raise
            self.undecided(rule, subject, "not understood: {}: {}".format(type(x).__name__, str(x)[:200]))
        return None


def default_of(fn, name):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    d = {x.arg: v for x, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    v = d.get(name)
    return ("c", type(v.value).__name__, v.value) if isinstance(v, ast.Constant) else None


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings")
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property={} ".format(prop)):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key] = what
    return out


def run(prop, module, tier):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    epath = os.path.join(VERIF, "evidence", prop + ".json")
    rpath = os.path.join(VERIF, "evidence", prop + ".report.json")
    ctx = Ctx(prop, tier)
    module.check(ctx)
    known = known_findings(prop)
    new = [v for v in ctx.violations if v["key"] not in known]
    old = [v for v in ctx.violations if v["key"] in known]
    obl = ctx.obligations
    count = lambda s: sum(1 for o in obl if o[2] == s)  # noqa
    need = getattr(module, "MIN_OBLIGATIONS", 1)
    cov = {
        "explanation": module.EXPLANATION + " Undecided obligations are listed; they are not counted as discharged.",
        "obligations": len(obl),
        "discharged": count("holds"),
        "undecided": ["{}: {}: {}".format(o[0], o[1], o[3]) for o in obl if o[2] == "undecided"],
        "violated": count("violated"),
        "functions_analysed": len(ctx.analysed),
        "functions": sorted(ctx.analysed),
        "partitions": ctx.partitions,
        "rules": sorted({o[0] for o in obl}),
        "modules_parsed": len([m for m in ctx.prog.modules if not m.startswith("spec.")]),
        "samples": ["{}: {}: {} {}".format(o[0], o[1], o[2], o[3])[:300] for o in obl[:400]],
    }
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov, "wall_s": round(time.time() - t0, 3), "violations": len(new),
        "assumptions": getattr(module, "ASSUMPTIONS", []),
    }
    with open(epath, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print("{}: {} obligations, {} hold, {} undecided, {} violated; {} functions, {} partitions, {:.1f} s".format(
        prop, len(obl), count("holds"), count("undecided"), count("violated"), len(ctx.analysed), ctx.partitions, ev["wall_s"]))
    for o in obl:
        if o[2] == "undecided":
            print("  undecided {}: {}: {}".format(o[0], o[1], o[3])[:300])
    for v in old:
        print("KNOWN-FINDING: property={} {} {}".format(prop, v["construct"], known[v["key"]]))
    if len(obl) < need:
        print("ERROR: only {} obligations were generated, at least {} are expected".format(len(obl), need))
        return 2
    if new:
        with open(rpath, "w", encoding="utf-8") as f:
            json.dump(new, f, indent=1)
        for v in new:
            print("{rule}: {construct}: {where}: {message}".format(**v))
        print("VIOLATION property={} replay={}".format(prop, rpath))
        return 1
    if os.path.exists(rpath):
        os.remove(rpath)
    return 0
