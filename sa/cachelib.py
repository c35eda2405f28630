"""Typestate and lock-set analysis of the file cache over all paths, including exceptional ones."""
from compare import find_terms, show
from engine import Limit

CACHE = "elsie.utils.cache.FsCache"
SELF = ("p", "self")
MAKE_LOCK = {"threading.Lock": "Lock", "threading.RLock": "RLock"}
PUBLISH = ("os.replace", "os.rename", "os.renames")
COPY = ("shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.move", "shutil.copyfileobj")
REMOVE = ("os.remove", "os.unlink")
UNIQUE = ("uuid.", "tempfile.", "secrets.", "random.")
MAY_FAIL = PUBLISH + COPY + REMOVE + ("builtins.open", "io.open", "os.open", "os.fdopen", "tempfile.mkstemp", "tempfile.NamedTemporaryFile",
                                     "os.makedirs", "os.mkdir", "os.link", "os.symlink", "os.fsync", "os.close", "os.listdir", "os.stat")


def ext_name(t):
    """Name of an external callee."""
    return t[1] if t[0] in ("ext", "e") else None


def callee(e):
    """(external name, method name, receiver) of a call event."""
    r = e.ret
    t = r[1] if isinstance(r, tuple) and r and r[0] == "call" else e.a
    n = ext_name(t)
    if n:
        return n, None, None
    if t[0] == "m":
        return None, t[2], t[1]
    return None, None, None


def arguments(e):
    r = e.ret
    if isinstance(r, tuple) and r and r[0] == "call":
        return list(r[2]) + [v for _, v in r[3] if isinstance(v, tuple)]
    return list(e.b or ())


def is_producer(e):
    if e.kind != "call":
        return False
    r = e.ret
    t = r[1] if isinstance(r, tuple) and r and r[0] == "call" else e.a
    return t[0] == "v" and t[1][0] == "p"


def producer_fails(tgt, args, st):
    if tgt[0] == "v" and tgt[1][0] == "p":
        return ("?E", "?B")
    if ext_name(tgt) in MAY_FAIL and ext_name(tgt) not in REMOVE:
        return ("?E",)
    if tgt[0] == "m" and tgt[2] in ("wait", "wait_for"):
        return ("?B",)
    return ()


class Facts:
    """Locks, shared state and claims of the cache, from its constructor."""

    def __init__(self, ctx):
        c = ctx.prog.classes[CACHE]
        self.cls = c
        self.locks, self.state = {}, set()
        eng = ctx.engine()
        for p in ctx.paths(c.find("__init__"), eng):
            for e in p.events:
                if e.kind != "set" or e.a != SELF:
                    continue
                v = e.c
                if v[0] == "call" and ext_name(v[1]) in MAKE_LOCK:
                    self.locks[e.b] = MAKE_LOCK[ext_name(v[1])]
                elif v[0] == "ref" and p.state.heap[v[1]].kind in ("set", "dict", "list"):
                    self.state.add(e.b)
                elif v[0] in ("set", "dict", "list", "copyof"):
                    self.state.add(e.b)
        self.mutated = set()

    def lock_of(self, t):
        return t[2] if t[0] == "a" and t[1] == SELF and t[2] in self.locks else None


def run(ctx, f, facts, fails, opaque=()):
    eng = ctx.engine(raises=fails, max_paths=6000, record_reads=facts.state, opaque=opaque)
    return ctx.paths(f, eng)


class Section:
    """State of the walk along one path."""

    def __init__(self):
        self.depth = 0
        self.section = 0      # number of the current locked section
        self.acquired = 0


def flat(events):
    """Events of a path in order; the body of a finished loop appears between ("loop", ...) and ("endloop", ...) marks."""
    for e in events:
        if e.kind == "loop":
            yield "loop", e
            for conds, es, out in e.b:
                if out[0] == "next":
                    yield "alt", e
                    for x in flat(es):
                        yield x
                    yield "endalt", e
            yield "endloop", e
        else:
            yield "ev", e


def failed(seq, i):
    """The call at position i raises."""
    return i + 1 < len(seq) and seq[i + 1][0] == "ev" and seq[i + 1][1].kind == "raise" and seq[i + 1][1].ret == "implicit"


def path_parts(t):
    """(directory, file name) of a path term."""
    if t[0] == "path" and len(t[1]) == 2:
        return t[1]
    return None, None


def const_prefix(t):
    if t[0] == "c" and isinstance(t[2], str):
        return t[2], True
    if t[0] == "str":
        out = ""
        for x in t[1]:
            if x[0] == "c" and isinstance(x[2], str):
                out += x[2]
            else:
                return out, False
        return out, True
    return "", False


# ------------------------------------------------------------------------------------------ publication (C02)
def publication(ctx, f, facts):
    """One verdict per rule about how the results of producers become entries."""
    v = {"private": None, "published": None, "atomic": None, "cleaned": None, "complete": None, "distinct": None}
    loc = {}
    und = {}
    paths = run(ctx, f, facts, producer_fails)
    seen = 0

    def bad(rule, msg, e):
        if v[rule] is None:
            v[rule], loc[rule] = msg, getattr(e, "loc", None)
    for p in paths:
        if p.state is None:
            continue
        seq = list(flat(p.events))
        entry = p.value if p.outcome == "ret" else None
        target = None
        called = False
        produced = None  # index of a producer call that succeeded
        published = False
        gone = False
        for i, (k, e) in enumerate(seq):
            if k != "ev" or e.kind != "call":
                continue
            ext, meth, recv = callee(e)
            args = arguments(e)
            if is_producer(e):
                seen += 1
                target = next((a for a in args if a[0] == "path"), args[1] if len(args) > 1 else None)
                called = True
                prev = e
                gone = published = False
                produced = None if failed(seq, i) else i
                if target is None:
                    und["private"] = "the output path of the producer is unknown"
                    continue
                d, n = path_parts(target)
                made = find_terms(target, lambda t: t[0] == "call" and (ext_name(t[1]) or "").startswith("tempfile."))
                if n is None and made:
                    kw = dict(made[0][3])
                    if kw.get("dir") != ("a", SELF, "cache_dir"):
                        bad("private", "the producer writes to a temporary file that may be on another file system than the entries", e)
                    pre = kw.get("prefix", ("c", "str", "tmp"))
                    if const_prefix(pre)[0].startswith("cache."):
                        bad("private", "the name of the temporary file looks like an entry", e)
                    continue
                if n is None:
                    und["private"] = "the output path is " + show(target)[:80]
                    continue
                pre, whole = const_prefix(n)
                if pre.startswith("cache."):
                    bad("private", "the producer writes to {}, the name of which looks like an entry".format(show(target)[:160]), e)
                elif not whole and "cache.".startswith(pre):
                    und["private"] = "the name of the output starts with an unknown text: " + show(n)[:80]
                if d != ("a", SELF, "cache_dir"):
                    if find_terms(d, lambda t: t[0] == "call" and (ext_name(t[1]) or "").startswith("tempfile.")):
                        bad("private", "the producer writes to {}, which may be on another file system than the entries".format(show(d)[:100]), e)
                    else:
                        und["private"] = "the directory of the output is " + show(d)[:80]
                uniq = find_terms(n, lambda t: t[0] == "call" and (ext_name(t[1]) or "").startswith(UNIQUE))
                if not uniq:
                    if not find_terms(n, lambda t: t[0] == "call" and ext_name(t[1]) == "os.getpid"):
                        bad("distinct", "two processes that produce the same entry write to the same temporary file {}".format(show(n)[:160]), e)
                    elif not find_terms(n, lambda t: t[0] == "call" and t[1][0] == "m" and t[1][2] in ("hexdigest", "digest") or
                                        t[0] == "call" and (ext_name(t[1]) or "") in ("threading.get_ident", "threading.get_native_id")):
                        bad("distinct", "entries that are produced at the same time share the temporary file {}".format(show(n)[:160]), e)
            elif ext in PUBLISH or ext == "shutil.move" or meth in ("replace", "rename") and len(args) == 1 and recv[0] != "c" and "Path" in str(recv):
                src, dst = (args[0], args[1]) if ext and len(args) > 1 else (recv, args[0] if args else None)
                if target is not None and src == target:
                    if produced is None:
                        bad("published", "a file is published although its producer has not succeeded", e)
                    if not failed(seq, i):
                        published = gone = True
                        if entry is not None and dst != entry:
                            bad("published", "the file is renamed to {}, but {} is returned".format(show(dst)[:100], show(entry)[:100]), e)
                elif target is None and produced is None and dst is not None and path_parts(dst)[1] is not None and const_prefix(path_parts(dst)[1])[0].startswith("cache."):
                    bad("published", "{} is made an entry before anything is produced".format(show(src)[:100]), e)
            elif ext in COPY and ext != "shutil.move" and len(args) > 1 and target is not None and args[0] == target:
                bad("atomic", "the entry is copied instead of renamed, so that it is visible while it is incomplete", e)
            elif ext in ("builtins.open", "io.open") and args and path_parts(args[0])[1] is not None and const_prefix(path_parts(args[0])[1])[0].startswith("cache."):
                mode = next((a[2] for a in args[1:2] if a[0] == "c" and isinstance(a[2], str)), "r")
                if any(m in mode for m in "wax+"):
                    bad("atomic", "the entry {} is written in place".format(show(args[0])[:100]), e)
            elif ext in REMOVE and target is not None and args and args[0] == target:
                gone = True
            elif meth == "unlink" and target is not None and find_terms(recv, lambda t: t == target):
                gone = True
        if target is not None:
            if p.outcome == "ret" and produced is not None and not published:
                bad("complete", "{} is returned although the produced file was not published".format(show(entry)[:100]), prev)
            if p.outcome == "ret" and produced is None:
                bad("complete", "{} is returned although the producer failed".format(show(entry)[:100]), prev)
            if p.outcome == "raise" and not gone and not absent(p.conds, target):
                bad("cleaned", "the temporary file stays behind when {}".format(
                    "the producer fails" if produced is None else "publishing fails"), prev)
        elif not called and p.outcome == "ret" and "ensure" == f.name:
            if not known(p, entry, facts):
                bad("complete", "{} is returned without a check that it is a complete entry".format(show(entry)[:100]), None)
    if not seen:
        for r in v:
            ctx.undecided(r, f.qual, "no call of a producer was found")
        return
    for r in v:
        if v[r]:
            ctx.violation(r, f.qual, v[r], loc.get(r) or f.loc())
        elif r in und:
            ctx.undecided(r, f.qual, und[r])
        else:
            ctx.ok(r, f.qual, "{} paths".format(len(paths)))


def absent(conds, target):
    for a, val in conds.items():
        if isinstance(a, tuple) and a[0] == "truthy" and a[1][0] == "call" and ext_name(a[1][1]) in ("os.path.exists", "os.path.isfile", "os.path.lexists") \
                and a[1][2] and a[1][2][0] == target and not val:
            return True
    return False


def known(p, entry, facts):
    """The path established that the returned file is an entry, or the caller did not want to wait."""
    for a, val in all_conds(p):
        if a[0] == "in" and a[2][0] == "a" and a[2][1] == SELF and val:
            return True
        if a[0] == "truthy" and a[1][0] == "call" and ext_name(a[1][1]) in ("os.path.exists", "os.path.isfile") and val:
            return True
        if a == ("truthy", ("p", "wait_on_collision")) and not val:
            return True
    return False


def all_conds(p):
    for a, val in p.conds.items():
        if isinstance(a, tuple):
            yield a, val


# ------------------------------------------------------------------------------------------ locks and claims (C03)
def methods(facts, ctx):
    return [f for n, f in sorted(facts.cls.methods.items()) if n != "__init__"]


def called_inside(ctx, f):
    """Private helper that is analysed as a part of the methods that call it."""
    return f.name.startswith("_")


def lockset(ctx, f, facts):
    """Accesses of the bookkeeping only under the lock; the lock is taken once at a time and not held while a file is produced."""
    bad, loc = {}, {}

    def report(rule, msg, e):
        if rule not in bad:
            bad[rule], loc[rule] = msg, e.loc
    paths = run(ctx, f, facts, producer_fails)
    for p in paths:
        if p.state is None:
            continue
        depth = 0
        for k, e in flat(p.events):
            if k != "ev":
                continue
            if e.kind == "enter" and facts.lock_of(e.a):
                if depth and facts.locks[facts.lock_of(e.a)] == "Lock":
                    report("order", "the lock is taken again by the thread that already holds it", e)
                depth += 1
            elif e.kind == "exit" and facts.lock_of(e.a):
                depth -= 1
            elif e.kind == "call":
                ext, meth, recv = callee(e)
                if recv is not None and facts.lock_of(recv) and meth == "acquire":
                    if depth and facts.locks[facts.lock_of(recv)] == "Lock":
                        report("order", "the lock is taken again by the thread that already holds it", e)
                    depth += 1
                elif recv is not None and facts.lock_of(recv) and meth == "release":
                    depth -= 1
                elif is_producer(e) and depth:
                    report("held", "the lock is held while a file is produced", e)
            elif e.kind == "read" and e.a == SELF and e.b in facts.state and not depth:
                report("guarded", "{} is used without holding the lock".format(e.b), e)
            elif e.kind in ("set", "mut", "setitem", "delitem") and not depth:
                t = e.a
                name = e.b if e.kind == "set" and t == SELF else t[2] if t[0] == "a" and t[1] == SELF else None
                if name in facts.state:
                    report("guarded", "{} is changed without holding the lock".format(name), e)
        if depth > 0:
            bad.setdefault("order", "the lock is still held when the method is left")
            loc.setdefault("order", f.loc())
        elif depth < 0:
            bad.setdefault("order", "the lock is released more often than it is taken")
            loc.setdefault("order", f.loc())
    for rule in ("guarded", "order", "held"):
        if rule in bad:
            ctx.violation(rule, f.qual, bad[rule], loc[rule])
        else:
            ctx.ok(rule, f.qual, "{} paths".format(len(paths)))


def claims(ctx, f, facts):
    """Protocol of the claims: checked, made, withdrawn and announced in the right order."""
    bad, loc, und = {}, {}, {}

    def report(rule, msg, e):
        if rule not in bad:
            bad[rule], loc[rule] = msg, getattr(e, "loc", None) or f.loc()
    paths = run(ctx, f, facts, producer_fails)
    found = False

    def body(loop, evs, depth):
        """One more round of a waiting loop."""
        if not depth or not any(e.kind == "read" and claim_dict(facts, e.b, paths) for p in paths if p.state is not None
                                for k, e in flat(p.events) if k == "ev"):
            return
        waits = [i for i, e in enumerate(evs) if e.kind == "call" and callee(e)[1] in ("wait", "wait_for")]
        reads = [i for i, e in enumerate(evs) if e.kind == "read" and claim_dict(facts, e.b, paths)]
        leaves = any(e.kind == "exit" and facts.lock_of(e.a) for e in evs)
        if not waits and not leaves and "while" in str(loop.a):
            report("condition", "the loop goes on without waiting while it holds the lock, so that the claim is never withdrawn", loop)
        if waits and not reads and "while" in str(loop.a):
            report("rechecked", "the claims are not read again after waiting", loop)
    for p in paths:
        if p.state is None:
            continue
        depth = section = 0
        claim = None       # (dictionary, key, condition)
        checked = None     # section in which the claims were read last
        hit = None         # section in which the known entries were read last
        in_loop = 0
        waited = None
        released = False
        notified = False
        recorded = None
        produced = False
        seq = list(flat(p.events))
        for i, (k, e) in enumerate(seq):
            if k == "alt":
                in_loop += 1
                body(e, [x for _, x in seq[i + 1:end_of(seq, i)] if isinstance(_, str) and _ == "ev"], depth)
                continue
            if k == "endalt":
                in_loop -= 1
                continue
            if k != "ev":
                continue
            if e.kind == "enter" and facts.lock_of(e.a):
                depth += 1
                section += 1
            elif e.kind == "exit" and facts.lock_of(e.a):
                depth -= 1
                if claim is not None and released and not notified and depth == 0:
                    report("announced", "the claim is withdrawn but the waiting threads are not woken up", e)
            elif e.kind == "read" and e.a == SELF:
                if claim is None and not in_loop:
                    if claim_dict(facts, e.b, paths):
                        checked = section if depth else None
                    elif e.b in facts.state:
                        hit = section if depth else None
            elif e.kind == "setitem" and e.a[0] == "a" and e.a[1] == SELF and e.a[2] in facts.state:
                found = True
                val = e.c
                claim = (e.a[2], e.b, val)
                released = notified = False
                cond = val if isinstance(val, tuple) else None
                if cond is None or not (cond[0] == "call" and ext_name(cond[1]) == "threading.Condition"):
                    und["condition"] = "the claim is not a condition variable: " + show(val)[:80]
                elif not cond[2] or not facts.lock_of(cond[2][0]):
                    report("condition", "the condition of the claim does not use the lock of the cache, which stays held while a thread waits", e)
                if checked is None or checked != section:
                    report("checked", "the claim is made without checking, in the same locked section, that there is no other one", e)
                elif not none_claimed(p, e):
                    report("checked", "the claim is made although there may be another one", e)
                if waited is not None and hit is None:
                    report("reused", "after waiting, it is not tested again whether the entry exists", waited)
                if hit is not None and hit != section:
                    report("checked", "the claim is made in another locked section than the test whether the entry exists", e)
                if waited is not None and not waited_in_loop:
                    report("rechecked", "after waiting, the claims are not checked again before a new claim is made", waited)
            elif e.kind == "delitem" and claim is not None and e.a == ("a", SELF, claim[0]):
                released = True
                if e.b != claim[1]:
                    report("withdrawn", "the claim of another entry is withdrawn", e)
                if produced and p.outcome == "ret" and recorded is None:
                    report("recorded", "the claim is withdrawn before the produced entry is recorded, so that it is produced again", e)
            elif e.kind == "mut" and claim is not None and e.a == ("a", SELF, claim[0]):
                ops = str(e.b)
                if "pop" in ops or "clear" in ops:
                    released = True
                    if produced and p.outcome == "ret" and recorded is None:
                        report("recorded", "the claim is withdrawn before the produced entry is recorded, so that it is produced again", e)
            elif e.kind == "mut" and e.a[0] == "a" and e.a[1] == SELF and e.a[2] in facts.state and "add" in str(e.b) and produced:
                recorded = section
            elif e.kind == "call":
                ext, meth, recv = callee(e)
                if is_producer(e):
                    if not absent_entry(p, facts):
                        report("reused", "a file is produced although its entry may exist already", e)
                    if claim is None:
                        report("claimed", "a file is produced without a claim", e)
                    elif released:
                        report("claimed", "a file is produced after the claim was withdrawn", e)
                    produced = not failed(seq, i)
                elif meth == "wait" and recv is not None and not facts.lock_of(recv):
                    waited = e
                    hit = None
                    waited_in_loop = bool(in_loop) or any(x[0] == "loop" for x in seq[:i])
                    if arguments(e):
                        und["condition"] = "waiting with a time limit"
                    if not depth:
                        report("condition", "waiting without holding the lock", e)
                elif meth == "wait_for":
                    und["rechecked"] = "wait_for is outside of the abstraction"
                elif meth in ("notify_all", "notifyAll") and claim is not None and ours(recv, claim):
                    notified = True
                    if not depth:
                        report("announced", "waking up the waiting threads needs the lock", e)
                elif meth == "notify" and claim is not None and ours(recv, claim):
                    notified = True
                    report("announced", "only one of the waiting threads is woken up", e)
        if claim is not None:
            how = "normally" if p.outcome == "ret" else "when the producer fails"
            if not released:
                report("withdrawn", "the method is left {} without withdrawing the claim, so that later requests wait forever".format(how), None)
            elif not notified:
                report("announced", "the method is left {} without waking up the waiting threads".format(how), None)
    rules = ("reused", "condition", "checked", "rechecked", "claimed", "withdrawn", "announced", "recorded")
    for r in rules:
        if not found and r not in bad:
            ctx.undecided(r, f.qual, "no claims were found")
        elif r in bad:
            ctx.violation(r, f.qual, bad[r], loc[r])
        elif r in und:
            ctx.undecided(r, f.qual, und[r])
        else:
            ctx.ok(r, f.qual, "{} paths".format(len(paths)))


def ours(recv, claim):
    """The condition of this request's claim."""
    return recv == claim[2] or bool(find_terms(recv, lambda t: t == ("a", SELF, claim[0])))


def end_of(seq, i):
    n = 0
    for j in range(i, len(seq)):
        n += 1 if seq[j][0] == "alt" else -1 if seq[j][0] == "endalt" else 0
        if n == 0:
            return j
    return len(seq)


def absent_entry(p, facts):
    """The path established that the entry is not known or does not exist."""
    for a, val in all_conds(p):
        if a[0] == "in" and a[2][0] == "a" and a[2][1] == SELF and a[2][2] in facts.state and not claim_dict(facts, a[2][2], ()) and not val:
            return True
        if a[0] == "truthy" and a[1][0] == "call" and ext_name(a[1][1]) in ("os.path.exists", "os.path.isfile") and not val and \
                path_parts(a[1][2][0])[1] is not None and const_prefix(path_parts(a[1][2][0])[1])[0].startswith("cache."):
            return True
    return False


def claim_dict(facts, attr, paths):
    cache = facts.__dict__.setdefault("claims", {})
    if attr not in cache:
        cache[attr] = any(e.kind == "setitem" and e.a == ("a", SELF, attr) for p in paths if p.state is not None for k, e in flat(p.events) if k == "ev")
    return cache[attr]


def none_claimed(p, e):
    """The path knows that there is no claim of the key."""
    for a, val in all_conds(p):
        if a[0] == "isnone" and a[1][0] == "getitem" and a[1][1] == e.a and a[1][2] == e.b and val:
            return True
        if a[0] == "in" and a[1] == e.b and a[2] == e.a and not val:
            return True
        if a[0] == "truthy" and a[1][0] == "getitem" and a[1][1] == e.a and not val:
            return True
    return False


def producer_channel(e):
    """The producer of an entry does not touch the file that its result is written to."""
    return "producer" if e.kind == "call" and e.a[0] == "v" else None
