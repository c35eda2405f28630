"""Pruning of the caches."""
import cachelib
import rules.C04 as C04
import rules.F03 as F03
from compare import show

EXPLANATION = (
    "Removal of unused files, the marking of used files on every path of a request, pruning and saving of the measurements, and the order "
    "of these operations in the rendering of a deck are summarised per path and compared with spec/cache.py, spec/queries.py and spec/deck.py."
)
ASSUMPTIONS = []
MIN_OBLIGATIONS = 8


def check(ctx):
    ctx.conform("removal", cachelib.CACHE + ".remove_unused", "spec.cache.remove_unused", anchor=True)
    ctx.conform("entries", cachelib.CACHE + ".__init__", "spec.cache.cache_init")
    ctx.conform("delegates", cachelib.CACHE + ".ensure_by_file", "spec.cache.by_file", opaque=("ensure",))
    ctx.conform("delegates", cachelib.CACHE + ".get", "spec.cache.get", opaque=("ensure",), cmp=dict(channel=cachelib.producer_channel))
    ctx.attempt("used", cachelib.CACHE + ".ensure", used, ctx)
    C04.queries(ctx)
    F03.render(ctx)
    ctx.conform("preview", "elsie.render.backends.backend.Backend.prune_cache", "spec.deck.nothing")
    ctx.conform("preview", "elsie.render.backends.backend.Backend.save_cache", "spec.deck.nothing")


def used(ctx):
    """Every returned entry was marked as used, and recorded as an entry when it was produced."""
    f = ctx.prog.func(cachelib.CACHE + ".ensure")
    facts = cachelib.Facts(ctx)
    bad = loc = None
    for p in cachelib.run(ctx, f, facts, cachelib.producer_fails):
        if p.state is None or p.outcome != "ret":
            continue
        name = cachelib.path_parts(p.value)[1]
        if name is None:
            ctx.undecided("used", f.qual, "the returned path is " + show(p.value)[:80])
            return
        marked = [e for k, e in cachelib.flat(p.events) if k == "ev" and e.kind == "mut" and e.a == ("a", cachelib.SELF, "touched_files")]
        if not any("add" in str(e.b) and name in args_of(e) for e in marked):
            bad, loc = "{} is returned without being marked as used".format(show(p.value)[:120]), f.loc()
        made = any(k == "ev" and cachelib.is_producer(e) for k, e in cachelib.flat(p.events))
        added = any(k == "ev" and e.kind == "mut" and e.a == ("a", cachelib.SELF, "cache_files") and "add" in str(e.b) and name in args_of(e)
                    for k, e in cachelib.flat(p.events))
        if made and not added:
            bad, loc = "{} is produced without being recorded as an entry".format(show(p.value)[:120]), f.loc()
    ctx.verdict("used", f.qual, bad, loc=loc)


def args_of(e):
    out = []
    for x in (e.b, e.c):
        if isinstance(x, tuple):
            out += [x] + list(x)
            for y in x:
                if isinstance(y, tuple):
                    out += list(y)
    return out
