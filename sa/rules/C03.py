"""Concurrent use of the cache."""
import cachelib

EXPLANATION = (
    "Lock-set analysis of the cache's bookkeeping and typestate analysis of claims (checked, made, withdrawn, announced) along all paths "
    "of the methods of the cache, including those on which the producer or a file operation raises."
)
ASSUMPTIONS = ["only exceptions of producers and file operations, and interruptions of a producer or of waiting, are considered"]
MIN_OBLIGATIONS = 10


def check(ctx):
    facts = cachelib.Facts(ctx)
    if not facts.locks:
        ctx.undecided("guarded", cachelib.CACHE, "the cache has no lock")
    for f in cachelib.methods(facts, ctx):
        if not cachelib.called_inside(ctx, f) and facts.locks:
            ctx.attempt("lockset", f.qual, cachelib.lockset, ctx, f, facts)
    f = ctx.prog.func(cachelib.CACHE + ".ensure")
    ctx.attempt("claims", f.qual, cachelib.claims, ctx, f, facts)
