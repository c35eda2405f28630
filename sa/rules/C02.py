"""Publication of cache entries."""
import cachelib

EXPLANATION = (
    "Along all paths of the methods of the cache, including those on which the producer, a file operation or the process's interruption "
    "raises, the file given to the producer is followed through the states written, published and removed: its name and directory, the "
    "atomic rename after success, its removal after a failure, and what is returned."
)
ASSUMPTIONS = ["os.replace is atomic within one directory", "a producer that returns has written its file completely",
               "removing a temporary file does not fail"]
MIN_OBLIGATIONS = 6


def check(ctx):
    facts = cachelib.Facts(ctx)
    f = ctx.prog.func(cachelib.CACHE + ".ensure")
    ctx.attempt("publication", f.qual, cachelib.publication, ctx, f, facts)
    ctx.conform("delegates", cachelib.CACHE + ".ensure_by_file", "spec.cache.by_file", opaque=("ensure",))
    ctx.conform("delegates", cachelib.CACHE + ".get", "spec.cache.get", opaque=("ensure",), cmp=dict(channel=cachelib.producer_channel))
    ctx.conform("entries", cachelib.CACHE + ".__init__", "spec.cache.cache_init")
    ctx.conform("queries", "elsie.render.backends.svg.backend.InkscapeBackend._save_query_cache", "spec.queries.save")
