"""Parallel map over forked workers (closures allowed)."""
import multiprocessing, os

_job = None


def _run(i):
    f, items = _job
    return f(items[i])


def pmap(f, items, n=8):
    global _job
    items = list(items)
    if len(items) <= 1 or os.environ.get("ORT_SERIAL"):
        return [f(x) for x in items]
    _job = (f, items)
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(n, len(items))) as pool:
        return pool.map(_run, range(len(items)), chunksize=1)
