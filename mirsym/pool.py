"""A process pool with a hard deadline: what has not answered by then is reported as out of time."""
import multiprocessing, os, time


def results(one, work, deadline):
    """(index, result of one(item)) as they come; (index, None) for what did not answer before the deadline."""
    pending = set(range(len(work)))
    global ONE, WORK
    ONE, WORK = one, work
    pool = multiprocessing.get_context("fork").Pool(os.cpu_count() or 4)
    try:
        it = pool.imap_unordered(call, range(len(work)))
        while pending:
            try: i, r = it.next(timeout=max(0.1, deadline - time.time()))
            except (multiprocessing.TimeoutError, StopIteration): break
            pending.discard(i)
            yield i, r
    finally:
        pool.terminate()
        pool.join()
    for i in sorted(pending): yield i, None


def call(i): return i, ONE(WORK[i])
