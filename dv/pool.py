"""process pool with a time budget"""
import multiprocessing as mp
import os
import sys
import time


def _quiet():
    """workers report through their results; solver chatter goes nowhere"""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def pmap(fn, jobs, budget, procs=None):
    procs = procs or min(8, os.cpu_count() or 1)
    end = time.time() + budget
    sys.stdout.flush()
    ctx = mp.get_context("fork")
    pool = ctx.Pool(procs, _quiet, maxtasksperchild=60)
    try:
        it = pool.imap_unordered(fn, jobs)
        for _ in range(len(jobs)):
            left = end - time.time()
            if left <= 0:
                break
            try:
                yield it.next(timeout=left)
            except mp.TimeoutError:
                break
    finally:
        pool.terminate()
        pool.join()
