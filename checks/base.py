"""Obligations, the job pool and reporting."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('PYSNOBAL_ROOT', '/repo')


class Ob(object):
    """one obligation: key identifies it (stable text, no line numbers)"""
    __slots__ = ('key', 'ok', 'detail', 'where')

    def __init__(self, key, ok, detail='', where=''):
        self.key, self.ok, self.detail, self.where = key, bool(ok), detail, where

    def row(self):
        return (self.key, self.ok, self.detail, self.where)


class Obs(object):
    """collector"""

    def __init__(self, prefix=''):
        self.items = []
        self.prefix = prefix
        self.info = {}

    def add(self, key, ok, detail='', where=''):
        self.items.append(Ob((self.prefix + ' ' + key).strip(), ok, detail, where))
        return bool(ok)

    def count(self, k, n=1):
        self.info[k] = self.info.get(k, 0) + n

    def stats(self, I):
        self.info.setdefault('functions', set()).update('%s:%s' % x for x in I.stats['functions'])
        self.info.setdefault('statements', set()).update('%s:%d' % x for x in I.stats['stmts'])
        self.count('calls interpreted', I.stats['calls'])
        self.count('branch splits', I.stats['splits'])
        self.count('state joins', I.joins)


def where_of(st, ref, name):
    s = st.get(ref).sites.get(name)
    return '%s:%d (%s)' % s if s else ''


def _work(a):
    mod, job = a
    sys.setrecursionlimit(20000)
    t = time.time()
    try:
        import importlib
        m = importlib.import_module(mod)
        o = m.run_job(*job)
        return (job, [x.row() for x in o.items], o.info, None, time.time() - t)
    except Exception as e:
        return (job, [], {}, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()), time.time() - t)


def run_jobs(mod, jobs, procs=None, limit=800):
    """run jobs of a check module in parallel; list of results"""
    import multiprocessing as mp
    procs = procs or max(1, min(len(jobs), os.cpu_count() or 1))
    if procs == 1 or len(jobs) == 1 or os.environ.get('VERIF_SERIAL'):
        return [_work((mod, j)) for j in jobs]
    t0 = time.time()
    out = []
    pool = mp.get_context('fork').Pool(procs, maxtasksperchild=1)
    rs = [(j, pool.apply_async(_work, ((mod, j),))) for j in jobs]
    for j, r in rs:
        try:
            out.append(r.get(max(1, limit - (time.time() - t0))))
        except mp.TimeoutError:
            out.append((j, [], {}, 'time limit', limit))
    pool.terminate()
    return out
