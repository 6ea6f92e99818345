"""Checks over one generic timestep (see step.py) and its exit relations (rel.py)."""
from contextlib import contextmanager
from .base import Obs, ROOT, where_of
from . import rel
from .step import Step, MASSES, RHOMAX, getf
from absint import poly as P

PRECIP = ['none', 'rain', 'snow', 'mixed']
MODE = {'C01': 'energy'}
DEEP = {'C10': {'temp'}, 'C11': {'water'}, 'C22': {'cap'}}
JOB_LIMIT = 850


def jobs(pid, tier):
    order = [(1, 'snow'), (2, 'mixed'), (2, 'snow'), (1, 'mixed'), (2, 'none'), (2, 'rain'), (1, 'rain'), (1, 'none'),
             (0, 'snow'), (0, 'mixed'), (0, 'rain'), (0, 'none')]
    return [(pid, r, p) for r, p in order]


LIMIT = P.const(550)


@contextmanager
def exact(I):
    """run without replacing values by fresh symbols and without joins"""
    keep = I.bulky, I.retcap, I.cap
    I.bulky, I.retcap, I.cap = None, 400, 400
    try:
        yield
    finally:
        I.bulky, I.retcap, I.cap = keep


def watch_cap(S, ob, tag):
    """the density cap holds where runoff is determined (C11 relies on it)"""
    def h(I, st, f, d, fr, n):
        if st.facts.sign(getf(st, S.ss, 'z_s_0')) == '+' and not st.ghost.get('vanished'):
            rel.Rel(S, st, ob, tag).cmp('rho <= maximum where runoff is determined', RHOMAX - getf(st, S.ss, 'rho'), '>=', 'rho')
        return NotImplemented
    S.I.override['Snobal.runoff'] = h


def watch_runoff(S, ob, tag):
    I = S.I

    def h(I, st, f, d, fr, n):
        del I.override['Snobal.runoff']
        try:
            if st.facts.sign(getf(st, S.ss, 'z_s_0')) == '+' and not st.ghost.get('vanished'):
                # shown by C22
                st.assume(RHOMAX - getf(st, S.ss, 'rho'), '>=')
            with exact(I):
                for s2, _ in I.call_func(f, [], dict(d), st.copy(), fr, n):
                    if s2.ghost.get('vanished') or s2.facts.sign(getf(s2, S.ss, 'z_s_0')) != '+':
                        continue
                    swi, full = getf(s2, S.ss, 'swi'), getf(s2, S.ss, 'h2o_max') - getf(s2, S.ss, 'h2o')
                    z = lambda v: not v.t or s2.facts.sign(v) == '0'
                    ob.add('everything else is runoff', P.equal(getf(s2, S.ss, 'h2o') + swi, getf(s2, S.ss, 'h2o_total')),
                           '[%s] h2o + swi = %s, h2o_total = %s' % (tag, P.show(getf(s2, S.ss, 'h2o') + swi, 90), P.show(getf(s2, S.ss, 'h2o_total'), 90)),
                           where_of(s2, S.ss, 'swi'))
                    ob.add('runoff only above capacity', z(swi) or z(full), '[%s] swi=%s, h2o_max-h2o=%s' % (tag, P.show(swi, 90), P.show(full, 90)),
                           where_of(s2, S.ss, 'swi'))
            return I.call_func(f, [], dict(d), st, fr, n)
        finally:
            I.override['Snobal.runoff'] = h
    I.override['Snobal.runoff'] = h


def generic(S, st):
    """a copy of the state whose snowpack and current record are arbitrary values of
    the same kind (same layers, same signs, consistent geometry)"""
    st = st.copy()
    for ref, keep in ((S.ss, ()), (getf(st, S.model, 'input1'), ())):
        o = st.get(ref)
        new = {}
        for k, v in o.f.items():
            if isinstance(v, P.Poly) and not v.is_const():
                x = P.fresh('any.' + k, v.labels())
                op = {'+': '>', '0+': '>=', '-': '<', '0-': '<=', '!0': '!=', '0': '=='}.get(st.facts.sign(v))
                if op:
                    st.assume(x, op)
                new[k] = x
        w = st.w(ref).f
        w.update(new)
    w = st.w(S.ss).f
    if st.facts.sign(w['z_s_l']) == '0':
        w['z_s'] = w['z_s_0']
    else:
        w['z_s'] = w['z_s_0'] + w['z_s_l']
    w['m_s'], w['m_s_0'], w['m_s_l'] = w['rho'] * w['z_s'], w['rho'] * w['z_s_0'], w['rho'] * w['z_s_l']
    return st


def watch_compaction(S, ob, tag):
    """clauses about the two compaction routines, checked at each call"""
    I = S.I

    seen = set()

    def probe(f, d, st, fr, n):
        with exact(I):
            return I.call_func(f, [], dict(d), st, fr, n)

    def handler(name):
        def h(I, st, f, d, fr, n):
            key = 'Snobal.' + name
            del I.override[key]
            try:
                g = lambda s, x: getf(s, S.ss, x)
                sg = tuple(st.facts.sign(g(st, x)) for x in ('rho', 'z_s_0', 'z_s_l', 'melt', 'm_s'))
                if sg[:2] == ('+', '+') and sg[4] == '+' and (name, sg) not in seen:
                    seen.add((name, sg))
                    st0 = generic(S, st)
                    pre = {x: g(st0, x) for x in ('m_s', 'rho', 'z_s')}
                    hi = st0.copy()
                    if hi.assume(pre['rho'] - LIMIT, '>'):
                        before = dict(hi.get(S.ss).f)
                        for s2, _ in probe(f, d, hi, fr, n):
                            now = s2.get(S.ss).f
                            bad = [k for k in MASSES if k in before and isinstance(before[k], P.Poly) and
                                   not P.equal(before[k], now[k])]
                            ob.add('%s does nothing above its limit' % name, not bad, '[%s] changes %s' % (tag, bad),
                                   where_of(s2, S.ss, bad[0]) if bad else '')
                    lo = st0.copy()
                    if lo.assume(LIMIT - pre['rho'], '>='):
                        for s2, _ in probe(f, d, lo, fr, n):
                            if s2.facts.sign(g(s2, 'z_s_0')) != '+':
                                continue
                            post = {x: g(s2, x) for x in ('m_s', 'rho', 'z_s')}
                            ob.add('%s keeps the mass' % name, P.equal(post['m_s'], pre['m_s']), '[%s] m_s becomes %s' % (tag, P.show(post['m_s'], 200)), where_of(s2, S.ss, 'm_s'))
                            dr = post['rho'] - pre['rho']
                            ob.add('%s never lowers density' % name, not dr.t or s2.facts.compare(dr, '>=') is True or s2.facts.prove(dr),
                                   '[%s] density changes by %s' % (tag, P.show(dr, 300)), where_of(s2, S.ss, 'rho'))
                            if name == 'h2o_compact':
                                q = LIMIT - post['rho']
                                ob.add('%s stays within its limit' % name, s2.facts.compare(q, '>=') is True or s2.facts.prove(q),
                                       '[%s] %s must be >= 0' % (tag, P.show(q, 300)), where_of(s2, S.ss, 'rho'))
                return I.call_func(f, [], dict(d), st, fr, n)
            finally:
                I.override[key] = h
        return h
    for name in ('time_compact', 'h2o_compact'):
        I.override['Snobal.' + name] = handler(name)


def run_job(pid, regime, precip):
    S = Step(regime, precip, root=ROOT, mode=MODE.get(pid, 'mass'), coarse=pid in DEEP, groups=DEEP.get(pid))
    S.I.deep = pid in DEEP
    ob = Obs()
    if pid == 'C22' and regime:
        watch_compaction(S, ob, 'start: %d layers, %s' % (regime, precip))
        watch_cap(S, ob, 'start: %d layers, %s' % (regime, precip))
    if pid == 'C11' and regime:
        watch_runoff(S, ob, 'start: %d layers, %s' % (regime, precip))
    outs, excs = S.run()
    ob.stats(S.I)
    ob.count('exit states', len(outs))
    ob.count('raising exits', len(excs))
    if not outs:
        raise RuntimeError('no exit state')
    for st, _ in outs:
        rel.ALL[pid](rel.Rel(S, st, ob, 'start: %d layers, %s' % (regime, precip)))
    return ob


EXPL = ('One generic timestep is interpreted abstractly from Snobal(...) and Snobal.do_data_tstep(record1, record2) '
        'for every entry state with 0, 1 or 2 layers and every kind of record (no precipitation, rain, snow, mixed): '
        'all state fields and weather inputs are unconstrained symbols subject only to the stated entry invariant; '
        'branches split the state, loops are iterated to a fixpoint, states are joined in an affine/sign domain. '
        'Physics functions that only produce fluxes are opaque terms. ')


def explain(pid):
    return EXPL


# instance counts below which the analysis has not looked at what it should
MIN = {'C01': {'surface energy sum': 60, 'total energy sum': 60, 'R_n is zero without snow': 4, 'one layer: G_0 = G': 20},
       'C02': {'mass ledger': 40, 'no snow: runoff': 4},
       'C03': {'depth adds up': 60, 'm_s = rho z_s': 60},
       'C04': {'no layers: m_s = 0': 10, 'one layer: m_s_l = 0': 20},
       'C10': {'cc_s_0 <= 0': 60, 't_s_0 <= freezing': 40, 't_s_l <= freezing': 20, 't_s <= freezing': 40},
       'C11': {'swi >= 0': 60, 'melt >= 0': 60, 'water held <= capacity': 20, 'everything else is runoff': 60},
       'C22': {'rho <= maximum': 60, 'h2o_compact never lowers density': 10, 'time_compact never lowers density': 10}}
