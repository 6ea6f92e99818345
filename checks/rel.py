"""Relations checked at the end of a generic timestep."""
from absint import poly as P
from absint.poly import Poly
from .step import FREEZE, NOSNOW, RHOMAX, ENERGY, getf, _NODE
from .base import Obs, where_of


class Rel(object):
    def __init__(self, S, st, obs, tag):
        self.S, self.st, self.obs, self.tag = S, st, obs, tag
        self.precip = S.precip
        self.f = st.get(S.ss).f

    def g(self, n):
        return getf(self.st, self.S.ss, n)

    def eq(self, key, a, b, fld=None):
        d = a - b
        try:
            ok = (not d.t) or P.equal(a, b) or self.st.facts.compare(d, '==') is True
        except P.TooBig:
            ok = False
        return self.fin(key, ok, '%s  must equal  %s' % (P.show(a, 200), P.show(b, 200)), fld)

    def cmp(self, key, p, op, fld=None):
        ok = self.st.facts.compare(p, op) is True or (op in ('>', '>=') and self.st.facts.prove(p, op == '>'))
        return self.fin(key, ok, '%s  must be %s 0' % (P.show(p, 300), op), fld)

    def fin(self, key, ok, detail, fld):
        w = ''
        if not ok and fld:
            w = where_of(self.st, self.S.ss, fld) or where_of(self.st, self.S.ss, '_' + fld)
        return self.obs.add(key, ok, '' if ok else '[%s] %s' % (self.tag, detail), w)

    def layers(self):
        """0, 1, 2 or None at the end of the step"""
        z0, zl = self.st.facts.sign(self.g('z_s_0')), self.st.facts.sign(self.g('z_s_l'))
        if z0 == '0' and zl == '0':
            return 0
        if z0 == '+' and zl == '0':
            return 1
        if z0 == '+' and zl == '+':
            return 2
        return None


def c01(R):
    g = R.g
    E = {n: g(n) for n in ENERGY}
    R.eq('surface energy sum', E['delta_Q_0'], E['R_n'] + E['H'] + E['L_v_E'] + E['G_0'] + E['M'], 'delta_Q_0')
    R.eq('total energy sum', E['delta_Q'], E['delta_Q_0'] + E['G'] - E['G_0'], 'delta_Q')
    if R.S.regime == 0:
        for n in ENERGY:
            R.eq('%s is zero without snow' % n, E[n], P.ZERO, n)
        R.eq('E is zero without snow', g('E'), P.ZERO, 'E')
    if R.S.regime == 1:
        R.eq('one layer: G_0 = G', E['G_0'], E['G'], 'G_0')
    if R.S.regime:
        stale = {'old.' + n for n in ENERGY} | {'old.%s_bar' % n for n in ENERGY} | {'old.E'}
        for n in ENERGY + ['E']:
            lab = (g(n)).labels()
            R.fin('%s is recomputed' % n, not (lab & stale), 'depends on %s' % sorted(lab & stale), n)


def c02(R):
    g = R.g
    m_pp = R.S.pp
    old = R.S.vals
    n = R.layers()
    if R.S.regime == 0:
        if n == 0:
            R.eq('no snow: runoff = precipitation', g('swi'), m_pp, 'swi')
        R.eq('no snow: nothing evaporates', g('E_s'), P.ZERO, 'E_s')
    elif R.st.ghost.get('vanished') and not R.precip == 'none':
        # the pack vanished and formed anew within the step: outside the clause
        pass
    elif n in (1, 2) or n is None:
        if n is None:
            R.fin('layers known', False, 'number of layers unknown at the end', 'z_s_0')
        R.eq('mass ledger', g('m_s'), old['m_s'] + m_pp + g('E_s') - g('swi'), 'm_s')


def c03(R):
    g = R.g
    R.eq('depth adds up', g('z_s'), g('z_s_0') + g('z_s_l'), 'z_s')
    R.eq('mass adds up', g('m_s'), g('m_s_0') + g('m_s_l'), 'm_s')
    R.eq('m_s = rho z_s', g('m_s'), g('rho') * g('z_s'), 'm_s')
    R.eq('m_s_0 = rho z_s_0', g('m_s_0'), g('rho') * g('z_s_0'), 'm_s_0')
    R.eq('m_s_l = rho z_s_l', g('m_s_l'), g('rho') * g('z_s_l'), 'm_s_l')


def c04(R):
    g = R.g
    n = R.layers()
    if not R.fin('number of layers determined', n is not None,
                 'z_s_0=%s z_s_l=%s' % (P.show(g('z_s_0'), 80), P.show(g('z_s_l'), 80)), 'z_s_0'):
        return
    if n == 0:
        for x in ('m_s', 'm_s_0', 'm_s_l', 'z_s', 'rho', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_max', 'h2o_sat', 'h2o_vol'):
            R.eq('no layers: %s = 0' % x, g(x), P.ZERO, x)
        for x in ('t_s', 't_s_0', 't_s_l'):
            R.eq('no layers: %s placeholder' % x, g(x), NOSNOW, x)
    elif n == 1:
        for x in ('m_s_l', 'cc_s_l'):
            R.eq('one layer: %s = 0' % x, g(x), P.ZERO, x)
        R.eq('one layer: t_s_l placeholder', g('t_s_l'), NOSNOW, 't_s_l')


def c10(R):
    g = R.g
    n = R.layers()
    R.cmp('cc_s_0 <= 0', -g('cc_s_0'), '>=', 'cc_s_0')
    R.cmp('cc_s_l <= 0', -g('cc_s_l'), '>=', 'cc_s_l')
    st = R.st
    if n != 0:
        for t, m in (('t_s_0', 'm_s_0'), ('t_s_l', 'm_s_l'), ('t_s', 'm_s')):
            if t == 't_s_l' and n == 1:
                continue
            s2 = st.copy()
            s2.assume(g(m), '>')
            R2 = Rel(R.S, s2, R.obs, R.tag)
            R2.cmp('%s <= freezing' % t, FREEZE - g(t), '>=', t)


def c11(R):
    g = R.g
    for x in ('melt', 'swi', 'h2o', 'h2o_total'):
        R.cmp('%s >= 0' % x, g(x), '>=', x)
    R.cmp('h2o_sat <= 1', P.ONE - g('h2o_sat'), '>=', 'h2o_sat')
    if R.S.regime and R.layers() in (1, 2) and not R.st.ghost.get('vanished'):
        R.cmp('water held <= capacity', g('h2o_max') - g('h2o'), '>=', 'h2o')


def c22(R):
    R.cmp('rho <= maximum', RHOMAX - R.g('rho'), '>=', 'rho')


ALL = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C10': c10, 'C11': c11, 'C22': c22}
