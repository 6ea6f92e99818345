"""C24: constitutive formulas, regime by regime; C20: scalar, array and gridded versions of one formula."""
import ast
from fractions import Fraction as Fr
from absint import poly as P
from absint.poly import Poly
from absint.values import Ref, Ser
from .base import Obs, ROOT
from .step import new_interp, cls, mklist, getf, opaque, Step, SN, SS, PHYS, AnalysisError, _NODE
from . import lint

LIB, FUN, SNOW, SP = 'pysnobal.point.libsnobal', 'pysnobal.core.functions', 'pysnobal.core.snow', 'pysnobal.spatial.snow_state'
JOB_LIMIT = 600
K = lambda s: P.const(Fr(s))
S = P.sym

FREEZE, BOIL, SEA, RGAS, MAIR, MH2O = K('273.16'), K('373.15'), K('1.013246e5'), K('8.31432e3'), K('28.9644'), K('18.0153')
CAL, RHO_ICE, RHO_W, CPW = K('4.186798188'), K('917'), K('999.87'), K('4217.7')
LOG10 = P.log(K(10))
TEN = K(10)


# ------------------------------------------------------------- references
def lh_vap(t): return K('2.5e6') - K('2.95573e3') * (t - FREEZE)
def lh_fus(t): return K('3.336e5') + K('1.6667e2') * (FREEZE - t)
def lh_sub(t): return lh_vap(t) + lh_fus(t)
def cp_ice(t): return P.div(CAL * (K('0.024928') + K('0.00176') * t), K('0.001'))
def cp_water(t): return CPW - K('2.55') * (t - FREEZE)
def mix_ratio(e, p): return P.div(P.div(MH2O, MAIR) * e, p - e)
def diffusion(p, t): return K('0.65') * P.div(SEA, p) * P.power(P.div(t, FREEZE), K(14)) * K('0.0001')
def spec_hum(e, p): return P.div(e * MH2O, MAIR * p + e * (MH2O - MAIR))
def gas_density(p, m, t): return P.div(p * m, RGAS * t)
def virt(t, e, p): return P.div(t, P.ONE - (P.ONE - P.div(MH2O, MAIR)) * P.div(e, p))
def ssxfr(k1, k2, t1, t2, d1, d2): return P.div(K(2) * k1 * k2 * (t2 - t1), k2 * d1 + k1 * d2)
def h2o_left(d, r, s): return P.div(s * d * RHO_W * (RHO_ICE - r), RHO_ICE)
def kts(rho): return CAL * K('0.0077') * rho * rho * K('1e-6')
def dry(rho, v): return P.div(rho - v * RHO_W, P.ONE - P.div(v * RHO_W, RHO_ICE))
def flux(d, k, q, z): return P.div(d * k * q, z)
def average(a, t, v, i): return P.div(a * t + v * i, t + i)
def heat(cp, m, d): return cp * m * d


def satw(t):
    b = P.div(BOIL, t)
    x = K('-7.90298') * (b - P.ONE) + P.div(K('5.02808') * P.log(b), LOG10) \
        - K('1.3816e-7') * (P.power(TEN, K('11.344') * (P.ONE - P.div(t, BOIL))) - P.ONE) \
        + K('8.1328e-3') * (P.power(TEN, K('-3.49149') * (b - P.ONE)) - P.ONE) + P.div(P.log(SEA), LOG10)
    return P.power(TEN, x)


def sati(t, sign):
    if sign == '+':
        return satw(t)
    f = P.div(FREEZE, t)
    return K(100) * P.power(TEN, K('-9.09718') * (f - P.ONE) - P.div(K('3.56654') * P.log(f), LOG10)
                            + K('8.76793e-1') * (P.ONE - P.div(t, FREEZE)) + P.div(P.log(K('6.1071')), LOG10))


def efcon(k, t, p, e, sign):
    lh = lh_vap(t) if sign == '+' else (lh_sub(t) if sign == '-' else P.div(lh_vap(t) + lh_sub(t), K(2)))
    return k + lh * diffusion(p, t) * mix_ratio(e, p)


def psi(z, code, big):
    """the stable and unstable functions; z is the stability parameter"""
    x = P.sqrt(P.sqrt(P.ONE - K(16) * z))
    if code == 'SM':
        return K(2) * P.log(P.div(P.ONE + x, K(2))) + P.log(P.div(P.ONE + x * x, K(2))) - K(2) * P.app('atan', x) + P.div(S('pi'), K(2))
    return K(2) * P.log(P.div(P.ONE + x * x, K(2)))


OPS = {'+': '>', '-': '<', '0': '=='}
POS = '+'


def direct():
    """(name, module, function, arguments, assumptions, reference)"""
    a = lambda *n: [S(x) for x in n]
    t, p, e = S('t'), S('p'), S('e')
    out = [('hysat with a lapse rate', FUN, 'hysat', a('pb', 'tb', 'L', 'h', 'g', 'm'), [(S('L'), '!='), (S('tb'), '>')],
            S('pb') * P.power(P.div(S('tb'), S('tb') + S('L') * S('h')), P.div(S('g') * S('m') * K(1000), RGAS * S('L')))),
           ('hysat of an isothermal layer', FUN, 'hysat', a('pb', 'tb') + [P.ZERO] + a('h', 'g', 'm'), [(S('tb'), '>')],
            S('pb') * P.exp(P.div(-(S('g') * S('m') * S('h') * K(1000)), RGAS * S('tb')))),
           ('k_to_c', FUN, 'k_to_c', [t], [], t - FREEZE), ('cp_ice', FUN, 'cp_ice', [t], [], cp_ice(t)), ('cp_water', FUN, 'cp_water', [t], [], cp_water(t)),
           ('time_average', FUN, 'time_average', a('a', 'tt', 'v', 'i'), [(S('tt'), '>'), (S('i'), '>')], average(S('a'), S('tt'), S('v'), S('i'))),
           ('gas_density', FUN, 'gas_density', a('p', 'm', 't'), [(t, '>')], gas_density(p, S('m'), t)),
           ('virtual_temperature', FUN, 'virtual_temperature', a('t', 'e', 'p'), [(p, '>')], virt(t, e, p)),
           ('lh_vap', FUN, 'lh_vap', [t], [], lh_vap(t)), ('lh_fus', FUN, 'lh_fus', [t], [], lh_fus(t)), ('lh_sub', FUN, 'lh_sub', [t], [], lh_sub(t)),
           ('mix_ratio', FUN, 'mix_ratio', a('e', 'p'), [(p - e, '>')], mix_ratio(e, p)),
           ('diffusion_coef', FUN, 'diffusion_coef', a('p', 't'), [(p, '>'), (t, '>')], diffusion(p, t)),
           ('vapor_flux', FUN, 'vapor_flux', a('d', 'k', 'q', 'z'), [(S('z'), '>')], flux(S('d'), S('k'), S('q'), S('z'))),
           ('h2o_left', SNOW, 'h2o_left', a('d', 'r', 's'), [], h2o_left(S('d'), S('r'), S('s'))),
           ('melt', SNOW, 'melt', a('Q'), [], P.div(S('Q'), lh_fus(FREEZE))),
           ('new_tsno', SNOW, 'new_tsno', a('m', 't', 'c'), [(S('m'), '>'), (t, '>')], P.div(S('c'), S('m') * cp_ice(t)) + FREEZE),
           ('heat_stor', SNOW, 'heat_stor', a('c', 'm', 'd'), [], heat(S('c'), S('m'), S('d'))),
           ('spec_hum', LIB, 'spec_hum', a('e', 'p'), [(e, '>'), (p - e, '>')], spec_hum(e, p)),
           ('ssxfr', LIB, 'ssxfr', a('k1', 'k2', 't1', 't2', 'd1', 'd2'), [(S(x), '>') for x in ('k1', 'k2', 'd1', 'd2')],
            ssxfr(S('k1'), S('k2'), S('t1'), S('t2'), S('d1'), S('d2'))),
           ('satw', LIB, 'satw', [t], [(t, '>')], satw(t))]
    for sg, nm in (('+', 'above'), ('0', 'at'), ('-', 'below')):
        tt = t if sg != '0' else FREEZE
        out.append(('sati %s freezing' % nm, LIB, 'sati', [tt], [(t, '>'), (t - FREEZE, OPS[sg])] if sg != '0' else [], sati(tt, sg)))
        out.append(('efcon %s freezing' % nm, LIB, 'efcon', [S('k'), tt, p, e], [(t, '>'), (p - e, '>'), (p, '>')] + ([(t - FREEZE, OPS[sg])] if sg != '0' else []),
                    efcon(S('k'), tt, p, e, sg)))
        es = sati(tt, sg)
        out.append(('efcon %s freezing without a vapour pressure' % nm, LIB, 'efcon', [S('k'), tt, p],
                    [(t, '>'), (p, '>')] + ([(t - FREEZE, OPS[sg])] if sg != '0' else []), efcon(S('k'), tt, p, es, sg)))
    z = S('zeta')
    for code in ('SM', 'SH', 'SV'):
        out.append(('psi %s beyond the stable limit' % code, LIB, 'psi', [z, code], [(z - P.ONE, '>')], K('-5.2')))
        out.append(('psi %s in stable air' % code, LIB, 'psi', [z, code], [(z, '>'), (P.ONE - z, '>=')], K('-5.2') * z))
        out.append(('psi %s in neutral air' % code, LIB, 'psi', [P.ZERO, code], [], P.ZERO))
        out.append(('psi %s in unstable air' % code, LIB, 'psi', [z, code], [(z, '<')], psi(z, code, False)))
    return out


def jobs(pid, tier):
    if pid == 'C20':
        p = lint.Pkg(ROOT)
        out = [(pid, 'array', n) for n in ('satw', 'sati')] + [(pid, 'method', r) for r in (1, 2)]
        return out
    out = [(pid, 'direct', i) for i in range(len(direct()))]
    out += [(pid, 'energy', r, w, sat) for r in (1, 2) for w in ('none', 'mixed') for sat in (False, True)]
    out += [(pid, 'compact', k) for k in ('time', 'water')] + [(pid, 'evaporation', r) for r in (0, 1, 2)]
    out += [(pid, 'state', 0), (pid, 'neutral', 'neutral'), (pid, 'neutral', 'calm'), (pid, 'iterated', 0)]
    return out


def run_job(pid, kind, *arg):
    ob = Obs()
    globals()['job_' + kind](ob, *arg)
    return ob


def eq(st, a, b):
    if not isinstance(a, Poly):
        return False
    if P.equal(a, b):
        return True
    return P.equal(st.facts.reduce(a), st.facts.reduce(b))


def fn_of(I, mod, name):
    if I.load(mod) is None:
        raise AnalysisError('no module %s' % mod)
    f = I.base.get(I.modules[mod]).f.get(name)
    if f is None:
        raise AnalysisError('%s.%s not found' % (mod, name))
    return f


def job_direct(ob, i):
    name, mod, fname, args, assume, ref = direct()[i]
    I = new_interp(ROOT, opaque_physics=False)
    f = fn_of(I, mod, fname)
    st = I.start()
    for x, op in assume:
        st.assume(x, op)
    out, exc = I.run_call(f, args, {}, st, I.top_frame(mod))
    where = '%s.py (%s)' % (mod.replace('.', '/'), fname)
    ob.add('%s is the documented expression: some result' % name, bool(out), 'no normal exit', where)
    for s, v in out:
        v = v.val if isinstance(v, Ser) else v
        ob.add('%s is the documented expression' % name, eq(s, v, ref), 'is %s, documented %s' % (str(v)[:150], str(ref)[:150]), where)
    for s, e in exc:
        ob.add('%s is defined in its regime' % name, False, 'raises %s' % (e,), where)
    ob.stats(I)


# ------------------------------------------------- formulas of the model
class Reach(object):
    """the state in which a timestep starts, reached through the real driver"""

    def __init__(self, regime, precip):
        self.S = S_ = Step(regime, precip, coarse=True, groups=())
        self.I = I = S_.I
        self.got = []
        I.override['Snobal.energy_balance'] = self.stop
        S_.run()
        del I.override['Snobal.energy_balance']
        if not self.got:
            raise AnalysisError('no timestep reaches the energy balance')
        for n in list(PHYS):
            if n not in ('sati', 'satw', 'hle1'):
                I.override.pop(n, None)
        self.fr = S_.fr
        # the values compared are exact: no joining of paths from here on
        I.bulky, I.cap, I.retcap = None, 10 ** 6, 10 ** 6

    def stop(self, I, st, f, d, fr, n):
        self.got.append(st)
        return []

    def states(self, *splits):
        """copies of the reached states, split by the sign of the given expressions"""
        for st in self.got[:1]:
            cur = [(st.copy(), ())]
            for mk in splits:
                nxt = []
                for s, sg in cur:
                    x = mk(s)
                    for k, op in OPS.items():
                        s2 = s.copy()
                        if s2.assume(x, op) and s2.facts.sign(x) == k:
                            nxt.append((s2, sg + (k,)))
                cur = nxt
            for s, sg in cur:
                yield s, sg

    def set(self, st, ref, name, v):
        r = self.I.setattr(ref, name, v, st, self.fr, _NODE)
        if len(r) != 1:
            raise AnalysisError('setting %s splits' % name)
        return r[0]

    def get(self, st, ref, name):
        r = self.I.getattr(ref, name, st, self.fr, _NODE)
        if len(r) != 1:
            raise AnalysisError('reading %s splits' % name)
        return r[0]

    def call(self, st, name, args=()):
        self.I.exc.append([])
        m = self.I.getattr(self.S.model, name, st, self.fr, _NODE)
        self.I.exc.pop()
        if not m:
            raise AnalysisError('Snobal.%s not found' % name)
        out, exc = self.I.run_call(m[0][1], list(args), {}, m[0][0], self.fr)
        return [s for s, _ in out], exc


def free(R, st, regime, **signs):
    """arbitrary layer geometry and temperatures of a pack with the given layers"""
    ss = R.S.ss
    for x in ('t_s_0', 't_s_l', 't_s'):
        v = S('any.' + x)
        st.assume(v, '>')
        st = R.set(st, ss, x, v)
    return st


def judge(ob, R, st, name, v, ref, where, tag):
    ob.add('%s is the documented expression' % name, eq(st, v, ref), '[%s] is %s, documented %s' % (tag, str(v)[:160], str(ref)[:160]), where)


def hle_watch(R):
    """hle1 as an opaque result, its arguments kept"""
    def h(I, st, f, d, fr, n):
        st.ghost['hle'] = {k: v for k, v in d.items() if isinstance(v, Poly)}
        return [(st, (S('hle.H'), S('hle.L'), S('hle.E'), P.ZERO, S('hle.u'), S('hle.f')))]
    R.I.override['hle1'] = h


def job_energy(ob, regime, precip, rel):
    R = Reach(regime, precip)
    I, ss, model = R.I, R.S.ss, R.S.model
    hle_watch(R)
    base = R.got[0]
    g = lambda s, x: R.get(s, ss, x)[1]
    inp = getf(base, model, 'input1')
    i = lambda s, x: R.get(s, inp, x)[1]
    got = R.got
    R.got = [free(R, s, regime) for s in got]
    low = 't_s_l' if regime == 2 else 't_s_0'
    split = [lambda s: g(s, low) - FREEZE, lambda s: i(s, 't_g') - FREEZE]
    if regime == 2:
        split += [lambda s: g(s, 't_s_0') - FREEZE, lambda s: g(s, 't_s_0') - g(s, 't_s_l')]
    n = 0
    for st, sg in R.states(*split):
        n += 1
        tag = '%d layer(s), %s, signs %s' % (regime, precip, ''.join(sg))
        relf = getf(st, model, 'relative_hts') if 'relative_hts' in st.get(model).f else None
        if 'relative_hts' in st.get(model).f:
            st = R.set(st, model, 'relative_hts', rel)
        # facts needed by the formulas
        st0 = st.copy()
        t0, tl = g(st0, 't_s_0'), g(st0, low)
        tg, Pa = i(st0, 't_g'), getf(st0, model, 'P_a')
        rho = g(st0, 'rho')
        mh = getf(st0, model, 'measurement_heights')
        H = {k: st0.get(mh).f[k] for k in ('z_u', 'z_t', 'z_g')}
        dt = getf(st0, model, 'time_step')
        outs, exc = R.call(st, 'energy_balance')
        for s in outs:
            o = {x: g(s, x) for x in ('R_n', 'G', 'G_0', 'M', 'H', 'L_v_E', 'E')}
            W = 'pysnobal/point/snobal.py (energy_balance)'
            judge(ob, R, s, 'net radiation', o['R_n'], i(st0, 'S_n') + K('0.98') * (i(st0, 'I_lw') - K('5.67032e-8') * t0 * t0 * t0 * t0), W, tag)
            clamp = tl if sg[0] != '+' else FREEZE
            sl = sg[0] if sg[0] != '+' else '0'
            eS = P.app('sati', tl)
            eG = P.app('sati', tg)
            # the vapour pressure belongs to the layer temperature, whatever the clamp does
            ks = efcon(kts(rho), clamp, Pa, eS, sl)
            kg = efcon(K('1.65'), tg, Pa, eG, sg[1])
            ds = g(st0, 'z_s_l' if regime == 2 else 'z_s_0')
            G = ssxfr(ks, kg, clamp, tg, ds, H['z_g'])
            judge(ob, R, s, 'heat flow between snow and soil', o['G'], G, W, tag)
            if regime == 1:
                judge(ob, R, s, 'heat flow into the surface layer', o['G_0'], G, W, tag)
            else:
                if sg[3] == '0':
                    ref = P.ZERO
                else:
                    k1 = efcon(kts(rho), t0, Pa, P.app('sati', t0), sg[2])
                    k2 = efcon(kts(rho), tl, Pa, P.app('sati', tl), sg[0])
                    ref = ssxfr(k1, k2, t0, tl, g(st0, 'z_s_0'), g(st0, 'z_s_l'))
                judge(ob, R, s, 'heat flow between snow layers', o['G_0'], ref, W, tag)
            if precip == 'none':
                M = P.ZERO
            else:
                tr, ts, mr, ms = i(st0, 't_rain'), i(st0, 't_snow'), i(st0, 'm_rain'), i(st0, 'm_snow')
                M = P.div(heat(cp_water(tr), mr, tr - t0) + heat(cp_ice(ts), ms, ts - t0), dt)
            judge(ob, R, s, 'advected heat', o['M'], M, W, tag)
            a = s.ghost.get('hle')
            if a:
                z = P.ZERO if rel else g(st0, 'z_s')
                want = {'press': Pa, 'air_temp': i(st0, 't_a'), 'surface_temp': t0, 'za': H['z_t'] - z, 'zq': H['z_t'] - z, 'zu': H['z_u'] - z,
                        'es': P.app('sati', t0), 'wind_speed': i(st0, 'u'), 'z0': g(st0, 'z_0')}
                for k, v in want.items():
                    if k in a:
                        judge(ob, R, s, 'turbulent exchange input %s' % k, a[k], v, W, tag)
            for x, y in (('H', 'hle.H'), ('L_v_E', 'hle.L'), ('E', 'hle.E')):
                judge(ob, R, s, 'turbulent exchange result %s' % x, o[x], S(y), W, tag)
    ob.count('sign combinations', n)
    ob.stats(I)


def job_compact(ob, which):
    R = Reach(1, 'mixed' if which == 'water' else 'none')
    I, ss, model = R.I, R.S.ss, R.S.model
    I.override['Snobal.adj_layers'] = lambda I, st, f, d, fr, n: [(st, None)]
    g = lambda s, x: R.get(s, ss, x)[1]
    rho, m, dt, melt = S('any.rho'), S('any.m_s'), S('any.dt'), S('any.melt')
    cases = []
    if which == 'time':
        for light in (True, False):
            for heavy in (False, True):
                cases.append(('time', light, heavy, None))
        cases.append(('time', None, None, 'full'))
    else:
        cases += [('water', p, big, None) for p in (True, False) for big in (True, False)] + [('water', None, None, 'full')]
    for kind, a, b, full in cases:
        st = R.got[0].copy()
        for x in (rho, m, dt):
            st.assume(x, '>')
        t = S('any.t_s')
        st.assume(t, '>')
        st.assume(melt, '>=')
        for x, v in (('rho', rho), ('m_s', m), ('t_s', t), ('melt', melt), ('z_s', P.div(m, rho))):
            st = R.set(st, ss, x, v)
        st = R.set(st, model, 'snowcover', True)
        st = R.set(st, model, 'time_step', dt)
        inp = getf(st, model, 'input1')
        W = 'pysnobal/point/snobal.py (%s)' % ('time_compact' if kind == 'time' else 'h2o_compact')
        if full:
            st.assume(rho - K(550), '>')
            ref = rho
            tag = 'dense'
        elif kind == 'time':
            st.assume(K(550) - rho, '>')
            st.assume(rho - K(100), '<' if a else '>=')
            st.assume(m - K(2000), '>=' if b else '<')
            tag = '%s snow, %s pack' % ('light' if a else 'dense', 'heavy' if b else 'lighter')
            rate = P.ONE if b else P.div((K('23.5') * P_cos(P.div(S('pi') * m, K(2000))) + K('24.5')) * K(3600), dt)
            k = P.ONE if a else P.exp(K('-0.046') * (rho - K(100)))
            c = FREEZE - t
            d1 = P.div(K('0.01') * k * P.exp(K('-0.04') * c), rate)
            d2 = P.div(K('0.026') * P.exp(K('-0.08') * c) * m * P.exp(K(-21) * P.div(rho, RHO_W)), rate)
            ref = rho + (d1 + d2) * rho
        else:
            st.assume(K(550) - rho, '>=')
            rain = S('any.m_rain')
            st.assume(rain, '>=')
            st = R.set(st, inp, 'precip_now', a)
            st = R.set(st, inp, 'm_rain', rain)
            added = P.div(melt + (rain if a else P.ZERO), m)
            st.assume(added - K('0.000001'), '>' if b else '<=')
            tag = '%s, %s' % ('precipitation' if a else 'dry weather', 'water added' if b else 'hardly any water added')
            A = K(550) - rho
            ref = rho + P.div(A, P.ONE + P.div(K('0.4'), added)) if b else rho
        outs, exc = R.call(st, 'time_compact' if kind == 'time' else 'h2o_compact')
        if not outs:
            raise AnalysisError('%s has no normal exit' % kind)
        for s in outs:
            judge(ob, R, s, '%s compaction' % ('gravity' if kind == 'time' else 'wet'), g(s, 'rho'), ref, W, tag)
            judge(ob, R, s, 'depth after compaction', g(s, 'z_s'), P.div(m, ref), W, tag)
    ob.stats(I)


def P_cos(x):
    return P.app('cos', x)


def job_evaporation(ob, regime):
    R = Reach(max(regime, 1), 'none')
    I, ss, model = R.I, R.S.ss, R.S.model
    I.override['Snobal.adj_snow'] = lambda I, st, f, d, fr, n: [(st, None)]
    g = lambda s, x: R.get(s, ss, x)[1]
    st = R.got[0].copy()
    inp = getf(st, model, 'input1')
    st = free(R, st, regime)
    E, dt = S('any.E'), S('any.dt')
    st.assume(dt, '>')
    st = R.set(st, ss, 'E', E)
    st = R.set(st, model, 'time_step', dt)
    h = S('any.h2o_total')
    st.assume(h, '>=')
    st = R.set(st, ss, 'h2o_total', h)
    st = R.set(st, model, 'snowcover', True)
    if regime == 0:
        for x in ('m_s', 'z_s', 'rho', 'm_s_0', 'm_s_l'):
            st = R.set(st, ss, x, P.ZERO)
        R.I.exc.append([])
        outs = []
        for s, f in I.getattr(ss, 'calc_layers', st, R.fr, _NODE):
            outs += [s2 for s2, _ in I.call(f, [], {}, s, R.fr, _NODE)]
        R.I.exc.pop()
        if len(outs) != 1:
            raise AnalysisError('an empty pack has %d layerings' % len(outs))
        st = outs[0]
    tl, tg, Pa = g(st, 't_s_l' if regime == 2 else 't_s_0'), R.get(st, inp, 't_g')[1], getf(st, model, 'P_a')
    zg = st.get(getf(st, model, 'measurement_heights')).f['z_g']
    W = 'pysnobal/point/snobal.py (evap_cond)'
    st0 = st.copy()
    outs, exc = R.call(st, 'evap_cond')
    for s, e in exc:
        ob.add('evaporation is defined', False, 'raises %s' % (e,), W)
    for s in outs:
        if regime == 0:
            ref = E * dt
        else:
            q = spec_hum(P.app('sati', tg), Pa) - spec_hum(P.app('sati', tl), Pa)
            tb = P.div(tg + tl, K(2))
            ref = E * dt + flux(gas_density(Pa, MAIR, tb), diffusion(Pa, tb), q, zg) * dt
        judge(ob, R, s, 'evaporation to air and soil', g(s, 'E_s'), ref, W, '%d layer(s)' % regime)
    if not outs:
        raise AnalysisError('evap_cond has no normal exit')
    ob.stats(I)


def job_state(ob, _):
    R = Reach(1, 'none')
    I, ss, model = R.I, R.S.ss, R.S.model
    st = R.got[0].copy()
    rho, v = S('any.rho'), S('any.h2o_vol')
    st.assume(rho, '>')
    st = R.set(st, ss, 'rho', rho)
    st = R.set(st, ss, 'h2o_vol', v)
    W = 'pysnobal/point/snow_state.py'
    for name, ref in (('kts', kts(rho)), ('dry_snow_density', dry(rho, v))):
        for s, x in I.getattr(ss, name, st.copy(), R.fr, _NODE):
            judge(ob, R, s, name, x, ref, '%s (%s)' % (W, name), 'any state')
    t, m = S('any.t'), S('any.m')
    for op, ref in (('<', heat(cp_ice(t), m, t - FREEZE)), ('>=', P.ZERO)):
        s0 = st.copy()
        s0.assume(t - FREEZE, op)
        ms = I.getattr(model, 'cold_content', s0, R.fr, _NODE)
        out, exc = I.run_call(ms[0][1], [t, m], {}, ms[0][0], R.fr)
        for s, x in out:
            judge(ob, R, s, 'cold content', x, ref, 'pysnobal/point/snobal.py (cold_content)', 't %s freezing' % op)
    ob.stats(I)


# ------------------------------------------------------ turbulent exchange
def hle_args():
    return {n: S(n) for n in ('press', 'air_temp', 'surface_temp', 'za', 'ea', 'es', 'zq', 'wind_speed', 'zu', 'z0')}


def job_neutral(ob, which):
    from . import c_hle as H
    A = hle_args()
    fixed = {}
    if which == 'calm':
        fixed = {'wind_speed': P.ZERO}
    else:
        fixed = {'surface_temp': A['air_temp'] + K('0.01') * A['za']}
    I0 = H.interp()
    lapse = I0.base.get(I0.modules[LIB]).f.get('DALR')
    if which == 'neutral':
        fixed = {'surface_temp': A['air_temp'] + lapse * A['za']}
    A.update(fixed)
    I, out, exc = H.hle1([g for g in H.GOOD if not (which == 'calm' and g[0] == 'wind_speed')] if which == 'calm' else H.GOOD, fixed,
                         over=('psi', 'satw', 'sati'))
    turbulent(ob, I, out, A, lapse, False, which)
    ob.stats(I)


def job_iterated(ob, _):
    from . import c_hle as H
    I0 = H.interp()
    lapse = I0.base.get(I0.modules[LIB]).f.get('DALR')
    A = hle_args()
    I, out, exc = H.hle1(H.GOOD, over=('psi', 'satw', 'sati'))
    turbulent(ob, I, out, A, lapse, True, 'iterated')
    ob.stats(I)


def turbulent(ob, I, out, A, lapse, iterated, tag):
    W = 'pysnobal/point/libsnobal.py (hle1)'
    von, AH, AV, cpa = K('0.41'), None, None, None
    mf = I.base.get(I.modules[LIB]).f
    AH, AV, cpa, paes = (mf.get(x) for x in ('AH', 'AV', 'CP_AIR', 'PAESCHKE'))
    if not all(isinstance(x, Poly) for x in (AH, AV, cpa, paes, lapse)):
        ob.count('turbulent constants not found')
        return
    ob.add('documented turbulent constants', P.equal(AH, K(1)) and P.equal(AV, K(1)) and P.equal(cpa, K('1.005e3')) and P.equal(paes, K('7.35')),
           '%s %s %s %s' % (AH, AV, cpa, paes), W)
    n = 0
    for s, v in out:
        if not isinstance(v, tuple) or len(v) != 6 or not (isinstance(v[3], Poly) and s.facts.sign(v[3]) == '0'):
            continue
        h, le, e, _, ustar, factor = v
        ts = A['surface_temp']
        neutral = s.facts.sign(A['air_temp'] + lapse * A['za'] - ts) == '0' or s.facts.sign(A['wind_speed']) == '0'
        if iterated == neutral:
            continue
        n += 1
        d0 = P.div(K(2) * paes * A['z0'], K(3))
        lt = {k: P.log(P.div(A[x] - d0, A['z0'])) for k, x in (('m', 'zu'), ('h', 'za'), ('v', 'zq'))}
        ea = A['ea']
        if s.facts.sign(ea - P.app('satw', A['air_temp'])) == '+':
            ea = P.app('satw', A['air_temp'])
        qd = spec_hum(ea, A['press']) - spec_hum(A['es'], A['press'])
        ta = A['air_temp'] + lapse * A['za']
        td = ta - ts
        dens = gas_density(A['press'], MAIR, virt(P.sqrt(ta * ts), P.sqrt(ea * A['es']), A['press']))
        if iterated:
            lo = None
            for a in P.deep_atoms(ustar):
                d = P.ATOMS[a]
                if d[0] == 'a' and d[1] == 'psi' and len(d[2]) > 1 and d[2][1] == 'SM':
                    lo = P.div(A['zu'], d[2][0])
            if lo is None:
                ob.add('the friction velocity is corrected for stability', False, '[%s] ustar = %s' % (tag, str(ustar)[:200]), W)
                continue
            ps = {'m': P.app('psi', P.div(A['zu'], lo), 'SM'), 'v': P.app('psi', P.div(A['zq'], lo), 'SV'), 'h': P.app('psi', P.div(A['za'], lo), 'SH')}
        else:
            ps = {'m': P.ZERO, 'v': P.ZERO, 'h': P.ZERO}
        U = P.div(von * A['wind_speed'], lt['m'] - ps['m'])
        F = von * U * dens
        judge2 = lambda nm, x, ref: ob.add('%s is the documented expression' % nm, eq(s, x, ref) or eqx(s, x, ref), '[%s] is %s, documented %s' % (tag, str(x)[:160], str(ref)[:160]), W)
        judge2('friction velocity', ustar, U)
        judge2('exchange factor', factor, F)
        E_ = P.div(qd * F * AV, lt['v'] - ps['v'])
        judge2('mass flux', e, E_)
        judge2('sensible heat flux', h, P.div(td * F * AH * cpa, lt['h'] - ps['h']))
        cold = s.facts.sign(ts - FREEZE)
        if cold in ('+', '0', '-', '0-'):
            judge2('latent heat flux', le, (lh_vap(ts) + (lh_fus(ts) if cold != '+' else P.ZERO)) * E_)
    ob.add('turbulent exchange has a %s result' % tag, n > 0, 'no success path of this kind', W)


def eqx(s, a, b):
    if not isinstance(a, Poly):
        return False
    try:
        return s.facts.sign(a - b) == '0' or P.is_zero(s.facts.reduce(a - b))
    except (P.TooBig, ZeroDivisionError):
        return False


# -------------------------------------------------------------------- C20
def job_array(ob, name):
    I = new_interp(ROOT, opaque_physics=False)
    fa, fs = fn_of(I, LIB, name + '_np'), fn_of(I, LIB, name)
    st = I.start()
    t = S('tk')
    fr = I.top_frame(LIB)
    W = 'pysnobal/point/libsnobal.py (%s_np)' % name
    arg = Ser(t)
    out, exc = I.run_call(fa, [arg], {}, st, fr)
    for s, e in exc:
        s2 = s.copy()
        ob.add('%s_np never raises' % name, not s2.assume(t, '>'), 'raises %s' % (e,), W)
    seen = set()
    for s, v in out:
        v = v.val if isinstance(v, Ser) else v
        nan = isinstance(v, Poly) and any(P.ATOMS[a] == ('s', 'nan') for a in P.deep_atoms(v))
        for op in ('<', '>'):
            s2 = s.copy()
            if not s2.assume(t, op) or not feasible(s2, t):
                continue
            o2, e2 = I.run_call(fs, [t], {}, s2, fr)
            if e2 and not o2:
                ob.add('%s_np marks what %s refuses' % (name, name), nan, '%s where %s raises' % (str(v)[:100], name), W)
                seen.add('bad')
            for s3, w in o2:
                seen.add(s3.facts.sign(t - FREEZE))
                ob.add('%s_np computes what %s computes' % (name, name), not nan and eq(s3, v, w), 'array %s, scalar %s' % (str(v)[:150], str(w)[:150]), W)
    ob.add('%s_np: all regimes met' % name, 'bad' in seen and (name == 'satw' or '+' in seen), '%s' % seen, W)
    ob.stats(I)


def feasible(s, t):
    return True


def overrides():
    """methods and properties the gridded state redefines from the point state"""
    p = lint.Pkg(ROOT)
    m = p.mods.get(SP)
    base = p.mods.get(SS)
    if m is None or 'SpatialSnowState' not in m.classes or 'SnowState' not in base.classes:
        raise AnalysisError('SpatialSnowState or SnowState not found')
    c, b = m.classes['SpatialSnowState'], base.classes['SnowState']
    return c, b


RUN = {'adjust_layer_temps': [], 'value_to_bar': [], 'time_average': ['since', 'step'], 'layer_mass': [], 'calc_layers': []}
READ = ['isothermal', 'dry_snow_density', 'kts', 'cc_s', 'layer_count', 'snowcover', 'e_s_0', 'e_s_l']


def job_method(ob, layers):
    I = new_interp(ROOT, opaque_physics=False)
    I.override['sati'] = opaque('sati')
    if I.load(SP) is None:
        raise AnalysisError('no module %s' % SP)
    fr = I.top_frame(SS)
    st = I.start()
    thr, zm = S('small_threshold'), S('max_z_s_0')
    for x in (thr, zm):
        st.assume(x, '>')
    refs = []
    for mod, name in ((SP, 'SpatialSnowState'), (SS, 'SnowState')):
        out, exc = I.run_call(cls(I, mod, name), [P.ZERO], {}, st, fr)
        if len(out) != 1:
            ob.add('%s can be built' % name, False, 'raises %s' % (exc[:1],), 'pysnobal/spatial/snow_state.py')
            return
        st, r = out[0]
        refs.append(r)
    g, p = refs
    names = sorted({k for k, v in st.get(p).f.items() if isinstance(v, Poly)} | {'max_z_s_0', 'small_threshold'})
    vals = {}
    pos = ('m_s', 'm_s_0', 'z_s', 'z_s_0', 'rho', 't_s', 't_s_0', 't_s_l') + (('m_s_l', 'z_s_l') if layers == 2 else ())
    for k in names:
        n = k[1:] if k.startswith('_') else k
        if n.startswith('SnowState__') or n in ('layer_count', 'es_s_0', 'es_s_l', 'isothermal'):
            continue
        v = S('any.' + n)
        if n in pos:
            st.assume(v, '>')
        if n in ('cc_s_0', 'cc_s_l'):
            st.assume(v, '<=')
        if layers == 1 and n in ('z_s_l', 'm_s_l', 'cc_s_l'):
            v = P.ZERO
        vals[n] = {'small_threshold': thr, 'max_z_s_0': zm}.get(n, v)
    for r in refs:
        for n, v in vals.items():
            sts = I.setattr(r, n, v, st, fr, _NODE)
            if len(sts) != 1:
                raise AnalysisError('setting %s splits' % n)
            st = sts[0]
    for x in ('since', 'step'):
        st.assume(S(x), '>')
    W = 'pysnobal/spatial/snow_state.py (%s)'
    for name in READ:
        for s, a in I.getattr(g, name, st.copy(), fr, _NODE):
            for s2, b in I.getattr(p, name, s, fr, _NODE):
                ob.add('the gridded %s is the point %s' % (name, name), same(s2, a, b), '[%d layer(s)] gridded %s, point %s' % (layers, str(a)[:120], str(b)[:120]), W % name)
    for name, args in RUN.items():
        args = [S(x) for x in args]
        n = 0
        base = st.copy()
        if name == 'time_average':
            base = averages(I, (g, p), base, fr)
        for s in call(I, g, name, args, base, fr):
            for s2 in call(I, p, name, args, s, fr):
                n += 1
                fa, fb = s2.get(g).f, s2.get(p).f
                for k in sorted(set(fa) | set(fb)):
                    if 'SnowState__' in k or k.startswith('_es_') or k in ('_isothermal', '_layer_count') or callable(fa.get(k)):
                        continue
                    a, b = fa.get(k), fb.get(k)
                    if isinstance(a, Ref) or isinstance(b, Ref):
                        continue
                    ob.add('gridded and point %s leave the same %s' % (name, k.lstrip('_')), same(s2, a, b),
                           '[%d layer(s)] gridded %s, point %s' % (layers, str(a)[:120], str(b)[:120]), W % name)
        ob.add('gridded and point %s both complete' % name, n > 0, 'no normal exit', W % name)
    # the layer temperature formula
    m = I.getattr(g, 'new_tsno', st.copy(), fr, _NODE) if 'new_tsno' in overrides()[0].own else []
    f = fn_of(I, SNOW, 'new_tsno')
    a = [S('spm'), S('t0'), S('ccon')]
    for s, mm in m:
        s.assume(a[0], '>')
        s.assume(a[1], '>')
        for s2, x in I.call(mm, a, {}, s, fr, _NODE):
            for s3, y in I.call(f, a, {}, s2, fr, _NODE):
                ob.add('the gridded new_tsno is the point new_tsno', same(s3, x, y), 'gridded %s, point %s' % (x, y), W % 'new_tsno')
    ob.stats(I)


def averages(I, refs, st, fr):
    """arbitrary running averages and sums, the same in both states"""
    new = set()
    for r in refs:
        sts = call(I, r, 'value_to_bar', [], st, fr)
        if len(sts) != 1:
            raise AnalysisError('value_to_bar splits')
        st = sts[0]
        new |= {k for k in st.get(r).f if k.endswith('_bar') or k.endswith('_sum')}
    for r in refs:
        for n in sorted(new):
            if n in st.get(r).f:
                sts = I.setattr(r, n, S('avg.' + n), st, fr, _NODE)
                if len(sts) != 1:
                    raise AnalysisError('setting %s splits' % n)
                st = sts[0]
    return st


def same(s, a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return eq(s, a, b)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


def call(I, ref, name, args, st, fr):
    out = []
    I.exc.append([])
    for s, m in I.getattr(ref, name, st, fr, _NODE):
        out += [s2 for s2, _ in I.call(m, args, {}, s, fr, _NODE)]
    I.exc.pop()
    return out


def explain(pid):
    if pid == 'C20':
        return ('The array saturation functions are interpreted on a generic element and compared, on every mask path, with the scalar function under the same facts; '
                'a gridded and a point snow state with the same arbitrary fields are driven through every method and derived quantity and compared field by field.')
    return ('Every formula is interpreted in each of its regimes and its value compared, as an exact algebraic identity over logarithms, powers and exponentials, '
            'with the documented expression; energy terms, compaction, evaporation and turbulent fluxes are compared the same way from an arbitrary pack.')


MIN = {'C20': {'computes what': 3, 'the gridded': 10, 'gridded and point': 100},
       'C24': {'psi': 9, 'sati': 3, 'efcon': 6, 'heat flow': 20, 'compaction': 8, 'evaporation': 3, 'net radiation': 10, 'sensible heat flux': 2}}
