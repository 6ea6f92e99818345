"""C14: what InputData makes of a precipitation record."""
from absint import poly as P
from absint.poly import Poly
from .base import Obs, ROOT
from .step import new_interp, cls, mkdict, field, getf, INP, FREEZE, AnalysisError

CASES = ['none', 'negative', 'rain', 'snow', 'mixed', 'any']
TEMPS = ['cold', 'freezing', 'warm', 'any']


def jobs(pid, tier):
    return [(pid, c, t) for c in CASES for t in TEMPS]


def record(I, st, case, temp):
    def S(n, op=None):
        p = P.sym(n, (n,))
        if op:
            st.assume(p, op)
        return p
    d = {'S_n': S('S_n'), 'I_lw': S('I_lw'), 't_a': S('t_a', '>'), 'e_a': S('e_a', '>'), 'u': S('u', '>='), 't_g': S('t_g', '>')}
    d['rho_snow'] = S('rho_snow')
    t = d['t_pp'] = S('t_pp', '>') if temp != 'freezing' else FREEZE
    if temp == 'cold':
        st.assume(FREEZE - t, '>')
    elif temp == 'warm':
        st.assume(t - FREEZE, '>')
    if case == 'none':
        d['m_pp'] = P.ZERO
        f = d['percent_snow'] = S('percent_snow', '>=')
        st.assume(P.ONE - f, '>=')
    elif case == 'negative':
        d['m_pp'] = S('m_pp', '<')
        f = d['percent_snow'] = S('percent_snow', '>=')
        st.assume(P.ONE - f, '>=')
    else:
        d['m_pp'] = S('m_pp', '>')
        if case == 'any':
            f = d['percent_snow'] = S('percent_snow', '>=')
            st.assume(P.ONE - f, '>=')
        elif case == 'mixed':
            f = d['percent_snow'] = S('percent_snow', '>')
            st.assume(P.ONE - f, '>')
        else:
            d['percent_snow'] = P.ZERO if case == 'rain' else P.ONE
    return d


def run_job(pid, case, temp):
    I = new_interp(ROOT)
    st = I.start()
    fr = I.top_frame(INP)
    d = record(I, st, case, temp)
    ob = Obs()
    tag = '%s, precipitation temperature %s' % (case, temp)
    out, exc = I.run_call(cls(I, INP, 'InputData'), [mkdict(st, dict(d))], {}, st, fr)
    ob.count('exit states', len(out))
    ob.count('raising exits', len(exc))
    for s0, ref in out:
        for s, v in field(I, s0, ref, 'precip_now', fr):
            if isinstance(v, Poly):
                v = None if not v.is_const() else bool(v.t)
            cond = s.facts.sign(d['m_pp'])
            ok = (v is True and cond == '+') or (v is False and cond in ('0', '-', '0-'))
            ob.add('precipitation is seen exactly when the mass is positive', ok, '[%s] precip_now=%r' % (tag, v), _at(s, ref, 'precip_now'))
            if cond != '+':
                continue
            F = s.facts

            def g(n):
                return getf(s, ref, n)

            def eq(key, a, b, fld):
                dd = a - b
                ob.add(key, not dd.t or P.equal(a, b) or F.compare(dd, '==') is True, '[%s] %s must equal %s' % (tag, P.show(a, 100), P.show(b, 100)), _at(s, ref, fld))

            def le(key, p, fld, op='>='):
                ob.add(key, F.compare(p, op) is True or F.prove(p, op == '>'), '[%s] %s must be %s 0' % (tag, P.show(p, 150), op), _at(s, ref, fld))
            ms, mr = d['m_pp'] * d['percent_snow'], d['m_pp'] - d['m_pp'] * d['percent_snow']
            eq('rain and snow add up to the precipitation', g('m_rain') + g('m_snow'), d['m_pp'], 'm_rain')
            eq('snow mass is the snow fraction of the precipitation', g('m_snow'), ms, 'm_snow')
            snow, rain = F.sign(ms), F.sign(mr)
            if snow in ('0', '+') and rain in ('0', '+'):
                ob.count('cases decided')
            else:
                ob.add('snow and rain are told apart', False, '[%s] an exit does not depend on whether there is snow or rain' % tag)
                continue
            if snow == '+':
                le('snow has a positive density', d['rho_snow'], 'z_snow', '>')
                eq('snow depth times density is snow mass', g('z_snow') * d['rho_snow'], ms, 'z_snow')
                le('snow is never warmer than freezing', FREEZE - g('t_snow'), 't_snow')
                lim = F.sign(d['t_pp'] - FREEZE)
                warm = lim in ('0', '+', '0+')
                if rain == '+' or warm:
                    eq('wet snow is at freezing', g('t_snow'), FREEZE, 't_snow')
                    eq('wet snow is saturated', _num(g('h2o_sat_snow')), P.ONE, 'h2o_sat_snow')
                elif lim == '-':
                    eq('cold snow keeps its temperature', g('t_snow'), d['t_pp'], 't_snow')
                    eq('cold snow is dry', _num(g('h2o_sat_snow')), P.ZERO, 'h2o_sat_snow')
                else:
                    ob.add('cold and warm snow are told apart', False, '[%s] an exit does not depend on the temperature' % tag)
            else:
                eq('no snow: no depth', _num(g('z_snow')), P.ZERO, 'z_snow')
            if rain == '+':
                le('rain is never colder than freezing', g('t_rain') - FREEZE, 't_rain')
                if F.sign(d['t_pp'] - FREEZE) in ('0', '+', '0+'):
                    eq('rain keeps its temperature', g('t_rain'), d['t_pp'], 't_rain')
    if case in ('rain', 'none') and not out:
        ob.add('rain and dry records are accepted', False, '[%s] no normal exit' % tag)
    for s, e in exc:
        # refused only for snow without a density
        ok = s.facts.sign(d['m_pp'] * d['percent_snow']) == '+' and s.facts.compare(d['rho_snow'], '<=') is True
        ob.add('only snow without a density is refused', ok, '[%s] %s' % (tag, e))
    ob.stats(I)
    return ob


def _num(v):
    if v is True or v is False:
        return P.const(int(v))
    return v


def _at(s, ref, n):
    o = s.get(ref).sites
    x = o.get(n) or o.get('_' + n)
    return '%s:%d (%s)' % x if x else ''


def explain(pid):
    return ('InputData is interpreted abstractly from a record whose values are unconstrained symbols, once for every combination '
            'of precipitation kind and temperature class and once without splitting; every normal exit is compared with the phase rules.')


MIN = {'C14': {'precipitation is seen': 24, 'wet snow is at freezing': 6, 'cold snow is dry': 1, 'rain is never': 6,
               'snow depth times density': 6}}
