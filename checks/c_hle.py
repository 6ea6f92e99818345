"""C12 and C13: what the turbulent transfer accepts, and when it reports success."""
from fractions import Fraction as Fr
from absint import poly as P
from absint import facts as F
from absint.poly import Poly
from .base import Obs, ROOT
from .step import new_interp, cls, mkdict, opaque, INP, FREEZE, AnalysisError, Step, getf

LIB = 'pysnobal.point.libsnobal'
ARGS = ['press', 'air_temp', 'surface_temp', 'za', 'ea', 'es', 'zq', 'wind_speed', 'zu', 'z0']
for _n in ('virtual_temperature',):
    F.APP_SIGN[_n] = '+'

# bad input -> list of (expression, relation) assumed
SAT = P.app('satw', P.sym('air_temp'))
BAD = {
    'roughness not positive': [('z0', '<=')],
    'humidity height at or below the roughness': [('zq-z0', '<=')],
    'wind height at or below the roughness': [('zu-z0', '<=')],
    'temperature height at or below the roughness': [('za-z0', '<=')],
    'humidity height not positive': [('zq', '<=')],
    'wind height not positive': [('zu', '<=')],
    'temperature height not positive': [('za', '<=')],
    'air temperature not positive': [('air_temp', '<=')],
    'surface temperature not positive': [('surface_temp', '<=')],
    'air vapour pressure not positive': [('ea', '<=')],
    'surface vapour pressure not positive': [('es', '<=')],
    'air pressure not positive': [('press', '<=')],
    'air vapour pressure at or above air pressure': [('ea-press', '>=')],
    'surface vapour pressure at or above air pressure': [('es-press', '>=')],
    'air vapour pressure well above saturation': [('ea-sat-25', '>')],
}
GOOD = [('z0', '>'), ('zq-z0', '>'), ('zu-z0', '>'), ('za-z0', '>'), ('air_temp', '>'), ('surface_temp', '>'), ('ea', '>'),
        ('es', '>'), ('press', '>'), ('press-ea', '>'), ('press-es', '>'), ('sat-ea', '>='), ('wind_speed', '>=')]


def expr(t):
    out = P.ZERO
    for i, x in enumerate(t.split('-')):
        v = SAT if x == 'sat' else (P.const(int(x)) if x.isdigit() else P.sym(x))
        out = v if i == 0 else out - v
    return out


def interp():
    I = new_interp(ROOT, opaque_physics=False)
    if I.load(LIB) is None:
        raise AnalysisError('no %s' % LIB)
    return I


def func(I, name):
    f = I.base.get(I.modules[LIB]).f
    if name not in f:
        raise AnalysisError('%s.%s not found' % (LIB, name))
    return f[name]


def hle1(assume, fixed=None, over=('psi', 'satw', 'sati', 'gas_density', 'spec_hum', 'virtual_temperature', 'lh_vap', 'lh_fus')):
    I = interp()
    for n in over:
        I.override[n] = opaque(n)
    st = I.start()
    fr = I.top_frame(LIB)
    ok = True
    for e, op in assume:
        ok = st.assume(e if isinstance(e, Poly) else expr(e), op) and ok
    args = [(fixed or {}).get(n, P.sym(n)) for n in ARGS]
    out, exc = I.run_call(func(I, 'hle1'), args, {}, st, fr)
    return I, out, exc


def where(n):
    return 'pysnobal/point/libsnobal.py (%s)' % n


def jobs(pid, tier):
    if pid == 'C12':
        return [(pid, 'general', 0), (pid, 'neutral', 0), (pid, 'calm', 0)] + [(pid, 'model', r) for r in (1, 2)]
    return [(pid, 'hle1', k) for k in BAD] + [(pid, 'accepts', 0), (pid, 'saturation', 0), (pid, 'psi', 0), (pid, 'snowfall', 0)]


def run_job(pid, what, arg):
    ob = Obs()
    globals()[('c12_' if pid == 'C12' else 'c13_') + what](ob, arg)
    return ob


# ------------------------------------------------------------------ C13
def c13_hle1(ob, k):
    I, out, exc = hle1(BAD[k])
    ob.stats(I)
    ob.add('refused: %s' % k, not out and exc, 'a call with %s returns normally on %d paths' % (k, len(out)), where('hle1'))


def c13_accepts(ob, _):
    I, out, exc = hle1(GOOD)
    ob.stats(I)
    ob.add('physical inputs reach a result', bool(out), 'no normal exit for physical inputs', where('hle1'))
    bad = [e for s, e in exc if str(e).find('ValueError') >= 0]
    ob.add('physical inputs are not refused', not bad, '%s' % bad[:1], where('hle1'))


def c13_saturation(ob, _):
    for name in ('sati', 'satw'):
        I = interp()
        st = I.start()
        t = P.sym('tk')
        st.assume(t, '<')
        out, exc = I.run_call(func(I, name), [t], {}, st, I.top_frame(LIB))
        ob.stats(I)
        ob.add('%s refuses a negative absolute temperature' % name, not out and exc, '%d normal exits' % len(out), where(name))
        I = interp()
        st = I.start()
        st.assume(t, '>')
        out, exc = I.run_call(func(I, name), [t], {}, st, I.top_frame(LIB))
        ob.stats(I)
        ob.add('%s accepts positive temperatures' % name, out and not exc, '%d raising exits' % len(exc), where(name))


def c13_psi(ob, _):
    for code in ('SM', 'SH', 'SV', 'SX', 'sm', ''):
        I = interp()
        st = I.start()
        z = P.sym('zeta')
        st.assume(z, '<')
        out, exc = I.run_call(func(I, 'psi'), [z, code], {}, st, I.top_frame(LIB))
        ob.stats(I)
        if code in ('SM', 'SH', 'SV'):
            ob.add('psi knows %s' % code, out and not exc, '%d raising exits' % len(exc), where('psi'))
        else:
            ob.add('psi refuses unknown codes', not out and exc, 'code %r returns normally' % code, where('psi'))


def c13_snowfall(ob, _):
    for op, rho in (('<', None), ('==', P.ZERO)):
        for full in (True, False):
            I = new_interp(ROOT)
            st = I.start()
            d = {n: P.sym(n) for n in ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 't_pp', 'rho_snow', 'm_pp', 'percent_snow')}
            st.assume(d['m_pp'], '>')
            if full:
                d['percent_snow'] = P.ONE
            else:
                st.assume(d['percent_snow'], '>')
                st.assume(P.ONE - d['percent_snow'], '>')
            if rho is not None:
                d['rho_snow'] = rho
            else:
                st.assume(d['rho_snow'], '<')
            out, exc = I.run_call(cls(I, INP, 'InputData'), [mkdict(st, d)], {}, st, I.top_frame(INP))
            ob.stats(I)
            ob.add('snowfall without a positive density is refused', not out and exc, 'density %s 0: %d normal exits' % (op, len(out)),
                   'pysnobal/point/input.py (InputData)')


# ------------------------------------------------------------------ C12
def status(v):
    return v[3] if isinstance(v, tuple) and len(v) >= 4 else None


CONV_F = Fr(1, 100000)
CONV = P.const(CONV_F)


def c12_neutral(ob, _):
    # potential temperature of the air equals the surface temperature
    I = interp()
    lapse = I.base.get(I.modules[LIB]).f.get('DALR')
    if not isinstance(lapse, Poly):
        raise AnalysisError('lapse rate not found')
    ts = P.sym('air_temp') + lapse * P.sym('za')
    good = [(e, o) for e, o in GOOD if e != 'surface_temp'] + [(ts, '>')]
    case(ob, 'neutral air', good, {'surface_temp': ts})


def c12_calm(ob, _):
    good = [(e, o) for e, o in GOOD if e != 'wind_speed']
    case(ob, 'calm air', good, {'wind_speed': P.ZERO})


def case(ob, name, good, fixed):
    I, out, exc = hle1(good, fixed)
    ob.stats(I)
    ob.add('%s gives a result' % name, out and not exc, 'raises %s' % [str(e) for s, e in exc][:2], where('hle1'))
    for s, v in out:
        x = status(v)
        ob.add('%s succeeds' % name, isinstance(x, Poly) and not s.facts.reduce(x).t, 'status %s' % (x,), where('hle1'))


def conv(I, s):
    """the path carries |last - now| < 1e-5 and |(last - now)/now| < 1e-5 for some loop-carried quantity"""
    F_ = s.facts
    for info in getattr(I, 'loop_info', []):
        for e in info['breaks'] + info['ends']:
            for (oid, key), prev in info['head'].items():
                o = e.heap.get(oid)
                if o is None or not isinstance(prev, Poly):
                    continue
                now = o.f.get(key)
                if not isinstance(now, Poly) or now == prev:
                    continue
                if small(F_, prev - now, None) and small(F_, prev - now, now):
                    return True
    return False


def pm(a, b):
    return P.equal(a, b) or P.equal(a, -b)


def small(F_, d, over):
    """some fact of the path bounds |d| (or |d / over|) by the convergence threshold"""
    q = P.div(d, over) if over is not None else d
    for p in F_.ge:
        # c (k - |q|)   or   c (k |over| - |d|)
        k = n = None
        ok = True
        for m, c in p.t.items():
            if not m:
                k = c
                continue
            x = P.ATOMS[m[0][0]]
            if len(m) != 1 or m[0][1] != 1 or x[0] != 'a' or x[1] != 'abs':
                ok = False
                break
            y = x[2][0]
            if c < 0 and n is None and pm(y, q):
                n = c
            elif c < 0 and n is None and over is not None and pm(y, d):
                n = c
            elif c > 0 and over is not None and pm(y, over) and k is None:
                k = c
            else:
                ok = False
                break
        if ok and n is not None and k is not None and k / -n <= CONV_F:
            mixed = any(len(m) == 1 and c > 0 for m, c in p.t.items())
            if mixed == any(pm(P.ATOMS[m[0][0]][2][0], d) for m, c in p.t.items() if m and c < 0) or over is None:
                return True
    seen = set()
    for p in F_.ge:
        for a in p.atoms() - seen:
            seen.add(a)
            x = P.ATOMS[a]
            if x[0] == 'a' and x[1] == 'abs' and pm(x[2][0], q) and F_.prove(CONV - P.from_atom(a)):
                return True
    for v in (q,):
        if F_.compare(CONV - v, '>=') is True and F_.compare(CONV + v, '>=') is True:
            return True
    return False


def c12_general(ob, _):
    I, out, exc = hle1(GOOD)
    ob.stats(I)
    lapse = I.base.get(I.modules[LIB]).f.get('DALR')
    ta = P.sym('air_temp') + lapse * P.sym('za')
    good = bad = 0
    for s, v in out:
        x = status(v)
        if not isinstance(x, Poly):
            ob.add('the status is a number', False, 'status %s' % (x,), where('hle1'))
            continue
        x = s.facts.reduce(x)
        sg = s.facts.sign(x)
        if sg in ('+', '-', '!0'):
            bad += 1
            ob.add('failure is reported by a negative status', sg == '-', 'status %s' % P.show(x), where('hle1'))
            continue
        good += 1
        noiter = s.facts.sign(ta - P.sym('surface_temp')) == '0' or s.facts.sign(P.sym('wind_speed')) == '0'
        ob.add('success means converged, neutral or calm', noiter or conv(I, s),
               'a path returns status %s without the convergence criterion' % P.show(x), where('hle1'))
    ob.add('both outcomes exist', good and bad, '%d success paths, %d failure paths' % (good, bad), where('hle1'))


def c12_model(ob, regime):
    """the model never continues after a failed turbulent exchange"""
    S = Step(regime, 'none', root=ROOT, mode='mass', coarse=True, groups=set())
    S.I.deep = False
    outs = ['H', 'L_v_E', 'E', 'status', 'ustar', 'factor']
    calls = [0]

    def h(I, st, f, d, fr, n):
        calls[0] += 1
        a = [P.app('hle1.' + o, P.const(calls[0])) for o in outs]
        ok, ko = st, st.copy()
        ko.ghost['failed'] = True
        a[3] = P.sym('status')
        ko.assume(a[3], '<')
        b = list(a)
        a[3] = P.ZERO
        return [(ok, tuple(a)), (ko, tuple(b))]
    S.I.override['hle1'] = h
    res, exc = S.run()
    ob.stats(S.I)
    bad = [s for s, _ in res if s.ghost.get('failed')]
    ob.add('a failed turbulent exchange stops the model', not bad, '%d normal exits of the timestep follow a negative status' % len(bad),
           'pysnobal/point/snobal.py')
    ob.add('a failed turbulent exchange is an error', any(s.ghost.get('failed') for s, e in exc), 'no raising exit after a negative status',
           'pysnobal/point/snobal.py')
    ob.add('the turbulent exchange is called with snow', calls[0] > 0 and any(not s.ghost.get('failed') for s, _ in res), '')


def explain(pid):
    if pid == 'C12':
        return ('hle1 is interpreted from unconstrained physical inputs (helper formulas opaque, the iteration as an arbitrary number of rounds); '
                'every normal exit with a success status must carry the convergence criterion between two successive rounds, or be neutral or calm. '
                'The model timestep is interpreted with a turbulent exchange that may fail.')
    return ('Each unphysical input class is assumed at the entry and the function interpreted over all paths: no path may return normally. '
            'Physical inputs must reach a result.')


MIN = {'C12': {'success means': 2, 'neutral air succeeds': 1, 'calm air succeeds': 1, 'a failed': 4}, 'C13': {'refused': len(BAD), 'psi': 6, 'sat': 4, 'snowfall': 4}}
