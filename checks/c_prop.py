"""C09: derived quantities (saturation vapour pressures, number of layers) are never stale."""
from absint import poly as P
from absint.poly import Poly
from absint.values import Ref
from .base import Obs, ROOT
from .step import new_interp, cls, mkdict, mklist, getf, field, Step, SN, INP, SS, FREEZE, AnalysisError, _NODE

DERIVED = {'e_s_0': 't_s_0', 'e_s_l': 't_s_l', 'sat_vp': 't_a', 'e_g': 't_g'}
JOB_LIMIT = 850


def jobs(pid, tier):
    out = [(pid, 'step', r, p) for r in (2, 1, 0) for p in (('mixed', 'none') if tier == 'quick' else ('mixed', 'none', 'snow', 'rain'))]
    out += [(pid, 'run', n, lay, prec, 'normal', 1) for n in 'abg' for lay in ('one', 'vary') for prec in ('none', 'mixed')]
    out += [(pid, 'run', 'a', 'one', 'snow', 'all', 2)]
    out += [(pid, 'state', c) for c in ('none', 'one', 'two')] + [(pid, 'input', c) for c in ('none', 'snow', 'rain')]
    return out


def run_job(pid, kind, *arg):
    ob = Obs()
    if kind == 'step':
        step(ob, *arg)
    elif kind == 'run':
        from . import c_sched
        c_sched.Sched(ob, 'C09', *arg).go()
    elif kind == 'state':
        state(ob, *arg)
    else:
        inputs(ob, *arg)
    return ob


def implied(st, o, name):
    """the value a derived quantity must have, from the current fields; None when not decidable"""
    h = st.get(o)
    if name in DERIVED:
        t = getf(st, o, DERIVED[name])
        return P.app('sati', t) if isinstance(t, Poly) else None
    if name == 'layer_count':
        n = 0
        for f in ('z_s_0', 'z_s_l'):
            z = getf(st, o, f)
            s = st.facts.compare(z, '>') if isinstance(z, Poly) else None
            if s is None:
                return None
            n += 1 if s else 0
        return P.const(n)
    return None


def judge(ob, st, o, name, v, what, fr=None, n=None):
    want = implied(st, o, name)
    where = '%s:%d (%s)' % (fr.file, getattr(n, 'lineno', 0), fr.qual) if fr is not None else ''
    ok = want is not None and isinstance(v, Poly) and (v == want or P.equal(st.facts.reduce(v), st.facts.reduce(want)))
    ob.add('%s is the value implied by the current state %s' % (name, what), ok, 'is %s, must be %s' % (str(v)[:120], str(want)[:120]), where)


def watch(I, ob):
    def on_prop(I, st, o, name, v, fr, n):
        if name in DERIVED or name == 'layer_count':
            judge(ob, st, o, name, v, 'where it is read', fr, n)
    I.on_prop = on_prop
    pairs = {'hle1': ((2, 5), (1, None)), 'efcon': ((1, 3),)}

    def site(name, inner):
        def h(I, st, f, d, fr, n):
            a = [x.arg for x in f.node.args.args]
            for ti, ei in pairs[name]:
                if ei is None or ei >= len(a) or d.get(a[ei]) is None:
                    continue
                t, e = d.get(a[ti]), d.get(a[ei])
                ok = isinstance(t, Poly) and isinstance(e, Poly) and (e == P.app('sati', t) or P.equal(st.facts.reduce(e), st.facts.reduce(P.app('sati', t))))
                ob.add('%s receives the saturation vapour pressure of the temperature it receives' % name, ok,
                       'temperature %s with %s' % (str(t)[:100], str(e)[:100]), '%s:%d (%s)' % (fr.file, getattr(n, 'lineno', 0), fr.qual))
            return inner(I, st, f, d, fr, n)
        return h
    for name in pairs:
        I.override[name] = site(name, I.override[name])


def step(ob, regime, precip):
    S = Step(regime, precip, coarse=True, groups=('geo',))
    watch(S.I, ob)
    tag = '%d layer(s), %s' % (regime, precip)
    outs, excs = S.run()
    for st, r1 in outs:
        kind = st.get(r1).cls
        for o in [S.ss, r1] + [v for k, v in sorted(st.get(S.model).f.items()) if isinstance(v, Ref) and v.id != r1.id and st.get(v).cls == kind]:
            for name in list(DERIVED) + ['layer_count']:
                if not has(S.I, st, o, name):
                    continue
                S.I.on_prop, keep = None, S.I.on_prop
                for s2, v in field(S.I, st, o, name, S.fr):
                    judge(ob, s2, o, name, v, 'at the end of a timestep')
                S.I.on_prop = keep
    ob.count('exit states', len(outs))
    ob.stats(S.I)


def has(I, st, o, name):
    if name in st.get(o).f:
        return True
    cv, cref = I.class_attr(st, st.get(o).cls, name)
    return cref is not None


def arbitrary(st, I, ref, names, fr, k, pos=()):
    for x in names:
        v = P.sym('%s.%s' % (k, x))
        if x in pos:
            st.assume(v, '>')
        st = I.setattr(ref, x, v, st, fr, _NODE)[0]
    return st


def read_all(ob, I, st, ref, names, fr, what, out):
    """read every derived quantity for real (filling caches), judging each"""
    cur = [st]
    for name in names:
        nxt = []
        for s in cur:
            for s2, v in I.getattr(ref, name, s, fr, _NODE):
                judge(ob, s2, ref, name, v, what)
                nxt.append(s2)
        cur = nxt
    out.extend(cur)


def state(ob, lay):
    """reads interleaved with every way the state is updated"""
    I = new_interp(ROOT)
    fr = I.top_frame(SS)
    st = I.start()
    thr, zm = P.sym('small_threshold'), P.sym('max_z_s_0')
    st.assume(thr, '>')
    st.assume(zm, '>')
    out, exc = I.run_call(cls(I, SS, 'SnowState'), [], {'max_z_s_0': zm, 'small_threshold': thr}, st, fr)
    st, ref = out[0]
    names = ['e_s_0', 'e_s_l', 'layer_count']

    def depths(st, k):
        m, z = P.sym(k + '.m_s'), P.sym(k + '.z_s')
        if lay == 'none':
            m = z = P.ZERO
        else:
            st.assume(m - thr, '>')
            st.assume(z, '>')
            st.assume(z - zm, '>' if lay == 'two' else '<=')
        st = I.setattr(ref, 'm_s', m, st, fr, _NODE)[0]
        st = I.setattr(ref, 'z_s', z, st, fr, _NODE)[0]
        rho = P.div(m, z) if lay != 'none' else P.ZERO
        st = I.setattr(ref, 'rho', rho, st, fr, _NODE)[0]
        return [s for s, _ in call(I, ref, 'calc_layers', [], st, fr)]

    def temps(st, k, how):
        v = {x: P.sym('%s.%s' % (k, x)) for x in ('t_s_0', 't_s_l', 't_s')}
        for x in v.values():
            st.assume(x, '>')
        if how == 'attribute':
            for x, y in v.items():
                st = I.setattr(ref, x, y, st, fr, _NODE)[0]
            return [st]
        if how == 'dictionary':
            return [s for s, _ in call(I, ref, 'set_from_dict', [mkdict(st, v)], st, fr)]
        if how == 'zeros':
            return [s for s, _ in call(I, ref, 'set_zeros', [mklist(st, ['t_s_0', 't_s_l'])], st, fr)]
        m = arbitrary(st, I, ref, ['m_s_0', 'm_s_l', 'm_s'], fr, k, ('m_s_0', 'm_s_l', 'm_s'))
        m = arbitrary(m, I, ref, ['cc_s_0', 'cc_s_l'], fr, k)
        return [s for s, _ in call(I, ref, 'adjust_layer_temps', [], m, fr)]
    cur = []
    for s in temps(st, 'first', 'attribute'):
        cur += depths(s, 'first')
    tag = 'after '
    for i, op in enumerate(['start', 'attribute', 'layers', 'dictionary', 'layers', 'cold content', 'attribute', 'layers', 'zeros', 'attribute']):
        nxt = []
        for s in cur:
            if op == 'layers':
                nxt += depths(s, 'op%d' % i)
            elif op == 'start':
                nxt.append(s)
            else:
                nxt += temps(s, 'op%d' % i, op)
        cur = []
        for s in nxt:
            read_all(ob, I, s, ref, names, fr, 'after %s' % {'start': 'construction', 'attribute': 'setting a temperature', 'layers': 'determining the layers',
                                                             'dictionary': 'setting values from a record', 'cold content': 'adjusting layer temperatures',
                                                             'zeros': 'setting a temperature to zero'}[op], cur)
        if not cur:
            raise AnalysisError('no state after %s' % op)
    # a lower layer or the pack comes and goes
    if lay != 'none':
        for s in list(cur):
            s = I.setattr(ref, 'm_s', P.ZERO, s, fr, _NODE)[0]
            s = I.setattr(ref, 'z_s', P.ZERO, s, fr, _NODE)[0]
            for s2, _ in call(I, ref, 'calc_layers', [], s, fr):
                read_all(ob, I, s2, ref, names, fr, 'after the pack vanished', [])
    ob.stats(I)


def call(I, ref, name, args, st, fr):
    out = []
    for s, m in I.getattr(ref, name, st, fr, _NODE):
        out += I.call(m, args, {}, s, fr, _NODE)
    return out


def inputs(ob, case):
    from .c_input import record
    I = new_interp(ROOT)
    fr = I.top_frame(INP)
    st = I.start()
    out, exc = I.run_call(cls(I, INP, 'InputData'), [mkdict(st, record(I, st, case, 'any'))], {}, st, fr)
    names = ['sat_vp', 'e_g']
    for s0, ref in out:
        cur = []
        read_all(ob, I, s0, ref, names, fr, 'after reading a record', cur)
        for k in range(3):
            nxt = []
            for s in cur:
                d = mkdict(s, {x: P.sym('d%d.%s' % (k, x)) for x in ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 'm_pp', 'percent_snow', 'rho_snow', 't_pp')})
                o2, e2 = I.run_call(cls(I, INP, 'InputData'), [d], {'input_delta': True}, s, fr)
                for s2, dref in o2:
                    nxt += [s3 for s3, _ in call(I, ref, 'add_deltas', [dref], s2, fr)]
            cur = []
            for s in nxt:
                read_all(ob, I, s, ref, names, fr, 'after advancing the weather', cur)
            for x in ('t_a', 't_g'):
                nxt = []
                for s in cur:
                    s = I.setattr(ref, x, P.sym('new%d.%s' % (k, x)), s, fr, _NODE)[0]
                    read_all(ob, I, s, ref, names, fr, 'after setting a temperature', nxt)
                cur = nxt
    ob.stats(I)


def explain(pid):
    return ('Every read of a derived quantity during an abstractly interpreted timestep is compared with the value implied by the fields at that moment; '
            'the turbulent transfer and conductivity call sites are checked to receive matching pairs; the state and input classes are driven through '
            'interleaved reads and updates from arbitrary values; and on every schedule of timesteps the weather-derived values are read at each step.')


MIN = {'e_s_0 is the value': 20, 'e_s_l is the value': 10, 'sat_vp is the value': 20, 'e_g is the value': 20, 'layer_count is the value': 50,
       'hle1 receives': 4, 'efcon receives': 4}
MIN = {'C09': MIN}
