"""One generic model timestep, interpreted abstractly through the public entry
points Snobal(...) and Snobal.do_data_tstep(record1, record2)."""
from fractions import Fraction as Fr
from absint import poly as P
from absint import models as M
from absint import facts as F
from absint import merge
from absint.poly import Poly
from absint.values import Ref, HObj, Func, Bound, Prop, Ser
from absint.interp import Interp, AnalysisError

FREEZE = P.const(273.16)
NOSNOW = P.const(Fr('198.16'))
RHOMAX = P.const(600)
from .base import ROOT

for _n in ('sati', 'satw', 'efcon', 'spec_hum', 'gas_density', 'diffusion_coef'):
    F.APP_SIGN[_n] = '+'

SN = 'pysnobal.point.snobal'
INP = 'pysnobal.point.input'
SS = 'pysnobal.point.snow_state'

MASSES = ['m_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'rho', 't_s', 't_s_0', 't_s_l',
          'cc_s_0', 'cc_s_l', 'h2o', 'h2o_max', 'h2o_total', 'h2o_sat', 'h2o_vol']
ENERGY = ['R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0']
FLUX = ['melt', 'E', 'E_s', 'swi', 'melt_sum', 'E_s_sum', 'swi_sum']
DERIVED = ['e_s_0', 'e_s_l', 'layer_count', 'cc_s', 'isothermal', 'snowcover']


def opaque(name, outs=None):
    def h(I, st, f, d, fr, n):
        args = []
        a = f.node.args
        for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs:
            if x.arg not in d:
                continue
            k = M.vkey(d[x.arg])
            args.append(k.val if isinstance(k, Ser) else k)
        if outs is None:
            return [(st, P.app(name, *args))]
        return [(st, tuple(P.app(name + '.' + o, *args) for o in outs))]
    return h


PHYS = {'sati': opaque('sati'), 'satw': opaque('satw'), 'efcon': opaque('efcon'), 'ssxfr': opaque('ssxfr'),
        'spec_hum': opaque('spec_hum'), 'gas_density': opaque('gas_density'),
        'diffusion_coef': opaque('diffusion_coef'), 'vapor_flux': opaque('vapor_flux'),
        'hle1': opaque('hle1', ['H', 'L_v_E', 'E', 'status', 'ustar', 'factor'])}


def mkdict(st, d, meta=None):
    return st.alloc(HObj('dict', None, d, meta))


def mklist(st, items):
    return st.alloc(HObj('list', None, dict(enumerate(items))))


def tstep_info(st, n=(1, 4, 15), ts=None, thr=None, td=None, ipt=None):
    """the three-level timestep table"""
    ts = ts or [P.sym('time_step%d' % i, {'tstep%d' % i}) for i in range(3)]
    td = td or [P.sym('timedelta%d' % i, {'tdelta%d' % i}) for i in range(3)]
    out = []
    k = 1
    for i in range(3):
        k *= n[i]
        out.append(mkdict(st, {
            'level': P.const(i), 'output': i == 0, 'threshold': thr[i], 'time_step': ts[i],
            'time_step_timedelta': td[i], 'intervals': P.const(n[i]),
            'intervals_per_timestep': P.const(k)}))
    return mklist(st, out)


def new_interp(root=ROOT, opaque_physics=True):
    I = Interp(root)
    for m in (SN, INP, SS):
        if I.load(m) is None:
            raise AnalysisError('module %s not found' % m)
    if opaque_physics:
        I.override.update(PHYS)
    return I


def cls(I, mod, name):
    f = I.base.get(I.modules[mod]).f
    if name not in f:
        raise AnalysisError('%s.%s not found' % (mod, name))
    return f[name]


def field(I, st, ref, name, fr):
    """value of an attribute (through properties) in a copy of the state: [(state, value)]"""
    I.exc.append([])
    ne = len(I.events)
    r = I.getattr(ref, name, st.copy(), fr, _NODE)
    ex = I.exc.pop()
    if ex and not r:
        raise AnalysisError('attribute %s cannot be read: %s' % (name, ex[0][1]))
    return r


import ast as _ast
_NODE = _ast.parse('x').body[0]


def getf(st, ref, name):
    f = st.get(ref).f
    if name in f:
        return f[name]
    if '_' + name in f:
        return f['_' + name]
    raise AnalysisError('attribute %s not found' % name)


def construct(I, st, fr, args, ic):
    """build the model on an empty pack; its initial temperatures are placeholders here, so when the source tells them
    apart, fixed ones are used"""
    keep = st.copy()
    out, exc = I.run_call(cls(I, SN, 'Snobal'), args, {}, st, fr)
    if len(out) > 1 and not exc:
        f = keep.w(ic).f
        f['t_s'] = f['t_s_0'] = P.const(270)
        f['h2o_sat'] = P.ZERO
        out, exc = I.run_call(cls(I, SN, 'Snobal'), args, {}, keep, fr)
    return out, exc


class Step(object):
    """interprets one timestep from a generic entry state"""

    def __init__(self, regime, precip, root=ROOT, cap=40, retcap=12, merging=True, mode='mass', coarse=False, groups=None):
        self.I = I = new_interp(root)
        self.regime, self.precip, self.mode = regime, precip, mode
        self.groups = groups
        self.coarse = coarse     # replace the water terms by symbols at every return
        I.sticky = {'z_s_0', 'z_s_l'}
        I.cap, I.retcap = cap, retcap
        if merging:
            I.merger = merge.merger
            I.templates = self.templates
            I.hints = self.hints
            I.normalise = self.normalise
            I.on_set = self.on_set
            I.stable = self.stable
            I.deep = True
            I.bulky = self.bulky
            I.hardcap = 400
            for i, k in enumerate(['m_s', 'z_s', 'z_s_0', 'z_s_l', 'E_s', 'swi', 'h2o_total', 'rho']):
                I.prio[k] = i
        self.ss = Ref(-1)
        self.prop_reads = 0
        self.entry()

    # -- the abstract domain's templates
    def ss_keys(self, st, ids):
        i = self.ss.id
        return i if i in ids else None

    def templates(self, I, st, ids):
        i = self.ss_keys(st, ids)
        if i is None:
            return []
        k = lambda n: ('h', i, n)
        out = [(k('G_0'), lambda t: t[k('G')]),
               (k('delta_Q_0'), lambda t: t[k('R_n')] + t[k('H')] + t[k('L_v_E')] + t[k('G_0')] + t[k('M')]),
               (k('delta_Q'), lambda t: t[k('delta_Q_0')] + t[k('G')] - t[k('G_0')])]
        if self.mode == 'mass':
            out = out[:1]
        f = st.heap[i].f
        if not (isinstance(f.get('z_s_0'), Poly) and st.facts.sign(f['z_s_0']) == '0'):
            out.append((k('rho'), lambda t: P.div(t[k('m_s')], t[k('z_s')])))
            two = isinstance(f.get('z_s_l'), Poly) and st.facts.sign(f['z_s_l']) != '0'
            if two:
                out.append((k('z_s_l'), lambda t: t[k('z_s')] - t[k('z_s_0')]))
            else:
                out.append((k('z_s_0'), lambda t: t[k('z_s')]))
            out.append((k('m_s_0'), lambda t: t[k('rho')] * t[k('z_s_0')]))
            if two:
                out.append((k('m_s_l'), lambda t: t[k('rho')] * t[k('z_s_l')]))
        return out

    def hints(self, I, st, ids):
        i = self.ss_keys(st, ids)
        if i is None:
            return []
        k = lambda n: ('h', i, n)
        geo, water, temp, cap = [], [], [], []
        for x in ('m_s', 'z_s', 'z_s_0', 'z_s_l', 'rho', 'm_s_0', 'm_s_l'):
            geo.append(lambda t, q=k(x): t[q])
        for x in ('h2o_total', 'h2o', 'h2o_max', 'melt', 'swi'):
            water.append(lambda t, q=k(x): t[q])
        for tn in ('_t_s_0', '_t_s_l', 't_s'):
            temp.append(lambda t, q=k(tn): FREEZE - t[q])
        cap.append(lambda t: RHOMAX - t[k('rho')])
        geo.append(lambda t: P.const(550) - t[k('rho')])
        temp.append(lambda t: -t[k('cc_s_0')])
        temp.append(lambda t: -t[k('cc_s_l')])
        water.append(lambda t: t[k('h2o_max')] - t[k('h2o')])
        water.append(lambda t: P.ONE - t[k('h2o_sat')])
        geo.append(lambda t: RHOMAX * t[k('z_s')] - t[k('m_s')])
        geo.append(lambda t: t[k('m_s')] - self.thr)
        geo.append(lambda t: t[k('m_s_l')] - self.thr)
        temp.append(lambda t: (FREEZE - t[k('_t_s_0')]) * t[k('m_s_0')])
        temp.append(lambda t: (FREEZE - t[k('_t_s_l')]) * t[k('m_s_l')])
        temp.append(lambda t: (FREEZE - t[k('t_s')]) * t[k('m_s')])
        out = geo + cap + water + temp
        if self.groups is not None:
            for n, l in (('geo', geo), ('cap', cap), ('water', water), ('temp', temp)):
                for fn in l:
                    fn.deep = n in self.groups
        return out

    def normalise(self, I, st):
        o = st.heap.get(self.ss.id)
        if o is None:
            return
        for flag, cache, t in (('_SnowState__es_s_0', '_es_s_0', '_t_s_0'), ('_SnowState__es_s_l', '_es_s_l', '_t_s_l')):
            if o.f.get(flag) is True and o.f.get(cache) == P.app('sati', o.f.get(t)):
                w = st.w(self.ss)
                w.f[flag] = False
                w.f[cache] = P.ZERO
            elif o.f.get(flag) is False and cache in o.f and o.f[cache] != P.ZERO:
                st.w(self.ss).f[cache] = P.ZERO
            elif o.f.get(flag) is False and cache not in o.f:
                st.w(self.ss).f[cache] = P.ZERO
            o = st.heap[self.ss.id]

    def on_set(self, I, st, ref, name, v):
        if ref != self.ss or not isinstance(v, Poly):
            return v
        if name == 'z_s_0' and self.regime and not v.t:
            st.ghost['vanished'] = True
        return v

    def stable(self, I, st, ids):
        """the layer geometry is consistent: states may be joined here"""
        o = st.heap.get(self.ss.id)
        if o is None:
            return True
        f = o.f
        try:
            rd = st.facts.reduce if st.facts.mp else (lambda x: x)
            z, z0, zl, m, m0, ml, rho = (rd(f[k]) for k in ('z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l', 'rho'))
            return (P.equal(z, z0 + zl) and P.equal(m, m0 + ml) and P.equal(m, rho * z)
                    and P.equal(m0, rho * z0))
        except (KeyError, P.TooBig, TypeError, ZeroDivisionError):
            return False

    def bulky(self, I, st, ids):
        o = st.heap.get(self.ss.id)
        if o is None:
            return ()
        f = o.f
        out = set()
        for n in ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'E') + (('delta_Q_0', 'delta_Q') if self.mode == 'mass' else ()):
            v = f.get(n)
            if isinstance(v, Poly) and (len(v.t) > 1 or any(len(m) > 2 for m in v.t)):
                out.add(n)
        z = f.get('z_s')
        big = lambda v, k=4: isinstance(v, Poly) and (len(v.t) > k or P.has_p(v))
        if big(z, 1) and st.facts.sign(f.get('z_s_0', P.ZERO)) == '+' and not f['rho'].is_const():
            out |= {'z_s', 'z_s_l', 'rho', 'm_s_0', 'm_s_l'} | (set() if f['z_s_l'].t else {'z_s_0'})
        for n in ('cc_s_0', 'cc_s_l', '_t_s_0', '_t_s_l', 't_s', 'h2o_max', 'h2o_sat', 'h2o_vol', 'h2o', 'melt'):
            v = f.get(n)
            if big(v, 1 if self.coarse else 6):
                out.add(n)
        if self.coarse and big(f.get('h2o_total'), 1):
            out.add('h2o_total')
        return {('h', self.ss.id, n) for n in out if not f[n].is_const()}

    def abstract(self, st, name, v, bounds):
        s = st.facts.sign(v)
        x = P.fresh('set.' + name, v.labels())
        op = {'+': '>', '0+': '>=', '-': '<', '0-': '<=', '!0': '!=', '0': '=='}.get(s)
        res = []
        for b in bounds:
            if isinstance(b, tuple):
                if st.facts.compare(v - b[1], '>='):
                    res.append((x - b[1], '>='))
            elif st.facts.compare(b - v, '>='):
                res.append((b - x, '>='))
        if op:
            st.assume(x, op)
        for p, o in res:
            st.assume(p, o)
        return x

    # -- entry state
    def entry(self):
        I = self.I
        st = I.start()
        fr = self.fr = I.top_frame(SN)
        pos = lambda n, *lab: self.sym(st, n, lab, '>')
        self.thr = pos('small_threshold')
        self.Zm = pos('max_z_s_0')
        self.vol = pos('max_h2o_vol')
        st.assume(P.const(Fr(1, 2)) - self.vol, '>=')
        self.tstep = pos('time_step0', 'now', 'tstep')
        self.P_a = None
        thr = [P.ZERO, P.ZERO, self.thr]
        ti = tstep_info(st, n=(1, 1, 1), ts=[self.tstep, pos('time_step1'), pos('time_step2')], thr=thr)
        self.elev = self.sym(st, 'elevation', ('elev',), None)
        params = mkdict(st, {'elevation': self.elev, 'start_date': P.sym('start_date'), 'max_h2o_vol': self.vol,
                             'max_z_s_0': self.Zm, 'relative_heights': True})
        heights = mkdict(st, {'z_u': pos('z_u', 'now'), 'z_t': pos('z_t', 'now'), 'z_g': pos('z_g', 'now'),
                              'relative_heights': True})
        ic = mkdict(st, {k: self.sym(st, 'ic.' + k, ('ic',), '>' if k == 'z_0' else None)
                         for k in ('z_s', 'rho', 't_s', 't_s_0', 'h2o_sat', 'z_0')})
        for k in ('z_s', 'rho'):
            st.w(ic).f[k] = P.ZERO
        out, exc = construct(I, st, fr, [params, ti, ic, heights, 'normal'], ic)
        if len(out) != 1 or exc:
            raise AnalysisError('construction from an empty pack: %d outcomes, %s' % (len(out), exc))
        st, self.model = out[0]
        self.ss = getf(st, self.model, 'snow_state')
        I.roots = [self.model]
        # generic snow state
        o = st.w(self.ss)
        S = lambda n, op=None: self.sym(st, 'old.' + n, ('old', 'old.' + n), op)
        vals = {}
        for n in ENERGY:
            vals[n] = S(n)
            vals[n + '_bar'] = S(n + '_bar')
        for n in FLUX:
            vals[n] = S(n)
        vals['h2o_total'] = S('h2o_total', '>=')
        r = self.regime
        if r == 0:
            for n in MASSES:
                if n != 'h2o_total':
                    vals[n] = P.ZERO
            vals['t_s'] = vals['t_s_0'] = vals['t_s_l'] = NOSNOW
        else:
            m = vals['m_s'] = S('m_s', '>')
            z = S('z_s', '>')
            for n in ('h2o', 'h2o_max', 'h2o_sat', 'h2o_vol'):
                vals[n] = S(n, '>=')
            vals['t_s'], vals['t_s_0'] = S('t_s', '>'), S('t_s_0', '>')
            vals['cc_s_0'] = S('cc_s_0', '<=')
            st.assume(FREEZE - vals['t_s'], '>=')
            st.assume(FREEZE - vals['t_s_0'], '>=')
            if r == 1:
                vals['z_s'] = vals['z_s_0'] = z
                vals['z_s_l'] = P.ZERO
                vals['m_s_0'] = m
                vals['m_s_l'] = vals['cc_s_l'] = P.ZERO
                vals['t_s_l'] = NOSNOW
            else:
                vals['z_s'] = z
                vals['z_s_0'] = self.Zm
                vals['z_s_l'] = z - self.Zm
                st.assume(vals['z_s_l'], '>')
                vals['t_s_l'] = S('t_s_l', '>')
                st.assume(FREEZE - vals['t_s_l'], '>=')
                vals['cc_s_l'] = S('cc_s_l', '<=')
            vals['rho'] = P.div(m, vals['z_s'])
            if r == 2:
                vals['m_s_0'] = vals['rho'] * vals['z_s_0']
                vals['m_s_l'] = vals['rho'] * vals['z_s_l']
            st.assume(RHOMAX - vals['rho'], '>=')
        self.vals = vals
        on_set, I.on_set = I.on_set, None
        for n, v in vals.items():
            sts = I.setattr(self.ss, n, v, st, fr, _NODE)
            st = sts[0]
        # every boolean cache flag of the state starts cleared
        w = st.w(self.ss)
        self.flags = [k for k, v in w.f.items() if v is True and k.startswith('_')]
        for k in self.flags:
            w.f[k] = False
        I.on_set = on_set
        # input records
        self.rec1 = self.record(st, 'i1', self.precip)
        self.pp = st.get(self.rec1).f['m_pp']
        self.rec2 = self.record(st, 'i2', None)
        self.st = st

    def sym(self, st, name, labels=(), op=None):
        p = P.sym(name, labels)
        if op:
            st.assume(p, op)
        return p

    def record(self, st, pre, precip):
        I = self.I
        S = lambda n, op=None: self.sym(st, pre + '.' + n, ('now', pre + '.' + n) if pre == 'i1' else (pre, pre + '.' + n), op)
        d = {'S_n': S('S_n', '>='), 'I_lw': S('I_lw', '>='), 't_a': S('t_a', '>'), 'e_a': S('e_a', '>'),
             'u': S('u', '>='), 't_g': S('t_g', '>'), 't_pp': S('t_pp', '>'), 'rho_snow': S('rho_snow', '>')}
        st.assume(RHOMAX - d['rho_snow'], '>=')
        if precip is None or precip == 'none':
            d['m_pp'] = P.ZERO
            d['percent_snow'] = P.ZERO
        else:
            d['m_pp'] = S('m_pp', '>')
            if precip == 'rain':
                d['percent_snow'] = P.ZERO
            elif precip == 'snow':
                d['percent_snow'] = P.ONE
            else:
                d['percent_snow'] = S('percent_snow', '>')
                st.assume(P.ONE - d['percent_snow'], '>')
        return mkdict(st, d)

    def run(self):
        I, fr = self.I, self.fr
        outs = []
        excs = []
        c = cls(I, INP, 'InputData')
        o1, e1 = I.run_call(c, [self.rec1], {}, self.st, fr)
        excs += e1
        for s1, r1 in o1:
            o2, e2 = I.run_call(c, [self.rec2], {}, s1, fr)
            excs += e2
            for s2, r2 in o2:
                I.roots = [self.model]
                I.exc.append([])
                ms = I.getattr(self.model, 'do_data_tstep', s2, fr, _NODE)
                I.exc.pop()
                if not ms:
                    raise AnalysisError('Snobal.do_data_tstep not found')
                s3, m = ms[0]
                s3.ghost['i1'] = r1
                s3.ghost['i2'] = r2
                o3, e3 = I.run_call(m, [r1, r2], {}, s3, fr)
                outs += [(s, r1) for s, v in o3]
                excs += e3
        self.outs, self.excs = outs, excs
        return outs, excs
