"""C05, C06, C07, C08 and part of C23: the schedule of timesteps inside one or two
data timesteps, with the physics replaced by arbitrary results."""
from fractions import Fraction as Fr
from absint import poly as P
from absint.poly import Poly
from absint.values import Ref, HObj
from .base import Obs, ROOT
from .step import (construct, new_interp, cls, mkdict, tstep_info, getf, SN, INP, ENERGY, MASSES, NOSNOW, AnalysisError, Step, _NODE)

WEATHER = ['S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g']
SPREAD = ['m_pp', 'm_rain', 'm_snow', 'z_snow']
CONST = ['percent_snow', 'rho_snow', 't_pp', 't_rain', 't_snow', 'h2o_sat_snow']
SUMS = {'E_s_sum': 'E_s', 'melt_sum': 'melt', 'swi_sum': 'swi'}
NSTEPS = {'a': (1, 2, 2), 'b': (2, 1, 3), 'c': (1, 3, 2), 'd': (3, 1, 1), 'e': (1, 4, 15), 'f': (2, 2, 3), 'g': (1, 1, 1), 'h': (2, 4, 15)}


def jobs(pid, tier):
    out = []
    if pid == 'C23':
        out = [(pid, 'layers', 0)]
        out += [(pid, 'run', n, lay, 'snow', 'normal', 1) for n in 'abcdf' for lay in ('one', 'two', 'vary') if not (n == 'f' and lay != 'one')]
        out += [(pid, 'run', 'e', 'one', 'none', 'normal', 1)]
        return out
    for n in 'abcdg':
        for lay in ('one', 'vary'):
            for prec in ('none', 'mixed'):
                for mode in (('normal', 'all') if pid in ('C07', 'C08') else ('normal',)):
                    pairs = 2 if pid in ('C07', 'C08') and n in 'adg' and prec == 'none' else 1
                    out.append((pid, 'run', n, lay, prec, mode, pairs))
    out.append((pid, 'run', 'e', 'one', 'snow', 'normal', 1))
    if pid in ('C05', 'C06'):
        out.append((pid, 'run', 'a', 'two', 'rain', 'all', 2))
    if pid == 'C05':
        from . import c_config
        out += [(pid, 'steps', i) for i in range(len(c_config.TABLES))]
    for r, p in ((2, 'mixed'), (1, 'snow'), (2, 'none'), (1, 'rain'), (0, 'mixed'), (0, 'none')):
        out.insert(0, (pid, 'effects', r, p))
    if tier == 'thorough':
        out += [(pid, 'run', 'h', 'one', 'mixed', m, 1) for m in ('normal', 'all')]
        out += [(pid, 'run', n, 'vary', 'mixed', m, 2) for m in ('normal', 'all') for n in 'cf']
    return out


JOB_LIMIT = 850


def run_job(pid, kind, *arg):
    ob = Obs()
    if kind == 'run':
        Sched(ob, pid, *arg).go()
    elif kind == 'layers':
        layers(ob)
    elif kind == 'steps':
        from . import c_config
        c_config.job_steps(ob, *arg)
    else:
        effects(ob, pid, *arg)
    return ob


class Sched(object):
    def __init__(self, ob, pid, n, lay, precip, mode, pairs):
        self.ob, self.pid, self.lay, self.precip, self.mode, self.pairs = ob, pid, lay, precip, mode, pairs
        self.n = NSTEPS[n]
        self.tag = '%d normal x %d medium x %d small, %s layer(s), %s, %s output' % (self.n + (lay, precip, mode))
        I = self.I = new_interp(ROOT)
        I.cap = I.retcap = 10 ** 6
        I.override['Snobal.energy_balance'] = self.energy
        I.override['Snobal.mass_balance'] = self.mass
        st = I.start()
        fr = self.fr = I.top_frame(SN)

        def pos(x):
            p = P.sym(x, (x,))
            st.assume(p, '>')
            return p
        ts2 = pos('dt_small')
        self.ts = [ts2.scale(self.n[1] * self.n[2]), ts2.scale(self.n[2]), ts2]
        self.data = self.ts[0].scale(self.n[0])
        self.thr = [pos('threshold0'), pos('threshold1'), pos('threshold2')]
        st.assume(self.thr[0] - self.thr[1], '>')
        st.assume(self.thr[1] - self.thr[2], '>')
        ti = tstep_info(st, n=self.n, ts=self.ts, thr=self.thr, td=self.ts)
        self.T0 = P.sym('start_date')
        params = mkdict(st, {'elevation': P.sym('elevation'), 'start_date': self.T0, 'max_h2o_vol': pos('max_h2o_vol'),
                             'max_z_s_0': pos('max_z_s_0'), 'relative_heights': True})
        heights = mkdict(st, {'z_u': pos('z_u'), 'z_t': pos('z_t'), 'z_g': pos('z_g'), 'relative_heights': True})
        ic = mkdict(st, {'z_s': P.ZERO, 'rho': P.ZERO, 't_s': P.sym('ic.t_s'), 't_s_0': P.sym('ic.t_s_0'),
                         'h2o_sat': P.sym('ic.h2o_sat'), 'z_0': pos('z_0')})
        out, exc = construct(I, st, fr, [params, ti, ic, heights, mode], ic)
        if len(out) != 1 or exc:
            raise AnalysisError('construction from an empty pack: %d outcomes, %s' % (len(out), exc))
        st, self.model = out[0]
        self.ss = getf(st, self.model, 'snow_state')
        st.ghost.update(steps=(), pair=0, k=0)
        self.nsym = 0
        sts = self.havoc_mass(st, 'init')
        self.starts = sts
        for s in sts:
            self.clear_sums(s)

    def clear_sums(self, st):
        pass

    def record(self, st, i):
        def S(x, op=None):
            p = P.sym('r%d.%s' % (i, x), ('r%d.%s' % (i, x),))
            if op:
                st.assume(p, op)
            return p
        d = {k: S(k) for k in WEATHER}
        for k in ('t_a', 't_g', 'e_a'):
            st.assume(d[k], '>')
        d['rho_snow'], d['t_pp'] = S('rho_snow', '>'), S('t_pp', '>')
        d['m_pp'] = P.ZERO if self.precip == 'none' else S('m_pp', '>')
        if self.precip == 'mixed':
            d['percent_snow'] = S('percent_snow', '>')
            st.assume(P.ONE - d['percent_snow'], '>')
            st.assume(d['t_pp'] - P.const(Fr('273.16')), '>')
        elif self.precip == 'snow':
            d['percent_snow'] = P.ONE
            st.assume(d['t_pp'] - P.const(Fr('273.16')), '<')
        else:
            d['percent_snow'] = P.ZERO
            st.assume(d['t_pp'] - P.const(Fr('273.16')), '>')
        return d

    # -- the physics, replaced by arbitrary results
    def setf(self, st, name, v):
        r = self.I.setattr(self.ss, name, v, st, self.fr, _NODE)
        assert len(r) == 1 and r[0] is st
        return st

    def energy(self, I, st, f, d, fr, n):
        k = st.ghost['k']
        rec = {'pair': st.ghost['pair'], 'time_step': getf(st, self.model, 'time_step'), 'clock': getf(st, self.model, 'current_datetime'),
               'layers': self.layer_masses(st), 'in': self.inputs(st), 'site': None}
        rec['values'] = {}
        if self.pid == 'C09':
            self.derived(st, 'at the start of a timestep')
        for x in ENERGY + ['E']:
            v = P.sym('%s@%d' % (x, k))
            rec['values'][x] = v
            self.setf(st, x, v)
        st.ghost['now'] = rec
        return [(st, None)]

    def derived(self, st, what):
        """read the weather-derived quantities for real, so that caches fill"""
        from .c_prop import judge
        o = getf(st, self.model, 'input1')
        for name in ('sat_vp', 'e_g'):
            r = self.I.getattr(o, name, st, self.fr, _NODE)
            if len(r) != 1 or r[0][0] is not st:
                raise AnalysisError('%s: reading it branches' % name)
            judge(self.ob, st, o, name, r[0][1], what)

    def mass(self, I, st, f, d, fr, n):
        k = st.ghost['k']
        rec = dict(st.ghost['now'])
        rec['in2'] = self.inputs(st)
        vals = rec['values'] = dict(rec['values'])
        for x in ('melt', 'E_s', 'swi', 'rho', 't_s', 't_s_0', 't_s_l', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_max', 'h2o_total', 'h2o_sat', 'h2o_vol'):
            v = vals[x] = P.sym('%s@%d' % (x, k))
            self.setf(st, x, v)
        st.ghost['k'] = k + 1
        if self.pid == 'C09':
            self.derived(st, 'later in a timestep')
        out = []
        for s in self.havoc_mass(st, k):
            r = dict(rec)
            r['values'] = dict(vals)
            for x in ('m_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l'):
                r['values'][x] = getf(s, self.ss, x)
            s.ghost['steps'] = s.ghost['steps'] + (r,)
            out.append((s, None))
        return out

    def havoc_mass(self, st, k):
        kinds = {'one': (1,), 'two': (2,), 'vary': (0, 1)}[self.lay]
        out = []
        for i, c in enumerate(kinds):
            s = st.copy() if i + 1 < len(kinds) else st
            v = {x: P.ZERO for x in ('m_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l')}
            for lay, on in (('0', c > 0), ('l', c > 1)):
                if on:
                    for x in ('m_s_', 'z_s_'):
                        v[x + lay] = P.sym('%s%s@%s' % (x, lay, k))
                        s.assume(v[x + lay], '>')
            v['m_s'], v['z_s'] = v['m_s_0'] + v['m_s_l'], v['z_s_0'] + v['z_s_l']
            for x, y in v.items():
                self.setf(s, x, y)
            w = s.w(self.ss)
            for x in list(w.f):
                if x.startswith('_') and w.f[x] is True:
                    w.f[x] = False
            out.append(s)
        return out

    def layer_masses(self, st):
        out = []
        for lay in ('0', 'l'):
            if st.facts.sign(getf(st, self.ss, 'z_s_' + lay)) == '+':
                out.append(getf(st, self.ss, 'm_s_' + lay))
        return out

    def inputs(self, st):
        o = st.get(getf(st, self.model, 'input1'))
        return {x: o.f.get(x, o.f.get('_' + x)) for x in WEATHER + SPREAD + CONST + ['precip_now']}

    # -- run
    def go(self):
        I, fr, ob = self.I, self.fr, self.ob
        states = self.starts
        self.recs = []
        c = cls(I, INP, 'InputData')
        cur = []
        for st in states:
            d = self.record(st, 0)
            o, e = I.run_call(c, [mkdict(st, d)], {}, st, fr)
            for s, r in o:
                s.ghost['inp'] = (r,)
                cur.append(s)
        self.recs.append(d)
        exits = 0
        for p in range(self.pairs):
            nxt = []
            for st in cur:
                d = self.record(st, p + 1)
                o, e = I.run_call(c, [mkdict(st, d)], {}, st, fr)
                for s, r in o:
                    s.ghost['inp'] = s.ghost['inp'] + (r,)
                    s.ghost['pair'] = p
                    before = self.snapshot(s, r)
                    s.ghost['orig%d' % p] = self.snapshot(s, s.ghost['inp'][p])
                    ms = I.getattr(self.model, 'do_data_tstep', s, fr, _NODE)
                    o2, e2 = I.run_call(ms[0][1], [s.ghost['inp'][p], r], {}, ms[0][0], fr)
                    for s3, e3 in e2:
                        ob.add('the timestep completes', False, '[%s] raises %s' % (self.tag, e3))
                    for s3, _ in o2:
                        if self.pid == 'C06':
                            same(ob, 'the second record is left alone', before, self.snapshot(s3, r), self.tag)
                        s3.ghost['end%d' % p] = getf(s3, self.model, 'current_datetime')
                        s3.ghost['out%d' % p] = self.outrefs(s3)
                        nxt.append(s3)
            self.recs.append(d)
            cur = nxt
        ob.stats(I)
        ob.count('schedules', len(cur))
        if not cur:
            raise AnalysisError('no schedule completes')
        for s in cur:
            {'C05': self.c05, 'C06': self.c06, 'C07': self.c07, 'C08': self.c08, 'C23': self.c23, 'C09': lambda s: None}[self.pid](s)

    def snapshot(self, st, ref):
        return {k: v for k, v in st.get(ref).f.items() if isinstance(v, Poly)}

    def outrefs(self, st):
        l = getf(st, self.model, 'output_list')
        o = st.get(l)
        if o.kind != 'list':
            raise AnalysisError('output_list is not a list')
        return tuple(o.f[i] for i in sorted(o.f))

    def eq(self, st, key, a, b, what=''):
        ok = isinstance(a, Poly) and isinstance(b, Poly) and (a == b or P.equal(a, b) or st.facts.compare(a - b, '==') is True)
        self.ob.add(key, ok, '' if ok else '[%s] %s%s must equal %s' % (self.tag, what, show(a), show(b)))

    def times(self, s):
        """start time of each step, relative to the start date"""
        t = P.ZERO
        out = []
        for r in s.ghost['steps']:
            out.append(t)
            t = t + r['time_step']
        return out, t

    def c05(self, s):
        ts, end = self.times(s)
        for r, t in zip(s.ghost['steps'], ts):
            self.eq(s, 'each timestep advances the clock by the time its physics used', r['clock'], self.T0 + t)
        for p in range(self.pairs):
            self.eq(s, 'a pair of records advances the clock by the data timestep', s.ghost['end%d' % p], self.T0 + self.data.scale(p + 1))
        self.eq(s, 'the executed timesteps add up to the data timestep', end, self.data.scale(self.pairs))

    def c06(self, s):
        ts, end = self.times(s)
        for r, t in zip(s.ghost['steps'], ts):
            p = r['pair']
            a, b = self.recs[p], self.recs[p + 1]
            w = P.div(t - self.data.scale(p), self.data)
            for when, inp in (('energy balance', r['in']), ('mass balance', r['in2'])):
                for x in WEATHER:
                    self.eq(s, '%s is interpolated between the records' % x, inp[x], a[x] + (b[x] - a[x]) * w, 'at %s of the step from %s: ' % (when, show(t)))
                now = inp['precip_now']
                if isinstance(now, Poly):
                    now = bool(now.t) if now.is_const() else None
                self.ob.add('precipitation is seen when the record has some', now is (self.precip != 'none'), '[%s] precip_now=%r' % (self.tag, now))
                if self.precip != 'none':
                    orig = s.ghost['orig%d' % p]
                    share = P.div(r['time_step'], self.data)
                    for x in SPREAD:
                        self.eq(s, '%s is spread by the length of the timestep' % x, num(inp[x]), orig[x] * share, 'at %s: ' % when)
                    for x in CONST:
                        if x in orig and ('snow' not in x or self.precip != 'rain') and ('rain' not in x or self.precip != 'snow'):
                            self.eq(s, '%s stays that of the record' % x, num(inp[x]), orig[x], 'at %s: ' % when)

    def groups(self, s):
        """steps belonging to each record, in order"""
        steps = s.ghost['steps']
        if self.mode == 'all':
            return [[r] for r in steps]
        return [[r for r in steps if r['pair'] == p] for p in range(self.pairs)]

    def c07(self, s):
        ts, end = self.times(s)
        refs = self.outrefs(s)
        gr = self.groups(s)
        self.ob.add('one record per interval', len(refs) == len(gr), '[%s] %d records for %d intervals' % (self.tag, len(refs), len(gr)))
        if len(refs) != len(gr):
            return
        self.ob.add('records are separate objects', len(set(refs)) == len(refs) and all(isinstance(r, Ref) for r in refs), self.tag)
        for p in range(self.pairs):
            o = s.ghost['out%d' % p]
            self.ob.add('records stay in order', refs[:len(o)] == o, self.tag)
        t = self.T0
        for ref, g in zip(refs, gr):
            f = s.get(ref).f
            for r in g:
                t = t + r['time_step']
            self.eq(s, 'a record is stamped with the end of its interval', f.get('date_time'), t)
            v = g[-1]['values']
            for x, want in v.items():
                if x in f:
                    self.eq(s, 'a record holds the state at the end of its interval', f[x], want, x + ': ')
            n = sum(1 for lay in ('0', 'l') if s.facts.sign(v['z_s_' + lay]) == '+')
            self.eq(s, 'a record holds the derived state of that moment', num(f.get('layer_count')), P.const(n), 'layer_count: ')
            self.eq(s, 'a record holds the derived state of that moment', f.get('cc_s'), v['cc_s_0'] + v['cc_s_l'], 'cc_s: ')
            self.ob.add('a record holds plain values', all(not isinstance(x, Ref) for x in f.values()), self.tag)

    def c08(self, s):
        refs = self.outrefs(s)
        gr = self.groups(s)
        if len(refs) != len(gr):
            self.ob.add('one record per interval', False, '[%s] %d records for %d intervals' % (self.tag, len(refs), len(gr)))
            return
        for ref, g in zip(refs, gr):
            f = s.get(ref).f
            tot = P.ZERO
            for r in g:
                tot = tot + r['time_step']
            for x in ENERGY:
                want = P.ZERO
                for r in g:
                    want = want + r['values'][x] * r['time_step']
                self.eq(s, '%s is the time-weighted mean since the last record' % x, f.get(x + '_bar'), P.div(want, tot))
            for x, y in SUMS.items():
                want = P.ZERO
                for r in g:
                    want = want + r['values'][y]
                self.eq(s, '%s is the total since the last record' % x, f.get(x), want)

    def c23(self, s):
        steps = s.ghost['steps']
        pos = [0]
        ob = self.ob

        def level(r):
            for i in range(3):
                if r['time_step'] == self.ts[i]:
                    return i
            return None

        def consume(lvl):
            for i in range(self.n[lvl]):
                if pos[0] >= len(steps):
                    return ob.add('every stretch is run', False, '[%s] level %d interval %d is missing' % (self.tag, lvl, i))
                r = steps[pos[0]]
                heavy = [s.facts.compare(m - self.thr[lvl], '>=') for m in r['layers']]
                ok = all(x is True for x in heavy)
                light = any(x is False for x in heavy)
                here = equal_step(r['time_step'], self.ts[lvl])
                if lvl == 2 or (here and not light):
                    # when two levels have the same length the outer one counts
                    if lvl < 2:
                        ob.add('a normal or medium timestep runs only above its threshold', ok,
                               '[%s] level %d, layer masses %s' % (self.tag, lvl, [show(m) for m in r['layers']]))
                    ob.add('each stretch is run with its level\'s length', here, '[%s] level %d, length %s' % (self.tag, lvl, show(r['time_step'])))
                    pos[0] += 1
                else:
                    ob.add('only a stretch below its threshold is divided', light,
                           '[%s] level %d, layer masses %s, run with length %s' % (self.tag, lvl, [show(m) for m in r['layers']], show(r['time_step'])))
                    if not consume(lvl + 1):
                        return False
            return True
        if consume(0):
            ob.add('nothing is run beyond the data timestep', pos[0] == len(steps), '[%s] %d of %d steps' % (self.tag, pos[0], len(steps)))


def equal_step(a, b):
    return a == b or P.equal(a, b)


def num(v):
    if v is True or v is False:
        return P.const(int(v))
    return v


def show(v):
    return P.show(v, 160) if isinstance(v, Poly) else repr(v)


def same(ob, key, a, b, tag):
    bad = [k for k in a if k in b and not P.equal(a[k], b[k])]
    ob.add(key, not bad, '[%s] %s' % (tag, ['%s: %s -> %s' % (k, show(a[k]), show(b[k])) for k in bad[:2]]))


# ---------------------------------------------------------- layer thresholds
def layers(ob):
    """calc_layers from an arbitrary pack"""
    S = Step(2, 'none', root=ROOT)
    I, fr = S.I, S.fr
    st = S.st
    I.merger = None
    I.bulky = None
    for zero in (False, True):
        s = st.copy()
        v = {}
        for x in ('m_s', 'z_s', 'rho'):
            v[x] = P.ZERO if zero else P.sym('any.' + x)
            if not zero:
                s.assume(v[x], '>')
        v['m_s'] = v['rho'] * v['z_s']
        on_set, I.on_set = I.on_set, None
        for x in v:
            I.setattr(S.ss, x, v[x], s, fr, _NODE)
        ms = I.getattr(S.ss, 'calc_layers', s, fr, _NODE)
        if not ms:
            raise AnalysisError('calc_layers not found')
        out, exc = I.run_call(ms[0][1], [], {}, ms[0][0], fr)
        ob.stats(I)
        for s2, _ in out:
            F = s2.facts
            z0, zl = getf(s2, S.ss, 'z_s_0'), getf(s2, S.ss, 'z_s_l')
            sg = lambda p: F.sign(p) if F.sign(p) in ('0', '+', '-') else ('0' if F.compare(p, '==') is True else ('+' if F.compare(p, '>') is True else None))
            a, b = sg(z0), sg(zl)
            tag = 'surface %s, lower %s' % (show(z0), show(zl))
            ob.add('layer depths are decided', a in ('0', '+') and b in ('0', '+'), tag)
            for s3, n in I.getattr(S.ss, 'layer_count', s2.copy(), fr, _NODE):
                n = num(n)
                want = int(a == '+') + int(b == '+')
                ob.add('the number of layers is that of the positive depths', isinstance(n, Poly) and s3.facts.reduce(n) == P.const(want), '[%s] %s' % (tag, show(n)))
            mass = v['m_s']
            if a == '+':
                ob.add('a pack exists only above the smallest threshold', F.compare(mass - S.thr, '>') is True, tag)
            else:
                ob.add('without a pack there is no lower layer', b == '0', tag)
                ob.add('a pack above the smallest threshold exists', zero or F.compare(S.thr - mass, '>=') is True, tag)
            if b == '+':
                ob.add('a lower layer has at least the threshold mass', F.compare(v['rho'] * zl - S.thr, '>=') is True, tag)
                ob.add('the surface layer of two has the maximum depth', P.equal(z0, S.Zm), tag)
            elif a == '+':
                ob.add('a single layer is the whole pack', P.equal(z0, v['z_s']), tag)
                rest = v['z_s'] - S.Zm
                ob.add('a remainder with the threshold mass is a layer', F.compare(-rest, '>=') is True or F.compare(S.thr - v['rho'] * rest, '>=') is True, tag)
        I.on_set = on_set


# ---------------------------------------------------------- effects of the physics
CLOCK = {'current_datetime', 'time_step', 'start_date', 'tstep_info', 'current_level', 'next_level', 'time_since_out',
         'input1', 'input2', 'input_deltas', 'output_list', 'output_rec', 'output_divided', 'tstep_level', 'divided_step'}


def effects(ob, pid, regime, precip):
    """what energy_balance and mass_balance may write: never the clock, the
    records (except vapour pressure), the accumulators or the output"""
    S = Step(regime, precip, root=ROOT, mode='mass', coarse=True, groups=set(), cap=6, retcap=2)
    S.I.deep = False
    names = {S.model.id: 'model', S.ss.id: 'snow'}
    inside = [0]
    seen = {}
    I = S.I

    def watch(key):
        def h(I, st, f, d, fr, n):
            del I.override[key]
            inside[0] += 1
            try:
                for nm in ('input1', 'input2'):
                    r = getf(st, S.model, nm)
                    if isinstance(r, Ref):
                        names[r.id] = nm
                r = getf(st, S.model, 'input_deltas')
                if isinstance(r, Ref):
                    names[r.id] = 'deltas'
                    for v in st.get(r).f.values():
                        if isinstance(v, Ref):
                            names[v.id] = 'deltas'
                r = getf(st, S.model, 'output_list')
                if isinstance(r, Ref):
                    names[r.id] = 'output'
                r = getf(st, S.model, 'tstep_info')
                if isinstance(r, Ref):
                    names[r.id] = 'tstep_info'
                    for v in st.get(r).f.values():
                        if isinstance(v, Ref):
                            names[v.id] = 'tstep_info'
                return I.call_func(f, [], dict(d), st, fr, n)
            finally:
                inside[0] -= 1
                I.override[key] = h
        I.override[key] = h
    watch('Snobal.energy_balance')
    watch('Snobal.mass_balance')

    def ow(st, ref, attr, val, fr, node):
        i = getattr(ref, 'id', ref)
        if inside[0] and i in names:
            seen.setdefault((names[i], str(attr)), '%s:%d (%s)' % (fr.file, getattr(node, 'lineno', 0), fr.qual))
        if pid == 'C06' and names.get(i) == 'input1' and str(attr).lstrip('_') == 'e_a' and isinstance(val, Poly) and inside[0]:
            ta = getf(st, Ref(i), 't_a')
            ob.add('vapour pressure changes only to saturation', P.equal(val, P.app('sati', ta)), '[%s] becomes %s' % (tag, show(val)),
                   '%s:%d (%s)' % (fr.file, getattr(node, 'lineno', 0), fr.qual))
    I.on_write = ow
    tag = 'start: %d layers, %s' % (regime, precip)
    if pid == 'C06':
        old = I.override['hle1']

        def h(I, st, f, d, fr, n):
            ta, ea = d.get('air_temp'), d.get('ea')
            ok = isinstance(ea, Poly) and st.facts.compare(P.app('sati', ta) - ea, '>=') is True
            ob.add('vapour pressure in use never exceeds saturation', ok, '[%s] ea = %s' % (tag, show(ea)), 'pysnobal/point/snobal.py')
            return old(I, st, f, d, fr, n)
        I.override['hle1'] = h
    outs, excs = S.run()
    ob.stats(I)
    if not seen:
        raise AnalysisError('no write seen in the physics')
    ob.count('fields written by the physics', len(seen))
    for (o, a), w in sorted(seen.items()):
        bad = None
        if pid == 'C05' and (o, a) in (('model', 'current_datetime'), ('model', 'time_step'), ('model', 'start_date'), ('model', 'current_level'),
                                       ('model', 'next_level'), ('model', 'tstep_info')) or pid == 'C05' and o == 'tstep_info':
            bad = 'the clock'
        if pid == 'C06' and (o in ('input1', 'input2', 'deltas') and a.lstrip('_') not in ('sat_vp', 'e_g') and (o, a.lstrip('_')) != ('input1', 'e_a') and
                             not a.startswith('_InputData__') or (o, a) in (('model', 'input1'), ('model', 'input2'), ('model', 'input_deltas'))):
            bad = 'the records'
        if pid == 'C07' and (o == 'output' or (o, a) in (('model', 'output_list'), ('model', 'output_rec'), ('model', 'output_divided'))):
            bad = 'the output'
        if pid == 'C08' and (o == 'snow' and (a.endswith('_bar') or a.endswith('_sum')) or (o, a) == ('model', 'time_since_out')):
            bad = 'the accumulators'
        ob.add('physics leaves %s alone' % {'C05': 'the clock', 'C06': 'the records', 'C07': 'the output', 'C08': 'the accumulators'}[pid], not bad,
               '[%s] %s.%s is written' % (tag, o, a), w)


def explain(pid):
    if pid == 'C23':
        return ('calc_layers is interpreted from an arbitrary pack. ' + SCHED)
    return SCHED + ('The physics routines are interpreted separately from every kind of entry state and every field they may write is collected. ')


SCHED = ('do_data_tstep is interpreted for concrete interval counts per level with symbolic step lengths, thresholds, records and layer masses; '
         'energy_balance and mass_balance return arbitrary new values at every call, so every possible schedule of normal, medium and small timesteps '
         'is a path, and each path is compared with the reference recurrence as polynomial identities. ')

MIN = {'C05': {'each timestep advances': 100, 'a pair of records': 50, 'physics leaves': 100},
       'C06': {'vapour pressure changes only': 1, 'vapour pressure in use': 4, 't_a is interpolated': 100, 'm_snow is spread': 50, 'physics leaves': 100},
       'C07': {'a record is stamped': 50, 'one record per interval': 50, 'physics leaves': 100},
       'C08': {'R_n is the time-weighted': 50, 'swi_sum is the total': 50, 'physics leaves': 100},
       'C23': {'only a stretch below': 30, 'a normal or medium': 20, 'a lower layer has': 1, 'a pack exists': 1}}
