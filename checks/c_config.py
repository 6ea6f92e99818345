"""C15 (options take effect), C16 (input table), C17 (output table) and C18 (faulty
configurations), decided on symbolic runs of PySnobal from its configuration."""
from fractions import Fraction as Fr
from absint import poly as P
from absint import frames as FR
from absint import models as M
from absint.poly import Poly
from absint.values import Ref, Ser
from .base import Obs, ROOT
from .config import Run, documented, DOCUMENTED, INPUT_COLUMNS, STEPS, PY, AnalysisError
from .step import cls, getf, field, mkdict, SN, INP, FREEZE, NOSNOW, PHYS, _NODE, ENERGY

MAP = {'net_solar': 'S_n', 'incoming_thermal': 'I_lw', 'air_temp': 't_a', 'vapor_pressure': 'e_a', 'wind_speed': 'u', 'soil_temp': 't_g',
       'precip_mass': 'm_pp', 'percent_snow': 'percent_snow', 'rho_snow': 'rho_snow', 'precip_temp': 't_pp'}
OUT = {'R_n': 'R_n_bar', 'H': 'H_bar', 'L_v_E': 'L_v_E_bar', 'G': 'G_bar', 'M': 'M_bar', 'delta_Q': 'delta_Q_bar', 'G_0': 'G_0_bar',
       'delta_Q_0': 'delta_Q_0_bar', 'E_s': 'E_s_sum', 'melt': 'melt_sum', 'swi': 'swi_sum'}
for _x in ('cc_s_0 cc_s_l cc_s z_s_0 z_s_l z_s rho m_s_0 m_s_l m_s h2o t_s_0 t_s_l t_s').split():
    OUT[_x] = _x
CELSIUS = ('t_s_0', 't_s_l', 't_s')
cfg = lambda k: P.sym('cfg:' + k, {'cfg:' + k})
JOB_LIMIT = 800


def jobs(pid, tier):
    if pid == 'C15':
        out = [(pid, 'options', mode, rel, fmt) for mode in ('normal', 'all') for rel in (False, True) for fmt in (True, False)
               if not (fmt is False and rel)]
        out += [(pid, 'steps', i) for i in range(len(TABLES))]
        out += [(pid, 'initial', k) for k in ('none', 'bare', 'any')]
        out += [(pid, 'heights', rel) for rel in (False, True)]
        out += [(pid, 'soil', rel) for rel in (False, True)]
        out.append((pid, 'documented'))
        return out
    if pid == 'C16':
        return [(pid, 'input', 'plain'), (pid, 'input', 'extra columns'), (pid, 'input', 'other order')]
    if pid == 'C17':
        return [(pid, 'output', fmt, mode) for fmt in (True, False) for mode in ('normal', 'all')]
    if pid == 'C18':
        bad = ('path missing', 'path directory', 'path bad', 'object bad', 'none', 'number', 'list')
        return [(pid, 'gate', c) for c in ('path ok', 'object ok') + bad] + [(pid, 'igate', c) for c in bad]


def run_job(pid, kind, *arg):
    ob = Obs()
    globals()['job_' + kind](ob, *arg)
    return ob


# ------------------------------------------------------------------ helpers

def finish(ob, R):
    ob.stats(R.I)
    for e in R.I.events:
        if e['kind'] == 'unsupported':
            ob.count('constructs taken as unknown values (%s)' % e['msg'])


def constructed(ob, R, tag, allow_exc=False):
    out, exc = R.construct()
    ob.count('configuration paths', len(out) + len(exc))
    if not allow_exc:
        for s, e in exc[:3]:
            ob.add('%s: construction completes' % tag, False, 'stops with %s' % (e,))
    if not out:
        raise AnalysisError('%s: no path constructs the model' % tag)
    return out, exc


def recorder(R, fill=True):
    """Snobal.do_data_tstep replaced: remember the call, put symbols into the state, write a record"""
    I = R.I
    R.seen = []

    def init(I, st, f, d, fr, n):
        v = list(d.values())
        st.ghost['rec%d' % v[0].id] = v[1]
        return [(st, None)]

    def step(I, st, f, d, fr, n):
        v = list(d.values())
        st.ghost['calls'] = st.ghost.get('calls', ()) + (tuple(st.ghost.get('rec%d' % x.id) if isinstance(x, Ref) else None for x in v[1:3]),)
        me = v[0]
        st.ghost['model'] = me
        k = len(st.ghost['calls'])
        if fill:
            ss = getf(st, me, 'snow_state')
            names = list(ENERGY) + [x + '_bar' for x in ENERGY] + ['E_s', 'melt', 'swi', 'E_s_sum', 'melt_sum', 'swi_sum', 'cc_s_0', 'cc_s_l', 'h2o',
                                                                  'z_s_0', 'z_s_l', 'z_s', 'rho', 'm_s_0', 'm_s_l', 'm_s', 't_s_0', 't_s_l', 't_s', 'h2o_sat', 'h2o_total']
            for x in names:
                st = I.setattr(ss, x, P.sym('row:end.%s#%d' % (x, k)), st, fr, n)[0]
            st = I.setattr(me, 'current_datetime', P.sym('row:end.time#%d' % k), st, fr, n)[0]
            out = []
            for s, m in I.getattr(me, 'output', st, fr, n):
                out += [(s2, None) for s2, _ in I.call(m, [], {}, s, fr, n)]
            return out
        return [(st, None)]
    R.I.override['InputData.__init__'] = init
    R.I.override['Snobal.do_data_tstep'] = step


def known(st, p, op):
    try:
        return st.facts.compare(p, op)
    except P.TooBig:
        return None


# ------------------------------------------------------------------ C16

def start_end():
    tz = cfg('time.time_zone')
    loc = lambda k: M.opaque('.tz_localize', [M.opaque('call:pandas.to_datetime', [cfg(k)]), tz])
    return loc('time.start_date'), loc('time.end_date'), tz


def steps_of(index):
    """one data step: the spacing of the sorted localised index, or the configured step"""
    return [M.row_value(index, 1) - M.row_value(index, 0), P.const(STEPS['time.time_step'] * 60), M.opaque('diff', [index]), M.opaque('diff', [M.row_value(index, 0)])]


def job_input(ob, variant):
    cols = list(INPUT_COLUMNS)
    if variant == 'extra columns':
        cols = ['station'] + cols[:4] + ['snow_depth'] + cols[4:] + ['rain', 'relative_humidity']
    if variant == 'other order':
        cols = cols[::-1]
    R = Run(columns=cols)
    R.with_config()
    recorder(R)
    I = R.I
    start, end, tz = start_end()
    out, exc = constructed(ob, R, 'input table (%s)' % variant)
    row = lambda c: P.sym('row:' + c)
    tag = 'input table (%s): ' % variant
    nrows = 0
    for st0, me in out:
        st0.ghost['calls'] = ()
        outs, excs = R.run(st0, me)
        ob.count('run paths', len(outs) + len(excs))
        for s, e in excs[:2]:
            ob.add(tag + 'the run completes', False, 'stops with %s' % (e,))
        for st, _ in outs:
            io = st.ghost.get('io', ())
            reads = [x for x in io if x[0] == 'read_csv']
            ob.add(tag + 'the configured input file is read once', len(reads) == 1 and reads[0][1] == cfg('files.input_csv'), str(reads)[:200])
            if len(reads) == 1:
                kw = reads[0][2]
                bad = {k: v for k, v in kw.items() if k not in ('index_col', 'parse_dates')}
                ob.add(tag + 'the whole table is read, with its dates parsed', kw.get('index_col') == 'date_time' and kw.get('parse_dates') is True and not bad, str(kw))
            fo = st.ghost.get('rows of')
            if fo is None:
                ob.add(tag + 'rows are taken from the table', False, 'the row conversion is not a row-wise conversion of the table')
                continue
            f = st.get(fo).f
            ob.add(tag + 'records are interpreted in the configured time zone', f.get('#index') == M.opaque('.tz_localize', [row('date_time'), tz]), str(f.get('#index')))
            ob.add(tag + 'records are processed in chronological order', f.get('#sorted') is True, 'the table is not sorted by time')
            if not window(ob, tag, st, f, start, end):
                continue
            # generic row under the mask facts
            mass, frac, tp = row('precip_mass'), row('percent_snow'), row('precip_temp')
            rain = mass * (P.ONE - frac)
            exp = {k: row(c) for c, k in MAP.items()}
            for c in ('t_a', 't_g'):
                exp[c] = exp[c] + FREEZE
            warm = tp + FREEZE
            israin, cold = known(st, rain, '>'), known(st, FREEZE - warm, '>')
            if israin and cold:
                tpp = [FREEZE]
            elif israin is False or cold is False:
                tpp = [warm]
                if known(st, FREEZE - warm, '=='):
                    tpp.append(FREEZE)
            else:
                tpp = []
            for k, want in sorted(exp.items()):
                if k == 't_pp':
                    continue
                ob.add(tag + '%s is column %s%s' % (k, [c for c in MAP if MAP[c] == k][0], ' in Kelvin' if k in ('t_a', 't_g') else ' unchanged'),
                       f.get(k) == want, 'is %s' % (f.get(k),))
            got = f.get('t_pp')
            ob.add(tag + 't_pp is column precip_temp in Kelvin, raised to freezing exactly for rain below freezing', any(got == w for w in tpp),
                   'is %s on a path with rain>0: %s, below freezing: %s' % (got, israin, cold))
            # the sequence of records
            calls = st.ghost['calls']
            idx = M.NROWS
            ob.add(tag + 'every pair of consecutive records is processed once', len(calls) == idx - 1, '%d pairs for %d records' % (len(calls), idx))
            for i, (a, b) in enumerate(calls):
                for j, r, w in ((i, a, 'start'), (i + 1, b, 'end')):
                    d = st.get(r).f if isinstance(r, Ref) else None
                    ok = d is not None and all(isinstance(d.get(k), Poly) and d[k] == M.row_value(f[k], j) for k in exp if k in f)
                    nrows += 1
                    ob.add(tag + 'record %d is the %s of data timestep %d' % (j, w, i), ok, '' if ok else 'got %s' % (None if d is None else {k: str(v)[:60] for k, v in d.items()}))
            ob.add(tag + 'the snow properties in the configuration keep their values', True)
    ob.count('records checked', nrows)
    finish(ob, R)


def window(ob, tag, st, f, start, end):
    """exactly the rows start .. end + one step, selected from sorted data; False when the generic row is outside"""
    key = tag + 'exactly the records from the start date through one step after the end date are used'
    w = f.get('#window', ())
    lo = hi = None
    inside = True
    ok = bool(w)
    index = f.get('#index')
    steps = steps_of(index) if isinstance(index, Poly) else []
    for x in w:
        if x[0] == 'rows' and x[-1] is True:
            lo = x[1] if x[1] is not None else lo
            hi = x[2] if x[2] is not None else hi
        elif x[0] == 'mask' and x[1] is True:
            if known(st, index - start, '>='):
                lo = start
            for q in steps:
                if known(st, end + q - index, '>='):
                    hi = end + q
        elif x[0] == 'mask' and x[1] is False:
            inside = False
            ok = ok and (known(st, start - index, '>') or any(known(st, index - end - q, '>') for q in steps))
        else:
            ok = False
    if inside:
        ok = ok and lo == start and isinstance(hi, Poly) and any(hi - end == q for q in steps)
    ob.add(key, ok, 'selected %s' % (str(w)[:300],))
    return inside


# ------------------------------------------------------------------ C17

def job_output(ob, fmt, mode):
    R = Run(fixed={'files.format_output': fmt, 'files.output_mode': mode})
    R.with_config()
    recorder(R)
    tag = 'output table (%s, %s mode): ' % ('formatted' if fmt else 'unformatted', mode)
    out, exc = constructed(ob, R, tag)
    st0, me = out[0]
    st0.ghost['calls'] = ()
    outs, excs = R.run(st0, me)
    for s, e in excs[:2]:
        ob.add(tag + 'the run completes', False, 'stops with %s' % (e,))
    for st, _ in outs:
        ob.count('run paths')
        io = st.ghost.get('io', ())
        w = [x for x in io if x[0] == 'to_csv']
        ob.add(tag + 'the configured output file is written once', len(w) == 1 and w[0][1] == cfg('files.output_csv'), str([x[1] for x in w]))
        if len(w) != 1:
            continue
        f, kw = w[0][2], w[0][3]
        bad = {k: v for k, v in kw.items() if not (k in ('index', 'header') and v is True) and k not in ('float_format', 'date_format', 'index_label', 'encoding', 'lineterminator')
               and not (k == 'sep' and v == ',') and not (k == 'mode' and v == 'w')}
        if not fmt and 'float_format' in kw and kw['float_format'] is not None:
            bad['float_format'] = kw['float_format']
        ob.add(tag + 'the file is written with its time index, header and all columns', not bad, str(bad))
        n = [x[1] for x in io if x[0] == 'dataframe']
        ncalls = len(st.ghost['calls'])
        model = st.ghost['model']
        ol = getf(st, model, 'output_list')
        rows = list(st.get(ol).f.values())
        ob.add(tag + 'every output record becomes one row', n and n[-1] == ncalls and len(rows) == ncalls and not f.get('#window'),
               '%s rows for %d records, selections %s' % (n, ncalls, str(f.get('#window'))[:100]))
        ob.add(tag + 'rows are indexed by the time of their record', f.get('#index') == P.sym('row:end.time#1'), str(f.get('#index')))
        ob.add(tag + 'rows are in the order of their times', f.get('#sorted') is True or f.get('#order') == 'records', 'order %s' % f.get('#order'))
        names = FR.cols(st.get(st.alloc(_frame(f))))
        ob.add(tag + 'no column is missing', set(OUT) <= set(names), 'missing %s' % sorted(set(OUT) - set(names)))
        ob.add(tag + 'no column is added or duplicated', set(names) <= set(OUT) and not f.get('#duplicates'), 'unexpected %s' % sorted(set(names) - set(OUT)))
        for c in names:
            if c not in OUT:
                continue
            if OUT[c] == 'cc_s':
                want = P.sym('row:end.cc_s_0#1') + P.sym('row:end.cc_s_l#1')
            else:
                want = P.sym('row:end.%s#1' % OUT[c])
            if c in CELSIUS:
                want = want - FREEZE
            v = f[c]
            ob.count('columns checked')
            ob.add(tag + 'column %s holds %s%s' % (c, OUT[c], ' in Celsius' if c in CELSIUS else ''), same(v, want, fmt), 'holds %s' % str(v)[:200])
    if not outs:
        ob.add(tag + 'the run completes', False, 'no normal exit')
    finish(ob, R)


def _frame(f):
    from absint.values import HObj
    return HObj('frame', None, f)


def same(v, want, fmt):
    if not isinstance(v, Poly):
        return False
    if v == want:
        return True
    if not fmt:
        return False
    d = app_of(v)
    if d and d[0] in ('numfmt',):
        return d[1][1] == want
    if d and d[0] in ('.round', 'round', 'call:builtins.round', 'call:numpy.round'):
        return d[1][0] == want
    return False


def app_of(v):
    """(name, args) when v is one application"""
    if isinstance(v, Poly) and len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            d = P.ATOMS[m[0][0]]
            if d[0] == 'a':
                return d[1], d[2]
    return None


# ------------------------------------------------------------------ C15

TABLES = [(2880, 1440, 720, 1), (1440, 1440, 1440, 1), (120, 60, 12, 3), (60, 60, 15, 1), (60, 60, 60, 60), (180, 60, 30, 10), (1440, 60, 15, 1), (60, 20, 10, 5), (90, 45, 9, 1),
          (60, 45, 15, 5), (60, 120, 15, 1), (60, 60, 25, 5), (60, 60, 15, 4), (60, 30, 20, 10), (60, 60, 15, 0), (60, 60, 15, -5), (100, 60, 15, 1),
          (60, 60, 90, 1), (60, 60, 15, 30), (90, 60, 15, 5)]


def valid(t):
    return all(b > 0 and a % b == 0 for a, b in zip(t, t[1:]))


def job_steps(ob, i):
    t = TABLES[i]
    tag = 'timesteps %d/%d/%d/%d min: ' % t
    fixed = dict(zip(('time.time_step', 'model.norm_time_step', 'model.medium_time_step', 'model.small_time_step'), t))
    R = Run(fixed=fixed)
    R.with_config()
    recorder(R, fill=False)
    I = R.I
    out, exc = R.construct()
    ob.count('configuration paths', len(out) + len(exc))
    if not valid(t):
        ob.add(tag + 'refused before anything is computed', not out and bool(exc), '%d normal exits' % len(out))
        finish(ob, R)
        return
    for s, e in exc[:2]:
        ob.add(tag + 'accepted', False, 'stops with %s' % (e,))
    for st, me in out[:1]:
        table = getf(st, me, 'tstep_info')
        check_table(ob, tag, st, table, t)
    if not out:
        ob.add(tag + 'accepted', False, 'no normal exit')
    finish(ob, R)


def check_table(ob, tag, st, table, t):
    rows = [st.get(x).f if isinstance(x, Ref) else {} for x in (st.get(table).f.get(k) for k in (0, 1, 2))]
    names = ('norm', 'medium', 'small')
    for k in range(3):
        r = rows[k]
        want = {'level': P.const(k), 'time_step': P.const(t[k + 1] * 60), 'time_step_timedelta': P.const(t[k + 1] * 60),
                'intervals': P.const(Fr(t[k], t[k + 1])), 'intervals_per_timestep': P.const(Fr(t[0], t[k + 1])),
                'threshold': cfg('model.%s_threshold' % names[k])}
        for x, w in want.items():
            v = r.get(x)
            ob.add(tag + '%s of the %s level' % (x, names[k]), isinstance(v, Poly) and v == w, 'is %s, not %s' % (v, w))


def modelled(ob, R, tag, me, st, handler):
    """run with do_data_tstep's override `handler`; all observations are made there"""
    outs, excs = R.run(st, me)
    ob.count('run paths', len(outs) + len(excs))
    return outs, excs


def job_options(ob, mode, rel, fmt):
    R = Run(fixed={'files.output_mode': mode, 'measurement_heights.relative_heights': rel, 'files.format_output': fmt,
                   'initial_snow_properties.z_s': 0, 'initial_snow_properties.rho': 0})
    R.with_config()
    recorder(R)
    I = R.I
    tag = 'options (%s mode, %s heights, %s): ' % (mode, 'relative' if rel else 'absolute', 'formatted' if fmt else 'unformatted')
    base = I.override['Snobal.do_data_tstep']
    shots = []

    def step(I, st, f, d, fr, n):
        me = list(d.values())[0]
        if not st.ghost.get('calls'):
            shots.append((st.copy(), me))
        return base(I, st, f, d, fr, n)
    I.override['Snobal.do_data_tstep'] = step
    out, exc = constructed(ob, R, tag)
    st0, me = out[0]
    cfg0 = {(s, k): v for s, r in R.cfg.sections.items() for k, v in st0.get(r).f.items()}
    st0.ghost['calls'] = ()
    outs, excs = R.run(st0, me)
    start, end, tz = start_end()
    ob.count('run paths', len(outs) + len(excs))
    if not shots:
        ob.add(tag + 'a timestep is computed', False, 'the model is never run')
    for st, m in shots:
        ss = getf(st, m, 'snow_state')
        for what, got, want in (
                ('the clock starts at the start date in the configured time zone', getf(st, m, 'current_datetime'), start),
                ('the smallest threshold is the one layers must reach', getf(st, ss, 'small_threshold'), cfg('model.small_threshold')),
                ('the water-holding capacity is max_h2o', getf(st, ss, 'max_h2o_vol'), cfg('model.max_h2o')),
                ('the active layer depth is max_active', getf(st, ss, 'max_z_s_0'), cfg('model.max_active')),
                ('the roughness length is z_0', getf(st, ss, 'z_0'), cfg('initial_snow_properties.z_0'))):
            ob.add(tag + what, isinstance(got, Poly) and got == want, 'is %s' % (got,))
        check_table(ob, tag, st, getf(st, m, 'tstep_info'), tuple(STEPS[k] for k in ('time.time_step', 'model.norm_time_step', 'model.medium_time_step', 'model.small_time_step')))
    for st, _ in outs:
        io = st.ghost.get('io', ())
        ob.add(tag + 'input_csv is read and output_csv written', [(x[0], x[1]) for x in io if x[0] != 'dataframe'] ==
               [('read_csv', cfg('files.input_csv')), ('to_csv', cfg('files.output_csv'))], str([(x[0], str(x[1])) for x in io])[:200])
        for x in io:
            if x[0] == 'to_csv':
                k = [app_of(v) is not None and app_of(v)[0] == 'numfmt' for c, v in x[2].items() if not c.startswith('#')]
                ff = x[3].get('float_format')
                ob.add(tag + 'format_output decides whether numbers are formatted', (all(k) or ff is not None) if fmt else not any(k) and ff is None,
                       '%d of %d columns formatted' % (sum(k), len(k)))
        f = st.get(st.ghost['rows of']).f
        window(ob, tag, st, f, start, end)
        ob.add(tag + 'records are interpreted in the configured time zone', f.get('#index') == M.opaque('.tz_localize', [P.sym('row:date_time'), tz]), str(f.get('#index')))
        for (s, k), v in sorted(cfg0.items()):
            v2 = st.get(R.cfg.sections[s]).f.get(k)
            ob.add(tag + 'option %s.%s keeps its value during the run' % (s, k), v2 is v or v2 == v, 'became %s' % (v2,))
    if not outs:
        ob.add(tag + 'the run completes', False, 'no normal exit')
    # output mode, observed on the records of one pair
    finish(ob, R)
    records(ob, mode, tag)


def records(ob, mode, tag):
    """number of records for one pair of inputs: 2 normal timesteps without snow"""
    R = Run(fixed={'files.output_mode': mode, 'initial_snow_properties.z_s': 0, 'initial_snow_properties.rho': 0})
    R.with_config()
    I = R.I
    nop = lambda I, st, f, d, fr, n: [(st, None)]
    I.override['Snobal.energy_balance'] = nop
    I.override['Snobal.mass_balance'] = nop
    got = []

    def step(I, st, f, d, fr, n):
        h = I.override.pop('Snobal.do_data_tstep')
        v = list(d.values())
        r = I.call_func(f, [], dict(d), st, fr, n)
        I.override['Snobal.do_data_tstep'] = h
        for s, _ in r:
            rows = s.get(getf(s, v[0], 'output_list')).f
            got.append(len(rows))
        return []
    I.override['Snobal.do_data_tstep'] = step
    out, exc = constructed(ob, R, tag)
    st0, me = out[0]
    R.run(st0, me)
    want = 1 if mode == 'normal' else 2
    ob.add(tag + 'output_mode decides how many records are written', bool(got) and set(got) == {want}, 'records after one data timestep of two normal ones: %s' % sorted(set(got)))
    finish(ob, R)


def job_initial(ob, kind):
    fixed = {} if kind == 'any' else {'initial_snow_properties.z_s': 0}
    if kind == 'bare':
        fixed['initial_snow_properties.rho'] = 0
    R = Run(fixed=fixed)
    R.with_config()
    recorder(R, fill=False)
    I = R.I
    tag = 'initial snowpack (%s): ' % {'any': 'any depth', 'none': 'no depth', 'bare': 'bare ground'}[kind]
    shots = []

    def step(I, st, f, d, fr, n):
        shots.append((st, list(d.values())[0]))
        return []
    I.override['Snobal.do_data_tstep'] = step
    out, exc = constructed(ob, R, tag)
    st0, me = out[0]
    outs, excs = R.run(st0, me)
    for s, e in excs[:2]:
        ob.add(tag + 'the run starts', False, 'stops with %s' % (e,))
    ic = lambda k: cfg('initial_snow_properties.' + k) if 'initial_snow_properties.' + k not in fixed else P.const(fixed['initial_snow_properties.' + k])
    seen = set()
    for st, m in shots:
        ss = getf(st, m, 'snow_state')
        for s, n in field(I, st, ss, 'layer_count', R.fr):
            n = int(n.const()) if isinstance(n, Poly) and n.is_const() else None
            seen.add(n)
            g = lambda k: getf(s, ss, k)
            want = [('z_0', g('z_0'), ic('z_0')), ('max_h2o_vol', g('max_h2o_vol'), cfg('model.max_h2o'))]
            if n is None:
                ob.add(tag + 'the number of layers is determined', False, 'layer_count is not a number')
                continue
            if n:
                mass = ic('rho') * ic('z_s')
                want += [('z_s', g('z_s'), ic('z_s')), ('rho', g('rho'), ic('rho')), ('t_s', g('t_s'), ic('t_s') + FREEZE),
                         ('t_s_0', g('t_s_0'), ic('t_s_0') + FREEZE), ('h2o_sat', g('h2o_sat'), ic('h2o_sat')), ('m_s', g('m_s'), mass)]
                ob.add(tag + 'with %d layer(s): liquid water is h2o_sat times the capacity' % n, P.equal(g('h2o'), ic('h2o_sat') * g('h2o_max')), str(g('h2o'))[:200])
            if n == 2:
                want += [('t_s_l', g('t_s_l'), ic('t_s') + FREEZE), ('z_s_0', g('z_s_0'), cfg('model.max_active'))]
            for k, v, w in want:
                ob.add(tag + 'with %d layer(s): %s comes from its option' % (n, k), isinstance(v, Poly) and P.equal(s.facts.reduce(v), s.facts.reduce(w)), 'is %s' % str(v)[:200])
    ob.add(tag + 'the layouts that can occur are seen', seen == ({0, 1, 2} if kind == 'any' else {0}), str(seen))
    ob.count('initial states', len(shots))
    finish(ob, R)


def job_heights(ob, rel, soil=False):
    R = Run(fixed={'measurement_heights.relative_heights': rel})
    R.with_config()
    I = R.I
    tag = '%s heights: ' % ('relative' if rel else 'absolute')
    calls = []

    def hle1(I, st, f, d, fr, n):
        a = f.node.args
        calls.append((st, [d[x.arg] for x in a.args if x.arg in d]))
        return []

    def ssxfr(I, st, f, d, fr, n):
        a = f.node.args
        calls.append((st.copy(), [d[x.arg] for x in a.args if x.arg in d]))
        return PHYS['ssxfr'](I, st, f, d, fr, n)
    if soil:
        I.override['ssxfr'] = ssxfr
        I.override['hle1'] = lambda I, st, f, d, fr, n: [(st, tuple(P.sym('hle1.' + x) if x != 'status' else P.ZERO for x in ('H', 'L_v_E', 'E', 'status', 'ustar', 'factor')))]
    else:
        I.override['hle1'] = hle1
    I.override['Snobal.mass_balance'] = lambda I, st, f, d, fr, n: []
    out, exc = constructed(ob, R, tag)
    st0, me = out[-1]
    for i in range(M.NROWS):
        st0.assume(P.sym('row:precip_mass@%d' % i), '==')
        st0.assume(P.sym('row:soil_temp@%d' % i) + FREEZE, '>')
        st0.assume(P.sym('row:air_temp@%d' % i) + FREEZE, '>')
    R.run(st0, me)
    ob.count('call sites reached', len(calls))
    z = lambda k: cfg('measurement_heights.' + k)
    if not calls:
        ob.add(tag + 'the physics is reached', False, 'no call')
    zs = cfg('initial_snow_properties.z_s')
    if soil:
        tg = M.row_value(P.sym('row:soil_temp'), 0) + FREEZE
        n = 0
        for st, a in calls:
            k1, k2, t1, t2, d1, d2 = a[:6]
            pairs = {0: (t1, d1), 1: (t2, d2)}
            hit = [i for i in (0, 1) if pairs[i][0] == tg]
            if not hit:
                continue
            n += 1
            i = hit[0]
            ob.add(tag + 'the soil temperature is measured at depth z_g', len(hit) == 1 and pairs[i][1] == z('z_g'), 'depth used is %s' % (pairs[i][1],))
        ob.add(tag + 'soil heat is computed from the soil temperature', n > 0, 'no heat transfer call with the soil temperature')
        finish(ob, R)
        return
    I2 = R.I
    for st, a in calls:
        press, ta, ts, za, ea, es, zq, u, zu, z0 = a[:10]
        sub = P.ZERO if rel else zs
        for k, v, w in (('air temperature height', za, z('z_t') - sub), ('vapour pressure height', zq, z('z_t') - sub), ('wind height', zu, z('z_u') - sub),
                        ('roughness length', z0, cfg('initial_snow_properties.z_0')),
                        ('surface temperature', ts, cfg('initial_snow_properties.t_s_0') + FREEZE)):
            ob.add(tag + 'the %s in the turbulent transfer' % k, isinstance(v, Poly) and P.equal(st.facts.reduce(v), st.facts.reduce(w)), 'is %s' % str(v)[:200])
        lab = press.labels() if isinstance(press, Poly) else ()
        ob.add(tag + 'air pressure follows the site elevation in kilometres', isinstance(press, Poly) and press == pressure(I2, st, R.fr), 'depends on %s: %s' % (sorted(lab), str(press)[:200]))
    finish(ob, R)


def pressure(I, st, fr):
    """hysat at the site elevation, by the documented arguments"""
    m = 'pysnobal.core.functions'
    h = I.base.get(I.modules[m]).f.get('hysat')
    if h is None:
        raise AnalysisError('hysat not found')
    g = P.const
    a = [g(Fr('101324.6')), g(Fr('288.0')), g(Fr('-6.5')), P.div(cfg('topo.elevation'), g(1000)), g(Fr('9.80665')), g(Fr('28.9644'))]
    r, e = I.run_call(h, a, {}, st.copy(), fr)
    vals = {v for _, v in r}
    return vals.pop() if len(vals) == 1 else None


def job_soil(ob, rel):
    job_heights(ob, rel, True)


def job_documented(ob):
    doc = documented()
    for s, ks in DOCUMENTED.items():
        for k in ks:
            ob.add('option %s.%s is documented' % (s, k), k in doc.get(s, ()), 'missing from pysnobal_core_config.ini')
    extra = sorted('%s.%s' % (s, k) for s, ks in doc.items() for k in ks if k not in DOCUMENTED.get(s, ()))
    ob.info['options without a rule'] = len(extra)


# ------------------------------------------------------------------ C18

def job_gate(ob, case, gridded=False):
    counts = [(0, 0)]
    if case in ('path bad', 'object bad'):
        counts = [(1, 0), (1, 1), (1, 3), (2, 1), (3, 3)]
    elif case.endswith(' ok'):
        counts = [(0, 0), (0, 1), (0, 2)]
    for ne, nw in counts:
        gate(ob, case, gridded, ne, nw)


def gate(ob, case, gridded, ne, nw):
    from absint.values import HObj, Ext
    R = Run()
    I = R.I
    mod, name = ('pysnobal.ipysnobal', 'iPySnobal') if gridded else (PY, 'PySnobal')
    if I.load(mod) is None:
        raise AnalysisError('module %s not found' % mod)
    kind, how = case.split(' ') if ' ' in case else (case, 'bad')
    bad = how != 'ok'
    tag = '%s, %s: ' % (name, {'path ok': 'sound file', 'path missing': 'missing file', 'path bad': 'file failing the check', 'path directory': 'a directory',
                                'object ok': 'sound configuration object', 'object bad': 'configuration object failing the check', 'none': 'no configuration',
                                'number': 'a number', 'list': 'a list'}[case])
    st = I.start()
    if gridded:
        R.cfg.doc = documented(ROOT, 'ipysnobal_core_config.ini')
    cfgref = R.cfg.build(st)
    hits = []
    ucfg = st.alloc(HObj('obj', None, {'cfg': cfgref, 'filename': P.sym('file name'), 'mcfg': P.sym('mcfg')}, {'open': lambda n: P.fresh('ucfg.' + n)}))
    one = lambda v: (lambda I, args, kw, st, fr, n: [(st, v)])
    is_file, exists = how not in ('missing', 'directory'), how != 'missing'

    def errors(I, args, kw, st, fr, n):
        e = st.alloc(HObj('list', None, {i: 'error text %d' % i for i in range(ne)}))
        w = st.alloc(HObj('list', None, {i: 'warning text %d' % i for i in range(nw)}))
        st.ghost['checked'] = st.ghost.get('checked', 0) + 1
        return [(st, (w, e))]

    def load(I, args, kw, st, fr, n):
        if not is_file or not (args and isinstance(args[0], str)):
            I.raise_(st, 'OSError', fr, n)
            return []
        return [(st, ucfg)]

    def isinst(I, args, kw, st, fr, n):
        t = list(args[1]) if isinstance(args[1], tuple) else [args[1]]
        if args[0] == ucfg:
            return [(st, any(isinstance(x, Ext) and x.path.endswith('UserConfig') for x in t))]
        return M.f_isinstance(I, args, kw, st, fr, n)

    def io(what):
        def h(I, args, kw, st, fr, n):
            if bad:
                hits.append('%s at %s:%d' % (what, fr.file, getattr(n, 'lineno', 0)))
                return []
            return NotImplemented
        return h
    I.ext_table = dict(getattr(I, 'ext_table', None) or {})
    I.ext_table.update({'inicheck.tools.check_config': errors, 'inicheck.tools.get_user_config': load, 'inicheck.config.UserConfig': load,
                        'os.path.isfile': one(is_file), 'os.path.exists': one(exists), '.is_file': one(is_file), '.exists': one(exists),
                        'os.path.isdir': one(how == 'directory'), 'builtins.isinstance': isinst, 'xarray.load_dataarray': io('load_dataarray'),
                        'xarray.open_mfdataset': io('open_mfdataset'), 'xarray.open_dataset': io('open_dataset'), 'pandas.read_csv': io('read_csv'), '.to_csv': io('to_csv')})

    def model(I, st, f, d, fr, n):
        if bad:
            hits.append('the model')
            return []
        return [(st, None)]
    I.override['Snobal.__init__'] = model
    arg = {'path': 'run.ini', 'object': ucfg, 'none': None, 'number': P.const(5)}.get(kind)
    if kind == 'list':
        arg = st.alloc(HObj('list', None, {0: 'run.ini'}))
    out, exc = I.run_call(cls(I, mod, name), [arg], {}, st, I.top_frame(mod))
    ob.count('configuration paths', len(out) + len(exc))
    if not bad:
        ob.add(tag + 'accepted', bool(out), 'no normal exit: %s' % ([str(e) for _, e in exc][:2],))
        for s, e in exc[:1]:
            ob.add(tag + 'accepted on every path', False, str(e))
        for s, me in out:
            ob.add(tag + 'the configuration is checked before it is used', s.ghost.get('checked', 0) >= 1, 'check_config is never called')
            ob.add(tag + 'the checked configuration is the one used', getf(s, me, 'config') == cfgref, str(getf(s, me, 'config')))
        finish(ob, R)
        return
    ob.add(tag + 'no path constructs the model', not out, '%d paths complete' % len(out))
    ob.add(tag + 'the program stops', bool(exc), 'no raising exit')
    ob.add(tag + 'nothing is read, computed or written', not hits, 'reaches %s' % (hits[:3],))
    for s, e in exc:
        failure = True
        if e.name == 'SystemExit':
            code = e.args[0] if e.args else None
            failure = isinstance(code, str) or isinstance(code, Poly) and s.facts.compare(code, '!=') is True or code is True
        ob.add(tag + 'it stops with a failure', failure, '%s at %s' % (e.name, e.where))
    finish(ob, R)


def job_igate(ob, case):
    job_gate(ob, case, True)


def explain(pid):
    base = ('PySnobal(configuration).run() is interpreted with every documented option a distinct symbol (timesteps and switches concrete) and a table '
            'of generic rows; pandas is modelled row-wise. ')
    return base + {
        'C15': 'The value each option gives to the model quantity it documents is compared as a polynomial identity, per switch combination, and where '
               'the turbulent and soil heat transfer are called.',
        'C16': 'On every mask path the columns, time zone, order, row selection and the sequence of record pairs handed to the model are compared with the documented mapping.',
        'C17': 'The model state is replaced by distinct symbols at every record; the table handed to the csv writer is compared column by column.',
        'C18': 'The gate is interpreted with the file tests, the loader and the checker replaced by each outcome; faulty outcomes must raise a failure before any read, model or write call.'}[pid]


MIN = {'C15': {'heights: the wind height': 4, 'refused before': 5, 'of the small level': 30, 'output_mode decides': 6, 'keeps its value': 50, 'comes from its option': 10,
               'soil temperature is measured': 2},
       'C16': {'is the start of data timestep': 9, 't_pp is column': 12, 'exactly the records': 12},
       'C17': {'column ': 100, 'the configured output file': 4},
       'C18': {'nothing is read': 14, 'stops with a failure': 10}}
