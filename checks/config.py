"""A symbolic run of the point model from a configuration: PySnobal(config).run().

The configuration is an open dictionary: every documented option is a symbol
labelled 'cfg:section.key' (or the concrete value the job fixes); undocumented
options do not exist."""
import os
import re
from fractions import Fraction as Fr
from absint import poly as P
from absint.values import Ref, HObj
from .base import ROOT
from .step import new_interp, cls, mkdict, mklist, getf, SN, INP, AnalysisError, _NODE

PY = 'pysnobal.pysnobal'
INPUT_COLUMNS = ['net_solar', 'incoming_thermal', 'air_temp', 'vapor_pressure', 'wind_speed', 'soil_temp', 'precip_mass', 'percent_snow',
                 'rho_snow', 'precip_temp']
STEPS = {'time.time_step': 120, 'model.norm_time_step': 60, 'model.medium_time_step': 12, 'model.small_time_step': 3}
DOCUMENTED = {
    'topo': ['elevation'],
    'time': ['start_date', 'end_date', 'time_step', 'time_zone'],
    'measurement_heights': ['z_u', 'z_t', 'z_g', 'relative_heights'],
    'model': ['norm_time_step', 'medium_time_step', 'small_time_step', 'norm_threshold', 'medium_threshold', 'small_threshold', 'max_h2o',
              'max_active'],
    'files': ['input_csv', 'output_csv', 'output_mode', 'format_output'],
    'initial_snow_properties': ['z_s', 'rho', 't_s_0', 't_s', 'h2o_sat', 'z_0'],
}
POSITIVE = {'model.norm_threshold', 'model.medium_threshold', 'model.small_threshold', 'model.max_h2o', 'model.max_active',
            'measurement_heights.z_u', 'measurement_heights.z_t', 'measurement_heights.z_g', 'initial_snow_properties.z_0',
            'initial_snow_properties.z_s', 'initial_snow_properties.rho'}


def documented(root=ROOT, name='pysnobal_core_config.ini'):
    """sections and option names of the configuration reference"""
    out, sec = {}, None
    with open(os.path.join(root, 'pysnobal', name)) as f:
        for line in f:
            m = re.match(r'\[(\w+)\]\s*$', line)
            if m:
                sec = m.group(1).lower()
                continue
            m = re.match(r'(\w+):\s*$', line)
            if m and sec and sec != 'default_recipe':
                out.setdefault(sec, []).append(m.group(1).lower())
    return out


class Config(object):
    def __init__(self, I, fixed=None, root=ROOT, doc=None):
        self.I, self.doc = I, doc or documented(root)
        self.fixed = {k: P.const(v) for k, v in STEPS.items()}
        self.fixed.update({'files.output_mode': 'normal', 'files.format_output': True, 'measurement_heights.relative_heights': False})
        self.fixed.update(fixed or {})

    def value(self, st, k):
        if k in self.fixed:
            v = self.fixed[k]
            return P.const(v) if isinstance(v, (int, Fr)) and not isinstance(v, bool) else v
        v = P.sym('cfg:' + k, {'cfg:' + k})
        if k in POSITIVE:
            st.assume(v, '>')
        return v

    def build(self, st):
        secs = {}
        for s, keys in self.doc.items():
            d = {k: self.value(st, s + '.' + k) for k in keys}
            secs[s] = mkdict(st, d)
        self.sections = dict(secs)
        self.ref = mkdict(st, secs)
        return self.ref


class Run(object):
    """PySnobal(cfg) and optionally .run(), with handlers for the model's parts"""

    def __init__(self, fixed=None, physics=True, columns=None):
        I = self.I = new_interp(ROOT, opaque_physics=physics)
        if I.load(PY) is None:
            raise AnalysisError('module %s not found' % PY)
        I.csv_columns = list(columns or INPUT_COLUMNS)
        I.cap = I.retcap = 10 ** 6
        self.fr = I.top_frame(PY)
        self.cfg = Config(I, fixed)
        self.calls = []

    def with_config(self):
        """replace reading and checking the configuration by a given configuration"""
        def h(I, st, f, d, fr, n):
            me = list(d.values())[0]
            st = I.setattr(me, 'config', self.cfg.build(st), st, fr, _NODE)[0]
            for s in I.setattr(me, 'ucfg', P.sym('user config'), st, fr, _NODE):
                st = s
            return [(st, None)]
        self.I.override['PySnobal.read_config_file'] = h

    def construct(self, st=None):
        I = self.I
        self.c = cls(I, PY, 'PySnobal')
        st = st or I.start()
        if 'read_config_file' not in str(sorted(I.base.get(self.c).f)):
            raise AnalysisError('PySnobal.read_config_file not found')
        return I.run_call(self.c, [P.sym('config_file')], {}, st, self.fr)

    def run(self, st, me):
        I = self.I
        I.roots = [me]
        ms = I.getattr(me, 'run', st, self.fr, _NODE)
        if not ms:
            raise AnalysisError('PySnobal.run not found')
        out, exc = [], []
        for s, m in ms:
            a, b = I.run_call(m, [], {}, s, self.fr)
            out += a
            exc += b
        return out, exc
