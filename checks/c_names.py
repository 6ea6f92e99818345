"""C21: no execution path hits an undefined name, a missing attribute or a call that does not fit."""
import ast
import importlib
import sys
from absint import interp as IP
from absint import poly as P
from .base import Obs, ROOT
from .step import new_interp, AnalysisError, Step
from . import lint

JOB_LIMIT = 850
KINDS = {'noname': 'every name is defined', 'noattr': 'every attribute exists', 'unbound': 'every local is set before it is read',
         'maybe-unbound': 'every local is set before it is read', 'arity': 'every call fits its callee', 'type': 'every operation gets a usable operand',
         'nokey': 'every key looked up is present'}
ENGINE = ('pysnobal.point', 'pysnobal.core', 'pysnobal.pysnobal')
MODULES = ('pysnobal.core.functions', 'pysnobal.core.snow', 'pysnobal.point.libsnobal', 'pysnobal.utils')
VIA = (('c_input', 'C14', None), ('c_hle', 'C12', ('model',)), ('c_hle', 'C13', None), ('c_config', 'C15', None), ('c_config', 'C16', None),
       ('c_config', 'C17', None), ('c_config', 'C18', None), ('c_prop', 'C09', ('step', 'run')))


def jobs(pid, tier):
    out = [(pid, 'step', r, p) for r in (2, 1, 0) for p in (('mixed', 'none') if tier == 'quick' else ('mixed', 'none', 'snow', 'rain'))]
    out += [(pid, 'via', 'c_sched', ('C07', 'a', 'one', 'mixed', 'all', 1)), (pid, 'via', 'c_sched', ('C07', 'a', 'vary', 'none', 'normal', 1)),
            (pid, 'via', 'c_sched', ('C23', 'layers')), (pid, 'via', 'c_sched', ('C05', 'tables'))]
    for mod, p, skip in VIA:
        m = importlib.import_module('checks.' + mod)
        for j in m.jobs(p, 'quick'):
            if not (skip and j[1] in skip) and j[1] != 'documented':
                out.append((pid, 'via', mod, j))
    have = set(map(tuple, [x[3] for x in out if x[1] == 'via' and x[2] == 'c_sched']))
    m = importlib.import_module('checks.c_sched')
    ok = {j for p in ('C05', 'C07', 'C23') for j in m.jobs(p, 'quick')}
    out = [x for x in out if not (x[1] == 'via' and x[2] == 'c_sched' and tuple(x[3]) not in ok)]
    out += [(pid, 'functions', x) for x in MODULES]
    out += [(pid, 'lint', r) for r in list(lint.RULES) + ['unassigned']]
    return out


def run_job(pid, kind, *arg):
    ob = Obs()
    if kind == 'lint':
        p = lint.Pkg(ROOT)
        if arg[0] == 'unassigned':
            unassigned(ob, p)
        else:
            lint.RULES[arg[0]](p, ob)
        return ob
    del IP.INSTANCES[:]
    err = None
    try:
        if kind == 'step':
            S = Step(arg[0], arg[1], coarse=True, groups=('geo',))
            S.run()
        elif kind == 'via':
            importlib.import_module('checks.' + arg[0]).run_job(*arg[1])
        elif kind == 'functions':
            functions(ob, arg[0])
    except Exception as e:
        err = e
    found = 0
    for I in list(IP.INSTANCES):
        ob.stats(I)
        found += collect(ob, I)
    if err is not None and not found:
        raise err
    return ob


def collect(ob, I):
    bad = 0
    evs = {}
    for e in I.events:
        if e['kind'] in KINDS:
            bad += 1
            ob.add('%s: %s in %s' % (KINDS[e['kind']], e['msg'], e['func']), False, e['msg'], '%s:%d (%s)' % (e['file'], e['line'], e['func']))
    for f in I.stats['functions']:
        ob.add('interpreted without a failing name, attribute or call: %s' % (f[1] if isinstance(f, tuple) else f), True)
    return bad


def functions(ob, mod):
    """every function of a module from arbitrary numbers"""
    pk = lint.Pkg(ROOT)
    if mod not in pk.mods:
        raise AnalysisError('no module %s' % mod)
    for q, c, fn in lint.functions(pk.mods[mod]):
        if c is not None or '.' in q:
            continue
        I = new_interp(ROOT, opaque_physics=False)
        I.load(mod)
        f = I.base.get(I.modules[mod]).f.get(q)
        if f is None:
            continue
        st = I.start()
        args = [P.sym(x.arg) for x in fn.args.args]
        try:
            I.run_call(f, args, {}, st, I.top_frame(mod))
        except ZeroDivisionError:
            I = new_interp(ROOT, opaque_physics=False)
            I.load(mod)
            st = I.start()
            for x in args:
                st.assume(x, '>')
            try:
                I.run_call(I.base.get(I.modules[mod]).f[q], args, {}, st, I.top_frame(mod))
            except (AnalysisError, ZeroDivisionError):
                ob.count('functions not followed to the end from arbitrary arguments (%s)' % q)
        except AnalysisError:
            ob.count('functions not followed to the end from arbitrary arguments (%s)' % q)


def unassigned(ob, p):
    """functions the interpreter does not reach: a local that some path may read before it is set"""
    out, n = lint.unassigned(p)
    flagged = set()
    for m, q, e in out:
        if m.name.startswith(ENGINE):
            continue
        flagged.add((m.name, q))
        ob.add('every local is set before it is read: %s in %s' % (e.id, q), False, "'%s' may be read before it is set" % e.id, lint.where(m, e, q))
    for m in p.mods.values():
        for q, c, fn in lint.functions(m):
            if (m.name, q) not in flagged and not m.name.startswith(ENGINE):
                ob.add('every local is set before it is read in %s:%s' % (m.name, q), True)


def explain(pid):
    return ('Every name, imported name, module attribute, attribute of self and of attributes with a known class, and every call of a package function, '
            'class or method is resolved over the syntax trees of the whole package; the interpreter then follows timesteps, construction, configuration, '
            'input, output and every formula, and any undefined name, missing attribute, unset local, unfit call or missing key it meets is a violation.')


MIN = {'C21': {'name is defined': 250, 'attribute exists': 400, 'call fits': 80, 'interpreted without': 60, 'imported name exists': 50}}
