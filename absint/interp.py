"""Forward abstract interpreter over Python syntax trees."""
import ast
import os
from fractions import Fraction as Fr
from . import poly as P
from .poly import Poly
from .values import (Ref, Func, Bound, Prop, Static, ClsMeth, Ext, ExtMeth, Slice, Ser, Super,
                     Range, UNBOUND, HObj, State, ExcVal)
from .facts import NEG

MAXDEPTH = 60


class AnalysisError(Exception):
    """the analysis itself cannot proceed (vanished anchor, unsupported shape)"""


class Budget(AnalysisError):
    pass


class Frame(object):
    __slots__ = ('func', 'mod', 'env', 'cls', 'returns', 'loops', 'file', 'qual', 'yields')

    def __init__(self, func, mod, env, cls, file, qual):
        self.func, self.mod, self.env, self.cls = func, mod, env, cls
        self.returns = []
        self.loops = []
        self.file = file
        self.qual = qual
        self.yields = None


_LOCALS = {}
_NESTED = {}


def has_nested(node):
    r = _NESTED.get(node)
    if r is None:
        r = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(node) if x is not node)
        _NESTED[node] = r
    return r



def local_names(node):
    r = _LOCALS.get(node)
    if r is not None:
        return r
    names, out = set(), set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
        a = node.args
        for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []):
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    gen = [False]

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # targets are local to the comprehension, walrus is not
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    r = (frozenset(names - out), gen[0])
    _LOCALS[node] = r
    return r


INSTANCES = []


class Interp(object):
    entry = None             # fn(interp, st, args) before every call made by an analysis

    def __init__(self, root, package='pysnobal'):
        INSTANCES.append(self)
        self.root = root
        self.package = package
        self.exc = [[]]
        self.events = []
        self._evkeys = set()
        self.override = {}       # 'func' or 'Class.func' -> handler
        self.observers = {}      # same keys -> fn(interp, st, func, argdict)
        self.depth = 0
        self.cap = 64            # states per block before merging
        self.retcap = 64
        self.hardcap = 10 ** 9   # above this many states even unstable ones are joined
        self.deep = False        # hints may use products of facts
        self.bulky = None        # (I, st, ids) -> slots to replace by fresh symbols
        self.stable = None       # predicate(I, st, ids): state may be joined
        self.merger = None       # callable(list of states[, values]) -> same
        self.merges = 0
        self.steps = 0
        self.max_steps = 3000000
        self.stats = {'calls': 0, 'splits': 0, 'loops': 0, 'functions': set(), 'stmts': set()}
        self.sources = {}
        self.base = State()
        self.modules = {}
        self.unroll = 40
        self.sticky = set()
        self.callstack = []
        self.roots = []          # refs kept alive in merges
        self.on_write = None     # fn(st, ref, attr, val, fr, node)
        self.trace_unbound = True
        from . import models
        self.models = models
        self.assume_nonzero = True
        self.symloop = None
        self.exact_div = False
        self.on_div = None
        self.noinline = None
        self.static_ids = frozenset()
        self.normalise = None    # fn(interp, state): canonical form before a join
        self.templates = None    # product templates for joins
        self.hints = None        # inequality hints for joins
        self.prio = {}
        self.keep_truth = lambda k: False
        self.joins = 0
        self.on_set = None       # fn(interp, st, ref, name, value) -> value
        self.on_prop = None      # fn(interp, st, obj, name, value, fr, node)

    # ------------------------------------------------------------ utilities
    def event(self, kind, fr, node, msg):
        k = (kind, fr.file if fr else '?', getattr(node, 'lineno', 0), msg)
        if k in self._evkeys:
            return
        self._evkeys.add(k)
        self.events.append({'kind': kind, 'file': fr.file if fr else '?',
                            'line': getattr(node, 'lineno', 0),
                            'func': fr.qual if fr else '?', 'msg': msg})

    def raise_(self, st, name, fr, node, args=()):
        self.exc[-1].append((st, ExcVal(name, (fr.file, getattr(node, 'lineno', 0), fr.qual), args)))

    # -------------------------------------------------------------- modules
    def module_file(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name, st=None):
        """load a module of the package (and its parents); returns its Ref or None"""
        st = self.base if st is None else st
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] != self.package:
            return None
        if '.' in name:
            self.load(name.rsplit('.', 1)[0], st)
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.module_file(name)
        if path is None:
            return None
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        rel = os.path.relpath(path, self.root)
        self.sources[rel] = tree
        ref = st.alloc(HObj('mod', None, {'__name__': name, '__file__': path}, {'name': name, 'pkg': is_pkg, 'file': rel}))
        self.modules[name] = ref
        fr = Frame(None, ref.id, ref.id, None, rel, '<module>')
        self.exc.append([])
        out = self.block(tree.body, [st], fr)
        self.exc.pop()
        if not out:
            raise AnalysisError('module %s does not load' % name)
        # module loading must not depend on unknown conditions: keep the last
        s = out[-1]
        if s is not st:
            st.heap, st.own, st.facts, st.truth, st.next, st.ghost, st.envs = \
                s.heap, s.own, s.facts, s.truth, s.next, s.ghost, s.envs
        if '.' in name:
            par, last = name.rsplit('.', 1)
            pr = self.modules.get(par)
            if pr is not None and last not in st.get(pr).f:
                st.w(pr).f[last] = ref
        return ref

    def lookup_global(self, st, mod, name):
        return st.get(self.modules[mod]).f[name]

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, fr):
        for s in stmts:
            nxt = []
            for st in states:
                nxt.extend(self.stmt(s, st, fr))
            states = nxt
            if not states:
                return []
            if len(states) > self.cap and self.merger:
                states = self.do_merge(states, fr)
        return states

    def do_merge(self, states, fr):
        n = len(states)
        r = self.merger(self, states, None)
        self.merges += n - len(r)
        return [x[0] for x in r]

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget exhausted at %s:%d' % (fr.file, n.lineno))
        self.stats['stmts'].add((fr.file, n.lineno))
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.event('unsupported', fr, n, type(n).__name__)
            raise AnalysisError('unsupported statement %s at %s:%d' % (type(n).__name__, fr.file, n.lineno))
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return [st]

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [st]
        return [s for s, v in self.ev(n.value, st, fr)]

    def s_Global(self, n, st, fr):
        return [st]
    s_Nonlocal = s_Global

    def s_Assert(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if b:
                out.append(s)
            else:
                self.raise_(s, 'AssertionError', fr, n)
        return out

    def s_Import(self, n, st, fr):
        for al in n.names:
            if al.name.split('.')[0] == self.package:
                r = self.load(al.name, st)
                if r is None:
                    self.event('noname', fr, n, 'no module %s' % al.name)
                    self.raise_(st, 'ImportError', fr, n)
                    return []
                if al.asname:
                    self.bind_name(al.asname, r, st, fr)
                else:
                    self.bind_name(self.package, self.modules[self.package], st, fr)
            else:
                if al.asname:
                    self.bind_name(al.asname, Ext(al.name), st, fr)
                else:
                    self.bind_name(al.name.split('.')[0], Ext(al.name.split('.')[0]), st, fr)
        return [st]

    def s_ImportFrom(self, n, st, fr):
        mod = n.module or ''
        if n.level:
            mm = st.get(fr.mod).meta
            base = mm['name'].split('.')
            if not mm['pkg']:
                base = base[:-1]
            if n.level > 1:
                base = base[:-(n.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod.split('.')[0] == self.package:
            r = self.load(mod, st)
            if r is None:
                self.event('noname', fr, n, 'no module %s' % mod)
                self.raise_(st, 'ImportError', fr, n)
                return []
            for al in n.names:
                if al.name == '*':
                    for k, v in list(st.get(r).f.items()):
                        if not k.startswith('_'):
                            self.bind_name(k, v, st, fr)
                    continue
                f = st.get(r).f
                if al.name in f:
                    v = f[al.name]
                else:
                    v = self.load(mod + '.' + al.name, st)
                    if v is None:
                        self.event('noname', fr, n, 'cannot import %s from %s' % (al.name, mod))
                        self.raise_(st, 'ImportError', fr, n)
                        return []
                self.bind_name(al.asname or al.name, v, st, fr)
        else:
            for al in n.names:
                self.bind_name(al.asname or al.name, Ext(mod + '.' + al.name), st, fr)
        return [st]

    def s_FunctionDef(self, n, st, fr):
        outs = [(st, [])]
        for d in n.args.defaults:
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.ev(d, s, fr)]
        res = []
        for s, defs in outs:
            kws = [(s, {})]
            for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults):
                if d is not None:
                    kws = [(s3, dict(kd, **{a.arg: v})) for s2, kd in kws for s3, v in self.ev(d, s2, fr)]
            for s2, kd in kws:
                env = self.closure_env(s2, fr)
                f = Func(n, fr.mod, env, tuple(defs), kd, fr.cls if self.in_class(s2, fr) else None, n.name)
                cur = [(s2, f)]
                for dec in reversed(n.decorator_list):
                    nx = []
                    for s3, fv in cur:
                        nx.extend(self.decorate(dec, fv, s3, fr, n))
                    cur = nx
                for s3, fv in cur:
                    self.bind_name(n.name, fv, s3, fr)
                    res.append(s3)
        return res
    s_AsyncFunctionDef = s_FunctionDef

    def in_class(self, st, fr):
        return st.get(fr.env).kind == 'cls'

    def closure_env(self, st, fr):
        o = st.get(fr.env)
        if o.kind == 'cls':
            return o.meta.get('outer')
        if o.kind == 'mod':
            return None
        return fr.env

    def decorate(self, dec, fv, st, fr, n):
        if isinstance(dec, ast.Name):
            if dec.id == 'property':
                return [(st, Prop(fv))]
            if dec.id == 'staticmethod':
                return [(st, Static(fv))]
            if dec.id == 'classmethod':
                return [(st, ClsMeth(fv))]
        if isinstance(dec, ast.Attribute) and dec.attr in ('setter', 'getter', 'deleter') and isinstance(dec.value, ast.Name):
            o = st.get(fr.env).f.get(dec.value.id)
            if isinstance(o, Prop):
                if dec.attr == 'setter':
                    return [(st, Prop(o.get, fv))]
                if dec.attr == 'getter':
                    return [(st, Prop(fv, o.set))]
                return [(st, o)]
        out = []
        for s, d in self.ev(dec, st, fr):
            if isinstance(d, Ext):
                p = d.path
                if p.endswith('cached_property'):
                    out.append((s, Prop(fv)))
                    self.event('note', fr, n, 'cached_property')
                    continue
                if p.startswith('functools') or p in ('builtins.property', 'numba.jit', 'numba.njit') or \
                        p.startswith('contextlib'):
                    out.append((s, fv))
                    continue
                out.append((s, fv))
            elif isinstance(d, (Func, Bound)):
                out.extend(self.call(d, [fv], {}, s, fr, n))
            else:
                out.append((s, fv))
        return out

    def s_ClassDef(self, n, st, fr):
        bases = [(st, [])]
        for b in n.bases:
            bases = [(s2, bs + [v]) for s, bs in bases for s2, v in self.ev(b, s, fr)]
        res = []
        for s, bs in bases:
            outer = self.closure_env(s, fr)
            ref = s.alloc(HObj('cls', None, {}, {'name': n.name, 'bases': bs, 'outer': outer,
                                                 'mod': fr.mod, 'node': n, 'file': fr.file}))
            f2 = Frame(None, fr.mod, ref.id, n.name, fr.file, n.name)
            for s2 in self.block(n.body, [s], f2):
                self.bind_name(n.name, ref, s2, fr)
                res.append(s2)
        return res

    def mro(self, st, cref):
        if not isinstance(cref, Ref):
            return []
        c = st.get(cref)
        if c.kind != 'cls':
            return []
        out = [cref]
        seqs = [self.mro(st, b) for b in c.meta['bases']]
        # simple left-to-right depth first without duplicates, keeping the last occurrence
        flat = [x for s in seqs for x in s]
        for i, x in enumerate(flat):
            if x not in flat[i + 1:]:
                out.append(x)
        return out

    def class_attr(self, st, cref, name):
        for c in self.mro(st, cref):
            f = st.get(c).f
            if name in f:
                return f[name], c
        return None, None

    def has_ext_base(self, st, cref):
        for c in self.mro(st, cref):
            for b in st.get(c).meta['bases']:
                if not isinstance(b, Ref) and not (isinstance(b, Ext) and b.path == 'builtins.object'):
                    return True
        return False

    def s_Return(self, n, st, fr):
        if n.value is None:
            fr.returns.append((st, None))
        else:
            fr.returns.extend(self.ev(n.value, st, fr))
        return []

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            self.raise_(st, '<reraise>', fr, n)
            return []
        for s, v in self.ev(n.exc, st, fr):
            if isinstance(v, ExcVal):
                self.raise_(s, v.name, fr, n, v.args)
            elif isinstance(v, Ext):
                self.raise_(s, v.path.rsplit('.', 1)[-1], fr, n)
            elif isinstance(v, Ref) and s.get(v).kind == 'cls':
                self.raise_(s, s.get(v).meta['name'], fr, n)
            elif isinstance(v, Ref) and s.get(v).kind == 'obj':
                self.raise_(s, s.get(s.get(v).cls).meta['name'], fr, n)
            else:
                self.raise_(s, 'Exception', fr, n)
        return []

    def s_Break(self, n, st, fr):
        fr.loops[-1][0].append(st)
        return []

    def s_Continue(self, n, st, fr):
        fr.loops[-1][1].append(st)
        return []

    def s_If(self, n, st, fr):
        out = []
        ts, fs = [], []
        for s, b in self.cond(n.test, st, fr):
            (ts if b else fs).append(s)
        if ts:
            out.extend(self.block(n.body, ts, fr))
        if fs:
            out.extend(self.block(n.orelse, fs, fr) if n.orelse else fs)
        return out

    def s_With(self, n, st, fr):
        sts = [st]
        for it in n.items:
            nx = []
            for s in sts:
                for s2, v in self.ev(it.context_expr, s, fr):
                    if it.optional_vars is not None:
                        nx.extend(self.assign(it.optional_vars, v, s2, fr))
                    else:
                        nx.append(s2)
            sts = nx
        return self.block(n.body, sts, fr)

    def s_Try(self, n, st, fr):
        nret = len(fr.returns)
        self.exc.append([])
        normal = self.block(n.body, [st], fr)
        caught = self.exc.pop()
        new_returns = fr.returns[nret:]
        if n.orelse:
            normal = self.block(n.orelse, normal, fr)
        outer = []
        self.exc.append(outer)
        for s, e in caught:
            s.envs = [i for i in s.envs]
            handled = False
            for h in n.handlers:
                m = self.exc_matches(e, h, s, fr)
                if m:
                    if h.name:
                        self.bind_name(h.name, e, s, fr)
                    normal = normal + self.block(h.body, [s], fr)
                    handled = True
                    break
            if not handled:
                outer.append((s, e))
        # unknown calls may raise anything a handler names: explore the handler once
        if n.handlers and not caught and self.may_raise(n.body):
            h = n.handlers[0]
            s = st.copy()
            if h.name:
                self.bind_name(h.name, ExcVal('Exception', (fr.file, n.lineno, fr.qual)), s, fr)
            normal = normal + self.block(h.body, [s], fr)
        self.exc.pop()
        if n.finalbody:
            normal = self.block(n.finalbody, normal, fr)
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            for s, v in rets:
                for s2 in self.block(n.finalbody, [s], fr):
                    fr.returns.append((s2, v))
            out2 = []
            for s, e in outer:
                for s2 in self.block(n.finalbody, [s], fr):
                    out2.append((s2, e))
            outer = out2
        self.exc[-1].extend(outer)
        return normal

    def may_raise(self, body):
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call):
                    return True
        return False

    EXC_PARENTS = {
        'ValueError': ('Exception',), 'TypeError': ('Exception',), 'KeyError': ('LookupError', 'Exception'),
        'IndexError': ('LookupError', 'Exception'), 'AttributeError': ('Exception',),
        'ZeroDivisionError': ('ArithmeticError', 'Exception'), 'UnboundLocalError': ('NameError', 'Exception'),
        'NameError': ('Exception',), 'RuntimeError': ('Exception',), 'AssertionError': ('Exception',),
        'ImportError': ('Exception',), 'SystemExit': (), 'KeyboardInterrupt': (), 'Exception': (),
    }

    def exc_matches(self, e, h, st, fr):
        if h.type is None:
            return True
        names = []
        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            names.append(t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '?'))
        for nm in names:
            if nm == 'BaseException' or nm == e.name:
                return True
            par = self.EXC_PARENTS.get(e.name, ('Exception',))
            if nm in par:
                return True
        return False

    def s_Delete(self, n, st, fr):
        sts = [st]
        for t in n.targets:
            nx = []
            for s in sts:
                if isinstance(t, ast.Name):
                    s.w(fr.env).f.pop(t.id, None)
                    nx.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, o in self.ev(t.value, s, fr):
                        for s3, k in self.ev(t.slice, s2, fr):
                            self.models.del_item(self, o, k, s3, fr, n)
                            nx.append(s3)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, fr):
                        if isinstance(o, Ref):
                            s2.w(o).f.pop(self.mangle(t.attr, fr), None)
                        nx.append(s2)
                else:
                    nx.append(s)
            sts = nx
        return sts

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(t, v, s2, fr)]
            out.extend(cur)
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [st]
        out = []
        for s, v in self.ev(n.value, st, fr):
            out.extend(self.assign(n.target, v, s, fr))
        return out

    def s_AugAssign(self, n, st, fr):
        t = n.target
        out = []
        if isinstance(t, ast.Name):
            ld = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            for s, cur in self.ev(ld, st, fr):
                for s2, v in self.ev(n.value, s, fr):
                    for s3, r in self.aug(n.op, cur, v, s2, fr, n):
                        self.bind_name(t.id, r, s3, fr)
                        out.append(s3)
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st, fr):
                for s1, cur in self.getattr(o, self.mangle(t.attr, fr), s, fr, n):
                    for s2, v in self.ev(n.value, s1, fr):
                        for s3, r in self.aug(n.op, cur, v, s2, fr, n):
                            out.extend(self.setattr(o, self.mangle(t.attr, fr), r, s3, fr, n))
        elif isinstance(t, ast.Subscript):
            for s, o in self.ev(t.value, st, fr):
                for s1, k in self.ev(t.slice, s, fr):
                    for s2, cur in self.models.get_item(self, o, k, s1, fr, n):
                        for s3, v in self.ev(n.value, s2, fr):
                            for s4, r in self.aug(n.op, cur, v, s3, fr, n):
                                out.extend(self.models.set_item(self, o, k, r, s4, fr, n))
        else:
            raise AnalysisError('augmented target')
        return out

    def aug(self, op, cur, v, st, fr, n):
        if isinstance(cur, Ref) and st.get(cur).kind == 'list' and isinstance(op, ast.Add):
            items, st2 = self.models.iterate(self, v, st, fr, n)
            if items is not None:
                o = st.w(cur)
                for x in items:
                    o.f[len(o.f)] = x
                return [(st, cur)]
        if isinstance(cur, Ser):
            self.models.inplace(self, cur, st, fr, n)
        return self.binop(op, cur, v, st, fr, n)

    # -- loops
    def s_For(self, n, st, fr):
        out = []
        for s, it in self.ev(n.iter, st, fr):
            items, s2 = self.models.iterate(self, it, s, fr, n)
            if items is not None and len(items) <= self.unroll:
                out.extend(self.unrolled(n, items, s2, fr))
            elif items is None and self.symloop is not None and isinstance(it, Range):
                r = self.symloop(self, n, it, s2, fr)
                if r is None:
                    r = self.fix_for(n, it, items, s2, fr)
                out.extend(r)
            else:
                out.extend(self.fix_for(n, it, items, s2, fr))
        return out

    def unrolled(self, n, items, st, fr):
        states = [st]
        breaks = []
        for x in items:
            if not states:
                break
            fr.loops.append((breaks, []))
            nx = []
            for s in states:
                nx.extend(self.assign(n.target, x, s, fr))
            states = self.block(n.body, nx, fr) + fr.loops[-1][1]
            fr.loops.pop()
            if len(states) > self.cap and self.merger:
                states = self.do_merge(states, fr)
        if n.orelse:
            states = self.block(n.orelse, states, fr)
        return states + breaks

    def fix_for(self, n, it, items, st, fr):
        """unknown or large trip count"""
        def enter(s):
            v = self.models.any_item(self, it, s, fr, n)
            return self.assign(n.target, v, s, fr)
        zero_ok = items is None or len(items) == 0
        if isinstance(it, Range):
            c = self.models.range_nonempty(self, it, st)
            if c:
                zero_ok = False
        return self.fixloop(n, st, fr, enter, None, zero_ok)

    def s_While(self, n, st, fr):
        # unroll while the condition stays decided and the loop is short
        states = [st]
        breaks = []
        outs = []
        nret, nexc = len(fr.returns), len(self.exc[-1])
        long = self.trips(n, st, fr) > self.unroll
        for k in range(self.unroll + 1):
            nx = []
            undecided = []
            for s in states:
                r = self.cond(n.test, s.copy(), fr) if not long else ()
                if len(r) == 1:
                    if r[0][1]:
                        nx.append(r[0][0])
                    else:
                        outs.append(r[0][0])
                else:
                    undecided.append(s)
            if nx and k == self.unroll:
                # too long: summarise the loop as a whole instead
                del fr.returns[nret:], self.exc[-1][nexc:]
                breaks = []
                outs = self.fixloop(n, st, fr, None, n.test, True)
                break
            for s in undecided:
                outs.extend(self.fixloop(n, s, fr, None, n.test, True))
            if not nx:
                break
            fr.loops.append((breaks, []))
            states = self.block(n.body, nx, fr) + fr.loops[-1][1]
            fr.loops.pop()
            if len(states) > self.cap and self.merger:
                states = self.do_merge(states, fr)
        if n.orelse:
            outs = self.block(n.orelse, outs, fr)
        return outs + breaks

    def trips(self, n, st, fr):
        """how often a counting loop may run at most, as far as its test tells (0 if it does not)"""
        tests = [n.test] + [x.test for x in n.body if isinstance(x, ast.If) and any(isinstance(y, (ast.Break, ast.Return)) for y in x.body)]
        tests = [y for x in tests for y in (x.values if isinstance(x, ast.BoolOp) else [x])]
        for t in tests:
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                    and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq))):
                continue
            if not isinstance(t.comparators[0], (ast.Name, ast.Constant, ast.Attribute)):
                continue
            step = [x for b in n.body for x in ast.walk(b) if isinstance(x, (ast.Assign, ast.AugAssign))
                    and any(isinstance(y, ast.Name) and y.id == t.left.id
                            for y in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
            if len(step) != 1:
                continue
            a = self.ev(t.left, st.copy(), fr)
            b = self.ev(t.comparators[0], st.copy(), fr)
            if len(a) == 1 and len(b) == 1 and isinstance(a[0][1], Poly) and isinstance(b[0][1], Poly):
                d = b[0][1] - a[0][1]
                if d.is_const():
                    return abs(d.const())
        return 0

    def fixloop(self, n, st, fr, enter, test, zero_ok):
        """havoc what one iteration may change, to a fixpoint, then one symbolic iteration"""
        self.stats['loops'] += 1
        from .merge import slots
        havoc = {}
        head = st

        def one(s):
            fr.loops.append(([], []))
            self.exc.append([])
            starts = [s]
            ex = []
            if test is not None:
                starts = []
                for s2, b in self.cond(test, s, fr):
                    (starts if b else ex).append(s2)
            if enter is not None:
                starts = [s3 for s2 in starts for s3 in enter(s2)]
            ends = self.block(n.body, starts, fr) + fr.loops[-1][1]
            br = fr.loops[-1][0]
            fr.loops.pop()
            exc = self.exc.pop()
            return ends, br, ex, exc

        nret = len(fr.returns)
        for rnd in range(8):
            h = head.copy()
            atoms = {}
            for (oid, key), v in havoc.items():
                o = h.w(oid)
                o.f[key] = v
                atoms[(oid, key)] = v
            pre = slots(self, h)
            fr_ret = len(fr.returns)
            ends, br, ex, exc = one(h.copy())
            left = []
            if test is not None:
                # only a state that passes the test starts another iteration
                back = []
                for e in ends:
                    for s2, b in self.cond(test, e.copy(), fr):
                        (back if b else left).append(s2)
            else:
                back = ends
            changed = {}
            for e in back:
                post = slots(self, e)
                for k, v in post.items():
                    if k not in pre:
                        if k[0] in h.heap:
                            changed.setdefault(k, []).append(v)
                        continue
                    if pre[k] is not v and not (pre[k] == v):
                        changed.setdefault(k, []).append(v)
            new = False
            for k, vs in changed.items():
                if k in havoc:
                    if havoc[k] is not UNBOUND:
                        continue
                    continue
                o = h.heap.get(k[0])
                if o is None:
                    continue
                if k in pre:
                    havoc[k] = self.havoc_value(pre[k], vs, k)
                else:
                    havoc[k] = UNBOUND if o.kind == 'env' else self.havoc_value(None, vs, k)
                new = True
            if not new:
                break
            del fr.returns[fr_ret:]
        # final pass results
        self.loop_info = getattr(self, 'loop_info', [])
        info = {'node': n, 'head': atoms, 'ends': [s.copy() for s in ends], 'breaks': [s.copy() for s in br], 'file': fr.file}
        self.loop_info.append(info)
        self.exc[-1].extend(exc)
        outs = list(br)
        done = []
        if test is not None:
            # left by the test before the first iteration or after any one
            for s2, b in self.cond(test, st.copy(), fr):
                if not b:
                    done.append(s2)
            done.extend(left)
        else:
            done.extend(ends)
            if zero_ok:
                done.append(st.copy())
        if n.orelse:
            done = self.block(n.orelse, done, fr)
        return outs + done

    def havoc_value(self, pre, vs, key):
        allv = ([pre] if pre is not None else []) + vs
        if all(isinstance(v, Poly) for v in allv):
            lab = frozenset()
            for v in allv:
                lab = lab | v.labels()
            return P.fresh('loop.%s' % (key[1],), lab)
        if all(isinstance(v, Ser) for v in allv):
            return Ser(P.fresh('loop.%s' % (key[1],)))
        lab = frozenset()
        for v in allv:
            if isinstance(v, Poly):
                lab = lab | v.labels()
        p = P.fresh('loopany.%s' % (key[1],), lab)
        self.models.MAYBE_NONE.add(p)
        return p

    # -- assignment
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls:
            return '_' + fr.cls.lstrip('_') + name
        return name

    def bind_name(self, name, v, st, fr):
        name = self.mangle(name, fr)
        env = fr.env
        o = st.get(env)
        if o.kind == 'env':
            loc = o.meta['locals']
            if name not in loc:
                # global or nonlocal declaration
                e = o.meta['parent']
                while e is not None:
                    oo = st.get(e)
                    if oo.kind == 'env' and name in oo.f and name not in o.meta['globals']:
                        st.w(e).f[name] = v
                        return
                    e = oo.meta['parent'] if oo.kind == 'env' else None
                m = st.w(fr.mod)
                m.f[name] = v
                if self.on_write:
                    self.on_write(st, Ref(fr.mod), name, v, fr, None)
                return
        w = st.w(env)
        w.f[name] = v

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, fr)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fr):
                out.extend(self.setattr(o, self.mangle(t.attr, fr), v, s, fr, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st, fr):
                for s2, k in self.ev(t.slice, s, fr):
                    out.extend(self.models.set_item(self, o, k, v, s2, fr, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            items, st = self.models.iterate(self, v, st, fr, t)
            n = len(t.elts)
            if items is None:
                items = [self.models.part(self, v, i) for i in range(n)]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = n - 1 - i
                mid = items[i:len(items) - k]
                items = items[:i] + [st.alloc(HObj('list', None, dict(enumerate(mid))))] + items[len(items) - k:]
            if len(items) != n:
                self.event('arity', fr, t, 'cannot unpack %d values into %d' % (len(items), n))
                self.raise_(st, 'ValueError', fr, t)
                return []
            cur = [st]
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    e = e.value
                cur = [s2 for s in cur for s2 in self.assign(e, x, s, fr)]
            return cur
        raise AnalysisError('unsupported assignment target %s' % type(t).__name__)

    # -- attributes
    def getattr(self, o, name, st, fr, n):
        """list of (state, value)"""
        if isinstance(o, Ref):
            h = st.get(o)
            if h.kind == 'obj':
                cv, cref = self.class_attr(st, h.cls, name)
                if isinstance(cv, Prop):
                    r = self.call(Bound(cv.get, o), [], {}, st, fr, n)
                    if self.on_prop is not None:
                        for s2, v2 in r:
                            self.on_prop(self, s2, o, name, v2, fr, n)
                    return r
                if name in h.f:
                    v = h.f[name]
                    if v is UNBOUND:
                        return [(st, P.fresh('unb.' + name))]
                    return [(st, v)]
                if cv is not None or cref is not None:
                    return [(st, self.bind_method(cv, o, h.cls))]
                if name == '__class__':
                    return [(st, h.cls)]
                if name == '__dict__':
                    return [(st, self.attr_dict(o, st))]
                if h.meta and 'open' in h.meta:
                    v = h.meta['open'](name)
                    st.w(o).f[name] = v
                    return [(st, v)]
                ga, gc = self.class_attr(st, h.cls, '__getattr__')
                if isinstance(ga, Func):
                    return self.call(Bound(ga, o), [name], {}, st, fr, n)
                if self.has_ext_base(st, h.cls):
                    return [(st, P.fresh('ext.' + name))]
                self.event('noattr', fr, n, "%s object has no attribute '%s'" % (st.get(h.cls).meta['name'], name))
                self.raise_(st, 'AttributeError', fr, n, (name,))
                return []
            if h.kind == 'cls':
                if name == '__name__':
                    return [(st, h.meta['name'])]
                cv, cref = self.class_attr(st, o, name)
                if cref is not None:
                    if isinstance(cv, Static):
                        return [(st, cv.func)]
                    if isinstance(cv, ClsMeth):
                        return [(st, Bound(cv.func, o))]
                    return [(st, cv)]
                if self.has_ext_base(st, o):
                    return [(st, P.fresh('ext.' + name))]
                self.event('noattr', fr, n, "class %s has no attribute '%s'" % (h.meta['name'], name))
                self.raise_(st, 'AttributeError', fr, n, (name,))
                return []
            if h.kind == 'mod':
                if name in h.f:
                    return [(st, h.f[name])]
                sub = self.load(h.meta['name'] + '.' + name, st)
                if sub is not None:
                    return [(st, sub)]
                self.event('noattr', fr, n, "module %s has no attribute '%s'" % (h.meta['name'], name))
                self.raise_(st, 'AttributeError', fr, n, (name,))
                return []
            return self.models.get_attr(self, o, name, st, fr, n)
        if isinstance(o, Super):
            for c in o.mro:
                f = st.get(c).f
                if name in f:
                    v = f[name]
                    if isinstance(v, Prop):
                        return self.call(Bound(v.get, o.self), [], {}, st, fr, n)
                    return [(st, self.bind_method(v, o.self, c))]
            if name == '__init__':
                return [(st, Ext('builtins.object.__init__'))]
            self.event('noattr', fr, n, "super object has no attribute '%s'" % name)
            self.raise_(st, 'AttributeError', fr, n, (name,))
            return []
        return self.models.get_attr(self, o, name, st, fr, n)

    def bind_method(self, cv, o, cls):
        if isinstance(cv, Func):
            return Bound(cv, o)
        if isinstance(cv, Static):
            return cv.func
        if isinstance(cv, ClsMeth):
            return Bound(cv.func, cls)
        return cv

    def setattr(self, o, name, v, st, fr, n):
        if isinstance(o, Ref):
            h = st.get(o)
            if h.kind == 'obj':
                cv, cref = self.class_attr(st, h.cls, name)
                if isinstance(cv, Prop):
                    if cv.set is None:
                        self.event('noattr', fr, n, "can't set attribute '%s' of %s" % (name, st.get(h.cls).meta['name']))
                        self.raise_(st, 'AttributeError', fr, n, (name,))
                        return []
                    return [s for s, _ in self.call(Bound(cv.set, o), [v], {}, st, fr, n)]
                self.raw_set(o, name, v, st, fr, n)
                return [st]
            if h.kind in ('cls', 'mod'):
                w = st.w(o)
                w.f[name] = v
                w.sites[name] = (fr.file, getattr(n, 'lineno', 0), fr.qual)
                if self.on_write:
                    self.on_write(st, o, name, v, fr, n)
                return [st]
        return self.models.set_attr(self, o, name, v, st, fr, n)

    def raw_set(self, o, name, v, st, fr, n):
        if self.on_set is not None:
            v = self.on_set(self, st, o, name, v)
        w = st.w(o)
        w.f[name] = v
        w.sites[name] = (fr.file, getattr(n, 'lineno', 0), fr.qual)
        if self.on_write:
            self.on_write(st, o, name, v, fr, n)

    def attr_dict(self, o, st):
        """o.__dict__: stores into it are stores into the object"""
        return st.alloc(HObj('dict', None, {k: v for k, v in st.get(o).f.items() if v is not UNBOUND}, {'alias': o}))

    # ----------------------------------------------------------- expressions
    def ev(self, n, st, fr):
        return getattr(self, 'e_' + type(n).__name__, self.e_unsupported)(n, st, fr)

    def e_unsupported(self, n, st, fr):
        self.event('unsupported', fr, n, type(n).__name__)
        return [(st, P.fresh('unsup'))]

    def evs(self, nodes, st, fr):
        outs = [(st, [])]
        for x in nodes:
            nx = []
            for s, vs in outs:
                if isinstance(x, ast.Starred):
                    for s2, v in self.ev(x.value, s, fr):
                        items, s3 = self.models.iterate(self, v, s2, fr, x)
                        if items is None:
                            items = [P.fresh('star')]
                        nx.append((s3, vs + items))
                else:
                    for s2, v in self.ev(x, s, fr):
                        nx.append((s2, vs + [v]))
            outs = nx
        return outs

    def e_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return [(st, v)]
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                return [(st, P.sym('inf') if v > 0 else P.fresh('nan'))]
            return [(st, P.const(v))]
        return [(st, P.fresh('const'))]

    def e_Name(self, n, st, fr):
        name = self.mangle(n.id, fr)
        e = fr.env
        while e is not None:
            o = st.get(e)
            if name in o.f:
                v = o.f[name]
                if v is UNBOUND:
                    self.event('maybe-unbound', fr, n, "'%s' may be read before it is set" % name)
                    return [(st, P.fresh('unb.' + name))]
                return [(st, v)]
            if o.kind == 'env':
                if name in o.meta['locals'] and not o.meta.get('comp'):
                    self.event('unbound', fr, n, "'%s' is read before it is set" % name)
                    self.raise_(st, 'UnboundLocalError', fr, n, (name,))
                    return []
                e = o.meta['parent']
            elif o.kind == 'cls':
                e = o.meta['outer']
            else:
                e = None
        g = st.get(fr.mod).f
        if name in g:
            return [(st, g[name])]
        if name in self.models.BUILTINS:
            return [(st, Ext('builtins.' + name))]
        self.event('noname', fr, n, "name '%s' is not defined" % name)
        self.raise_(st, 'NameError', fr, n, (name,))
        return []

    def e_Attribute(self, n, st, fr):
        out = []
        for s, o in self.ev(n.value, st, fr):
            out.extend(self.getattr(o, self.mangle(n.attr, fr), s, fr, n))
        return out

    def e_Subscript(self, n, st, fr):
        out = []
        for s, o in self.ev(n.value, st, fr):
            for s2, k in self.ev(n.slice, s, fr):
                out.extend(self.models.get_item(self, o, k, s2, fr, n))
        return out

    def e_Index(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Slice(self, n, st, fr):
        outs = [(st, [])]
        for x in (n.lower, n.upper, n.step):
            nx = []
            for s, vs in outs:
                if x is None:
                    nx.append((s, vs + [None]))
                else:
                    for s2, v in self.ev(x, s, fr):
                        nx.append((s2, vs + [v]))
            outs = nx
        return [(s, Slice(*vs)) for s, vs in outs]

    def e_ExtSlice(self, n, st, fr):
        return [(s, tuple(vs)) for s, vs in self.evs(n.dims, st, fr)]

    def e_Tuple(self, n, st, fr):
        return [(s, tuple(vs)) for s, vs in self.evs(n.elts, st, fr)]

    def e_List(self, n, st, fr):
        return [(s, s.alloc(HObj('list', None, dict(enumerate(vs))))) for s, vs in self.evs(n.elts, st, fr)]

    def e_Set(self, n, st, fr):
        return [(s, s.alloc(HObj('set', None, {v: v for v in vs}))) for s, vs in self.evs(n.elts, st, fr)]

    def e_Dict(self, n, st, fr):
        outs = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nx = []
            for s, ps in outs:
                if k is None:
                    for s2, d in self.ev(v, s, fr):
                        pairs = self.models.dict_items(self, d, s2)
                        nx.append((s2, ps + (pairs or [])))
                else:
                    for s2, kv in self.ev(k, s, fr):
                        for s3, vv in self.ev(v, s2, fr):
                            nx.append((s3, ps + [(kv, vv)]))
            outs = nx
        return [(s, s.alloc(HObj('dict', None, dict(ps)))) for s, ps in outs]

    def e_JoinedStr(self, n, st, fr):
        outs = [(st, [])]
        for x in n.values:
            nx = []
            for s, vs in outs:
                if isinstance(x, ast.Constant):
                    nx.append((s, vs + [x.value]))
                else:
                    fs = [(s, '')]
                    if x.format_spec is not None:
                        fs = self.ev(x.format_spec, s, fr)
                    for s1, spec in fs:
                        for s2, v in self.ev(x.value, s1, fr):
                            t = self.models.to_str(self, v, s2)
                            if t is None or spec not in ('', None) or x.conversion not in (-1, 115):
                                if t is not None and isinstance(spec, str) and isinstance(v, str):
                                    t = format(t, spec)
                                else:
                                    t = self.models.numfmt(spec, '', [v]) if spec else None
                                    if t is None:
                                        t = self.models.opaque('fstr', [v, spec])
                            nx.append((s2, vs + [t]))
            outs = nx
        res = []
        for s, vs in outs:
            if all(isinstance(v, str) for v in vs):
                res.append((s, ''.join(vs)))
            elif len(vs) == 1 and isinstance(vs[0], P.Poly):
                res.append((s, vs[0]))
            else:
                res.append((s, self.models.opaque('fmt', vs)))
        return res

    def e_FormattedValue(self, n, st, fr):
        return [(s, self.models.opaque('fmt', [v])) for s, v in self.ev(n.value, st, fr)]

    def e_NamedExpr(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            for s2 in self.assign(n.target, v, s, fr):
                out.append((s2, v))
        return out

    def e_Lambda(self, n, st, fr):
        outs = self.evs(n.args.defaults, st, fr)
        return [(s, Func(n, fr.mod, self.closure_env(s, fr), tuple(d), {}, fr.cls, '<lambda>')) for s, d in outs]

    def e_IfExp(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            out.extend(self.ev(n.body if b else n.orelse, s, fr))
        return out

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, x in enumerate(n.values):
            nx = []
            for s in cur:
                for s2, v in self.ev(x, s, fr):
                    if i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2, fr, x):
                        if b == isand:
                            nx.append(s3)
                        else:
                            out.append((s3, v if not isinstance(v, Poly) else (v if v.is_const() else v)))
            cur = nx
        return out

    def cond(self, n, st, fr):
        """list of (state, bool)"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            out = []
            cur = [st]
            for i, x in enumerate(n.values):
                nx = []
                for s in cur:
                    for s2, b in self.cond(x, s, fr):
                        if b == isand:
                            nx.append(s2)
                        else:
                            out.append((s2, b))
                cur = nx
            return out + [(s, isand) for s in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, not b) for s, b in self.cond(n.operand, st, fr)]
        out = []
        for s, v in self.ev(n, st, fr):
            out.extend(self.truth(v, s, fr, n))
        return out

    def truth(self, v, st, fr, n):
        if v is None:
            return [(st, False)]
        if isinstance(v, bool):
            return [(st, v)]
        if isinstance(v, (str, bytes, tuple)):
            return [(st, len(v) > 0)]
        if isinstance(v, Poly):
            if v.is_const():
                return [(st, v.const() != 0)]
            k = ('truth', v)
            if k in st.truth:
                return [(st, st.truth[k])]
            if v in self.models.BOOLISH or v in self.models.MAYBE_NONE:
                return self.split_opaque(k, st)
            return self.split(v, '!=', st)
        if isinstance(v, Ser):
            return self.models.ser_truth(self, v, st, fr, n)
        if isinstance(v, Ref):
            h = st.get(v)
            if h.kind in ('list', 'dict', 'set'):
                if h.meta and h.meta.get('unknown'):
                    return self.split_opaque(('truth', v.id), st)
                return [(st, len(h.f) > 0)]
            if h.kind == 'obj':
                m, c = self.class_attr(st, h.cls, '__bool__')
                if m is None:
                    m, c = self.class_attr(st, h.cls, '__len__')
                if isinstance(m, Func):
                    out = []
                    for s, r in self.call(Bound(m, v), [], {}, st, fr, n):
                        out.extend(self.truth(r, s, fr, n))
                    return out
            return [(st, True)]
        return [(st, True)]

    def split_opaque(self, key, st):
        if key in st.truth:
            return [(st, st.truth[key])]
        self.stats['splits'] += 1
        a, b = st, st.copy()
        a.own = set()
        a.truth = dict(a.truth)
        a.truth[key] = True
        b.truth[key] = False
        return [(a, True), (b, False)]

    def split(self, p, op, st):
        r = st.facts.compare(p, op)
        if r is not None:
            return [(st, r)]
        self.stats['splits'] += 1
        b = st.copy()
        out = []
        if st.assume(p, op):
            out.append((st, True))
        if b.assume(p, NEG[op]):
            out.append((b, False))
        return out

    OPS = {ast.Gt: '>', ast.GtE: '>=', ast.Lt: '<', ast.LtE: '<=', ast.Eq: '==', ast.NotEq: '!='}

    def e_Compare(self, n, st, fr):
        cur = [(st, v) for st, v in self.ev(n.left, st, fr)]
        done = []
        for i, (op, x) in enumerate(zip(n.ops, n.comparators)):
            nx = []
            for s, lv in cur:
                for s2, rv in self.ev(x, s, fr):
                    for s3, b in self.compare(op, lv, rv, s2, fr, n):
                        if i == len(n.ops) - 1:
                            done.append((s3, b))
                        elif isinstance(b, Ser) or b:
                            nx.append((s3, rv))
                        else:
                            done.append((s3, False))
            cur = nx
        return done

    def compare(self, op, a, b, st, fr, n):
        """list of (state, bool or Ser)"""
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.models.is_(self, a, b, st)
            neg = isinstance(op, ast.IsNot)
            return [(s, x != neg) for s, x in r]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.models.contains(self, a, b, st, fr, n)
            neg = isinstance(op, ast.NotIn)
            return [(s, x != neg) for s, x in r]
        o = self.OPS[type(op)]
        if isinstance(a, Ser) or isinstance(b, Ser):
            x = a.val if isinstance(a, Ser) else a
            y = b.val if isinstance(b, Ser) else b
            src = a.src if isinstance(a, Ser) else b.src
            return [(s, Ser(r, src)) for s, r in self.compare(op, x, y, st, fr, n)]
        if isinstance(a, bool):
            if isinstance(b, Poly):
                a = P.const(int(a))
        if isinstance(b, bool):
            if isinstance(a, Poly):
                if a in self.models.BOOLISH:
                    r = self.truth(a, st, fr, n)
                    return [(s, (x == b) == (o == '==')) for s, x in r]
                b = P.const(int(b))
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            if d.is_const():
                return [(st, self.models.cmp_const(d.const(), o))]
            return self.split(d, o, st)
        if o in ('==', '!='):
            r = self.models.eq(self, a, b, st, fr, n)
            return [(s, x == (o == '==')) for s, x in r]
        if isinstance(a, str) and isinstance(b, str):
            return [(st, {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o])]
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            pass
        if (a is None or b is None) and o in ('<', '<=', '>', '>='):
            self.event('type', fr, n, 'ordering comparison with None')
            self.raise_(st, 'TypeError', fr, n)
            return []
        return self.split_opaque(('cmp', o, self.models.vkey(a), self.models.vkey(b)), st)

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return [(s, not b) for s, b in self.cond(n.operand, st, fr)]
        out = []
        for s, v in self.ev(n.operand, st, fr):
            if isinstance(v, bool):
                v = P.const(int(v)) if not isinstance(n.op, ast.Invert) else v
            if isinstance(v, Poly):
                if isinstance(n.op, ast.USub):
                    v = -v
                elif isinstance(n.op, ast.Invert):
                    v = self.models.opaque('~', [v])
            elif isinstance(v, Ser):
                x = v.val
                if isinstance(n.op, ast.USub):
                    v = Ser(-x, v.src)
                elif isinstance(n.op, ast.Invert):
                    v = Ser(not x if isinstance(x, bool) else P.fresh('inv'), v.src)
            else:
                v = self.models.opaque('unary', [v])
            out.append((s, v))
        return out

    def e_BinOp(self, n, st, fr):
        out = []
        for s, a in self.ev(n.left, st, fr):
            for s2, b in self.ev(n.right, s, fr):
                out.extend(self.binop(n.op, a, b, s2, fr, n))
        return out

    def binop(self, op, a, b, st, fr, n):
        return self.models.binop(self, op, a, b, st, fr, n)

    # -- comprehensions
    def comp(self, n, st, fr, leaf, acc0):
        """evaluate generators; leaf(state, frame) -> list of (state, item); accumulates python lists"""
        env = st.alloc(HObj('env', None, {}, {'parent': fr.env, 'locals': frozenset(), 'globals': frozenset(), 'comp': True}))
        f2 = Frame(fr.func, fr.mod, env.id, fr.cls, fr.file, fr.qual)
        f2.returns = fr.returns
        tn = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    tn.add(x.id)
        st.w(env).meta = {'parent': fr.env, 'locals': frozenset(tn), 'globals': frozenset(), 'comp': True}
        st.envs.append(env.id)
        unknown = [False]

        def rec(i, states):
            # states: list of (state, acc)
            if i == len(n.generators):
                out = []
                for s, acc in states:
                    for s2, v in leaf(s, f2):
                        out.append((s2, acc + [v]))
                return out
            g = n.generators[i]
            res = []
            for s, acc in states:
                for s2, it in self.ev(g.iter, s, f2):
                    items, s3 = self.models.iterate(self, it, s2, fr, n)
                    if items is None:
                        unknown[0] = True
                        items = [self.models.any_item(self, it, s3, fr, n)]
                    cur = [(s3, acc)]
                    for x in items:
                        nx = []
                        for s4, ac in cur:
                            for s5 in self.assign(g.target, x, s4, f2):
                                ok = [s5]
                                for c in g.ifs:
                                    ok2 = []
                                    for s6 in ok:
                                        for s7, b in self.cond(c, s6, f2):
                                            if b:
                                                ok2.append(s7)
                                            else:
                                                nx.append((s7, ac))
                                    ok = ok2
                                nx.extend(rec(i + 1, [(s6, ac) for s6 in ok]))
                        cur = nx
                    res.extend(cur)
            return res
        outs = rec(0, [(st, acc0)])
        for s, acc in outs:
            if s.envs and s.envs[-1] == env.id:
                s.envs.pop()
            if not has_nested(n):
                s.heap.pop(env.id, None)
        return outs, unknown[0]

    def e_ListComp(self, n, st, fr):
        outs, unk = self.comp(n, st, fr, lambda s, f: self.ev(n.elt, s, f), [])
        return [(s, s.alloc(HObj('list', None, dict(enumerate(acc)), {'unknown': True} if unk else None))) for s, acc in outs]
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fr):
        outs, unk = self.comp(n, st, fr, lambda s, f: self.ev(n.elt, s, f), [])
        return [(s, s.alloc(HObj('set', None, {v: v for v in acc}))) for s, acc in outs]

    def e_DictComp(self, n, st, fr):
        def leaf(s, f):
            return [(s3, (k, v)) for s2, k in self.ev(n.key, s, f) for s3, v in self.ev(n.value, s2, f)]
        outs, unk = self.comp(n, st, fr, leaf, [])
        return [(s, s.alloc(HObj('dict', None, dict(acc), {'unknown': True} if unk else None))) for s, acc in outs]

    def e_Yield(self, n, st, fr):
        out = []
        for s, v in (self.ev(n.value, st, fr) if n.value is not None else [(st, None)]):
            r = s.get(fr.env).f.get('.yields')
            o = s.w(r)
            o.f[len(o.f)] = v
            out.append((s, None))
        return out

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    # -- calls
    def e_Call(self, n, st, fr):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.get(fr.mod).f:
            return self.make_super(n, st, fr)
        out = []
        for s, f in self.ev(n.func, st, fr):
            for s2, args in self.evs(n.args, s, fr):
                kws = [(s2, [])]
                for k in n.keywords:
                    nx = []
                    for s3, ks in kws:
                        for s4, v in self.ev(k.value, s3, fr):
                            if k.arg is None:
                                pairs = self.models.dict_items(self, v, s4)
                                if pairs is None:
                                    nx.append((s4, ks + [('**', v)]))
                                else:
                                    nx.append((s4, ks + list(pairs)))
                            else:
                                nx.append((s4, ks + [(k.arg, v)]))
                    kws = nx
                for s3, ks in kws:
                    names = [k for k, v in ks]
                    if len(set(names)) != len(names):
                        self.event('arity', fr, n, 'keyword repeated')
                        self.raise_(s3, 'TypeError', fr, n)
                        continue
                    out.extend(self.call(f, args, dict(ks), s3, fr, n))
        return out

    def make_super(self, n, st, fr):
        args = n.args
        if len(args) == 2:
            out = []
            for s, c in self.ev(args[0], st, fr):
                for s2, o in self.ev(args[1], s, fr):
                    out.append((s2, self._super(s2, c, o)))
            return out
        # find the class by name from the function's class
        f = fr.func
        a0 = (getattr(f.node.args, 'posonlyargs', []) + f.node.args.args)[0].arg
        o = st.get(fr.env).f[a0]
        cls = st.get(o).cls if st.get(o).kind == 'obj' else o
        for c in self.mro(st, cls):
            if any(v is f or (isinstance(v, (Static, ClsMeth)) and v.func is f) or
                   (isinstance(v, Prop) and (v.get is f or v.set is f)) or v == f for v in st.get(c).f.values()):
                return [(st, self._super(st, c, o))]
        raise AnalysisError('super() in %s' % fr.qual)

    def _super(self, st, c, o):
        h = st.get(o)
        m = self.mro(st, h.cls if h.kind == 'obj' else o)
        i = m.index(c) if c in m else -1
        return Super(m[i + 1:], o)

    def call(self, f, args, kwargs, st, fr, n):
        """list of (state, value)"""
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self] + list(args), kwargs, st, fr, n)
            return self.call(f.func, [f.self] + list(args), kwargs, st, fr, n)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs, st, fr, n)
        if isinstance(f, Static):
            return self.call(f.func, args, kwargs, st, fr, n)
        if isinstance(f, Ref):
            h = st.get(f)
            if h.kind == 'cls':
                return self.instantiate(f, args, kwargs, st, fr, n)
            if h.kind == 'obj':
                cv, c = self.class_attr(st, h.cls, '__call__')
                if isinstance(cv, Func):
                    return self.call_func(cv, [f] + list(args), kwargs, st, fr, n)
            self.event('type', fr, n, 'object is not callable')
            self.raise_(st, 'TypeError', fr, n)
            return []
        return self.models.call(self, f, args, kwargs, st, fr, n)

    def instantiate(self, cref, args, kwargs, st, fr, n):
        h = st.get(cref)
        nm = h.meta['name']
        # exception classes
        for b in self.mro(st, cref):
            for x in st.get(b).meta['bases']:
                if isinstance(x, Ext) and x.path.rsplit('.', 1)[-1] in self.EXC_PARENTS:
                    return [(st, ExcVal(nm, (fr.file, n.lineno, fr.qual), tuple(args)))]
        ov = self.override.get('new ' + nm)
        if ov is not None:
            r = ov(self, st, cref, args, kwargs, fr, n)
            if r is not NotImplemented:
                return r
        ref = st.alloc(HObj('obj', cref, {}))
        init, c = self.class_attr(st, cref, '__init__')
        if isinstance(init, Func):
            keep = '.new%d' % ref.id
            return [(s, ref) for s, _ in self.call_func(init, [ref] + list(args), kwargs, st, fr, n)]
        if (args or kwargs) and not self.has_ext_base(st, cref):
            self.event('arity', fr, n, '%s() takes no arguments' % nm)
            self.raise_(st, 'TypeError', fr, n)
            return []
        return [(st, ref)]

    def bind_args(self, f, args, kwargs, st, fr, n):
        """argument dictionary or None (TypeError)"""
        a = f.node.args
        pos = list(getattr(a, 'posonlyargs', [])) + list(a.args)
        names = [x.arg for x in pos]
        d = {}
        bad = None
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                d[names[i]] = v
            else:
                extra.append(v)
        if extra and a.vararg is None:
            bad = '%s() takes %d positional arguments but %d were given' % (f.qual, len(names), len(args))
        kwo = [x.arg for x in a.kwonlyargs]
        rest = {}
        unknown = False
        for k, v in kwargs.items():
            if k == '**':
                unknown = True
                continue
            if k in names or k in kwo:
                if k in d:
                    bad = "%s() got multiple values for argument '%s'" % (f.qual, k)
                d[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                bad = "%s() got an unexpected keyword argument '%s'" % (f.qual, k)
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in d:
                j = i - (len(names) - nd)
                if j >= 0:
                    d[nm] = f.defaults[j]
                elif unknown:
                    d[nm] = P.fresh('kw.' + nm)
                else:
                    bad = bad or "%s() missing required argument '%s'" % (f.qual, nm)
        for nm in kwo:
            if nm not in d:
                if nm in f.kwdefaults:
                    d[nm] = f.kwdefaults[nm]
                elif unknown:
                    d[nm] = P.fresh('kw.' + nm)
                else:
                    bad = bad or "%s() missing required argument '%s'" % (f.qual, nm)
        if bad:
            self.event('arity', fr, n, bad)
            self.raise_(st, 'TypeError', fr, n)
            return None
        if a.vararg is not None:
            d[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            d[a.kwarg.arg] = st.alloc(HObj('dict', None, rest))
        return d

    def call_func(self, f, args, kwargs, st, fr, n):
        d = self.bind_args(f, args, kwargs, st, fr, n)
        if d is None:
            return []
        self.stats['calls'] += 1
        keys = (f.qual, f.name)
        for k in keys:
            ob = self.observers.get(k)
            if ob is not None:
                ob(self, st, f, d)
                break
        for k in keys:
            ov = self.override.get(k)
            if ov is not None:
                r = ov(self, st, f, d, fr, n)
                if r is not NotImplemented:
                    return r
                break
        if self.depth > MAXDEPTH:
            raise AnalysisError('recursion too deep in %s' % f.qual)
        nw = st.nw
        st_mod = st.get(f.mod)
        self.stats['functions'].add((st_mod.meta['file'], f.qual))
        loc, gen = local_names(f.node)
        gl = set()
        if not isinstance(f.node, ast.Lambda):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Global):
                    gl.update(x.names)
        env = st.alloc(HObj('env', None, d, {'parent': f.env, 'locals': loc, 'globals': frozenset(gl)}))
        st.envs.append(env.id)
        f2 = Frame(f, f.mod, env.id, f.cls, st_mod.meta['file'], f.qual)
        self.depth += 1
        self.callstack.append(f2)
        ylist = None
        if gen:
            ylist = st.alloc(HObj('list', None, {}))
            st.w(env).f['.yields'] = ylist
        try:
            if isinstance(f.node, ast.Lambda):
                rets = self.ev(f.node.body, st, f2)
            else:
                fall = self.block(f.node.body, [st], f2)
                rets = f2.returns + [(s, None) for s in fall]
        finally:
            self.depth -= 1
            self.callstack.pop()
        if gen:
            rets = [(s, ylist) for s, v in rets]
        nested = has_nested(f.node)
        out = []
        for s, v in rets:
            if env.id in s.envs:
                s.envs = s.envs[:s.envs.index(env.id)]
            if not nested:
                s.heap.pop(env.id, None)
            out.append((s, v))
        if self.bulky is not None:
            from .merge import compress
            out = [x for x in (compress(self, s, v) if s.nw != nw else (s, v) for s, v in out) if x is not None]
        if len(out) > self.retcap and self.merger:
            k = len(out)
            out = self.merger(self, [s for s, v in out], [v for s, v in out])
            self.merges += k - len(out)
        return out

    # ------------------------------------------------------------- top level
    def start(self):
        """a fresh state sharing the loaded modules"""
        self.static_ids = frozenset(self.base.heap)
        return self.base.copy()

    def top_frame(self, modname):
        m = self.modules[modname]
        return Frame(None, m.id, m.id, None, self.base.get(m).meta['file'], '<analysis>')

    def run_call(self, f, args, kwargs, st, fr, node=None):
        """call from the analysis driver: (normal outcomes, exceptional outcomes)"""
        node = node or ast.parse('x').body[0]
        if Interp.entry is not None:
            Interp.entry(self, st, list(args) + list(kwargs.values()))
        self.exc.append([])
        out = self.call(f, args, kwargs, st, fr, node)
        exc = self.exc.pop()
        return out, exc
