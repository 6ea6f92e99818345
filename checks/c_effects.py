"""C19: no shared state, no source of nondeterminism, arguments left alone."""
import ast
import importlib
from absint import poly as P
from absint import interp as IP
from absint.values import State, Ref, Func, Bound, Prop
from .base import Obs, ROOT
from .step import new_interp, AnalysisError, Step
from . import lint

JOB_LIMIT = 850

# ------------------------------------------------------ sources of nondeterminism
SOURCES = ('time.', 'random.', 'numpy.random.', 'secrets.', 'uuid.', 'os.environ', 'os.getenv', 'os.getpid', 'os.getppid', 'os.times', 'os.urandom',
           'os.getlogin', 'os.getcwd', 'os.cpu_count', 'os.uname', 'os.getloadavg', 'os.stat', 'os.path.getmtime', 'os.path.getatime', 'os.path.getctime',
           'platform.', 'socket.', 'threading.', 'multiprocessing.', 'concurrent.', 'tempfile.', 'getpass.', 'locale.', 'gc.', 'datetime.datetime.now',
           'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'datetime.now', 'datetime.today', 'datetime.utcnow',
           'pandas.Timestamp.now', 'pandas.Timestamp.today', 'pandas.Timestamp.utcnow', 'numpy.random', 'numpy.datetime64.now')
HARMLESS = ('time.sleep', 'time.strftime', 'time.strptime', 'time.mktime', 'time.gmtime', 'multiprocessing.freeze_support')
# process-wide settings
SETTINGS = ('numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'pandas.set_option',
            'pandas.options.', 'sys.setrecursionlimit', 'decimal.setcontext', 'locale.setlocale', 'warnings.simplefilter', 'warnings.filterwarnings')
BUILTINS = {'id', 'hash', 'input', 'globals', 'setattr_global'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'popitem', 'sort', 'reverse', 'add', 'discard', 'fill', 'put',
            'itemset', 'resize', 'partition', 'setflags', 'setfield', 'byteswap', 'appendleft', 'popleft', 'difference_update', 'intersection_update',
            'symmetric_difference_update', '__setitem__', '__delitem__', '__iadd__', 'insert_cols'}
# results that share memory with their argument
VIEWS = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'broadcast_to',
         'ascontiguousarray', 'asfortranarray', 'view', 'expand_dims', 'flat', 'T', 'real', 'values', 'loc', 'iloc', 'at', 'iat', 'diagonal', 'nan_to_num_inplace'}
INTO = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0, 'numpy.put_along_axis': 0,
        'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.multiply.at': 0, 'random.shuffle': 0, 'numpy.random.shuffle': 0, 'setattr': 0, 'delattr': 0}


def dotted(mod, n, shadow):
    """external dotted path an expression denotes"""
    r = n
    while isinstance(r, ast.Attribute):
        r = r.value
    if not isinstance(r, ast.Name) or r.id in shadow:
        return None
    d = mod.pkg.denote(mod, n)
    return d[1] if d and d[0] == 'ext' else None


def nondeterminism(p, ob):
    for m in p.mods.values():
        n = 0
        locs = {id(x): q for q, c, fn in lint.functions(m) for x in ast.walk(fn)}
        for x in ast.walk(m.tree):
            path = None
            if isinstance(x, ast.Attribute) or isinstance(x, ast.Name):
                if not isinstance(x.ctx, ast.Load):
                    continue
                path = dotted(m, x, ())
                n += 1
            if path and any(path == s or path.startswith(s) if s.endswith('.') else path == s or path.startswith(s + '.') for s in SOURCES) \
                    and path not in HARMLESS:
                ob.add('nothing depends on time, randomness or environment: %s in %s' % (path, locs.get(id(x), m.name)), False,
                       '%s is used' % path, lint.where(m, x, locs.get(id(x), '')))
            if path and any(path.startswith(s) for s in SETTINGS) and not scoped(m, x):
                ob.add('no process-wide setting is changed: %s in %s' % (path, locs.get(id(x), m.name)), False, '%s is called' % path,
                       lint.where(m, x, locs.get(id(x), '')))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('id', 'hash', 'input') and x.func.id not in m.names:
                ob.add('nothing depends on object identity or the terminal: %s() in %s' % (x.func.id, locs.get(id(x), m.name)), False,
                       '%s() is used' % x.func.id, lint.where(m, x, locs.get(id(x), '')))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('now', 'today', 'utcnow') and \
                    isinstance(x.func.value, (ast.Name, ast.Attribute)) and dotted(m, x.func, ()):
                ob.add('nothing depends on time, randomness or environment: %s in %s' % (ast.unparse(x.func), locs.get(id(x), m.name)), False,
                       'the current time is used', lint.where(m, x, locs.get(id(x), '')))
            if isinstance(x, ast.Constant) and x.value in ('now', 'today') and isinstance(parent(m, x), ast.Call):
                f = dotted(m, parent(m, x).func, ()) if isinstance(parent(m, x).func, (ast.Name, ast.Attribute)) else None
                if f and f.startswith(('pandas.', 'numpy.')):
                    ob.add('nothing depends on time, randomness or environment: %s(now) in %s' % (f, locs.get(id(x), m.name)), False,
                           'the current time is used', lint.where(m, x, locs.get(id(x), '')))
            if order_of_set(m, x):
                ob.add('nothing depends on the order of a set: %s in %s' % (ast.unparse(x)[:60], locs.get(id(x), m.name)), False,
                       'the elements of a set are taken in its order', lint.where(m, x, locs.get(id(x), '')))
        ob.add('names examined for time, randomness, environment and settings: %s' % m.name, True, '%d names' % n)


def parent(m, x):
    if not hasattr(m, 'parents'):
        m.parents = {id(c): y for y in ast.walk(m.tree) for c in ast.iter_child_nodes(y)}
    return m.parents.get(id(x))


def scoped(m, x):
    y = x
    while y is not None:
        if isinstance(y, ast.With) and any('errstate' in ast.unparse(i.context_expr) or 'catch_warnings' in ast.unparse(i.context_expr) or
                                           'option_context' in ast.unparse(i.context_expr) for i in y.items):
            return True
        y = parent(m, y)
    return False


def is_set(x):
    return isinstance(x, (ast.Set, ast.SetComp)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('set', 'frozenset'))


def order_of_set(m, x):
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('list', 'tuple', 'enumerate', 'iter', 'next') and x.args and is_set(x.args[0]):
        y = parent(m, x)
        return not (isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('sorted', 'len', 'set', 'sum', 'max', 'min', 'any', 'all'))
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'pop' and is_set(x.func.value):
        return True
    return False


# ---------------------------------------------------------------- alias analysis
class Effects(object):
    """which parameters a function may change, through its aliases"""

    def __init__(self, p):
        self.p = p
        self.fns = []
        self.summary = {}
        for m in p.mods.values():
            for q, c, fn in lint.functions(m):
                self.fns.append((m, q, c, fn))
                self.summary[id(fn)] = {}
        changed = True
        while changed:
            changed = False
            for m, q, c, fn in self.fns:
                s = self.effects(m, q, c, fn)
                if set(s) != set(self.summary[id(fn)]):
                    self.summary[id(fn)] = s
                    changed = True

    def callee(self, m, c, call, shadow):
        """(function node, offset of its first written parameter)"""
        f = call.func
        if isinstance(f, ast.Name) and f.id in shadow:
            return None
        d = self.p.denote(m, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if d and d[0] == 'func':
            return d[1], 0
        if d and d[0] == 'class':
            for k in self.p.mro(d[1]):
                if isinstance(k, lint.Cls) and '__init__' in k.own and isinstance(k.own['__init__'], (ast.FunctionDef,)):
                    return k.own['__init__'], 1
            return None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and c is not None:
            for k in self.p.mro(c):
                fn = method_of(k, f.attr)
                if fn is not None:
                    return fn, 1
        return None

    def roots(self, e, env):
        """parameters whose storage the value of the expression may share"""
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset())
        if isinstance(e, ast.Attribute):
            return self.roots(e.value, env)
        if isinstance(e, (ast.Subscript, ast.Starred)):
            if isinstance(e, ast.Subscript) and fancy(e.slice):
                return frozenset()
            return self.roots(e.value, env)
        if isinstance(e, ast.NamedExpr):
            return self.roots(e.value, env)
        if isinstance(e, ast.IfExp):
            return self.roots(e.body, env) | self.roots(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.roots(x, env) for x in e.values])
        if isinstance(e, (ast.Tuple, ast.List)):
            return frozenset().union(*[self.roots(x, env) for x in e.elts]) if e.elts else frozenset()
        if isinstance(e, ast.Call):
            f = e.func
            name = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else '')
            if name in VIEWS:
                out = frozenset().union(*[self.roots(x, env) for x in e.args[:1]]) if e.args else frozenset()
                if isinstance(f, ast.Attribute):
                    out |= self.roots(f.value, env)
                return out
            if name in ('get', 'setdefault', 'items', 'values', 'keys') and isinstance(f, ast.Attribute):
                return self.roots(f.value, env)
            if name in ('zip', 'enumerate', 'reversed', 'iter', 'next'):
                return frozenset().union(*[self.roots(x, env) for x in e.args]) if e.args else frozenset()
            if name == 'array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value in (False, None) for k in e.keywords):
                return frozenset().union(*[self.roots(x, env) for x in e.args[:1]])
            if name == 'getattr' and e.args:
                return self.roots(e.args[0], env)
        return frozenset()

    def effects(self, m, q, c, fn):
        a = fn.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        env = {x: frozenset([x]) for x in params}
        # aliases, flow-insensitively over the assignments of the function except rebinding of a parameter before any alias is taken
        body = list(lint.own_nodes(fn))
        rebound = straight_rebinds(fn, self, env)
        for x in rebound:
            env[x] = frozenset()
        for _ in range(4):
            old = dict(env)
            for s in body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        self.bind(t, s.value, env, rebound)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    self.bind(s.target, s.value, env, rebound)
                elif isinstance(s, ast.NamedExpr):
                    self.bind(s.target, s.value, env, rebound)
                elif isinstance(s, (ast.For, ast.comprehension)):
                    self.bind(s.target, s.iter, env, rebound)
                elif isinstance(s, ast.withitem) and s.optional_vars is not None:
                    self.bind(s.optional_vars, s.context_expr, env, rebound)
            if env == old:
                break
        scalar = scalars(fn)
        out = {}

        def hit(roots, node, what):
            for r in roots:
                if r not in ('self', 'cls'):
                    out.setdefault(r, (node, what))
        for s in body:
            tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else \
                s.targets if isinstance(s, ast.Delete) else [s.target] if isinstance(s, (ast.For,)) else []
            for t in tg:
                for t in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        hit(self.roots(t.value, env), s, 'stores into it')
                    elif isinstance(t, ast.Name) and isinstance(s, ast.AugAssign):
                        rs = env.get(t.id, frozenset())
                        hit({r for r in rs if r not in scalar and t.id not in scalar}, s, 'changes it in place')
            if isinstance(s, ast.Call):
                f = s.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    path = dotted(m, f, set(env))
                    if path is None:
                        hit(self.roots(f.value, env), s, 'calls .%s() on it' % f.attr)
                path = dotted(m, f, set(env)) if isinstance(f, (ast.Name, ast.Attribute)) else None
                if path in INTO or (isinstance(f, ast.Name) and f.id in INTO and f.id not in m.names):
                    if s.args:
                        hit(self.roots(s.args[0], env), s, 'writes into it')
                for k in s.keywords:
                    if k.arg == 'out':
                        hit(self.roots(k.value, env), s, 'uses it as an output array')
                    if k.arg == 'inplace' and isinstance(k.value, ast.Constant) and k.value.value and isinstance(f, ast.Attribute):
                        hit(self.roots(f.value, env), s, 'changes it in place')
                    if k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False and (path or '').startswith('numpy.nan_to_num'):
                        hit(self.roots(s.args[0], env), s, 'changes it in place')
                g = self.callee(m, c, s, {x for x in env if x not in m.names})
                if g:
                    node, off = g
                    names = [x.arg for x in node.args.posonlyargs + node.args.args]
                    for w in self.summary.get(id(node), {}):
                        if w in names and 0 <= names.index(w) - off < len(s.args):
                            hit(self.roots(s.args[names.index(w) - off], env), s, 'hands it to %s, which changes it' % node.name)
                        for k in s.keywords:
                            if k.arg == w:
                                hit(self.roots(k.value, env), s, 'hands it to %s, which changes it' % node.name)
        return out

    def bind(self, t, v, env, rebound):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [v] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env, rebound)
        elif isinstance(t, ast.Name):
            env[t.id] = env.get(t.id, frozenset()) | self.roots(v, env)


def method_of(k, name):
    if not isinstance(k, lint.Cls):
        return None
    f = k.own.get(name)
    return f if isinstance(f, ast.FunctionDef) else None


def fancy(s):
    """an index that copies: a comparison, an inverted mask, a list"""
    return isinstance(s, (ast.Compare, ast.List, ast.BinOp)) or (isinstance(s, ast.UnaryOp) and isinstance(s.op, (ast.Invert, ast.Not)))


def straight_rebinds(fn, eff, env):
    """parameters replaced by a fresh value at the top level of the body before any other use than reading in that statement"""
    out = set()
    alias = set()
    for s in fn.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in env:
            x = s.targets[0].id
            if x not in alias and not eff.roots(s.value, {k: v for k, v in env.items() if k not in out}):
                out.add(x)
                continue
        for n in ast.walk(s):
            # a store into a parameter, or any statement that may alias it, ends its grace period
            if isinstance(n, ast.Name) and n.id in env and n.id not in out and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                if not reading_only(s, n):
                    alias.add(n.id)
    return out


def reading_only(s, n):
    """the statement only computes with the name (a test or an expression without call, store or plain alias)"""
    if isinstance(s, ast.If):
        return any(x is n for x in ast.walk(s.test)) and not any(x is n for b in s.body + s.orelse for x in ast.walk(b))
    return False


def scalars(fn):
    """names whose truth value in a comparison is taken directly: they cannot be arrays"""
    out = set()
    def test(e):
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                test(x)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            test(e.operand)
        elif isinstance(e, ast.Compare):
            if all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in e.ops):
                out.update(n.id for x in [e.left] + e.comparators for n in bare(x))
    for n in lint.own_nodes(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            test(n.test)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'math':
            out.update(x.id for a in n.args for x in bare(a))
    return out


def bare(e):
    if isinstance(e, ast.Name):
        return [e]
    if isinstance(e, ast.BinOp):
        return bare(e.left) + bare(e.right)
    if isinstance(e, ast.UnaryOp):
        return bare(e.operand)
    return []


PHYSICS = ('pysnobal.core.functions', 'pysnobal.core.snow', 'pysnobal.point.libsnobal', 'pysnobal.utils')


def arguments(p, ob):
    """no function changes an array, table or record handed to it"""
    e = Effects(p)
    for m, q, c, fn in e.fns:
        s = e.summary[id(fn)]
        names = [x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs if x.arg not in ('self', 'cls')]
        for x in names:
            w = s.get(x)
            ob.add('leaves its argument alone: %s of %s:%s' % (x, m.name, q), w is None, '%s %s' % (q, w[1] if w else ''),
                   lint.where(m, w[0], q) if w else '')


# ------------------------------------------------------------- shared state
def mutable(v):
    return isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        (isinstance(v, ast.Call) and not (isinstance(v.func, ast.Name) and v.func.id in ('tuple', 'frozenset', 'float', 'int', 'str', 'property', 'len', 'range')))


def shared(p, ob):
    """no function writes module state, class state or a shared default"""
    nd = 0
    attr_writes = {}
    for m in p.mods.values():
        for q, c, fn in lint.functions(m):
            for s in lint.own_nodes(fn):
                for t, how in writes(s):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and how != 'rebinds':
                        attr_writes.setdefault(t.attr, []).append((m, q, c, s, how))
    for m in p.mods.values():
        for q, c, fn in lint.functions(m):
            shadow = set(lint.shadowed(fn))
            n = 0
            for s in lint.own_nodes(fn):
                if isinstance(s, (ast.Global,)):
                    ob.add('no function writes module state: %s' % q, False, 'declares global %s' % ', '.join(s.names), lint.where(m, s, q))
                for t, how in writes(s):
                    n += 1
                    base = t
                    depth = 0
                    while isinstance(base, (ast.Attribute, ast.Subscript)):
                        base = base.value
                        depth += 1
                    if is_class_of(base) or (isinstance(t, ast.Attribute) and class_path(t)):
                        ob.add('no function writes class state: %s in %s' % (ast.unparse(t)[:50], q), False, '%s a class attribute' % how, lint.where(m, s, q))
                        continue
                    if not isinstance(base, ast.Name) or base.id in shadow or base.id == 'self':
                        continue
                    if how == 'rebinds' and depth == 0:
                        continue
                    d = p.denote(m, base)
                    if d or base.id == 'cls':
                        what = 'class' if base.id == 'cls' or (d and d[0] == 'class') else 'module'
                        if isinstance(s, ast.Call) and d and d[0] in ('ext', 'mod') and depth == 0:
                            continue        # a function of an imported module
                        if isinstance(s, ast.Call) and d and d[0] == 'ext' and dotted(m, t, shadow):
                            continue
                        ob.add('no function writes %s state: %s in %s' % (what, ast.unparse(t)[:50], q), False, '%s state of the %s' % (how, what), lint.where(m, s, q))
            # shared defaults
            a = fn.args
            pos = a.posonlyargs + a.args
            for x, dv in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]:
                nd += 1
                if not mutable(dv):
                    continue
                bad = None
                for s in lint.own_nodes(fn):
                    for t, how in writes(s):
                        b = t
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            b = b.value
                        if isinstance(b, ast.Name) and b.id == x.arg and not (how == 'rebinds' and b is t):
                            bad = (s, 'changes the default of %s' % x.arg)
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id == x.arg:
                        for t in s.targets:
                            if isinstance(t, ast.Attribute) and t.attr in attr_writes:
                                w = attr_writes[t.attr][0]
                                bad = (s, 'keeps the default of %s, which %s changes' % (x.arg, w[1]))
                    if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == x.arg:
                        bad = (s, 'returns the default of %s' % x.arg)
                ob.add('the default of %s of %s is not shared state' % (x.arg, q), bad is None, bad[1] if bad else '', lint.where(m, bad[0], q) if bad else '')
            ob.add('writes examined for shared state: %s:%s' % (m.name, q), True, '%d writes' % n)
        # mutable class attributes changed through an instance
        for k in m.classes.values():
            for s in lint.flat(k.node.body):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
                for t in tg:
                    if not isinstance(t, ast.Name) or not mutable(s.value):
                        continue
                    for w in attr_writes.get(t.id, []):
                        wc = w[2]
                        if wc is None or k not in p.mro(wc):
                            continue
                        own = rebinds_in_init(p, wc, t.id)
                        ob.add('the class attribute %s.%s is not changed through an instance' % (k.name, t.id), own,
                               '%s changes it in %s' % (w[4], w[1]), lint.where(m, w[3], w[1]))
                    ob.add('class attribute examined: %s.%s' % (k.name, t.id), True)
    ob.add('defaults examined', True, '%d defaults' % nd)


def rebinds_in_init(p, c, name):
    for k in p.mro(c):
        f = method_of(k, '__init__')
        if f is None:
            continue
        called = {x.func.attr for x in lint.own_nodes(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                  isinstance(x.func.value, ast.Name) and x.func.value.id == 'self'}
        for g in [f] + [method_of(b, x) for x in sorted(called) for b in p.mro(c)]:
            for s in lint.own_nodes(g) if g is not None else ():
                for t, how in writes(s):
                    if how == 'rebinds' and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr == name:
                        return True
    return False


def writes(s):
    """(written expression, how) of one node; for a mutating call the receiver is the expression"""
    out = []
    tg = []
    if isinstance(s, ast.Assign):
        tg = s.targets
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign, ast.For)):
        tg = [s.target]
    elif isinstance(s, ast.Delete):
        tg = s.targets
    elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in MUTATORS:
        out.append((s.func.value, 'changes'))
    elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ('setattr', 'delattr') and s.args:
        out.append((ast.Attribute(value=s.args[0], attr=ast.unparse(s.args[1]) if len(s.args) > 1 else '?', ctx=ast.Store()), 'sets an attribute of'))
    while tg:
        nxt = []
        for t in tg:
            if isinstance(t, (ast.Tuple, ast.List)):
                nxt += t.elts
            elif isinstance(t, ast.Starred):
                nxt.append(t.value)
            elif isinstance(t, ast.Subscript):
                out.append((t.value, 'stores into'))
            elif isinstance(t, (ast.Attribute, ast.Name)):
                out.append((t, 'rebinds'))
        tg = nxt
    return out


def is_class_of(b):
    return isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'type' and len(b.args) == 1


def class_path(t):
    x = t.value
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        if isinstance(x, ast.Attribute) and x.attr == '__class__':
            return True
        x = x.value
    return is_class_of(x)


# ------------------------------------------------------- interpreted effects
class Watch(object):
    """every write to an object that the run shares with others"""

    def __init__(self, ob, tag):
        self.ob, self.tag = ob, tag
        self.n = 0
        self.args = 0
        self.hits = {}

    def __enter__(self):
        State.watch = self.see
        IP.Interp.entry = self.protect
        return self

    def __exit__(self, *a):
        State.watch = IP.Interp.entry = None

    def see(self, st, i, o):
        if o.kind == 'env':
            return
        I = next((x for x in reversed(IP.INSTANCES) if x.callstack), None)
        if I is None:
            return
        self.n += 1
        name = None
        if i in st.ghost.get('protected', ()):
            name = 'the arguments'
        elif i in I.static_ids:
            name = 'module and class state'
        if name:
            fn = I.callstack[-1]
            node = getattr(getattr(fn, 'func', None), 'node', None)
            if any(isinstance(d, ast.Name) and d.id == 'property' for d in getattr(node, 'decorator_list', ())):
                return          # a derived value kept with the record it is derived from
            fn = getattr(fn, 'qual', None) or getattr(fn, 'name', None) or str(fn)
            self.hits.setdefault((name, fn), o.kind)

    def protect(self, I, st, args):
        """everything reachable from the arguments of a call made from outside"""
        seen = set()
        todo = [r.id for x in args for r in flatten(x) if isinstance(r, Ref)]
        while todo:
            i = todo.pop()
            if i in seen or i not in st.heap:
                continue
            seen.add(i)
            for v in st.heap[i].f.values():
                todo += [x.id for x in flatten(v) if isinstance(x, Ref)]
        self.args += len(seen)
        if seen:
            st.ghost['protected'] = frozenset(seen) | st.ghost.get('protected', frozenset())

    def report(self):
        for (name, fn), kind in sorted(self.hits.items()):
            self.ob.add('interpreted writes leave %s alone: %s' % (name, fn), False, '[%s] a %s is changed' % (self.tag, kind), fn)
        self.ob.add('interpreted writes go to objects of the run: %s' % self.tag, not self.hits, '%d writes' % self.n)
        self.ob.count('writes followed', self.n)
        self.ob.count('argument objects protected', self.args)


def flatten(v):
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in flatten(x)]
    return [v]


VIA = (('c_sched', 'C07', None), ('c_input', 'C14', None), ('c_config', 'C15', None), ('c_config', 'C16', None), ('c_config', 'C17', None))


def jobs(pid, tier):
    out = [(pid, 'scan', x) for x in ('nondeterminism', 'arguments', 'shared')]
    out += [(pid, 'step', r, p) for r in (2, 1, 0) for p in ('mixed', 'none')]
    for mod, p, _ in VIA:
        m = importlib.import_module('checks.' + mod)
        js = [j for j in m.jobs(p, 'quick') if j[1] != 'documented']
        if tier == 'quick' and mod == 'c_sched':
            js = js[::3]
        out += [(pid, 'via', mod, j) for j in js]
    return out


def run_job(pid, kind, *arg):
    ob = Obs()
    if kind == 'scan':
        globals()[arg[0]](lint.Pkg(ROOT), ob)
        return ob
    del IP.INSTANCES[:]
    w = Watch(ob, ' '.join(str(x) for x in arg))
    err = None
    try:
        with w:
            if kind == 'step':
                S = Step(arg[0], arg[1], coarse=True, groups=())
                S.run()
            else:
                importlib.import_module('checks.' + arg[0]).run_job(*arg[1])
    except AnalysisError as e:
        err = e
    for I in IP.INSTANCES:
        ob.stats(I)
    w.report()
    if err is not None and not w.hits:
        raise err
    return ob


def explain(pid):
    return ('Every name of the package is resolved and uses of clocks, random numbers, the environment, object identity and process-wide settings are violations; '
            'an alias analysis with call summaries shows which parameters a function may change; every write to module state, class state, shared class attributes '
            'and shared defaults is a violation; and while timesteps, schedules, construction, configuration, input and output are interpreted, every heap write is '
            'followed to its object: none may reach a module, a class, an argument of the constructor or a record handed in.')


MIN = {'C19': {'leaves its argument alone': 100, 'writes examined': 90, 'names examined': 15, 'interpreted writes go': 10}}
