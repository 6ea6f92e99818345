"""Whole-package name, attribute and call-shape resolution over the syntax trees (nothing is imported from the tree)."""
import ast
import builtins
import os
import re

IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
IMPLICIT = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__', '__class__', '__annotations__',
            '__module__', '__qualname__', '__dict__', '__cached__'}
OBJECT = set(dir(object)) | {'__dict__', '__weakref__', '__module__', '__name__', '__qualname__', '__annotations__'}


class Pkg(object):
    def __init__(self, root, name='pysnobal', skip=('tests',)):
        self.root, self.name = root, name
        self.mods = {}
        self.files = {}
        self.words = set()
        base = os.path.join(root, name)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in skip and x != '__pycache__')
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith('.py'):
                    rel = os.path.relpath(p, root)[:-3].split(os.sep)
                    if rel[-1] == '__init__':
                        rel = rel[:-1]
                    m = '.'.join(rel)
                    src = open(p).read()
                    self.mods[m] = Mod(self, m, src, p, f == '__init__.py')
                elif f.endswith('.ini'):
                    self.words |= set(IDENT.findall(open(p).read()))
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    self.words |= set(IDENT.findall(x.value))
        for m in self.mods.values():
            m.bind()
        self.foreign = set()
        for m in self.mods.values():
            own = {id(x) for c in m.classes.values() for l in c.stores.values() for x in l}
            self.foreign |= {x.attr for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and id(x) not in own}
        self.subs = {}
        for m in self.mods.values():
            for c in m.classes.values():
                for b in self.mro(c)[1:]:
                    if isinstance(b, Cls):
                        self.subs.setdefault(b, []).append(c)

    def resolve(self, mod, name, seen=()):
        """what a module-level name denotes: ('mod', Mod) | ('func', node, Mod) | ('class', Cls) | ('ext', path) | ('value',) | None"""
        if (mod.name, name) in seen:
            return ('value',)
        b = mod.names.get(name)
        if b is None:
            sub = mod.name + '.' + name
            return ('mod', self.mods[sub]) if sub in self.mods else None
        if b[0] == 'import':
            return self.modref(b[1])
        if b[0] == 'from':
            m = self.mods.get(b[1])
            if m is None:
                return ('ext', b[1] + '.' + b[2])
            return self.resolve(m, b[2], seen + ((mod.name, name),))
        return b

    def modref(self, dotted):
        if dotted in self.mods:
            return ('mod', self.mods[dotted])
        return ('ext', dotted)

    def mro(self, c):
        """linearisation, good enough for single and simple multiple inheritance; an external base ends as the string '?'"""
        out = [c]
        for b in c.node.bases:
            r = self.denote(c.mod, b)
            if r and r[0] == 'class':
                out += [x for x in self.mro(r[1]) if x not in out]
            elif isinstance(b, ast.Name) and b.id == 'object':
                pass
            else:
                out.append('?')
        return out

    def denote(self, mod, n):
        if isinstance(n, ast.Name):
            return self.resolve(mod, n.id)
        if isinstance(n, ast.Attribute):
            r = self.denote(mod, n.value)
            if r and r[0] == 'mod':
                return self.resolve(r[1], n.attr)
            if r and r[0] == 'ext':
                return ('ext', r[1] + '.' + n.attr)
        return None


class Cls(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.own = {}
        self.methods = {}
        self.props = {}
        self.setters = set()
        self.stores = {}
        self.dynamic = bool(node.decorator_list)
        for x in ast.walk(node):
            pass
        for s in flat(node.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kinds = [deco(d) for d in s.decorator_list]
                if any(k.endswith('.setter') for k in kinds):
                    self.setters.add(s.name)
                elif 'property' in kinds or any(k.endswith('cached_property') for k in kinds):
                    self.props[s.name] = s
                    if any(k.endswith('cached_property') for k in kinds):
                        self.setters.add(s.name)
                else:
                    self.methods[s.name] = (s, kinds)
                self.own[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.own[s.name] = s
            else:
                for t in targets(s):
                    self.own[t] = s
        for m in [x for x in ast.walk(node) if isinstance(x, ast.FunctionDef)]:
            a = m.args.args
            if not a:
                continue
            me = a[0].arg
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == me:
                    self.stores.setdefault(self.mangle(x.attr), []).append(x)
        if '__getattr__' in self.own or '__getattribute__' in self.own or '__slots__' in self.own:
            self.dynamic = True

    def mangle(self, a):
        return '_%s%s' % (self.name.lstrip('_'), a) if a.startswith('__') and not a.endswith('__') else a


def flat(body):
    """statements of a body, descending into conditionals"""
    for s in body:
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and isinstance(getattr(s, f, None), list):
                for x in flat(getattr(s, f)):
                    yield x
        for h in getattr(s, 'handlers', []) or []:
            if h.name:
                yield ast.copy_location(ast.Assign(targets=[ast.Name(id=h.name, ctx=ast.Store())], value=None), h)
            for x in flat(h.body):
                yield x


def targets(s):
    out = []
    for f in ('targets', 'target', 'items'):
        v = getattr(s, f, None)
        if v is None or isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for t in (v if isinstance(v, list) else [v]):
            t = getattr(t, 'optional_vars', t) if f == 'items' else t
            if t is not None:
                out += [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
    for x in ast.walk(s) if isinstance(s, (ast.Expr, ast.Assign, ast.If, ast.While)) else []:
        if isinstance(x, ast.NamedExpr):
            out.append(x.target.id)
    return out


def deco(d):
    if isinstance(d, ast.Call):
        d = d.func
    return ast.unparse(d)


class Mod(object):
    def __init__(self, pkg, name, src, path, init):
        self.pkg, self.name, self.src, self.path, self.init = pkg, name, src, path, init
        self.rel = os.path.relpath(path, pkg.root)
        self.tree = ast.parse(src)
        self.names, self.classes, self.star = {}, {}, False

    def absmod(self, s):
        if not s.level:
            return s.module
        parts = self.name.split('.')
        drop = s.level - (1 if self.init else 0)
        parts = parts[:len(parts) - drop] if drop else parts
        return '.'.join(parts + ([s.module] if s.module else []))

    def bind(self):
        glob = set()
        for x in ast.walk(self.tree):
            if isinstance(x, ast.Global):
                glob |= set(x.names)
        for s in flat(self.tree.body):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ('import', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                m = self.absmod(s)
                for a in s.names:
                    if a.name == '*':
                        t = self.pkg.mods.get(m)
                        if t is None:
                            self.star = True
                        else:
                            if not t.names:
                                t.bind()
                            for k in t.names:
                                if not k.startswith('_'):
                                    self.names[k] = ('from', m, k)
                    else:
                        self.names[a.asname or a.name] = ('from', m, a.name)
            elif isinstance(s, ast.FunctionDef):
                self.names[s.name] = ('func', s, self)
            elif isinstance(s, ast.ClassDef):
                c = self.classes[s.name] = self.classes.get(s.name) if self.classes.get(s.name) and self.classes[s.name].node is s else Cls(self, s)
                self.names[s.name] = ('class', c)
            else:
                for t in targets(s):
                    self.names.setdefault(t, ('value',))
        for g in glob:
            self.names.setdefault(g, ('value',))


def where(mod, n, qual=''):
    return '%s:%d%s' % (mod.rel, getattr(n, 'lineno', 0), ' (%s)' % qual if qual else '')


# ---------------------------------------------------------------- rules
def imports(pkg, ob):
    for m in pkg.mods.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                t = m.absmod(s)
                if t.split('.')[0] != pkg.name:
                    continue
                ok = t in pkg.mods
                ob.add('imported module exists: %s imports %s' % (m.name, t), ok, 'no module %s' % t, where(m, s))
                if ok:
                    for a in s.names:
                        if a.name == '*':
                            continue
                        r = pkg.resolve(pkg.mods[t], a.name)
                        ob.add('imported name exists: %s imports %s from %s' % (m.name, a.name, t),
                               r is not None or pkg.mods[t].star, 'cannot import %s from %s' % (a.name, t), where(m, s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split('.')[0] == pkg.name:
                        ob.add('imported module exists: %s imports %s' % (m.name, a.name), a.name in pkg.mods, 'no module %s' % a.name, where(m, s))


def names(pkg, ob):
    bi = set(dir(builtins)) | IMPLICIT
    for m in pkg.mods.values():
        def use(x, path, scopes):
            if any(x.id in s for s in scopes):
                return
            ok = x.id in m.names or x.id in bi or m.star
            q = '.'.join(path) or 'module level'
            ob.add('name is defined: %s in %s:%s' % (x.id, m.name, q), ok, "name '%s' is not defined" % x.id, where(m, x, q))

        def visit(x, path, scopes, cls=None):
            """scopes: sets of names of the enclosing functions, innermost last; cls: names of the directly enclosing class body"""
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Load):
                    use(x, path, scopes + ([cls] if cls is not None else []))
                return
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in getattr(x, 'decorator_list', []) + x.args.defaults + [k for k in x.args.kw_defaults if k is not None]:
                    visit(d, path, scopes, cls)
                body = x.body if isinstance(x.body, list) else [x.body]
                inner = scopes + [scope_names(x)]
                for s in body:
                    visit(s, path + ([x.name] if hasattr(x, 'name') else []), inner)
                return
            if isinstance(x, ast.ClassDef):
                for d in x.decorator_list + x.bases + [k.value for k in x.keywords]:
                    visit(d, path, scopes, cls)
                own = set()
                for s in flat(x.body):
                    own |= set(targets(s)) | ({s.name} if hasattr(s, 'name') and isinstance(s.name, str) else set())
                    own |= {(a.asname or a.name).split('.')[0] for a in getattr(s, 'names', []) if isinstance(a, ast.alias)}
                for s in x.body:
                    visit(s, path + [x.name], scopes, own)
                return
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = set()
                for g in x.generators:
                    bound |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for i, g in enumerate(x.generators):
                    visit(g.iter, path, scopes if i == 0 else scopes + [bound], cls if i == 0 else None)
                    for c in g.ifs:
                        visit(c, path, scopes + [bound])
                for e in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                    visit(e, path, scopes + [bound])
                return
            if isinstance(x, ast.arguments):
                return
            for y in ast.iter_child_nodes(x):
                visit(y, path, scopes, cls)
        for s in m.tree.body:
            visit(s, [], [])


def scope_names(fn):
    """names bound in a function's own scope"""
    a = fn.args
    out = {y.arg for y in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []) + [z for z in (a.vararg, a.kwarg) if z]}
    if isinstance(fn, ast.Lambda):
        return out
    glob = set()
    for x in own_nodes(fn):
        if isinstance(x, ast.Global):
            glob |= set(x.names)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(y.asname or y.name).split('.')[0] for y in x.names}
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out - glob


def external(path):
    """does an attribute of an installed third-party or standard module exist; None when it cannot be told"""
    import importlib
    parts = path.split('.')
    obj, i = None, 0
    for i in range(len(parts), 0, -1):
        nm = '.'.join(parts[:i])
        if nm.split('.')[0] in ('pysnobal',):
            return None
        try:
            obj = importlib.import_module(nm)
            break
        except ImportError:
            continue
        except Exception:
            return None
    if obj is None:
        return None
    import types
    for p in parts[i:]:
        if not isinstance(obj, types.ModuleType):
            return None if not isinstance(obj, type) else True
        if not hasattr(obj, p):
            return False
        obj = getattr(obj, p)
    return True


def functions(mod):
    """(qualified name, enclosing Cls or None, node) of every function, nested ones included"""
    def go(body, q, cls):
        for s in flat(body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield q + s.name, cls, s
                for x in go(s.body, q + s.name + '.', cls):
                    yield x
            elif isinstance(s, ast.ClassDef):
                for x in go(s.body, q + s.name + '.', mod.classes.get(s.name)):
                    yield x
    return go(mod.tree.body, '', None)


def shadowed(fn):
    """names local to a function"""
    a = fn.args
    out = {x.arg for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', [])}
    out |= {x.arg for x in (a.vararg, a.kwarg) if x}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(y.asname or y.name).split('.')[0] for y in x.names}
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            out.add(x.name)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def attributes(pkg, ob):
    for m in pkg.mods.values():
        for q, c, fn in functions(m):
            loc = shadowed(fn)
            me = fn.args.args[0].arg if c is not None and fn.args.args and (fn.name, ) and fn.name in c.own else None
            if me and any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
                me = None
            for x in ast.walk(fn):
                if not isinstance(x, ast.Attribute):
                    continue
                if isinstance(x.value, ast.Name) and x.value.id == me:
                    self_attr(pkg, ob, m, q, c, x, static=any(k in ('staticmethod',) for k in [deco(d) for d in fn.decorator_list]))
                elif root_name(x) not in loc:
                    mod_attr(pkg, ob, m, q, x)
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute):
                    mod_attr(pkg, ob, m, 'module level', x)


def root_name(x):
    while isinstance(x, ast.Attribute):
        x = x.value
    return x.id if isinstance(x, ast.Name) else None


def mod_attr(pkg, ob, m, q, x):
    r = pkg.denote(m, x.value)
    if not r:
        return
    if r[0] == 'mod':
        ok = pkg.resolve(r[1], x.attr) is not None or x.attr in IMPLICIT or r[1].star
        ob.add('module attribute exists: %s.%s in %s:%s' % (r[1].name, x.attr, m.name, q), ok, "module %s has no attribute '%s'" % (r[1].name, x.attr), where(m, x, q))
    elif r[0] == 'class' and isinstance(x.ctx, ast.Load):
        mro = pkg.mro(r[1])
        ok = '?' in mro or any(b.dynamic or x.attr in b.own or x.attr in b.stores for b in mro) or x.attr in OBJECT or x.attr in ('__name__', '__mro__')
        ob.add('class attribute exists: %s.%s in %s:%s' % (r[1].name, x.attr, m.name, q), ok, "class %s has no attribute '%s'" % (r[1].name, x.attr), where(m, x, q))
    elif r[0] == 'ext' and isinstance(x.ctx, ast.Load):
        full = r[1] + '.' + x.attr
        e = external(full)
        if e is not None:
            ob.add('library attribute exists: %s in %s:%s' % (full, m.name, q), e, 'the installed %s has no %s' % (full.split('.')[0], full), where(m, x, q))


def self_attr(pkg, ob, m, q, c, x, static):
    if static:
        return
    a = c.mangle(x.attr)
    if isinstance(x.ctx, ast.Load):
        for k in [c] + pkg.subs.get(c, []):
            mro = pkg.mro(k)
            down = [d for d in pkg.subs.get(k, [])]
            ok = ('?' in mro or any(b.dynamic or a in b.own or a in b.stores for b in mro) or any(a in b.stores or a in b.own for b in down)
                  or a in OBJECT or (a == x.attr and (a in pkg.words or a in pkg.foreign)))
            ob.add('attribute exists: %s.%s used in %s' % (k.name, x.attr, q), ok, "%s objects are never given an attribute '%s'" % (k.name, x.attr), where(m, x, q))
    else:
        for k in [c] + pkg.subs.get(c, []):
            for b in pkg.mro(k):
                if b == '?':
                    break
                if a in b.own:
                    ok = not (a in b.props and a not in b.setters)
                    ob.add('attribute can be set: %s.%s in %s' % (k.name, x.attr, q), ok, "can't set attribute '%s' of %s" % (x.attr, k.name), where(m, x, q))
                    break


def types(pkg):
    """attribute name -> set of package classes it may hold, from 'self.x = Class(...)' in each class and its relatives"""
    out = {}
    for m in pkg.mods.values():
        for c in m.classes.values():
            for a, ss in c.stores.items():
                pass
            for fn in ast.walk(c.node):
                if not isinstance(fn, ast.Assign):
                    continue
                for t in fn.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and isinstance(fn.value, ast.Call):
                        r = pkg.denote(m, fn.value.func)
                        out.setdefault((c, t.attr), set()).add(r[1] if r and r[0] == 'class' else None)
    return out


def typed_attributes(pkg, ob):
    """self.x.attr where self.x only ever holds objects of a package class"""
    ty = types(pkg)
    for m in pkg.mods.values():
        for q, c, fn in functions(m):
            if c is None or not fn.args.args or fn.name not in c.own:
                continue
            me = fn.args.args[0].arg
            for x in ast.walk(fn):
                if not (isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == me):
                    continue
                # the class the holder gets in this class, or in the nearest ancestor that gives it one
                k = None
                for b in pkg.mro(c):
                    if (b, x.value.attr) in ty:
                        k = ty[(b, x.value.attr)]
                        break
                if not k or None in k:
                    continue
                for t in k:
                    mro = pkg.mro(t)
                    if '?' in mro:
                        continue
                    a = x.attr
                    if isinstance(x.ctx, ast.Load):
                        ok = any(b.dynamic or a in b.own or a in b.stores for b in mro) or a in OBJECT or a in pkg.words or a in pkg.foreign
                        ob.add('attribute exists: %s.%s used in %s' % (t.name, a, q), ok, "%s objects are never given an attribute '%s'" % (t.name, a), where(m, x, q))
                    else:
                        for b in mro:
                            if a in b.own:
                                ok = not (a in b.props and a not in b.setters)
                                ob.add('attribute can be set: %s.%s in %s' % (t.name, a, q), ok, "can't set attribute '%s' of %s" % (a, t.name), where(m, x, q))
                                break


def bind(fn, kinds, call, bound):
    """None when the call fits the parameters, else what is wrong"""
    a = fn.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else list(pos)
    skip = 1 if bound else 0
    np_ = len(call.args) + skip
    if np_ > len(pos) and not a.vararg:
        return '%s() takes %d positional arguments but %d were given' % (fn.name, len(pos), np_)
    given = set(pos[:np_])
    for k in call.keywords:
        if k.arg in given:
            return "%s() got multiple values for argument '%s'" % (fn.name, k.arg)
        if k.arg in pos or k.arg in [x.arg for x in a.kwonlyargs]:
            given.add(k.arg)
        elif not a.kwarg:
            return "%s() got an unexpected keyword argument '%s'" % (fn.name, k.arg)
    miss = [x for x in req if x not in given]
    miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    return '%s() is missing %s' % (fn.name, ', '.join(miss)) if miss else None


PLAIN = {'staticmethod', 'classmethod'}


def shape(pkg, ob, m, q, call, fn, kinds, skip, label):
    if any(k not in PLAIN for k in kinds):
        return
    bad = bind(fn, kinds, call, skip)
    ob.add('call fits: %s called in %s' % (label, q), bad is None, bad or '', where(m, call, q))


def calls(pkg, ob):
    for m in pkg.mods.values():
        todo = [(q, c, fn, shadowed(fn)) for q, c, fn in functions(m)] + [('module level', None, m.tree, None)]
        for q, c, fn, loc in todo:
            me = fn.args.args[0].arg if c is not None and fn.args.args and fn.name in c.own else None
            for x in (ast.walk(fn) if loc is not None else [y for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) for y in ast.walk(s)]):
                if not isinstance(x, ast.Call):
                    continue
                f = x.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and me:
                    for k in [c] + pkg.subs.get(c, []):
                        # a subclass that overrides the caller never runs this call on its instances (unless through super)
                        if runs(pkg, k, c, fn):
                            method(pkg, ob, m, q, x, k, f.attr, pkg.mro(k))
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and c is not None:
                    method(pkg, ob, m, q, x, c, f.attr, pkg.mro(c)[1:], True)
                else:
                    if loc is not None and root_name(f) in loc:
                        continue
                    r = pkg.denote(m, f)
                    if r and r[0] == 'func':
                        shape(pkg, ob, m, q, x, r[1], [deco(d) for d in r[1].decorator_list], False, r[1].name)
                    elif r and r[0] == 'class':
                        mro = pkg.mro(r[1])
                        for b in mro:
                            if b == '?' or b.dynamic:
                                break
                            if '__new__' in b.own:
                                break
                            if '__init__' in b.methods:
                                shape(pkg, ob, m, q, x, b.methods['__init__'][0], b.methods['__init__'][1], True, r[1].name)
                                break
                        else:
                            ob.add('call fits: %s called in %s' % (r[1].name, q), not x.args and not x.keywords, '%s() takes no arguments' % r[1].name, where(m, x, q))


def runs(pkg, k, c, fn):
    """may the body of c.fn run on an instance of k"""
    for b in pkg.mro(k):
        if b == '?' or b is c:
            return True
        if fn.name in b.own:
            return any(isinstance(x, ast.Attribute) and x.attr == fn.name and not (isinstance(x.value, ast.Name) and x.value.id == 'self')
                       for x in ast.walk(b.own[fn.name]))
    return True


def method(pkg, ob, m, q, call, k, name, mro, sup=False):
    for b in mro:
        if b == '?':
            return
        if name in b.methods:
            fn, kinds = b.methods[name]
            shape(pkg, ob, m, q, call, fn, kinds, 'staticmethod' not in kinds, '%s.%s' % (k.name if not sup else 'super', name))
            return
        if name in b.own:
            return
    if sup and name not in OBJECT:
        ob.add('attribute exists: super().%s used in %s' % (name, q), False, 'no base class of %s has %s' % (k.name, name), where(m, call, q))


# ------------------------------------------------- definite assignment
class Flow(ast.NodeVisitor):
    """per function: local reads that some path (ignoring conditions) reaches without a store"""
    def __init__(self, fn, report):
        self.fn, self.report = fn, report
        self.locals = set()
        glob = set()
        for x in own_nodes(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.locals.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                self.locals |= {(y.asname or y.name).split('.')[0] for y in x.names}
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.locals.add(x.name)
        self.locals -= glob
        a = fn.args
        par = {x.arg for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []) + [y for y in (a.vararg, a.kwarg) if y]}
        self.loops = []
        self.run(fn.body, frozenset(par))

    def run(self, body, d):
        for s in body:
            if d is None:
                return None
            d = self.stmt(s, d)
        return d

    def reads(self, e, d):
        if e is None:
            return d
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in d:
                self.report(e)
            return d | {e.id} if isinstance(e.ctx, ast.Store) else (d - {e.id} if isinstance(e.ctx, ast.Del) else d)
        if isinstance(e, (ast.Lambda,)):
            return d
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = d
            for g in e.generators:
                inner = self.reads(g.iter, inner)
                inner = inner | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    inner = self.reads(c, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.reads(x, inner)
            return d
        if isinstance(e, ast.BoolOp):
            d = self.reads(e.values[0], d)
            x = d
            for v in e.values[1:]:
                x = self.reads(v, x)
            return d
        if isinstance(e, ast.IfExp):
            d = self.reads(e.test, d)
            return self.meet(self.reads(e.body, d), self.reads(e.orelse, d))
        if isinstance(e, ast.NamedExpr):
            return self.reads(e.value, d) | {e.target.id}
        for x in ast.iter_child_nodes(e):
            d = self.reads(x, d)
        return d

    def meet(self, a, b):
        return b if a is None else (a if b is None else a & b)

    def stmt(self, s, d):
        if isinstance(s, ast.Assign):
            d = self.reads(s.value, d)
            for t in s.targets:
                d = self.reads(t, d)
            return d
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in d:
                self.report(s.target)
            d = self.reads(s.value, d)
            return self.reads(s.target, d)
        if isinstance(s, ast.AnnAssign):
            return self.reads(s.target, self.reads(s.value, d)) if s.value else d
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                d = self.reads(x, d)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][0 if isinstance(s, ast.Break) else 1].append(d)
            return None
        if isinstance(s, ast.If):
            d = self.reads(s.test, d)
            const = s.test.value if isinstance(s.test, ast.Constant) else None
            a = self.run(s.body, d)
            b = self.run(s.orelse, d)
            return self.meet(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                d0 = self.reads(s.test, d)
                inf = isinstance(s.test, ast.Constant) and bool(s.test.value)
            else:
                d = self.reads(s.iter, d)
                d0, inf = d, False
            self.loops.append(([], []))
            din = self.reads(s.target, d0) if not isinstance(s, ast.While) else d0
            self.run(s.body, din)
            br, _ = self.loops.pop()
            out = None if inf else self.run(s.orelse, d0)
            for b in br:
                out = self.meet(out, b)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                d = self.reads(i.context_expr, d)
                if i.optional_vars is not None:
                    d = self.reads(i.optional_vars, d)
            return self.run(s.body, d)
        if isinstance(s, ast.Try):
            a = self.run(s.body, d)
            if a is not None and s.orelse:
                a = self.run(s.orelse, a)
            for h in s.handlers:
                a = self.meet(a, self.run(h.body, d | ({h.name} if h.name else frozenset())))
            if s.finalbody:
                f = self.run(s.finalbody, d)
                if f is None or a is None:
                    return None
                a = a | f
            return a
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return d | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return d | {(y.asname or y.name).split('.')[0] for y in s.names}
        for x in ast.iter_child_nodes(s):
            d = self.reads(x, d)
        return d


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for y in ast.iter_child_nodes(x):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and isinstance(y, ast.comprehension):
                todo += [y.iter] + y.ifs
            else:
                todo.append(y)


def unassigned(pkg):
    """(module, qualified function, Name node) of every read that ignoring conditions may precede every store"""
    out = []
    count = 0
    for m in pkg.mods.values():
        for q, c, fn in functions(m):
            count += 1
            Flow(fn, lambda e, q=q, m=m: out.append((m, q, e)))
    return out, count


RULES = {'imports': imports, 'names': names, 'attributes': attributes, 'typed': typed_attributes, 'calls': calls}
