"""Abstract values and heap objects."""
from . import poly as P


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return '<ref %s>' % (self.id,)


class Func(object):
    """a function value; closure is the id of the defining environment (or None)"""
    __slots__ = ('node', 'mod', 'env', 'defaults', 'kwdefaults', 'cls', 'name', 'is_gen', 'kind')

    def __init__(self, node, mod, env, defaults, kwdefaults, cls, name):
        self.node, self.mod, self.env = node, mod, env
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls
        self.name = name
        self.is_gen = None
        self.kind = None

    def key(self):
        return (id(self.node), self.env)

    def __eq__(self, o):
        return isinstance(o, Func) and o.key() == self.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    @property
    def qual(self):
        return (self.cls + '.' if self.cls else '') + self.name

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, s):
        self.func, self.self = func, s

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func == self.func and o.self == self.self

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.func, self.self))


class Prop(object):
    """property object"""
    __slots__ = ('get', 'set')

    def __init__(self, g, s=None):
        self.get, self.set = g, s


class Static(object):
    __slots__ = ('func',)

    def __init__(self, f):
        self.func = f


class ClsMeth(object):
    __slots__ = ('func',)

    def __init__(self, f):
        self.func = f


class Ext(object):
    """something outside the analysed package, named by its dotted path"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ext', self.path))

    def __repr__(self):
        return '<ext %s>' % self.path


class ExtMeth(object):
    """method NAME of a value of a builtin/external type"""
    __slots__ = ('name', 'self')

    def __init__(self, name, s):
        self.name, self.self = name, s

    def __eq__(self, o):
        return isinstance(o, ExtMeth) and (o.name, o.self) == (self.name, self.self)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.name, self.self if not isinstance(self.self, list) else 0))


class Slice(object):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Ser(object):
    """element-wise value (array, column): the value of a generic element"""
    __slots__ = ('val', 'src')

    def __init__(self, val, src=None):
        self.val, self.src = val, src

    def __eq__(self, o):
        return isinstance(o, Ser) and o.val == self.val and o.src == self.src

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ser', self.val, self.src))

    def __repr__(self):
        return 'Ser(%r)' % (self.val,)


class Super(object):
    __slots__ = ('mro', 'self')

    def __init__(self, mro, s):
        self.mro, self.self = mro, s


class Range(object):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class _Unbound(object):
    def __repr__(self):
        return '<maybe unbound>'


UNBOUND = _Unbound()


# ---------------------------------------------------------------- heap objects

class HObj(object):
    """kind: 'obj' instance, 'cls' class, 'mod' module, 'env' scope,
    'list', 'dict', 'set', or a model-specific kind.
    fields: name/key -> value ; for lists: index -> value"""
    __slots__ = ('kind', 'cls', 'f', 'sites', '_sig', 'meta')

    def __init__(self, kind, cls=None, f=None, meta=None):
        self.kind = kind
        self.cls = cls
        self.f = {} if f is None else f
        self.sites = {}
        self._sig = None
        self.meta = meta

    def copy(self):
        o = HObj(self.kind, self.cls, dict(self.f), self.meta)
        o.sites = dict(self.sites)
        return o


class State(object):
    __slots__ = ('heap', 'own', 'facts', 'truth', 'next', 'ghost', 'envs', 'nw')
    watch = None             # fn(state, id, object) called before every write

    def __init__(self):
        from .facts import Facts
        self.heap = {}
        self.own = set()
        self.facts = Facts()
        self.truth = {}
        self.next = 1
        self.ghost = {}
        self.envs = []       # ids of active environments
        self.nw = 0          # writes to objects other than local variables

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        self.own = set()
        s.own = set()
        s.facts = self.facts.copy()
        s.truth = dict(self.truth)
        s.next = self.next
        s.ghost = dict(self.ghost)
        s.envs = list(self.envs)
        s.nw = self.nw
        return s

    def alloc(self, o):
        i = self.next
        self.next += 1
        self.heap[i] = o
        self.own.add(i)
        return Ref(i)

    def get(self, r):
        return self.heap[r.id if isinstance(r, Ref) else r]

    def w(self, r):
        """writable object"""
        i = r.id if isinstance(r, Ref) else r
        o = self.heap[i]
        if State.watch is not None:
            State.watch(self, i, o)
        if i not in self.own:
            o = o.copy()
            self.heap[i] = o
            self.own.add(i)
        o._sig = None
        if o.kind != 'env':
            self.nw += 1
        return o

    def assume(self, p, op):
        f = self.facts.copy()
        f.assume(p, op)
        self.facts = f
        return not f.dead


class ExcVal(object):
    """an exception instance: class name and source position"""
    __slots__ = ('name', 'where', 'args')

    def __init__(self, name, where, args=()):
        self.name, self.where, self.args = name, where, args

    def __eq__(self, o):
        return isinstance(o, ExcVal) and (o.name, o.where) == (self.name, self.where)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.name, self.where))

    def __repr__(self):
        return 'Exc(%s@%s)' % (self.name, self.where)
