"""Models of builtins, math, numpy and (the used part of) pandas/inicheck."""
import ast
import re
from fractions import Fraction as Fr
from . import poly as P
from .poly import Poly
from .values import (Ref, Func, Bound, Prop, Static, ClsMeth, Ext, ExtMeth, Slice, Ser, Super,
                     Range, UNBOUND, HObj, State, ExcVal)
import builtins as _b

BUILTINS = frozenset(dir(_b)) | {'__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__'}
MAYBE_NONE = set()
BOOLISH = set()
NROWS = 4


def vkey(v):
    """hashable key of a value"""
    if isinstance(v, (Poly, Ref, str, bool, bytes, Ext, Func, Ser, Bound)) or v is None:
        return v
    if isinstance(v, tuple):
        return ('t',) + tuple(vkey(x) for x in v)
    if isinstance(v, Slice):
        return ('slice', vkey(v.lo), vkey(v.hi), vkey(v.step))
    if isinstance(v, Range):
        return ('range', v.lo, v.hi, v.step)
    return repr(v)


def labels_of(v):
    if isinstance(v, Poly):
        return v.labels()
    if isinstance(v, Ser):
        return labels_of(v.val)
    if isinstance(v, tuple):
        r = frozenset()
        for x in v:
            r |= labels_of(x)
        return r
    return frozenset()


def opaque(name, args):
    """uninterpreted application to arbitrary values"""
    ks = []
    for a in args:
        k = vkey(a)
        if isinstance(k, Ser):
            k = k.val
        ks.append(k)
    return P.app(name, *ks)


def cmp_const(c, o):
    return {'>': c > 0, '>=': c >= 0, '<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[o]


def as_num(v):
    if isinstance(v, bool):
        return P.const(int(v))
    return v


# ------------------------------------------------------------------ iteration

def dict_items(I, d, st):
    """[(key, value)] of a dictionary with known keys, else None"""
    if isinstance(d, Ref):
        h = st.get(d)
        if h.kind == 'dict' and not (h.meta and h.meta.get('unknown')):
            return list(h.f.items())
        if h.kind == 'view':
            return None
    return None


def iterate(I, v, st, fr, n):
    """(list of items or None, state)"""
    if isinstance(v, tuple):
        return list(v), st
    if isinstance(v, str):
        return list(v), st
    if isinstance(v, Range):
        if v.lo.is_const() and v.hi.is_const() and v.step.is_const():
            lo, hi, s = int(v.lo.const()), int(v.hi.const()), int(v.step.const())
            if s == 0:
                return [], st
            return [P.const(i) for i in list(range(lo, hi, s))[:100000]], st
        return None, st
    if isinstance(v, Ref):
        h = st.get(v)
        unk = h.meta and h.meta.get('unknown')
        if h.kind == 'list' and not unk:
            return [h.f[i] for i in range(len(h.f))], st
        if h.kind == 'iter':
            lst = st.get(h.f['seq'])
            i = h.f['pos']
            items = [lst.f[j] for j in range(i, len(lst.f))]
            st.w(v).f['pos'] = len(lst.f)
            return items, st
        if h.kind in ('dict', 'set') and not unk:
            return list(h.f), st
        if h.kind == 'frame':
            return [k for k in h.f if not k.startswith('#')], st
        if h.kind == 'obj':
            m, c = I.class_attr(st, h.cls, '__iter__')
            if isinstance(m, Func):
                r = I.call(Bound(m, v), [], {}, st, fr, n)
                if len(r) == 1:
                    return iterate(I, r[0][1], r[0][0], fr, n)
        return None, st
    if isinstance(v, Ser) and v.src and isinstance(v.src, tuple) and v.src[0] == 'frame':
        return [row_value(v.val, k) for k in range(NROWS)], st
    return None, st


def any_item(I, v, st, fr, n):
    if isinstance(v, Range):
        p = P.fresh('iter', v.lo.labels() | v.hi.labels())
        st.assume(p - v.lo, '>=')
        return p
    if isinstance(v, Ref):
        h = st.get(v)
        if h.f:
            vals = list(h.f.values())
            if len(vals) == 1:
                return vals[0]
    return opaque('item', [v, P.fresh('k')])


def range_nonempty(I, r, st):
    return st.facts.compare(r.hi - r.lo, '>')


def part(I, v, i):
    if isinstance(v, Ser):
        return Ser(opaque('part%d' % i, [v.val]), v.src)
    return opaque('part%d' % i, [v])


def to_str(I, v, st):
    if isinstance(v, str):
        return v
    if isinstance(v, Poly) and v.is_const():
        c = v.const()
        return str(c.numerator) if c.denominator == 1 else repr(float(c))
    if v is None or isinstance(v, bool):
        return str(v)
    return None


# ------------------------------------------------------------------ tests

def is_(I, a, b, st):
    if b is None or a is None:
        x = a if b is None else b
        if x is None:
            return [(st, True)]
        if isinstance(x, Poly) and x in MAYBE_NONE:
            r = I.split_opaque(('isnone', x), st)
            return r
        return [(st, False)]
    if isinstance(a, bool) or isinstance(b, bool):
        x, k = (a, b) if isinstance(b, bool) else (b, a)
        if isinstance(x, bool):
            return [(st, x is k)]
        if isinstance(x, Poly) and x in BOOLISH:
            return [(s, t == k) for s, t in I.truth(x, st, None, None)]
        if isinstance(x, Poly):
            return I.split_opaque(('is', x, k), st)
        return [(st, False)]
    if isinstance(a, Poly) and isinstance(b, Poly):
        return [(st, True)] if a == b else I.split_opaque(('is', a, b), st)
    return [(st, a == b)]


def eq(I, a, b, st, fr, n):
    """equality of values that are not both numbers"""
    if isinstance(a, (list,)) or isinstance(b, (list,)):
        return [(st, a == b)]
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Poly):
            if x.is_const():
                return [(st, False)]
            if isinstance(y, bool) and x in BOOLISH:
                return [(s, t == y) for s, t in I.truth(x, st, fr, n)]
            if y is None:
                return is_(I, x, None, st)
            k = ('eq', x, vkey(y))
            # an opaque value equals at most one constant
            for kk, tv in st.truth.items():
                if kk[0] == 'eq' and kk[1] == x and tv and kk[2] != k[2] and isinstance(y, (str, bool)) and \
                        isinstance(kk[2], (str, bool)):
                    return [(st, False)]
            opts = OPTIONS.get(x)
            if opts is not None and isinstance(y, str):
                if y not in opts:
                    return [(st, False)]
                if all(st.truth.get(('eq', x, o)) is False for o in opts if o != y):
                    return [(st, True)]
            return I.split_opaque(k, st)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return [(st, True)]
        ha, hb = st.get(a), st.get(b)
        if ha.kind in ('list', 'dict', 'set') and ha.kind == hb.kind:
            if len(ha.f) != len(hb.f):
                return [(st, False)]
            if ha.f == hb.f:
                return [(st, True)]
            return I.split_opaque(('eqr', a.id, b.id), st)
        if ha.kind == 'obj':
            m, c = I.class_attr(st, ha.cls, '__eq__')
            if isinstance(m, Func):
                out = []
                for s, r in I.call(Bound(m, a), [b], {}, st, fr, n):
                    out.extend(I.truth(r, s, fr, n))
                return out
        return [(st, False)]
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return [(st, False)]
        cur = [(st, True)]
        for x, y in zip(a, b):
            nx = []
            for s, t in cur:
                if not t:
                    nx.append((s, False))
                else:
                    nx.extend(I.compare(ast.Eq(), x, y, s, fr, n))
            cur = nx
        return cur
    return [(st, a == b)]


OPTIONS = {}


def contains(I, a, b, st, fr, n):
    if isinstance(b, str) and isinstance(a, str):
        return [(st, a in b)]
    items = None
    if isinstance(b, tuple):
        items = list(b)
    elif isinstance(b, Ref):
        h = st.get(b)
        if h.kind == 'dict' and h.meta and 'open' in h.meta:
            if a in h.f:
                return [(st, True)]
            ks = h.meta.get('keys')
            return [(st, ks is None or a in ks)]
        if h.kind in ('dict', 'set', 'frame') and not (h.meta and h.meta.get('unknown')):
            items = [k for k in h.f if not (isinstance(k, str) and k.startswith('#'))]
        elif h.kind == 'list' and not (h.meta and h.meta.get('unknown')):
            items = list(h.f.values())
    if items is None:
        return I.split_opaque(('in', vkey(a), vkey(b)), st)
    cur = [st]
    out = []
    for x in items:
        nx = []
        for s in cur:
            for s2, t in I.compare(ast.Eq(), a, x, s, fr, n):
                if t:
                    out.append((s2, True))
                else:
                    nx.append(s2)
        cur = nx
    return out + [(s, False) for s in cur]


def ser_truth(I, v, st, fr, n):
    return I.split_opaque(('truth', vkey(v)), st)


# ------------------------------------------------------------------ operators

OPN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%',
       ast.FloorDiv: '//', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
       ast.RShift: '>>', ast.MatMult: '@'}


def arith(I, o, a, b, st, fr, n):
    """Poly (op) Poly -> list of (state, value)"""
    try:
        if o == '+':
            return [(st, a + b)]
        if o == '-':
            return [(st, a - b)]
        if o == '*':
            return [(st, a * b)]
        if o == '/':
            if I.on_div is not None:
                r = I.on_div(I, a, b, st, fr, n)
                if r is not None:
                    return r
            q = b
            if b.is_const() and not b.t:
                I.raise_(st, 'ZeroDivisionError', fr, n)
                return []
            if st.facts.mp:
                rb = st.facts.reduce(b)
                if not rb.t:
                    I.raise_(st, 'ZeroDivisionError', fr, n)
                    return []
            if P.has_p(b):
                b2, dens = P.clear_denoms(b)
                r = a
                for at, e in dens:
                    r = r * P.ipow(P.ATOMS[at][1], e)
                return [(st, P.div(r, b2))]
            return [(st, P.div(a, b))]
        if o == '**':
            return [(st, P.power(a, b))]
        if o == '%':
            if a.is_const() and b.is_const() and b.const():
                return [(st, P.const(a.const() % b.const()))]
            if divides(st, b, a):
                return [(st, P.ZERO)]
            return [(st, P.app('mod', a, b))]
        if o == '//':
            if a.is_const() and b.is_const() and b.const():
                return [(st, P.const(a.const() // b.const()))]
            if divides(st, b, a):
                return [(st, P.div(a, b))]
            return [(st, P.app('floordiv', a, b))]
    except P.TooBig:
        lab = a.labels() | b.labels()
        return [(st, P.fresh('big', lab))]
    return [(st, P.app('op' + o, a, b))]


def divides(st, b, a, depth=0):
    """b divides a, from recorded facts mod(x, y) == 0"""
    if a == b:
        return True
    if b.is_const() and a.is_const():
        return b.const() != 0 and a.const() % b.const() == 0
    if depth > 6:
        return False
    q = P.div(a, b)
    if q is not None and not P.has_p(q) and all(c.denominator == 1 for c in q.t.values()) and \
            all(e > 0 for m in q.t for _, e in m) and \
            all(P.ATOMS[x] in INTEGER or x in INTEGER for m in q.t for x, _ in m):
        return True
    for at, v in st.facts.mp.items():
        d = P.ATOMS[at]
        if d[0] == 'a' and d[1] == 'mod' and not v.t:
            x, y = d[2]
            if x == a and y != a and (y == b or divides(st, b, y, depth + 1)):
                return True
    return False


INTEGER = set()     # atom ids known to be integers


NUMFMT = {'%': re.compile(r'%([#0\- +]*\d*(?:\.\d+)?[feEgG])$'), '{': re.compile(r'\{(?:0)?:([^{}]*[feEgG])\}$'),
          '': re.compile(r'([^{}%]*[feEgG])$')}


def numfmt(text, kind, vals):
    """one number formatted by a numeric format: numfmt(spec, value)"""
    if len(vals) != 1 or not isinstance(text, str):
        return None
    v = vals[0].val if isinstance(vals[0], Ser) else vals[0]
    m = NUMFMT[kind].match(text)
    if m and isinstance(v, Poly):
        return P.app('numfmt', m.group(1), v)
    return None


def binop(I, op, a, b, st, fr, n):
    o = OPN[type(op)]
    if isinstance(a, Ser) or isinstance(b, Ser):
        x = a.val if isinstance(a, Ser) else a
        y = b.val if isinstance(b, Ser) else b
        src = a.src if isinstance(a, Ser) and a.src else (b.src if isinstance(b, Ser) else None)
        if isinstance(x, bool) and isinstance(y, bool) and o in '&|^':
            r = (x and y) if o == '&' else (x or y) if o == '|' else (x != y)
            return [(st, Ser(r, src))]
        return [(s, Ser(r, src)) for s, r in binop(I, op, x, y, st, fr, n)]
    if FR.is_frame(st, a) or FR.is_frame(st, b):
        return FR.frame_binop(I, op, a, b, st, fr, n)
    if isinstance(a, bool) and isinstance(b, bool) and o in '&|^':
        return [(st, (a and b) if o == '&' else (a or b) if o == '|' else (a != b))]
    a, b = as_num(a), as_num(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return arith(I, o, a, b, st, fr, n)
    if isinstance(a, str):
        if o == '%':
            vals = b if isinstance(b, tuple) else (b,)
            if isinstance(b, Ref) and st.get(b).kind == 'dict':
                return [(st, opaque('fmt', [a]))]
            t = [to_str(I, v, st) for v in vals]
            if all(x is not None for x in t) and a.count('%s') == len(t) and a.count('%') == len(t):
                return [(st, a % tuple(t))]
            r = numfmt(a, '%', vals)
            return [(st, r if r is not None else opaque('fmt', [a] + list(vals)))]
        if o == '+' and isinstance(b, str):
            return [(st, a + b)]
        if o == '*' and isinstance(b, Poly) and b.is_const():
            return [(st, a * int(b.const()))]
        return [(st, opaque('str' + o, [a, b]))]
    if isinstance(a, tuple) and isinstance(b, tuple) and o == '+':
        return [(st, a + b)]
    if isinstance(a, Ref) and isinstance(b, Ref) and st.get(a).kind == 'list' and st.get(b).kind == 'list' and o == '+':
        la, lb = st.get(a), st.get(b)
        items = [la.f[i] for i in range(len(la.f))] + [lb.f[i] for i in range(len(lb.f))]
        return [(st, st.alloc(HObj('list', None, dict(enumerate(items)))))]
    if isinstance(a, Ref) and st.get(a).kind == 'list' and o == '*' and isinstance(b, Poly) and b.is_const():
        la = st.get(a)
        items = [la.f[i] for i in range(len(la.f))] * int(b.const())
        return [(st, st.alloc(HObj('list', None, dict(enumerate(items)))))]
    if isinstance(a, Ref) and isinstance(b, Ref) and st.get(a).kind == 'dict' and o == '|':
        d = dict(st.get(a).f)
        d.update(st.get(b).f)
        return [(st, st.alloc(HObj('dict', None, d)))]
    if a is None or b is None:
        I.event('type', fr, n, 'arithmetic with None')
        I.raise_(st, 'TypeError', fr, n)
        return []
    if isinstance(a, Ref) and st.get(a).kind == 'obj':
        nm = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__'}.get(o)
        m, c = I.class_attr(st, st.get(a).cls, nm) if nm else (None, None)
        if isinstance(m, Func):
            return I.call(Bound(m, a), [b], {}, st, fr, n)
    return [(st, opaque('op' + o, [a, b]))]


def inplace(I, cur, st, fr, n):
    """hook for in-place change of an array (effect analysis)"""
    if I.on_write:
        I.on_write(st, cur, '<array>', None, fr, n)


# ------------------------------------------------------------------ items

def get_item(I, o, k, st, fr, n):
    if isinstance(o, tuple):
        if isinstance(k, Poly) and k.is_const():
            i = int(k.const())
            if -len(o) <= i < len(o):
                return [(st, o[i])]
            I.raise_(st, 'IndexError', fr, n)
            return []
        if isinstance(k, Slice):
            s = const_slice(k)
            if s:
                return [(st, o[s])]
        return [(st, opaque('idx', [o, k]))]
    if isinstance(o, str):
        if isinstance(k, Poly) and k.is_const():
            return [(st, o[int(k.const())])]
        if isinstance(k, Slice) and const_slice(k):
            return [(st, o[const_slice(k)])]
        return [(st, opaque('idx', [o, k]))]
    if isinstance(o, Ref):
        h = st.get(o)
        if h.kind == 'list':
            if h.meta and h.meta.get('unknown'):
                return [(st, any_item(I, o, st, fr, n))]
            if isinstance(k, bool):
                k = P.const(int(k))
            if isinstance(k, Poly):
                kk = st.facts.reduce(k) if not k.is_const() else k
                if kk.is_const():
                    i = int(kk.const())
                    if -len(h.f) <= i < len(h.f):
                        return [(st, h.f[i % len(h.f)])]
                    I.raise_(st, 'IndexError', fr, n)
                    return []
                # undecided index: split over the elements
                out = []
                for i in range(len(h.f)):
                    s = st.copy()
                    if s.assume(k - P.const(i), '=='):
                        out.append((s, h.f[i]))
                return out
            if isinstance(k, Slice):
                s = const_slice(k)
                if s:
                    items = [h.f[i] for i in range(len(h.f))][s]
                    return [(st, st.alloc(HObj('list', None, dict(enumerate(items)))))]
            return [(st, opaque('idx', [o, k]))]
        if h.kind == 'dict':
            key = k
            if isinstance(key, Poly) and not key.is_const():
                key = st.facts.reduce(key)
            key = vkey(key)
            if key in h.f:
                return [(st, h.f[key])]
            if h.meta and 'open' in h.meta:
                v = h.meta['open'](st, key)
                if v is not None:
                    st.w(o).f[key] = v
                    return [(st, v)]
                I.event('nokey', fr, n, "no key %r in %s" % (key, h.meta.get('name', 'dict')))
                I.raise_(st, 'KeyError', fr, n, (key,))
                return []
            if h.meta and h.meta.get('unknown'):
                return [(st, opaque('key', [o, k]))]
            if isinstance(k, Poly) and not k.is_const() and h.f and all(isinstance(x, Poly) for x in h.f):
                out = []
                for kk, vv in h.f.items():
                    s = st.copy()
                    if s.assume(k - kk, '=='):
                        out.append((s, vv))
                return out
            if isinstance(k, Poly) and not k.is_const():
                return [(st, opaque('key', [o, k]))]
            I.event('nokey', fr, n, 'no key %r in the dictionary' % (k,))
            I.raise_(st, 'KeyError', fr, n, (key,))
            return []
        if h.kind == 'frame':
            return FR.frame_get(I, o, k, st, fr, n)
        if h.kind == 'loc':
            return FR.loc_get(I, o, k, st, fr, n)
        if h.kind == 'obj':
            m, c = I.class_attr(st, h.cls, '__getitem__')
            if isinstance(m, Func):
                return I.call(Bound(m, o), [k], {}, st, fr, n)
            if I.has_ext_base(st, h.cls):
                return [(st, opaque('item', [o, k]))]
            I.event('type', fr, n, 'object is not subscriptable')
            I.raise_(st, 'TypeError', fr, n)
            return []
    if isinstance(o, Ser):
        if isinstance(k, Ser) and isinstance(k.val, bool):
            # boolean selection: the generic selected element
            return [(st, Ser(o.val, o.src))]
        if isinstance(k, Poly) and k.is_const() and isinstance(o.src, tuple) and o.src[0] == 'frame':
            r = row_value(o.val, int(k.const()) % NROWS)
            h = st.heap.get(o.src[1])
            if h is not None and h.kind == 'frame' and not h.f.get('#sorted') and o.val is h.f.get('#index'):
                r = opaque('unsorted', [r])      # the position says nothing about the time
            return [(st, r)]
        if isinstance(k, Poly) and isinstance(o.val, Poly):
            return [(st, opaque('elem', [o.val, k]))]
        if isinstance(k, Slice):
            return [(st, Ser(opaque('slice', [o.val, k]), o.src))]
        return [(st, Ser(o.val, o.src))]
    if o is None:
        I.event('type', fr, n, 'None is not subscriptable')
        I.raise_(st, 'TypeError', fr, n)
        return []
    if isinstance(o, Poly) and o.is_const():
        I.event('type', fr, n, 'number is not subscriptable')
        I.raise_(st, 'TypeError', fr, n)
        return []
    return [(st, opaque('item', [o, k]))]


def const_slice(k):
    r = []
    for x in (k.lo, k.hi, k.step):
        if x is None:
            r.append(None)
        elif isinstance(x, Poly) and x.is_const():
            r.append(int(x.const()))
        else:
            return None
    return slice(*r)


def row_value(v, i):
    """value of row i of a column whose generic value is v"""
    if not isinstance(v, Poly):
        return v
    mp = {}
    for a in P.deep_atoms(v):
        d = P.ATOMS[a]
        if d[0] == 's' and d[1].startswith('row:'):
            mp[a] = P.sym('%s@%d' % (d[1], i), P.LABELS[a])
    return P.subst(v, mp) if mp else v


def set_item(I, o, k, v, st, fr, n):
    if isinstance(o, Ref):
        h = st.get(o)
        if h.kind == 'list' and isinstance(k, Poly) and k.is_const():
            i = int(k.const())
            if -len(h.f) <= i < len(h.f):
                w = st.w(o)
                w.f[i % len(h.f)] = v
                if I.on_write:
                    I.on_write(st, o, '<item>', v, fr, n)
                return [st]
            I.raise_(st, 'IndexError', fr, n)
            return []
        if h.kind == 'dict':
            w = st.w(o)
            key = vkey(k)
            if isinstance(k, Poly) and not k.is_const():
                key = vkey(st.facts.reduce(k))
            w.f[key] = v
            w.sites[key] = (fr.file, getattr(n, 'lineno', 0), fr.qual)
            if I.on_write:
                I.on_write(st, o, key, v, fr, n)
            if h.meta and 'alias' in h.meta and isinstance(key, str):
                I.raw_set(h.meta['alias'], key, v, st, fr, n)
            return [st]
        if h.kind == 'frame':
            return FR.frame_set(I, o, k, v, st, fr, n)
        if h.kind == 'loc':
            return FR.loc_set(I, o, k, v, st, fr, n)
        if h.kind == 'arr':
            w = st.w(o)
            w.f['val'] = arr_store(w.f.get('val'), k, v)
            if I.on_write:
                I.on_write(st, o, '<item>', v, fr, n)
            return [st]
        if h.kind == 'obj':
            m, c = I.class_attr(st, h.cls, '__setitem__')
            if isinstance(m, Func):
                return [s for s, _ in I.call(Bound(m, o), [k, v], {}, st, fr, n)]
        if I.on_write:
            I.on_write(st, o, '<item>', v, fr, n)
        return [st]
    if isinstance(o, Ser):
        # in-place store into an element-wise value held in a variable
        if I.on_write:
            I.on_write(st, o, '<item>', v, fr, n)
        val = arr_store(o.val, k, v)
        # rebind every variable of the current scopes that holds this very value
        for e in reversed(st.envs):
            ob = st.heap.get(e)
            if ob is None:
                continue
            for nm, x in list(ob.f.items()):
                if x is o:
                    st.w(e).f[nm] = Ser(val, o.src)
        return [st]
    if I.on_write:
        I.on_write(st, o, '<item>', v, fr, n)
    return [st]


def arr_store(cur, k, v):
    x = v.val if isinstance(v, Ser) else v
    if isinstance(k, Ser) and isinstance(k.val, bool):
        return x if k.val else cur
    if isinstance(k, Slice) and k.lo is None and k.hi is None:
        return x
    return P.fresh('store')


def del_item(I, o, k, st, fr, n):
    if isinstance(o, Ref):
        h = st.get(o)
        if h.kind == 'dict':
            st.w(o).f.pop(vkey(k), None)
            if I.on_write:
                I.on_write(st, o, vkey(k), None, fr, n)
        elif h.kind == 'list' and isinstance(k, Poly) and k.is_const():
            items = [h.f[i] for i in range(len(h.f))]
            i = int(k.const())
            if -len(items) <= i < len(items):
                del items[i]
            w = st.w(o)
            w.f = dict(enumerate(items))
        elif h.kind == 'frame':
            st.w(o).f.pop(k, None)


# ------------------------------------------------------------------ attributes

def get_attr(I, o, name, st, fr, n):
    if isinstance(o, Ext):
        p = o.path + '.' + name
        c = CONSTS.get(p)
        if c is not None:
            return [(st, c)]
        return [(st, Ext(p))]
    if isinstance(o, Func):
        if name == '__name__':
            return [(st, o.name)]
        return [(st, opaque('attr.' + name, [o]))]
    if isinstance(o, Ref):
        h = st.get(o)
        if h.kind == 'frame':
            return FR.frame_attr(I, o, name, st, fr, n)
        if h.kind == 'arr':
            return [(st, ExtMeth(name, o))]
        if h.kind in ('dict', 'list', 'set', 'iter') and not hasattr({'dict': dict, 'list': list, 'set': set}.get(h.kind, object), name) \
                and not (h.meta and h.meta.get('unknown')) and h.kind != 'iter':
            if not (h.meta and 'attrs' in h.meta):
                I.event('noattr', fr, n, "%s has no attribute '%s'" % (h.kind, name))
                I.raise_(st, 'AttributeError', fr, n, (name,))
                return []
        return [(st, ExtMeth(name, o))]
    if isinstance(o, Ser):
        if name in ('shape', 'size', 'ndim', 'dtype'):
            return [(st, opaque('.' + name, [P.sym('array')]))]
        if name == 'T':
            return [(st, o)]
        if name in ('values', 'loc', 'iloc', 'dt'):
            return [(st, o)]
        return [(st, ExtMeth(name, o))]
    if o is None:
        I.event('noattr', fr, n, "None has no attribute '%s'" % name)
        I.raise_(st, 'AttributeError', fr, n, (name,))
        return []
    if isinstance(o, (str, tuple)):
        if not hasattr(o, name):
            I.event('noattr', fr, n, "%s has no attribute '%s'" % (type(o).__name__, name))
            I.raise_(st, 'AttributeError', fr, n, (name,))
            return []
        return [(st, ExtMeth(name, o))]
    if isinstance(o, bool) or (isinstance(o, Poly) and o.is_const()):
        if not hasattr(1.0, name) and not hasattr(1, name):
            I.event('noattr', fr, n, "number has no attribute '%s'" % name)
            I.raise_(st, 'AttributeError', fr, n, (name,))
            return []
    if isinstance(o, Poly) and name in ('shape', 'ndim', 'dtype', 'columns', 'index', 'coords', 'dims',
                                        'hour', 'tz', 'tzinfo', 'filename', 'cfg', 'attrs', 'values', 'size'):
        return [(st, opaque('.' + name, [o]))]
    return [(st, ExtMeth(name, o))]


def set_attr(I, o, name, v, st, fr, n):
    if isinstance(o, Ref):
        h = st.get(o)
        if h.kind == 'frame':
            return FR.frame_setattr(I, o, name, v, st, fr, n)
    if I.on_write:
        I.on_write(st, o, name, v, fr, n)
    return [st]


PI = P.sym('pi')
CONSTS = {'numpy.pi': PI, 'math.pi': PI, 'math.inf': P.sym('inf'), 'numpy.inf': P.sym('inf'),
          'numpy.nan': P.sym('nan'), 'math.nan': P.sym('nan'), 'numpy.NaN': P.sym('nan'),
          'math.e': P.app('exp', P.ONE)}


# ------------------------------------------------------------------ calls

def num1(fn):
    def h(I, args, kw, st, fr, n):
        x = args[0]
        if isinstance(x, Ser):
            if isinstance(x.val, Poly):
                return [(st, Ser(fn(I, x.val, st), x.src))]
            return [(st, Ser(P.fresh('num'), x.src))]
        x = as_num(x)
        if isinstance(x, Poly):
            return [(st, fn(I, x, st))]
        if isinstance(x, Ref) and st.get(x).kind == 'arr':
            v = st.get(x).f.get('val')
            return [(st, Ser(fn(I, v, st) if isinstance(v, Poly) else P.fresh('num')))]
        return [(st, P.fresh('num'))]
    return h


def f_abs(I, x, st):
    s = st.facts.sign(x)
    if s in ('+', '0+', '0'):
        return x
    if s in ('-', '0-'):
        return -x
    # |x| = |-x|
    lead = max(x.t)
    if x.t[lead] < 0:
        x = -x
    return P.app('abs', x)


def f_exp(I, x, st):
    return P.exp(x)


def f_log(I, x, st):
    return P.log(x)


def f_cos(I, x, st):
    return P.app('cos', x)


def f_sqrt(I, x, st):
    return P.sqrt(x)


def simple(name):
    return lambda I, x, st: P.app(name, x)


def f_pow(I, args, kw, st, fr, n):
    return binop(I, ast.Pow(), args[0], args[1], st, fr, n)


def binary(cls):
    def h(I, args, kw, st, fr, n):
        return binop(I, cls(), args[0], args[1], st, fr, n)
    return h


def f_where(I, args, kw, st, fr, n):
    c, a, b = args[0], args[1], args[2]
    v = c.val if isinstance(c, Ser) else c
    src = c.src if isinstance(c, Ser) else None
    out = []
    if not isinstance(v, bool):
        r = I.truth(v, st, fr, n)
    else:
        r = [(st, v)]
    for s, t in r:
        x = a if t else b
        out.append((s, Ser(x.val if isinstance(x, Ser) else x, src)))
    return out


def minmax(I, args, kw, st, fr, n, op):
    """pairwise split"""
    items = args
    if len(args) == 1:
        items, st = iterate(I, args[0], st, fr, n)
        if items is None:
            return [(st, opaque('minmax', list(args)))]
    if not items:
        if 'default' in kw:
            return [(st, kw['default'])]
        I.raise_(st, 'ValueError', fr, n)
        return []
    cur = [(st, items[0])]
    for x in items[1:]:
        nx = []
        for s, m in cur:
            for s2, b in I.compare(op(), x, m, s, fr, n):
                if isinstance(b, Ser):
                    src = b.src
                    mv = m.val if isinstance(m, Ser) else m
                    xv = x.val if isinstance(x, Ser) else x
                    nx.append((s2, Ser(xv if b.val else mv, src)))
                else:
                    nx.append((s2, x if b else m))
        cur = nx
    return cur


def f_isinstance(I, args, kw, st, fr, n):
    v, t = args
    ts = list(t) if isinstance(t, tuple) else [t]
    res = None
    for x in ts:
        r = isinst(I, v, x, st)
        if r is True:
            return [(st, True)]
        if r is None:
            res = 'unk'
    if res is None:
        return [(st, False)]
    return I.split_opaque(('isinstance', vkey(v), tuple(vkey(x) for x in ts)), st)


def isinst(I, v, t, st):
    nm = t.path.rsplit('.', 1)[-1] if isinstance(t, Ext) else None
    if isinstance(v, str):
        return nm == 'str'
    if isinstance(v, bool):
        return nm in ('bool', 'int')
    if v is None:
        return False
    if isinstance(v, Poly):
        if v.is_const():
            return nm in ('float', 'int', 'Number', 'Real')
        return None
    if isinstance(v, tuple):
        return nm == 'tuple'
    if isinstance(v, Ser):
        return None
    if isinstance(v, Ref):
        h = st.get(v)
        if h.kind in ('list', 'dict', 'set'):
            return nm == h.kind
        if h.kind == 'obj':
            if isinstance(t, Ref):
                return t in I.mro(st, h.cls)
            return None if I.has_ext_base(st, h.cls) else False
        if h.kind == 'frame':
            return nm == 'DataFrame'
    return None


def f_getattr(I, args, kw, st, fr, n):
    o, name = args[0], args[1]
    if not isinstance(name, str):
        return [(st, opaque('getattr', [o, name]))]
    if len(args) == 3:
        I.exc.append([])
        ne = len(I.events)
        r = I.getattr(o, name, st.copy(), fr, n)
        ex = I.exc.pop()
        miss = [(s, e) for s, e in ex if e.name == 'AttributeError']
        I.exc[-1].extend((s, e) for s, e in ex if e.name != 'AttributeError')
        if miss:
            del I.events[ne:]
        return r + [(s, args[2]) for s, e in miss]
    return I.getattr(o, name, st, fr, n)


def f_setattr(I, args, kw, st, fr, n):
    o, name, v = args
    if not isinstance(name, str):
        if isinstance(o, Ref) and st.get(o).kind == 'obj':
            I.event('note', fr, n, 'setattr with an unknown name')
        if I.on_write:
            I.on_write(st, o, '<unknown>', v, fr, n)
        return [(st, None)]
    return [(s, None) for s in I.setattr(o, name, v, st, fr, n)]


def f_hasattr(I, args, kw, st, fr, n):
    o, name = args
    if isinstance(o, Ref) and isinstance(name, str) and st.get(o).kind == 'obj':
        h = st.get(o)
        cv, c = I.class_attr(st, h.cls, name)
        return [(st, name in h.f or c is not None)]
    return I.split_opaque(('hasattr', vkey(o), vkey(name)), st)


def f_len(I, args, kw, st, fr, n):
    v = args[0]
    if isinstance(v, (tuple, str)):
        return [(st, P.const(len(v)))]
    if isinstance(v, Ref):
        h = st.get(v)
        if h.kind in ('list', 'dict', 'set') and not (h.meta and h.meta.get('unknown')):
            return [(st, P.const(len(h.f)))]
        if h.kind == 'obj':
            m, c = I.class_attr(st, h.cls, '__len__')
            if isinstance(m, Func):
                return I.call(Bound(m, v), [], {}, st, fr, n)
    if isinstance(v, Ser) and isinstance(v.src, tuple) and v.src[0] == 'frame':
        return [(st, P.const(NROWS))]
    p = opaque('len', [v])
    st.assume(p, '>=')
    return [(st, p)]


def f_range(I, args, kw, st, fr, n):
    a = [as_num(x) for x in args]
    if not all(isinstance(x, Poly) for x in a):
        return [(st, opaque('range', a))]
    if len(a) == 1:
        return [(st, Range(P.ZERO, a[0], P.ONE))]
    if len(a) == 2:
        return [(st, Range(a[0], a[1], P.ONE))]
    return [(st, Range(a[0], a[1], a[2]))]


def mklist(st, items):
    return st.alloc(HObj('list', None, dict(enumerate(items))))


def unk_list(st, v=None):
    o = HObj('list', None, {}, {'unknown': True})
    if v is not None:
        o.f[0] = v
    return st.alloc(o)


def f_list(I, args, kw, st, fr, n):
    if not args:
        return [(st, mklist(st, []))]
    items, st = iterate(I, args[0], st, fr, n)
    if items is None:
        return [(st, unk_list(st, any_item(I, args[0], st, fr, n)))]
    return [(st, mklist(st, items))]


def f_tuple(I, args, kw, st, fr, n):
    if not args:
        return [(st, ())]
    items, st = iterate(I, args[0], st, fr, n)
    if items is None:
        return [(st, opaque('tuple', args))]
    return [(st, tuple(items))]


def f_set(I, args, kw, st, fr, n):
    items = []
    if args:
        items, st = iterate(I, args[0], st, fr, n)
        if items is None:
            return [(st, st.alloc(HObj('set', None, {}, {'unknown': True})))]
    return [(st, st.alloc(HObj('set', None, {vkey(x): x for x in items})))]


def f_dict(I, args, kw, st, fr, n):
    d = {}
    meta = None
    if args:
        a = args[0]
        if isinstance(a, Ref) and st.get(a).kind == 'dict':
            h = st.get(a)
            d.update(h.f)
            meta = dict(h.meta) if h.meta else None
        elif isinstance(a, Ref) and st.get(a).kind == 'obj' and not st.get(a).f:
            pass
        else:
            items, st = iterate(I, a, st, fr, n)
            if items is None:
                meta = {'unknown': True}
            else:
                for x in items:
                    if isinstance(x, tuple) and len(x) == 2:
                        d[vkey(x[0])] = x[1]
                    elif isinstance(x, Ref):
                        it, st = iterate(I, x, st, fr, n)
                        d[vkey(it[0])] = it[1]
    for k, v in kw.items():
        d[k] = v
    return [(st, st.alloc(HObj('dict', None, d, meta)))]


def f_sum(I, args, kw, st, fr, n):
    items, st = iterate(I, args[0], st, fr, n)
    if items is None:
        return [(st, opaque('sum', args))]
    cur = [(st, args[1] if len(args) > 1 else kw.get('start', P.ZERO))]
    for x in items:
        cur = [r for s, a in cur for r in binop(I, ast.Add(), a, x, s, fr, n)]
    return cur


def f_anyall(isany):
    def h(I, args, kw, st, fr, n):
        items, st = iterate(I, args[0], st, fr, n)
        if items is None:
            return I.split_opaque(('anyall', vkey(args[0])), st)
        out = []
        cur = [st]
        for x in items:
            nx = []
            for s in cur:
                for s2, b in I.truth(x, s, fr, n):
                    if b == isany:
                        out.append((s2, isany))
                    else:
                        nx.append(s2)
            cur = nx
        return out + [(s, not isany) for s in cur]
    return h


def f_zip(I, args, kw, st, fr, n):
    cols = []
    for a in args:
        items, st = iterate(I, a, st, fr, n)
        if items is None:
            return [(st, unk_list(st, tuple(any_item(I, x, st, fr, n) for x in args)))]
        cols.append(items)
    return [(st, mklist(st, list(zip(*cols))))]


def f_enumerate(I, args, kw, st, fr, n):
    items, st = iterate(I, args[0], st, fr, n)
    start = args[1] if len(args) > 1 else kw.get('start', P.ZERO)
    if items is None:
        return [(st, unk_list(st, (P.fresh('i'), any_item(I, args[0], st, fr, n))))]
    return [(st, mklist(st, [(start + P.const(i), x) for i, x in enumerate(items)]))]


def f_map(I, args, kw, st, fr, n):
    f = args[0]
    items, st = iterate(I, args[1], st, fr, n)
    if items is None:
        return [(st, unk_list(st))]
    rest = []
    for a in args[2:]:
        it, st = iterate(I, a, st, fr, n)
        rest.append(it)
    cur = [(st, [])]
    for i, x in enumerate(items):
        cur = [(s2, acc + [v]) for s, acc in cur
               for s2, v in I.call(f, [x] + [r[i] for r in rest], {}, s, fr, n)]
    return [(s, mklist(s, acc)) for s, acc in cur]


def f_filter(I, args, kw, st, fr, n):
    items, st = iterate(I, args[1], st, fr, n)
    if items is None:
        return [(st, unk_list(st))]
    cur = [(st, [])]
    for x in items:
        nx = []
        for s, acc in cur:
            if args[0] is None:
                r = [(s, x)]
            else:
                r = I.call(args[0], [x], {}, s, fr, n)
            for s2, v in r:
                for s3, b in I.truth(v, s2, fr, n):
                    nx.append((s3, acc + [x] if b else acc))
        cur = nx
    return [(s, mklist(s, acc)) for s, acc in cur]


def f_reversed(I, args, kw, st, fr, n):
    items, st = iterate(I, args[0], st, fr, n)
    if items is None:
        return [(st, unk_list(st, any_item(I, args[0], st, fr, n)))]
    return [(st, mklist(st, items[::-1]))]


def f_sorted(I, args, kw, st, fr, n):
    items, st = iterate(I, args[0], st, fr, n)
    if items is not None and all(isinstance(x, str) for x in items) and not kw:
        return [(st, mklist(st, sorted(items)))]
    if items is not None and all(isinstance(x, Poly) and x.is_const() for x in items) and 'key' not in kw:
        return [(st, mklist(st, sorted(items, key=lambda p: p.const(), reverse=kw.get('reverse') is True)))]
    return [(st, unk_list(st, any_item(I, args[0], st, fr, n)))]


def f_int(I, args, kw, st, fr, n):
    if not args:
        return [(st, P.ZERO)]
    v = as_num(args[0])
    if isinstance(v, Poly):
        if v.is_const():
            c = v.const()
            return [(st, P.const(int(c)))]
        if is_integer(st, v):
            return [(st, v)]
        return [(st, P.app('int', v))]
    return [(st, opaque('int', list(args)))]


def is_integer(st, v):
    """v is known to be a whole number"""
    v = st.facts.reduce(v)
    if all(c.denominator == 1 for c in v.t.values()) and \
            all(e > 0 and a in INTEGER for m in v.t for a, e in m):
        return True
    # a/b with b | a
    for at, z in st.facts.mp.items():
        d = P.ATOMS[at]
        if d[0] == 'a' and d[1] == 'mod' and not z.t:
            x, y = d[2]
            for b in mod_chain(st, y):
                if P.equal(v, P.div(x, b)):
                    return True
    return False


def mod_chain(st, y, depth=0):
    out = [y]
    if depth > 5:
        return out
    for at, z in st.facts.mp.items():
        d = P.ATOMS[at]
        if d[0] == 'a' and d[1] == 'mod' and not z.t and d[2][0] == y:
            out.extend(mod_chain(st, d[2][1], depth + 1))
    return out


def f_float(I, args, kw, st, fr, n):
    if not args:
        return [(st, P.ZERO)]
    v = as_num(args[0])
    if isinstance(v, (Poly, Ser)):
        return [(st, v)]
    if isinstance(v, str):
        try:
            x = float(v)
            if x in (float('inf'),):
                return [(st, P.sym('inf'))]
            return [(st, P.const(x))]
        except ValueError:
            pass
    return [(st, opaque('float', list(args)))]


def f_bool(I, args, kw, st, fr, n):
    if not args:
        return [(st, False)]
    return I.truth(args[0], st, fr, n)


def f_str(I, args, kw, st, fr, n):
    if not args:
        return [(st, '')]
    t = to_str(I, args[0], st)
    return [(st, t if t is not None else opaque('str', list(args)))]


def f_type(I, args, kw, st, fr, n):
    v = args[0]
    if isinstance(v, Ref) and st.get(v).kind == 'obj':
        return [(st, st.get(v).cls)]
    return [(st, opaque('type', [v]))]


def f_round(I, args, kw, st, fr, n):
    v = args[0]
    if isinstance(v, Poly) and v.is_const() and len(args) == 1:
        return [(st, P.const(round(v.const())))]
    if isinstance(v, Poly) and len(args) == 1 and is_integer(st, v):
        return [(st, v)]
    return [(st, opaque('round', list(args)))]


def f_noop(I, args, kw, st, fr, n):
    return [(st, None)]


def f_exit(I, args, kw, st, fr, n):
    I.raise_(st, 'SystemExit', fr, n, tuple(args))
    return []


def f_callable(I, args, kw, st, fr, n):
    v = args[0]
    return [(st, isinstance(v, (Func, Bound, Ext, ExtMeth)))]


def f_iter(I, args, kw, st, fr, n):
    v = args[0]
    if isinstance(v, Ref) and st.get(v).kind == 'iter':
        return [(st, v)]
    items, st = iterate(I, v, st, fr, n)
    if items is None:
        return [(st, v)]
    l = mklist(st, items)
    return [(st, st.alloc(HObj('iter', None, {'seq': l, 'pos': 0})))]


def f_next(I, args, kw, st, fr, n):
    v = args[0]
    if isinstance(v, Ref) and st.get(v).kind == 'iter':
        h = st.get(v)
        l = st.get(h.f['seq'])
        i = h.f['pos']
        if i < len(l.f):
            st.w(v).f['pos'] = i + 1
            return [(st, l.f[i])]
        if len(args) > 1:
            return [(st, args[1])]
        I.raise_(st, 'StopIteration', fr, n)
        return []
    if isinstance(v, Ref) and st.get(v).kind == 'list':
        h = st.get(v)       # generator objects are modelled as lists
        if h.f and not (h.meta and h.meta.get('unknown')):
            w = st.w(v)
            items = [w.f[i] for i in range(len(w.f))]
            w.f = dict(enumerate(items[1:]))
            return [(st, items[0])]
    return [(st, opaque('next', [v]))]


def f_timedelta(I, args, kw, st, fr, n):
    x = as_num(args[0]) if args else P.ZERO if not kw else None
    unit = args[1] if len(args) > 1 else kw.get('unit')
    if isinstance(x, Poly):
        k = {'min': 60, 'm': 60, 'T': 60, 'minute': 60, 'minutes': 60, 's': 1, 'sec': 1, 'S': 1, 'second': 1,
             'seconds': 1, 'h': 3600, 'hour': 3600, 'hours': 3600, 'H': 3600, 'd': 86400, 'D': 86400,
             'days': 86400, 'ms': Fr(1, 1000), 'ns': Fr(1, 10 ** 9), None: Fr(1, 10 ** 9)}.get(unit)
        if k is not None:
            return [(st, x.scale(Fr(k)))]
    if kw and not args:
        r = P.ZERO
        for u, v in kw.items():
            k = {'minutes': 60, 'seconds': 1, 'hours': 3600, 'days': 86400, 'weeks': 604800, 'milliseconds': Fr(1, 1000),
                 'microseconds': Fr(1, 10 ** 6)}.get(u)
            if isinstance(v, bool):
                v = P.const(int(v))
            if k is None or not isinstance(v, Poly):
                return [(st, opaque('timedelta', list(args) + list(kw.values())))]
            r = r + v.scale(Fr(k))
        return [(st, r)]
    return [(st, opaque('timedelta', list(args) + list(kw.values())))]


def f_dt_timedelta(I, args, kw, st, fr, n):
    """datetime.timedelta: days, seconds, microseconds, milliseconds, minutes, hours, weeks"""
    kw = dict(kw)
    kw.update(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), map(as_num, args)))
    return f_timedelta(I, [], kw, st, fr, n)


def f_empty(I, args, kw, st, fr, n):
    return [(st, Ser(P.fresh('uninit')))]


def f_fill(val):
    def h(I, args, kw, st, fr, n):
        return [(st, Ser(val))]
    return h


def f_copy(I, args, kw, st, fr, n):
    v = args[0]
    if isinstance(v, Ref):
        h = st.get(v)
        o = h.copy()
        if o.meta and 'alias' in o.meta:
            o.meta = None
        return [(st, st.alloc(o))]
    if isinstance(v, Ser):
        return [(st, Ser(v.val, v.src))]
    return [(st, v)]


def f_deepcopy(I, args, kw, st, fr, n):
    def dc(v, memo):
        if isinstance(v, Ref):
            h = st.get(v)
            if h.kind in ('cls', 'mod', 'env'):
                return v
            if v.id in memo:
                return memo[v.id]
            o = h.copy()
            r = st.alloc(o)
            memo[v.id] = r
            o.f = {k: dc(x, memo) for k, x in o.f.items()}
            return r
        if isinstance(v, tuple):
            return tuple(dc(x, memo) for x in v)
        return v
    return [(st, dc(args[0], {}))]


def f_ident(I, args, kw, st, fr, n):
    return [(st, args[0] if args else None)]


def f_vars(I, args, kw, st, fr, n):
    if args and isinstance(args[0], Ref):
        if st.get(args[0]).kind == 'obj':
            return [(st, I.attr_dict(args[0], st))]
        return [(st, st.alloc(HObj('dict', None, dict(st.get(args[0]).f))))]
    return [(st, st.alloc(HObj('dict', None, {}, {'unknown': True})))]


def f_clip(I, args, kw, st, fr, n):
    cur = [(st, args[0])]
    lo = args[1] if len(args) > 1 else kw.get('a_min')
    hi = args[2] if len(args) > 2 else kw.get('a_max')
    if lo is not None:
        cur = [r for s, v in cur for r in minmax(I, [v, lo], {}, s, fr, n, ast.Gt)]
    if hi is not None:
        cur = [r for s, v in cur for r in minmax(I, [v, hi], {}, s, fr, n, ast.Lt)]
    return cur


def f_isclose(I, args, kw, st, fr, n):
    return I.split_opaque(('isclose', vkey(args[0]), vkey(args[1])), st)


def f_partial(I, args, kw, st, fr, n):
    return [(st, ExtMeth('__partial__', (args[0], tuple(args[1:]), tuple(kw.items()))))]


def f_itemgetter(I, args, kw, st, fr, n):
    return [(st, opaque('itemgetter', args))]


def f_object(I, args, kw, st, fr, n):
    return [(st, opaque('object', [P.fresh('o')]))]


TABLE = {}


def reg(names, h):
    for x in names.split():
        TABLE[x] = h


def f_timestamp(I, args, kw, st, fr, n):
    kw = dict(kw)
    tz = kw.pop('tz', kw.pop('tzinfo', None))
    if len(args) != 1 or kw:
        return [(st, opaque('call:pandas.Timestamp', list(args) + [x for kv in kw.items() for x in kv]))]
    r = opaque('call:pandas.to_datetime', args)
    return [(st, r if tz is None else opaque('.tz_localize', [r, tz]))]


def f_npsum(I, args, kw, st, fr, n):
    v = args[0]
    if len(args) > 1 or kw or not (isinstance(v, tuple) or isinstance(v, Ref) and st.get(v).kind in ('list', 'set', 'iter')):
        return [(st, opaque('sum', args))]
    return f_sum(I, args, kw, st, fr, n)


def f_mean(I, args, kw, st, fr, n):
    v = args[0]
    if len(args) > 1 or kw or not (isinstance(v, tuple) or isinstance(v, Ref) and st.get(v).kind in ('list', 'iter')):
        return [(st, opaque('mean', args))]
    items, st = iterate(I, v, st, fr, n)
    if not items:
        return [(st, opaque('mean', args))]
    return [r for s, t in f_sum(I, [tuple(items)], {}, st, fr, n) for r in binop(I, ast.Div(), t, P.const(len(items)), s, fr, n)]


def f_prod(I, args, kw, st, fr, n):
    v = args[0]
    if len(args) > 1 or set(kw) - {'start'} or isinstance(v, Ser):
        return [(st, opaque('prod', args))]
    items, st = iterate(I, v, st, fr, n)
    if items is None:
        return [(st, opaque('prod', args))]
    cur = [(st, kw.get('start', P.ONE))]
    for x in items:
        cur = [r for s, a in cur for r in binop(I, ast.Mult(), a, x, s, fr, n)]
    return cur


def f_reduce(I, args, kw, st, fr, n):
    items, st = iterate(I, args[1], st, fr, n)
    if items is None:
        return [(st, opaque('reduce', args))]
    items = list(args[2:3]) + list(items)
    if not items:
        I.raise_(st, 'TypeError', fr, n)
        return []
    cur = [(st, items[0])]
    for x in items[1:]:
        cur = [r for s, a in cur for r in I.call(args[0], [a, x], {}, s, fr, n)]
    return cur


def f_chain(I, args, kw, st, fr, n):
    out = []
    for a in args:
        items, st = iterate(I, a, st, fr, n)
        if items is None:
            return [(st, unk_list(st))]
        out.extend(items)
    return [(st, mklist(st, out))]


def comparison(op):
    def h(I, args, kw, st, fr, n):
        return I.compare(op(), args[0], args[1], st, fr, n)
    return h


def f_neg(I, args, kw, st, fr, n):
    return binop(I, ast.Sub(), P.ZERO, args[0], st, fr, n)


def f_not(I, args, kw, st, fr, n):
    if isinstance(args[0], Ser):
        return [(st, opaque('not', args))]
    return [(s, not b) for s, b in I.truth(args[0], st, fr, n)]


def logical(isand):
    def h(I, args, kw, st, fr, n):
        if isinstance(args[0], Ser) or isinstance(args[1], Ser):
            return binop(I, ast.BitAnd() if isand else ast.BitOr(), args[0], args[1], st, fr, n)
        out = []
        for s, b in I.truth(args[0], st, fr, n):
            if b != isand:
                out.append((s, b))
            else:
                out.extend(I.truth(args[1], s, fr, n))
        return out
    return h


def f_getter(kind):
    def h(I, args, kw, st, fr, n):
        return [(st, ExtMeth('__getter__', (kind, tuple(args))))]
    return h


def call_getter(I, o, args, st, fr, n):
    kind, names = o
    cur = [(st, [])]
    for k in names:
        nx = []
        for s, acc in cur:
            if kind == 'attr':
                vs = [(s, args[0])]
                for part in k.split('.'):
                    vs = [r for s2, x in vs for r in I.getattr(x, part, s2, fr, n)]
            else:
                vs = get_item(I, args[0], k, s, fr, n)
            nx.extend((s2, acc + [v]) for s2, v in vs)
        cur = nx
    return [(s, acc[0] if len(names) == 1 else tuple(acc)) for s, acc in cur]


def f_format(I, args, kw, st, fr, n):
    r = numfmt(args[1], '', args[:1]) if len(args) == 2 else None
    return [(st, r if r is not None else opaque('fmt', list(args)))]


reg('builtins.format', f_format)
reg('math.exp numpy.exp', num1(f_exp))
reg('math.log numpy.log', num1(f_log))
reg('math.log10 numpy.log10', num1(lambda I, x, st: P.div(P.log(x), P.log(P.const(10)))))
reg('math.sqrt numpy.sqrt', num1(f_sqrt))
reg('math.cos numpy.cos', num1(f_cos))
reg('math.sin numpy.sin', num1(simple('sin')))
reg('math.tan numpy.tan', num1(simple('tan')))
reg('math.atan numpy.arctan', num1(simple('atan')))
reg('math.tanh numpy.tanh', num1(simple('tanh')))
reg('math.floor numpy.floor', num1(simple('floor')))
reg('math.ceil numpy.ceil', num1(simple('ceil')))
reg('math.fabs numpy.abs numpy.absolute numpy.fabs builtins.abs', num1(f_abs))
reg('numpy.square', num1(lambda I, x, st: x * x))
reg('math.pow numpy.power builtins.pow numpy.float_power operator.pow', f_pow)
reg('numpy.add operator.add', binary(ast.Add))
reg('numpy.subtract operator.sub', binary(ast.Sub))
reg('numpy.multiply operator.mul', binary(ast.Mult))
reg('numpy.divide numpy.true_divide operator.truediv', binary(ast.Div))
reg('operator.mod numpy.mod math.fmod', binary(ast.Mod))
reg('numpy.where xarray.where', f_where)
reg('builtins.min', lambda I, a, k, s, f, n: minmax(I, a, k, s, f, n, ast.Lt))
reg('builtins.max', lambda I, a, k, s, f, n: minmax(I, a, k, s, f, n, ast.Gt))
reg('numpy.minimum numpy.fmin', lambda I, a, k, s, f, n: minmax(I, a, k, s, f, n, ast.Lt))
reg('numpy.maximum numpy.fmax', lambda I, a, k, s, f, n: minmax(I, a, k, s, f, n, ast.Gt))
reg('numpy.clip', f_clip)
reg('builtins.isinstance', f_isinstance)
reg('builtins.getattr', f_getattr)
reg('builtins.setattr', f_setattr)
reg('builtins.hasattr', f_hasattr)
reg('builtins.len', f_len)
reg('builtins.range', f_range)
reg('builtins.list', f_list)
reg('builtins.tuple', f_tuple)
reg('builtins.set builtins.frozenset', f_set)
reg('builtins.dict collections.OrderedDict', f_dict)
reg('builtins.sum math.fsum', f_sum)
reg('numpy.sum', f_npsum)
reg('numpy.mean numpy.average statistics.mean statistics.fmean', f_mean)
reg('math.prod numpy.prod', f_prod)
reg('functools.reduce', f_reduce)
reg('itertools.chain', f_chain)
reg('operator.neg numpy.negative', f_neg)
reg('operator.not_ numpy.logical_not', f_not)
reg('numpy.logical_and', logical(True))
reg('numpy.logical_or', logical(False))
for _n, _m, _o in (('lt', 'less', ast.Lt), ('le', 'less_equal', ast.LtE), ('gt', 'greater', ast.Gt), ('ge', 'greater_equal', ast.GtE),
                   ('eq', 'equal', ast.Eq), ('ne', 'not_equal', ast.NotEq)):
    reg('operator.%s numpy.%s' % (_n, _m), comparison(_o))
reg('numpy.cbrt math.cbrt', lambda I, a, k, s, f, n: f_pow(I, [a[0], P.const(Fr(1, 3))], {}, s, f, n))
reg('builtins.any', f_anyall(True))
reg('builtins.all', f_anyall(False))
reg('builtins.zip', f_zip)
reg('builtins.enumerate', f_enumerate)
reg('builtins.map', f_map)
reg('builtins.filter', f_filter)
reg('builtins.reversed', f_reversed)
reg('builtins.sorted', f_sorted)
reg('builtins.int numpy.int64 numpy.int32', f_int)
reg('builtins.float numpy.float64 numpy.asarray numpy.array numpy.atleast_1d numpy.asfarray', f_float)
reg('builtins.bool', f_bool)
reg('builtins.str builtins.repr', f_str)
reg('builtins.type', f_type)
reg('builtins.round', f_round)
reg('builtins.print warnings.warn warnings.simplefilter warnings.filterwarnings builtins.object.__init__', f_noop)
reg('sys.exit builtins.exit builtins.quit os._exit', f_exit)
reg('builtins.callable', f_callable)
reg('builtins.iter', f_iter)
reg('builtins.next', f_next)
reg('builtins.vars', f_vars)
reg('pandas.to_timedelta pandas.Timedelta', f_timedelta)
reg('datetime.timedelta', f_dt_timedelta)
reg('numpy.empty numpy.empty_like', f_empty)
reg('numpy.zeros numpy.zeros_like', f_fill(P.ZERO))
reg('numpy.ones numpy.ones_like', f_fill(P.ONE))
reg('copy.copy', f_copy)
reg('copy.deepcopy', f_deepcopy)
reg('numpy.isclose math.isclose', f_isclose)
reg('pandas.Timestamp', f_timestamp)
reg('functools.partial', f_partial)
reg('operator.itemgetter', f_getter('item'))
reg('operator.attrgetter', f_getter('attr'))

PURE_PREFIX = ('math.', 'numpy.', 'os.path.', 'operator.', 'itertools.', 'pandas.', 'xarray.')


def call(I, f, args, kwargs, st, fr, n):
    if isinstance(f, Ext):
        h = I.ext_table.get(f.path) if getattr(I, 'ext_table', None) else None
        if h is not None:
            r = h(I, args, kwargs, st, fr, n)
            if r is not NotImplemented:
                return r
        h = TABLE.get(f.path)
        if h is not None:
            return h(I, args, kwargs, st, fr, n)
        nm = f.path.rsplit('.', 1)[-1]
        if nm in I.EXC_PARENTS or nm.endswith('Error') or nm.endswith('Exception') or nm.endswith('Warning'):
            return [(st, ExcVal(nm, (fr.file, n.lineno, fr.qual), tuple(args)))]
        return [(st, opaque('call:' + f.path, list(args) + [x for kv in kwargs.items() for x in kv]))]
    if isinstance(f, ExtMeth):
        return call_method(I, f.self, f.name, args, kwargs, st, fr, n)
    if f is None or isinstance(f, (bool, str)) or (isinstance(f, Poly) and f.is_const()):
        I.event('type', fr, n, 'value is not callable')
        I.raise_(st, 'TypeError', fr, n)
        return []
    return [(st, opaque('callv', [f] + list(args) + [x for kv in kwargs.items() for x in kv]))]


def call_method(I, o, name, args, kw, st, fr, n):
    if name == '__partial__':
        f, a, k = o
        kk = dict(k)
        kk.update(kw)
        return I.call(f, list(a) + list(args), kk, st, fr, n)
    if name in ('tz_localize', 'tz_convert') and not args and set(kw) == {'tz'}:
        args, kw = [kw['tz']], {}
    if name == '__getter__':
        return call_getter(I, o, args, st, fr, n)
    if isinstance(o, str):
        return str_method(I, o, name, args, kw, st, fr, n)
    if isinstance(o, tuple):
        if name == 'index' and all(not isinstance(x, Poly) or x.is_const() for x in o):
            if args[0] in o:
                return [(st, P.const(o.index(args[0])))]
        return [(st, opaque('.' + name, [o] + list(args)))]
    if isinstance(o, Ref):
        h = st.get(o)
        if h.kind == 'dict':
            return dict_method(I, o, name, args, kw, st, fr, n)
        if h.kind == 'list':
            return list_method(I, o, name, args, kw, st, fr, n)
        if h.kind == 'set':
            if name == 'add':
                st.w(o).f[vkey(args[0])] = args[0]
                return [(st, None)]
            if name in ('union', '__or__'):
                d = dict(h.f)
                for a in args:
                    items, st = iterate(I, a, st, fr, n)
                    for x in items or []:
                        d[vkey(x)] = x
                return [(st, st.alloc(HObj('set', None, d)))]
            return [(st, opaque('.' + name, [o] + list(args)))]
        if h.kind in ('frame', 'loc'):
            return FR.frame_method(I, o, name, args, kw, st, fr, n)
        return [(st, opaque('.' + name, [o] + list(args)))]
    if isinstance(o, Ser):
        return FR.ser_method(I, o, name, args, kw, st, fr, n)
    if isinstance(o, Poly):
        if name in ('copy', 'item', 'to_pydatetime', '__float__', 'squeeze'):
            return [(st, o)]
        if name == 'total_seconds':
            return [(st, o)]
        h = I.ext_table.get('.' + name) if getattr(I, 'ext_table', None) else None
        if h is not None:
            r = h(I, [o] + list(args), kw, st, fr, n)
            if r is not NotImplemented:
                return r
        return [(st, opaque('.' + name, [o] + list(args) + [x for kv in kw.items() for x in kv]))]
    return [(st, opaque('.' + name, [o] + list(args)))]


def str_method(I, o, name, args, kw, st, fr, n):
    if name in ('__mod__', '__add__') and len(args) == 1:
        return I.binop(ast.Mod() if name == '__mod__' else ast.Add(), o, args[0], st, fr, n)
    if name == 'format':
        a = [to_str(I, x, st) for x in args]
        k = {x: to_str(I, v, st) for x, v in kw.items()}
        if all(x is not None for x in a) and all(v is not None for v in k.values()):
            try:
                return [(st, o.format(*a, **k))]
            except (IndexError, KeyError, ValueError):
                pass
        r = numfmt(o, '{', args) if not kw else None
        if r is not None:
            return [(st, r)]
        # arity of the format string
        import string
        try:
            auto = 0
            mx = -1
            for lit, fld, spec, conv in string.Formatter().parse(o):
                if fld is None:
                    continue
                head = fld.split('.')[0].split('[')[0]
                if head == '':
                    mx = max(mx, auto)
                    auto += 1
                elif head.isdigit():
                    mx = max(mx, int(head))
                elif head not in kw and '**' not in kw:
                    I.event('arity', fr, n, 'format field %r not given' % head)
                    I.raise_(st, 'KeyError', fr, n)
                    return []
            if mx >= len(args):
                I.event('arity', fr, n, 'format string needs %d values, %d given' % (mx + 1, len(args)))
                I.raise_(st, 'IndexError', fr, n)
                return []
        except ValueError:
            pass
        return [(st, opaque('fmt', [o] + list(args) + list(kw.values())))]
    if name == 'join':
        items, st = iterate(I, args[0], st, fr, n)
        if items is not None and all(isinstance(x, str) for x in items):
            return [(st, o.join(items))]
        return [(st, opaque('join', [o]))]
    if all(isinstance(a, (str, tuple)) or (isinstance(a, Poly) and a.is_const()) for a in args):
        try:
            a2 = [int(a.const()) if isinstance(a, Poly) else a for a in args]
            r = getattr(o, name)(*a2)
        except Exception:
            return [(st, opaque('.' + name, [o] + list(args)))]
        if isinstance(r, list):
            return [(st, mklist(st, r))]
        if isinstance(r, bool) or isinstance(r, (str, tuple)):
            return [(st, r)]
        if isinstance(r, int):
            return [(st, P.const(r))]
    return [(st, opaque('.' + name, [o] + list(args)))]


def dict_method(I, o, name, args, kw, st, fr, n):
    h = st.get(o)
    unk = h.meta and h.meta.get('unknown')
    opn = h.meta and 'open' in h.meta
    if name in ('get', 'setdefault', 'pop'):
        k = vkey(args[0])
        dflt = args[1] if len(args) > 1 else kw.get('default')
        if isinstance(k, Poly) and not k.is_const():
            k = vkey(st.facts.reduce(k))
        if k in h.f:
            v = h.f[k]
            if name == 'pop':
                st.w(o).f.pop(k)
            return [(st, v)]
        if opn:
            v = h.meta['open'](st, k)
            if v is not None:
                if name != 'pop':
                    st.w(o).f[k] = v
                return [(st, v)]
            if name == 'setdefault':
                st.w(o).f[k] = dflt
            return [(st, dflt)]
        if unk:
            p = opaque('key', [o, k])
            MAYBE_NONE.add(p)
            return [(st, p)]
        if name == 'setdefault':
            st.w(o).f[k] = dflt
            return [(st, dflt)]
        if name == 'pop' and len(args) < 2:
            I.raise_(st, 'KeyError', fr, n)
            return []
        return [(st, dflt)]
    if name in ('keys', 'items', 'values'):
        if opn and h.meta.get('keys'):
            for k in h.meta['keys']:
                if k not in st.get(o).f:
                    v = h.meta['open'](st, k)
                    st.w(o).f[k] = v
            h = st.get(o)
        if unk:
            return [(st, unk_list(st, (P.fresh('k'), P.fresh('v')) if name == 'items' else P.fresh('k')))]
        if name == 'keys':
            return [(st, mklist(st, list(h.f)))]
        if name == 'values':
            return [(st, mklist(st, list(h.f.values())))]
        return [(st, mklist(st, list(h.f.items())))]
    if name == 'update':
        before = dict(h.f)
        w = st.w(o)
        if args:
            a = args[0]
            pairs = dict_items(I, a, st)
            if pairs is None:
                items, st = iterate(I, a, st, fr, n)
                pairs = items if items is not None else []
                if items is None:
                    w.meta = dict(w.meta or {}, unknown=True)
            for k, v in pairs:
                w.f[k] = v
                w.sites[k] = (fr.file, n.lineno, fr.qual)
        for k, v in kw.items():
            w.f[k] = v
            w.sites[k] = (fr.file, n.lineno, fr.qual)
        if I.on_write:
            I.on_write(st, o, '<update>', None, fr, n)
        if h.meta and 'alias' in h.meta:
            for k, v in list(st.get(o).f.items()):
                if isinstance(k, str) and (k not in before or v is not before[k]):
                    I.raw_set(h.meta['alias'], k, v, st, fr, n)
        return [(st, None)]
    if name == 'copy':
        o = h.copy()
        if o.meta and 'alias' in o.meta:
            o.meta = None
        return [(st, st.alloc(o))]
    if name == 'clear':
        st.w(o).f = {}
        return [(st, None)]
    return [(st, opaque('.' + name, [o] + list(args)))]


def list_method(I, o, name, args, kw, st, fr, n):
    h = st.get(o)
    unk = h.meta and h.meta.get('unknown')
    if name == 'append':
        w = st.w(o)
        w.f[len(w.f)] = args[0]
        if I.on_write:
            I.on_write(st, o, '<append>', args[0], fr, n)
        return [(st, None)]
    if name == 'extend':
        items, st = iterate(I, args[0], st, fr, n)
        w = st.w(o)
        if items is None:
            w.meta = {'unknown': True}
        else:
            for x in items:
                w.f[len(w.f)] = x
        return [(st, None)]
    if name == 'insert' and isinstance(args[0], Poly) and args[0].is_const():
        items = [h.f[i] for i in range(len(h.f))]
        items.insert(int(args[0].const()), args[1])
        st.w(o).f = dict(enumerate(items))
        return [(st, None)]
    if name == 'pop' and not unk:
        items = [h.f[i] for i in range(len(h.f))]
        i = int(args[0].const()) if args and isinstance(args[0], Poly) and args[0].is_const() else -1
        if not items:
            I.raise_(st, 'IndexError', fr, n)
            return []
        v = items.pop(i)
        st.w(o).f = dict(enumerate(items))
        return [(st, v)]
    if name == 'copy':
        return [(st, st.alloc(h.copy()))]
    if name == 'reverse' and not unk:
        items = [h.f[i] for i in range(len(h.f))][::-1]
        st.w(o).f = dict(enumerate(items))
        return [(st, None)]
    if name == 'clear':
        st.w(o).f = {}
        return [(st, None)]
    if name == 'index' and not unk:
        for i in range(len(h.f)):
            if h.f[i] == args[0]:
                return [(st, P.const(i))]
    return [(st, opaque('.' + name, [o] + list(args)))]


from . import frames as FR     # noqa: E402
FR.register(reg)
