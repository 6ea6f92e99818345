"""Algebraic value numbers: Laurent polynomials with rational coefficients over
interned atoms.  An atom is a free symbol, the application of an uninterpreted
or transcendental function, or (for division) a multi-term sum."""
import functools
from fractions import Fraction as Fr
from decimal import Decimal

ATOMS = []            # id -> ('s', name) | ('a', fname, args) | ('p', Poly)
_INTERN = {}
LABELS = []           # id -> frozenset of provenance labels
_ZERO = Fr(0)
_ONE = Fr(1)

MAXTERMS = 4000


class TooBig(Exception):
    pass


def _atom(key, labels):
    i = _INTERN.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        LABELS.append(labels)
        _INTERN[key] = i
    return i


_fresh = [0]


class Poly(object):
    __slots__ = ('t', '_h', '_lab')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._lab = None

    # -- basics
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise TypeError('truth of Poly')

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), _ZERO)

    # -- arithmetic
    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        if len(r) > MAXTERMS:
            raise TooBig()
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return ZERO
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        if len(self.t) * len(o.t) > MAXTERMS * 4:
            raise TooBig()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        p = Poly(r)
        if len(r) > 1:
            p = cancel_p(p)
        return expand_p(p)

    def labels(self):
        if self._lab is None:
            s = frozenset()
            for m in self.t:
                for a, e in m:
                    s = s | LABELS[a]
            self._lab = s
        return self._lab

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s


_MM = {}


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = _MM.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2:
            v = d.get(a, 0) + e
            if v:
                d[a] = v
            else:
                del d[a]
        r = tuple(sorted(d.items()))
        if len(_MM) > 400000:
            _MM.clear()
        _MM[k] = r
    return r


def minv(m):
    return tuple((a, -e) for a, e in m)


ZERO = Poly({})
ONE = Poly({(): _ONE})


def const(c):
    if not isinstance(c, Fr):
        c = num_fraction(c)
    return Poly({(): c}) if c else ZERO


def num_fraction(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        return Fr(c)
    if isinstance(c, float):
        return Fr(Decimal(repr(c)))
    return Fr(c)


def from_atom(a, e=1):
    return Poly({((a, e),): _ONE})


def sym(name, labels=()):
    return from_atom(_atom(('s', name), frozenset(labels)))


def fresh(prefix='v', labels=()):
    _fresh[0] += 1
    return sym('%s#%d' % (prefix, _fresh[0]), labels)


def app_atom(fname, args):
    lab = frozenset()
    for a in args:
        if isinstance(a, Poly):
            lab = lab | a.labels()
    return _atom(('a', fname, tuple(args)), lab)


def app(fname, *args):
    return from_atom(app_atom(fname, args))


def has_p(p):
    for m in p.t:
        for a, e in m:
            if ATOMS[a][0] == 'p':
                return True
    return False


_CANCEL = {}


def cancel_p(p):
    """cancel inverse sums against numerators they divide"""
    inv = None
    for m in p.t:
        for a, e in m:
            if e < 0 and ATOMS[a][0] == 'p':
                inv = inv or {}
                if inv.get(a, 0) > e:
                    inv[a] = e
    if inv is None:
        return p
    r = _CANCEL.get(p)
    if r is not None:
        return r
    if len(_CANCEL) > 50000:
        _CANCEL.clear()
    r = p
    for a, e in inv.items():
        s = ATOMS[a][1]
        part = {}
        rest = {}
        for m, c in r.t.items():
            k = next((x for b, x in m if b == a), 0)
            if k == e:
                part[tuple(y for y in m if y[0] != a)] = c
            else:
                rest[m] = c
        if len(part) < len(s.t) or len(part) > 80:
            continue
        m, c, g = content(Poly(part))
        if len(g.t) < len(s.t):
            continue
        q = exact_div(g, s)
        if q is None:
            continue
        back = {mmul(mmul(k, m), ((a, e + 1),)) if e < -1 else mmul(k, m): v * c for k, v in q.t.items()}
        for k, v in rest.items():
            v = v + back.pop(k, _ZERO)
            if v:
                back[k] = v
        r = Poly(back)
    _CANCEL[p] = r
    return r


def expand_p(p):
    """expand positive powers of sums"""
    need = False
    for m in p.t:
        for a, e in m:
            if e > 0 and ATOMS[a][0] == 'p':
                need = True
    if not need:
        return p
    out = ZERO
    for m, c in p.t.items():
        rest = []
        facs = []
        for a, e in m:
            if e > 0 and ATOMS[a][0] == 'p' and e <= 6:
                facs.append((ATOMS[a][1], e))
            else:
                rest.append((a, e))
        q = Poly({tuple(rest): c})
        for f, e in facs:
            for _ in range(e):
                q = q * f
        out = out + q
    return out


def content(p):
    """(monomial, leading coefficient, rest) with p = c*m*rest, rest having
    nonneg exponents with gcd 1 and a canonical leading coefficient 1"""
    mins = {}
    n = 0
    for m in p.t:
        d = dict(m)
        if n == 0:
            mins = dict(d)
        else:
            for a in list(mins):
                v = d.get(a, 0)
                if v < mins[a]:
                    mins[a] = v
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
        n += 1
        # atoms absent in an earlier monomial
    # atoms not present in every monomial: min exponent is min(e, 0)
    res = {}
    for a in mins:
        lo = None
        for m in p.t:
            e = 0
            for b, x in m:
                if b == a:
                    e = x
                    break
            if lo is None or e < lo:
                lo = e
        if lo:
            res[a] = lo
    m = tuple(sorted(res.items()))
    if m:
        im = minv(m)
        rest = {mmul(k, im): c for k, c in p.t.items()}
    else:
        rest = p.t
    lead = max(rest)
    c = rest[lead]
    return m, c, Poly({k: v / c for k, v in rest.items()})


_DIV = {}


def div(p, q):
    if q.is_const():
        c = q.const()
        if not c:
            return None
        return p.scale(1 / c)
    if not p.t:
        return ZERO
    if len(q.t) == 1:
        (m, c), = q.t.items()
        return p * Poly({minv(m): 1 / c})
    k = (p, q)
    r = _DIV.get(k)
    if r is None:
        r = _div(p, q)
        if len(_DIV) > 100000:
            _DIV.clear()
        _DIV[k] = r
    return r


def _div(p, q):
    m, c, s = content(q)
    pm, pc, ps = content(p)
    mono = Poly({mmul(pm, minv(m)): pc / c})
    if ps == s:
        return mono
    if len(ps.t) >= len(s.t):
        e = exact_div(ps, s)
        if e is not None:
            return mono * e
    f = separate(s)
    if f is not None:
        return mono * div(div(ps, f[0]), f[1])
    pa = _atom(('p', s), s.labels())
    return mono * ps * from_atom(pa, -1)


_SEP = {}


def separate(p):
    """(g, h) with p = g*h, g free of some atom and h a polynomial in that atom only, or None"""
    if p in _SEP:
        return _SEP[p]
    r = None
    if 4 <= len(p.t) <= 80:
        for a in sorted(p.atoms()):
            if ATOMS[a][0] == 'p':
                continue
            co = {}
            for m, c in p.t.items():
                e = 0
                rest = m
                for b, x in m:
                    if b == a:
                        e = x
                        rest = tuple(y for y in m if y[0] != a)
                        break
                co.setdefault(e, {})[rest] = c
            if len(co) < 2:
                continue
            ks = sorted(co)
            if ks[0] < 0:
                continue
            g = co[ks[0]]
            if len(g) < 2 or any(len(co[k]) != len(g) for k in ks):
                continue
            m0 = next(iter(g))
            h = {}
            ok = True
            for k in ks:
                c = co[k]
                if m0 not in c:
                    ok = False
                    break
                f = c[m0] / g[m0]
                if any(c.get(m) != f * v for m, v in g.items()):
                    ok = False
                    break
                h[((a, k),) if k else ()] = f
            if ok:
                r = (Poly(g), Poly(h))
                break
    if len(_SEP) > 100000:
        _SEP.clear()
    _SEP[p] = r
    return r


def exact_div(p, q, limit=200):
    """p/q if the division of the polynomials is exact, else None"""
    if has_p(q):
        return None
    aq = q.atoms()
    if not aq <= p.atoms():
        return None
    lm = max(q.t, key=_grade)
    lc = q.t[lm]
    r = dict(p.t)
    out = {}
    steps = 0
    while r:
        steps += 1
        if steps > limit:
            return None
        m = max(r, key=_grade)
        d = mmul(m, minv(lm))
        if any(e < 0 and ATOMS[a][0] != 'p' for a, e in d):
            if any(e < 0 for a, e in d):
                return None
        c = r[m] / lc
        out[d] = out.get(d, _ZERO) + c
        for k, v in q.t.items():
            mm = mmul(k, d)
            x = r.get(mm, _ZERO) - c * v
            if x:
                r[mm] = x
            else:
                r.pop(mm, None)
    return Poly({k: v for k, v in out.items() if v})


def _cmp(x, y):
    """lexicographic order by atom id on exponents: compatible with multiplication"""
    a, b = dict(x), dict(y)
    for k in sorted(set(a) | set(b)):
        u, v = a.get(k, 0), b.get(k, 0)
        if u != v:
            return -1 if u < v else 1
    return 0


_grade = functools.cmp_to_key(_cmp)


def clear_denoms(p):
    """(p', [(P-atom, power)]) with p = p' / prod(P^power), p' without negative P powers"""
    mins = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and ATOMS[a][0] == 'p':
                if e < mins.get(a, 0):
                    mins[a] = e
    if not mins:
        return p, []
    m = tuple(sorted((a, -e) for a, e in mins.items()))
    q = Poly({mmul(k, m): c for k, c in p.t.items()})
    q = expand_p(q)
    dens = [(a, -e) for a, e in sorted(mins.items())]
    # expansion may reveal nested denominators
    q2, d2 = clear_denoms(q)
    return q2, dens + d2


_ZT = {}


def is_zero(p):
    if not p.t:
        return True
    if not has_p(p):
        return False
    r = _ZT.get(p)
    if r is None:
        try:
            q, _ = clear_denoms(p)
            r = not q.t
        except TooBig:
            r = False
        _ZT[p] = r
    return r


def equal(p, q):
    if p == q:
        return True
    try:
        return is_zero(p - q)
    except TooBig:
        return False


def simplify(p):
    """try to cancel denominators"""
    if not p.t or not has_p(p):
        return p
    q, dens = clear_denoms(p)
    if not q.t:
        return ZERO
    r = q
    for a, e in dens:
        s = ATOMS[a][1]
        for _ in range(e):
            r = div(r, s)
    return r if len(r.t) <= len(p.t) else p


# ---- powers and transcendental functions

def rat_const(p):
    return p.const() if p.is_const() else None


def ipow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, ipow(p, -n))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((a, e * n) for a, e in m): c ** n})
    if n <= 4:
        r = p
        for _ in range(n - 1):
            r = r * p
        return r
    m, c, s = content(p)
    return Poly({tuple((a, e * n) for a, e in m): c ** n}) * from_atom(app_atom('ipow', (s, n)))


def power(p, y):
    """p ** y"""
    c = rat_const(y)
    if c is not None:
        if c.denominator == 1 and abs(c) <= 64:
            return ipow(p, int(c))
        pc = rat_const(p)
        if pc is not None and pc == 1:
            return ONE
        if len(p.t) == 1:
            (m, k), = p.t.items()
            if len(m) == 1 and k == 1:
                a, e = m[0]
                if ATOMS[a][0] == 'a' and ATOMS[a][1] == 'pow':
                    b, z = ATOMS[a][2]
                    return power(b, z.scale(c * e))
                if e != 1:
                    return power(from_atom(a), const(c * e))
            # perfect roots of constants
            if c == Fr(1, 2) and not m:
                r = _isqrt(k)
                if r is not None:
                    return const(r)
        return app('pow', p, y)
    return app('pow', p, y)


def _isqrt(k):
    if k < 0:
        return None
    import math
    a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
    if a * a == k.numerator and b * b == k.denominator:
        return Fr(a, b)
    return None


def sqrt(p):
    return power(p, const(Fr(1, 2)))


def exp(p):
    if not p.t:
        return ONE
    return app('exp', p)


def log(p):
    c = rat_const(p)
    if c is not None:
        if c == 1:
            return ZERO
        if c > 0:
            # log of a rational constant: normalise 1/c
            if c < 1:
                return -app('log', const(1 / c))
            return app('log', p)
        return app('log', p)
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if k > 0:
            r = log(const(k)) if k != 1 else ZERO
            for a, e in m:
                d = ATOMS[a]
                if d[0] == 'a' and d[1] == 'pow':
                    b, z = d[2]
                    r = r + (z * log(b)).scale(e)
                elif d[0] == 'a' and d[1] == 'exp':
                    r = r + d[2][0].scale(e)
                else:
                    r = r + app('log', from_atom(a)).scale(e)
            return r
    m, c, s = content(p)
    # multi-term: pull out the content when its sign is plainly positive
    neg = c < 0
    if neg:
        c, s = -c, -s
    r = app('log', s)
    if c != 1:
        r = r + log(const(c))
    for a, e in m:
        r = r + app('log', from_atom(a)).scale(e)
    return r


def exact_div(f, p, limit=60):
    """g with f = p g, or None"""
    if not p.t:
        return None
    vs = sorted(f.atoms() | p.atoms())
    ix = {a: i for i, a in enumerate(vs)}

    def key(m):
        e = [0] * len(vs)
        for a, x in m:
            e[ix[a]] = x
        return tuple(e)
    lp = max(p.t, key=key)
    kp = key(lp)
    cp = p.t[lp]
    g = {}
    r = f
    while r.t:
        lm = max(r.t, key=key)
        if any(x < y for x, y in zip(key(lm), kp)) or len(g) > limit:
            return None
        q = mmul(lm, minv(lp))
        c = r.t[lm] / cp
        if q in g:
            return None
        g[q] = c
        r = r - p * Poly({q: c})
    return Poly(g)


def subst(p, mp, memo=None):
    """replace symbol atoms (ids in mp) by polynomials, also inside applications"""
    if memo is None:
        memo = {}
    out = ZERO
    for m, c in p.t.items():
        term = const(c)
        for a, e in m:
            term = term * ipow(_subst_atom(a, mp, memo), e) if e > 0 else \
                div(term, ipow(_subst_atom(a, mp, memo), -e))
            if term is None:
                raise ZeroDivisionError()
        out = out + term
    return out


def _subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    r = memo.get(a)
    if r is not None:
        return r
    d = ATOMS[a]
    if d[0] == 's':
        r = from_atom(a)
    elif d[0] == 'p':
        r = subst(d[1], mp, memo)
    else:
        args = tuple(subst(x, mp, memo) if isinstance(x, Poly) else x for x in d[2])
        if args == d[2]:
            r = from_atom(a)
        elif d[1] == 'exp':
            r = exp(args[0])
        elif d[1] == 'log':
            r = log(args[0])
        elif d[1] == 'pow':
            r = power(args[0], args[1])
        elif d[1] == 'ipow':
            r = ipow(args[0], args[1])
        else:
            r = app(d[1], *args)
    memo[a] = r
    return r


_DEEP = {}


def deep_atoms(p):
    """every atom id occurring in p, also inside applications and sums"""
    r = _DEEP.get(p)
    if r is not None:
        return r
    out = set()
    for m in p.t:
        for a, e in m:
            if a in out:
                continue
            out.add(a)
            d = ATOMS[a]
            if d[0] == 'p':
                out |= deep_atoms(d[1])
            elif d[0] == 'a':
                for x in d[2]:
                    if isinstance(x, Poly):
                        out |= deep_atoms(x)
    out = frozenset(out)
    _DEEP[p] = out
    return out


def show_atom(a):
    d = ATOMS[a]
    if d[0] == 's':
        return d[1]
    if d[0] == 'p':
        return '(' + show(d[1]) + ')'
    return '%s(%s)' % (d[1], ', '.join(show(x) if isinstance(x, Poly) else str(x) for x in d[2]))


def show(p, limit=400):
    if not p.t:
        return '0'
    parts = []
    for m, c in sorted(p.t.items()):
        ms = '*'.join(show_atom(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
        cs = str(c) if c.denominator == 1 or c.denominator < 1000 else '%.6g' % float(c)
        if not ms:
            parts.append(cs)
        elif c == 1:
            parts.append(ms)
        elif c == -1:
            parts.append('-' + ms)
        else:
            parts.append(cs + '*' + ms)
        if sum(map(len, parts)) > limit:
            parts.append('...')
            break
    return ' + '.join(parts).replace('+ -', '- ')
