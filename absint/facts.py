"""Path-condition component of the abstract state: a conjunction of linear-in-
monomials inequalities, equalities (kept as a rewriting) and disequalities,
with an entailment test."""
from fractions import Fraction as Fr
from . import poly as P
from .poly import Poly, ATOMS

# sign of uninterpreted applications, filled by the models ('+' or '0+')
APP_SIGN = {'exp': '+', 'abs': '0+'}


def canon(p):
    """(positive scale removed) canonical representative"""
    lead = max(p.t)
    c = abs(p.t[lead])
    if c != 1:
        p = p.scale(1 / c)
    return p


def fractional(p):
    for m in p.t:
        for a, e in m:
            if e < 0 or ATOMS[a][0] == 'p':
                return True
    return False


class Facts(object):
    __slots__ = ('ge', 'mp', 'ne', 'cache', 'dead', 'memo')

    def __init__(self):
        self.ge = {}       # canonical poly -> strict?
        self.mp = {}       # atom -> poly (triangular rewriting from equalities)
        self.ne = frozenset()
        self.cache = {}
        self.dead = False
        self.memo = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.ge = self.ge
        f.mp = self.mp
        f.ne = self.ne
        f.cache = self.cache
        f.dead = self.dead
        f.memo = self.memo
        return f

    def _touch(self):
        self.cache = {}
        self.ge = dict(self.ge)

    def reduce(self, p):
        if self.mp:
            at = P.deep_atoms(p)
            for a in self.mp:
                if a in at:
                    try:
                        p = P.subst(p, self.mp, self.memo)
                    except P.TooBig:
                        return p
                    break
        try:
            return P.simplify(p)
        except P.TooBig:
            return p

    # ------------------------------------------------------------------ add
    def add_ge(self, p, strict):
        """assume p >= 0 (or > 0)"""
        p = self.reduce(p)
        if p.is_const():
            c = p.const()
            if c < 0 or (strict and c == 0):
                self.dead = True
            return
        s = self.sign(p)
        if s in ('+',) or (s == '0+' and not strict):
            return
        if s == '-' or (strict and s in ('0', '0-')):
            self.dead = True
            return
        if s == '0-' and not strict:
            self.add_eq(p)
            return
        if not strict and self._is_ne(p):
            strict = True
        forms = self._normal_forms(p)
        self._touch()
        for q in forms:
            k = canon(q)
            self.ge[k] = self.ge.get(k, False) or strict
        self._product(p, strict)
        # older facts whose denominators have a known sign only now
        for old in [f for f in self.ge if fractional(f)]:
            for q in self._normal_forms(old):
                k = canon(q)
                if k != old:
                    s = self.ge.pop(old)
                    self.cache = {}
                    self.ge[k] = self.ge.get(k, False) or s

    def _product(self, p, strict):
        """c m + k > 0 with k <= 0 tells that the product m is not zero and its sign, and
        so the sign of the only factor that has none yet"""
        k = p.t.get((), P._ZERO)
        if len(p.t) - (() in p.t) != 1 or k > 0 or (k == 0 and not strict):
            return
        m, = [x for x in p.t if x]
        if len(m) < 2 or len(m) > 4:
            return
        neg = p.t[m] < 0
        open_ = None
        weak = []
        for a, e in m:
            s = self.atom_sign(a)
            if s in ('?', '!0') and e % 2:
                if open_ is not None:
                    return
                open_ = a
                continue
            if s in ('0+', '0-'):
                weak.append((a, s))
            if '-' in s and e % 2:
                neg = not neg
        for a, s in weak:
            self.add_ge(Poly({((a, 1),): P._ONE if s == '0+' else -P._ONE}), True)
        if open_ is not None:
            self.add_ge(Poly({((open_, 1),): -P._ONE if neg else P._ONE}), True)

    def _normal_forms(self, p):
        """p >= 0 in denominators-cleared, content-free form when signs are known"""
        q, flip = self._clear(p)
        if q is None:
            return [p]
        if flip < 0:
            q = -q
        if not q.t:
            return [p]
        m, c, s = P.content(q)
        ms = self.mono_sign(m)
        if ms in ('+', '-'):
            r = s.scale(c if ms == '+' else -c)
            return [r]
        div = ()
        neg = False
        for a, e in m:
            t = self.atom_sign(a)
            if t in ('+', '-'):
                div += ((a, e),)
                neg ^= t == '-' and e % 2 == 1
        if div:
            q = q * Poly({P.minv(div): -P._ONE if neg else P._ONE})
        return [q]

    def _clear(self, p):
        """(q, flip): p = q/d with sign(d) = flip, q without P denominators; (None, 0) if unknown"""
        try:
            q, dens = P.clear_denoms(p)
        except P.TooBig:
            return None, 0
        flip = 1
        for a, e in dens:
            if e % 2:
                s = self.atom_sign(a)
                if s == '+':
                    pass
                elif s == '-':
                    flip = -flip
                else:
                    return None, 0
        return q, flip

    def add_eq(self, p):
        p = self.reduce(p)
        try:
            p, _ = P.clear_denoms(p)
        except P.TooBig:
            return
        if not p.t:
            return
        m, c, s = P.content(p)
        p = s
        if p.is_const():
            # product of atoms times constant is zero
            if len(m) == 1 and m[0][1] == 1 and self.atom_sign(m[0][0]) in ('?', '0+', '0-', '0'):
                self._solve(m[0][0], P.ZERO)
                return
            nz = [a for a, e in m if e > 0 and self.atom_sign(a) not in ('+', '-')]
            if not nz:
                self.dead = True
            elif len(nz) == 1:
                self._solve(nz[0], P.ZERO)
            return
        sg = self.sign(p)
        if sg in ('+', '-') or canon(p) in self.ne or canon(-p) in self.ne:
            self.dead = True
            return
        # choose an atom to solve for
        best = None
        for mm, c in p.t.items():
            if len(mm) == 1 and mm[0][1] == 1:
                a = mm[0][0]
                if ATOMS[a][0] == 'p':
                    continue
                rest = Poly({k: v for k, v in p.t.items() if k != mm})
                if a in P.deep_atoms(rest):
                    continue
                score = (ATOMS[a][0] == 's', a)
                if best is None or score > best[0]:
                    best = (score, a, rest.scale(-1 / c))
        if best is None:
            for mm, c in p.t.items():
                for a, e in mm:
                    if e != 1 or ATOMS[a][0] == 'p':
                        continue
                    rest = Poly({k: v for k, v in p.t.items() if k != mm})
                    if a in P.deep_atoms(rest):
                        continue
                    co = tuple((b, x) for b, x in mm if b != a)
                    if a in [b for b, x in co] or self.mono_sign(co) not in ('+', '-'):
                        continue
                    score = (ATOMS[a][0] == 's', a)
                    if best is None or score > best[0]:
                        best = (score, a, rest * Poly({P.minv(co): -1 / c}))
        if best is None:
            self._touch()
            self.ge[canon(p)] = self.ge.get(canon(p), False)
            self.ge[canon(-p)] = self.ge.get(canon(-p), False)
            return
        self._solve(best[1], best[2])

    def _solve(self, a, e):
        one = {a: e}
        mp = {}
        for k, v in self.mp.items():
            mp[k] = P.subst(v, one) if a in P.deep_atoms(v) else v
        mp[a] = e
        old = self.ge
        ne = self.ne
        self.mp = mp
        self.memo = {}
        self.cache = {}
        self.ge = {}
        for p, st in old.items():
            if a in P.deep_atoms(p):
                try:
                    self.add_ge(p, st)
                except ZeroDivisionError:
                    pass
            else:
                self.ge[p] = st
        # the solved atom keeps its own bounds through the substitution
        self.ne = frozenset()
        for p in ne:
            if a in P.deep_atoms(p):
                self.add_ne(p)
            else:
                self.ne = self.ne | {p}

    def add_ne(self, p):
        p = self.reduce(p)
        if not p.t:
            self.dead = True
            return
        if p.is_const():
            return
        s = self.sign(p)
        if s == '0':
            self.dead = True
            return
        if s == '0+':
            self.add_ge(p, True)
            return
        if s == '0-':
            self.add_ge(-p, True)
            return
        self.cache = {}
        self.ne = self.ne | {canon(p)}

    def _is_ne(self, p):
        return canon(p) in self.ne or canon(-p) in self.ne

    # ---------------------------------------------------------------- query
    def atom_sign(self, a):
        k = ('a', a)
        r = self.cache.get(k)
        if r is not None:
            return r
        self.cache[k] = '?'
        r = self._atom_sign(a)
        self.cache[k] = r
        return r

    def _atom_sign(self, a):
        if a in self.mp:
            return self.sign(self.mp[a])
        d = ATOMS[a]
        r = '?'
        if d[0] == 'p':
            return self.sign(d[1])
        if d[0] == 'a':
            r = APP_SIGN.get(d[1], '?')
            if d[1] == 'pow':
                b, y = d[2]
                s = self.sign(b)
                r = '+' if s == '+' else '0+'
            elif d[1] == 'ipow':
                s = self.sign(d[2][0])
                if d[2][1] % 2 == 0:
                    r = '+' if s in '+-' else '0+'
                else:
                    r = s
            elif d[1] == 'log' and d[2][0].is_const():
                r = '+' if d[2][0].const() > 1 else '-'
            elif d[1] == 'abs' and r == '0+':
                s = self.sign(d[2][0])
                if s in '+-':
                    r = '+'
            if r != '?' and r != '0+':
                return r
        # direct facts
        mono = ((a, 1),)
        pos = neg = None
        for p, st in self.ge.items():
            if mono in p.t and len(p.t) <= 2:
                c = p.t[mono]
                if len(p.t) == 1:
                    k = P._ZERO
                elif () in p.t:
                    k = p.t[()]
                else:
                    continue
                # c*a + k >= 0
                b = -k / c
                if c > 0:
                    if b > 0 or (b == 0 and st):
                        pos = '+'
                    elif b == 0 and pos is None:
                        pos = '0+'
                else:
                    if b < 0 or (b == 0 and st):
                        neg = '-'
                    elif b == 0 and neg is None:
                        neg = '0-'
        if pos and neg:
            return '0'
        if pos == '+' or neg == '-':
            return pos or neg
        x = pos or neg
        if x and r == '?':
            r = x
        if r in ('0+', '0-') and Poly({mono: P._ONE}) in self.ne:
            r = r[1]
        if r != '?':
            return r
        # through the linear reasoning
        q = Poly({mono: P._ONE})
        if self._lp(q, True):
            return '+'
        if self._lp(-q, True):
            return '-'
        if self._lp(q, False):
            return '0+'
        if self._lp(-q, False):
            return '0-'
        return '?'

    def mono_sign(self, m):
        neg = False
        weak = False
        for a, e in m:
            s = self.atom_sign(a)
            if s == '0':
                return '0' if e > 0 else '?'
            if s == '?':
                if e % 2 == 0:
                    weak = True
                    continue
                return '?'
            if len(s) == 2:
                weak = True
            if '-' in s and e % 2:
                neg = not neg
        return ('0' if weak else '') + ('-' if neg else '+')

    def sign(self, p):
        """one of '+', '-', '0', '0+', '0-', '!0', '?'"""
        p = self.reduce(p)
        if not p.t:
            return '0'
        if p.is_const():
            return '+' if p.const() > 0 else '-'
        lead = max(p.t)
        flip = p.t[lead] < 0
        q = p.scale(1 / p.t[lead])
        k = ('s', q)
        r = self.cache.get(k)
        if r is None:
            self.cache[k] = '?'
            r = self._sign(q)
            self.cache[k] = r
        if flip:
            r = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(r, r)
        return r

    def _sign(self, p):
        if P.has_p(p):
            q, fl = self._clear(p)
            if q is not None:
                if not q.t:
                    return '0'
                s = self.sign(q)
                return s if fl > 0 else {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(s, s)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            s = self.mono_sign(m)
            if s == '?' and len(m) > 1:
                # maybe nonzero
                pass
            if s == '?' and self._is_ne(p):
                return '!0'
            return s
        m, c, s = P.content(p)
        if m or c < 0:
            ms = self.mono_sign(m)
            if c < 0:
                ms = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(ms, ms)
            if ms == '0':
                return '0'
            if ms != '?':
                ss = self.sign(s)
                r = sign_mul(ms, ss)
                if r != '?':
                    return r
        sp = P.separate(p)
        if sp is not None:
            r = sign_mul(self.sign(sp[0]), self.sign(sp[1]))
            if r != '?':
                return r
        a = self._lp(p, False)
        if a:
            if self._lp(p, True) or self._is_ne(p):
                return '+'
            if self._lp(-p, False):
                return '0'
            return '0+'
        if self._lp(-p, False):
            if self._lp(-p, True) or self._is_ne(p):
                return '-'
            return '0-'
        if self._is_ne(p):
            return '!0'
        return self._univariate(p)

    def bounds(self, a):
        """(lower, strict, upper, strict) constant bounds of an atom from the facts"""
        lo = hi = None
        los = his = False
        mono = ((a, 1),)
        for p, st in self.ge.items():
            if mono in p.t and len(p.t) == (2 if () in p.t else 1):
                c = p.t[mono]
                b = -p.t.get((), P._ZERO) / c
                if c > 0:
                    if lo is None or b > lo or (b == lo and st):
                        lo, los = b, st
                elif hi is None or b < hi or (b == hi and st):
                    hi, his = b, st
        s = APP_SIGN.get(ATOMS[a][1]) if ATOMS[a][0] == 'a' else None
        if s in ('+', '0+') and (lo is None or lo < 0):
            lo, los = P._ZERO, s == '+'
        return lo, los, hi, his

    def _univariate(self, p):
        """sign of a polynomial in one bounded atom, by Sturm's theorem"""
        at = p.atoms()
        if len(at) != 1:
            return '?'
        a, = at
        if ATOMS[a][0] == 'p' or not all(e > 0 for m in p.t for _, e in m):
            return '?'
        deg = max((m[0][1] for m in p.t if m), default=0)
        if deg < 2 or deg > 8:
            return '?'
        co = [P._ZERO] * (deg + 1)
        for m, c in p.t.items():
            co[m[0][1] if m else 0] = c
        lo, los, hi, his = self.bounds(a)
        if lo is None and hi is None:
            return '?'
        return sturm_sign(co, lo, los, hi, his)

    def _lp(self, p, strict):
        """prove p >= 0 (p > 0) as a nonnegative combination of facts and
        sign-known monomials"""
        monos = [m for m in p.t if m]
        # quick: all monomials sign-compatible
        ok = True
        st = False
        for m, c in p.t.items():
            if not m:
                if c < 0:
                    ok = False
                    break
                st = True
                continue
            s = self.mono_sign(m) if len(p.t) > 1 or len(m) > 1 else '?'
            if s == '?' or (c > 0) == ('-' in s):
                if s != '0':
                    ok = False
                    break
            elif len(s) == 1 and s != '0':
                st = True
        if ok and (st or not strict):
            return True
        q = canon(p)
        if q in self.ge and (self.ge[q] or not strict):
            return True
        # select relevant facts
        seen = set(monos)
        chosen = []
        pool = list(self.ge.items())
        for a in list(p.atoms()):
            pool.extend(self._intrinsic(a))
        for rnd in range(3):
            add = []
            for f, fs in pool:
                if any(f is g for g, _ in chosen):
                    continue
                if any(m in seen for m in f.t if m):
                    add.append((f, fs))
            if not add:
                break
            add.sort(key=lambda x: len(x[0].t))
            chosen.extend(add)
            for f, fs in add:
                for m in f.t:
                    if m and m not in seen:
                        seen.add(m)
            if len(chosen) > 60:
                break
        chosen = chosen[:70]
        if not chosen:
            return False
        cols = []      # (vector, strict)
        for f, fs in chosen:
            cols.append((f.t, fs))
        for m in seen:
            s = self.mono_sign(m) if not (len(p.t) == 1 and len(m) == 1 and m in p.t) else '?'
            if s in ('+', '0+'):
                cols.append(({m: P._ONE}, s == '+'))
            elif s in ('-', '0-'):
                cols.append(({m: -P._ONE}, s == '-'))
            elif s == '0':
                cols.append(({m: P._ONE}, False))
                cols.append(({m: -P._ONE}, False))
        cols.append(({(): P._ONE}, True))
        return lp_combo(p.t, cols, strict)

    def _intrinsic(self, a):
        d = ATOMS[a]
        if d[0] == 'a' and d[1] in ('cos', 'sin'):
            m = ((a, 1),)
            return [(Poly({m: P._ONE, (): P._ONE}), False),
                    (Poly({m: -P._ONE, (): P._ONE}), False)]
        if d[0] == 'a' and d[1] == 'exp' and isinstance(d[2][0], Poly):
            try:
                s = self.sign(d[2][0])
            except ZeroDivisionError:
                s = '?'
            m = ((a, 1),)
            if '-' in s:
                return [(Poly({m: -P._ONE, (): P._ONE}), s == '-')]
            if '+' in s:
                return [(Poly({m: P._ONE, (): -P._ONE}), s == '+')]
        return []

    # ------------------------------------------------ products of facts
    def prove(self, p, strict=False, even=False):
        """prove p >= 0 (p > 0), also by multiplying p with a positive atom and the
        facts with monomials of known sign"""
        p = self.reduce(p)
        s = self.sign(p)
        if s in ('+', '0', '0+'):
            return s == '+' or not strict
        if (s == '-' or (strict and s == '0-')) and not even:
            return False
        if P.has_p(p):
            q, fl = self._clear(p)
            if q is None:
                return False
            p = q if fl > 0 else -q
        k = ('d', p, strict)
        r = self.cache.get(k)
        if r is None:
            self.cache[k] = False
            try:
                r = self._prove(p, strict)
            except P.TooBig:
                r = False
            self.cache[k] = r
        return r

    def _prove(self, p, strict):
        m, c, q = P.content(p)
        if m:
            ms = self.mono_sign(m)
            if ms in ('+', '0+') and not (strict and ms == '0+'):
                p = q.scale(c)
        if len(p.t) > 60:
            return False
        facts = [(f, s) for f, s in self.ge.items() if len(f.t) <= 24]
        for a in p.atoms():
            facts.extend(self._intrinsic(a))
        # facts connected with p
        at = set(p.atoms())
        todo = facts
        facts = []
        for _ in range(2):
            rest = []
            more = set()
            for x in todo:
                fa = x[0].atoms()
                if fa & at:
                    facts.append(x)
                    more |= fa
                else:
                    rest.append(x)
            at |= more
            todo = rest
        at = set(p.atoms())
        for f, _ in facts:
            at |= f.atoms()
        key = (p, strict, frozenset(facts), frozenset((a, self.atom_sign(a)) for a in at))
        r = _PROOFS.get(key)
        if r is None:
            r = self._quotient(p, facts, strict) or self._core(p, facts, strict) or self._pivot(p, facts, strict, 2)
            _PROOFS[key] = r
            STAT['proofs'] = STAT.get('proofs', 0) + 1
        else:
            STAT['memo'] = STAT.get('memo', 0) + 1
        return r

    def _quotient(self, p, facts, strict):
        """a fact that is a multiple p g of p with g > 0"""
        pa = p.atoms()
        for f, s in facts:
            if len(f.t) <= len(p.t) or (strict and not s) or not pa <= f.atoms():
                continue
            g = P.exact_div(f, p)
            if g is not None and self.sign(g) == '+':
                return True
        return False

    def _core(self, p, facts, strict):
        have = {}
        for f, s in facts:
            for x in f.t:
                have[x] = True
        atoms = set()
        for f, s in facts:
            atoms |= f.atoms()
        mult = []
        for a in atoms:
            if ATOMS[a][0] == 'p':
                continue
            am = ((a, 1),)
            n = sum(1 for x in p.t if P.mmul(x, am) in have)
            if n and self.atom_sign(a) == '+':
                mult.append((-n, a))
        mult.sort()
        mult = [P.ONE] + [Poly({((a, 1),): P._ONE}) for n, a in mult[:4]]
        seen = set()
        for pm, pc in p.t.items():
            if not pm or self.mono_sign(pm) in (('+', '0+') if pc > 0 else ('-', '0-')):
                continue
            inv = P.minv(pm)
            for f, s in facts:
                if len(f.t) < 3 or len(mult) > 9:
                    continue
                u = {}
                for fm, fc in f.t.items():
                    r = P.mmul(fm, inv)
                    if r and fc / pc > 0 and len(r) <= 2 and all(e > 0 and ATOMS[a][0] != 'p' for a, e in r) \
                            and self.mono_sign(r) == '+':
                        u[r] = fc / pc
                if len(u) >= 2:
                    u = Poly(u)
                    if u not in seen:
                        seen.add(u)
                        mult.append(u)
        for u in mult:
            t = p * u
            if self._prove1(t, facts, strict):
                return True
        return False

    def _pivot(self, p, facts, strict, depth):
        """prove p >= 0 by writing a fact as a new variable y (>= 0) and eliminating
        an atom with it, until every monomial has a sign"""
        at = {}
        for m in p.t:
            for a, e in m:
                at[a] = True
        tries = []
        for f, s in facts:
            if not 2 <= len(f.t) <= 5:
                continue
            for m, c in f.t.items():
                for a, e in m:
                    if e != 1 or a not in at or ATOMS[a][0] == 'p':
                        continue
                    if any(a == b for m2 in f.t if m2 is not m for b, _ in m2):
                        continue
                    rest = tuple(x for x in m if x[0] != a)
                    if any(self.atom_sign(b) != '+' for b, _ in rest):
                        continue
                    sg = self.atom_sign(a)
                    tries.append((0 if sg == '?' else 1, len(f.t), f, s, a, m, c, rest))
        tries.sort(key=lambda x: x[:2])
        lp = 3
        for _, _, f, s, a, m, c, rest in tries[:12]:
            y = P.fresh('y')
            ya = next(iter(y.t))[0][0]
            self.cache[('a', ya)] = '+' if s else '0+'
            g = (y - (f - Poly({m: c}))) * Poly({P.minv(rest): 1 / c})
            try:
                q = P.subst(p, {a: g})
            except (P.TooBig, ZeroDivisionError):
                continue
            if len(q.t) > 80:
                continue
            ok = True
            pos = False
            for mm, cc in q.t.items():
                ms = self.mono_sign(mm) if mm else '+'
                if ms == '0':
                    continue
                if ms not in ('+', '0+', '-', '0-') or (('-' in ms) != (cc < 0)):
                    ok = False
                    break
                pos = pos or len(ms) == 1
            if ok and (pos or not strict):
                return True
            if len(q.t) > len(p.t) or depth < 2 or not lp:
                continue
            lp -= 1
            fs = []
            for f2, s2 in facts:
                if f2 is f:
                    continue
                if a in f2.atoms():
                    try:
                        f2 = P.subst(f2, {a: g})
                    except (P.TooBig, ZeroDivisionError):
                        continue
                    if len(f2.t) > 24 or any(e < 0 for m2 in f2.t for _, e in m2):
                        continue
                fs.append((f2, s2))
            if self._core(q, fs, strict) or self._pivot(q, fs, strict, depth - 1):
                return True
        return False

    def _prove1(self, t, facts, strict):
        seen = set(m for m in t.t)
        cols = {}
        frontier = set(seen)
        for rnd in range(3):
            cand = {}
            for f, s in facts:
                if len(f.t) < 2:
                    continue
                for m in frontier:
                    for fmono in f.t:
                        r = P.mmul(m, P.minv(fmono))
                        if len(r) > 3 or any(e < 0 or e > 2 or ATOMS[a][0] == 'p' for a, e in r):
                            continue
                        key = (r, id(f))
                        if key in cols or key in cand:
                            continue
                        rs = self.mono_sign(r) if r else '+'
                        if rs not in ('+', '0+', '-', '0-'):
                            continue
                        g = f * Poly({r: -P._ONE if '-' in rs else P._ONE})
                        nn = sum(1 for x in g.t if x not in seen)
                        cand[key] = (nn, len(r), g.t, s and len(rs) == 1)
            best = sorted(cand.items(), key=lambda x: (x[1][0], x[1][1]))[:30]
            new = set()
            for key, (nn, _, g, s) in best:
                cols[key] = (g, s)
                new.update(x for x in g if x not in seen)
            seen |= new
            frontier = new
            if not new:
                break
        cs = list(cols.values())
        for m in seen:
            s = self.mono_sign(m) if m else '+'
            if s in ('+', '0+'):
                cs.append(({m: P._ONE}, s == '+'))
            elif s in ('-', '0-'):
                cs.append(({m: -P._ONE}, s == '-'))
            elif s == '0':
                cs.append(({m: P._ONE}, False))
                cs.append(({m: -P._ONE}, False))
        return lp_combo(t.t, cs, strict)

    # --------------------------------------------------------------- compare
    def compare(self, p, op):
        """truth of 'p op 0': True, False or None"""
        s = self.sign(p)
        tab = {
            '>': {'+': True, '-': False, '0': False, '0-': False},
            '>=': {'+': True, '0': True, '0+': True, '-': False},
            '<': {'-': True, '+': False, '0': False, '0+': False},
            '<=': {'-': True, '0': True, '0-': True, '+': False},
            '==': {'0': True, '+': False, '-': False, '!0': False},
            '!=': {'0': False, '+': True, '-': True, '!0': True},
        }
        return tab[op].get(s)

    def assume(self, p, op):
        """add 'p op 0'; self.dead is set on contradiction"""
        if op == '>':
            self.add_ge(p, True)
        elif op == '>=':
            self.add_ge(p, False)
        elif op == '<':
            self.add_ge(-p, True)
        elif op == '<=':
            self.add_ge(-p, False)
        elif op == '==':
            self.add_eq(p)
        elif op == '!=':
            self.add_ne(p)


def _peval(co, x):
    r = 0
    for c in reversed(co):
        r = r * x + c
    return r


def _trim(co):
    co = list(co)
    while co and co[-1] == 0:
        co.pop()
    return co


def _prem(a, b):
    a = _trim(a)
    b = _trim(b)
    while len(a) >= len(b) and a:
        f = a[-1] / b[-1]
        k = len(a) - len(b)
        for i, c in enumerate(b):
            a[i + k] -= f * c
        a = _trim(a[:-1])
    return a


def sturm_sign(co, lo, los, hi, his):
    """sign of the polynomial on the interval (None bounds are infinite)"""
    co = _trim(co)
    big = 1 + max(abs(c / co[-1]) for c in co)
    l = lo if lo is not None else min(-big, (hi if hi is not None else 0) - 1)
    h = hi if hi is not None else max(big, (lo if lo is not None else 0) + 1)
    if l > h:
        return '?'
    weak = False
    # divide out roots at the end points
    work = co
    for x, inc, side in ((l, not los and lo is not None, 'l'), (h, not his and hi is not None, 'h')):
        while len(work) > 1 and _peval(work, x) == 0:
            # synthetic division by (t - x); on the interval t - x has a known sign
            q = [0] * (len(work) - 1)
            r = 0
            for i in range(len(work) - 1, 0, -1):
                r = work[i] + r * x
                q[i - 1] = r
            work = q if side == 'l' else [-c for c in q]
            if inc:
                weak = True
    if len(work) > 1:
        seq = [work, _trim([i * c for i, c in enumerate(work)][1:])]
        while seq[-1] and len(seq[-1]) > 1:
            r = [-c for c in _prem(seq[-2], seq[-1])]
            if not r:
                break
            seq.append(r)

        def var(x):
            n = 0
            last = 0
            for q in seq:
                v = _peval(q, x)
                if v:
                    if last and (v > 0) != (last > 0):
                        n += 1
                    last = v
            return n
        if var(l) - var(h) != 0:
            return '?'
    v = _peval(work, (l + h) / 2)
    if v == 0:
        return '?'
    return ('0' if weak else '') + ('+' if v > 0 else '-')


NEG = {'>': '<=', '>=': '<', '<': '>=', '<=': '>', '==': '!=', '!=': '=='}


def sign_mul(a, b):
    if '?' in (a, b) or '!0' in (a, b):
        return '?'
    if a == '0' or b == '0':
        return '0'
    neg = ('-' in a) != ('-' in b)
    weak = len(a) == 2 or len(b) == 2
    return ('0' if weak else '') + ('-' if neg else '+')


_LP = {}
_PROOFS = {}
STAT = {}


def lp_combo(target, cols, strict):
    """is target = sum x_j col_j, x >= 0 feasible (with some strict column > 0)"""
    key = (frozenset(target.items()),
           frozenset((frozenset(c.items()), s) for c, s in cols), strict)
    r = _LP.get(key)
    if r is None:
        r = _lp_combo(target, cols, strict)
        if len(_LP) > 50000:
            _LP.clear()
        _LP[key] = r
    return r


def _lp_combo(target, cols, strict):
    # presolve: a row all of whose entries have one sign forces its columns to zero
    cols = [(c, q) for c, q in cols]
    while True:
        pos, neg = {}, {}
        for j, (c, q) in enumerate(cols):
            for m, v in c.items():
                (pos if v > 0 else neg).setdefault(m, []).append(j)
        drop = set()
        for m, t in target.items():
            if t > 0 and m not in pos or t < 0 and m not in neg:
                return False
        for m, js in pos.items():
            if m not in neg and m not in target:
                drop.update(js)
        for m, js in neg.items():
            if m not in pos and m not in target:
                drop.update(js)
        if not drop:
            break
        cols = [x for j, x in enumerate(cols) if j not in drop]
    rows = set(target)
    for c, s in cols:
        rows.update(c)
    rows = sorted(rows)
    idx = {m: i for i, m in enumerate(rows)}
    n = len(cols)
    mrows = len(rows)
    # tableau: columns n + artificial mrows, rhs
    A = [[P._ZERO] * (n + 1) for _ in range(mrows)]
    for j, (c, s) in enumerate(cols):
        for m, v in c.items():
            A[idx[m]][j] = v
    for m, v in target.items():
        A[idx[m]][n] = v
    for i in range(mrows):
        if A[i][n] < 0:
            A[i] = [-x for x in A[i]]
    basis = [n + 1 + i for i in range(mrows)]   # artificials implicit
    # phase 1 objective: minimise the sum of artificials
    obj = [P._ZERO] * (n + 1)
    for i in range(mrows):
        for j in range(n + 1):
            if A[i][j]:
                obj[j] += A[i][j]

    def pivot(r, c):
        pv = A[r][c]
        A[r] = [x / pv for x in A[r]]
        ar = A[r]
        for i in range(mrows):
            if i != r and A[i][c]:
                f = A[i][c]
                A[i] = [x - f * y if y else x for x, y in zip(A[i], ar)]
        basis[r] = c

    it = 0
    while obj[n] > 0:
        it += 1
        if it > 400:
            return False
        c = None
        if it < 40:
            for j in range(n):
                if obj[j] > 0 and (c is None or obj[j] > obj[c]):
                    c = j
        else:
            c = next((j for j in range(n) if obj[j] > 0), None)
        if c is None:
            return False
        best = None
        for i in range(mrows):
            if A[i][c] > 0:
                q = A[i][n] / A[i][c]
                if best is None or q < best[0] or (q == best[0] and basis[i] < best[2]):
                    best = (q, i, basis[i])
        if best is None:
            return False
        r = best[1]
        pivot(r, c)
        f = obj[c]
        obj = [x - f * y if y else x for x, y in zip(obj, A[r])]
    if not strict:
        return True
    # phase 2: maximise sum of strict columns
    cost = [P._ONE if (j < n and cols[j][1]) else P._ZERO for j in range(n)] + [P._ZERO]
    # drop artificial rows still in the basis at zero level by pivoting them out
    for i in range(mrows):
        if basis[i] > n:
            c = next((j for j in range(n) if A[i][j]), None)
            if c is not None:
                pivot(i, c)
    z = list(cost)
    for i in range(mrows):
        b = basis[i]
        if b < n and cost[b]:
            f = z[b]
            z = [x - f * y if y else x for x, y in zip(z, A[i])]
    it = 0
    while True:
        val = -z[n]
        if val > 0:
            return True
        it += 1
        if it > 400:
            return False
        c = next((j for j in range(n) if z[j] > 0), None)
        if c is None:
            return False
        best = None
        for i in range(mrows):
            if basis[i] > n:
                continue
            if A[i][c] > 0:
                q = A[i][n] / A[i][c]
                if best is None or q < best[0] or (q == best[0] and basis[i] < best[2]):
                    best = (q, i, basis[i])
        if best is None:
            return True   # unbounded
        r = best[1]
        pivot(r, c)
        f = z[c]
        z = [x - f * y if y else x for x, y in zip(z, A[r])]
