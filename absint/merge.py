"""Join of abstract states: trace partitioning by discrete signature and an
affine-hull (Karr) join of the numeric slots, with product templates and
inequality hints."""
from . import poly as P
from .poly import Poly, ATOMS
from .values import Ref, Ser, Func, Bound, HObj, UNBOUND, State
from .facts import Facts


def slots(I, st):
    """every heap slot: (object id, key) -> value"""
    out = {}
    for oid, o in st.heap.items():
        if o.kind in ('cls', 'mod'):
            continue
        for k, v in o.f.items():
            out[(oid, k)] = v
    return out


def refs_of(v, acc):
    if isinstance(v, Ref):
        acc.append(v.id)
    elif isinstance(v, Bound):
        refs_of(v.self, acc)
        refs_of(v.func, acc)
    elif isinstance(v, Func):
        if v.env is not None:
            acc.append(v.env)
    elif isinstance(v, tuple):
        for x in v:
            refs_of(x, acc)


def reachable(I, st, values):
    todo = list(st.envs) + [r.id for r in I.roots]
    for v in st.ghost.values():
        refs_of(v, todo)
    refs_of(tuple(values), todo)
    # names of active frames keep their closures
    seen = set()
    heap = st.heap
    static = I.static_ids
    while todo:
        i = todo.pop()
        if i in seen or i not in heap or i in static:
            continue
        seen.add(i)
        o = heap[i]
        if o.kind in ('cls', 'mod'):
            continue
        if o.kind == 'env' and o.meta.get('parent') is not None:
            todo.append(o.meta['parent'])
        for v in o.f.values():
            refs_of(v, todo)
    return seen


def _vsig(v, const):
    if isinstance(v, Poly):
        if const and v.is_const():
            return ('c', v.const())
        return 'num'
    if isinstance(v, Ser):
        return ('ser', 'num' if isinstance(v.val, Poly) else v.val, v.src)
    if isinstance(v, tuple):
        return ('t',) + tuple(_vsig(x, const) for x in v)
    return v


def signature(I, st, ids, values):
    from . import models as M
    sig = []
    for i in sorted(ids):
        o = st.heap[i]
        if o.kind in ('cls', 'mod'):
            continue
        if o.kind == 'env':
            it = []
            for k in sorted(o.f, key=str):
                v = o.f[k]
                if isinstance(v, Poly) and (v in M.MAYBE_NONE or v in M.BOOLISH):
                    it.append((k, v))
                elif v is not UNBOUND:
                    it.append((k, _vsig(v, True)))
            sig.append((i, 'env', tuple(it)))
            continue
        it = []
        for k in sorted(o.f, key=str):
            v = o.f[k]
            if isinstance(v, Poly):
                if v in M.MAYBE_NONE or v in M.BOOLISH:
                    it.append((k, v))
                elif k in I.sticky:
                    z = st.facts.sign(v)
                    it.append((k, z if z in ('0', '+', '-') else 'num'))
                elif o.kind in ('list', 'dict') and v.is_const():
                    it.append((k, v.const()))
                else:
                    it.append((k, 'num'))
            else:
                it.append((k, _vsig(v, True)))
        sig.append((i, o.kind, o.cls.id if o.cls is not None else None, tuple(it)))
    gs = tuple(sorted((k, _vsig(v, True)) for k, v in st.ghost.items()))
    vs = tuple(_vsig(v, True) for v in values)
    ts = tuple(sorted(((repr(k), v) for k, v in st.truth.items() if I.keep_truth(k)), key=repr))
    return (tuple(sig), gs, vs, ts, tuple(st.envs))


def _numeric(I, st, ids, values):
    """ordered list of (slot key, poly)"""
    out = []
    for i in sorted(ids):
        o = st.heap[i]
        if o.kind in ('cls', 'mod'):
            continue
        for k in o.f:
            _collect(('h', i, k), o.f[k], out)
    for k, v in st.ghost.items():
        _collect(('g', k), v, out)
    for j, v in enumerate(values):
        _collect(('v', j), v, out)
    return out


def _collect(key, v, out):
    if isinstance(v, Poly):
        out.append((key, v))
    elif isinstance(v, Ser) and isinstance(v.val, Poly):
        out.append((key + ('ser',), v.val))
    elif isinstance(v, tuple):
        for j, x in enumerate(v):
            _collect(key + (('#', j),), x, out)


def _rebuild(key, v, mp):
    if isinstance(v, Poly):
        return mp.get(key, v)
    if isinstance(v, Ser) and isinstance(v.val, Poly):
        return Ser(mp.get(key + ('ser',), v.val), v.src)
    if isinstance(v, tuple):
        return tuple(_rebuild(key + (('#', j),), x, mp) for j, x in enumerate(v))
    return v


def merger(I, states, values):
    groups = {}
    order = []
    hard = len(states) > I.hardcap
    for idx, st in enumerate(states):
        vals = (values[idx],) if values is not None else ()
        if I.normalise is not None:
            I.normalise(I, st)
        ids = reachable(I, st, vals)
        sg = signature(I, st, ids, vals)
        if I.stable is not None and not hard and not I.stable(I, st, ids):
            sg = ('unstable', idx)
        if sg not in groups:
            groups[sg] = []
            order.append(sg)
        groups[sg].append((st, vals, ids))
    out = []
    for sg in order:
        g = groups[sg]
        if len(g) == 1:
            out.append((g[0][0], g[0][1][0] if values is not None else None))
            continue
        st, vals = join(I, g)
        dead = [x for x in g if x[0].facts.dead]
        if dead:
            g = [x for x in g if not x[0].facts.dead]
            if not g:
                continue
            st, vals = join(I, g) if len(g) > 1 else (g[0][0], g[0][1])
        out.append((st, vals[0] if values is not None else None))
    return out


def compress(I, st, v):
    """replace bulky expressions of one stable state by fresh symbols that keep
    their sign, the templates and the hints"""
    vals = (v,)
    ids = reachable(I, st, vals)
    force = I.bulky(I, st, ids)
    if not force or not I.stable(I, st, ids):
        return st, v
    s2, vals = join(I, [(st, vals, ids)], force)
    if st.facts.dead or s2.facts.dead:
        return None
    return s2, vals[0]


def join(I, g, force=()):
    K = len(g)
    st1, vals1, ids = g[0]
    I.joins += 1
    tables = []
    for st, vals, _ in g:
        red = {}
        for k, v in _numeric(I, st, ids, vals):
            red[k] = st.facts.reduce(v) if st.facts.mp else v
        tables.append(red)
    keys = [k for k in tables[0] if all(k in t for t in tables)]
    base = {}
    vary = []
    for k in keys:
        v = tables[0][k]
        if k in force:
            vary.append(k)
        elif all(t[k] == v for t in tables[1:]) or all(P.equal(t[k], v) for t in tables[1:]):
            base[k] = v
        else:
            vary.append(k)
    # product templates
    derived = []
    if I.templates is not None and vary:
        for k, fn in I.templates(I, st1, ids):
            if k in vary:
                try:
                    ok = True
                    for t in tables:
                        e = fn(t)
                        if e is None or not P.equal(e, t[k]):
                            ok = False
                            break
                except (KeyError, ZeroDivisionError, P.TooBig):
                    ok = False
                if ok:
                    derived.append((k, fn))
                    vary.remove(k)
    prio = I.prio
    vary.sort(key=lambda k: (prio.get(k[2], 50) if k[0] == 'h' else 60))
    # row reduction of the difference vectors
    rows = []      # (pivot, vector, combo over free keys)
    free = []
    expr = {}
    for k in vary:
        vec = {}
        p1 = tables[0][k]
        for j in range(1, K):
            d = tables[j][k] - p1
            for m, c in d.t.items():
                vec[(j, m)] = c
        if k in force:
            vec = {(-1, k): 1}
        combo = {}
        for piv, rv, rc in rows:
            c = vec.get(piv)
            if c:
                f = c / rv[piv]
                for x, y in rv.items():
                    z = vec.get(x, 0) - f * y
                    if z:
                        vec[x] = z
                    else:
                        vec.pop(x, None)
                for x, y in rc.items():
                    combo[x] = combo.get(x, 0) + f * y
        if vec:
            piv = min(vec)
            # this row = original - combo
            rc = {x: -y for x, y in combo.items() if y}
            rc[k] = rc.get(k, 0) + 1
            rows.append((piv, vec, rc))
            free.append(k)
        else:
            expr[k] = {x: y for x, y in combo.items() if y}
    mp = dict(base)
    phi = {}
    for k in free:
        lab = frozenset()
        for t in tables:
            lab |= t[k].labels()
        nm = str(k[2]) if k[0] == 'h' else str(k[1])
        phi[k] = P.fresh('phi.' + nm, lab)
        mp[k] = phi[k]
    for k, co in expr.items():
        v = tables[0][k]
        for x, y in co.items():
            v = v + (phi[x] - tables[0][x]).scale(y)
        # labels of dependent values follow from the common value and the free ones
        mp[k] = v
    for k, fn in derived:
        # templates are listed in dependency order
        mp[k] = fn(mp)
    # facts
    f = Facts()
    fs = [x[0].facts for x in g]
    common = {a: p for a, p in fs[0].mp.items() if all(o.mp.get(a) == p for o in fs[1:])}
    f.mp = common
    live = None
    for p, s in fs[0].ge.items():
        strict = s
        ok = True
        for o in fs[1:]:
            s2 = o.ge.get(p)
            if s2 is None:
                try:
                    sg = o.sign(p)
                except ZeroDivisionError:
                    sg = '?'
                if sg == '+':
                    continue
                if sg in ('0+', '0'):
                    strict = False
                    continue
                ok = False
                break
            strict = strict and s2
        if ok:
            f.ge[p] = strict
    ne = fs[0].ne
    for o in fs[1:]:
        ne = ne & o.ne
    f.ne = ne
    st = State.__new__(State)
    st.heap = dict(st1.heap)
    st.own = set()
    st.facts = f
    st.truth = {k: v for k, v in st1.truth.items() if all(x[0].truth.get(k, None) == v and k in x[0].truth for x in g[1:])}
    st.next = max(ids) + 1 if ids else st1.next
    st.next = max([st.next] + [x[0].next for x in g])
    st.envs = list(st1.envs)
    st.nw = max(x[0].nw for x in g)
    st.ghost = {k: _rebuild(('g', k), v, mp) for k, v in st1.ghost.items()}
    for i in ids:
        o = st1.heap[i]
        if o.kind in ('cls', 'mod'):
            continue
        nf = {}
        ch = False
        for k, v in o.f.items():
            w = _rebuild(('h', i, k), v, mp)
            if w is not v:
                ch = True
            nf[k] = w
        if o.kind == 'env':
            for x in g[1:]:
                ok = x[0].heap[i].f
                for k in list(nf):
                    if k not in ok:
                        nf[k] = UNBOUND
                        ch = True
                for k in ok:
                    if k not in nf:
                        nf[k] = UNBOUND
                        ch = True
        if ch:
            c = o.copy()
            c.f = nf
            for x in g[1:]:
                c.sites.update(x[0].heap[i].sites)
            st.heap[i] = c
            st.own.add(i)
    # inequality hints
    if I.hints is not None:
        for mk in I.hints(I, st, ids):
            # mk: function(table) -> poly required >= 0
            try:
                ps = [mk(t) for t in tables]
                pm = mk(mp)
            except (KeyError, ZeroDivisionError, P.TooBig):
                continue
            if pm is None or pm.is_const():
                continue
            if K == 1 and pm == ps[0]:
                continue
            strict = True
            ok = True
            for p, o in zip(ps, fs):
                if p is None:
                    ok = False
                    break
                try:
                    sg = o.sign(p)
                except ZeroDivisionError:
                    sg = '?'
                if sg == '+':
                    continue
                if sg in ('0+', '0'):
                    strict = False
                    continue
                if sg in ('?', '-', '0-', '!0') and I.deep and getattr(mk, 'deep', True) and o.prove(p, False, True):
                    if sg == '-':
                        o.dead = True       # contradictory facts: no such execution
                    strict = False
                    continue
                ok = False
                break
            if ok:
                st.facts.assume(pm, '>' if strict else '>=')
    # signs of the joined values
    for k in free:
        sg = None
        for t, o in zip(tables, fs):
            s = o.sign(t[k])
            sg = s if sg is None else _join_sign(sg, s)
            if sg == '?':
                break
        v = phi[k]
        if sg == '+':
            st.facts.assume(v, '>')
        elif sg in ('0+',):
            st.facts.assume(v, '>=')
        elif sg == '-':
            st.facts.assume(v, '<')
        elif sg == '0-':
            st.facts.assume(v, '<=')
        elif sg == '!0':
            st.facts.assume(v, '!=')
    vals = tuple(_rebuild(('v', j), v, mp) for j, v in enumerate(vals1))
    return st, vals


def _join_sign(a, b):
    if a == b:
        return a
    s = {a, b}
    if s <= {'+', '0+', '0'}:
        return '0+'
    if s <= {'-', '0-', '0'}:
        return '0-'
    if s <= {'+', '-', '!0'}:
        return '!0'
    return '?'
