"""Model of the used part of pandas.

A frame is an object of kind 'frame': column name -> value of a generic row (a
polynomial over symbols named 'row:...').  Meta entries start with '#':
'#index' (generic index value), '#sorted', '#window' (row selections applied),
'#source'.  Only row-wise operations keep their meaning; everything else
becomes an opaque term, which no obligation accepts.
"""
from . import poly as P
from .poly import Poly
from .values import Ref, HObj, Ser, Slice, ExtMeth


def _M():
    from . import models
    return models


def is_frame(st, o):
    return isinstance(o, Ref) and o.id in st.heap and st.heap[o.id].kind == 'frame'


def cols(h):
    return [k for k in h.f if not (isinstance(k, str) and k.startswith('#'))]


def new(st, values, meta):
    d = dict(meta)
    d.update(values)
    return st.alloc(HObj('frame', None, d))


def meta(h):
    return {k: v for k, v in h.f.items() if isinstance(k, str) and k.startswith('#')}


def io(st, *what):
    st.ghost['io'] = st.ghost.get('io', ()) + (what,)


def ser(o, v):
    return Ser(v, ('frame', o.id))


def key_error(I, st, fr, n, k):
    I.event('nokey', fr, n, 'no column %r in the table' % (k,))
    I.raise_(st, 'KeyError', fr, n, (k,))
    return []


def index_value(h):
    return h.f.get('#index', P.sym('row:number'))


def frame_get(I, o, k, st, fr, n):
    h = st.get(o)
    if isinstance(k, str):
        if k in h.f and not k.startswith('#'):
            return [(st, ser(o, h.f[k]))]
        if h.f.get('#open'):
            v = P.sym('row:%s' % k, {'row:' + k})
            st.w(o).f[k] = v
            return [(st, ser(o, v))]
        return key_error(I, st, fr, n, k)
    if isinstance(k, Ref) and st.get(k).kind == 'list' or isinstance(k, tuple):
        names, st = _M().iterate(I, k, st, fr, n)
        if names is not None and all(isinstance(x, str) for x in names):
            out = {}
            for c in names:
                if c not in h.f:
                    return key_error(I, st, fr, n, c)
                out[c] = h.f[c]
            m = meta(h)
            if len(set(names)) != len(names):
                m['#duplicates'] = True
            m['#names'] = tuple(names)
            return [(st, new(st, out, m))]
    if isinstance(k, Ser) and isinstance(k.val, bool):
        return [(st, select(st, o, ('mask', k.val)))]
    if isinstance(k, Slice):
        return [(st, select(st, o, ('rows', k.lo, k.hi)))]
    return [(st, _M().opaque('frame.item', [o, k]))]


def select(st, o, what):
    h = st.get(o)
    d = dict(h.f)
    if what[0] == 'rows' and what[1] is None and what[2] is None:
        return st.alloc(HObj('frame', None, d))
    d['#window'] = d.get('#window', ()) + (what + (bool(d.get('#sorted')),),)
    return st.alloc(HObj('frame', None, d))


def frame_binop(I, op, a, b, st, fr, n):
    M = _M()
    h = st.get(a if is_frame(st, a) else b)
    out = [(st, {})]
    for c in cols(h):
        x = st.get(a).f.get(c) if is_frame(st, a) else a
        y = st.get(b).f.get(c) if is_frame(st, b) else b
        nxt = []
        for s, d in out:
            if x is None or y is None:
                nxt.append((s, dict(d, **{c: P.sym('nan')})))
                continue
            for s2, v in M.binop(I, op, x, y, s, fr, n):
                nxt.append((s2, dict(d, **{c: v.val if isinstance(v, Ser) else v})))
        out = nxt
    return [(s, new(s, d, meta(h))) for s, d in out]


def from_rows(st, v):
    """generic value of a column given as the list of its row values"""
    M = _M()
    if not (isinstance(v, Ref) and st.get(v).kind == 'list'):
        return None
    items = [st.get(v).f.get(i) for i in range(len(st.get(v).f))]
    if len(items) != M.NROWS:
        return None
    mp = {}
    x = items[0]
    if not isinstance(x, Poly):
        return x if all(y == x for y in items) else None
    for at in P.deep_atoms(x):
        d = P.ATOMS[at]
        if d[0] == 's' and d[1].startswith('row:') and d[1].endswith('@0'):
            mp[at] = P.sym(d[1][:-2], P.LABELS[at])
    g = P.subst(x, mp) if mp else x
    return g if all(isinstance(y, Poly) and M.row_value(g, i) == y for i, y in enumerate(items)) else None


def frame_set(I, o, k, v, st, fr, n):
    if isinstance(k, str):
        if I.on_write:
            I.on_write(st, o, k, v, fr, n)
        if isinstance(v, Ref):
            g = from_rows(st, v)
            v = g if g is not None else P.fresh('col')
        st.w(o).f[k] = v.val if isinstance(v, Ser) else v
        st.w(o).sites[k] = (fr.file, getattr(n, 'lineno', 0), fr.qual)
        return [st]
    if isinstance(k, Ser) and isinstance(k.val, bool):
        if k.val:
            for c in cols(st.get(o)):
                st.w(o).f[c] = v.val if isinstance(v, Ser) else v
        return [st]
    if isinstance(k, Ref) and st.get(k).kind == 'list':
        names, st = _M().iterate(I, k, st, fr, n)
        if names is not None and all(isinstance(x, str) for x in names):
            src = st.get(v).f if is_frame(st, v) else None
            vals = list(src.values()) if src is not None else None
            for i, c in enumerate(names):
                if src is not None:
                    st.w(o).f[c] = src[c] if c in src else P.fresh('col')
                else:
                    st.w(o).f[c] = v.val if isinstance(v, Ser) else v
            return [st]
    for c in cols(st.get(o)):
        st.w(o).f[c] = P.fresh('col')
    return [st]


def loc_get(I, o, k, st, fr, n):
    l = st.get(o)
    fo = l.f['frame']
    h = st.get(fo)
    rows, col = k if isinstance(k, tuple) and len(k) == 2 else (k, None)
    whole = isinstance(col, Slice) and col.lo is None and col.hi is None or col is None
    if isinstance(rows, Slice):
        if l.f.get('name') == 'iloc':
            sub = select(st, fo, ('positions', rows.lo, rows.hi)) if not (rows.lo is None and rows.hi is None) else select(st, fo, ('rows', None, None))
        else:
            sub = select(st, fo, ('rows', rows.lo, rows.hi))
    elif isinstance(rows, Ser) and isinstance(rows.val, bool):
        sub = select(st, fo, ('mask', rows.val))
    elif isinstance(rows, Poly):
        # one row
        i = row_number(st, h, rows)
        if whole:
            if l.f.get('name') == 'iloc' and rows.is_const():
                i = int(rows.const()) % _M().NROWS
            if i is None:
                return [(st, _M().opaque('row', [fo, rows]))]
            d = {c: _M().row_value(h.f[c], i) for c in cols(h)}
            return [(st, st.alloc(HObj('dict', None, d)))]
        if isinstance(col, str) and i is not None and col in h.f:
            return [(st, _M().row_value(h.f[col], i))]
        return [(st, _M().opaque('row', [fo, rows, col]))]
    else:
        return [(st, _M().opaque('rows', [fo, rows]))]
    if whole:
        return [(st, sub)]
    return frame_get(I, sub, col, st, fr, n)


def row_number(st, h, label):
    idx = index_value(h)
    for i in range(_M().NROWS):
        if _M().row_value(idx, i) == label:
            return i
    return None


def loc_set(I, o, k, v, st, fr, n):
    l = st.get(o)
    fo = l.f['frame']
    rows, col = k if isinstance(k, tuple) and len(k) == 2 else (k, None)
    names = [col] if isinstance(col, str) else cols(st.get(fo)) if col is None or isinstance(col, Slice) else None
    if names is None:
        names, st = _M().iterate(I, col, st, fr, n)
    hit = None
    if isinstance(rows, Slice) and rows.lo is None and rows.hi is None:
        hit = True
    elif isinstance(rows, Ser) and isinstance(rows.val, bool):
        hit = rows.val
    x = v.val if isinstance(v, Ser) else v
    for c in names or cols(st.get(fo)):
        if c not in st.get(fo).f:
            st.w(fo).f[c] = x if hit else P.sym('nan')
            continue
        if I.on_write:
            I.on_write(st, fo, c, v, fr, n)
        if hit is True:
            st.w(fo).f[c] = x
        elif hit is None:
            st.w(fo).f[c] = P.fresh('col')
    return [st]


METHODS = {'rename', 'sort_index', 'sort_values', 'to_dict', 'to_csv', 'set_index', 'reset_index', 'drop', 'copy', 'dropna', 'fillna',
           'iterrows', 'itertuples', 'head', 'tail', 'apply', 'assign', 'items', 'iteritems', 'astype', 'tz_localize', 'tz_convert', 'keys',
           'pop', 'insert', 'join', 'merge', 'groupby', 'resample', 'round', 'get', 'filter', 'reindex', 'map', 'applymap', 'add', 'sub', 'mul',
           'div', 'query', 'where', 'mask', 'clip', 'isnull', 'isna', 'notnull', 'sum', 'mean', 'min', 'max', 'any', 'all', 'diff', 'describe',
           'between_time', 'truncate', 'update', 'pipe', 'transform', 'set_axis', 'squeeze', 'equals', 'append', 'duplicated', 'drop_duplicates'}


def frame_attr(I, o, name, st, fr, n):
    h = st.get(o)
    if name == 'index':
        return [(st, Ser(index_value(h), ('frame', o.id, '#index')))]
    if name in ('loc', 'iloc', 'at', 'iat'):
        return [(st, st.alloc(HObj('loc', None, {'frame': o, 'name': name})))]
    if name == 'columns':
        return [(st, st.alloc(HObj('list', None, dict(enumerate(cols(h))))))]
    if name in ('empty',):
        return I.split_opaque(('empty', o.id), st)
    if name in ('shape', 'values', 'dtypes', 'size', 'T'):
        return [(st, _M().opaque('frame.' + name, [o]))]
    if name in METHODS:
        return [(st, ExtMeth(name, o))]
    if name in h.f or h.f.get('#open'):
        return frame_get(I, o, name, st, fr, n)
    I.event('noattr', fr, n, "table has no column or attribute '%s'" % name)
    I.raise_(st, 'AttributeError', fr, n, (name,))
    return []


def frame_setattr(I, o, name, v, st, fr, n):
    h = st.get(o)
    if name == 'index':
        if I.on_write:
            I.on_write(st, o, '#index', v, fr, n)
        st.w(o).f['#index'] = v.val if isinstance(v, Ser) else P.fresh('index')
        return [st]
    if name == 'columns':
        names, st = _M().iterate(I, v, st, fr, n)
        old = cols(h)
        if names is not None and len(names) == len(old) and all(isinstance(x, str) for x in names):
            d = meta(h)
            for a, b in zip(old, names):
                d[b] = h.f[a]
            st.w(o).f = d
        return [st]
    if name in h.f:
        return frame_set(I, o, name, v, st, fr, n)
    # a new python attribute, not a column
    I.event('note', fr, n, 'attribute %s set on a table' % name)
    return [st]


def put(st, o, d, inplace):
    """result of a method that returns a changed copy or changes in place"""
    if inplace is True:
        w = st.w(o)
        w.f = d
        return [(st, None)]
    return [(st, st.alloc(HObj('frame', None, d)))]


def frame_method(I, o, name, args, kw, st, fr, n):
    M = _M()
    h = st.get(o)
    if h.kind == 'loc':
        return [(st, M.opaque('.' + name, [o] + list(args)))]
    inplace = kw.get('inplace', False)
    if inplace is True and I.on_write:
        I.on_write(st, o, '<all>', None, fr, n)
    if name in ('copy', 'squeeze', 'infer_objects'):
        return [(st, st.alloc(HObj('frame', None, dict(h.f))))]
    if name == 'rename':
        mp = kw.get('columns', args[0] if args and kw.get('axis') in ('columns', None) and 'columns' not in kw else None)
        if kw.get('axis') is not None and args:
            mp = args[0]
        if isinstance(mp, Ref) and st.get(mp).kind == 'dict' and ('columns' in kw or kw.get('axis') in ('columns', P.ONE)):
            m = st.get(mp).f
            d = meta(h)
            names = []
            for c in cols(h):
                b = m.get(c, c)
                if not isinstance(b, str):
                    b = c
                if b in d:
                    d['#duplicates'] = True
                d[b] = h.f[c]
                names.append(b)
            return put(st, o, d, inplace)
        if 'columns' not in kw:
            return put(st, o, dict(h.f), inplace)
        return put(st, o, {c: (P.fresh('col') if not c.startswith('#') else v) for c, v in h.f.items()}, inplace)
    if name == 'sort_index':
        asc = kw.get('ascending', args[1] if len(args) > 1 else True)
        d = dict(h.f)
        d['#sorted'] = asc is True
        if not d['#sorted']:
            d['#order'] = 'other'
        return put(st, o, d, inplace)
    if name == 'sort_values':
        d = dict(h.f)
        d['#sorted'] = False
        d['#order'] = 'other'
        return put(st, o, d, inplace)
    if name in ('tz_localize', 'tz_convert'):
        d = dict(h.f)
        d['#index'] = M.opaque('.' + name, [index_value(h)] + list(args) + [kw[k] for k in sorted(kw)])
        return put(st, o, d, inplace)
    if name == 'set_index':
        k = args[0] if args else kw.get('keys')
        d = dict(h.f)
        if isinstance(k, Ser):
            d['#index'] = k.val
        elif isinstance(k, str) and k in d:
            d['#index'] = d[k] if kw.get('drop') is False else d.pop(k)
            d['#index_name'] = k
        else:
            return key_error(I, st, fr, n, k)
        d['#sorted'] = False
        d['#order'] = h.f.get('#order')
        return put(st, o, d, inplace)
    if name == 'reset_index':
        d = dict(h.f)
        if not kw.get('drop'):
            d[h.f.get('#index_name', 'index')] = index_value(h)
        d['#index'] = P.sym('row:number')
        return put(st, o, d, inplace)
    if name == 'drop':
        names = kw.get('columns', None)
        if names is None and args and kw.get('axis') in (P.ONE, 'columns'):
            names = args[0]
        if names is not None:
            lst = [names] if isinstance(names, str) else M.iterate(I, names, st, fr, n)[0]
            if lst is not None:
                d = dict(h.f)
                for c in lst:
                    if c not in d:
                        return key_error(I, st, fr, n, c)
                    d.pop(c)
                return put(st, o, d, inplace)
        return put(st, o, dict(st.get(select(st, o, ('drop', tuple(str(a) for a in args)))).f), inplace)
    if name in ('dropna', 'head', 'tail', 'query', 'truncate', 'drop_duplicates', 'between_time'):
        lo, hi = kw.get('before'), kw.get('after')
        if name == 'truncate':
            r = select(st, o, ('rows', lo, hi))
        else:
            r = select(st, o, (name, tuple(str(a) for a in args)))
        return put(st, o, dict(st.get(r).f), inplace)
    if name == 'assign':
        d = dict(h.f)
        out = [(st, d)]
        for k, v in kw.items():
            nxt = []
            for s, dd in out:
                if hasattr(v, 'node') or type(v).__name__ in ('Func', 'Bound'):
                    tmp = s.alloc(HObj('frame', None, dict(dd)))
                    for s2, r in I.call(v, [tmp], {}, s, fr, n):
                        d2 = dict(dd)
                        d2[k] = r.val if isinstance(r, Ser) else r
                        nxt.append((s2, d2))
                else:
                    d2 = dict(dd)
                    d2[k] = v.val if isinstance(v, Ser) else v
                    nxt.append((s, d2))
            out = nxt
        return [(s, s.alloc(HObj('frame', None, dd))) for s, dd in out]
    if name == 'to_dict':
        how = args[0] if args else kw.get('orient', 'dict')
        if how == 'index':
            d = {}
            for i in range(M.NROWS):
                row = st.alloc(HObj('dict', None, {c: M.row_value(h.f[c], i) for c in cols(h)}))
                d[M.vkey(M.row_value(index_value(h), i))] = row
            st.ghost['rows of'] = o
            return [(st, st.alloc(HObj('dict', None, d)))]
        if how == 'records':
            d = {i: st.alloc(HObj('dict', None, {c: M.row_value(h.f[c], i) for c in cols(h)})) for i in range(M.NROWS)}
            st.ghost['rows of'] = o
            return [(st, st.alloc(HObj('list', None, d)))]
        return [(st, M.opaque('.to_dict', [o] + list(args)))]
    if name in ('iterrows', 'itertuples'):
        rows = []
        for i in range(M.NROWS):
            row = st.alloc(HObj('dict', None, {c: M.row_value(h.f[c], i) for c in cols(h)}))
            rows.append((M.row_value(index_value(h), i), row) if name == 'iterrows' else row)
        st.ghost['rows of'] = o
        return [(st, st.alloc(HObj('list', None, dict(enumerate(rows)))))]
    if name in ('items', 'iteritems'):
        return [(st, st.alloc(HObj('list', None, {i: (c, ser(o, h.f[c])) for i, c in enumerate(cols(h))})))]
    if name == 'keys':
        return [(st, st.alloc(HObj('list', None, dict(enumerate(cols(h))))))]
    if name == 'get':
        if args[0] in h.f:
            return [(st, ser(o, h.f[args[0]]))]
        return [(st, args[1] if len(args) > 1 else None)]
    if name == 'pop':
        if args[0] not in h.f:
            return key_error(I, st, fr, n, args[0])
        v = st.w(o).f.pop(args[0])
        return [(st, ser(o, v))]
    if name == 'insert':
        st.w(o).f[args[1]] = args[2].val if isinstance(args[2], Ser) else args[2]
        return [(st, None)]
    if name == 'reindex':
        c = kw.get('columns')
        if c is not None:
            return frame_get(I, o, c, st, fr, n)
    if name == 'astype':
        if to_float(args, kw):
            return [(st, st.alloc(HObj('frame', None, dict(h.f))))]
        d = {c: (v if c.startswith('#') else M.opaque('.astype', [v] + list(args))) for c, v in h.f.items()}
        return [(st, st.alloc(HObj('frame', None, d)))]
    if name == 'to_csv':
        path = args[0] if args else kw.get('path_or_buf')
        extra = {k: v for k, v in kw.items() if k != 'path_or_buf'}
        io(st, 'to_csv', path, dict(h.f), extra)
        return [(st, None)]
    if name in ('apply', 'applymap', 'transform', 'map', 'fillna', 'add', 'sub', 'mul', 'div', 'round', 'clip', 'where', 'mask'):
        d = {c: (v if c.startswith('#') else M.opaque('frame.' + name, [v] + list(args))) for c, v in h.f.items()}
        return put(st, o, d, inplace)
    return [(st, M.opaque('.' + name, [o] + list(args)))]


def to_float(args, kw):
    t = args[0] if args else kw.get('dtype')
    return t in ('float', 'float64', 'f8', 'd') or 'float' in str(getattr(t, 'path', ''))


def ser_method(I, o, name, args, kw, st, fr, n):
    M = _M()
    v = o.val
    kargs = list(args) + [kw[k] for k in sorted(kw)]
    if name in ('copy', 'to_series', 'to_frame', 'squeeze', 'to_numpy', 'tolist', 'to_list', 'ravel', 'flatten', 'reshape', 'compute'):
        return [(st, o)]
    if name == 'astype':
        return [(st, o if to_float(args, kw) else Ser(M.opaque('.astype', [v] + kargs), o.src))]
    if name in ('map', 'apply', 'transform'):
        f = args[0] if args else kw.get('func', kw.get('arg'))
        if isinstance(f, Ref) and st.get(f).kind == 'dict':
            return [(st, Ser(M.opaque('map', [v, f]), o.src))]
        return [(s, Ser(r.val if isinstance(r, Ser) else r, o.src)) for s, r in I.call(f, [v], {}, st, fr, n)]
    if name in ('where', 'mask'):
        c = args[0]
        other = args[1] if len(args) > 1 else kw.get('other', P.sym('nan'))
        x = other.val if isinstance(other, Ser) else other
        b = c.val if isinstance(c, Ser) else c
        if isinstance(b, bool):
            return [(st, Ser(v if b == (name == 'where') else x, o.src))]
    if name == 'clip' and isinstance(v, Poly):
        lo = args[0] if args else kw.get('lower', kw.get('min'))
        hi = args[1] if len(args) > 1 else kw.get('upper', kw.get('max'))
        return [(s, Ser(x.val if isinstance(x, Ser) else x, o.src)) for s, x in M.f_clip(I, [o, lo, hi], {}, st, fr, n)]
    if name in ('add', 'sub', 'mul', 'div', 'subtract', 'multiply', 'divide', 'gt', 'lt', 'ge', 'le', 'eq', 'ne'):
        import ast
        op = {'add': ast.Add, 'sub': ast.Sub, 'subtract': ast.Sub, 'mul': ast.Mult, 'multiply': ast.Mult, 'div': ast.Div, 'divide': ast.Div}.get(name)
        if op and args:
            return M.binop(I, op(), o, args[0], st, fr, n)
    if name in ('diff',):
        fo = o.src[1] if isinstance(o.src, tuple) and o.src[0] == 'frame' else None
        srt = bool(fo is not None and fo in st.heap and st.heap[fo].f.get('#sorted'))
        return [(st, Ser(M.opaque('diff' if srt else 'diff_unsorted', [v]), o.src))]
    if name in ('dropna', 'unique', 'drop_duplicates'):
        return [(st, Ser(v, o.src))]
    if name in ('median', 'mode', 'min', 'max', 'mean', 'sum', 'std', 'count', 'any', 'all', 'nunique', 'item', 'first', 'last'):
        return [(st, M.opaque('.' + name, [v] + kargs))]
    if name == 'format':
        return [(st, Ser(M.opaque('fmt', [v] + kargs), o.src))]
    if name == 'fillna':
        return [(st, Ser(M.opaque('.fillna', [v] + kargs), o.src))]
    return [(st, Ser(M.opaque('.' + name, [v] + kargs), o.src))]


# ------------------------------------------------------------------ constructors

def read_csv(I, args, kw, st, fr, n):
    path = args[0] if args else kw.get('filepath_or_buffer')
    io(st, 'read_csv', path, {k: v for k, v in kw.items() if k != 'filepath_or_buffer'})
    names = getattr(I, 'csv_columns', None)
    d = {'#source': path, '#sorted': False}
    ix = kw.get('index_col')
    for c in (names or []):
        if c == ix:
            continue
        d[c] = P.sym('row:' + c, {'row:' + c})
    if names is None:
        d['#open'] = True
    if ix is not None:
        d['#index'] = P.sym('row:%s' % (ix if isinstance(ix, str) else 'index'))
        d['#index_name'] = ix
    return [(st, st.alloc(HObj('frame', None, d)))]


def dataframe(I, args, kw, st, fr, n):
    M = _M()
    a = args[0] if args else kw.get('data')
    if is_frame(st, a):
        return [(st, st.alloc(HObj('frame', None, dict(st.get(a).f))))]
    if isinstance(a, Ref):
        h = st.get(a)
        if h.kind == 'list' and not (h.meta or {}).get('unknown'):
            rows = [x for x in h.f.values()]
            if rows and all(isinstance(x, Ref) and st.get(x).kind == 'dict' for x in rows):
                d = {'#sorted': False, '#source': 'records', '#order': 'records', '#index': P.sym('row:number')}
                first = st.get(rows[0]).f
                for k, v in first.items():
                    d[k] = v.val if isinstance(v, Ser) else v
                io(st, 'dataframe', len(rows))
                names = kw.get('columns')
                if names is not None:
                    o = st.alloc(HObj('frame', None, d))
                    return frame_get(I, o, names, st, fr, n)
                ix = kw.get('index')
                if isinstance(ix, str) and ix in d:
                    d['#index'] = d.pop(ix)
                    d['#index_name'] = ix
                return [(st, st.alloc(HObj('frame', None, d)))]
        if h.kind == 'dict':
            d = {'#sorted': False, '#source': 'dict', '#index': P.sym('row:number')}
            for k, v in h.f.items():
                d[k] = v.val if isinstance(v, Ser) else v
            return [(st, st.alloc(HObj('frame', None, d)))]
    return [(st, M.opaque('call:pandas.DataFrame', [a] if a is not None else []))]


def register(reg):
    reg('pandas.read_csv pandas.read_table', read_csv)
    reg('pandas.DataFrame pandas.DataFrame.from_records pandas.DataFrame.from_dict', dataframe)
