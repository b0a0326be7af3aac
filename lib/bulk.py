"""Large queries: many elements in one or a few clauses, long unions, deep nesting.

Most bugs of this kind are about a size (a cache, a chunk, a fast path), so the
elements are simple and the sizes varied, in one call or in many.
"""
from .shadow import Op, ShDelete, ShInsert, ShSelect, ShUnion, ShUpdate
from .spec import Cond, QT, RelA, Seq, Sub, Val


def size(g, cap=1100):
    return g.size(min(cap, g.wpick((6, 40), (3, 120), (1.5, 300), (0.2, 1100))))


def names(g, n, prefix=None):
    p = g.pick(['c', 'n.c', 'a b', "o'x", g.simple() + '_']) if prefix is None else prefix
    w = len(str(n)) if g.p(0.5) else 0
    out = ['%s%0*d' % (p, w, i) for i in range(n)]
    for _ in range(g.r.randrange(0, 3)):                # a few unlike the others
        out[g.r.randrange(n)] = g.name() + '_%d' % g.r.randrange(10**6)
    if g.p(0.3):
        g.r.shuffle(out)
    return out


def values(g, n):
    k = g.r.random()
    if k < 0.4:
        return [Val(i) for i in range(n)]
    if k < 0.7:
        kinds = g.pick(['i', 's', 'sif', 'fd', 'DT', 'sn', 'b'])
        return [g.scalar(kinds) for _ in range(n)]
    vs = [g.scalar('sifdbDTn') for _ in range(g.r.randrange(1, 4))]
    return [g.pick(vs) for _ in range(n)]


def chunks(g, items):
    """The items in one call, one per call, or in several calls."""
    k = g.r.random()
    if k < 0.5:
        return [items]
    n = 1 if k < 0.7 else g.r.randrange(1, len(items) + 1)
    return [items[i:i + n] for i in range(0, len(items), n)]


def pairs(g, sh, method, items, d):
    for part in chunks(g, items):
        call, order = g.pairs_call(part)
        sh.apply(Op(method, *call, content=order), d)


def conditions(g, sh, method, n, d):
    cs = [Cond(c, v) for c, v in zip(names(g, n), values(g, n))]
    k = g.r.random()
    if k < 0.2:
        v = Seq(values(g, n), g.pick(['list', 'tuple', 'gen']))
        v.items = [i for i in v.items if i.v is not None] or [Val(1)]
        c = Cond('x', v if g.p(0.5) else RelA(g.pick(['IN', 'NOT_IN']), v))
        sh.apply(Op(method, [c.col, c.val], {}, [c]), d)
    elif k < 0.35:
        op = g.pick(['and', 'or', None])
        q = None
        for c in cs[:60]:
            leaf = QT('leaf', [c], ([c.col, c.val], {}))
            q = leaf if q is None else QT(op or g.pick(['and', 'or']), [q, leaf] if g.p(0.8) else [leaf, q])
        sh.apply(Op(method, [q], {}, [q]), d)
    elif k < 0.45:
        qs = [QT('leaf', [c], ([c.col, c.val], {})) for c in cs]
        for part in chunks(g, qs):
            sh.apply(Op(method, part, {}, part), d)
    else:
        for part in chunks(g, cs):
            call, order = g.cond_call(part)
            sh.apply(Op(method, *call, content=order), d)


def assignments(g, sh, method, n, d):
    for part in chunks(g, list(zip(names(g, n), values(g, n)))):
        call, order = g.values_call(part)
        sh.apply(Op(method, *call, content=order), d)


def joins(g, sh, n, d, tables):
    kinds = ['join', 'inner_join', 'left_join', 'right_join'] + (['full_join'] if d == 'postgresql' and sh.kind == 'select' else [])
    same = g.p(0.4)
    on = Cond('a.id', Val('b.id'))
    for i, name in enumerate(names(g, min(n, 150))):
        alias = 'k%d' % i if g.p(0.5) else None
        sh.apply(Op(g.pick(kinds), [(name, alias)], {}, (name, alias)), d)
        for _ in range(g.r.randrange(0, 3)):
            c = on if same else Cond('a%d' % i, Val(g.name()))
            if c in tables.items[-1].joins[-1].ons:
                break
            sh.apply(Op('on', [c.col, c.val], {}, [c]), d)
    if g.p(0.5):
        for op in g.dup_join(tables, False) or []:
            sh.apply(op, d)


def select(g, d, clauses=None):
    sh = ShSelect(('select', [], {}))
    if g.p(0.7):
        t = g.simple()
        sh = ShSelect(('select_from', [t], {}), tables=[(t, None)])
    clauses = clauses or g.r.sample(['columns', 'from_', 'joins', 'where', 'having', 'group_by', 'order_by'], g.pick([1, 1, 1, 2, 3]))
    for c in clauses:
        n = size(g)
        if c == 'columns' or c == 'from_':
            alias = g.pick(['no', 'yes', 'some'])
            xs = [(x, None if alias == 'no' or alias == 'some' and g.p(0.5) else 'z%d' % i) for i, x in enumerate(names(g, n))]
            pairs(g, sh, c, xs, d)
        elif c == 'joins':
            if sh.tables.items:
                joins(g, sh, n, d, sh.tables)
        elif c in ('where', 'having'):
            conditions(g, sh, c, n, d)
        else:
            way = g.pick(['asc', 'desc', None, 'any'])
            pairs(g, sh, c, [(x, g.pick(['asc', 'desc', None]) if way == 'any' else way) for x in names(g, n)], d)
    return sh


def insert(g, d, cap=1100):
    """Many rows, many columns, columns that only late rows have."""
    t = g.simple()
    sh = ShInsert(('insert_into', [t], {}), tables=[(t, None)])
    k = g.r.random()
    rows = size(g, cap) if k < 0.7 else g.r.randrange(1, 4)
    ncols = g.r.randrange(1, 5) if k < 0.7 else size(g, cap)
    cols = names(g, ncols)
    late = {}
    for i in range(g.r.randrange(0, 4)):
        late.setdefault(rows - 1 if g.p(0.5) else g.r.randrange(rows), []).append('late%d' % i)
    same = g.p(0.6)
    for i in range(rows):
        mine = (cols if same or len(cols) < 2 else g.r.sample(cols, g.r.randrange(1, len(cols) + 1))) + late.get(i, [])
        call, order = g.values_call(list(zip(mine, values(g, len(mine)))))
        sh.apply(Op('values', *call, content=order), d)
    if d in ('mysql', 'postgresql') and g.p(0.2):
        call, order = g.values_call(list(zip(names(g, size(g, 40)), values(g, 40))))
        args, kwds = call
        target = None if d == 'mysql' else 'key'
        sh.apply(Op('on_duplicate_key_update', ([target] if target else []) + list(args), kwds, (target, order)), d)
    sh.pool = (cols[:3] + ['late0', 'x'])
    return sh


def update(g, d):
    t = g.simple()
    sh = ShUpdate(('update', [t], {}), tables=[(t, None)])
    k = g.pick(['set', 'where', 'both', 'joins'])
    assignments(g, sh, 'set', size(g) if k in ('set', 'both') else 1, d)
    if k in ('where', 'both'):
        conditions(g, sh, 'where', size(g), d)
    if k == 'joins':
        joins(g, sh, size(g), d, sh.tables)
    if not sh.where:
        sh.apply(Op('allow_update_all'), d)
    return sh


def delete(g, d):
    k = g.pick(['tables', 'refs', 'where', 'joins'])
    tabs = [(x, None) for x in names(g, size(g))] if k == 'tables' else []
    refs = [(x, g.pick([None, 'z%d' % i])) for i, x in enumerate(names(g, size(g)))] if k == 'refs' else [(g.simple(), None)]
    if tabs:
        sh = ShDelete(('delete', [t for t, _ in tabs], {}), tables=tabs)
        pairs(g, sh, 'from_', refs, d)
    else:
        call, order = g.pairs_call(refs)
        sh = ShDelete(('delete_from',) + call, refs=order)
    if k == 'where':
        conditions(g, sh, 'where', size(g), d)
    if k == 'joins':
        joins(g, sh, size(g), d, sh.refs)
    if not sh.where:
        sh.apply(Op('allow_delete_all'), d)
    return sh


def union(g, n=None):
    n = n or g.r.randrange(6, 40)
    q = None
    kind = g.pick(['UNION', 'UNION ALL', None])
    for x in names(g, n):
        s = ShSelect(('select', [x], {}), cols=[(x, None)])
        if g.p(0.2):
            s.apply(Op('from_', ['t'], {}, [('t', None)]))
        op = kind or g.pick(['UNION', 'UNION ALL'])
        q = s if q is None else ShUnion(q, op, s) if g.p(0.9) else ShUnion(s, op, q)
    return q


def deep(g, n=None):
    """Queries in queries."""
    sh = g.select(0, ncalls=(0, 2), weights=dict(outfile=0))
    for i in range(n or g.r.randrange(4, 12)):
        outer = ShSelect(('select', ['c%d' % i], {}), cols=[('c%d' % i, None)])
        s = Sub(sh)
        p = g.pick(['from', 'column', 'in', 'eq', 'having', 'join'])
        if p == 'from':
            outer.apply(Op('from_', [(s, 's%d' % i)], {}, [(s, 's%d' % i)]))
        elif p == 'column':
            outer.apply(Op('columns', [(s, 's%d' % i)], {}, [(s, 's%d' % i)]))
        elif p == 'join':
            outer.apply(Op('from_', ['t'], {}, [('t', None)]))
            outer.apply(Op('join', [(s, 's%d' % i)], {}, (s, 's%d' % i)))
        else:
            outer.apply(Op('from_', ['t'], {}, [('t', None)]))
            c = Cond('k%d' % i, RelA('IN', s) if p == 'in' else s)
            outer.apply(Op('having' if p == 'having' else 'where', [c.col, c.val], {}, [c]))
        sh = outer
        if g.p(0.1):
            other = ShSelect(('select', ['u'], {}), cols=[('u', None)])
            outer.limit = None
            sh = ShUnion(sh, g.pick(['UNION', 'UNION ALL']), other)
    return sh


def query(g, d, kinds=('select', 'select', 'insert', 'update', 'delete')):
    """A large model of one of the kinds."""
    k = g.pick(list(kinds))
    if k == 'select':
        return select(g, d)
    if k == 'union':
        return union(g)
    if k == 'deep':
        return deep(g)
    return {'insert': insert, 'update': update, 'delete': delete}[k](g, d)
