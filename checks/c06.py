"""C06: all calling styles are equivalent and nothing passed to a call is silently lost."""
import sys

import _path                                                 # noqa: F401
from lib import runner
from lib.boot import DIALECTS, exc, sp
from lib.gen import KEYWORDISH, G
from lib.judge import Violation, ast_of, configure
from lib.parser import mk_and
from lib.spec import RW, VW, Cond, RelA, Seq, Val, mk, name_exp

PROP = 'C06'
QUICK, THOROUGH = 250000, 3000000
RULE = ('One content (conditions, assignments, columns, tables, orderings) is passed to every method that takes it in several '
        'calling styles, also split over calls; each rendered statement, parsed, must hold exactly that content. Ill-shaped '
        'arguments must raise InvalidArgumentException. Distinct = distinct rendered statements or refused calls.')
ASSUMPTIONS = ['falsy table arguments (None, \'\', ()) mean "no table"; SQL objects passed as two positional arguments of where() are a pair']
NEED = ('observations', 'where', 'having', 'on', 'Q', 'Not', 'set', 'values', 'upsert', 'columns', 'tables', 'group_by', 'order_by', 'join',
        'group_concat', 'ill-shaped refused', 'mixed keys', 'dict and named arguments with common names')


def conjuncts(a):
    return sorted(map(repr, a[1] if a[0] == 'and' else (a,)))


def sel(d, text, part):
    return dict(ast_of(text, d)[1])[part]


# ---------------------------------------------------------------- pairs: conditions and assignments

def pair_methods(d):
    out = [('where', where_like('where')), ('having', where_like('having')), ('on', on_like), ('Q', q_like), ('Not', not_like),
           ('set', set_like), ('values', values_like), ('where', dml_where)]
    if d in ('mysql', 'postgresql'):
        out.append(('upsert', upsert_like))
    return out


def where_like(m):
    def f(g, calls, d):
        q = sp.select_from('t')
        for a, k in calls:
            getattr(q, m)(*a, **k)
        return str(q), lambda t: conjuncts(sel(d, t, m))
    return f


def dml_where(g, calls, d):
    q = sp.delete_from('t') if g.p(0.5) else sp.update('t').set(x=1)
    for a, k in calls:
        q.where(*a, **k)
    return str(q), lambda t: conjuncts(ast_of(t, d)[4])


def on_like(g, calls, d):
    q = sp.select_from('t').join('u')
    for a, k in calls:
        q.on(*a, **k)
    return str(q), lambda t: conjuncts(sel(d, t, 'tables')[0][2][0][3])


def q_like(g, calls, d):
    qs = [sp.Q(*a, **k) for a, k in calls]
    q = sp.select_from('t')
    k = g.r.randrange(4)
    if k == 0:
        for x in qs:
            q.where(x)
    elif k == 1:
        q.where(*qs)
    elif k == 2:
        q.where(sp.Q(*qs))
    else:
        x = qs[0]
        for y in qs[1:]:
            x = x & y
        q.where(x)
    return str(q), lambda t: conjuncts(sel(d, t, 'where'))


def not_like(g, calls, d):
    if len(calls) > 1:
        x = sp.Not(*[sp.Q(*a, **k) for a, k in calls])
    else:
        x = sp.Not(*calls[0][0], **calls[0][1])
    q = sp.select_from('t').where(x)

    def content(t):
        w = sel(d, t, 'where')
        if w[0] != 'not':
            raise Violation('no NOT', sql=t)
        return conjuncts(w[1])
    return str(q), content


def set_like(g, calls, d):
    q = sp.update('t')
    for a, k in calls:
        q.set(*a, **k)
    q.allow_update_all()
    return str(q), lambda t: sorted(map(repr, ast_of(t, d)[3]))


def values_like(g, calls, d):
    q = sp.insert_into('t')
    for a, k in calls[:1]:
        q.values(*a, **k)

    def content(t):
        a = ast_of(t, d)
        if a[0] != 'insert' or len(a[5]) != 1:
            raise Violation('not one row', sql=t)
        return sorted(repr(('assign', c, v)) for c, v in zip(a[4], a[5][0]))
    return str(q), content


def upsert_like(g, calls, d):
    q = sp.insert_into('t').values(a=1)
    for a, k in calls:
        q.on_duplicate_key_update(*(['id'] if d == 'postgresql' else []), *a, **k)
    return str(q), lambda t: sorted(map(repr, ast_of(t, d)[6][2]))


def pairs_case(g, d, M, ctx):
    label, f = g.pick(pair_methods(d))
    n = g.count(1, 6, 0.06)
    if label in ('set', 'values', 'upsert'):
        items = [Cond(c, g.value(1)) for c in g.unique(n)]
        want = sorted(repr(('assign', name_exp(c.col, d), c.val.exp(d))) for c in items)
    elif label == 'on':
        items = [Cond(c, g.wpick((2, lambda: g.scalar('ifbDTn')), (1, g.seq), (1, lambda: RelA('GT', Val(3))), (1, g.custom))())
                 for c in g.unique(n)]
        want = conjuncts(joined([c.exp(d) for c in items]))
    else:
        items = g.conds(n, 1, near=0)
        want = conjuncts(joined([c.exp(d) for c in items]))
    for _ in range(g.r.randrange(1, 4)):
        specs = []
        if label != 'values' and g.p(0.4):
            rest = list(items)
            g.r.shuffle(rest)
            while rest:
                k = g.r.randrange(1, len(rest) + 1)
                specs.append(g.cond_call(rest[:k])[0])
                rest = rest[k:]
        else:
            specs.append(g.cond_call(items)[0])
        ctx['call'] = '%s %s' % (label, specs)
        text, content = f(g, [(mk(list(a)), mk(dict(k))) for a, k in specs], d)
        M.saw(text)
        got = content(text)
        if got != want:
            raise Violation('content lost or changed: missing %s, extra %s' % (
                [x for x in want if x not in got], [x for x in got if x not in want]), sql=text)
        M[label] += 1


def joined(es):
    return mk_and(es)


# ---------------------------------------------------------------- names: columns, tables, orderings

def names_case(g, d, M, ctx):
    label = g.pick(['columns', 'columns', 'tables', 'tables', 'group_by', 'order_by', 'group_concat', 'join', 'delete'])
    n = g.count(1, 6, 0.05)
    if label == 'join':
        return join_case(g, d, M, ctx)
    second = {'columns': lambda: g.name(0) if g.p(0.6) else None, 'tables': lambda: g.name(0) if g.p(0.6) else None}.get(
        label, lambda: g.pick(['asc', 'desc', 'ASC', 'DESC', None]))
    if label == 'delete':
        second = lambda: None                                 # noqa: E731
    every = g.p(0.5)
    items = []
    for name in g.unique(n):
        s = second()
        if every and s is None and label != 'delete':
            s = 'al' if label in ('columns', 'tables') else 'desc'
        if g.p(0.08) and label != 'delete':
            name = g.pick([g.custom(), name])
        items.append((name, s))
    order = label in ('group_by', 'order_by', 'group_concat')
    want = sorted(repr((name_exp(a, d), (b or 'ASC').upper() if order else None if b is None else name_exp(b, d))) for a, b in items)
    for _ in range(g.r.randrange(1, 4)):
        specs = []
        rest = list(items)
        if g.p(0.4):
            g.r.shuffle(rest)
            while rest:
                k = g.r.randrange(1, len(rest) + 1)
                specs.append(g.pairs_call(rest[:k])[0])
                rest = rest[k:]
        else:
            specs.append(g.pairs_call(rest)[0])
        if label == 'group_concat' and any(k for _, k in specs):
            specs = [(list(a) + ([tuple(i) for i in k.items()] if not (len(a) == 1 and isinstance(a[0], dict)) else []), {})
                     if not (len(a) == 1 and isinstance(a[0], dict)) else ([tuple(i) for i in list(a[0].items()) + list(k.items())], {})
                     for a, k in specs]
        ctx['call'] = '%s %s' % (label, specs)
        calls = [(mk(list(a)), mk(dict(k))) for a, k in specs]
        if label == 'columns':
            (a, k), rest = calls[0], calls[1:]
            q = sp.select(*a, **k) if g.p(0.5) else sp.select().columns(*a, **k)
            for a, k in rest:
                q.columns(*a, **k)
            text = str(q)
            got = sel(d, text, 'cols')
        elif label == 'tables':
            (a, k), rest = calls[0], calls[1:]
            kind = g.pick(['select', 'delete'])
            how = g.r.randrange(3)
            if kind == 'select':
                q = sp.select_from(*a, **k) if how == 0 else getattr(sp.select(), ['', 'from_', 'from_tables'][how])(*a, **k)
            else:
                q = sp.delete_from(*a, **k) if how == 0 else getattr(sp.delete(), ['', 'from_', 'from_tables'][how])(*a, **k)
                q.allow_delete_all()
            for a, k in rest:
                if len(a) == 1 and not k and isinstance(a[0], str) and g.p(0.5):
                    q.from_table(a[0])
                else:
                    q.from_(*a, **k)
            text = str(q)
            got = [(e, al) for e, al, _ in (sel(d, text, 'tables') if kind == 'select' else ast_of(text, d)[3])]
        elif label == 'delete':
            calls = [([i[0] for i in items], {})] if g.p(0.5) else [([i[0]], {}) for i in items]
            q = sp.delete(*calls[0][0])
            for a, k in calls[1:]:
                q.delete(*a)
            q.from_('t').allow_delete_all()
            text = str(q)
            got = [(e, al) for e, al, _ in ast_of(text, d)[2]]
        elif label == 'group_concat':
            f = sp.group_concat('x')
            for a, k in calls:
                f.order_by(*a)
            text = str(sp.select(f))
            got = sel(d, text, 'cols')[0][0][4]
        else:
            q = sp.select_from('t')
            for a, k in calls:
                getattr(q, label)(*a, **k)
            text = str(q)
            got = sel(d, text, 'group' if label == 'group_by' else 'order')
        M.saw(text)
        got = sorted(map(repr, got))
        if got != want:
            raise Violation('content lost or changed: missing %s, extra %s' % (
                [x for x in want if x not in got], [x for x in got if x not in want]), sql=text)
        M[label] += 1


def join_case(g, d, M, ctx):
    name, alias = g.name(), g.name(0) if g.p(0.7) else None
    arg = g.pick([name, (name, None), [name, None]] if alias is None else [(name, alias), [name, alias], {name: alias}])
    m, t = g.pick([('join', 'INNER'), ('inner_join', 'INNER'), ('left_join', 'LEFT'), ('right_join', 'RIGHT')])
    ctx['call'] = '%s(%r)' % (m, arg)
    q = g.pick([lambda: sp.select_from('t'), lambda: sp.delete_from('t').allow_delete_all(),
                lambda: sp.update('t').set(a=1).allow_update_all()])()
    getattr(q, m)(arg).on('a', 'b')
    text = str(q)
    M.saw(text)
    a = ast_of(text, d)
    tables = dict(a[1])['tables'] if a[0] == 'select' else a[2] if a[0] == 'update' else a[3]
    want = (t, name_exp(name, d), None if alias is None else name_exp(alias, d))
    if len(tables) != 1 or len(tables[0][2]) != 1 or tables[0][2][0][:3] != want:
        raise Violation('another join: %r' % (tables,), sql=text)
    M['join'] += 1


# ---------------------------------------------------------------- a dict and named arguments with the same names

LIKE = [[1, True, 1.0, '1', 0.5], [0, False, 0.0, '', None], ['a', 'A', 'a ', ' a', "a'"], [None, 'None', 0], [2, 3, '2', 2.5],
        [[1], [1, 2], 1], [[None], None, [1, None]], [(1, 2), [2, 1]]]


def overlap_case(g, d, M, ctx):
    label = g.pick(['where', 'having', 'Q', 'set', 'set', 'where'])
    f = {'where': g.pick([where_like('where'), dml_where]), 'having': where_like('having'), 'Q': q_like, 'set': set_like}[label]
    args, kw, items = {}, {}, []
    for i in range(g.r.randrange(1, 4)):
        name = '%s%d' % (g.simple(), i)
        group = [x for x in g.pick(LIKE) if label != 'set' or not isinstance(x, (list, tuple))]
        x, y = g.r.sample(group, 2) if len(group) > 1 else (1, 2)
        wrap = lambda v: Seq([Val(i) for i in v]) if isinstance(v, (list, tuple)) else Val(v)     # noqa: E731
        args[name], kw[name] = wrap(x), wrap(y)
        items += [Cond(name, args[name]), Cond(name, kw[name])]
        if g.p(0.3):
            del kw[name], items[-1]
    ctx['call'] = '%s(%r, **%r)' % (label, args, kw)
    want = sorted(repr(('assign', name_exp(c.col, d), c.val.exp(d))) for c in items) if label == 'set' else conjuncts(joined([c.exp(d) for c in items]))
    split = g.p(0.2)
    text, content = f(g, [(mk([args]), {}), ([], mk(kw))] if split and kw else [(mk([args]), mk(kw))], d)
    M.saw(text)
    got = content(text)
    if set(got) != set(want):               # 1 and True may be the same literal
        raise Violation('content lost or changed: missing %s, extra %s' % (
            [x for x in want if x not in got], [x for x in got if x not in want]), sql=text)
    M['dict and named arguments with common names'] += 1


# ---------------------------------------------------------------- dicts with keys of several types

def mixed_keys(g, kinds):
    """Distinct keys: names, numbers and SQL objects together."""
    out = []
    for i in range(g.r.randrange(2, 6)):
        k = g.pick(kinds)
        name = '%s%d' % (g.simple(), i)
        out.append({'name': lambda: name, 'R': lambda: RW(name), 'C': lambda: g.custom(), 'int': lambda: 10 * i + g.r.randrange(1, 10),
                    'fn': lambda: g.fn(0), 'V': lambda: VW(Val(name + "'"))}[k]())
    seen, distinct = set(), []
    for k in out:
        e = repr(name_exp(k, 'sql'))
        if e not in seen:
            seen.add(e)
            distinct.append(k)
    return distinct


def mixed_case(g, d, M, ctx):
    label = g.pick(['where', 'having', 'on', 'Q', 'set', 'columns', 'tables', 'order_by', 'group_by'])
    if label in ('where', 'having', 'on', 'Q', 'set'):
        f = {'where': where_like('where'), 'having': where_like('having'), 'on': on_like, 'Q': q_like, 'set': set_like}[label]
        keys = mixed_keys(g, ['name', 'name', 'R'] if label == 'set' else ['name', 'name', 'R', 'C', 'fn', 'V'])
        items = [Cond(k, g.scalar('ifb')) for k in keys]
        want = sorted(repr(('assign', name_exp(c.col, d), c.val.exp(d))) for c in items) if label == 'set' else conjuncts(joined([c.exp(d) for c in items]))
        pairs = [(c.col, c.val) for c in items]
    else:
        keys = mixed_keys(g, {'columns': ['name', 'R', 'C', 'fn', 'V', 'int'], 'tables': ['name', 'R', 'C']}.get(label, ['name', 'int', 'R', 'C', 'fn']))
        order = label in ('order_by', 'group_by')
        pairs = [(k, g.pick(['asc', 'desc', 'ASC', 'DESC']) if order else g.name(0)) for k in keys]
        want = sorted(repr((name_exp(a, d), b.upper() if order else name_exp(b, d))) for a, b in pairs)
    g.r.shuffle(pairs)
    args, kw = {}, {}
    for a, b in pairs:
        if isinstance(a, str) and g.p(0.4):
            kw[a] = b
        else:
            args[a] = b
    ctx['call'] = '%s(%r, **%r)' % (label, args, kw)
    call = (mk([args]), mk(kw))
    if label in ('where', 'having', 'on', 'Q', 'set'):
        text, content = f(g, [call], d)
        got = content(text)
    elif label == 'columns':
        text = str(sp.select(*call[0], **call[1]))
        got = sorted(map(repr, sel(d, text, 'cols')))
    elif label == 'tables':
        text = str(sp.select_from(*call[0], **call[1]))
        got = sorted(repr((e, al)) for e, al, _ in sel(d, text, 'tables'))
    else:
        text = str(getattr(sp.select_from('t'), label)(*call[0], **call[1]))
        got = sorted(map(repr, sel(d, text, 'group' if label == 'group_by' else 'order')))
    M.saw(text)
    if got != want:
        raise Violation('content lost or changed: missing %s, extra %s' % (
            [x for x in want if x not in got], [x for x in got if x not in want]), sql=text)
    M['mixed keys'] += 1


# ---------------------------------------------------------------- ill-shaped arguments

def bad_pair_args(g):
    a, b, c = g.unique(3)
    v, w = mk(g.scalar('si')), mk(g.scalar('sib'))
    if g.p(0.2):
        w = g.pick([None, None, '', 0, a, v])
    kw = {g.pick(KEYWORDISH): 1} if g.p(0.4) else {}
    shapes = [
        [a], [(a,)], [[a]], [(a, v, w)], [[a, v, w]], [[(a,)]], [[(a, v, w)]], [((a, v), (b,))], [[(a, v), (b, v, w)]], [(a, v), (b,)],
        [(a, v), (b, v, w)], [a, v, w], [a, v, w, b], [(a, v), b, w], [(a, v), b], [[(a, v), b]], [{a: v}, {b: w}], [{a: v}, (b, w)],
        [(a, v), {b: w}], [[{a: v}]], [[{a: v}, {b: w}]], [()] * 2, [[()]], [[(a, v), ()]], [(a, v), []], [a, v, {b: w}], [{a: v}, b, w],
        [None], [5], [[None]], [[a, v]], [(a, v)] if isinstance(v, (str, int)) else [a],
    ]
    return g.pick(shapes), kw


def bad_name_args(g):
    a, b, c = g.unique(3)
    kw = {g.pick(KEYWORDISH): 'z'} if g.p(0.3) else {}
    x, y, z = (g.pick(['x', 'y', None, None, '', a, b, 'asc', 'DESC', 0]) if g.p(0.5) else n for n in 'xyz')
    return g.pick([
        [(a, x, y)], [[a, x, y]], [(a, x, y, z)], [a, (b, x, y)], [(b, x, y), a], [{a: x}, {b: y}],
        [{a: x}, b], [b, {a: x}], [[{a: x}]], [(a, x), {b: y}], [[(a, x)]], [[(a, x), (b, y)]], [((a, x),)], [[[a]]],
        [a, [(b, x)]], [{(a, b): x}],
    ]), kw


def bad_case(g, d, M, ctx):
    k = g.r.random()
    if k < 0.6:
        args, kw = bad_pair_args(g)
        targets = {
            'where': lambda: sp.select_from('t').where(*args, **kw), 'having': lambda: sp.select_from('t').having(*args, **kw),
            'on': lambda: sp.select_from('t').join('u').on(*args, **kw), 'Q': lambda: sp.Q(*args, **kw), 'Not': lambda: sp.Not(*args, **kw),
            'set': lambda: sp.update('t').set(*args, **kw), 'values': lambda: sp.insert_into('t').values(*args, **kw),
            'update.where': lambda: sp.update('t').where(*args, **kw), 'delete.where': lambda: sp.delete_from('t').where(*args, **kw),
        }
        if d == 'mysql':
            targets['upsert'] = lambda: sp.insert_into('t').values(a=1).on_duplicate_key_update(*args, **kw)
        if d == 'postgresql':
            targets['upsert'] = lambda: sp.insert_into('t').values(a=1).on_duplicate_key_update('id', *args, **kw)
    elif k < 0.9:
        args, kw = bad_name_args(g)
        targets = {
            'select': lambda: sp.select(*args, **kw), 'columns': lambda: sp.select().columns(*args, **kw),
            'from_': lambda: sp.select('x').from_(*args, **kw), 'from_tables': lambda: sp.select('x').from_tables(*args, **kw),
            'select_from': lambda: sp.select_from(*args, **kw), 'delete_from': lambda: sp.delete_from(*args, **kw),
            'group_by': lambda: sp.select_from('t').group_by(*args, **kw), 'order_by': lambda: sp.select_from('t').order_by(*args, **kw),
            'concat': lambda: sp.concat(*args), 'group_concat': lambda: sp.group_concat(*args),
            'group_concat.order_by': lambda: sp.group_concat('x').order_by(*args),
        }
    else:
        a, b = g.unique(2)
        args, kw = [g.pick([(a, 'x', 'y'), [a, 'x', 'y'], (a, 'x', None), (a, None, None), [None, a, None], (a, 'x', ''), (a,), [a], {a: 'x', b: 'y'}, {}, [], (), 5, None, 1.5, True, [{a: 'x'}], [(a, 'x')],
                            [(a, 'x'), (b, 'y')], {a, b}, b'x', object])], {}
        m = g.pick(['join', 'inner_join', 'left_join', 'right_join'])
        targets = {
            m: lambda: getattr(sp.select_from('t'), m)(*args), 'delete.' + m: lambda: getattr(sp.delete_from('t'), m)(*args),
            'update.' + m: lambda: getattr(sp.update('t'), m)(*args),
        }
    where = g.pick(sorted(targets))
    ctx['call'] = '%s args=%r kwds=%r' % (where, args, kw)
    try:
        r = targets[where]()
    except exc.InvalidArgumentException:
        M['ill-shaped refused'] += 1
        M.saw('%s refused %r %r' % (where, args, kw))
        return
    raise Violation('ill-shaped arguments were accepted', result=ascii(r))


def custom_case(g, d, M, ctx):
    """Custom SQL or Q objects mixed with named arguments: all present, or refused."""
    m = g.pick(['where', 'having', 'on', 'set'])
    c, name, v = g.custom(), g.key(), g.scalar('i')
    t = c
    if m != 'set' and g.p(0.5):
        t = None
        col = g.key() + '1'
    q = sp.update('t').allow_update_all() if m == 'set' else sp.select_from('t').join('u') if m == 'on' else sp.select_from('t')
    ctx['call'] = '%s(%r, **%r)' % (m, t or 'Q', {name: v})
    try:
        getattr(q, m)(t.make() if t is not None else sp.Q(**{col: 7}), **{name: v.make()})
    except exc.InvalidArgumentException:
        if t is None:
            raise Violation('Q objects with named arguments refused')
        M['custom SQL with named arguments refused'] += 1
        return
    text = str(q)
    a = ast_of(text, d)
    M.saw(text)
    if m == 'set':
        got = sorted(map(repr, a[3]))
        want = sorted(map(repr, [c.exp(d), ('assign', name_exp(name, d), v.exp(d))]))
    else:
        w = dict(a[1])[m] if m != 'on' else dict(a[1])['tables'][0][2][0][3]
        got = conjuncts(w)
        first = c.exp(d) if t is not None else Cond(col, Val(7)).exp(d)
        want = conjuncts(joined([first, Cond(name, v).exp(d)]))
    if got != want:
        raise Violation('content lost: expected %s, got %s' % (want, got), sql=text)
    M['mixed'] += 1


def case(rng, M, ctx):
    g = G(rng, big=rng.random() < 0.02)
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    k = g.r.random()
    if k < 0.45:
        pairs_case(g, d, M, ctx)
    elif k < 0.75:
        names_case(g, d, M, ctx)
    elif k < 0.77:
        overlap_case(g, d, M, ctx)
    elif k < 0.79:
        mixed_case(g, d, M, ctx)
    elif k < 0.82:
        custom_case(g, d, M, ctx)
    else:
        bad_case(g, d, M, ctx)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
