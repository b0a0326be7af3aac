"""C13: subqueries and unions compose without changing their meaning."""
import sys
from collections import Counter

import _path                                                 # noqa: F401
from lib import bulk, lite, runner
from lib.boot import DIALECTS, sp
from lib.gen import G
from lib.judge import HOWS, Violation, ast_of, compare, configure, render
from lib.shadow import Op, ShSelect, ShUnion
from lib.spec import Cond, ConcatFn, ConvertFn, Cust, ExistsT, Fn, NotT, QT, RelA, Sub, Val

PROP = 'C13'
QUICK, THOROUGH = 150000, 2000000
RULE = ('Random SELECTs and union expression trees of several levels, alone and in every position that takes a query. (1) The parsed statement '
        'must contain exactly that query, in its own parentheses, and otherwise be the reference model\'s; union trees are compared by what they '
        'mean. (2) SQLite executes union trees (directly, counted, as IN, EXISTS or scalar operand, as table) and must return the bag of rows the '
        'Python expression defines. Distinct = distinct rendered statements.')
ASSUMPTIONS = ['operands of unions have no ORDER BY, LIMIT, INTO OUTFILE or FOR UPDATE of their own']
NEED = ('observations', 'executed', 'rows', 'right-nested', 'alone', 'column', 'table', 'join', 'left side', 'right side', 'in', 'exists', 'not exists', 'function', 'set',
        'values', 'having', 'on', 'order', 'nested union')


def inner(g, depth):
    """A model of a SELECT or union to be nested; nested ones inside it too."""
    k = g.r.random()
    if k < 0.02:
        return bulk.query(g, 'sql', ('union', 'deep', 'select'))
    if k < 0.45:
        return g.select(depth, ncalls=(0, 5), weights=dict(outfile=0, option=0.7))
    return tree(g, depth, g.count(2, 5, 0.01))


def tree(g, depth, n):
    if n == 1:
        s = g.select(depth, ncalls=(0, 3), weights=dict(order=0, limit=0, outfile=0, option=0))
        if depth > 0 and g.p(0.15):
            s.apply(place(g, s, inner(g, depth - 1), ['column', 'table', 'in', 'exists'])[1])
        return s
    k = g.r.randrange(1, n)
    return ShUnion(tree(g, depth, k), g.pick(['UNION', 'UNION ALL']), tree(g, depth, n - k))


FRESH = 0


def fresh():
    global FRESH
    FRESH += 1
    return 'n%d' % FRESH


def place(g, sh, q, positions=None):
    """A call that puts the query q somewhere into the SELECT model sh; returns (position, op)."""
    s = Sub(q)
    n = fresh()
    p = g.pick(positions or ['column', 'table', 'join', 'left side', 'right side', 'in', 'exists', 'not exists', 'function', 'having', 'order'])
    if p == 'column':
        alias = g.pick([n, None])
        arg = [s if alias is None and g.p(0.5) else (s, alias)]
        return p, Op('columns', arg, {}, [(s, alias)])
    if p == 'table':
        alias = g.pick([n, n, None])
        if g.p(0.5):
            return p, Op('from_table', [s, alias] if alias else [s], {}, [(s, alias)])
        return p, Op(g.pick(['from_', 'from_tables']), [(s, alias)], {}, [(s, alias)])
    if p == 'join':
        m = g.pick(['join', 'inner_join', 'left_join', 'right_join'])
        return p, Op(m, [g.pick([(s, n), [s, n], {s: n}])], {}, (s, n))
    if p == 'left side':
        v = g.pick([Val(3), Val('x'), RelA('GT', Val(1)), Sub(g.select(0, ncalls=(0, 1), weights=dict(outfile=0)))])
        c = Cond(s, v)
        return p, Op('where', [s, v], {}, [c])
    if p == 'right side':
        v = s if g.p(0.4) else RelA(g.pick(['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'EQUAL_TO']), s)
        c = Cond(n, v)
        return p, Op('where', *g.cond_call([c])[0], content=[c])
    if p == 'in':
        c = Cond(n, RelA(g.pick(['IN', 'NOT_IN']), s))
        if g.p(0.3):
            t = QT('leaf', [c], ([n, c.val], {}))
            t = g.pick([t, NotT([c], ([n, c.val], {})), QT('or', [t, QT('leaf', [Cond('o', Val(1))], ([], {'o': Val(1)}))])])
            return p, Op('where', [t], {}, [t])
        return p, Op('where', *g.cond_call([c])[0], content=[c])
    if p == 'exists':
        t = ExistsT(q)
        return p, Op('where', [t], {}, [t])
    if p == 'not exists':
        t = NotT([ExistsT(q)], ([ExistsT(q)], {}))
        return p, Op('where', [t], {}, [t])
    if p == 'function':
        f = g.pick([Fn(g.pick(['sum', 'max', 'count']), [s], g.p(0.3)), ConcatFn([s, 'z'], g.p(0.5)), ConcatFn(['z', s, s], False), ConvertFn(s, 'signed')])
        if g.p(0.5):
            return p, Op('columns', [(f, n)], {}, [(f, n)])
        c = Cond(f, Val(1))
        return p, Op('having', [f, c.val], {}, [c])
    if p == 'having':
        c = Cond(n, g.pick([s, RelA('IN', s)]))
        return p, Op('having', *g.cond_call([c])[0], content=[c])
    if p == 'order':
        return p, Op(g.pick(['order_by', 'group_by']), [(s, 'desc')], {}, [(s, 'desc')])
    raise AssertionError(p)


def structure(g, M, ctx):
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    q = inner(g, g.pick([0, 0, 1, 2]))
    k = g.wpick((2, 'alone'), (6, 'select'), (1, 'update'), (1, 'values'), (0.6, 'delete'), (0.7, 'on'))
    if k == 'alone':
        sh, where = q, 'alone'
        if q.kind == 'union' and has_right(q):
            M['right-nested'] += 1
        if q.kind == 'union':
            M['nested union'] += 1
    elif k == 'update':
        sh = g.update(depth=0)
        n = fresh()
        op = Op('set', [n, Sub(q)], {}, [(n, Sub(q))]) if g.p(0.6) else Op('where', [n, RelA('IN', Sub(q))], {}, [Cond(n, RelA('IN', Sub(q)))])
        sh.apply(op).apply(Op('allow_update_all'))
        where = 'set'
    elif k == 'delete':
        sh = g.delete(depth=0)
        p, op = place(g, sh, q, ['in', 'exists', 'right side', 'left side', 'not exists'])
        sh.apply(op)
        where = p
    elif k == 'values':
        sh = g.insert(d, (1, 2))
        n = fresh()
        sh.apply(Op('values', [], {n: Sub(q)}, [(n, Sub(q))]), d)
        where = 'values'
    elif k == 'on':
        sh = g.select(0, ncalls=(0, 2), weights=dict(outfile=0))
        for op in [Op('from_', ['ft'], {}, [('ft', None)]), Op('join', [('jt', 'ja')], {}, ('jt', 'ja')),
                   Op('on', ['jc', Sub(q)], {}, [Cond('jc', Sub(q))]) if g.p(0.5) else
                   Op('on', ['jc', RelA('IN', Sub(q))], {}, [Cond('jc', RelA('IN', Sub(q)))])]:
            sh.apply(op)
        where = 'on'
    else:
        sh = g.select(0, ncalls=(0, 3), weights=dict(outfile=0))
        for _ in range(g.count(1, 3, 0)):
            where, op = place(g, sh, q)
            if where == 'join' and not sh.tables.items:
                sh.apply(Op('from_', ['ft'], {}, [('ft', None)]))
            sh.apply(op)
            M[where] += 1
            q = inner(g, 0)
    M[where] += 1
    ctx['query'] = sh
    compare(sh.build(), sh, d, M, g.pick(HOWS))


def has_right(q):
    return q.kind == 'union' and (q.right.kind == 'union' or has_right(q.left))


# ---------------------------------------------------------------- execution

DATA = {'t': [1, 1, 2, None], 'u': [2, 3, 3], 'v': [], 'w': [1, None, None, 4], 'x': [5]}


def setup():
    global CON
    CON = lite.connect()
    for t, rows in DATA.items():
        CON.execute('CREATE TABLE %s (a)' % t)
        CON.executemany('INSERT INTO %s VALUES (?)' % t, [(r,) for r in rows])
    CON.execute('CREATE TABLE probe (id, a)')
    CON.executemany('INSERT INTO probe VALUES (?, ?)', list(enumerate([1, 2, 3, 4, 5, None])))


def build_tree(g, n, depth=2):
    """(real query, bag of rows, text of the expression)"""
    if n == 1:
        t = g.pick(list(DATA))
        q = sp.select('a').from_(t)
        rows = Counter(DATA[t])
        e = t
        k = g.r.random() if depth else g.r.random() * 0.45
        if k < 0.2:
            v = g.pick([1, 2, 3])
            q.where(a=v)
            rows = Counter({x: c for x, c in rows.items() if x == v})
            e += '[a=%d]' % v
        elif k < 0.35:
            q.where(sp.Q(a=1) | sp.Q(a=3))
            rows = Counter({x: c for x, c in rows.items() if x in (1, 3)})
            e += '[a=1|a=3]'
        elif k < 0.45:
            q.group_by('a')                    # SQLite 3.45 miscounts DISTINCT below COUNT(*)
            rows = Counter(set(rows))
            e = 'grouped ' + e
        elif k < 0.55:
            m = g.r.randrange(2, 4)
            s, r, se = build_tree(g, m, depth - 1)
            q = sp.select('a').from_((s, 's'))
            rows, e = r, 'from(%s)' % se
        elif k < 0.65:
            s, r, se = build_tree(g, 2, depth - 1)
            q = sp.select('a').from_(t).where(a=sp.relations.IN(s))
            rows = Counter({x: c for x, c in Counter(DATA[t]).items() if x is not None and x in r})
            e = '%s[a in %s]' % (t, se)
        return q, rows, e
    k = g.r.randrange(1, n)
    a, ra, ea = build_tree(g, k, depth)
    b, rb, eb = build_tree(g, n - k, depth)
    if g.p(0.5):
        return a | b, Counter(set(ra) | set(rb)), '(%s | %s)' % (ea, eb)
    return a & b, ra + rb, '(%s & %s)' % (ea, eb)


def execute(g, M, ctx):
    configure('sqlite')
    n = g.r.randrange(1, 6)
    q, bag, e = build_tree(g, n)
    ctx['expression'] = e
    M['right-nested'] += '& (' in e or '| (' in e
    k = g.pick(['direct', 'direct', 'direct', 'table', 'count', 'in', 'not in', 'exists', 'scalar', 'set'])
    bag = +bag
    probe = [1, 2, 3, 4, 5, None]
    if k == 'direct':
        text, want = render(q, g.pick(HOWS)), bag
    elif k == 'table':
        text, want = render(sp.select('z.a').from_((q, 'z'))), bag
    elif k == 'count':
        text, want = render(sp.select(sp.count()).from_((q, 'z'))), Counter([sum(bag.values())])
    elif k == 'in':
        text = render(sp.select('id').from_('probe').where(a=sp.relations.IN(q)))
        want = Counter(i for i, v in enumerate(probe) if v is not None and v in bag)
    elif k == 'not in':
        text = render(sp.select('id').from_('probe').where(a=sp.relations.NOT_IN(q)))
        want = Counter(i for i, v in enumerate(probe) if not bag or (v is not None and v not in bag and None not in bag))
    elif k == 'exists':
        text = render(sp.select('id').from_('probe').where(sp.exists(q)))
        want = Counter(range(6)) if bag else Counter()
    elif k == 'scalar':
        sub = sp.select(sp.count()).from_((q, 'z'))
        text = render(sp.select('id').from_('probe').where('id', sub) if g.p(0.5) else sp.select('id').from_('probe').where(sub, sp.R('id')))
        m = sum(bag.values())
        want = Counter([m] if m < 6 else [])
    else:
        sub = sp.select(sp.count()).from_((q, 'z'))
        lite.run(CON, 'SAVEPOINT s')
        text = render(sp.update('probe').set(a=sub).where(id=2))
        lite.run(CON, text)
        rows = CON.execute('SELECT a FROM probe ORDER BY id').fetchall()
        CON.execute('ROLLBACK TO s')
        CON.execute('RELEASE s')
        want = probe[:]
        want[2] = sum(bag.values())
        M.saw(text)
        M['executed'] += 1
        if [r[0] for r in rows] != want:
            raise Violation('the assigned subquery yields something else', sql=text, expected=want, got=rows)
        return
    rows = lite.run(CON, text)
    M.saw(text)
    M['executed'] += 1
    M['rows'] += len(rows)
    got = Counter(r[0] for r in rows)
    if got != want:
        raise Violation('executed, the query yields other rows', sql=text, position=k, expected=dict(want), got=dict(got))


def case(rng, M, ctx):
    g = G(rng)
    try:
        (execute if g.p(0.45) else structure)(g, M, ctx)
    except Violation as e:
        if 'parser stack overflow' not in e.what:           # a limit of SQLite's build, not of the statement
            raise
        M['too deep for SQLite'] += 1


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
