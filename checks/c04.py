"""C04: no unconfirmed UPDATE or DELETE without a WHERE condition is ever rendered."""
import copy
import sys

import _path                                                 # noqa: F401
from lib import runner
from lib.boot import DIALECTS, exc, rel, sp
from lib.gen import G
from lib.judge import HOWS, Violation, ast_of, compare, configure, diff, render
from lib.shadow import Op, Raises, ShDelete, ShSelect, ShUpdate
from lib.spec import A, Cond, Sub, Val

PROP = 'C04'
QUICK, THOROUGH = 50000, 800000
RULE = ('Random histories over a pool of UPDATE and DELETE queries (guard switches, real conditions in every form, calls that add '
        'no condition, failing calls, joins, options, copies, changes of the backend), rendering in six ways; the online '
        'monitor keeps the guard automaton and demands the exception or the complete statement. Distinct = distinct texts.')
ASSUMPTIONS = ['empty custom SQL, Not() without arguments and empty Q objects joined with & or | are out of scope']
NEED = ('observations', 'refused', 'rendered with WHERE', 'rendered without WHERE', 'empty calls', 'failing calls', 'copies')


class Lit(A):
    def __init__(self, f, text):
        self.f, self.text = f, text

    def make(self):
        return self.f()

    def __repr__(self):
        return self.text


EMPTY = [
    lambda g: ([], {}), lambda g: ([[]], {}), lambda g: ([()], {}), lambda g: ([{}], {}),
    lambda g: ([Lit(lambda: sp.Q(), 'Q()')], {}), lambda g: ([Lit(lambda: sp.Q({}), 'Q({})')], {}),
    lambda g: ([Lit(lambda: sp.Q([]), 'Q([])')], {}), lambda g: ([Lit(lambda: sp.Q(()), 'Q(())')], {}),
    lambda g: ([Lit(lambda: sp.Q(sp.Q()), 'Q(Q())')], {}),
    lambda g: ([Lit(lambda: sp.Q(), 'Q()')] * g.r.randrange(2, 4), {}),
    lambda g: ([Lit(lambda: sp.Q(sp.Q(), sp.Q({})), 'Q(Q(), Q({}))')], {}),
]

BAD = [
    lambda q, g: q.where('a'), lambda q, g: q.where(a=object()), lambda q, g: q.where({'a': {1: 2}}), lambda q, g: q.where('a', 1, 2),
    lambda q, g: q.where([('a',)]), lambda q, g: q.where([('a', 1, 2)]), lambda q, g: q.where(1, 2), lambda q, g: q.where({3: 4}),
    lambda q, g: q.where(a=b'bytes'), lambda q, g: q.where(a=rel.LIKE(5)), lambda q, g: q.where(a=rel.GT(None)),
    lambda q, g: q.where(True, 1), lambda q, g: q.where(None), lambda q, g: q.where(None, None), lambda q, g: q.where([None]),
    lambda q, g: q.where(sp.Q(a=object())), lambda q, g: q.where(sp.Q('a')), lambda q, g: q.where(a=1j),
    lambda q, g: q.where(sp.Not(a=object())), lambda q, g: q.where(5),
]


def make(g):
    if g.p(0.5):
        sh = ShUpdate(('update', ['t'], {}), tables=[('t', None)])
        sh.apply(Op('set', [], {'x': Val(1)}, [('x', Val(1))]))
        return sh
    if g.p(0.7):
        refs = ['t', 'u', 'v', 'w'][:g.r.randrange(1, 5) if g.p(0.2) else 1]
        return ShDelete(('delete_from', refs, {}), refs=[(t, None) for t in refs])
    tabs = ['t', 'u', 'v', 'w', 'x'][:g.r.randrange(0, 6) if g.p(0.4) else 1]
    sh = ShDelete(('delete', tabs, {}), tables=[(t, None) for t in tabs])
    refs = ['t', 'u', 'v', 'w'][:g.r.randrange(1, 5) if g.p(0.4) else 1]
    return sh.apply(Op('from_', refs, {}, [(t, None) for t in refs]))


def look(g, q, sh, d, M):
    how = g.pick(HOWS)
    want = sh.exp(d)
    if isinstance(want, Raises):
        r = compare(q, sh, d, None, how)
        M['refused'] += 1
        M.saw('%s %s' % (r, ''.join('.' + o.method for o in sh.ops[-12:])))
        return
    text = render(q, how)
    got = ast_of(text, d)
    if got[0] != sh.kind or got[-1] != want[-1]:
        raise Violation('rendered with another WHERE clause: %s' % diff(want[-1], got[-1]), sql=text)
    M.saw(text)
    M['rendered with WHERE' if sh.where else 'rendered without WHERE'] += 1


def case(rng, M, ctx):
    g = G(rng)
    d = g.pick(DIALECTS)
    configure(d)
    pool = []
    for _ in range(g.r.randrange(1, 3)):
        sh = make(g)
        pool.append((sh.build(), sh))
    for step in range(g.r.randrange(1, 14) if g.p(0.98) else g.r.randrange(50, 300)):
        i = g.r.randrange(len(pool))
        q, sh = pool[i]
        ctx['query'] = sh
        kind = 'update' if sh.kind == 'update' else 'delete'
        k = g.wpick((2, 'allow'), (2, 'forbid'), (2, 'empty'), (1.5, 'bad'), (1.2, 'where'), (1, 'copy'), (1, 'join'), (1, 'other'),
                    (1, 'dialect'), (1, 'peek'))
        if k in ('allow', 'forbid'):
            op = Op('%s_%s_all' % (k, kind))
        elif k == 'empty':
            args, kwds = g.pick(EMPTY)(g)
            op = Op('where', args, kwds, [])
            M['empty calls'] += 1
        elif k == 'bad':
            f = g.pick(BAD)
            try:
                f(q, g)
            except exc.InvalidArgumentException:
                pass
            else:
                raise Violation('an invalid condition was accepted', which=BAD.index(f))
            M['failing calls'] += 1
            op = None
        elif k == 'where':
            op = g.where_op('where', 1)
        elif k == 'copy':
            c = q.copy() if g.p(0.7) else copy.deepcopy(q)
            if len(pool) < 5:
                pool.append((c, sh.clone()))
            else:
                pool[g.r.randrange(len(pool))] = (c, sh.clone())
            M['copies'] += 1
            op = None
        elif k == 'join':
            t = sh.tables if kind == 'update' else sh.refs
            op = g.join_op(t, 1)
            op.run(q)
            sh.apply(op, d)
            op = g.on_op(1)
        elif k == 'other':
            op = g.pick([lambda: Op('ignore', [], {}, True), lambda: Op('ignore', [False], {}, False)] + (
                [lambda: Op('set', [], {'y%d' % len(sh.ops): Val(step)}, [('y%d' % len(sh.ops), Val(step))]),
                 lambda: Op('table', ['t%d' % len(sh.ops)], {}, [('t%d' % len(sh.ops), None)])] if kind == 'update' else
                [lambda: Op('delete', ['t%d' % len(sh.ops)], {}, [('t%d' % len(sh.ops), None)]),
                 lambda: Op('from_', ['t%d' % len(sh.ops)], {}, [('t%d' % len(sh.ops), None)])]))()
            if kind == 'update' and g.p(0.3):
                inner = ShSelect(('select_from', ['s'], {}), tables=[('s', None)])
                inner.apply(Op('where', [], {'k': Val(1)}, [Cond('k', Val(1))]))
                op = Op('set', ['z%d' % len(sh.ops), Sub(inner)], {}, [('z%d' % len(sh.ops), Sub(inner))])
        elif k == 'dialect':
            d = g.pick(DIALECTS)
            configure(d)
            op = None
        else:
            q == pool[g.r.randrange(len(pool))][0]
            q.has('where')
            op = None
        if op is not None:
            r = op.run(q)
            if r is not q:
                raise Violation('%s does not return the query' % op.method)
            sh.apply(op, d)
        if q.has('where') != bool(sh.where):
            raise Violation('has(where) is %s' % q.has('where'))
        if g.p(0.5):
            look(g, q, sh, d, M)
    ctx['dialect'] = d
    for q, sh in pool:
        ctx['query'] = sh
        look(g, q, sh, d, M)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
