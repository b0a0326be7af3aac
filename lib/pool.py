"""Random queries of every kind together with their models, and harmless observations."""
import copy

from . import bulk
from .boot import DIALECTS, exc, sp
from .judge import HOWS, configure, render
from .shadow import ShUnion

PARTS = ['select_options', 'columns', 'tables', 'where', 'group_by', 'having', 'order_by', 'limit', 'into_outfile', 'select_for_update',
         'keyword', 'insert_options', 'values', 'on_duplicate_key_update', 'on_conflict_do_update', 'delete_options', 'references',
         'update_options', 'distinct', 'sql_cache', 'for_update', 'nonsense']


LARGE = 0.015


def new(g, d, depth=1):
    """A fresh model without calls, now and then a large one."""
    if g.p(LARGE):
        return bulk.query(g, d)
    k = g.r.random()
    if k < 0.5:
        return g.new_select(depth)
    if k < 0.67:
        sh = g.new_insert()
        sh.pool = g.unique(4)
        return sh.apply(g.insert_op(sh, d, sh.pool), d)
    if k < 0.84:
        sh = g.new_update()
        return sh.apply(g.set_op('set', 0))
    return g.new_delete(depth)


def ops(g, sh, d, depth=1):
    """The next random call(s)."""
    if sh.kind == 'select':
        return g.select_op(sh, depth, full=d == 'postgresql')
    if sh.kind == 'insert':
        return [g.insert_op(sh, d, sh.pool)]
    if sh.kind == 'update':
        return g.update_op(sh, depth)
    return g.delete_op(sh, depth)


def whole(g, d, depth=1, ncalls=(0, 8), union=0.1):
    """A finished model."""
    if g.p(union):
        return g.union(depth) if not g.p(LARGE) else bulk.query(g, d, ('union', 'deep'))
    sh = new(g, d, depth)
    for _ in range(g.r.randrange(ncalls[0], ncalls[1] + 1)):
        for op in ops(g, sh, d, depth):
            sh.apply(op, d)
    return sh


def text_or_error(q, how='str'):
    """What rendering yields: the text, or the library's exception."""
    try:
        return render(q, how)
    except exc.SqlPuzzleException as e:
        return 'raises %s' % type(e).__name__


def observe(g, q, others, d):
    """Look at a query without changing it; returns what was done."""
    k = g.r.randrange(12)
    if k < 4:
        dd = g.pick(DIALECTS)
        configure(dd)
        text_or_error(q, g.pick(HOWS))
        configure(d)
        return 'render'
    if k < 6:
        try:
            q.has(g.pick(PARTS), *(g.pick([(), ('a',), ('id',), ('*',), ('WHERE',), (g.string(),)])))
        except exc.SqlPuzzleException:
            pass
        return 'has'
    if k == 6:
        o = g.pick(others) if others else q
        try:
            q == o, o == q, q != o
        except exc.SqlPuzzleException:
            pass                            # equality of some parts renders them
        return 'compare'
    if k == 7:
        c = q.copy() if g.p(0.6) else copy.deepcopy(q)
        text_or_error(c)
        return 'copy'
    if k == 8:
        hash(q)
        return 'hash'
    if k == 9 and type(q).__name__ in ('Select', 'Union'):
        outer = g.pick([lambda: sp.select_from((q, 'x')), lambda: sp.select(q), lambda: sp.select_from('t').where('a', q),
                        lambda: sp.select_from('t').where(sp.exists(q)), lambda: sp.select_from('t').where(a=sp.relations.IN(q)),
                        lambda: sp.select_from('t').join((q, 'j')).on('a', 'b')])()
        text_or_error(outer)
        outer.where(zz=1)
        text_or_error(outer)
        return 'use as subquery'
    if k == 10 and type(q).__name__ in ('Select', 'Union'):
        u = q | sp.select('z') if g.p(0.5) else sp.select('z') & q
        text_or_error(u)
        return 'use in union'
    c = q.copy()
    mangle(g, c)
    return 'mangle a copy'


def mangle(g, c):
    """Builder calls on a throw-away query."""
    name = type(c).__name__
    try:
        for _ in range(g.r.randrange(1, 4)):
            if name == 'Select':
                g.pick([lambda: c.where(zz=1), lambda: c.columns('zz'), lambda: c.from_('zz'), lambda: c.limit(7, 8), lambda: c.order_by('zz'),
                        lambda: c.distinct(), lambda: c.group_by('zz'), lambda: c.having(zz=1), lambda: c.for_update(),
                        lambda: c.into_outfile('zz'), lambda: c.limit(None), lambda: c.distinct(False)])()
            elif name == 'Insert':
                g.pick([lambda: c.values(zz=1), lambda: c.ignore(), lambda: c.ignore(False)])()
            elif name == 'Update':
                g.pick([lambda: c.set(zz=1), lambda: c.where(zz=1), lambda: c.allow_update_all(), lambda: c.forbid_update_all(),
                        lambda: c.ignore(), lambda: c.join('zz').on('a', 'b')])()
            elif name == 'Delete':
                g.pick([lambda: c.where(zz=1), lambda: c.allow_delete_all(), lambda: c.forbid_delete_all(), lambda: c.ignore(),
                        lambda: c.delete('zz'), lambda: c.from_('zz')])()
    except exc.SqlPuzzleException:
        pass
