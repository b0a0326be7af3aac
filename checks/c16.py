"""C16: SQL functions render their arguments, DISTINCT, ordering and separator exactly."""
import copy
import random
import sqlite3
import sys
from collections import Counter

import _path                                                 # noqa: F401
from lib import runner
from lib.boot import DIALECTS, sp
from lib.gen import CONVERT_TYPES, G
from lib.judge import HOWS, Violation, check_text, compare, configure, render
from lib.shadow import Op, ShSelect
from lib.spec import ConcatFn, Cond, ConvertFn, CustomType, Fn, RW, RelA, Seq, VW, Val, convert_type

PROP = 'C16'
QUICK, THOROUGH = 175000, 1100000
RULE = ('Function objects with random arguments (columns, *, numbers, values, references, custom SQL, subqueries, nested functions; one or many) are '
        'driven through random histories of distinct/order_by/separator/to calls, copied, rendered at every step in every backend and used in every '
        'position of queries; the text must parse to exactly the call the history describes. Aggregates are also executed by SQLite on random '
        'tables against Python. Distinct = distinct rendered texts.')
ASSUMPTIONS = ['CONCAT, GROUP_CONCAT(... SEPARATOR) and CONVERT are judged by the parser only (no MySQL here)']
NEED = ('observations', 'AVG', 'COUNT', 'MAX', 'MIN', 'SUM', 'CONCAT', 'GROUP_CONCAT', 'CONVERT', 'DISTINCT', 'SEPARATOR', 'ORDER BY', 'COUNT(*)', 'in a query', 'executed',
        'empty separator', 'copied', 'EXISTS', 'NOT')

SEPS = ['', ' ', ',', '\\', "'", '"', '--', '%s', '{}', 'SEPARATOR', '\n', '0', ';', '`', ' AND ', '\x00'[:0], '表']


def types(g):
    t = g.pick(CONVERT_TYPES + ['Decimal(10, 2)', 'nchar', 'SIGNED', 'uNsIgNeD', 'date', 'json', 'char(3) character set utf8'][:6])
    return CustomType(t) if g.p(0.1) else t


def new(g):
    """(spec, object)"""
    depth = g.pick([0, 1, 1, 2])
    k = g.r.random()
    if k < 0.5:
        spec = g.fn(depth)
        if g.p(0.2):
            name = g.pick(['avg', 'count', 'max', 'min', 'sum'])
            arg = g.pick([g.r.randrange(1, 100), '*', g.name(0.5) + '.*' if g.p(0.3) else g.name(), VW(g.scalar()), RW(g.name())])
            spec = Fn(name, [arg], g.p(0.5), [])
    elif k < 0.8:
        cols = [g.fn_arg(depth) if g.p(0.8) else g.r.randrange(50) for _ in range(g.count(1, 5))]
        if g.p(0.2):
            cols.append(g.pick(cols))
        spec = ConcatFn(cols, g.p(0.7), [])
    else:
        spec = ConvertFn(g.fn_arg(depth), types(g), [])
    return spec, spec.make()


def step(g, spec, o):
    """One call on the object and the model."""
    if isinstance(spec, Fn):
        t = g.pick([(), (True,), (False,), (1,), (0,), (None,)])
        r = o.distinct(*t)
        spec.toggles += (t,)
        what = 'distinct%r' % (t,)
    elif isinstance(spec, ConvertFn):
        t = types(g)
        r = o.to(convert_type(t))
        spec.tos.append(t)
        what = 'to(%r)' % t
    elif spec.group:
        if g.p(0.5):
            sep = Val(g.pick(SEPS) if g.p(0.5) else g.string())
            if g.p(0.1):
                sep = g.pick([VW(g.scalar('s')), Val(g.r.randrange(9)), g.custom()])
            r = o.separator(sep.make())
            spec.steps.append(('separator', [sep]))
            what = 'separator(%r)' % (sep,)
        else:
            old = [x[0] if isinstance(x, tuple) else x for m, a in spec.steps if m == 'order_by' for x in a if not isinstance(x, dict)]
            args = []
            for _ in range(g.count(1, 3)):
                if old and g.p(0.3):
                    args.append((g.pick(old), g.pick(['asc', 'DESC'])))
                else:
                    args.append(g.order_item() if g.p(0.9) else g.r.randrange(1, 9))
            if g.p(0.1):
                args = [{g.name(): g.pick(['asc', 'desc']) for _ in range(g.count(1, 3))}]
            r = o.order_by(*args)
            spec.steps.append(('order_by', args))
            what = 'order_by%r' % (args,)
    else:
        return None
    if r is not o:
        raise Violation('the call does not return the function')
    return what


def show(g, spec, o, d, M):
    text = render(o, g.pick(HOWS))
    check_text(text, (spec.exp(d), None), d, 'operand')
    M.saw(text)
    e = spec.exp(d)
    if e[0] == 'convert':
        M['CONVERT'] += 1
        return
    M[e[1]] += 1
    M['DISTINCT'] += bool(e[2])
    M['ORDER BY'] += bool(e[4])
    if e[5] is not None:
        M['SEPARATOR'] += 1
        M['empty separator'] += e[5] == ('str', '')
    M['COUNT(*)'] += e[1] == 'COUNT' and text.startswith(('COUNT(*', 'COUNT(DISTINCT *'))




def use(g, spec, o, d, M, ctx):
    """Put the object itself into a query."""
    class Live(type(spec)):
        def __init__(self):
            pass

        def make(self):
            return o

        def exp(self, d):
            return spec.exp(d)

        def __repr__(self):
            return repr(spec)
    f = Live()
    k = g.pick(['column', 'alias', 'where col', 'where val', 'relation', 'in', 'order', 'group', 'having', 'set', 'values', 'on', 'arg', 'concat', 'odku'])
    if k in ('set',):
        sh = g.new_update()
        c = g.name()
        sh.apply(Op('set', [c, f], {}, [(c, f)]))
        sh.apply(Op('allow_update_all', [], {}, None))
    elif k == 'values':
        sh = g.new_insert()
        c = g.name()
        sh.apply(Op('values', [c, f], {}, [(c, f)]))
    elif k == 'odku':
        if d != 'mysql':
            return
        sh = g.new_insert()
        c = g.name()
        sh.apply(Op('values', [], {'a': 1}, [('a', Val(1))]), d)
        sh.apply(Op('on_duplicate_key_update', [c, f], {}, (None, [(c, f)])), d)
    else:
        sh = g.new_select(0)
        for op in g.select_op(sh, 0) if g.p(0.5) else []:
            sh.apply(op)
        c = g.name()
        if k == 'column':
            sh.apply(Op('columns', [c, f], {}, [(c, None), (f, None)]))
        elif k == 'alias':
            sh.apply(Op('columns', [(f, c)], {}, [(f, c)]))
        elif k == 'where col':
            v = g.cond_value(0)
            sh.apply(Op('where', [f, v], {}, [Cond(f, v)]))
        elif k == 'where val':
            sh.apply(Op('where', [c, f], {}, [Cond(c, f)]))
        elif k == 'relation':
            v = RelA(g.pick(['EQ', 'NE', 'GT', 'LE', 'LIKE']), f)
            sh.apply(Op('where', [c, v], {}, [Cond(c, v)]))
        elif k == 'in':
            v = Seq([Val(1), f, Val('a')], 'list')
            sh.apply(Op('where', [c, v], {}, [Cond(c, v)]))
        elif k == 'order':
            sh.apply(Op('order_by', [(f, 'desc')], {}, [(f, 'desc')]))
        elif k == 'group':
            sh.apply(Op('group_by', [f], {}, [(f, None)]))
        elif k == 'having':
            v = g.cond_value(0)
            sh.apply(Op('having', [f, v], {}, [Cond(f, v)]))
        elif k == 'on':
            if not sh.tables.items:
                sh.apply(Op('from_', ['tt'], {}, [('tt', None)]))
            j = Op('left_join', ['jj'], {}, ('jj', None))
            sh.apply(j)
            sh.apply(Op('on', [c, f], {}, [Cond(c, f)]))
        elif k == 'arg':
            h = Fn(g.pick(['sum', 'max', 'count']), [f], g.p(0.3), [])
            sh.apply(Op('columns', [h], {}, [(h, None)]))
        elif k == 'concat':
            h = ConcatFn([c, f], g.p(0.5), [])
            sh.apply(Op('columns', [h], {}, [(h, None)]))
    ctx['used as'], ctx['query'] = k, sh
    q = sh.build()
    compare(q, sh, d, M)
    M['in a query'] += 1
    M['used as ' + k] += 1
    return q, sh


def case(rng, M, ctx):
    g = G(rng)
    log = []
    ctx['log'] = log
    if g.p(0.08):
        d = g.pick(DIALECTS)
        configure(d)
        t = g.qterm(2)
        ctx['query'], ctx['dialect'] = t, d
        text = str(t.make())
        check_text(text, t.exp(d), d, 'expr')
        M.saw(text)
        M['EXISTS'] += 'EXISTS(' in text
        M['NOT'] += 'NOT(' in text
        return
    spec, o = new(g)
    log.append(repr(spec))
    used = []
    for _ in range(g.r.randrange(1, 9)):
        d = g.pick(DIALECTS)
        configure(d)
        ctx['dialect'] = d
        k = g.r.random()
        if k < 0.45:
            w = step(g, spec, o)
            if w:
                log.append(w)
            show(g, spec, o, d, M)
        elif k < 0.6:
            show(g, spec, o, d, M)
        elif k < 0.9:
            u = use(g, spec, o, d, M, ctx)
            if u:
                used.append((u, len(log)))
        else:
            o2 = g.pick([o.copy, lambda: copy.deepcopy(o)])()
            spec2 = copy.deepcopy(spec)
            step(g, spec2, o2)
            show(g, spec2, o2, d, M)
            show(g, spec, o, d, M)
            M['copied'] += 1
            if g.p(0.5):
                spec, o = spec2, o2
                used = []
                log.append('went on with a copy: %r' % (spec,))
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    show(g, spec, o, d, M)


# ---------------------------------------------------------------- executed

def norm(v):
    return round(v, 6) if isinstance(v, float) else v


def execute(rng, M, ctx):
    g = G(rng)
    configure('sqlite')
    db = sqlite3.connect(':memory:')
    db.execute('CREATE TABLE t (id, a, b)')
    rows = [(i, g.pick([None, 0, 1, 2, 3, -5, 10, 2.5]), g.pick(['x', 'y', None, '', 'z'])) for i in range(g.r.randrange(0, 9))]
    db.executemany('INSERT INTO t VALUES (?,?,?)', rows)
    want, cols = [], []
    desc = []
    for _ in range(g.r.randrange(1, 5)):
        name = g.pick(['avg', 'count', 'max', 'min', 'sum'])
        c = g.pick(['id', 'a', 'a', 'b' if name in ('count', 'max', 'min') else 'a', None if name == 'count' else 'a'])
        dist = g.p(0.5) and c is not None
        f = getattr(sp, name + ('_distinct' if dist else ''))
        o = f(c) if c else f()
        if g.p(0.3) and c is not None:
            dist = g.p(0.5)
            o.distinct(dist)
        vals = [r[{'id': 0, 'a': 1, 'b': 2}[c]] for r in rows] if c else rows
        vals = [v for v in vals if v is not None]
        if dist:
            vals = list(dict.fromkeys(vals))
        if name == 'count':
            w = len(vals)
        elif not vals:
            w = None
        else:
            w = {'avg': lambda v: sum(v) / len(v), 'max': max, 'min': min, 'sum': sum}[name](vals)
        want.append(norm(w))
        cols.append((o, 'c%d' % len(cols)))
        desc.append((name, c, dist))
    q = sp.select(*cols).from_('t')
    ctx['functions'], ctx['rows'] = desc, rows
    try:
        got = db.execute(str(q)).fetchall()
    except sqlite3.Error as e:
        raise Violation('SQLite refuses the statement: %s' % e, sql=str(q))
    if [tuple(map(norm, got[0]))] != [tuple(want)] or len(got) != 1:
        raise Violation('aggregates compute something else', sql=str(q), want=want, got=got)
    M['executed'] += 1
    M.saw(str(q) + repr(rows))


def extra(seed, tier, M, deadline):
    n = 20000 if tier == 'thorough' else 1500
    for i in range(n):
        ctx = {}
        try:
            M['extra cases'] += 1
            execute(random.Random('%s:c16x:%d' % (seed, i)), M, ctx)
        except Violation as e:
            yield dict(case=-1, what=e.what, data={k: str(v) for k, v in e.data.items()}, context={k: str(v) for k, v in ctx.items()})
            return
    configure('sql')


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
