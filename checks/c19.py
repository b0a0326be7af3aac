"""C19: UPDATE and DELETE say exactly what was requested and touch only those rows."""
import copy
import sys

import _path                                                 # noqa: F401
import c05
from lib import bulk, lite, runner
from lib.boot import DIALECTS
from lib.gen import G
from lib.judge import HOWS, Violation, compare, configure, render
from lib.shadow import Op, Raises, ShDelete, ShUpdate
from lib.spec import RW, Val, VW

PROP = 'C19'
QUICK, THOROUGH = 85000, 900000
RULE = ('(1) Random histories of UPDATE and DELETE builder calls over all clauses, with copies and renders in between; every rendered '
        'statement is parsed and compared with the reference model in the four dialects. (2) Sequences of generated UPDATE and DELETE '
        'statements are executed by SQLite on two tables and the whole contents of the database are compared with a Python model '
        'after each. Distinct = distinct texts.')
ASSUMPTIONS = ['of several assignments of one column the last is effective (SQLite), an earlier assignment is not repeated', 'custom SQL is self-contained']
NEED = ('observations', 'executed UPDATE', 'executed DELETE', 'rows changed', 'rows deleted', 'rows left alone', 'refused', 'copies')
COLS = c05.COLS


def setup():
    c05.setup()


def histories(g, M, ctx):
    d = g.pick(DIALECTS)
    configure(d)
    depth = g.pick([0, 1, 1, 2])
    if g.p(0.025):
        M['large'] += 1
        sh = bulk.query(g, d, ('update', 'delete'))
    else:
        sh = g.new_update() if g.p(0.5) else g.new_delete(depth)
    ctx['dialect'], ctx['query'] = d, sh
    q = sh.build()
    if sh.kind == 'update' and g.p(0.95):
        op = g.set_op('set', depth)
        op.run(q)
        sh.apply(op, d)
    for _ in range(g.r.randrange(0, 11) if g.p(0.98) else g.size(80)):
        for op in (g.update_op if sh.kind == 'update' else g.delete_op)(sh, depth):
            r = op.run(q)
            if r is not q:
                raise Violation('%s does not return the query' % op.method)
            sh.apply(op, d)
            M[op.method] += 1
        if g.p(0.1):
            old = q
            q = q.copy() if g.p(0.5) else copy.deepcopy(q)
            M['copies'] += 1
            for op in (g.update_op if sh.kind == 'update' else g.delete_op)(sh.clone(), depth):
                op.run(old)
        if g.p(0.15):
            look(g, q, sh, d, M)
    if sh.kind == 'update' and not sh.set:
        return
    look(g, q, sh, d, M)
    if g.p(0.9) and isinstance(sh.exp(d), Raises):
        op = Op('allow_%s_all' % sh.kind)
        op.run(q)
        sh.apply(op, d)
        look(g, q, sh, d, M)


def look(g, q, sh, d, M):
    if sh.kind == 'update' and not sh.set:
        return
    compare(q, sh, d, M, g.pick(HOWS))
    if isinstance(sh.exp(d), Raises):
        M['refused'] += 1


# ---------------------------------------------------------------- execution

NEWVALUES = c05.POOL + [None, None, b'', b'\x00\xff', "'); DROP TABLE t; --", 'x' * 300, 'ž\U0001f600', '\n', "a''b", '\\', '"', '?', ':a', '%s',
                        2**40, -2**40, 3.14159, -0.25]


class E(c05.E):
    last = False

    def new_value(self):
        v = self.pick(NEWVALUES)
        if isinstance(v, bytes) and not self.last:      # later conditions compare only numbers and text
            v = None
        return self.wpick((6, lambda: Val(v)), (2, lambda: RW(self.pick(COLS))),
                          (1, lambda: VW(Val(self.pick(c05.POOL)))), (1, lambda: c05.RawCol(self.pick(COLS))),
                          (0.7, lambda: c05.SubVal(self.subsel())))()

    def row_value(self, v, row):
        if isinstance(v, c05.SubVal):
            ks = v.rows()
            return ks[0] if ks else None
        return c05.value(v, row, False)


def contents(table):
    return lite.run(c05.CON, 'SELECT * FROM %s ORDER BY id' % table)


def execute(g, M, ctx):
    configure('sqlite')
    state = {t: c05.fill(g, t, g.r.randrange(0, 9)) for t in ('t', 'u')}
    c05.fill_sub(g)
    log = ctx['log'] = []
    ctx['tables'] = str(state)
    n = g.r.randrange(1, 5)
    for i in range(n):
        t = g.pick(['t', 'u'])
        kind = g.pick(['update', 'update', 'delete'])
        alias = 'x' if g.p(0.15) else None
        e = E(g.r, COLS if g.p(0.6) else [(alias or t) + '.' + c for c in COLS])
        e.last = i == n - 1
        if kind == 'update':
            alias = None
            e.names = [n.replace('x.', t + '.') for n in e.names]
            sh = ShUpdate(('update', [t], {}), tables=[(t, None)])
        elif alias:
            sh = ShDelete(('delete_from', [(t, alias)], {}), refs=[(t, alias)])
        else:
            sh = ShDelete(('delete_from', [t], {}), refs=[(t, None)])
        q = sh.build()
        calls = ['where'] * g.pick([0, 1, 1, 1, 2, 3])
        cols = list(COLS)
        g.r.shuffle(cols)
        if kind == 'update':
            cols = cols[:g.r.randrange(1, len(cols) + 1)]
            calls += ['set'] * g.pick([1, 1, 2, 3])
        if 'where' not in calls:
            calls.append('allow')
        elif g.p(0.2):
            calls.append(g.pick(['allow', 'forbid']))
        g.r.shuffle(calls)
        rows = state[t]
        alive = [c05.rowdict(t, (alias or t, r)) for r in rows]
        alive = [dict(r, **{c: r[(alias or t) + '.' + c] for c in COLS}) for r in alive]
        sets = calls.count('set')
        for c in calls:
            if c == 'set':
                sets -= 1
                mine = cols if not sets else cols[:g.r.randrange(0, len(cols) + 1)]
                cols = cols[len(mine):]
                items = [(n, e.new_value()) for n in mine]
                if sh.set and g.p(0.2):
                    x = e.again(sh.set)
                    if x:
                        items.insert(g.r.randrange(len(items) + 1), x)
                        M['assigned again'] += 1
                if not items:
                    continue
                call, order = e.values_call(items)
                op = Op('set', *call, content=order)
            elif c == 'where':
                for _ in range(6 if g.p(0.85) else 1):
                    op = e.where_op('where', g.pick([0, 1, 1, 2]))
                    left = [r for r in alive if c05.and3(c05.ev(x, r) for x in op.content)]
                    if left:
                        break
                alive = left
            else:
                op = Op('%s_%s_all' % (c, kind))
            op.run(q)
            sh.apply(op, 'sqlite')
            if g.p(0.1):
                q = q.copy()
        log.append(repr(sh))
        if isinstance(sh.exp('sqlite'), Raises):
            compare(q, sh, 'sqlite', None, g.pick(HOWS))
            M['refused'] += 1
            continue
        text = render(q, g.pick(HOWS))
        log.append(text)
        M.saw(text)
        want = []
        for r in rows:
            d = c05.rowdict(t, (alias or t, r))
            d.update({c: r[1 + i] for i, c in enumerate(COLS)})
            if c05.and3(c05.ev(x, d) for x in sh.where) is not True:
                want.append(r)
                M['rows left alone'] += 1
            elif kind == 'update':
                new = {c: e.row_value(v, d) for c, v in sh.set}
                want.append((r[0],) + tuple(new.get(c, r[1 + i]) for i, c in enumerate(COLS)))
                M['rows changed'] += 1
            else:
                M['rows deleted'] += 1
        state[t] = want
        lite.run(c05.CON, text)
        for name, rs in state.items():
            got = contents(name)
            if [tuple(map(typed, r)) for r in got] != [tuple(map(typed, r)) for r in rs]:
                raise Violation('table %s now holds %s, expected %s' % (name, got, rs), sql=text)
        if lite.run(c05.CON, 'SELECT k, l FROM s') != [(r['k'], r['l']) for r in c05.SUBROWS]:
            raise Violation('another table was changed', sql=text)
        M['executed ' + kind.upper()] += 1


def typed(x):
    return ('n', x) if isinstance(x, (int, float)) else (type(x).__name__, x)


def case(rng, M, ctx):
    g = G(rng, big=rng.random() < 0.02)
    if g.p(0.45):
        return histories(g, M, ctx)
    execute(g, M, ctx)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
