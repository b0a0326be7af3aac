"""C11: INSERT puts every value of every row under its own column."""
import copy
import datetime
import sys
from decimal import Decimal

import _path                                                 # noqa: F401
from lib import bulk, lite, runner
from lib.boot import DIALECTS, sp
from lib.gen import G
from lib.judge import HOWS, Violation, ast_of, configure, diff, render
from lib.parser import ParseError, Parser
from lib.shadow import Op, ShInsert
from lib.spec import Cust, RW, Sub, VW, Val

PROP = 'C11'
QUICK, THOROUGH = 200000, 2500000
RULE = ('Random sequences of values() calls with differing column sets, repeated rows, upsert and ignore calls. (1) The parsed INSERT must '
        'be the reference model\'s; (2) SQLite executes inserts and REPLACEs into a table with a unique key and the stored rows must be those '
        'passed. Distinct = distinct rendered statements.')
ASSUMPTIONS = ['column names within one row are distinct strings', 'IGNORE and the MySQL/PostgreSQL upserts are judged by parsing, not executed']
NEED = ('observations', 'executed', 'executed replace', 'rows stored', 'parsed', 'differing column sets', 'mysql upsert', 'postgresql upsert',
        'sqlite upsert', 'ignore', 'repeated rows')


def judge(q, sh, d, M, how='str'):
    text = render(q, how)
    want, got = sh.exp(d), ast_of(text, d)
    if want != got:
        raise Violation('rendered INSERT says something else: %s' % diff(want, got), sql=text)
    M.saw(text)
    M['parsed'] += 1
    if got[2]:
        M['ignore'] += 1
    if got[1] == 'REPLACE' or got[6]:
        M[d + ' upsert'] += 1
    if d == 'postgresql' and got[6]:
        p = Parser(text, d)
        try:
            p.insert()
        except ParseError as e:
            raise Violation('not well-formed: %s' % e, sql=text)
        if not p.conflict_set:
            M.finding('pg-upsert-without-SET')


def row_op(g, sh, pool, value):
    if sh.rows and g.p(0.12):
        row = g.pick(sh.rows)                   # the same row again
    else:
        k = g.r.random()
        if k < 0.15:
            cols = list(pool)
        else:
            n = g.count(1, len(pool), 0)
            cols = g.r.sample(pool, min(n, len(pool)))
        if k > 0.8 and sh.rows:
            cols = [c for c, _ in g.pick(sh.rows)]          # same columns as another row, other order
        g.r.shuffle(cols)
        if sh.rows and g.p(0.1):                # like another row but for one value
            row = list(g.pick(sh.rows))
            i = g.r.randrange(len(row))
            row[i] = (row[i][0], value(g))
        else:
            row = [(c, value(g)) for c in cols]
    call, order = g.values_call(row)
    return Op('values', *call, content=order)


def parse_case(g, M, ctx):
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    if g.p(0.012):
        sh = bulk.insert(g, d)
        pool = sh.pool
        M['large'] += 1
    else:
        sh = g.new_insert()
        pool = g.unique(g.count(1, 6, 0.02))
    q = sh.build()
    ctx['query'] = sh
    depth = g.pick([0, 1])
    others = []
    n = g.r.randrange(1, 7) if g.p(0.97) else g.size(60)
    for _ in range(n):
        op = row_op(g, sh, pool, lambda g: g.value(depth)) if g.p(0.75) or not sh.rows else g.insert_op(sh, d, pool)
        if op.run(q) is not q:
            raise Violation('%s does not return the query' % op.method)
        sh.apply(op, d)
        if g.p(0.12):
            judge(q, sh, d, M)
        if g.p(0.05):
            others.append((q, sh.clone()))
            q = q.copy()
    if len({frozenset(c for c, _ in r) for r in sh.rows}) > 1:
        M['differing column sets'] += 1
    if len({repr(sorted(map(repr, r))) for r in sh.rows}) < len(sh.rows):
        M['repeated rows'] += 1
    judge(q, sh, d, M, g.pick(HOWS))
    for o, s in others:
        judge(o, s, d, M)


# ---------------------------------------------------------------- execution

def storable(g):
    k = g.pick('siifdbDTnB')
    v = g.scalar(k)
    if isinstance(v.v, str) and not lite.storable(v.v):
        return Val('z')
    if isinstance(v.v, int) and not -2**63 <= v.v < 2**63:
        return Val(7)
    if isinstance(v.v, (float, Decimal)) and abs(v.v) > 10**9:
        return Val(Decimal('1.5'))
    if g.p(0.1) and v.v is not None and not isinstance(v.v, (str, bytes)):
        return VW(v)
    if g.p(0.03):
        return Lit('C', v)
    return v


class Lit(Cust):
    """SQL text or a subquery yielding 41 + 1."""

    def __init__(self, kind, v):
        super().__init__('CZ(1)')

    def make(self):
        return sp.C('41 + 1')

    @property
    def v(self):
        return 42

    def __repr__(self):
        return 'C(41 + 1)'


def stored(v):
    while isinstance(v, VW):
        v = v.inner
    v = v.v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float) or isinstance(v, Decimal):
        return float(Decimal(v).quantize(Decimal('0.00001')))
    if isinstance(v, (datetime.date, datetime.datetime)):
        return v.isoformat()
    return v


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    return type(a) is type(b) and a == b


def exec_case(g, M, ctx):
    configure('sqlite')
    cols = []
    for c in g.unique(g.count(1, 6, 0.02), lambda: g.part()):
        if lite.storable(c) and c.lower() not in [x.lower() for x in cols] and c.strip():
            cols.append(c)
    cols = cols or ['a']
    table = g.pick(['t', 'my table', 'select', "o'x"])
    con = lite.connect()
    keyed = g.p(0.4)
    con.execute('CREATE TABLE %s (rid INTEGER PRIMARY KEY%s%s)' % (
        lite.q(table), ''.join(', ' + lite.q(c) for c in cols), ', UNIQUE(%s)' % lite.q(cols[0]) if keyed else ''))
    if 'rid' in [c.lower() for c in cols]:
        return
    sh = ShInsert(('insert_into', [table], {}), tables=[(table, None)])
    ctx['query'], ctx['keyed'] = sh, keyed
    q = sh.start()
    n = g.r.randrange(1, 7) if g.p(0.97) else g.size(80) if g.p(0.8) else g.size(400)
    keys = [Val(1), Val(2), Val('k'), Val(None), Val('1')]
    for _ in range(n):
        op = row_op(g, sh, cols, storable)
        if keyed:
            row = [(c, g.pick(keys) if c == cols[0] else v) for c, v in op.content]
            call, order = g.values_call(row)
            op = Op('values', *call, content=order)
        op.run(q)
        sh.apply(op, 'sqlite')
    replace = keyed or g.p(0.1)
    if replace:
        op = Op('on_duplicate_key_update', [], {}, (None, []))
        op.run(q)
        sh.apply(op, 'sqlite')
    text = render(q, g.pick(HOWS))
    M.saw(text)
    lite.run(con, text)
    want = []
    for row in sh.rows:
        r = {c: stored(v) for c, v in row}
        r = [r.get(c) for c in cols]
        if keyed and r[0] is not None:
            want = [w for w in want if not same(w[0], r[0])]
        want.append(r)
    got = [list(r) for r in con.execute('SELECT %s FROM %s ORDER BY rid' % (', '.join(lite.q(c) for c in cols), lite.q(table)))]
    con.close()
    M['executed replace' if replace else 'executed'] += 1
    M['rows stored'] += len(got)
    if len(got) != len(want) or not all(same(x, y) for a, b in zip(want, got) for x, y in zip(a, b)):
        raise Violation('the stored rows are not those passed', sql=text, expected=want, stored=got)


def case(rng, M, ctx):
    g = G(rng)
    (exec_case if g.p(0.35) else parse_case)(g, M, ctx)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
