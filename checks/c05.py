"""C05: WHERE, HAVING and ON conditions select exactly the rows the caller described."""
import datetime
import sys
from decimal import Decimal

import _path                                                 # noqa: F401
from lib import lite, runner
from lib.boot import DIALECTS
from lib.gen import G
from lib.judge import HOWS, Violation, ast_of, configure, diff, render
from lib.shadow import Op, ShDelete, ShSelect, ShUpdate
from lib.spec import Cond, Cust, ExistsT, NotT, QT, RW, RelA, Seq, Sub, Val, VW

PROP = 'C05'
QUICK, THOROUGH = 90000, 1200000
RULE = ('Random condition trees over all relations, given through where/having/on in all calling styles. Two oracles: (1) the '
        'rendered condition, parsed, must be the conjunction and grouping of the Python expression (four dialects); (2) SQLite '
        'executes the statement over rows chosen so that 0/False/\'0\'/\'\'/NULL and the like collide, and must return exactly the '
        'rows for which a three-valued evaluator of the Python expression says true. Distinct = distinct rendered statements.')
ASSUMPTIONS = ['custom SQL given as a condition is self-contained (no bare OR at its top level)',
               'empty Q objects are not combined with & or |']
NEED = ('observations', 'executed WHERE', 'executed HAVING', 'executed ON', 'parsed', 'rows matched', 'rows not matched', 'unknown')

COLS = ['a', 'b', 'c', 'm', 'Y']
DAY = datetime.date(2020, 1, 1)
NOW = datetime.datetime(2020, 1, 1, 12, 30)
POOL = [0, 1, 2, -1, True, False, 0.0, 1.0, 0.5, Decimal('1'), Decimal('0.5'), Decimal('-1'), '0', '1', '', ' ', 'a', 'b', 'm', 'A',
        'true', '%', '_', 'a%', '0.5', '1.00000', DAY, NOW, '2020-01-01', 'NULL', 'None', "it's", 'a\\b', '-1', '2', 10, 100]
CELLS = [None, None, 0, 1, 2, -1, 0.5, '0', '1', '', 'a', 'b', 'm', 'A', 'true', 'a%', 'NULL', 'None', '2020-01-01', '2020-01-01T12:30:00',
         "it's", 'a\\b', '0.5', '1.00000', '-1', '2', ' ', '%', '_', 10, 100]


def cell(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Decimal):
        return float(v)
    if isinstance(v, datetime.date):
        return v.isoformat()
    return v


# ---------------------------------------------------------------- three-valued evaluation with SQLite's value order

def rank(x):
    return (0, x) if isinstance(x, (int, float)) else (1, x)


def compare_values(op, x, y):
    if x is None or y is None:
        return None
    x, y = rank(x), rank(y)
    if op == '=':
        return x == y
    if op == '!=':
        return x != y
    return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]


def text(x):
    return x if isinstance(x, str) else str(x)


def like(x, pattern):
    x, p = text(x), text(pattern)
    fold = lambda s: ''.join(c.lower() if c.isascii() else c for c in s)        # noqa: E731
    x, p = fold(x), fold(p)
    ok = {0}
    for c in p:
        if c == '%':
            ok = set(range(min(ok), len(x) + 1)) if ok else ok
        else:
            ok = {i + 1 for i in ok if i < len(x) and (c == '_' or x[i] == c)}
    return len(x) in ok


def not3(x):
    return None if x is None else not x


def and3(xs):
    xs = list(xs)
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def or3(xs):
    xs = list(xs)
    return True if any(x is True for x in xs) else None if any(x is None for x in xs) else False


SUBROWS = []


def value(v, row, on):
    if isinstance(v, Val):
        if on and isinstance(v.v, str):
            return row[v.v]
        return cell(v.v)
    if isinstance(v, VW):
        return value(v.inner, row, False)
    if isinstance(v, RW):
        return row[v.name]
    if isinstance(v, Cust):
        return row[v.name]
    raise AssertionError(v)


OPS = {'EQ': '=', 'EQUAL_TO': '=', 'NE': '!=', 'NOT_EQUAL_TO': '!=', 'GT': '>', 'GRATHER_THAN': '>', 'GE': '>=',
       'GRATHER_THAN_OR_EQUAL_TO': '>=', 'LT': '<', 'LESS_THAN': '<', 'LE': '<=', 'LESS_THAN_OR_EQUAL_TO': '<='}


def is_same3(x, y):
    if x is None or y is None:
        return x is None and y is None
    return rank(x) == rank(y)


def ev(t, row, on=False):
    if isinstance(t, Cond):
        name, v = t.relation()
        x = row[t.col] if isinstance(t.col, str) else value(t.col, row, False)
        if name in OPS:
            return compare_values(OPS[name], x, value(v, row, on))
        if name in ('IS', 'IS_NOT'):
            r = is_same3(x, value(v, row, on))
            return r if name == 'IS' else not r
        if name in ('LIKE', 'NOT_LIKE'):
            y = value(v, row, on)
            if x is None or y is None:
                return None
            return like(x, y) == (name == 'LIKE')
        if name == 'REGEXP':
            y = value(v, row, on)
            return None if x is None or y is None else text(y) in text(x)
        if name in ('IN', 'NOT_IN'):
            if isinstance(v, Sub):
                ys, null = v.rows(), False
                if not ys:
                    return name == 'NOT_IN'
                r = or3(compare_values('=', x, y) for y in ys)
                return r if name == 'IN' else not3(r)
            items = (v.inner if isinstance(v, VW) else v).items
            null = any(i.v is None for i in items)
            ys = [cell(i.v) for i in items if i.v is not None]
            r = or3(compare_values('=', x, y) for y in ys) if ys else False
            if name == 'IN':
                return or3([r, x is None]) if null else r
            return and3([not3(r), x is not None]) if null else not3(r)
        raise AssertionError(name)
    if isinstance(t, QT):
        return (or3 if t.op == 'or' else and3)(ev(p, row) for p in t.parts)
    if isinstance(t, NotT):
        return not3(and3(ev(p, row) for p in t.parts))
    if isinstance(t, ExistsT):
        return bool(t.q.rows())
    if isinstance(t, RawCond):
        return compare_values('=', row[t.col], t.num)
    raise AssertionError(t)


class RawCond(Cust):
    """Custom SQL given as a condition."""

    def __init__(self, col, num):
        super().__init__('"%s" = %d' % (col.replace('.', '"."'), num))
        self.col, self.num = col, num


class RawCol(Cust):
    """A column written as custom SQL."""

    def __init__(self, name):
        super().__init__('"%s"' % name.replace('.', '"."'))
        self.name = name


class SubSel(ShSelect):
    """SELECT k FROM s WHERE ..., with its rows."""

    def rows(self):
        return [r['k'] for r in SUBROWS if and3([ev(t, r) for t in self.where]) is True]


class SubVal(Sub):
    def rows(self):
        return self.q.rows()


# ---------------------------------------------------------------- restricted generator for execution

class E(G):
    def __init__(self, rng, names):
        super().__init__(rng)
        self.names = names

    def name(self, dots=0):
        return self.pick(self.names)

    def count(self, lo=1, hi=4, long=0):
        return super().count(lo, hi, 0)

    def tweak(self, v):
        out = super().tweak(v)
        return v + 1 if isinstance(out, int) and abs(out) >= 2**62 else out

    def unique(self, n, f=None):
        names = list(self.names)
        self.r.shuffle(names)
        return names[:n]

    def scalar(self, kinds=None):
        v = self.pick(POOL)
        if kinds == 's' and not isinstance(v, str):
            v = self.pick(['a', 'A', '%', '_', 'a%', '1', '', 'm', "it's", '0'])
        if kinds == 'ssiifdDT' and isinstance(v, bool):
            v = 1
        if kinds is not None and 'n' in kinds and self.p(0.1):
            v = None
        return Val(v)

    def seq(self, kinds='', none=0.15, nmax=5, ctors=('list', 'tuple', 'gen')):
        if self.p(0.08):
            a = self.r.randrange(-2, 2)
            return Seq([Val(a + i) for i in range(self.r.randrange(1, 4))], 'range')
        items = [self.scalar() for _ in range(self.count(1, nmax) if self.p(0.97) else self.size(300))]
        if self.p(none):
            items.insert(self.r.randrange(len(items) + 1), Val(None))
        if self.p(none * 0.3):
            items = [Val(None)] * self.r.randrange(1, 3)
        return Seq(items, self.pick(list(ctors)))

    def cond_value(self, depth=1):
        k = self.r.random()
        if k < 0.35:
            return self.scalar('n')
        if k < 0.5:
            return self.seq()
        if k < 0.85:
            return self.relation(0 if k < 0.8 else depth)
        if k < 0.92:
            return VW(self.scalar('n') if self.p(0.7) else self.seq(none=0))
        return RW(self.name()) if self.p(0.7) else RawCol(self.name())

    def relation(self, depth=1, names=None):
        if depth > 0:
            k = self.r.random()
            if k < 0.5:
                return RelA(self.pick(['IN', 'NOT_IN']), SubVal(self.subsel()))
            return RelA(self.pick(['EQ', 'NE', 'GT', 'LE', 'LIKE']), self.pick([RW(self.name()), VW(self.scalar())]))
        return super().relation(0, names)

    def subsel(self):
        names, self.names = self.names, ['k', 'l']
        sh = SubSel(('select', ['k'], {}), cols=[('k', None)])
        sh.apply(Op('from_', ['s'], {}, [('s', None)]))
        if self.p(0.8):
            call, order = self.cond_call([Cond(c, Val(self.pick(POOL)) if self.p(0.5) else super(E, self).relation(0))
                                          for c in self.unique(self.r.randrange(1, 3))])
            sh.apply(Op('where', *call, content=order))
        self.names = names
        return sh

    def select(self, depth=1, ncalls=None, **kw):
        return self.subsel()

    def cond(self, depth=1, col=None):
        c = self.wpick((1, lambda: RW(self.name())), (1, lambda: VW(self.scalar())), (1, lambda: RawCol(self.name())))()
        return Cond(c, self.cond_value(depth))

    def custom(self):
        return RawCond(self.name(), self.r.randrange(-1, 3))


def setup():
    global CON
    CON = lite.connect()
    for t in ('t', 'u'):
        CON.execute('CREATE TABLE %s(id INTEGER PRIMARY KEY, %s)' % (t, ', '.join(COLS)))
    CON.execute('CREATE TABLE s(k, l)')


def fill(g, table, n):
    CON.execute('DELETE FROM ' + table)
    rows = []
    for i in range(n):
        vals = [g.pick(CELLS) for _ in COLS]
        rows.append((i + 1, *vals))
    CON.executemany('INSERT INTO %s VALUES (%s)' % (table, ', '.join('?' * (len(COLS) + 1))), rows)
    return rows


def fill_sub(g):
    SUBROWS.clear()
    CON.execute('DELETE FROM s')
    for _ in range(g.r.randrange(0, 5)):
        r = dict(k=g.pick(CELLS), l=g.pick(CELLS))
        SUBROWS.append(r)
        CON.execute('INSERT INTO s VALUES (?, ?)', (r['k'], r['l']))


def rowdict(cols, *tables):
    out = {}
    for name, row in tables:
        for c, v in zip(COLS, row[1:]):
            out[name + '.' + c] = v
            if cols == name:
                out[c] = v
    return out


def history(g, method, sh, q, rows):
    alive = [rowdict('t', ('t', r)) for r in rows]
    for _ in range(g.r.randrange(1, 5) if g.p(0.97) else g.r.randrange(5, 60)):
        for _ in range(6 if g.p(0.85) else 1):          # prefer conditions that leave some row
            terms = sh.where if method == 'where' else sh.having
            op = g.near_terms(method, terms) if terms and g.p(0.25) else g.where_op(method, g.pick([0, 1, 1, 2]))
            left = [r for r in alive if and3(ev(t, r) for t in op.content)]
            if left:
                break
        alive = left
        op.run(q)
        sh.apply(op, 'sqlite')


def run_where(g, M, ctx):
    method = g.pick(['where', 'where', 'having'])
    e = E(g.r, COLS if g.p(0.6) else ['t.' + c for c in COLS])
    kind = 'select' if method == 'having' else g.pick(['select', 'select', 'select', 'delete', 'update'])
    rows = fill(g, 't', g.r.randrange(1, 14))
    fill_sub(g)
    if kind == 'select':
        sh = ShSelect(('select', ['id'], {}), cols=[('id', None)])
        sh.apply(Op('from_', ['t'], {}, [('t', None)]))
        if method == 'having':
            sh.apply(Op('group_by', ['id'], {}, [('id', None)]))
    elif kind == 'delete':
        sh = ShDelete(('delete_from', ['t'], {}), refs=[('t', None)])
        sh.apply(Op('allow_delete_all'))
    else:
        sh = ShUpdate(('update', ['t'], {}), tables=[('t', None)])
        sh.apply(Op('set', [], {'id': RW('id')}, [('id', RW('id'))]))
        sh.ops.pop()
        sh.apply(Op('set', [], {'Y': Val('marked')}, [('Y', Val('marked'))]))
        sh.set.pop(0)
        sh.apply(Op('allow_update_all'))
    q = sh.build()
    history(e, method, sh, q, rows)
    terms = sh.where if method == 'where' else sh.having
    ctx.update(query=repr(sh), rows=rows, sub=list(SUBROWS))
    text_ = render(q, g.pick(HOWS))
    M.saw(text_)
    want = []
    for r in rows:
        v = and3(ev(t, rowdict('t', ('t', r))) for t in terms)
        M['rows matched' if v else 'unknown' if v is None else 'rows not matched'] += 1
        if v:
            want.append(r[0])
    if kind == 'select':
        got = sorted(x for x, in lite.run(CON, text_))
    else:
        lite.run(CON, text_)
        if kind == 'delete':
            left = {x for x, in CON.execute('SELECT id FROM t')}
            got = [r[0] for r in rows if r[0] not in left]
        else:
            got = [x for x, in CON.execute("SELECT id FROM t WHERE Y = 'marked' ORDER BY id")]
    if got != want:
        raise Violation('the condition selects other rows: expected %s, got %s' % (want, got), sql=text_)
    M['executed ' + method.upper()] += 1


def run_on(g, M, ctx):
    e = E(g.r, ['t.' + c for c in COLS] + ['u.' + c for c in COLS])
    lrows, rrows = fill(g, 't', g.r.randrange(0, 7)), fill(g, 'u', g.r.randrange(0, 7))
    fill_sub(g)
    jm = g.pick(['join', 'inner_join', 'left_join', 'right_join'])
    sh = ShSelect(('select', ['t.id', 'u.id'], {}), cols=[('t.id', None), ('u.id', None)])
    sh.apply(Op('from_', ['t'], {}, [('t', None)]))
    sh.apply(Op(jm, ['u'], {}, ('u', None)))
    q = sh.build()
    alive = [rowdict(None, ('t', a), ('u', b)) for a in lrows for b in rrows]
    tries = 0
    n = g.r.randrange(1, 4)
    while n:
        if g.p(0.7):
            cs = []
            for c in e.unique(e.count(1, 3)):
                k = g.r.random()
                if k < 0.5:
                    v = Val(e.name())
                    if g.p(0.5):
                        v = RelA(g.pick(['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE']), v)
                elif k < 0.7:
                    v = VW(e.scalar())
                elif k < 0.85:
                    v = g.pick([Val(None), Val(1), Val(0.5), Val(True), RelA('IS_NOT', Val(None)), Val(DAY), RelA('GT', Val(0))])
                else:
                    v = e.seq()
                cs.append(Cond(c, v))
            call, order = e.cond_call(cs)
            op = Op('on', *call, content=order)
        else:
            t = e.qterm(g.pick([0, 1, 2])) if g.p(0.85) else RawCond(e.name(), g.r.randrange(-1, 3))
            op = Op('on', [t], {}, [t])
        ons = sh.tables.items[-1].joins[-1].ons
        qts = [t for t in ons if isinstance(t, (QT, NotT))]
        if qts and g.p(0.2):
            op = e.near_terms('on', qts)
        left = [r for r in alive if and3(ev(t, r, on=isinstance(t, Cond)) for t in op.content)]
        tries += 1
        if not left and tries % 6 and g.p(0.95):
            continue
        alive, n = left, n - 1
        op.run(q)
        sh.apply(op)
    terms = sh.tables.items[-1].joins[-1].ons
    ctx.update(query=repr(sh), left=lrows, right=rrows, sub=list(SUBROWS))
    text_ = render(q, g.pick(HOWS))
    M.saw(text_)
    want, lhit, rhit = [], set(), set()
    for a in lrows:
        for b in rrows:
            row = rowdict(None, ('t', a), ('u', b))
            v = and3(ev(t, row, on=isinstance(t, Cond)) for t in terms)
            M['rows matched' if v else 'unknown' if v is None else 'rows not matched'] += 1
            if v:
                want.append((a[0], b[0]))
                lhit.add(a[0])
                rhit.add(b[0])
    if jm == 'left_join':
        want += [(a[0], None) for a in lrows if a[0] not in lhit]
    if jm == 'right_join':
        want += [(None, b[0]) for b in rrows if b[0] not in rhit]
    got = lite.run(CON, text_)
    if sorted(got, key=repr) != sorted(want, key=repr):
        raise Violation('the ON condition pairs other rows: expected %s, got %s' % (want, got), sql=text_)
    M['executed ON'] += 1


# ---------------------------------------------------------------- structure, all dialects

COLLIDE = [Val(1), Val(True), Val(1.0), Val('1'), Val(Decimal(1)), Cust('CZ1(1)'), VW(Val(1)), VW(Val('1')), VW(Val(True)), Val('a'), RW('a'),
           VW(Val('a')), Cust('CZ2(a)'), Val('CZ2(a)'), Val(0), Val(False), Val(0.0), Val(''), Val(None), VW(Val(None)), Val('NULL'),
           Seq([Val(1)]), Seq([Val(True)]), Seq([Val('1')]), Seq([Val(1), Val(None)]), Seq([Val(None)]), Seq([Val(1), Val(1)]),
           RelA('NE', Val(1)), RelA('NE', Val(True)), RelA('GT', Val(1)), RelA('LIKE', Val('1')), RelA('NOT_LIKE', Val('1')),
           RelA('REGEXP', Val('1')), RelA('IN', Seq([Val(1)])), RelA('NOT_IN', Seq([Val(1)])), RelA('NOT_IN', Seq([Val('1')])),
           RelA('IS', Val(None)), RelA('IS_NOT', Val(None)), RelA('IS', Val(True)), RelA('EQ', Val('1')), Val(DAY), Val(NOW),
           Val('2020-01-01'), Seq([Val('a'), Val('b')]), Seq([Val('b'), Val('a')]), Val("a', 'b"), Seq([Val(Decimal(1))]),
           Val(datetime.datetime(2020, 1, 1)), Val('2020-01-01T00:00:00'), Val(2), Val(1.5), Val('1.5'), Val(Decimal('1.50000'))]


def run_parse(g, M, ctx):
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    method = g.pick(['where', 'where', 'having', 'on'])
    kind = 'select' if method == 'having' else g.pick(['select', 'select', 'delete', 'update'])
    if kind == 'select':
        sh = ShSelect(('select_from', ['t'], {}), tables=[('t', None)])
    elif kind == 'delete':
        sh = ShDelete(('delete_from', ['t'], {}), refs=[('t', None)]).apply(Op('allow_delete_all'))
    else:
        sh = ShUpdate(('update', ['t'], {}), tables=[('t', None)]).apply(Op('set', [], {'Y': Val(1)}, [('Y', Val(1))]))
        sh.apply(Op('allow_update_all'))
    if method == 'on':
        sh.apply(Op(g.pick(['join', 'left_join', 'right_join']), ['u'], {}, ('u', None)))
    q = sh.build()
    for _ in range(g.r.randrange(1, 6) if g.p(0.98) else g.r.randrange(6, 100)):
        if g.p(0.4):
            c = Cond(g.pick(['a', 'a', 'b', 'a.b', Cust('CZ3(a)'), RW('a'), VW(Val('a'))]), g.pick(COLLIDE))
            if method == 'on' and isinstance(c.val, Val) and c.val.v == '':
                c.val = Val('e')              # an empty string is no name
            if g.p(0.3):
                t = QT('leaf', [c], ([c.col, c.val], {}))
                if g.p(0.5):
                    c2 = Cond('a', g.pick(COLLIDE))
                    t = QT(g.pick(['and', 'or']), [t, QT('leaf', [c2], (['a', c2.val], {}))])
                op = Op(method, [t], {}, [t])
            else:
                op = Op(method, [c.col, c.val], {}, [c]) if g.p(0.5) else Op(method, [[(c.col, c.val)]], {}, [c])
        else:
            op = g.on_op(1) if method == 'on' else g.where_op(method, g.pick([0, 1, 2, 3]))
            terms = sh.where if method == 'where' else sh.having if method == 'having' else \
                (sh.refs if kind == 'delete' else sh.tables).items[-1].joins[-1].ons
            if terms and g.p(0.35):
                op = g.near_terms(method, terms, method == 'on')
        op.run(q)
        sh.apply(op, d)
    ctx['query'] = repr(sh)
    text_ = render(q, g.pick(HOWS))
    M.saw(text_)
    pick = condition_of(kind, method)
    got, want = pick(ast_of(text_, d)), pick(sh.exp(d))
    if got != want:
        raise Violation('the rendered condition is another one: %s' % diff(want, got), sql=text_)
    M['parsed'] += 1


def condition_of(kind, method):
    if method == 'on':
        if kind == 'select':
            return lambda a: dict(a[1])['tables'][0][2][0][3]
        return lambda a: a[2 if kind == 'update' else 3][0][2][0][3]
    if kind == 'select':
        return lambda a: dict(a[1])[method]
    return lambda a: a[4]


def case(rng, M, ctx):
    g = G(rng, big=rng.random() < 0.03)
    k = g.r.random()
    if k < 0.35:
        return run_parse(g, M, ctx)
    configure('sqlite')
    if k < 0.8:
        return run_where(g, M, ctx)
    run_on(g, M, ctx)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
