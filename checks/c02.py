"""C02: non-string values are rendered as literals denoting the same value."""
import datetime
import enum
import sys
from decimal import Decimal

import _path                                                 # noqa: F401
import c01
from lib import lite, runner
from lib.boot import DIALECTS, sp
from lib.gen import G
from lib.judge import Violation, ast_of, configure, diff
from lib.spec import instant, Cond, RelA, Seq, Val, VW, derived, lit

PROP = 'C02'
QUICK, THOROUGH = 250000, 3000000
RULE = ('A non-string value of any supported type (or a sequence of them) is put into a value position of a statement in one '
        'dialect; the literal in the parsed statement must denote the same value; the SQLite dialect is also executed and the '
        'value read back. Distinct = distinct rendered statements.')
NEED = ('observations', 'read back from SQLite', 'int', 'float', 'Decimal', 'bool', 'NoneType', 'bytes', 'date', 'datetime',
        'sequence', 'set', 'rows')


class Num(enum.IntEnum):
    ONE = 1
    BIG = 123456789


class Near(tuple):
    """Matches a number with at most five decimals that is nearest to v."""

    def __new__(cls, v):
        self = tuple.__new__(cls, ('near', v, None))
        self.v = Decimal(v)
        return self

    def __eq__(self, other):
        if not (isinstance(other, tuple) and len(other) == 2 and other[0] in ('num', 'int')):
            return False
        x = other[1] if isinstance(other[1], Decimal) else Decimal(other[1])
        # Exact comparison with integers scaled by the smaller exponent.
        e = min(self.v.as_tuple().exponent, x.as_tuple().exponent, -6)
        scaled = lambda y: (-1 if y.as_tuple().sign else 1) * int(      # noqa: E731
            ''.join(map(str, y.as_tuple().digits))) * 10 ** (y.as_tuple().exponent - e)
        return 2 * abs(scaled(self.v) - scaled(x)) <= 10 ** (-5 - e) and x.as_tuple().exponent >= -5

    def __hash__(self):
        return 0

    def __repr__(self):
        return 'a number nearest to %s' % self.v


class NVal(Val):
    """A value whose literal is judged by meaning."""

    def exp(self, d):
        v = self.v
        if isinstance(v, (float, Decimal)):
            return Near(v)
        if isinstance(v, datetime.datetime):
            return Instant(v)
        return lit(v, d)


class Instant(tuple):
    def __new__(cls, v):
        self = tuple.__new__(cls, ('instant', v, None))
        self.v = v
        return self

    def __eq__(self, other):
        if not (isinstance(other, tuple) and other[0] == 'str'):
            return False
        try:
            x = instant(other[1])
        except ValueError:
            return False
        return (x.tzinfo is None) == (self.v.tzinfo is None) and x == self.v and x.utcoffset() == self.v.utcoffset()

    def __hash__(self):
        return 0

    def __repr__(self):
        return 'an ISO literal of %s' % self.v


def a_value(g, kinds):
    v = NVal(g.scalar(kinds).v)
    if isinstance(v.v, int) and not isinstance(v.v, bool) and g.p(0.03):
        v.v = g.pick(list(Num))
    if isinstance(v.v, bytes) and g.p(0.03):
        v.v = bytes(g.r.randrange(256) for _ in range(g.size(1100)))
    if g.p(0.04):
        v.v = derived(v.v)
    return v


# Positions of C01 that take any value of the kinds named.
SETLIKE = [c01.pos_set, c01.pos_values, c01.pos_upsert]
CONDLIKE = [c01.pos_where, c01.pos_list, c01.pos_list, c01.pos_q, c01.pos_not, c01.pos_update_where, c01.pos_delete_where,
            c01.pos_nested]


def pos_relation(g, v, d):
    t = type(v.v)
    names = ['EQ', 'NE'] + (['GT', 'GE', 'LT', 'LE'] if t is not bool else ['IS', 'IS_NOT'])
    if v.v is None:
        names = ['IS', 'IS_NOT']
    return c01.sel(c01.cond(g.pick(['where', 'having']), Cond('a', RelA(g.pick(names), v))))


def pos_on(g, v, d):
    return c01.sel(c01.Op('join', ['u'], {}, ('u', None)), c01.cond('on', Cond('a', g.pick([v, VW(v), Seq([v])]) if v.v is not None else v)))


def pos_v(g, v, d):
    """Anything wrapped by V(): select list, functions, order, condition side."""
    return g.pick([c01.pos_column, c01.pos_function_v, c01.pos_order, c01.pos_cond_column])(g, v, d)


def pos_function_v(g, v, d):
    x = VW(v)
    f = g.pick([c01.Fn(g.pick(['avg', 'count', 'max', 'min', 'sum']), [x], g.p(0.5)), c01.ConcatFn(['a', x, 'b'], g.p(0.5)),
                c01.ConvertFn(x, 'char')])
    return c01._col(g, f)


c01.pos_function_v = pos_function_v


def setup():
    global CON
    CON = lite.connect()


def case(rng, M, ctx):
    g = G(rng, big=rng.random() < 0.05)
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    k = g.r.random()
    if k < 0.12:
        return sequence_case(g, d, M, ctx)
    kind = g.pick('iiiffddbbDDTTTnBB')
    v = a_value(g, kind)
    ctx['value'] = repr(v.v)
    if kind == 'B':
        pos = g.pick(SETLIKE * 2 + [pos_v])
    else:
        pos = g.pick(SETLIKE + CONDLIKE + [pos_relation, pos_on, pos_v])
    if kind == 'n' and pos is c01.pos_list:
        pos = c01.pos_set
    ctx['position'] = pos.__name__
    sh = pos(g, v, d)
    ctx['query'] = repr(sh)
    text = str(sh.build())
    M.saw(text)
    got, want = ast_of(text, d), sh.exp(d)
    if not want == got:
        raise Violation('the literal denotes something else: %s' % diff(want, got), sql=text)
    M[type(v.v).__name__] += 1
    M['position ' + pos.__name__] += 1
    if d == 'sqlite':
        read_back(g, v.v, M)


def sequence_case(g, d, M, ctx):
    """V(sequence): exactly the items, in order; sets in any order."""
    if g.p(0.08):
        return rows_case(g, d, M, ctx)
    n = g.count(1, 6, 0.15) if g.p(0.97) else g.pick([g.size(1100), g.r.randrange(1, 2600)])
    ctor = g.pick(['list', 'tuple', 'gen', 'set', 'frozenset', 'range'])
    if ctor == 'range':
        a, step = g.r.randrange(-50, 50), g.pick([1, 1, 2, 3, -1, -2, 7])
        value = range(a, a + step * n, step)
        items = [Val(x) for x in value]
    else:
        items = [a_value(g, g.pick('iifdbDTnB')) if g.p(0.8) else g.scalar('s') for _ in range(n)]
        value = Seq(items, ctor).make()
        if ctor in ('set', 'frozenset'):
            items = [NVal(x) for x in value]
    ctx['value'] = '%s %r' % (ctor, [i.v for i in items])
    how = g.pick(['select', 'in', 'condition'])
    if ctor in ('set', 'frozenset') and how == 'condition':
        how = 'select'
    if how != 'select':
        items = [i for i in items if i.v is not None and not isinstance(i.v, bytes)] or [Val(5)]
        if ctor == 'range':
            items = [Val(x) for x in value]
        else:
            value = Seq(items, ctor).make()
            if ctor in ('set', 'frozenset'):
                items = [NVal(x) for x in value]
    if how == 'select':
        text = str(sp.select(sp.V(value)))
        got = dict(ast_of(text, d)[1])['cols'][0][0]
        # One item in parentheses reads as the item.
        got = got[1] if got[0] == 'list' else (got,)
        if text != 'SELECT (' + text[8:-1] + ')':
            raise Violation('not one parenthesised list', sql=text)
    else:
        arg = value if how == 'condition' else getattr(sp.relations, g.pick(['IN', 'NOT_IN']))(value)
        text = str(sp.select_from('t').where('a', arg))
        w = dict(ast_of(text, d)[1])['where']
        if w[0] != 'in' or w[3][0] != 'list':
            raise Violation('not an IN over one list', sql=text)
        got = w[3][1]
    M.saw(text)
    want = [i.exp(d) for i in items]
    ok = list(want) == list(got)
    if ctor in ('set', 'frozenset'):
        ok = len(got) == len(want) and match(want, got)
        M['set'] += 1
    if not ok:
        raise Violation('the sequence is rendered differently: %s' % diff(tuple(want), tuple(got)), sql=text)
    M['sequence'] += 1


def rows_case(g, d, M, ctx):
    """V(sequence of sequences), which is a list of rows."""
    width = g.r.randrange(2, 4)
    rows = [[a_value(g, g.pick('iifdbDTnB')) if g.p(0.8) else g.scalar('s') for _ in range(width)] for _ in range(g.count(2, 4, 0.1))]
    inner, outer = g.pick([list, tuple]), g.pick([list, tuple, lambda xs: (x for x in xs)])
    value = outer([inner(x.v for x in r) for r in rows])
    ctx['value'] = repr([[x.v for x in r] for r in rows])
    if g.p(0.6):
        text = str(sp.select(sp.V(value)))
        got = dict(ast_of(text, d)[1])['cols'][0][0]
    else:
        rel = getattr(sp.relations, g.pick(['IN', 'NOT_IN']))
        text = str(sp.select_from('t').where('a', rel(sp.V(value))))
        got = dict(ast_of(text, d)[1])['where'][3]
    M.saw(text)
    want = ('list', tuple(('list', tuple(x.exp(d) for x in r)) for r in rows))
    if not want == got:
        raise Violation('the rows are rendered differently: %s' % diff(want, got), sql=text)
    M['rows'] += 1


def match(want, got):
    """Is there a one-to-one assignment of the expected items to the rendered ones?"""
    owner = {}

    def place(i, seen):
        for j, x in enumerate(got):
            if j not in seen and want[i] == x:
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = i
                    return True
        return False

    return all(place(i, set()) for i in range(len(want)))


def read_back(g, v, M):
    if isinstance(v, int) and not isinstance(v, bool) and not -2**63 <= v < 2**63:
        return
    if isinstance(v, (float, Decimal)) and not 1e-3 <= abs(v) <= 1e9:
        return
    how = g.r.randrange(2)
    if how:
        row = lite.run(CON, str(sp.select(sp.V(v))))[0][0]
    else:
        CON.execute('CREATE TEMP TABLE t(id, a)')
        lite.run(CON, str(sp.insert_into('t').values(id=1, a=v)))
        row = CON.execute('SELECT a FROM t').fetchone()[0]
        CON.execute('DROP TABLE t')
    if isinstance(v, (float, Decimal)):
        ok = isinstance(row, float) and abs(row - float(v)) <= 5.1e-6 + abs(float(v)) * 1e-14
    elif isinstance(v, (datetime.date, datetime.datetime)):
        ok = row == v.isoformat()
    elif isinstance(v, bool):
        ok = row == int(v) and isinstance(row, int)
    else:
        ok = row == v and type(row) is (bytes if isinstance(v, bytes) else type(None) if v is None else int)
    if not ok:
        raise Violation('SQLite read back %r for %r' % (row, v))
    M['read back from SQLite'] += 1


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
