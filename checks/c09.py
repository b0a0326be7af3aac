"""C09: equality of queries tracks their content."""
import copy
import datetime
import sys
from decimal import Decimal

import _path                                                 # noqa: F401
from lib import pool, runner
from lib.boot import exc
from lib.gen import DIALECTS, G
from lib.judge import Violation, ast_of, configure, render
from lib.shadow import JOINS, OPTION_GROUP, Op, Sh, ShUnion
from lib.spec import (A, instant, ConcatFn, ConvertFn, Cust, ExistsT, Fn, NotT, QT, RW, RelA, Seq, Sub, VW, Val)

PROP = 'C09'
QUICK, THOROUGH = 32500, 420000
RULE = ('A random query of any kind is built twice from the same calls, copied, and built again with one small change somewhere in its '
        'calls (a value, name, alias, type, relation, direction, option, join type, union kind, order of calls, at any nesting level). '
        'Rendered statements are parsed; those that differ must belong to unequal queries, and same calls to equal ones. '
        'Distinct = distinct rendered texts.')
ASSUMPTIONS = ['datetimes denoting the same instant in different time zones are not distinguished']
NEED = ('observations', 'equal pairs', 'unequal pairs', 'copies', 'different kinds')

NEAR_REL = {'EQ': ['NE', 'GE'], 'NE': ['EQ'], 'GT': ['GE', 'LT'], 'GE': ['GT', 'LE'], 'LT': ['LE', 'GT'], 'LE': ['LT', 'GE'], 'LIKE': ['NOT_LIKE', 'EQ'],
            'NOT_LIKE': ['LIKE', 'NE'], 'REGEXP': ['LIKE'], 'IN': ['NOT_IN'], 'NOT_IN': ['IN'], 'IS': ['IS_NOT'], 'IS_NOT': ['IS']}


def near_value(g, v):
    """Another value, preferably one that is easily confused with v."""
    opts = [0, 1, True, False, None, 'x', '', 7, Decimal('2.5'), datetime.date(2020, 1, 2)]
    if isinstance(v, bool):
        opts = [not v, int(v), str(v), None]
    elif isinstance(v, int):
        opts = [v + 1, -v, str(v), v * 10, bool(v)] + ([float(v), Decimal(v)] if abs(v) < 10**15 else [])
    elif isinstance(v, float):
        opts = [v + 1, -v, str(v), v / 2, v + 0.00002]
    elif isinstance(v, Decimal):
        opts = [v + 1, -v, str(v), v + Decimal('0.00002')]
    elif isinstance(v, str):
        opts = [v + 'x', v + ' ', ' ' + v, v.upper(), v.swapcase(), v[:-1], v[1:], v[::-1], v + "'", v.strip(), v * 2, None, v.encode('utf-8', 'replace')]
        opts += [Cust('CZ1(%s)' % len(v)), VW(Val(v)), RW('r')]
        if v.isdigit() and len(v) < 20:
            opts.append(int(v))
    elif isinstance(v, bytes):
        opts = [v + b'x', v[:-1], v.hex(), v[::-1], v.swapcase(), v.upper(), v.strip(), v + b'\x00', bytes(x ^ 1 for x in v)]
    elif isinstance(v, datetime.datetime):
        opts = [v.replace(second=(v.second + 1) % 60), v.isoformat(), v.date(), v.replace(microsecond=(v.microsecond + 1) % 10**6)]
    elif isinstance(v, datetime.date):
        opts = [v.replace(day=v.day % 28 + 1), v.isoformat(), datetime.datetime(v.year, v.month, v.day)]
    elif v is None:
        opts = ['None', 'NULL', 0, False, '']
    if isinstance(v, A) or g.p(0.7):
        return g.pick(opts)
    return g.tweak(v)


def near_name(g, s):
    return g.pick([s + 'x', 'x' + s, s.swapcase(), s + '.x', 'x.' + s, s[:-1] or 'q', s[::-1], s + ' ', 'other', s.replace('.', '_'), s.replace('_', '.'),
                   s.lower(), s.upper(), s.strip() or 'q', Cust('CZ2(%d)' % len(s)), RW('x' + s)])


class Mutator:
    """Copies a structure of specifications, changing the k-th place where something can be changed."""

    def __init__(self, g, k):
        self.g, self.k, self.n, self.what = g, k, 0, None

    def site(self, what):
        self.n += 1
        if self.n - 1 == self.k:
            self.what = what
            return True
        return False

    def walk(self, x):
        g = self.g
        if isinstance(x, Sh):
            return self.query(x)
        if isinstance(x, ShUnion):
            l, r, op = self.walk(x.left), self.walk(x.right), x.op
            if self.site('union'):
                op, l, r = g.pick([('UNION' if op == 'UNION ALL' else 'UNION ALL', l, r), (op, r, l), (op, l, l)])
            return ShUnion(l, op, r)
        if isinstance(x, Val):
            if self.site('value'):
                v = near_value(g, x.v)
                return v if isinstance(v, A) else Val(v)
            return x
        if isinstance(x, str):
            return near_name(g, x) if self.site('name') else x
        if isinstance(x, bool) or x is None:
            return x
        if isinstance(x, int):
            return g.pick([x + 1, x * 10, max(0, x - 1)]) if self.site('int') else x
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], str) and self.site('second'):
            return (x[0], g.pick([None, x[1] + 'y', 'desc', 'asc']))
        if isinstance(x, (list, tuple)):
            items = [self.walk(i) for i in x]
            if len(items) > 1 and self.site('items'):
                i = g.r.randrange(len(items))
                j = g.r.randrange(len(items))
                g.pick([lambda: items.pop(i), lambda: items.append(items[i]), lambda: items.insert(i, items.pop(j))])()
            return type(x)(items) if type(x) in (list, tuple) else items
        if isinstance(x, dict):
            out = {}
            drop = len(x) > 1 and self.site('drop key') and g.pick(list(x))
            for k, v in x.items():
                if drop and k is drop:
                    continue
                nk = self.walk(k) if isinstance(k, str) else k
                if isinstance(nk, A):
                    nk = 'was_' + str(k)
                out[nk] = self.walk(v)
            return out
        if isinstance(x, A):
            return self.spec(x)
        return x

    def attrs(self, x, *names):
        y = copy.copy(x)
        for n in names:
            setattr(y, n, self.walk(getattr(x, n)))
        return y

    def spec(self, x):
        g = self.g
        if isinstance(x, Seq):
            if x.ctor == 'range':
                return x
            y = self.attrs(x, 'items')
            y.items = [i if isinstance(i, A) else Val(i) for i in y.items]
            return y
        if isinstance(x, VW):
            return x.inner if isinstance(x.inner, Val) and self.site('V') else self.attrs(x, 'inner')
        if isinstance(x, RW):
            return g.pick([Val(x.name), RW(x.name + 'x')]) if self.site('R') else x
        if isinstance(x, Cust):
            return Cust(x.text.replace('CZ', 'CZ9')) if self.site('custom') else x
        if isinstance(x, (Sub, ExistsT)):
            return self.attrs(x, 'q')
        if isinstance(x, Fn):
            y = self.attrs(x, 'args')
            if self.site('function'):
                if g.p(0.5):
                    y.distinct_fn = not y.distinct_fn
                else:
                    y.name = g.pick(['sum', 'max', 'min', 'avg', 'count'])
            return y
        if isinstance(x, ConcatFn):
            y = self.attrs(x, 'cols')
            y.steps = [(m, self.walk(a)) for m, a in x.steps]
            if self.site('concat'):
                y.group = not y.group
                if not y.group:
                    y.steps = []
            if y.group and self.site('separator'):
                y.steps = y.steps + [('separator', [Val(g.pick(['', ', ', 'x']))])]
            return y
        if isinstance(x, ConvertFn):
            y = self.attrs(x, 'expr')
            if self.site('convert'):
                y.tos = y.tos + ['signed']
            return y
        if isinstance(x, RelA):
            y = self.attrs(x, 'inner')
            if self.site('relation'):
                y.name = g.pick(NEAR_REL.get(x.name, ['EQ']))
            if y.spread and not isinstance(y.inner, Seq):
                y.spread = False
            return y
        if isinstance(x, QT):
            if x.op == 'leaf':
                return self.attrs(x, 'call')
            y = self.attrs(x, 'parts')
            if self.site('and/or'):
                y.op = 'or' if y.op == 'and' else 'and'
            return y
        if isinstance(x, NotT):
            return QT('leaf', x.parts, x.call) if self.site('not') else self.attrs(x, 'call')
        return x

    def query(self, sh):
        g = self.g
        y = copy.copy(sh)
        f, args, kwds = sh.create
        y.create = (f, self.walk(list(args)), self.walk(dict(kwds)))
        ops = []
        for op in sh.ops:
            m = op.method
            if self.site('method'):
                alt = None
                if m in JOINS:
                    alt = ['join', 'left_join', 'right_join']
                elif m in OPTION_GROUP:
                    alt = list(OPTION_GROUP)
                elif sh.kind == 'select':
                    alt = dict(where=['having'], having=['where'], group_by=['order_by'], order_by=['group_by'], fields_terminated_by=['lines_terminated_by'],
                               lines_terminated_by=['optionally_enclosed_by', 'fields_terminated_by'], optionally_enclosed_by=['lines_terminated_by'],
                               columns=['from_'], from_=['columns']).get(m)
                if alt:
                    m = g.pick(alt)
            args = [not a if isinstance(a, bool) and self.site('flag') else self.walk(a) for a in op.args]
            if m == 'limit' and self.site('offset'):
                args = args[:1] + [g.pick([0, 1, 7])]
            ops.append(Op(m, args, self.walk(op.kwds)))
        if ops and self.site('calls'):
            i, j = g.r.randrange(len(ops)), g.r.randrange(len(ops))
            g.pick([lambda: ops.pop(i), lambda: ops.append(ops[i]), lambda: ops.insert(i, ops.pop(j))])()
        y.ops = ops
        return y


def statement(q, d):
    """Parsed statement and text, whether or not confirmed; None if it cannot be rendered."""
    c = q.copy()
    if type(c).__name__ == 'Update':
        c.allow_update_all()
    elif type(c).__name__ == 'Delete':
        c.allow_delete_all()
    try:
        t = render(c)
    except exc.SqlPuzzleException:
        return None
    try:
        return t, ast_of(t, d)
    except Violation:
        return None                             # whether statements are well-formed is judged elsewhere


def eq(a, b, M):
    r, s, n, m = bool(a == b), bool(b == a), bool(a != b), bool(b != a)
    if r != s:
        raise Violation('equality is not symmetric', left=pool.text_or_error(a), right=pool.text_or_error(b), forward=r, backward=s)
    if n == r or m == s:
        raise Violation('== and != do not contradict each other', left=pool.text_or_error(a), right=pool.text_or_error(b))
    M['comparisons'] += 1
    return r


def must_equal(a, b, why, M):
    M['equal pairs'] += 1
    if not eq(a, b, M):
        raise Violation(why + ' but not equal', left=pool.text_or_error(a), right=pool.text_or_error(b))


OTHER = []


def case(rng, M, ctx):
    g = G(rng)
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    sh = pool.whole(g, d, g.pick([0, 1, 1, 2]), (0, 6), union=0.12)
    ctx['query'] = sh
    a, b = sh.build(), sh.build()
    if g.p(0.3):
        pool.text_or_error(g.pick([a, b]))
    must_equal(a, b, 'built by the same calls', M)
    must_equal(a, a, 'the same query', M)
    c = a.copy() if g.p(0.7) else copy.deepcopy(a)
    must_equal(a, c, 'a copy', M)
    M['copies'] += 1
    if g.p(0.3):
        must_equal(c, c.copy(), 'a copy of a copy', M)
    sa = statement(a, d)
    for o in OTHER:
        if type(o) is not type(a):
            M['different kinds'] += 1
            if eq(a, o, M):
                raise Violation('queries of different kinds are equal', left=pool.text_or_error(a), right=pool.text_or_error(o))
    if sa is None:
        return
    M.saw(sa[0])
    count = Mutator(g, -1)
    count.walk(sh)
    for _ in range(6):
        mut = Mutator(g, g.r.randrange(count.n) if count.n else 0)
        sh2 = mut.walk(sh)
        try:
            m = sh2.build()
        except Exception:                       # what invalid calls do is another property's business
            M['change is not a valid call'] += 1
            continue
        judge(g, a, m, mut.what, d, sa, ctx, M)
    if sh.kind != 'union':
        # one more call
        sh2 = sh.clone()
        n = len(sh2.ops)
        for op in pool.ops(g, sh2, d):
            sh2.apply(op, d)
        m = a.copy()
        for op in sh2.ops[n:]:
            op.run(m)
        judge(g, a, m, 'one more call', d, sa, ctx, M)


def judge(g, a, m, what, d, sa, ctx, M):
    ctx['change'] = what
    sm = statement(m, d)
    if sm is None:
        M['changed query cannot be rendered'] += 1
        return
    same = eq(a, m, M)
    if sm[1] == sa[1] or type(a) is not type(m):
        M['change without effect'] += 1
        return
    if same_instants(sm[1], sa[1]):
        return
    M['unequal pairs'] += 1
    M['changed ' + what] += 1
    M.saw(sm[0])
    if same:
        raise Violation('statements differ (%s changed) but the queries are equal' % what, left=sa[0], right=sm[0])


def same_instants(a, b):
    return norm(a) == norm(b)


def norm(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'str' and isinstance(x[1], str) and ('+' in x[1] or '-' in x[1][10:]):
            try:
                return ('instant', instant(x[1]))
            except ValueError:
                return x
        return tuple(norm(i) for i in x)
    return x


def setup():
    from lib.boot import sp
    OTHER[:] = [sp.select('a'), sp.select_from('t'), sp.select('a') | sp.select('b'), sp.insert_into('t').values(a=1), sp.update('t').set(a=1), sp.delete_from('t')]


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
