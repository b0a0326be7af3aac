"""C03: names are always rendered as properly quoted identifiers."""
import sys

import _path                                                 # noqa: F401
from lib import lite, runner
from lib.boot import DIALECTS, sp
from lib.gen import ODD, SIMPLE, KEYWORDISH, G
from lib.judge import HOWS, Violation, ast_of, configure, diff, render
from lib.parser import STAR
from lib.shadow import JOINS, Op, ShDelete, ShInsert, ShSelect, ShUpdate
from lib.spec import QUOTE, A, Cond, ConcatFn, ConvertFn, Cust, Fn, NotT, QT, RelA, Sub, Text, Val, VW

PROP = 'C03'
QUICK, THOROUGH = 325000, 4000000
RULE = ('A name (a path of bare and quoted components whose meaning is known, or arbitrary hostile text) is put into one of the '
        'name positions of a statement in one dialect; the statement is parsed by that dialect\'s independent lexer and must '
        'contain exactly that path, with nothing outside the quotes; SQLite also resolves such names against real tables. '
        'Distinct = distinct rendered statements.')
ASSUMPTIONS = ['names that are empty or consist only of dots are out of scope',
               'for text with stray quotes, where the path is a matter of taste, only containment and the order of all other '
               'characters are judged']
NEED = ('observations', 'known path', 'arbitrary text', 'resolved by SQLite')


class Name(A):
    """A name with a known path."""
    own = False

    def __init__(self, text, path):
        self.text, self.path = text, path

    def make(self):
        return Text(self.text) if self.own else self.text

    def exp(self, d):
        return ('ref', self.path)

    def __repr__(self):
        return ascii(self.text)


class AnyRef(tuple):
    def __new__(cls, text, quote):
        self = tuple.__new__(cls, ('ref', '?', None))
        self.rest = text.replace(quote, '').replace('.', '')
        self.quote = quote
        return self

    def __eq__(self, other):
        if not (isinstance(other, tuple) and len(other) == 2 and other[0] == 'ref'):
            return False
        if any(c is not STAR and not c for c in other[1]):
            return False
        text = ''.join('*' if c is STAR else c for c in other[1])
        return text.replace(self.quote, '').replace('.', '') == self.rest

    def __hash__(self):
        return 0

    def __repr__(self):
        return 'some reference over %s' % ascii(self.rest)


class Wild(A):
    """A name of which only the containment is judged."""

    def __init__(self, text, d):
        self.text = text
        self.ref = AnyRef(text, QUOTE[d])

    def make(self):
        return self.text

    def exp(self, d):
        return self.ref

    def __repr__(self):
        return ascii(self.text)


INJECT = ['; DROP TABLE t', ' OR 1=1', '--', '/*', '*/', "'", "' OR '1'='1", '(', ')', ',', '\\', '\n', '%s', '%(where)s', '{}', '*',
          ' AS x', '=1', '\x00', '#', '\u2028', ' ', '\t', 'a', 'x y', '1', 'é']


def component(g, d):
    """(written form, component)"""
    q = QUOTE[d]
    k = g.r.random()
    if k < 0.06:
        return '*', STAR
    text = g.wpick((3, g.pick(SIMPLE)), (1, g.pick(KEYWORDISH)), (2, g.pick(ODD)),
                   (3, ''.join(g.pick(INJECT + ['.', q, q + q, '`', '"', 'col', '.*', '*']) for _ in range(g.r.randrange(1, 6)))),
                   (1, g.part()), (0.15, 'n' * g.size(1100)))
    if '.' in text or q in text or g.p(0.3):
        return q + text.replace(q, q + q) + q, text
    if text == '*':
        return text, STAR
    return text, text


def known(g, d):
    n = 1
    while g.p(0.4) and n < 4:
        n += 1
    cs = [component(g, d) for _ in range(n)]
    n = Name('.'.join(c for c, _ in cs), tuple(c for _, c in cs))
    n.own = g.p(0.04)
    return n


def wild(g, d):
    q = QUOTE[d]
    while True:
        text = ''.join(g.pick(INJECT + [q, q, q, q * 2, '.', '.', '..', q + '.' + q, '`', '"', '[', ']', 'SELECT']) if g.p(0.9) else g.part()
                       for _ in range(g.r.randrange(1, 9)))
        if g.p(0.1):
            text = text * g.r.randrange(2, 30)
        if text.strip('.') and text.replace('.', '').replace(q, ''):
            return Wild(text, d)


def select(*ops):
    sh = ShSelect(('select_from', ['t'], {}), tables=[('t', None)])
    for o in ops:
        sh.apply(o)
    return sh


def p_column(g, n, d):
    style = g.r.randrange(6)
    if style == 0:
        return ShSelect(('select', [n, 'zz'], {}), cols=[(n, None), ('zz', None)])
    if style == 1:
        return ShSelect(('select', [(n, 'al')], {}), cols=[(n, 'al')])
    if style == 2:
        return ShSelect(('select', [{n: 'al'}], {}), cols=[(n, 'al')])
    if style == 3:
        return ShSelect(('select', [], {n: 'al'}), cols=[(n, 'al')])
    return select(Op('columns', [(n,)] if style == 4 else [n], {}, [(n, None)]))


def p_alias(g, n, d):
    c = g.pick(['a', Cust('CZ1(x)'), Fn('max', ['b']), VW(Val('v'))])
    if g.p(0.3) and isinstance(c, str):
        return ShSelect(('select', [], {c: n}), cols=[(c, n)])
    return ShSelect(('select', [(c, n) if g.p(0.5) else {c: n}], {}), cols=[(c, n)])


def p_table(g, n, d):
    m = g.pick(['from_', 'from_table', 'from_tables'])
    sh = ShSelect(('select', [], {}))
    k = g.r.randrange(4)
    if k == 0 and m != 'from_table':
        return sh.apply(Op(m, [(n, 'al')] if g.p(0.5) else [{n: 'al'}], {}, [(n, 'al')]))
    if k == 1 and m == 'from_table':
        return sh.apply(Op(m, [n, 'al'], {}, [(n, 'al')]))
    if k == 2 and m != 'from_table':
        return sh.apply(Op(m, [], {n: 'al'}, [(n, 'al')]))
    return sh.apply(Op(m, [n], {}, [(n, None)]))


def p_table_alias(g, n, d):
    t = g.pick(['t', 't', Sub(ShSelect(('select', ['x'], {}), cols=[('x', None)]))])
    sh = ShSelect(('select', [], {}))
    k = g.r.randrange(3)
    if k == 0:
        return sh.apply(Op('from_table', [t, n], {}, [(t, n)]))
    return sh.apply(Op('from_', [(t, n)] if k == 1 else [{t: n}], {}, [(t, n)]))


def p_join(g, n, d):
    m = g.pick([m for m in JOINS if m != 'full_join' or d == 'postgresql'])
    k = g.r.randrange(4)
    if k == 0:
        return select(Op(m, [n], {}, (n, None)))
    if k == 1:
        return select(Op(m, [(n, 'al')], {}, (n, 'al')))
    if k == 2:
        return select(Op(m, [('u', n)], {}, ('u', n)))
    return select(Op(m, [{n: 'al'}], {}, (n, 'al')))


def p_on(g, n, d):
    j = Op(g.pick(['join', 'left_join', 'right_join']), ['u'], {}, ('u', None))
    rel = g.pick(['LIKE', 'NOT_LIKE', 'REGEXP'])       # not affected by the orientation of comparisons
    k = g.r.randrange(4)
    if isinstance(n, Name) and g.p(0.5):
        c = Cond('b.x', n)
        return select(j, Op('on', ['b.x', n], {}, [c]) if g.p(0.5) else Op('on', [], {'b.x': n}, [c]))
    if k == 0:
        return select(j, Op('on', [n, RelA(rel, Val('c.d'))], {}, [Cond(n, RelA(rel, Val('c.d')))]))
    if k == 1:
        c = Cond('b.x', RelA(rel, n))
        return select(j, Op('on', [[('b.x', c.val)]], {}, [c]))
    if k == 2:
        return select(j, Op('on', [{n: Val(3)}], {}, [Cond(n, Val(3))]))
    return select(j, Op('on', [], {n: Val(True)}, [Cond(n, Val(True))]))


def p_cond(g, n, d):
    m = g.pick(['where', 'where', 'having'])
    c = Cond(n, g.pick([Val(1), Val(None), Val('v'), RelA('LIKE', Val('x%')), RelA('NOT_IN', g.seq())]))
    k = g.r.randrange(6)
    if k == 0:
        return select(Op(m, [c.col, c.val], {}, [c]))
    if k == 1:
        return select(Op(m, [{n: c.val}], {}, [c]))
    if k == 2:
        return select(Op(m, [], {n: c.val}, [c]))
    if k == 3:
        t = NotT([c], ([{n: c.val}], {}))
    else:
        t = QT('leaf', [c], ([n, c.val], {}))
        if k == 5:
            t = QT(g.pick(['and', 'or']), [t, QT('leaf', [Cond('z', Val(2))], (['z', Val(2)], {}))])
    return select(Op(m, [t], {}, [t]))


def p_order(g, n, d):
    m = g.pick(['order_by', 'group_by'])
    way = g.pick(['asc', 'desc'])
    k = g.r.randrange(4)
    if k == 0:
        return select(Op(m, [n, 'zz'], {}, [(n, None), ('zz', None)]))
    if k == 1:
        return select(Op(m, [(n, way)], {}, [(n, way)]))
    if k == 2:
        return select(Op(m, [{n: way}], {}, [(n, way)]))
    return select(Op(m, [], {n: way}, [(n, way)]))


class RefObj(A):
    """sqlpuzzle.R(name)"""

    def __init__(self, n):
        self.n = n

    def make(self):
        return sp.R(self.n.make())

    def exp(self, d):
        return self.n.exp(d)

    def __repr__(self):
        return 'R(%r)' % (self.n,)


def p_reference(g, n, d):
    r = RefObj(n)
    k = g.r.randrange(6)
    if k == 0:
        return ShSelect(('select', [r], {}), cols=[(r, None)])
    if k == 1:
        return select(Op('where', ['a', r], {}, [Cond('a', r)]))
    if k == 2:
        return select(Op('where', [r, Val(1)], {}, [Cond(r, Val(1))]))
    if k == 3:
        x = RelA(g.pick(['GT', 'LIKE', 'NE']), r)
        return select(Op('having', ['a', x], {}, [Cond('a', x)]))
    if k == 4:
        sh = ShInsert(('insert_into', ['t'], {}), tables=[('t', None)])
        return sh.apply(Op('values', [], {'a': r}, [('a', r)]))
    sh = ShUpdate(('update', ['t'], {}), tables=[('t', None)])
    sh.apply(Op('set', ['a', r], {}, [('a', r)]))
    return sh.apply(Op('where', [], {'id': Val(1)}, [Cond('id', Val(1))]))


def p_function(g, n, d):
    k = g.r.randrange(5)
    if k == 0:
        f = Fn(g.pick(['avg', 'count', 'max', 'min', 'sum']), [n], g.p(0.3))
    elif k == 1:
        f = Fn(g.pick(['count', 'max']), [n, 'zz'], g.p(0.3), seq=g.pick([list, tuple]))
    elif k == 2:
        f = ConcatFn([n, VW(Val('-')), 'b'], g.p(0.5))
    elif k == 3:
        f = ConcatFn(['a'], True, [('order_by', [n if g.p(0.5) else (n, 'desc')])])
    else:
        f = ConvertFn(n, 'char')
    if g.p(0.7):
        return ShSelect(('select', [f], {}), cols=[(f, None)])
    return select(Op('having', [f, Val(1)], {}, [Cond(f, Val(1))]))


class AliasedConcat(ConcatFn):
    """concat((column, name))"""

    def __init__(self, n, group):
        super().__init__([('a', n)], group)

    def exp(self, d):
        return ('call', 'GROUP_CONCAT' if self.group else 'CONCAT', False, ((('ref', ('a',)), self.cols[0][1].exp(d)),), (), None)


def p_concat_alias(g, n, d):
    f = AliasedConcat(n, g.p(0.5))
    return ShSelect(('select', [f], {}), cols=[(f, None)])


def p_set(g, n, d):
    sh = ShUpdate(('update', ['t'], {}), tables=[('t', None)])
    v = Val('v')
    k = g.r.randrange(3)
    sh.apply(Op('set', [n, v] if k == 0 else [{n: v}] if k == 1 else [], {n: v} if k == 2 else {}, [(n, v)]))
    return sh.apply(Op('where', [], {'id': Val(1)}, [Cond('id', Val(1))]))


def p_values(g, n, d):
    sh = ShInsert(('insert_into', ['t'], {}), tables=[('t', None)])
    v = Val('v')
    k = g.r.randrange(3)
    sh.apply(Op('values', [n, v] if k == 0 else [{n: v}] if k == 1 else [], {n: v} if k == 2 else {}, [(n, v)]))
    return sh


def p_upsert(g, n, d):
    if d not in ('mysql', 'postgresql'):
        return p_values(g, n, d)
    sh = ShInsert(('insert_into', ['t'], {}), tables=[('t', None)])
    sh.apply(Op('values', [], {'a': Val(1)}, [('a', Val(1))]))
    v = Val('v')
    if d == 'mysql':
        return sh.apply(Op('on_duplicate_key_update', [n, v], {}, (None, [(n, v)])), d)
    if g.p(0.5):
        return sh.apply(Op('on_duplicate_key_update', [n], {'b': v}, (n, [('b', v)])), d)
    return sh.apply(Op('on_duplicate_key_update', ['id', {n: v}], {}, ('id', [(n, v)])), d)


def p_target(g, n, d):
    """Tables of INSERT, UPDATE and DELETE."""
    k = g.r.randrange(5)
    if k == 0:
        sh = ShInsert(('insert_into', [n], {}), tables=[(n, None)])
        return sh.apply(Op('values', [], {'a': Val(1)}, [('a', Val(1))]))
    if k == 1:
        sh = ShUpdate(('update', [n], {}), tables=[(n, None)])
        sh.apply(Op('set', [], {'a': Val(1)}, [('a', Val(1))]))
        return sh.apply(Op('allow_update_all'))
    if k == 2:
        sh = ShDelete(('delete_from', [n], {}), refs=[(n, None)])
        return sh.apply(Op('allow_delete_all'))
    if k == 3:
        sh = ShDelete(('delete_from', [], {n: 'al'}), refs=[(n, 'al')])
        return sh.apply(Op('allow_delete_all'))
    sh = ShDelete(('delete', [n], {}), tables=[(n, None)])
    sh.apply(Op('from_', ['t'], {}, [('t', None)]))
    return sh.apply(Op('where', [], {'id': Val(1)}, [Cond('id', Val(1))]))


POSITIONS = [p_column, p_column, p_alias, p_table, p_table_alias, p_join, p_on, p_cond, p_cond, p_order, p_reference, p_function,
             p_concat_alias, p_set, p_values, p_upsert, p_target]


def case(rng, M, ctx):
    g = G(rng)
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    if d == 'sqlite' and g.p(0.2):
        return resolve(g, M, ctx)
    n = known(g, d) if g.p(0.6) else wild(g, d)
    pos = g.pick(POSITIONS)
    ctx.update(name=repr(n), position=pos.__name__)
    if isinstance(n, Name) and n.text == 'self':
        return
    sh = pos(g, n, d)
    if g.p(0.12) and sh.kind == 'select':
        sub = Sub(sh)
        sh = g.pick([ShSelect(('select_from', [(sub, 'q')], {}), tables=[(sub, 'q')]),
                     select(Op('where', ['z', RelA('IN', sub)], {}, [Cond('z', RelA('IN', sub))])),
                     ShSelect(('select', [(sub, 'q')], {}), cols=[(sub, 'q')])])
    ctx['query'] = repr(sh)
    text = render(sh.build(), g.pick(HOWS))
    M.saw(text)
    got, want = ast_of(text, d), sh.exp(d)
    if not want == got:
        raise Violation('the name is not rendered as itself: %s' % diff(want, got), sql=text)
    M['known path' if isinstance(n, Name) else 'arbitrary text'] += 1
    M[pos.__name__] += 1


def setup():
    global CON
    CON = lite.connect()


def resolve(g, M, ctx):
    """SQLite itself must find exactly the named table and column."""
    comps = []
    while len(comps) < 4:
        w, c = component(g, 'sqlite')
        if c is STAR or '\0' in c or not lite.storable(c) or c.lower() in ('t', 'main', 'rowid', '_rowid_', 'oid'):
            continue
        if c.lower().startswith('sqlite_') or any(c.lower() == x.lower() for _, x in comps):
            continue
        comps.append((w, c))
    (wt, t), (wc, c), (wo, o), (wa, a) = comps
    ctx['names'] = ascii(comps)
    CON.execute('CREATE TEMP TABLE %s (%s, %s)' % (lite.q(t), lite.q(c), lite.q(o)))
    try:
        q = sp.insert_into(wt).values({wc: 1, wo: 10}).values({wo: 20, wc: 2})
        lite.run(CON, str(q))
        q = sp.select((wt + '.' + wc if g.p(0.5) else wc, wa), wo).from_(wt).where({wt + '.' + wo: sp.relations.GT(5)}).order_by((wc, 'desc'))
        text = str(q)
        try:
            cur = CON.execute(text)
        except lite.sqlite3.Error as e:
            raise Violation('SQLite does not find the name: %s' % e, sql=text)
        got, heads = cur.fetchall(), [x[0] for x in cur.description]
        if got != [(2, 20), (1, 10)] or heads[0] != a:
            raise Violation('SQLite finds something else', sql=text, got=got, heads=heads)
        lite.run(CON, str(sp.update(wt).set({wc: 7}).where({wo: 10})))
        lite.run(CON, str(sp.delete_from(wt).where({wo: 20})))
        got = CON.execute('SELECT %s, %s FROM %s' % (lite.q(c), lite.q(o), lite.q(t))).fetchall()
        if got != [(7, 10)]:
            raise Violation('SQLite changed something else', got=got)
        M.saw(text)
        M['resolved by SQLite'] += 1
    finally:
        CON.execute('DROP TABLE %s' % lite.q(t))


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
