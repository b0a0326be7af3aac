"""C20: custom SQL is passed through verbatim in every position."""
import copy
import re
import sys

import _path                                                 # noqa: F401
from lib import mine, pool, runner
from lib.boot import DIALECTS, exc, rel, sp
from lib.gen import G
from lib.judge import HOWS, Violation, check_text, configure, render
from lib.shadow import Raises
from lib.spec import Cust

PROP = 'C20'
QUICK, THOROUGH = 110000, 1500000
RULE = ('(0) One custom text is put into every position. (1) One to four custom texts are put into random positions of a statement or part and rendered in every way and backend; the text must be '
        'the one with harmless texts there, with each harmless text replaced by the given one. (2) Random whole statements with custom '
        'SQL: the statement with harmless texts is parsed and compared with the model, then rebuilt with hostile additions to every custom text, '
        'and must differ in these additions only. Distinct = distinct rendered texts.')
ASSUMPTIONS = ['white space at the ends of the whole statement is not significant', 'an empty custom text is not used']
NEED = ('observations', 'positions', 'in a statement', 'rebuilt', 'alone', 'in every position')

PIECES = ['a', 'b', 'id', 'CZ', 'NULL', 'null', 'TRUE', '*', 'a.b', 'a.*', '`a`', '`a`.`b`', '"a"', '"a"."b"', "'x'", "'it''s'", "'it\\'s'", '\\', '\\\\', '\\1', '\\g<0>',
          '\\n', '\n', '\r\n', '\t', '  ', ' ', '   ', '\x0b', '\xa0', '\u2028', '\u3000', '\x00', '\x1f', '%', '%%', '%s', '%d', '%(a)s', '%(where)s', '{', '}', '{}', '{{}}', '{0}', '{a}', '{!r}', '$1', ':a', '?',
          '--', '-- x\n', '/* c */', '/*', '*/', '#', ';', ';;', ',', ', ', ',,', '(', ')', '()', '((', '(a)', '[', ']', '=', '!=', '<>', ' AND ', ' and ', ' OR ',
          ' or ', 'NOT ', 'not ', ' AS ', ' as ', ' ASC', ' DESC', 'asc', 'desc', ' IN (1)', 'SELECT', 'select 1', 'Select', 'FROM', 'from', 'WHERE', 'where', ' ON ', 'JOIN', 'UNION', 'LIMIT', 'ORDER BY',
          'GROUP BY', 'SEPARATOR', 'DISTINCT', 'distinct', 'DISTINCTROW', 'VALUES', 'SET', 'INTO', '1', '0', '42', '1.5', '-1', '1e5', '+', '/', '||', '&', '|', '~', '@a', '@@b', '<', '>', "'", '"', '`',
          "''", '""', '``', 'ß', 'İ', 'ı', 'ſ', 'é', 'e\u0301', 'ﬁ', '表', '\U0001f600', '\ufeff', '\u200b', '\ud800'[:0], 'K', 'Ａ', 'None', 'True', 'False', 'b\'x\'', 'X\'00\'', 'interval \'1 day\'',
          'count(*)', 'COUNT(*)', 'now()', 'IFNULL(col, 42) AS col', 'age = age + 1', '<CustomSql: x>', '<', 'r\'', 'u\'', '::int', '->>', 'CZ1(x)', 'CZ', 'qq', 'QQ']

END = re.compile(r'\A\s+|\s+(?=\)| UNION|\Z)')
WORDS = '''DEFAULT NULL TRUE FALSE UNKNOWN ALL ANY SOME CASE WHEN THEN ELSE END BETWEEN LIKE ILIKE REGEXP RLIKE IS NOT IN EXISTS DISTINCT UNIQUE CURRENT_TIMESTAMP
CURRENT_DATE CURRENT_TIME LOCALTIME NOW() RAND() RANDOM() UUID() VALUES DUAL ROWNUM ROWID rowid OID CAST COLLATE BINARY USING NATURAL CROSS OUTER INNER LEFT RIGHT FULL
WINDOW OVER PARTITION RETURNING WITH RECURSIVE FOR UPDATE LOCK SHARE MODE OFFSET FETCH TOP HAVING EXCEPT INTERSECT TABLE VIEW INDEX KEY PRIMARY REPLACE IGNORE
DELETE INSERT DROP TABLE EXPLAIN INTERVAL DATE TIME TIMESTAMP ROW ARRAY[1] NEW OLD EXCLUDED NONE AUTO SQL_CACHE STRAIGHT_JOIN ESCAPE NULLS FIRST LAST'''.split()
ENDS = ['', '', ' ', '\n', '\t']


def text(g):
    k = g.r.random()
    if k < 0.1:
        s = g.pick(WORDS)
        s = g.pick([s, s, s.lower(), s.title()])
    elif k < 0.2:
        s = g.pick(mine.STRINGS)
        s = g.pick([s, s, s.upper(), s.lower()])
    elif k < 0.25:
        s = '%s %s' % (g.pick(WORDS + mine.STRINGS), g.pick(WORDS + mine.STRINGS))
    elif k < 0.45:
        s = g.pick(PIECES)
    elif k < 0.8:
        s = ''.join(g.pick(PIECES) for _ in range(g.r.randrange(2, 7)))
    elif k < 0.9:
        s = g.string()
    elif k < 0.98:
        s = ''.join(chr(g.r.randrange(1, 0x250)) for _ in range(g.r.randrange(1, 12)))
    else:
        s = g.pick(PIECES) * g.r.randrange(50, 2000)
    s = s.strip() or 'x'
    return s if g.p(0.8) else g.pick(ENDS) + s + g.pick(ENDS)


# What takes custom SQL: functions of one to three custom texts.

def sel():
    return sp.select_from('t')


HEAD = {                                       # new statements and parts
    'select': lambda c: sp.select(c), 'select t': lambda c: sp.select(c).from_('t'),
    'select more': lambda c: sp.select('a', c, 'b').from_('t'),
    'select twice': lambda c: sp.select(c, c).from_('t'),
    'select alias': lambda c: sp.select((c, 'x'), 'b').from_('t'),
    'select list': lambda c: sp.select(['a', c]).from_('t'),
    'select one': lambda c: sp.select([c]),
    'select as': lambda c: sp.select(('a', c)),
    'select dict': lambda c: sp.select({c: 'x'}),
    'select from': lambda c: sp.select_from(c),
    'select from more': lambda c: sp.select_from('t', c, 'u'),
    'select from alias': lambda c: sp.select_from((c, 'x')),
    'update': lambda c: sp.update(c).set(a=1).where(b=2),
    'delete': lambda c: sp.delete_from(c).where(b=2),
    'delete what': lambda c: sp.delete(c).from_('t').where(b=2),
    'insert': lambda c: sp.insert_into(c).values(a=1),
    'set value': lambda c: sp.update('t').set(a=c).allow_update_all(),
    'set dict': lambda c: sp.update('t').set({'a': c, 'b': 2}).where(id=3),
    'set pair': lambda c: sp.update('t').set('a', c).where(id=3),
    'set pairs': lambda c: sp.update('t').set((('b', 2), ('a', c), ('c', 3))).where(id=3),
    'set custom': lambda c: sp.update('t').set(c).where(id=3),
    'set custom and more': lambda c: sp.update('t').set(b=1).set(c).set(d=2).where(id=3),
    'set name': lambda c: sp.update('t').set(c, 5).where(id=3),
    'values': lambda c: sp.insert_into('t').values(a=c),
    'values more': lambda c: sp.insert_into('t').values(a=1, b=c).values(b=2, c='x'),
    'values last': lambda c: sp.insert_into('t').values({'c': 'x', 'd': c}),
    'values name': lambda c: sp.insert_into('t').values(c, 5),
    'upsert value': lambda c: upsert({'b': c, 'c': 5}),
    'upsert custom': lambda c: upsert(c),
    'outfile': lambda c: sel().into_outfile(c).fields_terminated_by(','), 'fields': lambda c: sel().into_outfile('f').fields_terminated_by(c).lines_terminated_by('x'),
    'lines': lambda c: sel().into_outfile('f').lines_terminated_by(c), 'enclosed': lambda c: sel().into_outfile('f').optionally_enclosed_by(c),
    'count': lambda c: sp.count(c), 'max': lambda c: sp.max(c), 'avg distinct': lambda c: sp.avg_distinct(c),
    'sum': lambda c: sp.select(sp.sum(c)).from_('t'), 'min': lambda c: sp.select((sp.min(c), 'x')).from_('t'),
    'concat': lambda c: sp.concat('a', c, 'b'),
    'group concat': lambda c: sp.group_concat(c, 'b'), 'group concat order': lambda c: sp.group_concat('a').order_by('x', c),
    'group concat order desc': lambda c: sp.group_concat('a').order_by((c, 'desc')),
    'separator': lambda c: sp.group_concat('a').separator(c),
    'convert': lambda c: sp.convert(c, 'signed'),
    'exists': lambda c: sp.exists(c), 'not': lambda c: sp.Not(c),
    'Q': lambda c: sp.Q(c), 'Q or': lambda c: sp.Q(c) | sp.Q(a=1), 'Q and': lambda c: sp.Q(a=1) & sp.Q(c), 'Q value': lambda c: sp.Q(a=c), 'not Q': lambda c: sp.Not(sp.Q(c)), 'not value': lambda c: sp.Not(sp.Q(a=c)),
    'Q both': lambda c: (sp.Q(c) | sp.Q(a=2)) & (sp.Q(b=1) | sp.Q(c)),
    'V': lambda c: sp.V(c), 'C': lambda c: sp.C(c), 'alone': lambda c: c, 'deep': lambda c: sp.C(sp.C(c)),
    'union': lambda c: sp.select(c).from_('t') | sp.select('b').from_('t'),
    'union both': lambda c: sp.select(c).from_('t') & sp.select(c).from_('u'),
    'subselect': lambda c: sp.select_from((sp.select(c).from_('t'), 'x')).where(a=1),
    'subselect column': lambda c: sp.select((sp.select(c).from_('t').where(c), 'x'), 'b').from_('t'),
    'subselect in': lambda c: sel().where(a=rel.IN(sp.select(c).from_('t'))),
    'exists select': lambda c: sel().where(sp.exists(sp.select(c).from_('u').where(c))),
}

SLOT = {                                       # added to a SELECT
    'columns': lambda q, c: q.columns(c),
    'columns alias': lambda q, c: q.columns('x', (c, 'z')),
    'from': lambda q, c: q.from_(c),
    'where': lambda q, c: q.where(c),
    'where value': lambda q, c: q.where(a=c),
    'where name': lambda q, c: q.where(c, 5),
    'where both': lambda q, c: q.where(c, c),
    'where pair': lambda q, c: q.where('a', c),
    'where pairs': lambda q, c: q.where((('a', c), (c, 'x'))),
    'where list': lambda q, c: q.where([('a', 1), ('b', c)]),
    'where dict': lambda q, c: q.where({'a': c, 'b': 1}),
    'where key': lambda q, c: q.where({c: 1}),
    'ne': lambda q, c: q.where(a=rel.NE(c)), 'gt': lambda q, c: q.where(a=rel.GT(c)), 'le': lambda q, c: q.where(a=rel.LE(c)), 'lt': lambda q, c: q.where(c, rel.LT(5)),
    'ge': lambda q, c: q.where(a=rel.GE(c)),
    'like': lambda q, c: q.where(a=rel.LIKE(c)), 'not like': lambda q, c: q.where(c, rel.NOT_LIKE('x')), 'regexp': lambda q, c: q.where(a=rel.REGEXP(c)),
    'in': lambda q, c: q.where(a=rel.IN([1, c, 2])), 'in one': lambda q, c: q.where(a=rel.IN([c])), 'in args': lambda q, c: q.where(a=rel.IN(c, 'x')),
    'in null': lambda q, c: q.where(a=rel.IN(None, c)), 'in plain': lambda q, c: q.where(a=[c, 'y']),
    'not in': lambda q, c: q.where(a=rel.NOT_IN([c, c, 1])), 'in of': lambda q, c: q.where(c, rel.IN([1, 2])), 'in of null': lambda q, c: q.where(c, rel.IN([1, None])),
    'not in of null': lambda q, c: q.where(c, rel.NOT_IN([1, None])), 'in empty': lambda q, c: q.where(c, rel.IN([])), 'in lists': lambda q, c: q.where(c, (1, 2)),
    'is': lambda q, c: q.where(c, rel.IS(None)), 'is not': lambda q, c: q.where(c, rel.IS_NOT(None)), 'null': lambda q, c: q.where(c, None),
    'is c': lambda q, c: q.where(a=rel.IS(c)), 'true': lambda q, c: q.where(c, True),
    'Q': lambda q, c: q.where(sp.Q(c) | sp.Q(a=c)), 'Not': lambda q, c: q.where(sp.Not(c)), 'Not value': lambda q, c: q.where(sp.Not(b=c)),
    'having': lambda q, c: q.having(c), 'having value': lambda q, c: q.having(a=c), 'having name': lambda q, c: q.having(c, rel.GT(5)),
    'group by': lambda q, c: q.group_by(c), 'group by more': lambda q, c: q.group_by('a', c, 'b'), 'group by desc': lambda q, c: q.group_by((c, 'desc')),
    'order by': lambda q, c: q.order_by(c), 'order by more': lambda q, c: q.order_by('x', c, ('y', 'desc')), 'order by desc': lambda q, c: q.order_by((c, 'desc')),
    'order by asc': lambda q, c: q.order_by([c, 'asc']), 'order by list': lambda q, c: q.order_by(c, 'x'),
    'join': lambda q, c: q.join(c).on('a', 'b'), 'join alias': lambda q, c: q.left_join((c, 'y')).on('a.x', 'y.z'), 'on': lambda q, c: q.join('u').on(c),
    'on value': lambda q, c: q.join('u').on('a', c), 'on name': lambda q, c: q.join('u').on(c, 'a'), 'on both': lambda q, c: q.inner_join(('u', 'v')).on('a', 'b').on(c),
    'right on': lambda q, c: q.right_join('u').on(sp.Q(c) | sp.Q(a=1)),
    'count': lambda q, c: q.columns(sp.count(c)), 'concat': lambda q, c: q.columns((sp.concat(c, 'b'), 'cc')),
    'where function': lambda q, c: q.where(sp.max(c), 5), 'order function': lambda q, c: q.order_by((sp.sum(c), 'desc')),
    'where exists': lambda q, c: q.where(sp.exists(c)), 'where subselect': lambda q, c: q.where(c, sp.select('x').from_('u')),
    'subselect where': lambda q, c: q.where('a', sp.select('x').from_('u').where(c).order_by(c)),
}


def upsert(what):
    q = sp.insert_into('t').values(a=1)
    if CURRENT[0] == 'postgresql':
        return q.on_duplicate_key_update('a', what)
    if CURRENT[0] in ('sql', 'sqlite'):
        return q.values(b=what['c'] if isinstance(what, dict) and 'c' in what else 0, c=what['b'] if isinstance(what, dict) else what)
    return q.on_duplicate_key_update(what)


REFUSE = ('in empty', 'join')


CURRENT = ['sql']


def conf(d):
    CURRENT[0] = d
    configure(d)


MARKS = ('CZ1(x)', 'CZ2(y)', 'CZ3(z)', 'CZ4(w)')


def build(recipe, texts):
    """Carry out a recipe with these texts; the same text may be one object or several."""
    head, slots, shared, nest = recipe
    objs = [custom(t, nest) for t in texts]

    def at(i):
        return objs[i] if shared else custom(texts[i], nest)
    if head is not None:
        o = HEAD[head](at(0))
        if not slots:
            return o
    else:
        o = sel()
    for n, (s, i) in enumerate(slots):
        o = SLOT[s](o, at(i))
    return o


def custom(t, nest):
    if nest == 1:
        return sp.C(sp.C(t))
    if nest == 2:
        return sp.customsql(string=t)
    if nest == 3:
        return copy.deepcopy(sp.C(t))
    if nest == 4:
        return sp.C(t).copy()
    return sp.C(t)


def same(a, b):
    """White space at the end of a whole statement, also of a nested one, does not count."""
    return a == b or re.sub(END, '', a) == re.sub(END, '', b)


def swap(base, pairs):
    """Simultaneous replacement."""
    out, i = [], 0
    while i < len(base):
        for m, t in pairs:
            if base.startswith(m, i):
                out.append(t)
                i += len(m)
                break
        else:
            out.append(base[i])
            i += 1
    return ''.join(out)


def outcome(make, how):
    try:
        o = make()
        return o, render(o, how)
    except exc.SqlPuzzleException as e:
        return None, type(e)


def positions(g, M, ctx):
    d = g.pick(DIALECTS)
    conf(d)
    n = g.pick([1, 1, 2, 3, 4])
    texts = [text(g) for _ in range(n)]
    if n > 1 and g.p(0.3):
        texts[1] = g.pick([texts[0].upper(), texts[0].lower(), texts[0] + ' ', texts[0] + 'x', texts[0].swapcase(), '(%s)' % texts[0]])
    texts = list(dict.fromkeys(texts))          # the same text twice may be said once
    n = len(texts)
    if g.p(0.5):
        recipe = (g.pick(list(HEAD)), [], g.p(0.5), g.r.randrange(5))
        texts = texts[:1]
    else:
        head = g.pick([None, None, None, 'select t', 'select more', 'select from', 'select alias', 'select from alias'])
        slots = [(g.pick(list(SLOT)), i) for i in range(n)]
        recipe = (head, slots, g.p(0.5), g.r.randrange(5))
        if g.p(0.05):
            recipe[1].append((g.pick(list(SLOT)), g.r.randrange(n)))
    ctx['dialect'], ctx['recipe'], ctx['texts'] = d, recipe, texts
    how = g.pick(HOWS)
    marks = MARKS[:len(texts)]
    o0, base = outcome(lambda: build(recipe, marks), how)
    o1, got = outcome(lambda: build(recipe, texts), how)
    M['positions'] += 1
    if not isinstance(base, str) or not isinstance(got, str):
        if base is not got:
            raise Violation('with a harmless text %s, with the given text %s' % (base, got))
        if not any(x in REFUSE for x, _ in recipe[1]):
            raise Violation('custom SQL is refused: %s' % base)
        M['refused alike'] += 1
        return
    for i, m in enumerate(marks):
        if m not in base:
            raise Violation('a custom text is missing', sql=base, text=m)
    want = swap(base, list(zip(marks, texts)))
    if not same(got, want):
        raise Violation('the custom text is not passed through: expected %r' % want, sql=got)
    M.saw(got)
    M[recipe[0] or 'slots'] += 1
    for s, _ in recipe[1]:
        M['slot ' + s] += 1
    M['in a statement'] += bool(recipe[1])
    # Copies and other backends.
    if g.p(0.3):
        c = g.pick([lambda: o1.copy(), lambda: copy.deepcopy(o1)])()
        if not same(render(c, how), want):
            raise Violation('a copy does not pass the custom text through: expected %r' % want, sql=render(c, how))
        M['copies'] += 1
    if g.p(0.3):
        d2 = g.pick(DIALECTS)
        how = g.pick(HOWS)
        ctx['dialect'] = '%s, then %s' % (d, d2)
        conf(d2)
        a, b = pool.text_or_error(o0, how), pool.text_or_error(o1, how)
        if not same(b, swap(a, list(zip(marks, texts)))):
            raise Violation('in another backend the custom text is not passed through', sql=b)
        M['other backend'] += 1


BASES = {}


def sweep(g, M, ctx):
    """One text in every position."""
    d = g.pick(DIALECTS)
    conf(d)
    t = (text(g) if g.p(0.4) else g.pick(mine.STRINGS + WORDS + [w.lower() for w in WORDS])).strip() or 'x'
    ctx['dialect'], ctx['text'] = d, t
    for table, name in [(HEAD, n) for n in HEAD] + [(SLOT, n) for n in SLOT]:
        key = d, table is HEAD, name

        def make(t):
            return HEAD[name](sp.C(t)) if table is HEAD else SLOT[name](sel(), sp.C(t))
        if name in REFUSE:
            continue
        if key not in BASES:
            BASES[key] = str(make(MARKS[0]))
        ctx['position'] = name
        want = BASES[key].replace(MARKS[0], t)
        got = str(make(t))
        if got != want:
            raise Violation('the custom text is not passed through: expected %r' % want, sql=got)
        M.saw(got)
    M['in every position'] += 1


def alone(g, M, ctx):
    """The object itself."""
    conf(g.pick(DIALECTS))
    t = text(g)
    ctx['text'] = t
    c = custom(t, g.r.randrange(5))
    for how in g.r.sample(HOWS, 3):
        if render(c, how) != t:
            raise Violation('C renders as %r' % render(c, how))
    u = g.pick([t, t.upper(), t.lower(), t + ' ', ' ' + t, t.strip(), t + 'x', text(g), t.replace("'", '"'), t.replace('  ', ' '), t.casefold()])
    if (c == sp.C(u)) != (t == u):
        raise Violation('C(%r) %s C(%r)' % (t, '==' if c == sp.C(u) else '!=', u))
    M.saw(t)
    M['alone'] += 1


# ---------------------------------------------------------------- whole statements

TAILS = [' ', '  ', '\n', '\t', '%s', '{}', '{0}', '\\', "'", '"', '`', '--', '/*', '(', ')', ',', ', ', ' AS x', ' DESC', 'ß', 'İ', '\xa0', ';', '%%', '%', '\\1', ' AND ',
         'nUlL', '.a', '``', '""', "''", ' x', 'é', '\x00', '$1', '?']


class Boost(G):
    """More custom SQL wherever it may go."""

    def wpick(self, *options):
        return super().wpick(*((w * 6 if f == self.custom else w, f) for w, f in options))


def whole(g, M, ctx):
    d = g.pick(DIALECTS)
    conf(d)
    sh = pool.whole(g, d, g.pick([0, 1, 1, 2]), (0, 10))
    ctx['dialect'], ctx['query'] = d, sh
    want = sh.exp(d)
    if isinstance(want, Raises):
        return
    how = g.pick(HOWS)
    used = {}
    seed = g.r.randrange(10**9)
    tails = [''.join(g.pick(TAILS) for _ in range(g.r.randrange(1, 4))) + g.pick(['z', ')', "'", ';', '%', '}']) for _ in range(3)]

    def note(t):
        used[t] = t
        return t

    def hostile(t):
        used[t] = t + tails[sum(map(ord, t), seed) % 3]
        return used[t]
    CHANGE[0] = note
    try:
        base = render(sh.build(), how)
        if not used:
            M['without custom SQL'] += 1
            return
        check_text(base, want, d)
        CHANGE[0] = hostile
        got = render(sh.build(), how)
    finally:
        CHANGE[0] = None
    exp = swap(base, sorted(used.items(), key=lambda x: -len(x[0])))
    ctx['tails'] = tails
    if got != exp:
        raise Violation('the custom texts are not passed through: expected %r' % exp, sql=got)
    M.saw(got)
    M['rebuilt'] += 1
    M['custom texts'] += len(used)


CHANGE = [None]


def make(self):
    return sp.C(CHANGE[0](self.text) if CHANGE[0] else self.text)


Cust.make = make


def case(rng, M, ctx):
    g = G(rng, big=rng.random() < 0.02)
    k = g.r.random()
    if k < 0.1:
        return alone(g, M, ctx)
    if k < 0.16:
        return sweep(g, M, ctx)
    if k < 0.7:
        return positions(g, M, ctx)
    whole(Boost(rng, big=rng.random() < 0.02), M, ctx)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
