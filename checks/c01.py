"""C01: string values reach the database intact and cannot escape their literal."""
import sys

import _path                                                 # noqa: F401
from lib import lite, runner
from lib.boot import DIALECTS, sp
from lib.gen import HOSTILE, G
from lib.judge import Violation, ast_of, configure, diff
from lib.parser import STAR
from lib.shadow import Op, ShDelete, ShInsert, ShSelect, ShUpdate
from lib.spec import (QUOTE, Cond, ConcatFn, ConvertFn, ExistsT, Fn, NotT, QT, RelA, Seq, Sub, Text, Val, VW,
                      quoted_ref)

PROP = 'C01'
QUICK, THOROUGH = 300000, 4000000
RULE = ('A hostile or random string is put into one of the value positions of a statement under one of the four dialects; the '
        'rendered statement is parsed by that dialect\'s independent lexer/parser and the literal decoded; the SQLite dialect '
        'is also executed and the value read back. Distinct = distinct rendered statements.')
ASSUMPTIONS = ['MySQL runs with backslash escapes enabled, PostgreSQL with standard_conforming_strings on (their defaults)',
               'the default dialect decodes strings as MySQL does (its escapes are fixed by the existing tests)']
NEED = ('observations', 'read back from SQLite', 'literal', 'reference')


class SVal(Val):
    """A string that must come out as a literal ('lit') or as the reference it spells ('ref')."""
    mode = 'lit'
    path = None
    kind = 'str'
    own = False

    def make(self):
        return Text(self.v) if self.own else self.v

    def exp(self, d):
        return ('str', self.v) if self.mode == 'lit' else ('ref', self.path)


def spelled(s, q):
    """Components of a string that is a path of which the first component is in quotes q; None if it is not."""
    s = s.strip()
    comps, i = [], 0
    while True:
        if s[i:i + 1] == q:
            j, buf = i + 1, []
            while True:
                if j >= len(s):
                    return None
                if s[j] == q:
                    if s[j + 1:j + 2] != q:
                        break
                    j += 1
                buf.append(s[j])
                j += 1
            if not buf:
                return None
            comps.append(''.join(buf))
            j += 1
        else:
            if not comps:
                return None
            j = i
            while j < len(s) and s[j] not in q + '.':
                j += 1
            if j == i:
                return None
            comps.append(STAR if s[i:j] == '*' else s[i:j])
        if j == len(s):
            return tuple(comps)
        if s[j] != '.':
            return None
        i = j + 1


def modes(v, d):
    """What the string may be rendered as."""
    s, q = v.v, QUOTE[d]
    if not s.strip().startswith(q):
        return ['lit']
    path = spelled(s, q)
    if path is None or quoted_ref(s, d) is None:        # e.g. blanks in an unquoted component, four components
        return ['lit']
    v.path = path
    plain = s == s.strip() and len(path) <= 3 and all(
        c is not STAR and (p.startswith(q) or p.replace('_', 'a').isalnum()) for c, p in zip(path, split_raw(s, q)))
    return ['ref'] if plain else ['lit', 'ref']


def split_raw(s, q):
    out, cur, inq = [], '', False
    for c in s:
        if c == q:
            inq = not inq
        if c == '.' and not inq:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


def a_string(g, d):
    k = g.r.random()
    if k < 0.75:
        return g._string()
    if k < 0.8:
        return ''.join(chr(g.pick([g.r.randrange(1, 256), g.r.randrange(0x100, 0xd800), g.r.randrange(0x1f300, 0x1f700)]))
                       for _ in range(g.r.randrange(1, 12)))
    if k < 0.87:
        # close to a quoted reference, in the quotes of any dialect
        q = g.pick('"`') if g.p(0.3) else QUOTE[d]
        return ''.join(g.pick([q, q, q + q, '.', 'a', 'b c', '*', ';', "'", ' ', '--', '\\', '\n', q + 'x' + q, '""', '``'])
                       for _ in range(g.r.randrange(1, 9)))
    if k < 0.93:
        q = QUOTE[d]
        parts = [q + ''.join(g.pick('ab. ;*-\'\\%') if g.p(0.9) else q + q for _ in range(g.r.randrange(1, 6))) + q
                 for _ in range(g.r.randrange(1, 6))]
        for i in range(1, len(parts)):
            if g.p(0.3):
                parts[i] = g.pick(['col', 'x_1', 'Y'])
        return '.'.join(parts)
    if k < 0.97:
        q = QUOTE[d]
        return g.pick([q * 4 + '.;DELETE/**/FROM/**/t;--.' + q + 'y' + q, q + 'a' + q + ' OR 1=1 --', q + 'x' + q + '; DROP TABLE t',
                       q + "x" + q + "='", ' ' + q + 'x' + q, q + 'x' + q + '\n', q + '*' + q, q + 'a' + q + '.*',
                       q + 'a' + q + '.' + q + q + '.x', q + 'a' + q + '.b;--', "'" + q + 'a' + q + "'", q + 'a' + q + q])
    return g.pick(HOSTILE) * g.r.randrange(2, 40)


def sel(*ops):
    sh = ShSelect(('select_from', ['t'], {}), tables=[('t', None)])
    for o in ops:
        sh.apply(o)
    return sh


def term(method, t):
    return Op(method, [t], {}, [t])


def cond(method, c):
    return Op(method, [c.col, c.val], {}, [c])


def leaf(conds):
    return QT('leaf', conds, ([[(c.col, c.val) for c in conds]], {}))


def pos_relation(g, v, d):
    name = g.pick(['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP'])
    return sel(cond(g.pick(['where', 'having']), Cond('a', RelA(name, v if g.p(0.8) else VW(v)))))


def pos_where(g, v, d):
    m = g.pick(['where', 'having'])
    val = g.pick([v, v, VW(v)])
    call, order = g.cond_call([Cond('a', val), Cond('b', Val(1))][:g.r.randrange(1, 3)])
    return sel(Op(m, *call, content=order))


def pos_list(g, v, d):
    k = g.r.random()
    if k < 0.03:
        # Long lists: all plain, or all strings with the one looked at among them.
        n = g.size(300)
        items = [Val('s%d' % i) for i in range(n)] if g.p(0.7) else [g.scalar('s') for _ in range(n)]
    else:
        items = [g.scalar('si') for _ in range(g.r.randrange(0, 4))]
    items.insert(g.r.randrange(len(items) + 1), v)
    if g.p(0.2):
        items.append(Val(None))
    s = Seq(items, g.pick(['list', 'tuple', 'gen']))
    k = g.r.random()
    if k < 0.4:
        x = s
    elif k < 0.8:
        x = RelA(g.pick(['IN', 'NOT_IN']), s, spread=len(items) > 1 and g.p(0.3))
    else:
        x = VW(Seq([i for i in items if i.kind != 'none'], s.ctor))
    return sel(cond(g.pick(['where', 'having']), Cond('a', x)))


def pos_q(g, v, d):
    a, b = leaf([Cond('a', v)]), leaf([Cond('b', Val(2)), Cond('c', Val('x'))])
    parts = [a, b]
    g.r.shuffle(parts)
    t = QT(g.pick(['and', 'or']), parts)
    if g.p(0.3):
        t = QT(g.pick(['and', 'or']), [t, leaf([Cond('e', Val(None))])])
    return sel(term(g.pick(['where', 'having']), t))


def pos_not(g, v, d):
    c = Cond('a', v)
    return sel(term('where', NotT([c], ([[('a', v)]], {}))))


def pos_on(g, v, d):
    k = g.r.random()
    if k < 0.4:
        on = cond('on', Cond('a', VW(v)))
    elif k < 0.7:
        on = cond('on', Cond('a', Seq([v, Val('z')])))
    else:
        on = term('on', leaf([Cond('a', v)]))
    return sel(Op('left_join', ['u'], {}, ('u', None)), on)


def pos_set(g, v, d):
    sh = ShUpdate(('update', ['t'], {}), tables=[('t', None)])
    call, order = g.values_call([('a', v if g.p(0.8) else VW(v)), ('b', Val(3))][:g.r.randrange(1, 3)])
    sh.apply(Op('set', *call, content=order))
    sh.apply(cond('where', Cond('id', Val(1))))
    return sh


def pos_update_where(g, v, d):
    sh = ShUpdate(('update', ['t'], {}), tables=[('t', None)])
    sh.apply(Op('set', [], {'b': Val(3)}, [('b', Val(3))]))
    return sh.apply(cond('where', Cond('a', v)))


def pos_delete_where(g, v, d):
    sh = ShDelete(('delete_from', ['t'], {}), refs=[('t', None)])
    return sh.apply(cond('where', Cond('a', v if g.p(0.6) else Seq([v]))))


def pos_values(g, v, d):
    sh = ShInsert(('insert_into', ['t'], {}), tables=[('t', None)])
    if g.p(0.4):
        sh.apply(Op('values', [], {'b': Val(1)}, [('b', Val(1))]))
    call, order = g.values_call([('a', v), ('b', Val('x')), ('c', Val(None))][:g.r.randrange(1, 4)])
    sh.apply(Op('values', *call, content=order))
    return sh


def pos_upsert(g, v, d):
    if d not in ('mysql', 'postgresql'):
        return pos_values(g, v, d)
    sh = ShInsert(('insert_into', ['t'], {}), tables=[('t', None)])
    sh.apply(Op('values', [], {'b': Val(1)}, [('b', Val(1))]))
    call, order = g.values_call([('a', v)])
    args, kwds = call
    if d == 'postgresql':
        args = ['id'] + list(args)
    return sh.apply(Op('on_duplicate_key_update', args, kwds, ('id', order)), d)


def pos_column(g, v, d):
    return _col(g, VW(v if g.p(0.8) else Seq([v, Val(1)])))


def _col(g, x):
    alias = g.pick([None, 'al'])
    return ShSelect(('select', [x if alias is None else (x, alias)], {}), cols=[(x, alias)])


def pos_function(g, v, d):
    x = VW(v)
    f = g.pick([Fn(g.pick(['avg', 'count', 'max', 'min', 'sum']), [x], g.p(0.5)), ConcatFn(['a', x, 'b'], g.p(0.5)),
                ConvertFn(x, 'char')])
    if g.p(0.5):
        return _col(g, f)
    return sel(cond('where', Cond('a', f)) if g.p(0.5) else cond('having', Cond(f, v)))


def pos_separator(g, v, d):
    f = ConcatFn(['a'], True, [('separator', [v])])
    if g.p(0.5):
        f.steps.insert(0, ('order_by', ['b']))
    return _col(g, f)


def pos_order(g, v, d):
    m = g.pick(['order_by', 'group_by'])
    x = VW(v)
    return sel(Op(m, [x], {}, [(x, None)]))


def pos_cond_column(g, v, d):
    return sel(cond('where', Cond(VW(v), Val(1))))


def pos_outfile(g, v, d):
    ops = [Op('into_outfile', [Val('/tmp/x')], {}, Val('/tmp/x'))]
    m = g.pick(['into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'])
    ops.append(Op(m, [v], {}, v))
    return sel(*ops)


def pos_nested(g, v, d):
    inner = pos_where(g, v, d)
    k = g.r.random()
    if k < 0.3:
        return sel(cond('where', Cond('z', RelA('IN', Sub(inner)))))
    if k < 0.6:
        return sel(term('where', ExistsT(inner)))
    return ShSelect(('select_from', [(Sub(inner), 'q')], {}), tables=[(Sub(inner), 'q')])


POSITIONS = [pos_where, pos_where, pos_relation, pos_list, pos_list, pos_q, pos_not, pos_on, pos_set, pos_update_where,
             pos_delete_where, pos_values, pos_upsert, pos_column, pos_function, pos_separator, pos_order, pos_cond_column,
             pos_outfile, pos_nested]


def setup():
    global CON
    CON = lite.connect()


def case(rng, M, ctx):
    g = G(rng)
    d = g.pick(DIALECTS)
    configure(d)
    s = a_string(g, d)
    v = SVal(s)
    v.own = g.p(0.05)
    pos = g.pick(POSITIONS)
    ctx.update(dialect=d, string=ascii(s), position=pos.__name__)
    sh = pos(g, v, d)
    ctx['query'] = repr(sh)
    allowed = modes(v, d)
    text = str(sh.build())
    M.saw(text)
    got = ast_of(text, d)
    errs = []
    for m in allowed:
        v.mode = m
        want = sh.exp(d)
        if got == want:
            M['literal' if m == 'lit' else 'reference'] += 1
            break
        errs.append(diff(want, got))
    else:
        raise Violation('string not rendered as itself: %s' % errs[0], sql=text)
    M[pos.__name__] += 1
    if d == 'sqlite' and allowed == ['lit'] and lite.storable(s):
        read_back(g, s, M, ctx)


def read_back(g, s, M, ctx):
    """Store, select, compare and match the string through SQLite itself."""
    k = g.r.randrange(5)
    if k == 0:
        rows = lite.run(CON, str(sp.select(sp.V(s))))
        want = [(s,)]
    elif k == 1:
        CON.execute('CREATE TEMP TABLE t(id, a)')
        lite.run(CON, str(sp.insert_into('t').values(id=1, a=s).values(id=2, a='other')))
        rows, want = CON.execute('SELECT id, a FROM t ORDER BY id').fetchall(), [(1, s), (2, 'other')]
    elif k == 2:
        CON.execute('CREATE TEMP TABLE t(id, a)')
        CON.executemany('INSERT INTO t VALUES (?, ?)', [(1, s), (2, s + 'x'), (3, None)])
        rows = lite.run(CON, str(sp.select('id').from_('t').where(a=s).order_by('id')))
        want = [(1,)]
    elif k == 3:
        CON.execute('CREATE TEMP TABLE t(id, a)')
        CON.executemany('INSERT INTO t VALUES (?, ?)', [(1, s), (2, s + 'x'), (3, None)])
        lite.run(CON, str(sp.update('t').set(a=s).where(id=2)))
        rows, want = CON.execute('SELECT id, a FROM t ORDER BY id').fetchall(), [(1, s), (2, s), (3, None)]
    else:
        CON.execute('CREATE TEMP TABLE t(id, a)')
        CON.executemany('INSERT INTO t VALUES (?, ?)', [(1, s), (2, s + 'x'), (3, 'zzz')])
        lite.run(CON, str(sp.delete_from('t').where(a=[s, 'qqq'])))
        rows, want = CON.execute('SELECT id FROM t ORDER BY id').fetchall(), [(2,), (3,)]
        if s == 'zzz':
            want = [(2,)]
    CON.execute('DROP TABLE IF EXISTS t')
    if rows != want:
        raise Violation('SQLite read back something else', got=ascii(rows), want=ascii(want))
    M['read back from SQLite'] += 1


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
