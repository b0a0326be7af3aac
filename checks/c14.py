"""C14: the configured backend alone decides the dialect, at the moment of rendering."""
import sys

import _path                                                 # noqa: F401
from lib import pool, runner
from lib.boot import DIALECTS, exc, sp
from lib.gen import G
from lib.judge import HOWS, Violation, check_text, compare, configure, render
from lib.shadow import Op, ShUnion
from lib.spec import RW, VW

PROP = 'C14'
QUICK, THOROUGH = 75000, 450000
RULE = ('Random histories of configure() (valid names in any case, unknown names), building, copying and nesting of queries and parts under one '
        'backend, and rendering under others; every text must lex and parse in the backend configured at that moment and mean what the model says. '
        'FULL JOIN is tried under every backend. Distinct = distinct rendered texts.')
ASSUMPTIONS = ['the form of an upsert (not its spelling) is chosen when on_duplicate_key_update() is called']
NEED = ('observations', 'switches', 'refused names', 'full join refused', 'full join accepted', 'rendered in another dialect', 'parts', 'rendered more than once')

UNKNOWN = ['oracle', '', ' mysql', 'mysql ', 'postgres', 'my sql', 'mssql', 'sqlite3', 'none', 'MySqlBackend', 'sql\n', 'mysql;', 'sq', 'sqll', 'mariadb', 'pg', 'psql',
           'name', 'BACKEND', '*', '\0', 'ＭＹＳＱＬ']


def spell(g, d):
    k = g.r.random()
    if k < 0.4:
        return d
    if k < 0.6:
        return d.upper()
    if k < 0.75:
        return {'sql': 'SQL', 'mysql': 'MySQL', 'postgresql': 'PostgreSQL', 'sqlite': 'SQLite'}[d]
    return ''.join(c.upper() if g.p(0.5) else c for c in d)


def case(rng, M, ctx):
    g = G(rng)
    log = []
    ctx['log'] = log
    d = 'sql'
    sp.configure('sql')
    live = []                                  # [query, model, dialects rendered in, dialect built in]
    parts = []

    def switch():
        nonlocal d
        if g.p(0.2):
            bad = g.pick(UNKNOWN)
            try:
                sp.configure(bad)
            except Exception:
                M['refused names'] += 1
                log.append('configure(%r) refused' % bad)
            else:
                raise Violation('configure accepts an unknown backend', name=bad)
            return
        d = g.pick(DIALECTS)
        s = spell(g, d)
        log.append('configure(%r)' % s)
        try:
            sp.configure(s)
        except Exception as e:
            raise Violation('configure refuses %r: %s' % (s, e))
        M['switches'] += 1

    def show(x):
        q, sh, seen, built = x
        ctx['query'], ctx['dialect'] = sh, d
        compare(q, sh, d, M, g.pick(HOWS))
        if built != d:
            M['rendered in another dialect'] += 1
        if seen - {d}:
            M['rendered more than once'] += 1
        seen.add(d)

    for _ in range(g.r.randrange(4, 14)):
        k = g.wpick((3, 'switch'), (2, 'new'), (2, 'call'), (4, 'show'), (1, 'full'), (0.5, 'copy'), (1.2, 'part'), (1, 'show part'), (0.6, 'union'))
        if k == 'switch':
            switch()
        elif k == 'new' or not live:
            sh = pool.whole(g, 'sql', g.pick([0, 1, 2]), (0, 5))         # no upserts
            q = sh.build()
            live.append([q, sh, set(), d])
            log.append('new under %s: %r' % (d, sh))
        elif k == 'call':
            x = g.pick(live)
            if x[1].kind != 'union':
                at = 'sql'                     # no upsert, as it is of the kind of the backend at the call
                if x[1].kind == 'insert' and (d == 'mysql' and not x[1].conflict or d == 'postgresql' and not x[1].odku):
                    at = d
                for op in pool.ops(g, x[1], at):
                    op.run(x[0])
                    x[1].apply(op, at)
                    log.append('%d%r under %s' % (live.index(x), op, d))
        elif k == 'show':
            show(g.pick(live))
        elif k == 'copy':
            x = g.pick(live)
            live.append([x[0].copy(), x[1].clone(), set(x[2]), x[3]])
        elif k == 'union':
            a, b = g.union(1), g.union(0)
            sh = ShUnion(a, g.pick(['UNION', 'UNION ALL']), b)
            live.append([sh.build(), sh, set(), d])
        elif k == 'part':
            spec = g.pick([lambda: g.fn(1), lambda: g.qterm(1), lambda: g.sub(1), lambda: VW(g.scalar()), lambda: RW(g.name())])()
            parts.append((spec, spec.make()))
        elif k == 'show part' and parts:
            spec, o = g.pick(parts)
            ctx['query'], ctx['dialect'] = spec, d
            text = str(o)
            M.saw(text)
            M['parts'] += 1
            if type(spec).__name__ == 'Sub':
                check_text(text, spec.exp(d)[1], d, 'statement')
            elif type(spec).__name__ in ('QT', 'NotT', 'ExistsT'):
                check_text(text, spec.exp(d), d, 'expr')
            else:
                check_text(text, (spec.exp(d), None), d, 'operand')
        elif k == 'full':
            full_join(g, live, d, M, ctx, log)
    for x in live:
        if g.p(0.5):
            switch()
        show(x)


def full_join(g, live, d, M, ctx, log):
    """FULL JOIN on a fresh SELECT or on a living one."""
    x = g.pick(live) if live and g.p(0.5) else None
    if x is None or x[1].kind != 'select' or not x[1].tables.items:
        sh = g.new_select(0)
        op = Op('from_', ['ft'], {}, [('ft', None)])
        sh.apply(op)
        x = [sh.build(), sh, set(), d]
        live.append(x)
    q, sh = x[0], x[1]
    op = Op('full_join', [('fj', 'f%d' % g.r.randrange(10**6))], {}, None)
    op.content = op.args[0]
    log.append('%d%r under %s' % (live.index(x), op, d))
    ctx['query'], ctx['dialect'] = sh, d
    if d == 'postgresql':
        op.run(q)
        sh.apply(op)
        if g.p(0.5):
            on = g.on_op(0)
            on.run(q)
            sh.apply(on)
        compare(q, sh, d, M)
        M['full join accepted'] += 1
        return
    try:
        op.run(q)
    except exc.InvalidQueryException:
        M['full join refused'] += 1
    else:
        raise Violation('FULL JOIN accepted while %s is configured' % d)
    compare(q, sh, d, M)
    if g.p(0.5):                               # still usable
        j = g.join_op(sh.tables, 0)
        j.run(q)
        sh.apply(j)
        compare(q, sh, d, M)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
