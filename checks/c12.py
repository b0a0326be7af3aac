"""C12: joins keep their table, type, order and condition."""
import sys

import _path                                                 # noqa: F401
from lib import bulk, lite, runner
from lib.boot import DIALECTS
from lib.gen import G
from lib.judge import HOWS, Violation, ast_of, configure, diff, render
from lib.shadow import JOINS, Op, ShSelect, ambiguous
from lib.spec import Cond, QT, RelA, Seq, VW, Val

PROP = 'C12'
QUICK, THOROUGH = 100000, 1300000
RULE = ('Random sequences of from/join/on calls on SELECT, UPDATE and DELETE, with near-duplicate joins (same table, other alias; same '
        'condition, reversed; a subset of the conditions; another relation). (1) The parsed table list must be the reference model\'s; (2) '
        'SQLite executes SELECTs over small tables with NULLs and must return the rows a nested-loop evaluation of the calls gives. '
        'Distinct = distinct rendered statements.')
ASSUMPTIONS = ['repeats of one join as LEFT and as RIGHT without an INNER one (the same alias twice, refused by most databases) are only generated side by side']
NEED = ('observations', 'select', 'update', 'delete', 'merged', 'unmerged near-duplicates', 'executed', 'rows', 'INNER', 'LEFT', 'RIGHT', 'FULL')


def tables_of(a):
    return {'select': lambda: dict(a[1])['tables'], 'update': lambda: a[2], 'delete': lambda: a[3]}[a[0]]()


def judge(q, sh, d, M, how='str'):
    text = render(q, how)
    got = ast_of(text, d)
    if got[0] != sh.kind:
        raise Violation('not a %s' % sh.kind, sql=text)
    want = (sh.refs if sh.kind == 'delete' else sh.tables).exp(d)
    if tables_of(got) != want:
        raise Violation('the joins are not those requested: %s' % diff(want, tables_of(got)), sql=text)
    M.saw(text)
    M[sh.kind] += 1
    for t in want:
        for j in t[2]:
            M[j[0]] += 1


def rename(a, g):
    return g.pick([a + 'x', a + '2', a.upper() if a.upper() != a else a + 'U', 'n' + a])


def near_join(g, tables):
    """A join that almost repeats an earlier one of the last table."""
    if not tables.items or not tables.items[-1].joins:
        return None
    j = g.pick(tables.items[-1].joins)
    name, alias, ons = j.name, j.alias, list(j.ons)
    conds = [i for i, t in enumerate(ons) if isinstance(t, Cond)]
    k = g.pick(['alias', 'name', 'drop', 'extra', 'relation', 'value', 'column', 'flipwrong', 'noalias', 'kind'])
    if k == 'alias':
        alias = rename(alias or 'z', g)
    elif k == 'noalias' and alias:
        alias = None
    elif k == 'name' and isinstance(name, str):
        name = rename(name, g)
    elif k == 'drop' and ons:
        ons.pop(g.r.randrange(len(ons)))
    elif k == 'extra':
        ons.append(Cond(g.name(), Val(g.name())))
    elif conds:
        i = g.pick(conds)
        c = ons[i]
        rel, v = c.relation()
        if k == 'relation' and rel in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE'):
            ons[i] = Cond(c.col, RelA(g.pick([r for r in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE') if r != rel and not (isinstance(v, VW) and r != 'NE' and rel == 'EQ')]
                                             if not (isinstance(v, Val) and isinstance(v.v, bool)) else ['NE' if rel == 'EQ' else 'EQ']), v))
        elif k == 'value' and isinstance(v, Val) and isinstance(v.v, str):
            ons[i] = Cond(c.col, Val(rename(v.v, g)))
        elif k == 'value' and isinstance(v, Val) and isinstance(v.v, int):
            ons[i] = Cond(c.col, Val(g.pick([str(int(v.v)), int(v.v) + 1, not v.v])))
        elif k == 'column' and isinstance(c.col, str):
            ons[i] = Cond(rename(c.col, g), c.val)
        elif k == 'flipwrong' and isinstance(v, Val) and isinstance(v.v, str) and isinstance(c.col, str) and rel in ('GT', 'GE', 'LT', 'LE'):
            ons[i] = Cond(v.v, RelA(rel, Val(c.col)))
        elif k == 'kind' and isinstance(v, Val) and isinstance(v.v, str):
            ons[i] = Cond(c.col, RelA(rel, VW(v)) if isinstance(c.val, RelA) else VW(v))
        else:
            return None
    else:
        return None
    have = [x.jtype for x in tables.items[-1].joins]
    m = g.pick([k for k, t in JOINS.items() if t != 'FULL'])
    cand = Op(m, [name if alias is None and isinstance(name, str) else (name, alias)], {}, (name, alias))
    ops = [cand]
    for t in ons:
        ops.append(Op('on', [[(t.col, t.val)]] if isinstance(t, Cond) else [t], {}, [t]))
    return ops


def parse_case(g, M, ctx):
    d = g.pick(DIALECTS)
    configure(d)
    kind = g.wpick((4, 'select'), (1, 'update'), (1, 'delete'))
    full = d == 'postgresql' and kind == 'select'
    sh = g.new_select(1) if kind == 'select' else g.new_update() if kind == 'update' else g.new_delete(1)
    if kind == 'update':
        sh.apply(Op('set', [], {'s': Val(1)}, [('s', Val(1))])).apply(Op('allow_update_all'))
    if kind == 'delete':
        sh.apply(Op('allow_delete_all'))
    tables = sh.refs if kind == 'delete' else sh.tables
    if g.p(0.01) and tables.items:
        bulk.joins(g, sh, bulk.size(g), d, tables)
        M['large'] += 1
    q = sh.build()
    ctx['dialect'], ctx['query'] = d, sh
    if not tables.items:
        op = g.from_op(1, tables)
        op.run(q)
        sh.apply(op, d)
    for _ in range(g.r.randrange(2, 12) if g.p(0.98) else g.size(60)):
        k = g.wpick((3, 'join'), (3, 'on'), (1.2, 'dup'), (1.2, 'near'), (0.7, 'from'), (0.7, 'other'))
        if k == 'join':
            ops = [g.join_op(tables, 1, full)]
            if g.p(0.6):
                ops.append(g.on_op(1))
        elif k == 'on':
            op = g.on_for(tables, 1) if tables.items[-1].joins else None
            ops = [op] if op else []
        elif k == 'dup':
            ops = g.dup_join(tables, full) or []
            M['merged'] += bool(ops)
        elif k == 'near':
            ops = near_join(g, tables) or []
            M['unmerged near-duplicates'] += bool(ops)
        elif k == 'from':
            if kind == 'update':
                continue
            ops = [g.from_op(1, tables)]
        else:
            ops = [g.where_op('where', 1)]
        trial = sh.clone()
        clear = True
        for op in ops:
            trial.apply(op, d)
            clear = clear and not any(map(ambiguous, (trial.refs if kind == 'delete' else trial.tables).items))
        if not clear:
            continue
        for op in ops:
            if op.run(q) is not q:
                raise Violation('%s does not return the query' % op.method)
            sh.apply(op, d)
            if g.p(0.1):
                judge(q, sh, d, M)
    if g.p(0.05):
        # The same table joined from the left and from the right: two joins.
        c = Cond(g.name(), Val(g.name()))
        name, alias = g.simple() + '_lr', g.pick([None, 'lr'])
        for m in g.pick([('left_join', 'right_join'), ('right_join', 'left_join'), ('left_join', 'right_join', 'left_join')])[:g.pick([2, 2, 3])]:
            for op in [Op(m, [(name, alias)], {}, (name, alias)), Op('on', [c.col, c.val], {}, [c])]:
                op.run(q)
                sh.apply(op, d)
        M['left and right'] += 1
    judge(q, sh, d, M, g.pick(HOWS))


# ---------------------------------------------------------------- execution

OPS = {'EQ': lambda a, b: a == b, 'NE': lambda a, b: a != b, 'GT': lambda a, b: a > b, 'GE': lambda a, b: a >= b,
       'LT': lambda a, b: a < b, 'LE': lambda a, b: a <= b}


def exec_case(g, M, ctx):
    """Rows of a SELECT with joins against nested loops over the calls."""
    full = g.p(0.3)                            # SQLite executes FULL JOIN; PostgreSQL's texts are the same for these names
    configure('postgresql' if full else 'sqlite')
    con = lite.connect()
    data = {}
    for t in ('t', 'u', 'v'):
        con.execute('CREATE TABLE %s (a, b)' % t)
        data[t] = [(g.pick([None, 0, 1, 2]), g.pick([None, 0, 1, 2])) for _ in range(g.r.randrange(0, 4))]
        con.executemany('INSERT INTO %s VALUES (?, ?)' % t, data[t])
    sh = ShSelect(('select_from', [('t', 'x0')], {}), tables=[('t', 'x0')])
    q = sh.start()
    ctx['query'], ctx['data'] = sh, data
    plan = []
    for i in range(1, g.r.randrange(2, 5)):
        m = g.pick([k for k, v in JOINS.items() if full or v != 'FULL'])
        t, alias = g.pick(['t', 'u', 'v']), 'x%d' % i
        ops = [Op(m, [(t, alias)], {}, (t, alias))]
        conds = []
        for _ in range(g.r.randrange(0, 3) if g.p(0.95) else 0):
            col = ('x%d' % g.r.randrange(i + 1), g.pick('ab'))
            if g.p(0.75):
                r = g.pick(list(OPS))
                col2 = ('x%d' % g.r.randrange(i + 1), g.pick('ab'))
                v = Val('.'.join(col2))
                conds.append((col, r, col2))
                val = v if r == 'EQ' and g.p(0.6) else RelA(r, v)
            elif g.p(0.5):
                n = g.pick([0, 1, 2])
                conds.append((col, 'EQ', n))
                val = Val(n)
            else:
                conds.append((col, 'IS', None))
                val = Val(None)
            c = Cond('.'.join(col), val)
            ops.append(Op('on', [c.col, c.val], {}, [c]))
        if m not in ('join', 'inner_join') and not conds:
            conds.append((('x0', 'a'), 'EQ', (alias, 'a')))
            c = Cond('x0.a', Val(alias + '.a'))
            ops.append(Op('on', [c.col, c.val], {}, [c]))
        plan.append((JOINS[m], t, alias, conds))
        for op in ops:
            op.run(q)
            sh.apply(op)
    if g.p(0.3) and plan and sh.tables.items[-1].joins:
        # repeat the last join, as it is or turned inner
        jt, t, alias, conds = plan[-1]
        m = g.pick(['join', {'LEFT': 'left_join', 'RIGHT': 'right_join', 'FULL': 'full_join', 'INNER': 'inner_join'}[jt]])
        last = sh.tables.items[-1].joins[-1]
        ops = [Op(m, [(t, alias)], {}, (t, alias))] + [Op('on', [[(c.col, c.val)]], {}, [c]) for c in last.ons]
        for op in ops:
            op.run(q)
            sh.apply(op)
        if JOINS[m] == 'INNER':
            plan[-1] = ('INNER', t, alias, conds)
        M['merged'] += 1
    text = render(q, g.pick(HOWS))
    M.saw(text)
    got = sorted(lite.run(con, text), key=repr)
    con.close()
    want = sorted(evaluate(data, plan), key=repr)
    M['executed'] += 1
    M['rows'] += len(got)
    if got != want:
        raise Violation('the joins yield other rows', sql=text, expected=want, got=got)


def evaluate(data, plan):
    order = ['x0']
    rows = [{'x0': r} for r in data['t']]

    def cell(env, ref):
        r = env.get(ref[0])
        return None if r is None else r['ab'.index(ref[1])]

    def true(env, conds):
        for col, r, x in conds:
            a = cell(env, col)
            if r == 'IS':
                if a is not None:
                    return False
                continue
            b = cell(env, x) if isinstance(x, tuple) else x
            if a is None or b is None or not OPS[r](a, b):
                return False
        return True

    for jt, t, alias, conds in plan:
        order.append(alias)
        out, hit = [], set()
        for env in rows:
            any_ = False
            for i, r in enumerate(data[t]):
                e = dict(env, **{alias: r})
                if true(e, conds):
                    out.append(e)
                    any_ = True
                    hit.add(i)
            if not any_ and jt in ('LEFT', 'FULL'):
                out.append(dict(env, **{alias: None}))
        if jt in ('RIGHT', 'FULL'):
            for i, r in enumerate(data[t]):
                if i not in hit:
                    out.append({alias: r})
        rows = out
    return [tuple(x for a in order for x in (env.get(a) or (None, None))) for env in rows]


def case(rng, M, ctx):
    g = G(rng)
    (exec_case if g.p(0.4) else parse_case)(g, M, ctx)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
