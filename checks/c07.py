"""C07: rendering and inspecting a query is repeatable and free of side effects."""

import os
import subprocess
import sys
import types

import _path                                                 # noqa: F401
from lib import pool, runner
from lib.boot import DIALECTS, exc, sp
from lib.gen import G
from lib.judge import HOWS, Violation, configure
from lib.shadow import Op, ShInsert, ShSelect, ShUpdate
from lib.spec import Seq, Val, mk

PROP = 'C07'
QUICK, THOROUGH = 22500, 300000
RULE = ('The same random calls build a query twice: once undisturbed, once with observations (rendering in six ways and four dialects, '
        'has, ==, copy, hash, use inside other queries) after every call; all renderings of both must be the same text, earlier '
        'queries keep theirs, passed arguments keep their state, dict order does not matter; the texts of a batch are also '
        'compared across processes with different hash seeds. Distinct = distinct rendered texts.')
ASSUMPTIONS = ['generators are consumed by the call they are passed to', 'the order of items of a Python set may follow the hash seed']
NEED = ('observations', 'disturbances', 'argument snapshots', 'dict orders', 'hash seeds compared', 'earlier queries', 'look-alike keys', 'refused renderings')


def snap(x, d):
    """State of an argument object."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(i, d) for i in x))
    if isinstance(x, dict):
        return ('dict', tuple((snap(k, d), snap(v, d)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, types.GeneratorType):
        return 'generator'
    if hasattr(x, 'tosql'):
        try:
            return (type(x).__name__, str(x))
        except exc.SqlPuzzleException as e:
            return (type(x).__name__, 'raises', type(e).__name__)
    return (type(x).__name__, repr(x))


def build(g, sh0, ops, d, noise, others, args=None):
    q = sh0.start()
    for o in ops:
        a, k = args[id(o)] if args is not None else (mk(o.args), mk(o.kwds))
        if noise is not None:
            for _ in range(g.r.randrange(0, 4)):
                noise[pool.observe(g, q, others, d)] += 1
                noise['disturbances'] += 1
        getattr(q, o.method)(*a, **k)
    if noise is not None:
        for _ in range(g.r.randrange(1, 6)):
            noise[pool.observe(g, q, others, d)] += 1
            noise['disturbances'] += 1
    return q


def shuffled(g, x):
    """The same argument with every dict in another order."""
    if isinstance(x, dict):
        items = list(x.items())
        g.r.shuffle(items)
        return dict((k, shuffled(g, v)) for k, v in items)
    if type(x) in (list, tuple):
        return type(x)(shuffled(g, i) for i in x)
    return x


def has_dict(x):
    return isinstance(x, dict) and len(x) > 1 or isinstance(x, (list, tuple)) and any(has_dict(i) for i in x)


def texts(q, d):
    out = []
    for dd in DIALECTS:
        configure(dd)
        out.append(pool.text_or_error(q))
    configure(d)
    return out


def plan(g, d):
    sh0 = pool.new(g, d)
    n0 = len(sh0.ops)
    sh = sh0.clone()
    ops = list(sh.ops[:n0])
    for _ in range(g.r.randrange(0, 9)):
        for op in pool.ops(g, sh, d):
            sh.apply(op, d)
            ops.append(op)
    return sh0, ops


def look_alikes(g, M, ctx):
    """A dict whose keys read the same but are of different types, in several orders."""
    d = g.pick(DIALECTS)
    configure(d)
    n = g.r.randrange(1, 60)
    name = g.simple()
    m = g.pick(['order_by', 'group_by', 'columns', 'from_', 'where', 'having', 'set'])
    keys = [lambda: name, lambda: sp.C(name), lambda: sp.V(n), lambda: sp.C(str(n)), lambda: sp.C(str(sp.R(name))), lambda: sp.R(name), lambda: 'z' + name, lambda: sp.C('z(1)')]
    if m in ('order_by', 'group_by', 'columns'):
        keys += [lambda: n, lambda: str(n), lambda: n + 1]
    if m in ('from_', 'set'):
        keys = [k for i, k in enumerate(keys) if i != 2]
    seconds = {'order_by': ['asc', 'desc'], 'group_by': ['asc', 'desc'], 'columns': ['x', 'y', 'z'], 'from_': ['x', 'y', 'z']}.get(m, [1, 'a', None, 2.5, False])
    g.r.shuffle(keys)
    pairs = [(k, g.pick(seconds)) for k in keys[:g.r.randrange(2, len(keys) + 1)]]
    seen = None
    for _ in range(3):
        q = sp.update('t').allow_update_all() if m == 'set' else sp.select('c')
        arg = {k(): v for k, v in pairs}
        if len(arg) != len(pairs):
            return
        ctx.update(dialect=d, call='%s(%r)' % (m, arg))
        text = str(getattr(q, m)(arg))
        if seen is not None and text != seen:
            raise Violation('the order of a dict matters', text=seen, other=text)
        seen = text
        M.saw(text)
        M['look-alike keys'] += 1
        g.r.shuffle(pairs)


BAD = [lambda g: sp.V([]), lambda g: sp.V(object()), lambda g: sp.V(float('nan')), lambda g: sp.R(2.5), lambda g: sp.V([1, [object()]]),
       lambda g: sp.select(sp.V(())), lambda g: sp.select_from('t').where(a=sp.V(set())), lambda g: sp.select_from('t').where(a=[]),
       lambda g: sp.update('t').set(a=1), lambda g: sp.delete_from('t'), lambda g: sp.Not(a=sp.relations.IN()),
       lambda g: sp.max(sp.convert('a')), lambda g: sp.concat('a', sp.convert('b')), lambda g: sp.exists(sp.select(sp.convert('a'))),
       lambda g: sp.select(sp.convert('a')) | sp.select('b'), lambda g: sp.Q(a=1) | sp.Q(b=sp.V(())), lambda g: sp.V(sp.delete_from('t'))]


def piece(g):
    """(a function making a new object, calls on it); the object may be one that cannot be rendered."""
    name, r = g.name(), g.r.random()
    types_ = ['char', 'signed', 'char(10)', 'decimal (5,2)']
    n = g.r.randrange(0, 4)
    if r < 0.2:
        return (lambda: sp.convert(name)), [(g.pick(['to']), [g.pick(types_)]) for _ in range(n)]
    if r < 0.4:
        cols = [g.name() for _ in range(g.r.randrange(1, 4))]
        return (lambda: sp.group_concat(*cols)), [g.pick([('order_by', [g.name()]), ('order_by', [(g.name(), 'desc')]), ('separator', [g.string()])]) for _ in range(n)]
    if r < 0.5:
        f = getattr(sp, g.pick(['avg', 'count', 'max', 'min', 'sum', 'count_distinct', 'max_distinct']))
        return (lambda: f(name)), [('distinct', g.pick([[], [True], [False]])) for _ in range(n)]
    if r < 0.65:
        c = g.conds(g.r.randrange(1, 4), 1)
        k = g.r.randrange(3)
        return (lambda: [sp.Q, sp.Not, sp.Q][k]([(mk(x.col), mk(x.val)) for x in c])), [('where', [g.name(), 1])] * (n if k != 1 else 0)
    if r < 0.75:
        v = g.value(1)
        return (lambda: sp.V(mk(v))), []
    bad = g.pick(BAD)
    made = bad(g)
    calls = []
    if hasattr(made, 'columns'):
        calls = [g.pick([('columns', [g.name()]), ('where', [g.name(), 1]), ('distinct', []), ('limit', [3])]) for _ in range(n)]
    elif hasattr(made, 'where'):
        calls = [('where', [g.name(), 1])] * n
    return (lambda: bad(g)), calls


def pieces(g, M, ctx):
    """Parts of queries, also such as cannot be rendered, looked at between the calls."""
    make, calls = piece(g)
    a, b = make(), make()
    ctx.update(piece='%s then %s' % (type(a).__name__, calls))
    hows = [str, repr, format, lambda o: o.tosql(), lambda o: o == b, lambda o: o == 'x', lambda o: str(o.copy()), lambda o: o.copy() == o,
            lambda o: str(sp.select(o)), lambda o: sp.select(o) == sp.select(o)]
    for name, args in calls + [(None, None)]:
        for _ in range(g.r.randrange(0, 4)):
            configure(g.pick(DIALECTS))
            try:
                g.pick(hows)(a)
            except exc.SqlPuzzleException:
                M['refused renderings'] += 1
            M['disturbances'] += 1
        if name:
            getattr(a, name)(*args)
            getattr(b, name)(*args)
    ta, tb = texts(a, 'sql'), texts(b, 'sql')
    if ta != tb or texts(a, 'sql') != ta:
        raise Violation('looking at the object changed it', undisturbed=tb, observed=ta)
    M.saw(str(ta))


def case(rng, M, ctx):
    g = G(rng)
    if g.p(0.4):
        pieces(g, M, ctx)
        ctx.clear()
    if g.p(0.25):
        look_alikes(g, M, ctx)
    d = g.pick(DIALECTS)
    configure(d)
    others, before = [], []
    for _ in range(g.r.randrange(0, 3)):
        q = pool.whole(g, d).build()
        others.append(q)
        before.append(texts(q, d))
    sh0, ops = plan(g, d)
    ctx.update(dialect=d, query='%r%s' % (sh0.create, ''.join(map(repr, ops))))
    quiet = build(g, sh0, ops, d, None, others)
    args = {id(o): (mk(o.args), mk(o.kwds)) for o in ops}
    state = {k: (snap(a, d), snap(kw, d)) for k, (a, kw) in args.items()}
    noisy = build(g, sh0, ops, d, M, others, args)
    configure(d)
    for o in ops:
        a, kw = args[id(o)]
        if (snap(a, d), snap(kw, d)) != state[id(o)]:
            raise Violation('%s changed its arguments' % o.method, before=state[id(o)], after=(snap(a, d), snap(kw, d)))
        M['argument snapshots'] += 1
    tq, tn = texts(quiet, d), texts(noisy, d)
    if tq != tn:
        raise Violation('looking at the query changed it', undisturbed=tq, observed=tn)
    quiet = build(g, sh0, ops, d, None, others)
    if not (quiet == noisy and noisy == quiet):
        raise Violation('looking at the query made it unequal to one built alike', text=tn)
    if quiet.copy() != noisy:
        raise Violation('looking at the query made it unequal to a copy of one built alike', text=tn)
    for t in tq:
        M.saw(t)
    for _ in range(g.r.randrange(0, 4)):
        M[pool.observe(g, noisy, others, d)] += 1
    tn2 = texts(noisy, d)
    if tn2 != tn:
        raise Violation('a later rendering differs', first=tn, later=tn2)
    for how in HOWS:
        if pool.text_or_error(noisy, how) != tn[DIALECTS.index(d)]:
            raise Violation('%s renders another text' % how, text=pool.text_or_error(noisy, how), str=tn[DIALECTS.index(d)])
    if any(has_dict(o.args) or len(o.kwds) > 1 for o in ops):
        args = {id(o): (shuffled(g, mk(o.args)), shuffled(g, mk(o.kwds))) for o in ops}
        other = build(g, sh0, ops, d, None, others, args)
        if texts(other, d) != tq:
            raise Violation('the order of a dict matters', text=tq, other=texts(other, d))
        M['dict orders'] += 1
    for q, t in zip(others, before):
        if texts(q, d) != t:
            raise Violation('another query changed', before=t, after=texts(q, d))
        M['earlier queries'] += 1


def extra(seed, tier, M, deadline):
    """The same batch of statements in processes with different hash seeds."""
    n = 4000 if tier == 'thorough' else 500
    seeds = ['0', '1', '2', '77', '4294967295'] if tier != 'thorough' else [str(i * 7919) for i in range(16)]
    procs = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=s)
        procs.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), '--batch', str(seed), str(n)], env=env,
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    outs = []
    for s, p in zip(seeds, procs):
        out, err = p.communicate(timeout=600)
        if p.returncode:
            raise RuntimeError('batch process failed: ' + err[-2000:])
        outs.append(out.split('\n'))
    for s, o in zip(seeds[1:], outs[1:]):
        M['hash seeds compared'] += 1
        for i, (x, y) in enumerate(zip(outs[0], o)):
            if x != y:
                return [dict(case=-1, what='statement %d depends on the hash seed (%s or %s)' % (i, seeds[0], s),
                             data={'one': x[:2000], 'other': y[:2000]}, context={})]
        if len(o) != len(outs[0]):
            raise RuntimeError('batches of different length')
    M['extra cases'] += n * len(seeds)
    return []


def wide(g):
    """A statement of many names, in one or several calls."""
    names = ['%s%d' % (g.simple(), i) for i in range(g.r.randrange(8, 70))]
    pairs = [(n, Val(i)) for i, n in enumerate(names)]
    k = g.pick(['insert', 'rows', 'update', 'select', 'where', 'upsert'])
    if k == 'upsert':
        configure('mysql')
    if k in ('insert', 'upsert'):
        sh = ShInsert(('insert_into', ['t'], {}), [('t', None)])
        cut = g.r.randrange(len(pairs))
        ops = [Op('values', [], dict(x), None) for x in (pairs[:cut], pairs[cut:]) if x]
        if k == 'upsert' and g.p(0.5):
            ops.append(Op('on_duplicate_key_update', [], {}, None))
        elif k == 'upsert':
            ops.append(Op('on_duplicate_key_update', [], dict(pairs), None))
    elif k == 'rows':
        sh = ShInsert(('insert_into', ['t'], {}), [('t', None)])
        ops = [Op('values', [], {n: Val(j) for n in g.r.sample(names, g.r.randrange(1, len(names)))}, None) for j in range(g.r.randrange(2, 9))]
    elif k == 'update':
        sh = ShUpdate(('update', ['t'], {}), [('t', None)])
        ops = [Op('set', [], dict(pairs), None), Op('where', [], dict(pairs), None)]
    else:
        sh = ShSelect(('select', names[:1], {}))
        ops = [Op('columns', names), Op('from_tables', names)]
        if k == 'where':
            ops += [Op('where', [], dict(pairs)), Op('where', ['x', Seq([Val(n) for n in names])]), Op('having', [], dict(pairs))]
        ops += [Op('group_by', names), Op('order_by', [], {n: g.pick(['asc', 'desc']) for n in names})]
        ops += [Op(m) for m in g.r.sample(['sql_cache', 'distinct', 'sql_small_result', 'sql_buffer_result', 'straight_join', 'high_priority'], 4)]
    sh.ops = ops
    return sh


def batch(seed, n):
    for i in range(n):
        rng = runner.case_rng(seed, 'C07-batch', i)
        g = G(rng)
        d = g.pick(DIALECTS)
        configure(d)
        # Twice, so that neither the construction nor an earlier rendering is remembered.
        for _ in range(2):
            configure(d)
            g = G(runner.case_rng(seed, 'C07-batch', i))
            q = (wide(g) if i % 5 == 0 else pool.whole(g, d, depth=2)).build()
            print(ascii(pool.text_or_error(q)))


if __name__ == '__main__':
    if sys.argv[1:2] == ['--batch']:
        batch(int(sys.argv[2]), int(sys.argv[3]))
        sys.exit(0)
    sys.exit(runner.main(sys.modules[__name__]))
