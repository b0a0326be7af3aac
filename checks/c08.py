"""C08: copies and separately built queries never influence each other."""
import copy
import sys

import _path                                                 # noqa: F401
from lib import pool, runner
from lib.boot import DIALECTS, sp
from lib.gen import G
from lib.judge import HOWS, Violation, compare, configure
from lib.shadow import Op, ShUnion
from lib.spec import A, Cond, ConcatFn, ConvertFn, ExistsT, Fn, NotT, QT, RelA, Sub, VW, Val

PROP = 'C08'
QUICK, THOROUGH = 25000, 330000
RULE = ('A pool of live queries of all kinds, each with its own model: random builder calls on any of them, copies, unions and '
        'subqueries of them, argument objects (Q, relations, functions, subqueries, lists) shared between them and changed after '
        'copying; after every step a query, at the end every query, must render what its own history says. '
        'Distinct = distinct rendered texts.')
ASSUMPTIONS = ['calls made on an object (subquery, Q, function) after it was passed to a query may or may not show in that query, but '
               'never in a copy made before']
NEED = ('observations', 'copies', 'shared arguments', 'calls', 'unions', 'nested', 'calls on a shared part')


class Live(A):
    """An argument that is one particular Python object, with its specification."""

    def __init__(self, real, spec, base=None, touches=()):
        self.real, self.spec, self.base, self.touches = real, spec, base or spec, list(touches)

    def make(self):
        if self.real is not None:
            return self.real
        if isinstance(self.base, Cond):
            return {self.base.col: self.base.val.make()}
        o = self.base.make()
        for m, a, k in self.touches:
            getattr(o, m)(*a, **k)
        return o

    def touch(self, spec, m, *a, **k):
        getattr(self.real, m)(*a, **k)
        self.touches.append((m, a, k))
        self.spec = spec

    def exp(self, d):
        return self.spec.exp(d)

    @property
    def kind(self):
        return self.spec.kind

    def __deepcopy__(self, memo):
        return Live(None, copy.deepcopy(self.spec, memo), copy.deepcopy(self.base, memo), self.touches)

    def __repr__(self):
        return 'shared:%r' % (self.spec,)


class LiveQuery(Sub):
    """A query of the pool used inside another one."""

    def __init__(self, real, q):
        super().__init__(q)
        self.real = real

    def make(self):
        return self.real if self.real is not None else super().make()

    def __deepcopy__(self, memo):
        return LiveQuery(None, copy.deepcopy(self.q, memo))


class LiveUnion(ShUnion):
    pass


class Entry:
    def __init__(self, real, sh, uses=()):
        self.real, self.sh, self.uses = real, sh, list(uses)     # uses: ids of live objects it holds


def check(g, e, d, M):
    compare(e.real, e.sh, d, M, g.pick(HOWS))


def case(rng, M, ctx):
    g = G(rng)
    d = g.pick(DIALECTS)
    configure(d)
    entries, shared, log = [], [], []
    ctx.update(dialect=d, log=log)

    def add(e):
        if len(entries) >= 8:
            entries.pop(g.r.randrange(len(entries)))
        entries.append(e)

    def fresh():
        sh = pool.new(g, d)
        return Entry(sh.build(), sh)

    for _ in range(g.r.randrange(1, 4)):
        add(fresh())
    for _ in range(g.r.randrange(3, 16) if g.p(0.98) else g.r.randrange(40, 120)):
        e = g.pick(entries)
        k = g.wpick((5, 'call'), (3, 'copy'), (1, 'new'), (2.5, 'share'), (1.2, 'nest'), (1, 'union'), (1.5, 'touch'), (0.5, 'mangle'))
        if k == 'call' and e.sh.kind != 'union':
            for op in pool.ops(g, e.sh, d):
                log.append('%d%r' % (entries.index(e), op))
                op.run(e.real)
                e.sh.apply(op, d)
            M['calls'] += 1
            drop_holders(entries, e.real, e)
        elif k == 'copy':
            c = Entry(e.real.copy() if g.p(0.7) else copy.deepcopy(e.real), e.sh.clone())
            log.append('copy of %d' % entries.index(e))
            if type(c.real) is not type(e.real) or c.real is e.real:
                raise Violation('copy is no copy')
            for dd in DIALECTS:
                configure(dd)
                a, b = pool.text_or_error(e.real), pool.text_or_error(c.real)
                if a != b:
                    raise Violation('the copy renders differently', original=a, copy=b)
            configure(d)
            add(c)
            M['copies'] += 1
        elif k == 'new':
            add(fresh())
        elif k == 'share' and e.sh.kind != 'union':
            share(g, e, entries, shared, d, log, M)
            drop_holders(entries, e.real, e)
        elif k == 'nest':
            s = g.pick(entries)
            if s.sh.kind not in ('select', 'union') or e.sh.kind not in ('select', 'update', 'delete') or s is e or holds(s, e, entries):
                continue
            if s.sh.kind == 'select' and any(x is not None for x in s.sh.outfile):
                continue
            live = LiveQuery(s.real, s.sh)
            name = 'n%d' % g.r.randrange(10**6)
            op = nest(g, e.sh, live, name)
            log.append('%d%r' % (entries.index(e), op))
            op.run(e.real)
            e.sh.apply(op, d)
            e.uses += [id(s.real)] + s.uses
            drop_holders(entries, e.real, e)
            M['nested'] += 1
        elif k == 'union':
            s = g.pick(entries)
            if not all(okunion(x.sh) for x in (e, s)):
                continue
            op = g.pick(['UNION', 'UNION ALL'])
            real = e.real | s.real if op == 'UNION' else e.real & s.real
            log.append('union of %d and %d' % (entries.index(e), entries.index(s)))
            add(Entry(real, LiveUnion(e.sh, op, s.sh), [id(e.real), id(s.real)] + e.uses + s.uses))
            M['unions'] += 1
        elif k == 'touch' and shared:
            touch(g, g.pick(shared), entries, log, M)
        elif k == 'mangle':
            c = e.real.copy()
            pool.mangle(g, c)
        if g.p(0.6) and entries:
            x = g.pick(entries)
            ctx['query'] = repr(x.sh)
            check(g, x, d, M)
        if not entries:
            add(fresh())
    for x in entries:
        ctx['query'] = repr(x.sh)
        check(g, x, d, M)


class LiveExists(ExistsT):
    def __init__(self, live):
        self.live = live

    def make(self):
        return sp.exists(self.live.make())

    def exp(self, d):
        return ('exists', self.live.q.exp(d))

    def __repr__(self):
        return 'exists(%r)' % (self.live,)


class LiveRef(A):
    def __init__(self, live):
        self.live = live

    def make(self):
        return sp.R(self.live.make())

    def exp(self, d):
        return self.live.exp(d)

    def __repr__(self):
        return 'R(%r)' % (self.live,)


def nest(g, sh, live, name):
    """An operation that puts a live query somewhere into another one."""
    v = g.pick([lambda: live, lambda: live, lambda: VW(live), lambda: LiveRef(live), lambda: Fn('max', [live]), lambda: Fn('sum', [VW(live)], True),
                lambda: ConcatFn([name, live]), lambda: ConcatFn([live, name], True, [('order_by', [name])]),
                lambda: ConvertFn(live, 'signed')])()
    kinds = ['where', 'rel', 'in', 'exists', 'q', 'not', 'col']
    if sh.kind == 'select':
        kinds += ['columns', 'columns', 'from', 'having', 'order']
    if sh.kind == 'update':
        kinds += ['set', 'set']
    if (sh.refs if sh.kind == 'delete' else sh.tables).items:
        kinds += ['join', 'joinon']
    k = g.pick(kinds)
    if k == 'columns':
        return Op('columns', [(v, name)], {}, [(v, name)])
    if k == 'from':
        return Op('from_', [(live, name)], {}, [(live, name)])
    if k in ('where', 'having'):
        return Op(k, [name, v], {}, [Cond(name, v)])
    if k == 'order':
        return Op('order_by', [(v, 'desc')], {}, [(v, 'desc')])
    if k == 'set':
        return Op('set', [name, v], {}, [(name, v)])
    if k == 'col':
        return Op('where', [[(v, Val(1))]], {}, [Cond(v, Val(1))])
    if k == 'join':
        return Op(g.pick(['join', 'left_join']), [(live, name)], {}, (live, name))
    if k == 'joinon' and (sh.refs if sh.kind == 'delete' else sh.tables).items[-1].joins:
        return Op('on', [name, v], {}, [Cond(name, v)])
    if k == 'rel':
        r = RelA(g.pick(['EQ', 'GT', 'NE']), v)
        return Op('where', [name, r], {}, [Cond(name, r)])
    if k == 'exists':
        t = LiveExists(live)
        return Op('where', [t], {}, [t])
    if k in ('q', 'not'):
        c = Cond(name, g.pick([v, RelA('IN', live)]))
        if k == 'not':
            t = NotT([c], ([c.col, c.val], {}))
        else:
            t = QT(g.pick(['and', 'or']), [QT('leaf', [c], ([c.col, c.val], {})), QT('leaf', [Cond('z', Val(1))], ([], {'z': Val(1)}))])
        return Op('where', [t], {}, [t])
    r = RelA(g.pick(['IN', 'NOT_IN']), live)
    return Op('where', [name, r], {}, [Cond(name, r)])


def okunion(sh):
    if sh.kind == 'union':
        return okunion(sh.left) and okunion(sh.right)
    return sh.kind == 'select' and not (sh.order.items or sh.limit is not None or sh.offset is not None or sh.for_update or any(
        x is not None for x in sh.outfile))


def holds(s, e, entries):
    """Does s contain e (directly or not)?"""
    return id(e.real) in s.uses


def drop_holders(entries, real, but):
    """A query changed: queries that hold it as a part are no longer judged (their copies are)."""
    for x in list(entries):
        if x is not but and id(real) in x.uses:
            entries.remove(x)
            GONE.append(x)              # keep ids alive
    del GONE[:-50]


GONE = []


def share(g, e, entries, shared, d, log, M):
    """Pass one Python object to several queries."""
    if shared and g.p(0.6):
        live, kind = g.pick(shared)
    else:
        kind = g.pick(['q', 'q', 'rel', 'fn', 'gc', 'seq', 'dict'])
        if kind == 'q':
            spec = g.qterm(1)
            if not isinstance(spec, QT):
                spec = QT('leaf', [Cond('s', Val(1))], ([], {'s': Val(1)}))
        elif kind == 'rel':
            spec = g.relation(1)
        elif kind == 'fn':
            spec = Fn(g.pick(['sum', 'count', 'max']), [g.name()], g.p(0.5))
        elif kind == 'gc':
            spec = ConcatFn([g.name()], True, [('order_by', [g.name()])])
        elif kind == 'seq':
            spec = g.seq(ctors=('list', 'tuple'))
        else:
            spec = None
        if kind == 'dict':
            c = Cond(g.name(), g.scalar('si'))
            live = {c.col: c.val.make()}
            shared.append(((live, c), kind))
            live = (live, c)
        else:
            live = Live(spec.make(), spec)
            shared.append((live, kind))
    if kind == 'q':
        op = Op(g.pick(['where', 'where', 'having']) if e.sh.kind == 'select' else 'where', [live], {}, [live])
    elif kind in ('rel', 'seq'):
        name = g.name()
        val = RelLike(live) if kind == 'rel' else live
        op = Op('where', [name, val], {}, [LiveCond(name, live)])
    elif kind == 'dict':
        real, c = live
        op = Op('where', [Live(real, c)], {}, [c])
    else:
        if e.sh.kind != 'select':
            return
        if g.p(0.5):
            op = Op('columns', [(live, 'f')], {}, [(live, 'f')])
            if any(a == 'f' for _, a in e.sh.cols):
                return
        else:
            op = Op('having', [live, Val(1)], {}, [Cond(live, Val(1))])
    if e.sh.kind == 'insert':
        return
    log.append('%d%r' % (entries.index(e), op))
    op.run(e.real)
    e.sh.apply(op, d)
    e.uses.append(id(live.real) if isinstance(live, Live) else id(live[0]))
    M['shared arguments'] += 1


class RelLike(A):
    kind = 'rel'

    def __init__(self, live):
        self.live = live

    def make(self):
        return self.live.make()

    def __repr__(self):
        return repr(self.live)


class LiveCond(A):
    """name <shared relation or sequence>"""

    def __init__(self, col, live):
        self.col, self.live = col, live

    def exp(self, d):
        return Cond(self.col, self.live.spec).exp(d)


def touch(g, item, entries, log, M):
    """Builder calls on a shared part; queries holding it are no longer judged, their earlier copies are."""
    live, kind = item
    n = 'w%d' % g.r.randrange(10**6)
    if kind == 'q' and live.spec.op == 'leaf':
        live.touch(QT('leaf', live.spec.parts + [Cond(n, Val(1))], live.spec.call), 'where', **{n: 1})
    elif kind == 'gc':
        live.touch(ConcatFn(live.spec.cols, True, live.spec.steps + [('order_by', [n])]), 'order_by', n)
    elif kind == 'fn':
        live.touch(Fn(live.spec.name, live.spec.args, not live.spec.distinct_fn), 'distinct', not live.spec.distinct_fn)
    else:
        return
    log.append('touch %r' % (live,))
    drop_holders(entries, live.real, None)
    M['calls on a shared part'] += 1


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
