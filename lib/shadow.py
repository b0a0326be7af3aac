"""Reference models of the query objects: what a sequence of builder calls must mean.

A model is driven by the same operations as the real query and yields, for a
dialect, the AST the rendered statement has to parse to.  Nothing here asks the
library.
"""
import copy as _copy

from . import spec
from .boot import sp
from .parser import STAR, mk_and, mk_or, mk_select, mk_union, orient
from .spec import A, Cond, Cust, Orders, RelA, Val, mk, name_exp, ref_path


class Raises:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'raises %s' % self.name


class Op:
    """One builder call: how it is written, and its content for the model."""
    __slots__ = ('method', 'args', 'kwds', 'content')

    def __init__(self, method, args=(), kwds=None, content=None):
        self.method, self.args, self.kwds, self.content = method, list(args), dict(kwds or {}), content

    def run(self, q):
        return getattr(q, self.method)(*mk(self.args), **mk(self.kwds))

    def __repr__(self):
        return '.%s(%s)' % (self.method, spec.call_repr((self.args, self.kwds)))


def alias_exp(a, d):
    if a is None:
        return None
    return name_exp(a, d)


def same_name(a, b):
    """Are two name specs the same thing?"""
    if isinstance(a, A) or isinstance(b, A):
        return type(a) is type(b) and all(repr(a.exp(d)) == repr(b.exp(d)) for d in ('sql', 'postgresql')) and \
            spec.doubtful(a, b)                         # by repr, because -0.0 is not 0.0
    return type(a) is type(b) and a == b


def on_key(term):
    """Identity of an ON term, ignoring the orientation of a column-to-column comparison."""
    if isinstance(term, Cond):
        v = term.val.inner if isinstance(term.val, RelA) else term.val
        plain = isinstance(v, Val) and isinstance(v.v, str)
        e = term.exp('sql', on=True)
        return (type(v).__name__, type(term.col).__name__, orient(e) if plain and isinstance(term.col, str) else e)
    return (type(term).__name__, None, term.exp('sql'))


class ShJoin:
    def __init__(self, jtype, name, alias):
        self.jtype, self.name, self.alias, self.ons = jtype, name, alias, []

    def key(self):
        seen = []
        for t in self.ons:
            k = on_key(t)
            if k not in seen:
                seen.append(k)
        return seen

    def same(self, other):
        if not (same_name(self.name, other.name) and same_name(self.alias, other.alias) and self.key() == other.key()):
            return False
        if self.kinds() != other.kinds():
            spec.DOUBT.append((self, other))            # 1 and True, or 1.5 and Decimal('1.5')
        return True

    def kinds(self):
        text = repr(self.ons)
        return [text.count(x) for x in ('True', 'False', 'Decimal(', 'datetime(', 'date(')]

    def redundant(self):
        """Do two terms say the same?"""
        es = [orient(t.exp('sql', on=True) if isinstance(t, Cond) else t.exp('sql')) for t in self.ons]
        both = mk_and(es) if es else None
        return bool(es) and len(both[1] if both[0] == 'and' else (both,)) < sum(len(e[1]) if e[0] == 'and' else 1 for e in es)

    def exp(self, d, jtype=None):
        on = None
        if self.ons:
            on = orient(mk_and([t.exp(d, on=True) if isinstance(t, Cond) else t.exp(d) for t in self.ons]))
        return (jtype or self.jtype, name_exp(self.name, d), alias_exp(self.alias, d), on)


class ShTable:
    def __init__(self, name, alias):
        self.name, self.alias, self.joins = name, alias, []

    def exp(self, d, merge=True):
        groups = []
        for j in self.joins:
            for g in groups:
                if merge and g[0].same(j):
                    g.append(j)
                    break
            else:
                groups.append([j])
        joins = []
        for g in groups:
            types = {j.jtype for j in g}
            if len(g) > 1 and 'INNER' in types:
                joins.append(g[0].exp(d, 'INNER'))
            elif len(types) == 1:
                joins.append(g[0].exp(d))
            else:
                joins.extend(j.exp(d) for j in g)
        return (name_exp(self.name, d), alias_exp(self.alias, d), tuple(joins))


def ambiguous(table):
    """May or may not two joins of this table be merged?

    That is when conditions mean the same although they were not given as the
    same ones (a repeated term, Q(a, b) against a and b), and when equal joins
    are of several outer types.
    """
    js = table.joins
    for i, j in enumerate(js):
        same = [j]
        for k in js[:i]:
            if not (same_name(j.name, k.name) and same_name(j.alias, k.alias)):
                continue
            if j.same(k):
                same.append(k)
            if j.exp('sql', 'X') == k.exp('sql', 'X') or j.exp('postgresql', 'X') == k.exp('postgresql', 'X') or j.same(k):
                keys = [on_key(t) for t in j.ons]
                if keys != [on_key(t) for t in k.ons] or any(x in keys[:n] for n, x in enumerate(keys)) or j.redundant():
                    return True
        types = {k.jtype for k in same}
        if len(types) > 1 and 'INNER' not in types:
            return True
    return False


def unclear(table, terms):
    """Would these terms make the table ambiguous?"""
    last = table.joins[-1]
    ons = last.ons
    last.ons = list(ons) + list(terms)
    try:
        return ambiguous(table)
    finally:
        last.ons = ons


class ShTables:
    def __init__(self):
        self.items = []

    def add(self, content):
        for name, alias in content:
            for t in self.items:
                if not t.joins and same_name(t.name, name) and same_name(t.alias, alias):
                    break
            else:
                self.items.append(ShTable(name, alias))

    def join(self, jtype, name, alias):
        self.items[-1].joins.append(ShJoin(jtype, name, alias))

    def on(self, terms):
        self.items[-1].joins[-1].ons.extend(terms)

    def exp(self, d):
        return tuple(t.exp(d) for t in self.items)


def conj(terms, d):
    return mk_and([t.exp(d) for t in terms]) if terms else None


def dedup_assigns(items, d):
    out = []
    for it in items:
        e = it.exp(d) if isinstance(it, A) else ('assign', name_exp(it[0], d), it[1].exp(d))
        if e not in out:
            out.append(e)
    return tuple(out)


JOINS = {'join': 'INNER', 'inner_join': 'INNER', 'left_join': 'LEFT', 'right_join': 'RIGHT', 'full_join': 'FULL'}

OPTION_GROUP = {
    'sql_cache': ('sql_cache', 'SQL_CACHE'), 'sql_no_cache': ('sql_cache', 'SQL_NO_CACHE'),
    'all': ('dup', 'ALL'), 'distinct': ('dup', 'DISTINCT'), 'distinctrow': ('dup', 'DISTINCTROW'),
    'sql_small_result': ('small', 'SQL_SMALL_RESULT'), 'sql_big_result': ('big', 'SQL_BIG_RESULT'),
    'sql_buffer_result': ('buffer', 'SQL_BUFFER_RESULT'), 'sql_calc_found_rows': ('calc', 'SQL_CALC_FOUND_ROWS'),
    'straight_join': ('straight', 'STRAIGHT_JOIN'), 'high_priority': ('prio', 'HIGH_PRIORITY'),
}


class Sh:
    """Base of the models.  `create` is the constructor call, `ops` the calls made so far."""
    kind = None

    def __init__(self, create):
        self.create = create          # (function name in sqlpuzzle, args, kwds)
        self.ops = []

    def start(self):
        f, args, kwds = self.create
        return getattr(sp, f)(*mk(list(args)), **mk(dict(kwds)))

    def build(self):
        """A fresh real query made by replaying the calls."""
        q = self.start()
        for op in self.ops:
            op.run(q)
        return q

    def apply(self, op, d='sql'):
        self.effect(op, d)
        self.ops.append(op)
        return self

    def clone(self):
        return _copy.deepcopy(self)

    def __repr__(self):
        return '%s(%s)%s' % (self.create[0], spec.call_repr(self.create[1:]), ''.join(map(repr, self.ops)))


class ShSelect(Sh):
    kind = 'select'

    def __init__(self, create, cols=(), tables=()):
        super().__init__(create)
        self.opts = {}
        self.cols = []
        self.tables = ShTables()
        self.where, self.having = [], []
        self.group, self.order = Orders(), Orders()
        self.limit = self.offset = None
        self.outfile = [None] * 4
        self.for_update = False
        self.add_cols(cols)
        self.tables.add(tables)

    def add_cols(self, content):
        for name, alias in content:
            if not any(same_name(n, name) and same_name(a, alias) for n, a in self.cols):
                self.cols.append((name, alias))

    def effect(self, op, d):
        m, c = op.method, op.content
        if m == 'columns':
            self.add_cols(c)
        elif m in ('from_', 'from_table', 'from_tables'):
            self.tables.add(c)
        elif m in JOINS:
            self.tables.join(JOINS[m], *c)
        elif m == 'on':
            self.tables.on(c)
        elif m == 'where':
            self.where.extend(c)
        elif m == 'having':
            self.having.extend(c)
        elif m == 'group_by':
            for x in c:
                self.group.add(*x)
        elif m == 'order_by':
            for x in c:
                self.order.add(*x)
        elif m == 'limit':
            lim, off = c
            if lim is None:
                self.limit = self.offset = None
            else:
                self.limit = lim
                if off is not None:
                    self.offset = off or None
        elif m == 'offset':
            self.offset = c or None
        elif m == 'into_outfile':
            self.outfile[0] = c
        elif m == 'fields_terminated_by':
            self.outfile[1] = c
        elif m == 'lines_terminated_by':
            self.outfile[2] = c
        elif m == 'optionally_enclosed_by':
            self.outfile[3] = c
        elif m == 'for_update':
            self.for_update = bool(c)
        elif m in OPTION_GROUP:
            g, text = OPTION_GROUP[m]
            self.opts[g] = text if c else None
        else:
            raise AssertionError(m)

    def exp(self, d):
        cols = tuple((name_exp(n, d), alias_exp(a, d)) for n, a in self.cols) or ((('ref', (STAR,)), None),)
        outfile = None
        if self.outfile[0] is not None:
            outfile = tuple(None if v is None else v.exp(d) for v in self.outfile)
        return mk_select(
            opts=tuple(sorted(v for v in self.opts.values() if v)), cols=cols, tables=self.tables.exp(d),
            where=conj(self.where, d), group=self.group.exp(d), having=conj(self.having, d), order=self.order.exp(d),
            limit=self.limit, offset=self.offset, outfile=outfile, for_update=self.for_update)


class ShUnion:
    kind = 'union'

    def __init__(self, left, op, right):
        self.left, self.op, self.right = left, op, right

    def build(self):
        a, b = self.left.build(), self.right.build()
        return a | b if self.op == 'UNION' else a & b

    start = build

    def exp(self, d):
        return mk_union(self.left.exp(d), self.op, self.right.exp(d))

    def clone(self):
        return _copy.deepcopy(self)

    def __repr__(self):
        return '(%r %s %r)' % (self.left, '|' if self.op == 'UNION' else '&', self.right)


class ShInsert(Sh):
    kind = 'insert'

    def __init__(self, create, tables=()):
        super().__init__(create)
        self.tables = ShTables()
        self.rows = []
        self.ignore = False
        self.keyword = 'INSERT'
        self.odku, self.conflict_target, self.conflict = [], None, []
        self.tables.add(tables)

    def effect(self, op, d):
        m, c = op.method, op.content
        if m == 'into':
            self.tables.add(c)
        elif m == 'values':
            self.rows.append(list(c))
        elif m == 'ignore':
            self.ignore = bool(c)
        elif m == 'on_duplicate_key_update':
            target, assigns = c
            if d == 'mysql':
                self.odku.extend(assigns)
            elif d == 'postgresql':
                self.conflict_target = target
                self.conflict.extend(assigns)
            elif d == 'sqlite':
                self.keyword = 'REPLACE'
        else:
            raise AssertionError(m)

    def exp(self, d):
        cols, rows = [], []
        for row in self.rows:
            for col, _ in row:
                e = name_exp(col, d)
                if e not in cols:
                    cols.append(e)
        for row in self.rows:
            m = {name_exp(c, d): v.exp(d) for c, v in row}
            rows.append(tuple(m.get(c, ('null',)) for c in cols))
        upsert = None
        if self.odku:
            upsert = ('odku', None, dedup_assigns(self.odku, d))
        elif self.conflict:
            upsert = ('conflict', name_exp(self.conflict_target, d), dedup_assigns(self.conflict, d))
        return canon_insert(('insert', self.keyword, self.ignore, self.tables.exp(d), tuple(cols), tuple(rows), upsert))


def canon_insert(ast):
    """Sort the columns of an INSERT, permuting the rows alike; None if a row does not fit."""
    tag, kw, ign, tables, cols, rows, ups = ast
    if len(set(cols)) != len(cols) or any(len(r) != len(cols) for r in rows):
        return ('malformed insert',) + ast
    order = sorted(range(len(cols)), key=lambda i: repr(cols[i]))
    return (tag, kw, ign, tables, tuple(cols[i] for i in order), tuple(tuple(r[i] for i in order) for r in rows), ups)


class ShUpdate(Sh):
    kind = 'update'
    confirm = 'ConfirmUpdateAllException'

    def __init__(self, create, tables=()):
        super().__init__(create)
        self.tables = ShTables()
        self.tables.add(tables)
        self.set, self.where = [], []
        self.allow = self.ignore = False

    def effect(self, op, d):
        m, c = op.method, op.content
        if m == 'table':
            self.tables.add(c)
        elif m in JOINS:
            self.tables.join(JOINS[m], *c)
        elif m == 'on':
            self.tables.on(c)
        elif m == 'where':
            self.where.extend(c)
        elif m == 'set':
            self.set.extend(c)
        elif m == 'ignore':
            self.ignore = bool(c)
        elif m == 'allow_update_all':
            self.allow = True
        elif m == 'forbid_update_all':
            self.allow = False
        else:
            raise AssertionError(m)

    def exp(self, d):
        if not self.where and not self.allow:
            return Raises(self.confirm)
        return ('update', self.ignore, self.tables.exp(d), dedup_assigns(self.set, d), conj(self.where, d))


class ShDelete(Sh):
    kind = 'delete'
    confirm = 'ConfirmDeleteAllException'

    def __init__(self, create, tables=(), refs=()):
        super().__init__(create)
        self.tables, self.refs = ShTables(), ShTables()
        self.tables.add(tables)
        self.refs.add(refs)
        self.where = []
        self.allow = self.ignore = False

    def effect(self, op, d):
        m, c = op.method, op.content
        if m == 'delete':
            self.tables.add(c)
        elif m in ('from_', 'from_table', 'from_tables'):
            self.refs.add(c)
        elif m in JOINS:
            self.refs.join(JOINS[m], *c)
        elif m == 'on':
            self.refs.on(c)
        elif m == 'where':
            self.where.extend(c)
        elif m == 'ignore':
            self.ignore = bool(c)
        elif m == 'allow_delete_all':
            self.allow = True
        elif m == 'forbid_delete_all':
            self.allow = False
        else:
            raise AssertionError(m)

    def exp(self, d):
        if not self.where and not self.allow:
            return Raises(self.confirm)
        return ('delete', self.ignore, self.tables.exp(d), self.refs.exp(d), conj(self.where, d))
