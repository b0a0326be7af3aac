"""Argument specifications: what the workload passes to the library, and what it must mean.

Every spec can `make()` a fresh Python argument for the real library and tell,
with `exp(dialect)`, the AST the rendered SQL must parse to.  The meaning is
written here from the documentation and never asks the library.
"""
import collections
import datetime
import decimal
import re
from decimal import Decimal

from .boot import sp, rel
from .parser import STAR, mk_and, mk_or

QUOTE = {'sql': '"', 'mysql': '`', 'postgresql': '"', 'sqlite': '"'}
_CTX = decimal.Context(prec=2000, rounding=decimal.ROUND_HALF_EVEN)
_Q5 = Decimal('0.00001')


_OFFSET = re.compile(r'([+-])(\d\d):(\d\d)(?::(\d\d)(?:\.(\d{6}))?)?\Z')


def instant(text):
    """datetime.fromisoformat, which takes offsets below a second for zero."""
    m = _OFFSET.search(text, 11)
    if not m or not m[5]:
        return datetime.datetime.fromisoformat(text)
    off = datetime.timedelta(hours=int(m[2]), minutes=int(m[3]), seconds=int(m[4]), microseconds=int(m[5]))
    return datetime.datetime.fromisoformat(text[:m.start()]).replace(tzinfo=datetime.timezone(-off if m[1] == '-' else off))


def ref_path(name):
    """AST of a plain (unquoted) dotted name."""
    return ('ref', tuple(STAR if p == '*' else p for p in name.split('.') if p))


def quoted_ref(value, dialect):
    """Path of a string written as a quoted reference in the dialect's quotes, or None."""
    q = QUOTE[dialect]
    s = value.strip()
    i = 0
    comps = []
    while True:
        if i < len(s) and s[i] == q:
            j = i + 1
            buf = []
            while True:
                if j >= len(s):
                    return None
                if s[j] == q:
                    if s[j + 1:j + 2] == q:
                        buf.append(q)
                        j += 2
                        continue
                    break
                buf.append(s[j])
                j += 1
            if not buf:
                return None
            comps.append(''.join(buf))
            j += 1
        else:
            if not comps:
                return None
            j = i
            while j < len(s) and s[j] not in (q, '.', ' '):
                j += 1
            if j == i:
                return None
            comps.append(STAR if s[i:j] == '*' else s[i:j])
        if len(comps) > 3:
            return None
        if j == len(s):
            return ('ref', tuple(comps))
        if s[j] != '.':
            return None
        i = j + 1


def lit(v, d):
    """AST of a scalar Python value in dialect d."""
    if v is None:
        return ('null',)
    if isinstance(v, bool):
        return ('bool', v) if d == 'postgresql' else ('int', int(v))
    if isinstance(v, int):
        return ('int', int(v))
    if isinstance(v, (float, Decimal)):
        return ('num', Decimal(v).quantize(_Q5, context=_CTX))
    if isinstance(v, bytes):
        return ('str', '\\x' + v.hex()) if d == 'postgresql' else ('bytes', v)
    if isinstance(v, (datetime.datetime, datetime.date)):
        return ('str', v.isoformat())
    if isinstance(v, str):
        return quoted_ref(v, d) or ('str', v)
    raise AssertionError('no literal for %r' % (v,))


def mk(x):
    if isinstance(x, A):
        return x.make()
    if isinstance(x, tuple):
        return type(x)(*[mk(i) for i in x]) if hasattr(x, '_fields') else type(x)(mk(i) for i in x)
    if isinstance(x, list):
        return type(x)(mk(i) for i in x)
    if isinstance(x, dict):
        return type(x)((mk(k), mk(v)) for k, v in x.items())
    return x


class Pairs(list):
    """A list of the caller's own type."""


class Tup(tuple):
    """A tuple of the caller's own type."""


class Row(dict):
    """A dict of the caller's own type."""


Pair = collections.namedtuple('Pair', 'first second')


class Text(str):
    """A string of the caller's own type."""


class Int(int):
    pass


class Float(float):
    pass


class Dec(Decimal):
    pass


class Blob(bytes):
    pass


class Day(datetime.date):
    pass


class Moment(datetime.datetime):
    pass


def derived(v):
    """The same value in a type derived from its own."""
    t = {str: Text, int: Int, float: Float, Decimal: Dec, bytes: Blob}.get(type(v))
    if t:
        return t(v)
    if type(v) is datetime.date:
        return Day(v.year, v.month, v.day)
    if type(v) is datetime.datetime:
        return Moment(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo, fold=v.fold)
    return v


def name_exp(n, d):
    """AST of something in a name position (plain str/int, or an SQL object)."""
    if isinstance(n, A):
        return n.exp(d)
    if isinstance(n, int):
        return ('int', n)
    return ref_path(n)


class A:
    kind = 'other'

    def make(self):
        raise NotImplementedError

    def exp(self, d):
        raise NotImplementedError


class Val(A):
    def __init__(self, v):
        self.v = v

    def make(self):
        return self.v

    def exp(self, d):
        return lit(self.v, d)

    @property
    def kind(self):
        return 'none' if self.v is None else 'str' if isinstance(self.v, str) else 'scalar'

    def __repr__(self):
        return repr(self.v)


class Seq(A):
    kind = 'seq'

    def __init__(self, items, ctor='list'):
        self.items = items
        self.ctor = ctor

    def make(self):
        vals = [mk(i) for i in self.items]
        if self.ctor == 'list':
            return vals
        if self.ctor == 'tuple':
            return tuple(vals)
        if self.ctor == 'gen':
            return (v for v in vals)
        if self.ctor == 'set':
            return set(vals)
        if self.ctor == 'frozenset':
            return frozenset(vals)
        if self.ctor == 'range':
            return range(vals[0], vals[0] + len(vals))
        raise AssertionError(self.ctor)

    def exp(self, d):
        return ('list', tuple(i.exp(d) for i in self.items))

    def __repr__(self):
        return '%s%r' % (self.ctor if self.ctor != 'list' else '', list(self.items))


class VW(A):
    """sqlpuzzle.V(...)"""

    def __init__(self, inner):
        self.inner = inner

    @property
    def kind(self):
        return {'none': 'none', 'seq': 'seq'}.get(self.inner.kind, 'other')

    def make(self):
        return (sp.sqlvalue if len(repr(self.inner)) % 5 == 0 else sp.V)(self.inner.make())       # the long name, too

    def exp(self, d):
        e = self.inner.exp(d)
        # A one-item list in parentheses reads as the item itself outside IN.
        return e[1][0] if e[0] == 'list' and len(e[1]) == 1 else e

    def __repr__(self):
        return 'V(%r)' % (self.inner,)


class RW(A):
    """sqlpuzzle.R(name)"""

    def __init__(self, name):
        self.name = name

    def make(self):
        return (sp.sqlreference if len(self.name) % 5 == 0 else sp.R)(self.name)

    def exp(self, d):
        return ref_path(self.name)

    def __repr__(self):
        return 'R(%r)' % (self.name,)


class Cust(A):
    """sqlpuzzle.C('CZn(...)')"""

    def __init__(self, text):
        self.text = text

    def make(self):
        return (sp.customsql if len(self.text) % 5 == 0 else sp.C)(self.text)

    def exp(self, d):
        return ('custom', self.text)

    def __repr__(self):
        return 'C(%r)' % (self.text,)


class Sub(A):
    """A query object used as an argument."""

    def __init__(self, q):
        self.q = q

    def make(self):
        return self.q.build()

    def exp(self, d):
        return ('sub', self.q.exp(d))

    def __repr__(self):
        return 'Sub(%r)' % (self.q,)


class Fn(A):
    """Aggregate function; calls = later .distinct(x) toggles."""

    def __init__(self, name, args, distinct_fn=False, toggles=(), seq=None):
        self.name, self.args, self.distinct_fn, self.toggles, self.seq = name, args, distinct_fn, tuple(toggles), seq

    def make(self):
        f = getattr(sp, self.name + ('_distinct' if self.distinct_fn else ''))
        if self.seq is not None:
            o = f(self.seq(mk(a) for a in self.args))
        else:
            o = f(*[mk(a) for a in self.args])
        for t in self.toggles:
            o = o.distinct(*t)
        return o

    def exp(self, d):
        dist = self.distinct_fn
        for t in self.toggles:
            dist = bool(t[0]) if t else True
        args = tuple((name_exp(a, d), None) for a in self.args) or ((('ref', (STAR,)), None),)
        return ('call', self.name.upper(), dist, args, (), None)

    def __repr__(self):
        return '%s%s(%s)%s' % (self.name, '_distinct' if self.distinct_fn else '',
                               ', '.join(map(repr, self.args)), ''.join('.distinct%r' % (t,) for t in self.toggles))


class ConcatFn(A):
    def __init__(self, cols, group=False, steps=()):
        self.cols, self.group, self.steps = cols, group, list(steps)

    def make(self):
        o = (sp.group_concat if self.group else sp.concat)(*[mk(c) for c in self.cols])
        for m, a in self.steps:
            o = getattr(o, m)(*[mk(x) for x in a])
        return o

    def exp(self, d):
        args = []
        for c in self.cols:
            e = (name_exp(c[0], d), ref_path(c[1]) if c[1] else None) if isinstance(c, tuple) else (name_exp(c, d), None)
            args.append(e)
        order, sep = Orders(), None
        for m, a in self.steps:
            if m == 'order_by':
                for x in a:
                    for it in (sorted(x.items()) if isinstance(x, dict) else [x]):
                        order.add(*(it if isinstance(it, tuple) else (it, None)))
            else:
                sep = a[0]
        return ('call', 'GROUP_CONCAT' if self.group else 'CONCAT', False, tuple(args), order.exp(d),
                sep.exp(d) if sep is not None else None)

    def __repr__(self):
        return '%s(%s)%s' % ('group_concat' if self.group else 'concat', ', '.join(map(repr, self.cols)),
                             ''.join('.%s%r' % (m, tuple(a)) for m, a in self.steps))


class CustomType(str):
    """The type of CONVERT, given as custom SQL."""

    def __repr__(self):
        return 'C(%s)' % str.__repr__(self)


def convert_type(t):
    return sp.C(str(t)) if isinstance(t, CustomType) else t


class ConvertFn(A):
    def __init__(self, expr, ctor_type, tos=()):
        self.expr, self.ctor_type, self.tos = expr, ctor_type, list(tos)

    def make(self):
        o = sp.convert(mk(self.expr), convert_type(self.ctor_type)) if self.ctor_type else sp.convert(mk(self.expr))
        for t in self.tos:
            o = o.to(convert_type(t))
        return o

    def exp(self, d):
        return ('convert', name_exp(self.expr, d), (self.tos[-1] if self.tos else self.ctor_type).upper())

    def __repr__(self):
        return 'convert(%r, %r)%s' % (self.expr, self.ctor_type, ''.join('.to(%r)' % t for t in self.tos))


DOUBT = []


def doubtful(a, b):
    """Note objects that read the same but were not built alike, such as select() and select('*').

    Whether they count as a repetition is not specified, so nothing is said about such a case.
    """
    if a is not b and 'Sub(' in repr(a) and repr(a) != repr(b):
        DOUBT.append((a, b))
    return True


class Orders:
    """Model of an ORDER BY / GROUP BY list."""

    def __init__(self, items=None):
        self.items = list(items or [])

    def add(self, col, direction):
        direction = (direction or 'ASC').upper()
        for i, (c, _) in enumerate(self.items):
            if (type(c), str(c) if isinstance(c, (str, int)) else c.exp('sql')) == \
                    (type(col), str(col) if isinstance(col, (str, int)) else col.exp('sql')) and doubtful(c, col):
                self.items[i] = (c, direction)
                return
        self.items.append((col, direction))

    def exp(self, d):
        return tuple((name_exp(c, d), x) for c, x in self.items)


# ---------------------------------------------------------------- relations and conditions

REL_AST = {
    'EQ': ('cmp', '='), 'EQUAL_TO': ('cmp', '='), 'NE': ('cmp', '!='), 'NOT_EQUAL_TO': ('cmp', '!='),
    'GT': ('cmp', '>'), 'GRATHER_THAN': ('cmp', '>'), 'GE': ('cmp', '>='), 'GRATHER_THAN_OR_EQUAL_TO': ('cmp', '>='),
    'LT': ('cmp', '<'), 'LESS_THAN': ('cmp', '<'), 'LE': ('cmp', '<='), 'LESS_THAN_OR_EQUAL_TO': ('cmp', '<='),
    'LIKE': ('like', False), 'NOT_LIKE': ('like', True), 'REGEXP': ('regexp', False),
    'IN': ('in', False), 'NOT_IN': ('in', True), 'IS': ('is', False), 'IS_NOT': ('is', True),
}


class RelA(A):
    kind = 'rel'

    def __init__(self, name, inner, spread=False):
        self.name, self.inner, self.spread = name, inner, spread

    def make(self):
        cls = getattr(rel, self.name)
        if self.spread:
            return cls(*[mk(i) for i in self.inner.items])
        return cls(self.inner.make())

    def __repr__(self):
        return 'relations.%s(%s%r)' % (self.name, '*' if self.spread else '', self.inner)


class Cond(A):
    """One (column, value) condition."""

    def __init__(self, col, val):
        self.col, self.val = col, val

    def relation(self):
        v = self.val
        if isinstance(v, RelA):
            return v.name, v.inner
        return {'none': 'IS', 'seq': 'IN'}.get(v.kind, 'EQ'), v

    def exp(self, d, on=False):
        name, v = self.relation()
        tag, x = REL_AST[name]
        col = name_exp(self.col, d)
        if tag == 'in' and isinstance(v, Seq):
            items = [i for i in v.items if not (isinstance(i, Val) and i.v is None)]
            node = ('in', x, col, ('list', tuple(i.exp(d) for i in items)))
            if len(items) != len(v.items):
                isn = ('is', x, col, ('null',))
                if not items:
                    return isn
                return (mk_and if x else mk_or)([node, isn])
            return node
        if tag == 'in' and isinstance(v, VW) and isinstance(v.inner, Seq):
            return ('in', x, col, v.inner.exp(d))
        e = ref_path(v.v) if on and isinstance(v, Val) and isinstance(v.v, str) else v.exp(d)
        return (tag, x, col, e)

    def __repr__(self):
        return '(%r, %r)' % (self.col, self.val)


class QT(A):
    """A Q object: leaf with parts, or a combination."""

    def __init__(self, op, parts, call=None):
        self.op, self.parts, self.call = op, parts, call

    def make(self):
        if self.op == 'leaf':
            args, kwds = self.call
            return sp.Q(*mk(list(args)), **mk(kwds))
        a, b = self.parts[0].make(), self.parts[1].make()
        return a & b if self.op == 'and' else a | b

    def exp(self, d):
        es = [p.exp(d) for p in self.parts]
        return mk_or(es) if self.op == 'or' else mk_and(es)

    def __repr__(self):
        if self.op == 'leaf':
            return 'Q(%s)' % call_repr(self.call)
        return '(%r %s %r)' % (self.parts[0], '&' if self.op == 'and' else '|', self.parts[1])


class NotT(A):
    def __init__(self, parts, call):
        self.parts, self.call = parts, call

    def make(self):
        args, kwds = self.call
        return sp.Not(*mk(list(args)), **mk(kwds))

    def exp(self, d):
        return ('not', mk_and([p.exp(d) for p in self.parts]))

    def __repr__(self):
        return 'Not(%s)' % call_repr(self.call)


class ExistsT(A):
    def __init__(self, q):
        self.q = q

    def make(self):
        return sp.exists(self.q.build())

    def exp(self, d):
        return ('exists', self.q.exp(d))

    def __repr__(self):
        return 'exists(%r)' % (self.q,)


def call_repr(call):
    args, kwds = call
    return ', '.join([repr(a) for a in args] + (['**%r' % (kwds,)] if kwds else []))
