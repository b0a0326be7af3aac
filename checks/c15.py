"""C15: invalid arguments are refused with an exception and never reach the SQL."""
import datetime
import decimal
import enum
import sys
import types
import uuid
from decimal import Decimal

import _path                                                 # noqa: F401
from lib import pool, runner
from lib.boot import DIALECTS, exc, rel, sp
from lib.gen import G
from lib.judge import HOWS, Violation, compare, configure, render
from lib.shadow import Op
from lib.spec import Val

PROP = 'C15'
QUICK, THOROUGH = 150000, 1200000
RULE = ('Every argument position x every kind of Python object it does not support (fresh random objects of about fifty kinds), put at a random '
        'point of a random history, alone or between valid items, under every backend. The call, or at the latest every rendering (also of '
        'copies and of queries embedding it), must raise InvalidArgumentException; after a refused call the query must go on exactly as the '
        'reference model without that call. Distinct = distinct (position, kind, way of refusal, backend, query state).')
ASSUMPTIONS = ['SQL objects (V, R, C, functions, Q, queries) are accepted in name positions by design', 'a false table argument (None, "", 0) is ignored by design']
NEED = ('observations', 'refused by the call', 'refused by rendering', 'went on as if not called', 'embedded', 'pairs covered')


# ---------------------------------------------------------------- objects nobody supports

class Color(enum.Enum):
    RED = 1
    SQL = 'RED; --'


class Obj:
    pass


class Stringy:
    def __str__(self):
        return '"x"; DROP TABLE t'
    __repr__ = __str__


class Falsy:
    def __bool__(self):
        return False


class Hostile:
    """Has everything but tosql."""
    value = 'x'
    column_name = 'x'
    is_set = True

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1

    def __len__(self):
        return 1

    def __int__(self):
        return 3
    __index__ = __int__

    def __float__(self):
        return 3.0

    def upper(self):
        return 'ASC'


class Iterable:
    def __iter__(self):
        return iter([1, 2])


class NT(tuple):
    pass


def numbers(g):
    return g.r.randrange(1, 10 ** g.r.randrange(1, 12))


KINDS = {
    'none': lambda g: None,
    'bool': lambda g: g.p(0.5),
    'true': lambda g: True,
    'int': lambda g: g.pick([numbers(g), -numbers(g)]),
    'float': lambda g: g.pick([0.5, 1.0, 2.0, 1e20, -3.25, 0.0, float(numbers(g))]),
    'decimal': lambda g: g.pick([Decimal('1.5'), Decimal(3), Decimal(0), Decimal('1e5')]),
    'nan': lambda g: g.pick([float('nan'), Decimal('nan'), Decimal('snan'), float('-nan')]),
    'inf': lambda g: g.pick([float('inf'), float('-inf'), Decimal('inf'), Decimal('-inf')]),
    'bytes': lambda g: g.pick([b'x', b'', b'a.b', b"'; --", b'ASC']),
    'bytearray': lambda g: bytearray(g.pick([b'x', b'ab', b'1'])),
    'memoryview': lambda g: memoryview(b'xyz'),
    'date': lambda g: datetime.date(2020, 1, g.r.randrange(1, 29)),
    'datetime': lambda g: datetime.datetime(2020, 1, g.r.randrange(1, 29), 1),
    'time': lambda g: datetime.time(g.r.randrange(24), 30),
    'timedelta': lambda g: datetime.timedelta(days=g.r.randrange(1, 99)),
    'tzinfo': lambda g: datetime.timezone.utc,
    'complex': lambda g: complex(g.r.randrange(9), 1),
    'set': lambda g: set(g.pick([[1], ['a'], [1, 2], ['a', 'b', 'c']])),
    'frozenset': lambda g: frozenset(g.pick([[1], ['a'], [1, 2]])),
    'list': lambda g: g.pick([[1], ['a'], [1, 2], [1, 2, 3]]),
    'tuple': lambda g: g.pick([(1,), ('a',), (1, 2), (1, 2, 3)]),
    'longlist': lambda g: ['a', 'b', 'c', 'd'][:g.r.randrange(3, 5)],
    'longtuple': lambda g: ('a', 'b', 'c', 'd')[:g.r.randrange(3, 5)],
    'dict': lambda g: g.pick([{'a': 1}, {1: 2}, {'a': 'b', 'c': 'd'}]),
    'dict2': lambda g: {'a': 'b', 'c': 'd'},
    'emptydict': lambda g: {},
    'range': lambda g: range(g.r.randrange(1, 4)),
    'gen': lambda g: (x for x in [1, 2]),
    'iter': lambda g: iter([1]),
    'map': lambda g: map(int, ['1']),
    'zip': lambda g: zip([1], [2]),
    'dictkeys': lambda g: {'a': 1}.keys(),
    'dictitems': lambda g: {'a': 1}.items(),
    'proxy': lambda g: types.MappingProxyType({'a': 1}),
    'iterable': lambda g: Iterable(),
    'emptylist': lambda g: [],
    'emptytuple': lambda g: (),
    'emptyrange': lambda g: range(0),
    'emptygen': lambda g: (x for x in ()),
    'badlist': lambda g: g.pick([[1, Obj()], [Obj()], ['a', None, 1j], [None, Color.RED], [uuid.uuid4()], [1, {'a': 1}], (1, datetime.time(1)), [float('nan'), 1],
                                 [1, float('inf')], ('a', bytearray(b'x')), [rel.EQ(1)], [1, rel.IN([1])], [datetime.timedelta(1)], [[], 1], [1, [Obj()]], [Stringy()]]),
    'obj': lambda g: Obj(),
    'object': lambda g: object(),
    'stringy': lambda g: Stringy(),
    'falsy': lambda g: Falsy(),
    'hostile': lambda g: Hostile(),
    'class': lambda g: g.pick([Obj, str, int, type, dict, datetime.date]),
    'function': lambda g: g.pick([len, numbers, (lambda: 1), Stringy.__str__]),
    'ellipsis': lambda g: ...,
    'notimplemented': lambda g: NotImplemented,
    'enum': lambda g: g.pick(list(Color)),
    'uuid': lambda g: uuid.UUID(int=g.r.randrange(1, 10**9)),
    'exception': lambda g: ValueError('x'),
    'module': lambda g: decimal,
    'slice': lambda g: slice(1, 2),
    'relation': lambda g: g.pick([lambda: rel.EQ(1), lambda: rel.NE('a'), lambda: rel.IN([1, 2]), lambda: rel.LIKE('x'), lambda: rel.IS(None), lambda: rel.GT(3)])(),
}
ALL = set(KINDS)
UNCOPYABLE = {'module', 'gen', 'emptygen', 'iter', 'map', 'zip', 'memoryview', 'dictkeys', 'dictitems', 'proxy', 'slice', 'function'}     # by Python itself
SHAPES = {'list', 'tuple', 'longlist', 'longtuple', 'emptylist', 'emptytuple', 'dict', 'dict2', 'emptydict', 'badlist'}     # read as a shape, see C06
NUMBER = {'int', 'float', 'decimal'}
NONFINITE = {'nan', 'inf'}
SCALAR = {'none', 'bool', 'true', 'bytes', 'date', 'datetime'} | NUMBER
SEQ = {'list', 'tuple', 'longlist', 'longtuple', 'range', 'gen'}
EMPTY = {'emptylist', 'emptytuple', 'emptyrange', 'emptygen'}
NEVER = ALL - SCALAR - SEQ - SHAPES - {'set', 'frozenset'}        # no value of an SQL statement (kinds read as a shape apart)
FALSE = {'none', 'bool', 'falsy', 'emptylist', 'emptytuple', 'emptydict', 'emptyrange', 'hostile'}

NAME = ALL - SHAPES                                           # a string is needed, shapes apart
NAME_IN_TUPLE = ALL - {'hostile'}                             # ('x', alias): no further shape
COL = NAME - {'int'}                                          # or a whole number
COL_IN_TUPLE = NAME_IN_TUPLE - {'int'}
ALIAS = ALL - {'none', 'falsy', 'emptydict', 'emptylist', 'emptytuple', 'emptyrange'}
COND = (NEVER | {'bytes', 'dict', 'dict2', 'emptydict', 'badlist'} | EMPTY) - {'relation'}
COND_SINGLE = COND - {'relation'}
SETV = NEVER | SHAPES | EMPTY | {'range', 'gen', 'set', 'frozenset'}
ITEM = NEVER | EMPTY | {'dict', 'dict2', 'emptydict', 'badlist'}
WHOLE = ALL - {'none', 'int'}
TEXT = ALL
BAD_ORDER = ('ascending', 'asc desc', '', 'a', 'DESC;', ' asc', 'desc ', 'ASC\n', 'descending', 'random()', '1', 'ＡＳＣ', 'asc--', 'NULL', 'true')


class P:
    """A position: how to put x there, which kinds it refuses, is x the only item of its call."""

    def __init__(self, name, kinds, f, need='select', single=True, also=None, operator=False):
        self.name, self.kinds, self.f, self.need, self.single, self.also = name, sorted(kinds), f, need, single, also
        self.operator = operator                     # refusing with TypeError is right for a Python operator
        self.truthy = not FALSE & set(kinds)         # false arguments are ignored here

    def __repr__(self):
        return self.name


def col(g):
    return g.name()


def good_items(g):
    return [g.name() for _ in range(g.r.randrange(1, 3))]


def around(g, x):
    """x between valid names."""
    items = good_items(g) + [x] + good_items(g) if g.p(0.5) else good_items(g) + [x]
    return items


ALLQ = ('select', 'update', 'delete')
POS = [
    # columns
    P('columns(x)', COL - {'none'} | {'none'}, lambda q, x, g: q.columns(x)),
    P('columns(.., x, ..)', COL - SHAPES, lambda q, x, g: q.columns(*around(g, x)), single=False),
    P('columns((x, alias))', COL_IN_TUPLE, lambda q, x, g: q.columns((x, 'al'))),
    P('columns((col, x))', ALIAS, lambda q, x, g: q.columns((col(g), x))),
    P('columns(col=x)', ALIAS, lambda q, x, g: q.columns(**{g.key(): x})),
    P('columns({col: x})', ALIAS, lambda q, x, g: q.columns({col(g): x})),
    # tables
    P('from_(x)', NAME - FALSE, lambda q, x, g: q.from_(x), need=('select', 'delete')),
    P('from_tables(.., x, ..)', NAME - FALSE - SHAPES, lambda q, x, g: q.from_tables(*around(g, x)), single=False),
    P('from_((x, alias))', NAME_IN_TUPLE, lambda q, x, g: q.from_((x, 'al')), need=('select', 'delete')),
    P('from_((table, x))', ALIAS, lambda q, x, g: q.from_((col(g), x)), need=('select', 'delete')),
    P('from_(table=x)', ALIAS, lambda q, x, g: q.from_(**{g.key(): x}), need=('select', 'delete')),
    P('from_table(x)', NAME - FALSE, lambda q, x, g: q.from_table(x)),
    P('from_table(table, x)', ALIAS, lambda q, x, g: q.from_table(col(g), x)),
    P('table(x)', NAME - FALSE, lambda q, x, g: q.table(x), need='update'),
    P('delete(x)', NAME - FALSE, lambda q, x, g: q.delete(x), need='delete'),
    P('into(x)', NAME - FALSE, lambda q, x, g: q.into(x), need='insert'),
    # joins
    P('join(x)', ALL - {'list', 'tuple', 'dict'}, lambda q, x, g: join(g, q)(x), need=ALLQ, also='table'),
    P('join((x, alias))', NAME_IN_TUPLE, lambda q, x, g: join(g, q)((x, 'al')), need=ALLQ, also='table'),
    P('join({table: x})', ALIAS, lambda q, x, g: join(g, q)({col(g): x}), need=ALLQ, also='table'),
    P('join((table, x))', ALIAS, lambda q, x, g: join(g, q)((col(g), x)), need=ALLQ, also='table'),
    P('on(x, col)', NAME_IN_TUPLE, lambda q, x, g: q.on(x, col(g)), need=ALLQ, also='join'),
    P('on(col, x)', COND, lambda q, x, g: q.on(col(g), x), need=ALLQ, also='join'),
    P('on(x)', NAME, lambda q, x, g: q.on(x), need=ALLQ, also='join'),
    # conditions
    P('where(x, value)', NAME - SHAPES, lambda q, x, g: q.where(x, g.pick([1, 'a'])), need=ALLQ),
    P('where([(x, value)])', NAME_IN_TUPLE, lambda q, x, g: q.where([(x, g.pick([1, 'a']))]), need=ALLQ),
    P('where(col, x)', COND, lambda q, x, g: q.where(col(g), x), need=ALLQ),
    P('where(col=x)', COND, lambda q, x, g: q.where(**{g.key(): x}), need=ALLQ),
    P('where({col: x})', COND, lambda q, x, g: q.where({col(g): x}), need=ALLQ),
    P('where([.., (col, x)])', COND, lambda q, x, g: q.where([(col(g), 1), (col(g), x)]), need=ALLQ, single=False),
    P('where((col, x), ..)', COND, lambda q, x, g: q.where((col(g), x), (col(g), 1)), need=ALLQ, single=False),
    P('where(x)', NAME, lambda q, x, g: q.where(x), need=ALLQ),
    P('where(col, [.., x])', ITEM, lambda q, x, g: q.where(col(g), inlist(g, x)), need=ALLQ),
    P('where(col, V([.., x]))', ITEM - {'relation'} | {'relation'}, lambda q, x, g: q.where(col(g), sp.V(inlist(g, x))), need=ALLQ),
    P('where(col, V(x))', NEVER | {'dict', 'dict2', 'emptydict', 'badlist'} | EMPTY, lambda q, x, g: q.where(col(g), sp.V(x)), need=ALLQ),
    P('where(R(x), value)', (ALL - {'int'}) - {'hostile'} | {'hostile'}, lambda q, x, g: q.where(sp.R(x), 1), need=ALLQ),
    P('having(x, value)', NAME - SHAPES, lambda q, x, g: q.having(x, 1)),
    P('having(col, x)', COND, lambda q, x, g: q.having(col(g), x)),
    P('having(col=x)', COND, lambda q, x, g: q.having(**{g.key(): x})),
    P('where(Q(x, value))', NAME - SHAPES, lambda q, x, g: q.where(sp.Q(x, 1)), need=ALLQ),
    P('where(Q(col, x))', COND, lambda q, x, g: q.where(sp.Q(col(g), x)), need=ALLQ),
    P('where(Q | Q(col=x))', COND, lambda q, x, g: q.where(sp.Q(a=1) | sp.Q(**{g.key(): x}) & sp.Q(b=2)), need=ALLQ),
    P('where(Q(col, [.., x]))', ITEM, lambda q, x, g: q.where(sp.Q(col(g), inlist(g, x)) | sp.Q(z=1)), need=ALLQ),
    P('where(Not(col, x))', COND, lambda q, x, g: q.where(sp.Not(col(g), x)), need=ALLQ),
    P('where(Not(x, value))', NAME - SHAPES, lambda q, x, g: q.where(sp.Not(x, 1)), need=ALLQ),
    P('where(exists(x))', ALL - {'relation'}, lambda q, x, g: q.where(sp.exists(x)), need=ALLQ),
    # ordering and limits
    P('order_by(x)', COL, lambda q, x, g: q.order_by(x)),
    P('order_by(.., x, ..)', COL - SHAPES, lambda q, x, g: q.order_by(*around(g, x)), single=False),
    P('order_by((x, asc))', COL_IN_TUPLE, lambda q, x, g: q.order_by((x, g.pick(['asc', 'desc'])))),
    P('order_by((col, x))', ALL - {'none'}, lambda q, x, g: q.order_by((ordered(g, q), x))),
    P('order_by(col=x)', ALL - {'none'}, lambda q, x, g: q.order_by(**{g.key(): x})),
    P('order_by((col, text))', ['text'], lambda q, x, g: q.order_by((ordered(g, q), g.pick(BAD_ORDER)))),
    P('group_by(x)', COL, lambda q, x, g: q.group_by(x)),
    P('group_by((x, asc))', COL_IN_TUPLE, lambda q, x, g: q.group_by((x, 'asc'))),
    P('group_by((col, x))', ALL - {'none'}, lambda q, x, g: q.group_by((col(g), x))),
    P('group_by((col, text))', ['text'], lambda q, x, g: q.group_by((col(g), g.pick(BAD_ORDER)))),
    P('limit(x)', WHOLE, lambda q, x, g: q.limit(x)),
    P('limit(n, x)', WHOLE, lambda q, x, g: q.limit(3, x), single=False),
    P('offset(x)', WHOLE, lambda q, x, g: q.offset(x)),
    P('limit(text)', ['text'], lambda q, x, g: q.limit(g.pick(['1', '', 'a', '1; --', '1.5', 'ALL']))),
    P('offset(text)', ['text'], lambda q, x, g: q.offset(g.pick(['1', 'a', '1; --', '1.5']))),
    P('limit(SQL object)', ['text'], lambda q, x, g: q.limit(g.pick([lambda: sp.C('1; --'), lambda: sp.V(1), lambda: sp.R('a'), lambda: sp.select('a'), lambda: sp.sum('a')])())),
    P('offset(SQL object)', ['text'], lambda q, x, g: q.offset(g.pick([lambda: sp.C('1; --'), lambda: sp.V(1), lambda: sp.R('a'), lambda: sp.select('a')])())),
    # outfile
    P('into_outfile(x)', TEXT, lambda q, x, g: q.into_outfile(x)),
    P('fields_terminated_by(x)', TEXT, lambda q, x, g: q.fields_terminated_by(x), also='outfile'),
    P('lines_terminated_by(x)', TEXT, lambda q, x, g: q.lines_terminated_by(x), also='outfile'),
    P('optionally_enclosed_by(x)', TEXT, lambda q, x, g: q.optionally_enclosed_by(x), also='outfile'),
    # values
    P('set(col=x)', SETV, lambda q, x, g: q.set(**{g.key(): x}), need='update'),
    P('set(col, x)', SETV, lambda q, x, g: q.set(col(g), x), need='update'),
    P('set({col: x})', SETV, lambda q, x, g: q.set({col(g): x}), need='update'),
    P('set((col, x), ..)', SETV, lambda q, x, g: q.set((col(g), x), (col(g), 1)), need='update', single=False),
    P('set(x, value)', NAME - SHAPES, lambda q, x, g: q.set(x, 1), need='update'),
    P('set([(x, value)])', NAME_IN_TUPLE, lambda q, x, g: q.set([(x, 1)]), need='update'),
    P('values(col=x)', SETV, lambda q, x, g: q.values(**{g.key(): x}), need='insert'),
    P('values({col: x})', SETV, lambda q, x, g: q.values({col(g): x}), need='insert'),
    P('values(.., col=x)', SETV, lambda q, x, g: q.values(**{g.key(): 1, 'zz': x}), need='insert', single=False),
    P('values(x, value)', NAME - SHAPES - {'relation'}, lambda q, x, g: q.values(x, 1), need='insert'),
    P('values([(x, value)])', NAME_IN_TUPLE - {'relation'}, lambda q, x, g: q.values([(x, 1)]), need='insert'),
    P('values(x)', NAME, lambda q, x, g: q.values(x), need='insert'),
    P('values(SQL object)', ['text'], lambda q, x, g: q.values(g.pick([lambda: sp.C('1'), lambda: sp.V(1), lambda: sp.R('a'), lambda: sp.select('a'), lambda: sp.Q(a=1), lambda: sp.sum('a')])()), need='insert'),
    P('on_duplicate_key_update(col=x)', SETV, lambda q, x, g: q.on_duplicate_key_update(**{g.key(): x}), need='insert', also='mysql'),
    P('on_duplicate_key_update(x, value)', NAME - SHAPES, lambda q, x, g: q.on_duplicate_key_update(x, 1), need='insert', also='mysql'),
    P('on_duplicate_key_update({col: x})', SETV, lambda q, x, g: q.on_duplicate_key_update({col(g): x}), need='insert', also='mysql'),
    P('on_duplicate_key_update(target, col=x)', SETV, lambda q, x, g: q.on_duplicate_key_update('target', **{g.key(): x}), need='insert', single=False, also='postgresql'),
    P('on_duplicate_key_update(col=value) without target', ['text'], lambda q, x, g: q.on_duplicate_key_update(**{g.key(): 1}), need='insert', also='postgresql'),
    P('on_duplicate_key_update({col: value}) without target', ['text'], lambda q, x, g: q.on_duplicate_key_update({g.key(): 1}), need='insert', also='postgresql'),
    P('on_duplicate_key_update([(col, value)]) without target', ['text'], lambda q, x, g: q.on_duplicate_key_update([(g.key(), 1)]), need='insert', also='postgresql'),
    P('on_duplicate_key_update() without target', ['text'], lambda q, x, g: q.on_duplicate_key_update(), need='insert', also='postgresql'),
    P('on_duplicate_key_update(x, col=value)', ALL, lambda q, x, g: q.on_duplicate_key_update(x, **{g.key(): 1}), need='insert', single=False, also='postgresql'),
]

# Objects that are not queries: x is their argument, y the object.
FN = ('avg', 'count', 'max', 'min', 'sum', 'avg_distinct', 'count_distinct', 'max_distinct', 'min_distinct', 'sum_distinct')
NO_COUNT = FALSE          # count() of nothing counts *
FNARG = COL | {'dict', 'dict2', 'emptydict', 'badlist'}
FREE = [P('%s(x)' % f, FNARG - (NO_COUNT if f.startswith('count') else set()), lambda x, g, f=f: getattr(sp, f)(x)) for f in FN] + [
    P('%s([.., x])' % f, COL_IN_TUPLE, lambda x, g, f=f: getattr(sp, f)([col(g), x])) for f in FN[:5]] + [
    P('concat(x)', COL, lambda x, g: sp.concat(x)),
    P('concat(.., x)', COL, lambda x, g: sp.concat(*around(g, x))),
    P('concat()', ['text'], lambda x, g: sp.concat()),
    P('group_concat(.., x)', COL, lambda x, g: sp.group_concat(*around(g, x))),
    P('group_concat()', ['text'], lambda x, g: sp.group_concat()),
    P('group_concat().order_by(x)', COL, lambda x, g: sp.group_concat(col(g)).order_by(x)),
    P('group_concat().order_by((col, x))', ALL - {'none'}, lambda x, g: sp.group_concat(col(g)).order_by((col(g), x))),
    P('group_concat().order_by((col, text))', ['text'], lambda x, g: sp.group_concat(col(g)).order_by((col(g), g.pick(BAD_ORDER)))),
    P('group_concat().separator(x)', NEVER | EMPTY | {'dict', 'dict2', 'emptydict', 'badlist'}, lambda x, g: sp.group_concat(col(g)).separator(x)),
    P('convert(x)', FNARG, lambda x, g: sp.convert(x, 'signed')),
    P('convert(col, x)', ALL - {'relation'}, lambda x, g: sp.convert(col(g), x)),
    P('convert(col).to(x)', ALL - {'relation'}, lambda x, g: sp.convert(col(g)).to(x)),
    P('convert(col)', ['text'], lambda x, g: sp.convert(col(g))),
    P('exists(x)', ALL - {'relation'}, lambda x, g: sp.exists(x)),
    P('exists(text)', ['text'], lambda x, g: sp.exists(g.string())),
    P('V(x)', NEVER | EMPTY | {'dict', 'dict2', 'emptydict', 'badlist'}, lambda x, g: sp.V(x)),
    P('V([.., x])', ITEM, lambda x, g: sp.V(inlist(g, x))),
    P('V(V(x))', NEVER | EMPTY | {'dict', 'dict2', 'emptydict', 'badlist'}, lambda x, g: sp.V(sp.V(x))),
    P('R(x)', ALL - {'int'}, lambda x, g: sp.R(x)),
    P('Q(col, x)', COND, lambda x, g: sp.Q(col(g), x)),
    P('Q(col=x)', COND, lambda x, g: sp.Q(**{g.key(): x})),
    P('Q(x, value)', NAME - SHAPES, lambda x, g: sp.Q(x, 1)),
    P('Q(x)', NAME, lambda x, g: sp.Q(x)),
    P('Q(col, [.., x])', ITEM, lambda x, g: sp.Q(col(g), inlist(g, x))),
    P('Not(col, x)', COND, lambda x, g: sp.Not(col(g), x)),
    P('Not(x)', NAME, lambda x, g: sp.Not(x)),
    P('select(x)', COL, lambda x, g: sp.select(x)),
    P('select(.., x)', COL, lambda x, g: sp.select(*around(g, x))),
    P('select_from(x)', NAME - FALSE, lambda x, g: sp.select_from(x)),
    P('select_from((x, alias))', NAME_IN_TUPLE, lambda x, g: sp.select_from((x, 'al'))),
    P('insert_into(x)', NAME - FALSE, lambda x, g: sp.insert_into(x).values(a=1)),
    P('update(x)', NAME - FALSE, lambda x, g: sp.update(x).set(a=1).where(b=1)),
    P('delete_from(x)', NAME - FALSE, lambda x, g: sp.delete_from(x).where(b=1)),
    P('delete(x)', NAME - FALSE, lambda x, g: sp.delete(x).from_('t').where(b=1)),
    P('query | x', ALL - {'relation'}, lambda x, g: sp.select(col(g)) | x),
    P('query & x', ALL - {'relation'}, lambda x, g: sp.select(col(g)) & x),
    P('Q & x', ALL, lambda x, g: condition(g) & x, operator=True),
    P('Q | x', ALL, lambda x, g: condition(g) | x, operator=True),
    P('Q & text', ['text'], lambda x, g: condition(g) & g.pick([g.string(), '1=1', 'a']), operator=True),
    P('Q | text', ['text'], lambda x, g: condition(g) | g.pick([g.string(), '1=1', 'a']), operator=True),
    P('where(Q | text)', ['text'], lambda x, g: sp.select_from('t').where(condition(g) | g.pick(['1=1', 'a', g.string()])), operator=True),
    P('union | x', ALL - {'relation'}, lambda x, g: (sp.select(col(g)) & sp.select(col(g))) | x),
]
EQ_OK = {'bool', 'true', 'date', 'datetime'} | NUMBER
REL_KINDS = {}
for _r in ('EQ', 'NE', 'EQUAL_TO', 'NOT_EQUAL_TO'):
    REL_KINDS[_r] = ALL - EQ_OK
for _r in ('GT', 'GE', 'LT', 'LE', 'GRATHER_THAN', 'LESS_THAN_OR_EQUAL_TO'):
    REL_KINDS[_r] = ALL - (EQ_OK - {'bool', 'true'})
for _r in ('LIKE', 'NOT_LIKE', 'REGEXP'):
    REL_KINDS[_r] = set(ALL)
for _r in ('IN', 'NOT_IN'):
    REL_KINDS[_r] = (ALL - SEQ - SHAPES - {'bytes', 'bytearray', 'memoryview', 'set', 'frozenset', 'iter', 'map', 'zip', 'dictkeys', 'dictitems', 'proxy', 'iterable'}) | EMPTY | {'emptydict', 'badlist'}
for _r in ('IS', 'IS_NOT'):
    REL_KINDS[_r] = ALL - {'none', 'bool', 'true'}
for _r, _k in REL_KINDS.items():
    POS.append(P('where(col, %s(x))' % _r, _k, lambda q, x, g, r=_r: q.where(col(g), getattr(rel, r)(x)), need=ALLQ))
    POS.append(P('having(col=%s(x))' % _r, _k, lambda q, x, g, r=_r: q.having(**{g.key(): getattr(rel, r)(x)})))
    POS.append(P('on(col, %s(x))' % _r, _k, lambda q, x, g, r=_r: q.on(col(g), getattr(rel, r)(x)), need=ALLQ, also='join'))
    FREE.append(P('Q(col, %s(x))' % _r, _k, lambda x, g, r=_r: sp.Q(col(g), getattr(rel, r)(x))))
for _r in ('IN', 'NOT_IN'):
    POS.append(P('where(col, %s(.., x))' % _r, ITEM, lambda q, x, g, r=_r: q.where(col(g), getattr(rel, r)(1, x)), need=ALLQ))
    POS.append(P('where(col, %s([.., x]))' % _r, ITEM, lambda q, x, g, r=_r: q.where(col(g), getattr(rel, r)(inlist(g, x))), need=ALLQ))
    POS.append(P('where(col, %s())' % _r, ['text'], lambda q, x, g, r=_r: q.where(col(g), getattr(rel, r)()), need=ALLQ))

PAIRS = [(p, k) for p in POS + FREE for k in p.kinds]


def make(g, p, kind):
    if kind not in KINDS:
        return None
    x = KINDS[kind](g)
    while p.truthy and not x:
        x = KINDS[kind](g)
    return x


def join(g, q):
    return getattr(q, g.pick(['join', 'inner_join', 'left_join', 'right_join']))


def inlist(g, x):
    l = [g.pick([1, 'a', None]) for _ in range(g.r.randrange(3))] + [x] + [g.pick([1, 'b']) for _ in range(g.r.randrange(2))]
    return g.pick([lambda: l, lambda: tuple(l), lambda: (i for i in l)])()


_ORDERED = []


def ordered(g, q):
    """A column, perhaps one already ordered by."""
    return g.pick(_ORDERED) if _ORDERED and g.p(0.4) else col(g)


def build(g, d, need, also):
    """A random query of a needed kind that renders."""
    kind = g.pick(need) if isinstance(need, tuple) else need
    depth = g.pick([0, 0, 1])
    if kind == 'select':
        sh = g.new_select(depth)
    elif kind == 'insert':
        sh = g.new_insert()
        sh.pool = g.unique(3)
        sh.apply(g.insert_op(sh, d, sh.pool), d)
    elif kind == 'update':
        sh = g.new_update()
        sh.apply(g.set_op('set', 0))
        sh.apply(Op('allow_update_all', [], {}, None))
    else:
        sh = g.new_delete(depth)
        sh.apply(Op('allow_delete_all', [], {}, None))
    more(g, sh, d)
    if also in ('table', 'join') and not (sh.refs if kind == 'delete' else sh.tables).items:
        sh.apply(Op('from_', ['tt'], {}, [('tt', None)]), d)
    if also == 'outfile':
        sh.apply(Op('into_outfile', ['of'], {}, Val('of')), d)
    if also == 'join':
        t = (sh.refs if kind == 'delete' else sh.tables)
        if not t.items[-1].joins:
            op = Op('join', ['jj'], {}, None)
            op.content = ('jj', None)
            sh.apply(op, d)
    return sh


SINGLE = ('limit', 'offset', 'into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by')


def more(g, sh, d, n=None):
    out = []
    for _ in range(g.r.randrange(0, 4) if n is None else n):
        for op in pool.ops(g, sh, d, 0):
            if op.method.startswith('forbid_'):
                continue
            sh.apply(op, d)
            out.append(op)
    return out


def condition(g):
    return g.pick([lambda: sp.Q(a=1), lambda: sp.Q(a=1, b='x'), lambda: sp.Q(a=1) | sp.Q(b=2), lambda: sp.Q(a=1) & (sp.Q(b=2) | sp.Q(c=3)), lambda: sp.Q()])()


def refused(f, what, operator=False, **data):
    """Run f; None if it returned, else the kind of refusal; anything but InvalidArgumentException is a violation."""
    try:
        try:
            r = f()
        except TypeError:
            if operator:
                return True, None
            raise
    except exc.InvalidArgumentException as e:
        str(e), repr(e)
        return True, None
    except Exception as e:
        raise Violation('%s: %s instead of InvalidArgumentException: %s' % (what, type(e).__name__, str(e)[:300]), **data)
    return False, r


def must_refuse(o, what, M, g, **data):
    for how in [g.pick(HOWS), 'str']:
        no, text = refused(lambda: render(o, how) if how != 'repr' else repr(o), what, **data)
        if not no:
            raise Violation('%s: accepted and rendered' % what, sql=text, **data)
    M['refused by rendering'] += 1


def case(rng, M, ctx, i=None):
    g = G(rng)
    d = g.pick(DIALECTS)
    p, kind = g.pick(PAIRS)
    if p.also in DIALECTS:
        d = p.also
    configure(d)
    x = make(g, p, kind)
    what = '%s with x = %s under %s' % (p.name, kind, d)
    ctx['position'], ctx['kind'], ctx['dialect'], ctx['x'] = p.name, kind, d, safe(x)
    M['pairs covered'] += 1
    if p in FREE:
        no, o = refused(lambda: p.f(x, g), what, p.operator)
        if no:
            M['refused by the call'] += 1
            M.saw('%s|%s|call|%s' % (p.name, kind, d))
            return
        M.saw('%s|%s|rendering|%s' % (p.name, kind, d))
        must_refuse(o, what, M, g)
        embed(g, o, what, M)
        return
    sh = build(g, d, p.need, p.also)
    q = sh.build()
    ctx['query'] = sh
    _ORDERED[:] = [c for c, _ in sh.order.items if isinstance(c, str)] if sh.kind == 'select' else []
    before = compare(q, sh, d)
    no, r = refused(lambda: p.f(q, x, g), what)
    M.saw('%s|%s|%s|%s|%s' % (p.name, kind, 'call' if no else 'rendering', d, before))
    if no:
        M['refused by the call'] += 1
        if not p.single:
            try:
                str(q)
            except exc.SqlPuzzleException as e:
                raise Violation('%s: refused by the call, and the query can no longer be rendered: %s' % (what, e))
            return
        text = str(q)
        if text != before:
            raise Violation('%s: refused, and yet the query changed' % what, before=before, after=text)
        for op in more(g, sh, d):
            op.run(q)
        compare(q, sh, d)
        M['went on as if not called'] += 1
        return
    if r is not q:
        raise Violation('%s: the builder call did not return the query' % what)
    must_refuse(q, what, M, g)
    if kind not in UNCOPYABLE:
        must_refuse(q.copy(), what + ' (copy)', M, g)
    embed(g, q, what, M)
    if sh.kind != 'insert' or d != 'sqlite':
        for op in more(g, sh, d):
            if op.method in SINGLE and p.name.startswith(op.method + '('):
                continue                                 # replaces what is refused
            no, _ = refused(lambda: op.run(q), what + ' (more calls)')       # later calls may compare with what is refused
        must_refuse(q, what + ' (after more calls)', M, g)


def embed(g, o, what, M):
    """A refused thing stays refused inside another query."""
    name = type(o).__name__
    if name in ('Select', 'Union'):
        outer = g.pick([lambda: sp.select_from((o, 'x')), lambda: sp.select(o), lambda: sp.select_from('t').where('a', o), lambda: sp.select('a') | o,
                        lambda: sp.select_from('t').where(sp.exists(o)), lambda: sp.update('t').set(a=o).where(b=1),
                        lambda: sp.insert_into('t').values(a=o), lambda: sp.select_from('t').join((o, 'j')), lambda: sp.select_from('t').where(a=rel.IN(o))])
    elif name in ('Insert', 'Update', 'Delete'):
        return
    elif name in ('Conditions', 'Not', 'Exists'):
        outer = g.pick([lambda: sp.select_from('t').where(o), lambda: sp.select_from('t').having(o), lambda: sp.delete_from('t').where(o),
                        lambda: sp.select_from('t').where(a=1).where(o).limit(1), lambda: sp.select(o)])
    else:
        outer = g.pick([lambda: sp.select(o), lambda: sp.select_from('t').where(o, 1), lambda: sp.select_from('t').where(a=rel.EQ(o)),
                        lambda: sp.select_from('t').order_by(o), lambda: sp.select('a').from_('t').group_by(o), lambda: sp.insert_into('t').values(a=o),
                        lambda: sp.update('t').set(a=o).where(b=1), lambda: sp.select((o, 'al')), lambda: sp.select(sp.sum(o)), lambda: sp.select(sp.concat(o, 'a')),
                        lambda: sp.select_from('t').where(a=1).where(o, 'x')])
    no, q = refused(outer, what + ' (embedded)')
    if not no:
        must_refuse(q, what + ' (embedded)', M, g)
    M['embedded'] += 1


def safe(x):
    try:
        return repr(x)
    except Exception:
        return type(x).__name__


def extra(seed, tier, M, deadline):
    """Every pair at least once, and the calls that need a table."""
    import random
    for n, (p, kind) in enumerate(PAIRS):
        for d in ([p.also] if p.also in DIALECTS else DIALECTS):
            g = G(random.Random('%s:%s:%s' % (seed, n, d)))
            M['extra cases'] += 1
            configure(d)
            x = make(g, p, kind)
            what = '%s with x = %s (%s) under %s' % (p.name, kind, safe(x), d)
            del _ORDERED[:]
            try:
                if p in FREE:
                    no, o = refused(lambda: p.f(x, g), what, p.operator)
                else:
                    need = p.need[0] if isinstance(p.need, tuple) else p.need
                    q = {'select': lambda: sp.select('k').from_('t'), 'update': lambda: sp.update('t').set(k=1).allow_update_all(),
                         'delete': lambda: sp.delete_from('t').allow_delete_all(), 'insert': lambda: sp.insert_into('t').values(k=1)}[need]()
                    if p.also == 'join':
                        q.join('j')
                    if p.also == 'outfile':
                        q.into_outfile('of')
                    before = str(q)
                    no, o = refused(lambda: p.f(q, x, g), what)
                    if no and p.single and str(q) != before:
                        raise Violation('%s: refused, and yet the query changed' % what, before=before, after=str(q))
                if not no:
                    must_refuse(o, what, M, g)
            except Violation as e:
                yield dict(case=-1, what=e.what, data={k: str(v) for k, v in e.data.items()}, context={})
                return
    for d in DIALECTS:
        configure(d)
        for name, f in (('on() without join', lambda: sp.select('a').from_('t').on('a', 'b')), ('on() without table', lambda: sp.select('a').on('a', 'b')),
                        ('join() without table', lambda: sp.select('a').join('t')), ('left_join() without table', lambda: sp.select('a').left_join('t')),
                        ('right_join() without table', lambda: sp.select('a').right_join(('t', 'x'))), ('on() without join (update)', lambda: sp.update('t').set(a=1).on('a', 'b')),
                        ('on() without join (delete)', lambda: sp.delete_from('t').on('a', 'b')), ('inner_join() without table', lambda: sp.select('a').inner_join('t')),
                        ('full_join() without table', lambda: sp.select('a').full_join('t')), ('join() without table (delete)', lambda: sp.delete('t').join('t')),
                        ('on() after a second table', lambda: sp.select('a').from_('t').join('j').on('a', 'b').from_('u').on('a', 'b'))):
            no, o = refused(f, name)
            if not no:
                yield dict(case=-1, what='%s is accepted under %s' % (name, d), data={'sql': str(o)}, context={})
                return
            M['extra cases'] += 1
    configure('sql')


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
