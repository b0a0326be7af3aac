"""Seeded generators of names, values, conditions, calls and queries."""
import collections
import datetime
import string
from decimal import Decimal

from . import mine
from .shadow import (JOINS, OPTION_GROUP, Op, ShDelete, ShInsert, ShJoin, ShSelect, ShTable, ShUnion, ShUpdate, ambiguous, unclear)
from .spec import (Pair, Pairs, Row, Tup,
                   Cond, ConcatFn, ConvertFn, Cust, ExistsT, Fn, NotT, QT, RW, RelA, Seq, Sub, VW, Val, quoted_ref)

DIALECTS = ('sql', 'mysql', 'postgresql', 'sqlite')

SIMPLE = ['a', 'b', 'c', 'd', 'id', 'name', 'user_id', 'tbl', 'x1', 'Y', 'col', 'price', 'created_at', 'u', 't2']
KEYWORDISH = ['select', 'from', 'where', 'group', 'order', 'by', 'desc', 'ASC', 'limit', 'offset', 'union', 'null', 'true',
              'options', 'args', 'kwds', 'column_name', 'value', 'func', 'table', 'alias', 'key', 'values', 'item',
              'AND', 'OR', 'not', 'in', 'is', 'count', 'columns', 'expr', 'column', 'sort', 'default', 'set', 'update']
ODD = ['with space', ' lead', 'trail ', '%s', '%(x)s', '100%', '{0}', '{col}', '{', '}', 'a;b', '--', '/*c*/', "it's", "'",
       'a\\b', '\\', 'new\nline', 'tab\tx', 'ř', 'Ünïcødé', '表', '😀', 'a-b', 'a+b', '(x)', ')', '(', 'a,b', ',', '=', '1',
       '0', '12ab', '$1', ':x', '?', '@v', '#h', 'x=1', "');", 'NULL', 'None', 'True', 'a' * 64, 'b' * 130, '\u2028',
       '\u00a0', 'ﬁ', 'e\u0301', '[x]', '<y>', '&', '|', '!', '~', '^', '_', '__class__', 'a_', 'A', 'İ', 'ß']
HOSTILE = ["'", "''", "'''", "\\", "\\\\", "\\'", "'\\", "\\''", "' OR 1=1 --", "'; DROP TABLE t; --", "x' OR 'x'='x",
           "\n", "\r", "\r\n", "\t", "\\n", "\\\n", "%", "_", "%%", "%s", "%d", "%(where)s", "{}", "{0}", "{", "}}", "--",
           "/*", "*/", "/* x */", "#", ";", "(", ")", "NULL", "null", "true", "1", "0", "", " ", "  ", "\\x41", "\\u0041",
           "E'x'", "x'00'", "*", "a.b", "t.*", "SELECT 1", "é", "Ünïcødé", "表", "😀", "\u2028", "\u00a0", "\x01", "\x1a",
           "\x7f", "\b", "\f", "a'b\"c`d", "O'Brien", "C:\\new\\table", "it''s", "\\0", "\\b\\t", "?", "$1", ":x", "@x",
           "\ufeff", "e\u0301", "ﬁ", "x" * 255, "x" * 256, "'" * 7, "\\" * 5, "a\nb\nc", "trailing\\", "trailing'",
           "'leading", "\\leading", "\"", "\"\"", "`", "``", "a\"b", "a`b", "`a", "\"a", "a\"", "None", "True", "-1", "1.5",
           "2020-01-01", "\ud7ff", "\U0010ffff"]
ALPH = "ab'\\\n\"`%_{}();-.*, \t\r0xné😀/#:=" + string.ascii_letters
CONVERT_TYPES = ['unsigned', 'signed', 'char', 'DATE', 'Decimal(5,2)', 'char(10)', 'binary', 'time', 'signed integer', 'char character set utf8',
                 'char(3) character set latin1', 'enum(x, y)', "set('a','b')", 'varchar(max)', 'double precision', 'timestamp(3) with time zone',
                 'char (10)', 'numeric ( 5 , 2 )', 'Decimal(10, 2)', 'DECIMAL (10,2) unsigned']
FRESH = iter(range(1, 10**9))


class Whole(int):
    """A whole number that does not read as one, like the members of (int, Enum)."""

    def __repr__(self):
        return 'Whole(%s)' % int(self)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class G:
    def __init__(self, rng, big=False):
        self.r = rng
        self.n = 0
        self.big = big
        self.parts, self.strings = [], []
        # Some histories dwell on a few kinds of calls.
        self.focus = ()
        if rng.random() < 0.12:
            self.focus = rng.choice([('join', 'on', 'dup'), ('where', 'having'), ('group', 'order', 'columns'), ('limit', 'option'), ('set', 'where'),
                                     ('allow', 'forbid', 'where', 'ignore'), ('from_', 'from', 'join', 'on'), ('outfile', 'option')])

    def kind(self, w):
        return self.wpick(*[(v * 8 if n in self.focus else v, n) for n, v in w.items()])

    # ------------------------------------------------------------ small helpers
    def p(self, x):
        return self.r.random() < x

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def wpick(self, *pairs):
        tot = sum(w for w, _ in pairs)
        x = self.r.random() * tot
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]

    def count(self, lo=1, hi=4, long=0.03):
        """A small count, now and then a large one (round sizes, sizes named in the code)."""
        if self.r.random() < long:
            return max(lo, self.size(40 if not self.big else 300))
        n = lo
        while n < hi and self.p(0.55):
            n += 1
        return n

    def size(self, cap=1100):
        pool = [s for s in mine.SIZES if s <= cap]
        if pool and self.p(0.5):
            return self.pick(pool)
        return min(cap, self.pick([5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 31, 32, 33, 50, 64, 65, 99, 100, 101, 128,
                                   129, 200, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001]))

    # ------------------------------------------------------------ names
    def part(self):
        """One name component without dots or identifier quotes."""
        if self.parts and self.p(0.08):
            s = self.relative(self.pick(self.parts))
            s = ''.join(c for c in s if c not in '."`')
            s = s if s and s != '*' else 'm'
        else:
            s = self._part()
        self.parts = self.parts[-7:] + [s]
        return s

    def relative(self, s):
        """A text like the given one: the same, extended, shortened, in another case."""
        k = self.r.randrange(9)
        if k < 3:
            return s + self.pick(['_id', 's', '2', '_', ' ', '1', 'x'] + mine.STRINGS)
        if k == 3:
            return self.pick(['x', '_', 'a', 't_'] + mine.STRINGS) + s
        return [s, s, s.upper(), s.swapcase(), s[:-1] or s, s[1:] or s, s + s, s[::-1]][self.r.randrange(8)]

    def _part(self):
        k = self.r.random()
        if k < 0.5:
            return self.pick(SIMPLE)
        if k < 0.65:
            return self.pick(KEYWORDISH)
        if k < 0.85:
            return self.pick(ODD)
        if k < 0.93 and mine.STRINGS:
            s = ''.join(c for c in self.pick(mine.STRINGS) if c not in '."`')
            return s if s and s != '*' else 'm'
        n = self.pick([1, 2, 3, 5, 8]) if self.p(0.97) else self.size(600)
        s = ''.join(self.pick("abcXYZ_019 -%'\\;éß表") for _ in range(n))
        return s or 'z'

    def name(self, dots=0.2):
        n = self.part()
        while self.p(dots) and n.count('.') < 2:
            n = self.part() + '.' + n
        return n

    def simple(self):
        return self.pick(SIMPLE)

    def key(self):
        """A name usable as a keyword argument of a builder method."""
        n = self.name()
        return n if n != 'self' else 'self_'

    def unique(self, n, f=None):
        out = []
        tries = 0
        while len(out) < n:
            x = (f or self.name)()
            tries += 1
            if tries > 3 * n + 10:
                x = '%s_%d' % (x, len(out))
            if x not in out:
                out.append(x)
        return out

    # ------------------------------------------------------------ scalar values
    def string(self):
        s = self._string()
        # Strings that are, or nearly are, quoted references are the business of C01.
        t = s.strip()
        return s if not t or t[0] not in '"`' else 'q' + s

    def _string(self):
        if self.strings and self.p(0.08):
            s = self.pick(self.strings)
            s = s if self.p(0.4) else self.relative(s)
        else:
            s = self._new_string()
        if len(s) < 100:
            self.strings = self.strings[-7:] + [s]
        return s

    def _new_string(self):
        k = self.r.random()
        if k < 0.25:
            return self.pick(SIMPLE)
        if k < 0.6:
            return self.pick(HOSTILE)
        if k < 0.7 and mine.STRINGS:
            return self.pick(mine.STRINGS)
        if k < 0.78:
            return self.pick(HOSTILE) + self.pick(HOSTILE)
        if k < 0.985:
            return ''.join(self.pick(ALPH) for _ in range(self.r.randrange(0, 14)))
        n = self.size(1100) if self.p(0.8) else self.pick([1024, 4096, 5000, 9999, 65535, 65536] + mine.BIG_SIZES)
        base = ''.join(self.pick(ALPH) for _ in range(min(n, 50)))
        return (base * (n // max(1, len(base)) + 1))[:n]

    def rnd_string(self, n):
        return ''.join(self.pick(ALPH) for _ in range(n))

    def int_(self):
        k = self.r.random()
        if k < 0.4:
            return self.r.randrange(-5, 100)
        if k < 0.6:
            return self.pick([0, 1, -1, 2, 10, 99, 100, 255, 256, 1000, 1001, -1000, 12345, 65535, 65536, 2**31 - 1, 2**31,
                              -2**31, 2**32, 2**53, 2**53 + 1, 2**63 - 1, -2**63, 10**6, 10**9, 10**12])
        if k < 0.75 and mine.INTS:
            return self.pick(mine.INTS)
        if k < 0.97:
            return self.r.randrange(-10**9, 10**9)
        return self.pick([2**63, 2**64, 10**30, -10**40, 3**200])

    def float_(self):
        k = self.r.random()
        if k < 0.3:
            return self.r.randrange(-1000, 1000) / self.pick([1, 2, 4, 8, 3, 7, 10, 100])
        if k < 0.6:
            return self.pick([0.0, -0.0, 0.1, 0.5, 1.5, 2.5, -1.5, 1e-5, 5e-6, 4.9e-6, 1e-6, 1e-10, 1e-300, 0.000005, 0.999995,
                              0.999994, 1e5, 1e10, 1e15, 1e16, 1e17, 1e22, 123456.789, 9.999999, -9.999995, 1e100, 1.7e308,
                              3.141592653589793, 0.00001, 100000.0, 1 / 3, 5e-324])
        if k < 0.7 and mine.FLOATS:
            return self.pick(mine.FLOATS)
        return self.r.uniform(-1, 1) * 10 ** self.r.randrange(-8, 18)

    def decimal_(self):
        k = self.r.random()
        if k < 0.5:
            return Decimal(self.r.randrange(-10**6, 10**6)).scaleb(-self.r.randrange(0, 8))
        return self.pick([Decimal('0'), Decimal('-0'), Decimal('1.1'), Decimal('0.000005'), Decimal('0.000015'),
                          Decimal('0.000004999'), Decimal('1E+3'), Decimal('1E-7'), Decimal('123456789012345678901234567890.12345'),
                          Decimal('-99999.999995'), Decimal('99.99'), Decimal('1E+25'), Decimal('12345678.123455'),
                          Decimal('0.1') ** 4, Decimal('9' * 40), Decimal('1.00000')])

    def date_(self):
        if self.p(0.3):
            return self.pick([datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.date(2000, 2, 29),
                              datetime.date(1970, 1, 1), datetime.date(999, 9, 9), datetime.date(2011, 5, 25)])
        return datetime.date(self.r.randrange(1, 9999), self.r.randrange(1, 13), self.r.randrange(1, 29))

    def datetime_(self):
        tz = None
        if self.p(0.25):
            tz = datetime.timezone(datetime.timedelta(minutes=self.r.randrange(-720, 840), seconds=self.r.randrange(60) if self.p(0.1) else 0,
                                                      microseconds=self.r.randrange(10**6) if self.p(0.03) else 0))
            if self.p(0.2):
                tz = datetime.timezone.utc
        us = self.wpick((3, 0), (1, self.r.randrange(10**6)), (1, self.r.randrange(1000)), (1, self.r.randrange(1000) * 1000))
        d = self.date_()
        return datetime.datetime(d.year, d.month, d.day, self.pick([0, 0, 23, 12, self.r.randrange(24)]),
                                 self.pick([0, self.r.randrange(60)]), self.pick([0, 59, self.r.randrange(60)]), us, tz, fold=int(self.p(0.08)))

    def bytes_(self):
        return self.pick([b'', b'\x00', b'\xff', b"'", b'\\', b'abc', bytes(range(256)), b'\x00\x01\x02', b'\n', b'"',
                          bytes(self.r.randrange(256) for _ in range(self.r.randrange(0, 20)))])

    def scalar(self, kinds='sifdbDTnB'):
        """A Val; kinds: s str, i int, f float, d Decimal, b bool, D date, T datetime, n None, B bytes."""
        k = self.pick(kinds)
        if k == 's':
            v = self.string()
        elif k == 'i':
            v = self.int_()
        elif k == 'f':
            v = self.float_()
        elif k == 'd':
            v = self.decimal_()
        elif k == 'b':
            v = self.p(0.5)
        elif k == 'D':
            v = self.date_()
        elif k == 'T':
            v = self.datetime_()
        elif k == 'B':
            v = self.bytes_()
        else:
            v = None
        return Val(v)

    def seq(self, kinds='sssiifdbDT', none=0.1, nmax=5, ctors=('list', 'list', 'tuple', 'gen')):
        n = self.count(1, nmax, 0.04)
        ctor = self.pick(list(ctors))
        if self.p(0.06):
            start = self.r.randrange(-10, 100)
            return Seq([Val(start + i) for i in range(n)], 'range')
        one = self.pick(kinds)
        items = [self.scalar(one if self.p(0.8) else kinds) for _ in range(n)]
        if self.p(none):
            items.insert(self.r.randrange(len(items) + 1), Val(None))
        if self.p(none * 0.3):
            items = [Val(None)] * self.r.randrange(1, 3)
        return Seq(items, ctor)

    def custom(self):
        inner = self.pick(['1', "'x'", '"q", 2', 'a + 1', "b, 'it''s'", '(1), (2)', '%s', '{0}', '100 % 7', '*'])
        # Texts have to be lexable in all dialects.
        if '{' in inner or '%s' in inner:
            inner = "'" + inner + "'"
        return Cust('CZ%d(%s)' % (self.r.randrange(10**6), inner))

    # ------------------------------------------------------------ objects
    def sub(self, depth=1, simple=False):
        return Sub(self.union(depth) if self.p(0.12) else self.select(depth, ncalls=(0, 3), weights=dict(outfile=0)))

    def fn(self, depth=1):
        k = self.r.random()
        if k < 0.6:
            name = self.pick(['avg', 'count', 'max', 'min', 'sum'])
            if name == 'count' and self.p(0.3):
                args, seq = [], None
            else:
                args, seq = [self.fn_arg(depth)], None
                if self.p(0.12):
                    args = [self.name() for _ in range(self.count(1, 3))]
                    seq = self.pick([list, tuple])
            toggles = [self.pick([(), (True,), (False,)]) for _ in range(self.count(0, 2, 0) if self.p(0.3) else 0)]
            return Fn(name, args, self.p(0.3), toggles, seq)
        if k < 0.85:
            return self.concat(depth)
        return ConvertFn(self.fn_arg(depth), *self.wpick(
            (2, (self.pick(CONVERT_TYPES), [])), (1, (None, [self.pick(CONVERT_TYPES)])),
            (1, (self.pick(CONVERT_TYPES), [self.pick(CONVERT_TYPES) for _ in range(2)]))))

    def fn_arg(self, depth):
        k = self.r.random()
        if k < 0.72 or depth <= 0:
            return self.name()
        if k < 0.78:
            return VW(self.scalar('sifDT'))
        if k < 0.84:
            return RW(self.name())
        if k < 0.9:
            return self.custom()
        if k < 0.95:
            return self.sub(depth - 1)
        return self.fn(depth - 1)

    def concat(self, depth=1, group=None):
        cols = []
        for _ in range(self.count(1, 4)):
            c = self.fn_arg(depth)
            cols.append((c, self.name(0)) if self.p(0.08) else c)
        group = self.p(0.6) if group is None else group
        steps = []
        if group:
            for _ in range(self.count(0, 3, 0)):
                if self.p(0.5):
                    args = []
                    for _ in range(self.count(1, 3)):
                        args.append(self.order_item())
                    steps.append(('order_by', args))
                else:
                    steps.append(('separator', [Val(self.string())]))
        return ConcatFn(cols, group, steps)

    def order_item(self):
        n = self.name()
        return n if self.p(0.5) else (n, self.pick(['asc', 'desc', 'ASC', 'DESC', 'Desc', None]))

    # ------------------------------------------------------------ values and conditions
    def value(self, depth=1, kinds='ssssiiifdbDTnB'):
        """A value for SET / VALUES."""
        k = self.r.random()
        if k < 0.82 or depth <= 0:
            return self.scalar(kinds)
        return self.wpick((3, lambda: VW(self.scalar())), (2, lambda: RW(self.name())), (2, self.custom),
                          (2, lambda: self.sub(depth - 1)), (1, lambda: self.fn(depth - 1)))()

    def cond_value(self, depth=1):
        k = self.r.random()
        if k < 0.4:
            return self.scalar('ssssiiifdbDTn')
        if k < 0.55:
            return self.seq()
        if k < 0.8:
            return self.relation(depth)
        if k < 0.88 or depth <= 0:
            return VW(self.scalar() if self.p(0.7) else self.seq(none=0))
        return self.wpick((2, lambda: RW(self.name())), (2, self.custom), (2, lambda: self.sub(depth - 1)),
                          (1, lambda: self.fn(depth - 1)))()

    def relation(self, depth=1, names=None):
        name = self.pick(names or ['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IN', 'IN', 'NOT_IN',
                                   'NOT_IN', 'IS', 'IS_NOT', 'EQUAL_TO', 'NOT_EQUAL_TO', 'GRATHER_THAN',
                                   'GRATHER_THAN_OR_EQUAL_TO', 'LESS_THAN', 'LESS_THAN_OR_EQUAL_TO'])
        if name in ('IN', 'NOT_IN'):
            k = self.r.random()
            if k < 0.75 or depth <= 0:
                s = self.seq(none=0.3)
                if self.p(0.3) and len(s.items) > 1:
                    return RelA(name, Seq(s.items, 'tuple'), spread=True)
                return RelA(name, s)
            return RelA(name, self.wpick((3, lambda: self.sub(depth - 1)), (1, self.custom),
                                         (1, lambda: VW(self.seq(none=0))))())
        if self.p(0.12) and depth > 0:
            return RelA(name, self.wpick((2, lambda: VW(self.scalar('sifDT'))), (2, lambda: RW(self.name())),
                                         (1, self.custom), (1, lambda: self.sub(depth - 1)))())
        if name in ('LIKE', 'NOT_LIKE', 'REGEXP'):
            return RelA(name, self.scalar('s'))
        if name in ('IS', 'IS_NOT'):
            return RelA(name, Val(self.pick([None, None, True, False])))
        if name in ('EQ', 'NE', 'EQUAL_TO', 'NOT_EQUAL_TO'):
            return RelA(name, self.scalar('ssiifdbDT'))
        return RelA(name, self.scalar('ssiifdDT'))

    def cond(self, depth=1, col=None):
        if col is None:
            col = self.name()
            if depth > 0 and self.p(0.06):
                col = self.wpick((2, self.custom), (2, lambda: self.fn(depth - 1)), (2, lambda: RW(self.name())),
                                 (1, lambda: VW(self.scalar('sifDT'))), (1, lambda: self.sub(depth - 1)))()
        return Cond(col, self.cond_value(depth))

    def conds(self, n, depth=1, near=0.07):
        cols = self.unique(n)
        out = [Cond(c, self.cond_value(depth)) if self.p(0.95) else self.cond(depth) for c in cols]
        if out and self.p(near):
            x = self.pick(out)
            out.insert(self.r.randrange(len(out) + 1), Cond(x.col, self.near_value(x.val)))
        return out

    def qterm(self, depth=2):
        """A condition term: Cond list content expressed as Q / Not / exists / combination."""
        k = self.r.random()
        if depth <= 0 or k < 0.45:
            parts = self.conds(self.count(1, 3, 0.01), min(depth, 1))
            if depth > 0 and self.p(0.2):
                parts = [self.qterm(depth - 1) for _ in range(self.count(1, 3, 0))]
                if self.p(0.3):
                    x = self.sibling(self.pick(parts))
                    parts.append(x if isinstance(x, QT) else self.leaf([x]))
                if all(isinstance(x, QT) for x in parts):
                    extra = self.conds(self.count(0, 1, 0), 0, near=0) if self.p(0.4) else []
                    kw = {c.col: c.val for c in extra if isinstance(c.col, str) and c.col != 'self'}
                    extra = [c for c in extra if isinstance(c.col, str) and c.col != 'self']
                    return QT('leaf', parts + extra, (parts, kw))
                parts = parts[:1]
                return QT('leaf', parts, (parts, {}))
            call, order = self.cond_call(parts)
            return QT('leaf', order, call)
        if k < 0.9:
            a, b = self.qterm_q(depth - 1), self.qterm_q(depth - 1)
            if self.p(0.08):
                # The same condition in two places of one tree.
                inner = QT(self.pick(['and', 'or']), [a, b])
                again = self.pick([a, b])
                return QT(self.pick(['and', 'or']), [inner, again] if self.p(0.5) else [again, inner])
            return QT(self.pick(['and', 'or', 'or']), [a, b])
        if k < 0.96:
            parts = self.conds(self.count(1, 3, 0), 0)
            if self.p(0.3):
                parts = [self.qterm_q(depth - 1) for _ in range(self.count(1, 2, 0))]
                return NotT(parts, (parts, {}))
            call, order = self.cond_call(parts)
            return NotT(order, call)
        return ExistsT(self.select(depth - 1, ncalls=(0, 2)))

    def qterm_q(self, depth):
        """A term that is a Q object (usable with & and |)."""
        for _ in range(4):
            t = self.qterm(depth)
            if isinstance(t, QT):
                return t
        return QT('leaf', [t], ([t], {}))

    def box(self, call):
        """The same call, now and then with containers of types derived from list, tuple and dict."""
        if self.r.random() >= 0.06:
            return call
        args, kwds = call

        def conv(x, depth):
            if depth < 2 and isinstance(x, (list, tuple)):
                x = type(x)(conv(i, depth + 1) for i in x)
            if type(x) is dict:
                return self.pick([collections.OrderedDict, Row])(x)
            if type(x) is list:
                return Pairs(x)
            if type(x) is tuple:
                return Pair(*x) if len(x) == 2 and self.p(0.7) else Tup(x)
            return x
        return [conv(a, 0) if self.p(0.7) else a for a in args], kwds

    def cond_call(self, conds, style=None):
        call, order = self._cond_call(conds, style)
        return self.box(call), order

    def _cond_call(self, conds, style=None):
        """Express conditions in some calling style; returns ((args, kwds), conditions in expected order)."""
        n = len(conds)
        cols = [c.col for c in conds]
        strs = all(isinstance(c, str) for c in cols)
        uniq = strs and len(set(cols)) == n
        kwok = uniq and 'self' not in cols
        styles = ['list']
        if n == 0:
            styles = ['none', 'elist', 'edict']
        if n == 1 and not isinstance(cols[0], (list, tuple)):
            styles += ['pos2', 'pos2']
        if n >= 2:
            styles += ['tuples', 'ltuples']
        if uniq:
            styles += ['dict', 'dict']
        elif n == 1 and not isinstance(cols[0], Sub):
            styles += ['dict']
        if kwok:
            styles += ['kwargs', 'kwargs', self.pick(['edict+kw', 'elist+kw', 'kwargs'])]
        if n >= 2 and strs:
            if uniq:
                styles += ['dict+kw'] if kwok else []
            if kwok:
                styles += ['pos2+kw', 'list+kw']
                if n >= 3:
                    styles += ['tuples+kw']
        style = style or self.pick(styles)
        pair = lambda c: (c.col, c.val)                                   # noqa: E731
        srt = lambda cs: sorted(cs, key=lambda c: c.col) if len(cs) > 1 else list(cs)    # noqa: E731
        shuffled = list(conds)
        self.r.shuffle(shuffled)
        if style == 'none':
            return ([], {}), conds
        if style == 'elist':
            return ([[]], {}), conds
        if style == 'edict':
            return ([{}], {}), conds
        if style == 'pos2':
            return ([conds[0].col, conds[0].val], {}), conds
        if style == 'list':
            return ([self.pick([list, tuple])(pair(c) if self.p(0.8) else list(pair(c)) for c in conds)], {}), conds
        if style == 'tuples':
            return ([pair(c) for c in conds], {}), conds
        if style == 'ltuples':
            return ([list(pair(c)) for c in conds], {}), conds
        if style == 'dict':
            return ([dict(pair(c) for c in shuffled)], {}), srt(conds)
        if style == 'kwargs':
            return ([], dict(pair(c) for c in shuffled)), srt(conds)
        if style == 'edict+kw':
            return ([{}], dict(pair(c) for c in shuffled)), srt(conds)
        if style == 'elist+kw':
            return ([self.pick([list, tuple])()], dict(pair(c) for c in shuffled)), srt(conds)
        k = self.r.randrange(1, n)
        if style == 'dict+kw':
            return ([dict(pair(c) for c in shuffled[:k])], dict(pair(c) for c in shuffled[k:])), \
                srt(shuffled[:k]) + srt(shuffled[k:])
        if style == 'pos2+kw':
            return ([conds[0].col, conds[0].val], dict(pair(c) for c in conds[1:])), [conds[0]] + srt(conds[1:])
        if style == 'list+kw':
            return ([[pair(c) for c in conds[:k]]], dict(pair(c) for c in conds[k:])), conds[:k] + srt(conds[k:])
        if style == 'tuples+kw':
            k = max(2, k)
            return ([pair(c) for c in conds[:k]], dict(pair(c) for c in conds[k:])), conds[:k] + srt(conds[k:])
        raise AssertionError(style)

    def where_op(self, method='where', depth=1):
        k = self.r.random()
        if k < 0.62:
            n = self.count(1, 4, 0.03)
            call, order = self.cond_call(self.conds(n, depth))
            return Op(method, *call, content=order)
        if k < 0.66:
            call, _ = self.cond_call([])
            return Op(method, *call, content=[])
        if k < 0.9:
            t = self.qterm(depth + 1)
            return Op(method, [t], {}, [t])
        if k < 0.96:
            ts = [self.qterm_q(depth) for _ in range(self.count(2, 3, 0))]
            if self.p(0.3):
                x = self.sibling(self.pick(ts))
                ts.append(x if isinstance(x, QT) else self.leaf([x]))
            extra = [c for c in self.conds(1, 0, near=0) if isinstance(c.col, str) and c.col != 'self'] if self.p(0.5) else []
            return Op(method, ts, {c.col: c.val for c in extra}, ts + extra)
        t = self.custom()
        return Op(method, [t], {}, [t])

    # ------------------------------------------------------------ near-duplicates
    def tweak(self, v):
        """A scalar of the same type that differs a little."""
        if isinstance(v, str):
            k = self.r.random()
            i = self.r.randrange(len(v) + 1)
            out = (v + self.pick(['a', ' ', '%', "'", '1']) if k < 0.3 else v[:-1] if k < 0.45 and len(v) > 1 else v.swapcase() if k < 0.7
                   else v[:i] + self.pick(['z', ' ', '\\', "'", '_', '\n']) + v[i + self.r.randrange(2):])
            return out if out != v else v + 'x'
        if v is None:
            return True
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return self.pick([v + 1, v - 1, -v if v else 1, v + 10, v + 2**32, v + 2**64])
        if isinstance(v, float):
            return round(v + self.pick([1, 3e-5, 0.015]), 5) if abs(v) < 1e9 else 0.5
        if isinstance(v, Decimal):
            return v + self.pick([1, Decimal('0.00003'), Decimal('0.01')]) if abs(v) < 10**9 else -v
        if isinstance(v, datetime.datetime):
            return self.pick([lambda: v.replace(microsecond=(v.microsecond + 1) % 10**6), lambda: v.replace(second=(v.second + 1) % 60),
                              lambda: v.replace(hour=(v.hour + 12) % 24), lambda: v.replace(day=v.day % 28 + 1),
                              lambda: v.replace(tzinfo=None if v.tzinfo else datetime.timezone.utc)])()
        if isinstance(v, datetime.date):
            return self.pick([lambda: v.replace(day=v.day % 28 + 1), lambda: v.replace(day=1 + v.day % 28, month=v.month % 12 + 1),
                              lambda: v.replace(day=1 + v.day % 28, year=v.year % 9999 + 1)])()
        out = self.pick([v + b'\x00', v.swapcase(), bytes(b ^ 1 if i == len(v) - 1 else b for i, b in enumerate(v)), v[:-1]])
        return out if out != v else v + b' '

    def near_value(self, v, on=False):
        """A value spec close to, but different from v."""
        if isinstance(v, RelA):
            for group in (('EQ', 'NE', 'EQUAL_TO', 'NOT_EQUAL_TO'), ('GT', 'GE', 'LT', 'LE', 'GRATHER_THAN',
                          'GRATHER_THAN_OR_EQUAL_TO', 'LESS_THAN', 'LESS_THAN_OR_EQUAL_TO'), ('LIKE', 'NOT_LIKE', 'REGEXP'),
                          ('IN', 'NOT_IN'), ('IS', 'IS_NOT')):
                if v.name in group and self.p(0.5):
                    return RelA(self.pick([n for n in group if n != v.name]), v.inner, v.spread)
            if v.name in ('IS', 'IS_NOT') or not isinstance(v.inner, (Val, Seq, VW)):
                return v
            return RelA(v.name, self.near_value(v.inner), v.spread and isinstance(v.inner, Seq) and len(v.inner.items) > 1)
        if isinstance(v, Val):
            return Val(self.tweak(v.v)) if v.v is not None else Val('x' if on else 0)
        if isinstance(v, VW):
            return VW(self.near_value(v.inner))
        if isinstance(v, Seq):
            items = list(v.items)
            i = self.r.randrange(len(items))
            k = self.r.random()
            if k < 0.3 and len(items) > 2:
                del items[i]
            elif k < 0.5:
                items.reverse()
            elif k < 0.7 or items[i].v is None:
                items.append(self.pick(items))
            else:
                items[i] = self.near_value(items[i])
            return Seq(items, self.pick(['list', 'tuple']))
        return v

    def leaf(self, parts):
        """A Q object of the given terms."""
        if all(isinstance(p, Cond) for p in parts):
            call, order = self.cond_call(parts)
            return QT('leaf', order, call)
        if len(parts) == 1 or all(isinstance(p, QT) for p in parts):
            return QT('leaf', parts, (parts, {}))
        return self.leaf([p if isinstance(p, QT) else self.leaf([p]) for p in parts])

    def sibling(self, t, on=False):
        """A condition term that is easily mistaken for t."""
        k = self.r.random()
        if isinstance(t, Cond):
            if k < 0.6:
                return Cond(t.col, self.near_value(t.val, on))
            if k < 0.75:
                return Cond(self.name(), t.val)
            if k < 0.85:
                return NotT([t], ([t.col, t.val], {}))
            return self.leaf([t])
        if k < 0.1:
            return NotT([t], ([t if isinstance(t, QT) else self.leaf([t])], {}))
        if isinstance(t, (QT, NotT)):
            parts = list(t.parts)
            if isinstance(t, QT) and t.op != 'leaf':
                if k < 0.45:
                    return QT('or' if t.op == 'and' else 'and', parts)
                if k < 0.6:
                    return QT(t.op, parts[::-1])
                if k < 0.7:
                    return self.pick(parts)
                i = self.r.randrange(2)
                x = self.sibling(parts[i])
                parts[i] = x if isinstance(x, QT) else self.leaf([x])
                return QT(t.op, parts)
            if k < 0.25 and len(parts) > 1:
                return self.leaf(parts[:-1])
            if k < 0.4 and len(parts) == 2:
                return QT('or', [p if isinstance(p, QT) else self.leaf([p]) for p in parts])
            if isinstance(t, NotT) and k < 0.6:
                return self.leaf(parts)
            i = self.r.randrange(len(parts))
            parts[i] = self.sibling(parts[i])
            q = self.leaf(parts)
            return q if isinstance(t, QT) else NotT(q.parts, q.call)
        return self.leaf([t])

    def near_terms(self, method, terms, on=False):
        """An operation repeating (rarely) or varying an earlier condition."""
        t = self.pick(terms)
        if not isinstance(t, (Cond, QT, NotT, ExistsT, Cust)):
            return self.where_op(method)
        if self.p(0.9):
            t = self.sibling(t, on)
        if self.p(0.4):
            # Several Q objects in one call.
            ts = [t, self.sibling(t) if self.p(0.7) else self.pick(terms)]
            if all(isinstance(x, (Cond, QT, NotT, ExistsT, Cust)) for x in ts) and not (on and any(isinstance(x, Cond) for x in ts)):
                ts = [x if isinstance(x, QT) else self.leaf([x]) for x in ts]
                return Op(method, ts, {}, ts)
        if isinstance(t, Cond):
            return Op(method, [[(t.col, t.val)]], {}, [t])
        return Op(method, [t], {}, [t])

    def near_pair(self, item):
        """A column or table easily mistaken for another one."""
        n, a = item
        k = self.r.random()
        if k < 0.3:
            return (n, self.name(0) if a is None else self.pick([None, self.tweak(a), a + '.x', a.upper()]))
        if isinstance(n, Fn):
            if k < 0.6:
                return (Fn(n.name, n.args, not n.distinct_fn, n.toggles, n.seq), a)
            if k < 0.75:
                return (Fn(n.name, n.args, n.distinct_fn, n.toggles + ((False,),), n.seq), a)
            if n.args:
                return (Fn(self.pick(['avg', 'count', 'max', 'min', 'sum']), n.args, n.distinct_fn, n.toggles, n.seq), a)
            return (n, a)
        if isinstance(n, ConcatFn):
            if k < 0.5:
                return (ConcatFn(n.cols[::-1], n.group, n.steps), a)
            if n.group:
                return (ConcatFn(n.cols, True, n.steps[:-1] if k < 0.75 else n.steps + [('separator', [Val(self.string())])]), a)
            return (ConcatFn(n.cols, True), a)
        if isinstance(n, ConvertFn):
            return (ConvertFn(n.expr, n.ctor_type, n.tos + [self.pick(CONVERT_TYPES)]), a)
        if isinstance(n, VW):
            return (VW(self.near_value(n.inner)), a)
        if isinstance(n, RW):
            return (RW(self.tweak(n.name)), a)
        if isinstance(n, str) and '*' not in n:
            return (self.pick([n + 'x', 'x' + n, n.swapcase(), self.simple() + '.' + n]), a)
        return (n, self.name(0))

    # ------------------------------------------------------------ columns, tables, orders
    def pairs_call(self, items):
        call, order = self._pairs_call(items)
        return self.box(call), order

    def _pairs_call(self, items):
        """Calling styles of columns/from/order: items are (name, second|None)."""
        n = len(items)
        strs = all(isinstance(a, str) for a, _ in items)
        uniq = strs and len({a for a, _ in items}) == n
        withsec = all(b is not None for _, b in items)
        nosec = all(b is None for _, b in items)
        styles = ['tuples', 'mixed', 'mixed']
        if nosec:
            styles += ['plain', 'plain', 'plain']
        if n == 1 and withsec and not strs:
            styles += ['dict']
        if n and uniq and withsec:
            styles += ['dict', 'dict']
            if 'self' not in [a for a, _ in items]:
                styles += ['kwargs', 'kwargs']
                if n >= 2:
                    styles += ['dict+kw', 'tuples+kw']
        if n == 0:
            return ([], {}), items
        style = self.pick(styles)
        srt = lambda xs: sorted(xs, key=lambda x: x[0]) if len(xs) > 1 else list(xs)    # noqa: E731
        sh = list(items)
        self.r.shuffle(sh)
        if style == 'plain':
            return ([a for a, _ in items], {}), items
        if style == 'tuples':
            return ([tuple(i) if self.p(0.8) else list(i) for i in items], {}), items
        if style == 'mixed':
            return ([(a if self.p(0.7) else (a,)) if b is None else (a, b) for a, b in items], {}), items
        if style == 'dict':
            return ([dict(sh)], {}), srt(items)
        if style == 'kwargs':
            return ([], dict(sh)), srt(items)
        k = self.r.randrange(1, n)
        if style == 'dict+kw':
            return ([dict(sh[:k])], dict(sh[k:])), srt(sh[:k]) + srt(sh[k:])
        return ([tuple(i) for i in items[:k]], dict(items[k:])), items[:k] + srt(items[k:])

    def column(self, depth=1):
        k = self.r.random()
        if k < 0.75 or depth <= 0:
            n = self.name()
            if self.p(0.06):
                n = self.pick(['*', self.part() + '.*'])
        elif k < 0.79:
            n = self.r.randrange(0, 50)
        else:
            n = self.wpick((3, lambda: self.fn(depth - 1)), (2, lambda: VW(self.scalar('siifdDTnB'))),
                           (2, lambda: RW(self.name())), (2, self.custom), (2, lambda: self.sub(depth - 1)))()
        return (n, self.alias(n, 0.05) if self.p(0.35) else None)

    def alias(self, n, dots=0):
        if isinstance(n, str) and '*' not in n and self.p(0.07):
            return n if dots or '.' not in n else n.split('.')[-1]
        return self.name(dots)

    def table(self, depth=1, alias=0.4):
        n = self.name()
        if depth > 0 and self.p(0.1):
            n = self.wpick((3, lambda: self.sub(depth - 1)), (1, self.custom), (1, lambda: RW(self.name())))()
        return (n, self.alias(n) if self.p(alias) else None)

    def order(self, depth=0):
        k = self.r.random()
        if k < 0.9:
            n = self.name()
        elif k < 0.95:
            n = self.r.randrange(0, 20)
        else:
            n = self.wpick((1, lambda: self.fn(0)), (1, self.custom), (1, lambda: RW(self.name())))()
        return (n, self.pick(['asc', 'desc', 'ASC', 'DESC', 'Asc', 'dEsC', None, None, None]))

    # ------------------------------------------------------------ operations
    def join_op(self, sh_tables, depth=1, full=False):
        m = self.pick(['join', 'inner_join', 'left_join', 'right_join'] + (['full_join'] if full else []))
        self.n += 1
        alias = 'j%d' % self.n
        name = self.name()
        if depth > 0 and self.p(0.1):
            name = self.sub(depth - 1)
        style = self.pick(['tuple', 'tuple', 'dict', 'list', 'plain'])
        if style == 'plain':
            name = self.simple() + alias if not isinstance(name, str) or self.p(0.5) else name + alias
            return Op(m, [name], {}, (name, None))
        if style == 'dict':
            return Op(m, *self.box(([{name: alias}], {})), content=(name, alias))
        return Op(m, *self.box(([(name, alias) if style == 'tuple' else [name, alias]], {})), content=(name, alias))

    def on_op(self, depth=1):
        k = self.r.random()
        if k < 0.6:
            a, b = self.name(0.6), self.name(0.6)
            v = Val(b)
            if self.p(0.4):
                v = RelA(self.pick(['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP']), v)
            c = [Cond(a, v)]
            call, order = self.cond_call(c)
            return Op('on', *call, content=order)
        if k < 0.8:
            cs = []
            for col in self.unique(self.count(1, 3, 0)):
                v = self.wpick((3, lambda: Val(self.name(0.5))), (2, lambda: self.scalar('ifbDTn')), (1, self.seq),
                               (1, lambda: VW(self.scalar('sifDT'))), (1, lambda: RW(self.name())), (1, self.custom))()
                cs.append(Cond(col, v))
            call, order = self.cond_call(cs)
            return Op('on', *call, content=order)
        if k < 0.9:
            t = self.qterm(1)
            return Op('on', [t], {}, [t])
        t = self.custom()
        return Op('on', [t], {}, [t])

    def on_for(self, tables, depth=1, near=0.15):
        """An ON for the last join that leaves no doubt whether joins are the same (see `unclear`); None if there is none."""
        join = tables.items[-1].joins[-1]
        for _ in range(4):
            op = self.near_terms('on', join.ons, True) if join.ons and self.p(near) else self.on_op(depth)
            if not unclear(tables.items[-1], op.content):
                return op
        return None

    def dup_join(self, tables, full=False):
        """Repeat an earlier join of the last table (same or merged type), returning the list of ops, or None."""
        if not tables.items or not tables.items[-1].joins:
            return None
        js = tables.items[-1].joins
        j = self.pick(js)
        if j.jtype == 'FULL' and not full:
            return None
        have = {k.jtype for k in js if k.same(j)}
        types = ['INNER'] + ([self.pick(['LEFT', 'RIGHT'])] if 'INNER' in have else list(have) if len(have) == 1 else [])
        t = self.pick(types)
        m = {'INNER': self.pick(['join', 'inner_join']), 'LEFT': 'left_join', 'RIGHT': 'right_join', 'FULL': 'full_join'}[t]
        name, alias = j.name, j.alias
        ons = j.ons
        if self.p(0.4):
            new = ShJoin(j.jtype, name, alias)
            if ons and self.p(0.7):
                ons = list(ons)
                i = self.r.randrange(len(ons))
                x = self.sibling(ons[i], True) if self.p(0.7) else None
                ons[i:i + 1] = [x] if x is not None else []
            else:
                new.name, new.alias = name, alias = self.near_pair((name, alias))
            new.ons = ons
            if any(k.exp(d, 'X') == new.exp(d, 'X') for k in js for d in DIALECTS):
                return None
            m = {v: k for k, v in JOINS.items()}[j.jtype]
        trial = ShTable('', None)
        trial.joins = js + [ShJoin(JOINS[m], name, alias)]
        for i in range(len(ons) + 1):
            trial.joins[-1].ons = ons[:i]
            if ambiguous(trial):
                return None
        ops = [Op(m, [name if alias is None and isinstance(name, str) else (name, alias)], {}, (name, alias))]
        for term in ons:
            if isinstance(term, Cond):
                c = term
                v = c.val.inner if isinstance(c.val, RelA) else c.val
                if isinstance(v, Val) and isinstance(v.v, str) and isinstance(c.col, str) and self.p(0.5):
                    flip = {'EQ': 'EQ', 'NE': 'NE', 'GT': 'LT', 'GE': 'LE', 'LT': 'GT', 'LE': 'GE'}
                    rel = c.val.name if isinstance(c.val, RelA) else None
                    if rel is None or rel in flip:
                        nv = Val(c.col) if rel is None else RelA(flip[rel], Val(c.col))
                        c = Cond(v.v, nv)
                ops.append(Op('on', [[(c.col, c.val)]], {}, [c]))
            else:
                ops.append(Op('on', [term], {}, [term]))
        return ops

    def columns_op(self, depth=1, sh=None):
        items = [self.column(depth) for _ in range(self.count(1, 4))]
        if sh is not None and sh.cols and self.p(0.25):
            items.append(self.pick(sh.cols) if self.p(0.4) else self.near_pair(self.pick(sh.cols)))
        call, order = self.pairs_call(items)
        return Op('columns', *call, content=order)

    def from_op(self, depth=1, tables=None, methods=('from_', 'from_tables')):
        if self.p(0.2):
            n, a = self.table(depth)
            kw = {}
            args = [n]
            if a is not None:
                if self.p(0.5):
                    args.append(a)
                else:
                    kw['alias'] = a
            return Op('from_table', args, kw, [(n, a)])
        items = [self.table(depth) for _ in range(self.count(1, 3))]
        if tables is not None and tables.items and self.p(0.15):
            t = self.pick(tables.items)
            items.append((t.name, t.alias) if self.p(0.5) else self.near_pair((t.name, t.alias)))
        call, order = self.pairs_call(items)
        return Op(self.pick(list(methods)), *call, content=order)

    def orders_op(self, method, orders=None, sh=None):
        items = [self.order() for _ in range(self.count(1, 4))]
        if sh is not None and self.p(0.15):             # something the other clauses name
            names = [n for n, _ in sh.cols] + [x for _, x in sh.cols] + [x[0] for x in sh.group.items] + [x[0] for x in sh.order.items]
            names = [n for n in names if isinstance(n, str) and '*' not in n]
            if names:
                items.append((self.pick(names), self.pick(['asc', 'desc', None])))
        if orders is not None and orders.items and self.p(0.3):
            items.append((self.pick(orders.items)[0], self.pick(['asc', 'desc', None])))
        call, order = self.pairs_call(items)
        return Op(method, *call, content=order)

    def limit_op(self):
        k = self.r.random()
        t = Whole if self.p(0.08) else int
        if k < 0.35:
            v = self.limit_int()
            return Op('limit', [t(v)], {}, (v, None))
        if k < 0.65:
            v, o = self.limit_int(), self.limit_int()
            return Op('limit', [t(v), t(o)], {}, (v, o)) if self.p(0.7) else Op('limit', [t(v)], {'offset': t(o)}, (v, o))
        if k < 0.75:
            return Op('limit', [None], {}, (None, None))
        if k < 0.95:
            o = self.limit_int()
            return Op('offset', [t(o)], {}, o)
        return Op('offset', [None], {}, None)

    def limit_int(self):
        return self.pick([0, 1, 2, 5, 10, 20, 99, 100, 101, 999, 1000, 1001, 10**6, 2**31, 2**63, self.r.randrange(0, 10**4)] +
                         [i for i in mine.INTS if i >= 0])

    def option_op(self, names=None):
        m = self.pick(names or list(OPTION_GROUP) + ['for_update'])
        k = self.r.random()
        if k < 0.6:
            return Op(m, [], {}, True)
        v = self.p(0.4)
        if self.p(0.1):
            v = int(v)
        return Op(m, [v], {}, v) if self.p(0.7) else Op(m, [], {'allow': v}, v)

    def outfile_op(self):
        m = self.pick(['into_outfile', 'into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'])
        v = self.scalar('s')
        return Op(m, [v], {}, v)

    def select_op(self, sh, depth=1, weights=None, full=False):
        """One random call on a SELECT model (a list of ops, because repeats of joins come with their ON)."""
        w = dict(columns=3, from_=2, join=2, on=2, dup=0.5, where=3, having=1, group=1.5, order=2, limit=1.5, option=2, outfile=0.7)
        w.update(weights or {})
        while True:
            k = self.kind(w)
            if k == 'columns':
                return [self.columns_op(depth, sh)]
            if k == 'from_':
                return [self.from_op(depth, sh.tables)]
            if k == 'join' and sh.tables.items:
                return [self.join_op(sh.tables, depth, full)]
            if k == 'on' and sh.tables.items and sh.tables.items[-1].joins:
                op = self.on_for(sh.tables, depth)
                if op:
                    return [op]
            if k == 'dup':
                ops = self.dup_join(sh.tables, full)
                if ops:
                    return ops
            if k in ('where', 'having'):
                terms = sh.where if k == 'where' else sh.having
                other = [t for t in (sh.having if k == 'where' else sh.where) if isinstance(t, (Cond, QT, NotT, ExistsT, Cust))]
                if other and self.p(0.1):               # what the other clause says already
                    t = self.pick(other)
                    return [Op(k, [[(t.col, t.val)]] if isinstance(t, Cond) else [t], {}, [t])]
                return [self.near_terms(k, terms) if terms and self.p(0.2) else self.where_op(k, depth)]
            if k == 'group':
                return [self.orders_op('group_by', sh.group, sh)]
            if k == 'order':
                return [self.orders_op('order_by', sh.order, sh)]
            if k == 'limit':
                return [self.limit_op()]
            if k == 'option':
                return [self.option_op()]
            if k == 'outfile':
                return [self.outfile_op()]

    def new_select(self, depth=1):
        if self.p(0.5):
            items = [self.column(depth) for _ in range(self.count(0, 3))]
            call, order = self.pairs_call(items)
            return ShSelect(('select',) + call, cols=order)
        items = [self.table(depth) for _ in range(self.count(1, 2))]
        call, order = self.pairs_call(items)
        return ShSelect(('select_from',) + call, tables=order)

    def select(self, depth=1, ncalls=(0, 6), weights=None, full=False):
        sh = self.new_select(depth)
        for _ in range(self.r.randrange(ncalls[0], ncalls[1] + 1)):
            for op in self.select_op(sh, depth, weights, full):
                sh.apply(op)
        return sh

    def union(self, depth=1):
        n = self.count(2, 4, 0) if self.p(0.93) else self.r.randrange(5, 13)
        items = [self.select(depth - 1, ncalls=(0, 2), weights=dict(order=0, limit=0, outfile=0, option=0.3)) for _ in range(n)]
        for s in items:
            s.for_update = False
            s.ops = [o for o in s.ops if o.method != 'for_update']
        while len(items) > 1:
            i = self.r.randrange(len(items) - 1)
            items[i:i + 2] = [ShUnion(items[i], self.pick(['UNION', 'UNION ALL']), items[i + 1])]
        return items[0]

    # ------------------------------------------------------------ insert / update / delete
    def assigns(self, n, depth=1, kinds='ssssiiifdbDTnB'):
        return [(c, self.value(depth, kinds)) for c in self.unique(n)]

    def values_call(self, items):
        """Calling styles of set/values: items are (column, value spec)."""
        cs = [Cond(c, v) for c, v in items]
        call, order = self.cond_call(cs)
        return call, [(c.col, c.val) for c in order]

    def set_op(self, method='set', depth=1, n=None):
        items = self.assigns(self.count(1, 4, 0.03) if n is None else n, depth)
        call, order = self.values_call(items)
        return Op(method, *call, content=order)

    def again(self, assigns):
        """Another assignment of a column that has one, with a value it was not given before."""
        c, v = self.pick([x for x in assigns if isinstance(x, tuple)])
        new = self.near_value(v) if self.p(0.6) else self.scalar()
        old = [w for n, w in (x for x in assigns if isinstance(x, tuple)) if n == c]
        if any(new.exp(d) == w.exp(d) for w in old for d in DIALECTS):
            return None
        return c, new

    def new_insert(self):
        t = self.name()
        if self.p(0.7):
            return ShInsert(('insert_into', [t], {}), tables=[(t, None)])
        sh = ShInsert(('insert', [], {}))
        return sh.apply(Op('into', [t], {}, [(t, None)]))

    def insert_op(self, sh, d, pool):
        k = self.r.random()
        if k < 0.75 or not sh.rows:
            n = self.count(1, 4, 0.02)
            cols = []
            for _ in range(n):
                c = self.pick(pool) if self.p(0.85) else self.name()
                if c not in cols:
                    cols.append(c)
            items = [(c, self.value(1)) for c in cols]
            call, order = self.values_call(items)
            return Op('values', *call, content=order)
        if k < 0.87 or d == 'sql':
            v = self.p(0.6)
            return Op('ignore', [] if v and self.p(0.6) else [v], {}, v)
        if d == 'sqlite':
            return Op('on_duplicate_key_update', [], {}, (None, []))
        have = {c for c, _ in (sh.odku if d == 'mysql' else sh.conflict)}
        items = [(c, v) for c, v in self.assigns(self.count(1, 3, 0.02)) if c not in have]
        if not items:
            return Op('ignore', [], {}, True)
        call, order = self.values_call(items)
        if d == 'mysql':
            return Op('on_duplicate_key_update', *call, content=(None, order))
        target = self.name()
        args, kwds = call
        return Op('on_duplicate_key_update', [target] + list(args), kwds, (target, order))

    def insert(self, d, ncalls=(1, 5)):
        sh = self.new_insert()
        pool = self.unique(self.count(2, 5, 0.02))
        for _ in range(max(1, self.r.randrange(ncalls[0], ncalls[1] + 1))):
            sh.apply(self.insert_op(sh, d, pool), d)
        return sh

    def new_update(self):
        t, _ = self.table(0, 0)
        return ShUpdate(('update', [t], {}), tables=[(t, None)])

    def update_op(self, sh, depth=1):
        while True:
            k = self.kind(dict(set=3, where=3, join=1, on=1, dup=0.3, allow=0.8, forbid=0.4, ignore=0.7, table=0.1))
            if k == 'set':
                have = {c for c, _ in (x for x in sh.set if isinstance(x, tuple))}
                if self.p(0.05):
                    c = self.custom()
                    return [Op('set', [c], {}, [c])]
                items = [(c, v) for c, v in self.assigns(self.count(1, 4, 0.03), depth) if c not in have]
                if have and self.p(0.2):
                    items = [self.again(sh.set)] + items[:self.r.randrange(3)]
                    items = items if items[0] else items[1:]
                if not items:
                    continue
                call, order = self.values_call(items)
                return [Op('set', *call, content=order)]
            if k == 'where':
                return [self.near_terms(k, sh.where) if sh.where and self.p(0.2) else self.where_op('where', depth)]
            if k == 'join':
                return [self.join_op(sh.tables, depth)]
            if k == 'on' and sh.tables.items[-1].joins:
                op = self.on_for(sh.tables, depth)
                if op:
                    return [op]
            if k == 'dup':
                ops = self.dup_join(sh.tables)
                if ops:
                    return ops
            if k == 'allow':
                return [Op('allow_update_all')]
            if k == 'forbid':
                return [Op('forbid_update_all')]
            if k == 'ignore':
                v = self.p(0.6)
                return [Op('ignore', [] if v and self.p(0.6) else [v], {}, v)]
            if k == 'table' and not sh.tables.items[-1].joins:
                t = self.name()
                return [Op('table', [t], {}, [(t, None)])]

    def update(self, ncalls=(1, 6), depth=1):
        sh = self.new_update()
        sh.apply(self.set_op('set', depth))
        for _ in range(self.r.randrange(ncalls[0], ncalls[1] + 1)):
            for op in self.update_op(sh, depth):
                sh.apply(op)
        return sh

    def new_delete(self, depth=1):
        items = [self.table(depth) for _ in range(self.count(1, 2, 0))]
        call, order = self.pairs_call(items)
        if self.p(0.7):
            return ShDelete(('delete_from',) + call, refs=order)
        tabs = [(t, None) for t in self.unique(self.count(0, 2, 0) if self.p(0.85) else self.count(3, 7))]
        sh = ShDelete(('delete', [t for t, _ in tabs], {}), tables=tabs)
        return sh.apply(Op(self.pick(['from_', 'from_tables']), *call, content=order))

    def delete_op(self, sh, depth=1):
        while True:
            k = self.kind({'where': 3, 'join': 1, 'on': 1, 'dup': 0.3, 'allow': 0.8, 'forbid': 0.4, 'ignore': 0.7, 'from': 0.3, 'delete': 0.3})
            if k == 'where':
                return [self.near_terms(k, sh.where) if sh.where and self.p(0.2) else self.where_op('where', depth)]
            if k == 'join':
                return [self.join_op(sh.refs, depth)]
            if k == 'on' and sh.refs.items[-1].joins:
                op = self.on_for(sh.refs, depth)
                if op:
                    return [op]
            if k == 'dup':
                ops = self.dup_join(sh.refs)
                if ops:
                    return ops
            if k == 'allow':
                return [Op('allow_delete_all')]
            if k == 'forbid':
                return [Op('forbid_delete_all')]
            if k == 'ignore':
                v = self.p(0.6)
                return [Op('ignore', [] if v and self.p(0.6) else [v], {}, v)]
            if k == 'from':
                return [self.from_op(depth, sh.refs)]
            if k == 'delete':
                ts = self.unique(1 if self.p(0.8) else self.count(2, 7))
                return [Op('delete', ts, {}, [(t, None) for t in ts])]

    def delete(self, ncalls=(1, 6), depth=1):
        sh = self.new_delete(depth)
        for _ in range(self.r.randrange(ncalls[0], ncalls[1] + 1)):
            for op in self.delete_op(sh, depth):
                sh.apply(op)
        return sh
