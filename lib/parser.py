"""Recursive-descent parser of the SQL subset the library emits -> normalised AST (nested tuples).

Parentheses, associativity of AND/OR and duplicate conjuncts are normalised
away; everything that carries meaning is kept.  Custom SQL used by the
workloads is always of the form CZ<n>( ... ) and is kept as its verbatim text.
"""
from decimal import Decimal

from .lexer import lex, LexError

STAR = ('*',)
TRUE = True


class ParseError(Exception):
    pass


SELECT_OPTIONS = {
    'SQL_CACHE', 'SQL_NO_CACHE', 'ALL', 'DISTINCT', 'DISTINCTROW', 'SQL_SMALL_RESULT', 'SQL_BIG_RESULT',
    'SQL_BUFFER_RESULT', 'SQL_CALC_FOUND_ROWS', 'STRAIGHT_JOIN', 'HIGH_PRIORITY',
}


# ---------------------------------------------------------------- normal forms

def mk_and(parts):
    out = []
    for p in parts:
        sub = p[1] if p[0] == 'and' else (p,)
        for s in sub:
            if s not in out:
                out.append(s)
    return out[0] if len(out) == 1 else ('and', tuple(out))


def mk_or(parts):
    out = []
    for p in parts:
        out.extend(p[1] if p[0] == 'or' else (p,))
    return out[0] if len(out) == 1 else ('or', tuple(out))


_FLIP = {'=': '=', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def orient(node):
    """Canonical orientation of column-to-column comparisons (used for ON)."""
    if node[0] in ('and', 'or'):
        mk = mk_and if node[0] == 'and' else mk_or
        return mk([orient(x) for x in node[1]])
    if node[0] == 'not':
        return ('not', orient(node[1]))
    if node[0] == 'cmp' and node[2][0] == 'ref' and node[3][0] == 'ref':
        if (repr(node[3]), _FLIP[node[1]]) < (repr(node[2]), node[1]):
            return ('cmp', _FLIP[node[1]], node[3], node[2])
    return node


def _members(q):
    if q[0] != 'union':
        return (q,)
    return tuple(m for t in q[1] for m in (t[1] if t[0] == 'dist' else (t[1],)))


def _unwrap(q):
    """SELECT * FROM (union) means that union (SQLite has no parenthesised members, this is how to write them)."""
    while q[0] == 'select':
        t = dict(q[1])['tables']
        if not (len(t) == 1 and t[0][0][0] == 'sub' and t[0][0][1][0] == 'union' and t[0][1:] == (None, ())
                and q == mk_select(cols=((('ref', (STAR,)), None),), tables=t)):
            break
        q = t[0][0][1]
    return q


def mk_union(left, op, right):
    """Unions by meaning: a bag sum of terms, each one query or the distinct rows of several.

    UNION makes all rows of both sides distinct, so it absorbs any inner
    grouping; UNION ALL adds up the two bags.
    """
    left, right = _unwrap(left), _unwrap(right)
    if op == 'UNION':
        return ('union', (('dist', _members(left) + _members(right)),))
    terms = []
    for q in (left, right):
        terms.extend(q[1] if q[0] == 'union' else (('one', q),))
    return ('union', tuple(terms))


# ---------------------------------------------------------------- parser

class Parser:
    def __init__(self, sql, dialect):
        self.sql = sql
        self.dialect = dialect
        try:
            self.toks = lex(sql, dialect)
        except LexError as e:
            raise ParseError('lexing: %s' % e)
        self.i = 0

    # -- helpers
    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else None

    def fail(self, what):
        t = self.peek()
        raise ParseError('expected %s at %s' % (what, 'end' if t is None else '%d: %r' % (t.start, self.sql[t.start:t.start + 30])))

    def is_word(self, *words, k=0):
        t = self.peek(k)
        return t is not None and t.kind == 'word' and t.val.upper() in words

    def is_op(self, op, k=0):
        t = self.peek(k)
        return t is not None and t.kind == 'op' and t.val == op

    def take_word(self, *words):
        if self.is_word(*words):
            self.i += 1
            return self.toks[self.i - 1].val.upper()
        return None

    def take_op(self, op):
        if self.is_op(op):
            self.i += 1
            return True
        return False

    def need_word(self, *words):
        return self.take_word(*words) or self.fail('/'.join(words))

    def need_op(self, op):
        return self.take_op(op) or self.fail(op)

    def end(self):
        if self.peek() is not None:
            self.fail('end of statement')

    # -- expressions
    def ref(self):
        parts = []
        while True:
            t = self.peek()
            if t is not None and t.kind == 'ident':
                parts.append(t.val)
            elif t is not None and t.kind == 'op' and t.val == '*':
                parts.append(STAR)
            else:
                self.fail('identifier')
            self.i += 1
            nxt = self.peek()
            # A dot continuing the path must directly join the two identifiers.
            if nxt is not None and nxt.kind == 'op' and nxt.val == '.':
                self.i += 1
                continue
            return ('ref', tuple(parts))

    def number(self, sign=1):
        t = self.peek()
        self.i += 1
        if '.' in t.val or 'e' in t.val or 'E' in t.val:
            return ('num', Decimal(t.val if sign > 0 else '-' + t.val))
        return ('int', sign * int(t.val))

    def operand(self):
        t = self.peek()
        if t is None:
            self.fail('expression')
        if t.kind == 'str':
            self.i += 1
            return ('str', t.val)
        if t.kind == 'bytes':
            self.i += 1
            return ('bytes', t.val)
        if t.kind == 'num':
            return self.number()
        if t.kind == 'op' and t.val == '-':
            nxt = self.peek(1)
            if nxt is not None and nxt.kind == 'num' and nxt.start == t.end:
                self.i += 1
                return self.number(-1)
            self.fail('expression')
        if t.kind == 'ident' or t.kind == 'op' and t.val == '*':
            return self.ref()
        if t.kind == 'op' and t.val == '(':
            self.i += 1
            if self.is_word('SELECT'):
                q = self.query()
                self.need_op(')')
                return ('sub', q)
            items = [self.expr()]
            while self.take_op(','):
                items.append(self.expr())
            self.need_op(')')
            return items[0] if len(items) == 1 else ('list', tuple(items))
        if t.kind == 'word':
            w = t.val.upper()
            if w == 'NULL':
                self.i += 1
                return ('null',)
            if w in ('TRUE', 'FALSE') and self.dialect == 'postgresql':
                self.i += 1
                return ('bool', w == 'TRUE')
            if w == 'EXISTS':
                self.i += 1
                self.need_op('(')
                q = self.query()
                self.need_op(')')
                return ('exists', q)
            if self.is_op('(', 1):
                return self.call()
        self.fail('expression')

    def call(self):
        t = self.peek()
        name = t.val
        if name.startswith('CZ'):
            depth = 0
            self.i += 1
            while True:
                u = self.peek()
                if u is None:
                    self.fail(')')
                self.i += 1
                if u.kind == 'op' and u.val == '(':
                    depth += 1
                elif u.kind == 'op' and u.val == ')':
                    depth -= 1
                    if depth == 0:
                        return ('custom', self.sql[t.start:u.end])
        self.i += 2
        if name == 'CONVERT':
            e = self.expr()
            self.need_op(',')
            start = self.peek().start if self.peek() else len(self.sql)
            depth = 0
            while True:
                u = self.peek()
                if u is None:
                    self.fail(')')
                if u.kind == 'op' and u.val == '(':
                    depth += 1
                elif u.kind == 'op' and u.val == ')':
                    if depth == 0:
                        break
                    depth -= 1
                self.i += 1
            text = self.sql[start:u.start]
            self.i += 1
            return ('convert', e, text)
        distinct = bool(self.take_word('DISTINCT'))
        args = []
        if not self.is_op(')'):
            args.append(self.aliased())
            while self.take_op(','):
                args.append(self.aliased())
        order = ()
        sep = None
        if self.take_word('ORDER'):
            self.need_word('BY')
            order = self.orders()
        if self.take_word('SEPARATOR'):
            sep = self.operand()
        self.need_op(')')
        return ('call', name, distinct, tuple(args), order, sep)

    def comparison(self):
        left = self.operand()
        t = self.peek()
        if t is not None and t.kind == 'op' and t.val in ('=', '!=', '<>', '<', '<=', '>', '>='):
            self.i += 1
            return ('cmp', '!=' if t.val == '<>' else t.val, left, self.operand())
        if self.take_word('IS'):
            neg = bool(self.take_word('NOT'))
            return ('is', neg, left, self.operand())
        neg = False
        if self.is_word('NOT') and self.is_word('IN', 'LIKE', 'REGEXP', k=1):
            self.i += 1
            neg = True
        if self.take_word('IN'):
            if self.is_op('(') and not self.is_word('SELECT', k=1):
                self.i += 1
                items = [self.operand()]
                while self.take_op(','):
                    items.append(self.operand())
                self.need_op(')')
                return ('in', neg, left, ('list', tuple(items)))
            return ('in', neg, left, self.operand())
        if self.take_word('LIKE'):
            return ('like', neg, left, self.operand())
        if self.take_word('REGEXP'):
            return ('regexp', neg, left, self.operand())
        return left

    def not_expr(self):
        if self.take_word('NOT'):
            return ('not', self.not_expr())
        return self.comparison()

    def and_expr(self):
        parts = [self.not_expr()]
        while self.take_word('AND'):
            parts.append(self.not_expr())
        return mk_and(parts) if len(parts) > 1 else parts[0]

    def expr(self):
        parts = [self.and_expr()]
        while self.take_word('OR'):
            parts.append(self.and_expr())
        return mk_or(parts) if len(parts) > 1 else parts[0]

    # -- clauses
    def aliased(self):
        e = self.operand()
        alias = None
        if self.take_word('AS'):
            alias = self.ref()
        return (e, alias)

    def orders(self):
        out = []
        while True:
            e = self.operand()
            d = self.take_word('ASC', 'DESC') or 'ASC'
            out.append((e, d))
            if not self.take_op(','):
                return tuple(out)

    def tables(self):
        out = []
        while True:
            e, alias = self.aliased()
            joins = []
            while True:
                jt = None
                if self.is_word('JOIN'):
                    jt = 'INNER'
                elif self.is_word('INNER', 'LEFT', 'RIGHT', 'FULL') and self.is_word('JOIN', k=1):
                    jt = self.take_word('INNER', 'LEFT', 'RIGHT', 'FULL')
                if jt is None:
                    break
                self.need_word('JOIN')
                je, ja = self.aliased()
                on = None
                if self.take_word('ON'):
                    on = orient(self.expr())
                joins.append((jt, je, ja, on))
            out.append((e, alias, tuple(joins)))
            if not self.take_op(','):
                return tuple(out)

    def assigns(self):
        out = []
        while True:
            t = self.peek()
            if t is not None and t.kind == 'word' and t.val.startswith('CZ'):
                a = self.operand()
            else:
                c = self.ref() if t is not None and t.kind in ('ident', 'op') and not self.is_op('(') else self.operand()
                self.need_op('=')
                a = ('assign', c, self.operand())
            if a not in out:
                out.append(a)
            if not self.take_op(','):
                return tuple(out)

    def select(self):
        self.need_word('SELECT')
        opts = []
        while self.is_word(*SELECT_OPTIONS):
            opts.append(self.take_word(*SELECT_OPTIONS))
        if len(set(opts)) != len(opts):
            raise ParseError('repeated option')
        cols = [self.aliased()]
        while self.take_op(','):
            cols.append(self.aliased())
        q = dict(opts=tuple(sorted(opts)), cols=tuple(cols), tables=(), where=None, group=(), having=None, order=(),
                 limit=None, offset=None, outfile=None, for_update=False)
        if self.take_word('FROM'):
            q['tables'] = self.tables()
        if self.take_word('WHERE'):
            q['where'] = self.expr()
        if self.take_word('GROUP'):
            self.need_word('BY')
            q['group'] = self.orders()
        if self.take_word('HAVING'):
            q['having'] = self.expr()
        if self.take_word('ORDER'):
            self.need_word('BY')
            q['order'] = self.orders()
        if self.take_word('LIMIT'):
            q['limit'] = self.signed()
        if self.take_word('OFFSET'):
            q['offset'] = self.signed()
        if self.take_word('INTO'):
            self.need_word('OUTFILE')
            o = [self.operand(), None, None, None]
            if self.take_word('FIELDS'):
                self.need_word('TERMINATED')
                self.need_word('BY')
                o[1] = self.operand()
            if self.take_word('LINES'):
                self.need_word('TERMINATED')
                self.need_word('BY')
                o[2] = self.operand()
            if self.take_word('OPTIONALLY'):
                self.need_word('ENCLOSED')
                self.need_word('BY')
                o[3] = self.operand()
            q['outfile'] = tuple(o)
        if self.take_word('FOR'):
            self.need_word('UPDATE')
            q['for_update'] = True
        return ('select', tuple(sorted(q.items())))

    def signed(self):
        e = self.operand()
        if e[0] != 'int':
            raise ParseError('integer expected')
        return e[1]

    def query(self):
        q = self.union_member(first=True)
        while self.is_word('UNION'):
            self.i += 1
            op = 'UNION ALL' if self.take_word('ALL') else 'UNION'
            q = mk_union(q, op, self.union_member())
        return q

    def union_member(self, first=False):
        if not first and self.is_op('(') and self.dialect != 'sqlite':        # SQLite knows no brackets there
            self.i += 1
            q = self.query()
            self.need_op(')')
            return q
        return self.select()

    def insert(self):
        kw = self.need_word('INSERT', 'REPLACE')
        ignore = bool(self.take_word('IGNORE'))
        self.need_word('INTO')
        tables = self.tables() if not self.is_op('(') else ()
        self.need_op('(')
        cols = []
        if not self.is_op(')'):
            cols.append(self.ref() if not self.is_word() else self.operand())
            while self.take_op(','):
                cols.append(self.ref())
        self.need_op(')')
        self.need_word('VALUES')
        rows = []
        while True:
            self.need_op('(')
            row = []
            if not self.is_op(')'):
                row.append(self.operand())
                while self.take_op(','):
                    row.append(self.operand())
            self.need_op(')')
            rows.append(tuple(row))
            if not self.take_op(','):
                break
        upsert = None
        if self.take_word('ON'):
            if self.take_word('DUPLICATE'):
                self.need_word('KEY')
                self.need_word('UPDATE')
                upsert = ('odku', None, self.assigns())
            else:
                self.need_word('CONFLICT')
                self.need_op('(')
                target = self.ref()
                self.need_op(')')
                self.need_word('DO')
                self.need_word('UPDATE')
                self.conflict_set = bool(self.take_word('SET'))
                upsert = ('conflict', target, self.assigns())
        return ('insert', kw, ignore, tables, tuple(cols), tuple(rows), upsert)

    def update(self):
        self.need_word('UPDATE')
        ignore = bool(self.take_word('IGNORE'))
        tables = self.tables()
        self.need_word('SET')
        a = self.assigns()
        w = self.expr() if self.take_word('WHERE') else None
        return ('update', ignore, tables, a, w)

    def delete(self):
        self.need_word('DELETE')
        ignore = bool(self.take_word('IGNORE'))
        tables = () if self.is_word('FROM') else self.tables()
        self.need_word('FROM')
        refs = self.tables()
        w = self.expr() if self.take_word('WHERE') else None
        return ('delete', ignore, tables, refs, w)


def mk_select(**kw):
    q = dict(opts=(), cols=((('ref', (STAR,)), None),), tables=(), where=None, group=(), having=None,
             order=(), limit=None, offset=None, outfile=None, for_update=False)
    q.update(kw)
    return ('select', tuple(sorted(q.items())))


def parse(sql, dialect, what='statement'):
    p = Parser(sql, dialect)
    if what == 'statement':
        t = p.peek()
        w = t.val.upper() if t is not None and t.kind == 'word' else None
        if w == 'SELECT':
            r = p.query()
        elif w in ('INSERT', 'REPLACE'):
            r = p.insert()
        elif w == 'UPDATE':
            r = p.update()
        elif w == 'DELETE':
            r = p.delete()
        else:
            p.fail('a statement')
    elif what == 'operand':
        r = p.aliased()
    elif what == 'expr':
        r = p.expr()
    p.end()
    return r
