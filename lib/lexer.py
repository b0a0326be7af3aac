"""Lexers for the four dialects, written from the databases' documentation.

They decode literals and quoted identifiers the way the database does; nothing
here is shared with the library under test.

  sql         '...' with '' and C-style backslash escapes, "ident"   (the library's default dialect)
  mysql       '...' with '' and backslash escapes, `ident`, "..." is a string, # comments
  postgresql  '...' with '' only (standard_conforming_strings), E'...' with escapes, "ident"
  sqlite      '...' with '' only, "ident"
"""
import re
from collections import namedtuple

Token = namedtuple('Token', 'kind val start end')


class LexError(Exception):
    pass


_MYSQL_ESC = {'0': '\0', "'": "'", '"': '"', 'b': '\b', 'n': '\n', 'r': '\r', 't': '\t', 'Z': '\x1a', '\\': '\\'}
_PG_ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
_WORD = re.compile(r'[A-Za-z_][A-Za-z0-9_$]*')
_NUM = re.compile(r'\d+(\.\d+)?([eE][+-]?\d+)?')
_OPS = ('<=', '>=', '!=', '<>', '||', '=', '<', '>', '+', '-', '*', '/', '%', '(', ')', ',', '.', ';')


def _quoted(sql, i, quote, escapes):
    """Read a quoted run starting at sql[i] == quote; returns (decoded, end)."""
    out = []
    j = i + 1
    n = len(sql)
    while j < n:
        c = sql[j]
        if c == quote:
            if j + 1 < n and sql[j + 1] == quote:
                out.append(quote)
                j += 2
                continue
            return ''.join(out), j + 1
        if c == '\\' and escapes:
            if j + 1 >= n:
                break
            e = sql[j + 1]
            if escapes == 'mysql':
                if e in _MYSQL_ESC:
                    out.append(_MYSQL_ESC[e])
                elif e in '%_':
                    out.append('\\' + e)
                else:
                    out.append(e)
                j += 2
            else:
                m = re.match(r'\\([0-7]{1,3})|\\x([0-9A-Fa-f]{1,2})|\\u([0-9A-Fa-f]{4})|\\U([0-9A-Fa-f]{8})', sql[j:j + 10])
                if m:
                    if m.group(1):
                        out.append(chr(int(m.group(1), 8)))
                    else:
                        out.append(chr(int(m.group(2) or m.group(3) or m.group(4), 16)))
                    j += m.end()
                else:
                    out.append(_PG_ESC.get(e, e))
                    j += 2
            continue
        out.append(c)
        j += 1
    raise LexError('unterminated %s at %d' % (quote, i))


def lex(sql, dialect):
    toks = []
    i = 0
    n = len(sql)
    while i < n:
        c = sql[i]
        if c in ' \t\r\n\f\v':
            i += 1
            continue
        if c == '-' and sql.startswith('--', i) or c == '/' and sql.startswith('/*', i) or (
                dialect == 'mysql' and c == '#'):
            raise LexError('comment at %d: %r' % (i, sql[i:i + 20]))
        if c == "'":
            val, j = _quoted(sql, i, "'", 'mysql' if dialect in ('sql', 'mysql') else None)
            kind = 'str'
        elif c == '"':
            if dialect == 'mysql':
                val, j = _quoted(sql, i, '"', 'mysql')
                kind = 'dqstr'
            else:
                val, j = _quoted(sql, i, '"', None)
                kind = 'ident'
        elif c == '`' and dialect in ('mysql', 'sqlite'):
            val, j = _quoted(sql, i, '`', None)
            kind = 'ident' if dialect == 'mysql' else 'btident'
        elif c in 'xX' and sql.startswith("'", i + 1):
            val, j = _quoted(sql, i + 1, "'", None)
            if not re.fullmatch(r'([0-9A-Fa-f]{2})*', val):
                raise LexError('bad binary literal at %d' % i)
            val = bytes.fromhex(val)
            kind = 'bits' if dialect == 'postgresql' else 'bytes'
        elif c in 'eE' and sql.startswith("'", i + 1) and dialect == 'postgresql':
            val, j = _quoted(sql, i + 1, "'", 'pg')
            kind = 'str'
        else:
            m = _WORD.match(sql, i)
            if m:
                val, j, kind = m.group(), m.end(), 'word'
                if sql[j:j + 1] in ("'", '"', '`'):
                    raise LexError('word directly followed by a quote at %d' % i)
            else:
                m = _NUM.match(sql, i)
                if m:
                    val, j, kind = m.group(), m.end(), 'num'
                    if _WORD.match(sql, j):
                        raise LexError('number directly followed by a word at %d' % i)
                else:
                    for op in _OPS:
                        if sql.startswith(op, i):
                            val, j, kind = op, i + len(op), 'op'
                            break
                    else:
                        raise LexError('unexpected %r at %d' % (c, i))
        if kind == 'ident' and val == '':
            raise LexError('empty identifier at %d' % i)
        toks.append(Token(kind, val, i, j))
        i = j
    return toks
