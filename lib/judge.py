"""Observation of real queries and comparison with the models."""
from .boot import sp, exc
from .parser import Parser, ParseError, parse
from .shadow import Raises, canon_insert


class Violation(Exception):
    def __init__(self, what, **data):
        super().__init__(what)
        self.what = what
        self.data = data


def configure(d):
    sp.configure(d)


def render(q, how='str'):
    if how == 'str':
        return str(q)
    if how == 'tosql':
        return q.tosql()
    if how == 'format':
        return '{}'.format(q)
    if how == 'fstring':
        return f'{q}'
    if how == 'percent':
        return '%s' % (q,)
    if how == 'repr':
        t = repr(q)
        head = '<%s: ' % type(q).__name__
        if not (t.startswith(head) and t.endswith('>')):
            raise Violation('repr does not have the documented form', repr=t)
        return t[len(head):-1]
    raise AssertionError(how)


HOWS = ('str', 'tosql', 'format', 'fstring', 'percent', 'repr')


def ast_of(text, d, what='statement'):
    try:
        a = parse(text, d, what)
    except ParseError as e:
        raise Violation('rendered SQL is not well-formed for %s: %s' % (d, e), sql=text)
    if a[0] == 'insert':
        a = canon_insert(a)
    return a


def diff(a, b, path=''):
    """Shortest description of where two ASTs differ."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and (
            not a or not isinstance(a[0], str) or a[0] == b[0]):
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s/%s' % (path, x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i))
            if r:
                return r
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1]:
        n = 0
        while n < min(len(a), len(b)) and a[n] == b[n]:
            n += 1
        return '%s[%d:]: expected %.300r, got %.300r' % (path, n, a[n:], b[n:])
    return '%s: expected %.300r, got %.300r' % (path, a, b)


def compare(q, sh, d, M=None, how='str'):
    """The real query must render to what the model says.  Returns the text (or the exception's name)."""
    want = sh.exp(d)
    if isinstance(want, Raises):
        try:
            text = render(q, how)
        except exc.SqlPuzzleException as e:
            if type(e).__name__ != want.name:
                raise Violation('expected %s, got %r' % (want.name, e))
            return want.name
        raise Violation('expected %s, but it rendered' % want.name, sql=text)
    text = render(q, how)
    check_text(text, want, d)
    if M is not None:
        M.saw(text)
    return text


def check_text(text, want, d, what='statement'):
    got = ast_of(text, d, what)
    if got != want:
        raise Violation('rendered SQL says something else: %s' % diff(want, got), sql=text)
