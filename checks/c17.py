"""C17: has() tells truthfully what a query contains."""
import sys

import _path                                                 # noqa: F401
from lib import pool, runner
from lib.boot import DIALECTS, exc, sp
from lib.gen import G
from lib.judge import Violation, configure
from lib.lexer import LexError, lex
from lib.shadow import Op

PROP = 'C17'
QUICK, THOROUGH = 45000, 700000
RULE = ('Random histories of all query kinds; after each step has() is asked about every clause and option of every kind of query, and about texts: '
        'words and fragments cut out of the rendered clause, of other clauses, extended, shortened, with regular expression and format characters. '
        'The answers are judged against the clause cut out of the rendered statement by the independent lexer. Distinct = distinct (statement, '
        'clause, text) questions.')
ASSUMPTIONS = ['questions whose answer depends on counting the keyword of a clause to its SQL, or on a text that begins or ends with punctuation next to a word, are asked but not judged']
NEED = ('observations', 'clause present', 'clause absent', 'unknown clause', 'text present', 'text absent', 'text with punctuation', 'option on', 'option off',
        'select', 'insert', 'update', 'delete', 'union', 'part of a word')

CLAUSES = {
    'select': ['select_options', 'columns', 'tables', 'where', 'group_by', 'having', 'order_by', 'limit', 'into_outfile', 'select_for_update'],
    'insert': ['keyword', 'insert_options', 'tables', 'values', 'on_duplicate_key_update', 'on_conflict_do_update'],
    'update': ['update_options', 'tables', 'values', 'where'],
    'delete': ['delete_options', 'tables', 'references', 'where'],
    'union': [],
}
OPTIONS = ['sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result',
           'sql_calc_found_rows', 'straight_join', 'high_priority']
ALL_NAMES = sorted(set(sum(CLAUSES.values(), [])))
UNKNOWN = ['nonsense', 'Where', 'WHERE', 'wher', 'where ', '_where', 'select', 'from', 'for_update', 'join', '__class__', '_queryparts', 'has', 'sql', 'cache', 'row',
           'sql_', 'result', 'DISTINC', 'sql_c.che', '.*', 'distinct|all', '[', '(', '\\', 'a+', '?', 'order', 'group', 'outfile', 'ignore']
for _n in list(ALL_NAMES) + OPTIONS:
    UNKNOWN += [x for x in (_n + 's', _n[:-1], _n.rstrip('s'), _n.upper(), _n.title(), ' ' + _n, _n.replace('_', ''), _n.replace('_', ' '), _n.replace('_', '-'),
                            'sql_' + _n, _n.split('_')[0], _n.split('_')[-1]) if x and x not in ALL_NAMES and x.lower().strip() not in OPTIONS]
STARTS = {'select': [('FROM', 'tables', 1), ('WHERE', 'where', 1), ('GROUP BY', 'group_by', 2), ('HAVING', 'having', 1), ('ORDER BY', 'order_by', 2),
                     ('LIMIT', 'limit', 1), ('OFFSET', 'limit', 1), ('INTO OUTFILE', 'into_outfile', 2), ('FOR UPDATE', 'select_for_update', 2)],
          'update': [('SET', 'values', 1), ('WHERE', 'where', 1)],
          'delete': [('FROM', 'references', 1), ('WHERE', 'where', 1)],
          'insert': [('ON DUPLICATE KEY UPDATE', 'on_duplicate_key_update', 4), ('ON CONFLICT', 'on_conflict_do_update', 2)]}


def cut(text, kind, d):
    """{clause: (text without keyword, text with keyword)} of a rendered statement."""
    toks = lex(text, d)
    depth, marks, i = 0, [], 0                 # marks: (position, clause, end of keyword)
    while i < len(toks):
        t = toks[i]
        if t.kind == 'op' and t.val in '()':
            depth += 1 if t.val == '(' else -1
        elif t.kind == 'word' and depth == 0:
            for words, clause, n in STARTS[kind]:
                run = toks[i:i + n]
                if len(run) == n and all(x.kind == 'word' for x in run) and ' '.join(x.val for x in run) == words:
                    if not (clause == 'limit' and marks and marks[-1][1] == 'limit'):
                        marks.append((t.start, clause, run[-1].end))
                    i += n - 1
                    break
        i += 1
    out = {}
    for (a, clause, b), nxt in zip(marks, marks[1:] + [(len(text), None, None)]):
        out[clause] = (text[b:nxt[0]].strip(), text[a:nxt[0]].strip())
        if clause in ('select_for_update',):
            out[clause] = (out[clause][1],) * 2
    first = marks[0][0] if marks else len(text)
    head = [t for t in toks if t.start < first]
    if kind == 'insert':
        out['keyword'] = (head[0].val,) * 2
        k = 1
        if head[k].val == 'IGNORE' and head[k].kind == 'word':
            out['insert_options'] = ('IGNORE',) * 2
            k += 1
        k += 1                                 # INTO
        p = next((n for n in range(k, len(head)) if head[n].kind == 'op' and head[n].val == '('), len(head))
        if p > k:
            out['tables'] = (text[head[k].start:head[p - 1].end],) * 2
        if p < len(head):
            out['values'] = (text[head[p].start:first].strip(),) * 2
        return out
    k = 1
    if kind == 'select':
        while k < len(head) and head[k].kind == 'word' and head[k].val.lower() in OPTIONS:
            k += 1
        if k > 1:
            out['select_options'] = (text[head[1].start:head[k - 1].end],) * 2
        if k < len(head):
            out['columns'] = (text[head[k].start:first].strip(),) * 2
        return out
    if k < len(head) and head[k].kind == 'word' and head[k].val == 'IGNORE':
        out[kind + '_options'] = ('IGNORE',) * 2
        k += 1
    if k < len(head):
        out['tables'] = (text[head[k].start:first].strip(),) * 2
    return {c: v for c, v in out.items() if v[0]}


def wordy(c):
    return c.isalnum() or c == '_'


def whole(text, sql):
    """True / False / None (depends on the reading of 'word')."""
    out = False
    i = sql.find(text)
    while i >= 0:
        a = i > 0 and wordy(sql[i - 1])
        b = i + len(text) < len(sql) and wordy(sql[i + len(text)])
        if not a and not b:
            return True
        if (a and not wordy(text[0])) or (b and not wordy(text[-1])):
            out = None
        i = sql.find(text, i + 1)
    return out


def answer(clauses, clause, text):
    """Expected has(clause, text): True, False, None = not judged."""
    if clause not in clauses:
        return False
    texts = [text]
    if clause.endswith('_options') or clause == 'select_for_update':
        if text.upper() != text:
            texts = [text.upper()] if text.lower() in OPTIONS + ['ignore', 'for', 'update', 'for update'] else [text, text.upper()]
    got = {whole(t, s) for t in texts for s in clauses[clause]}
    return got.pop() if len(got) == 1 else None


def ask(q, *a):
    try:
        r = q.has(*a)
    except Exception as e:
        raise Violation('has%r raises %s: %s' % (a, type(e).__name__, e))
    if r is not True and r is not False:
        raise Violation('has%r returns %r' % (a, r))
    return r


def question(g, clauses, clause):
    """A text to look for."""
    own = clauses.get(clause, ('', ''))[1]
    k = g.r.random()
    src = own
    if k < 0.25 and clauses:
        src = g.pick(sorted(clauses.values()))[1]
    if k > 0.9 or not src:
        return g.pick([g.string() or 'x', g.name(), g.pick(UNKNOWN) or 'x', g.pick(OPTIONS), g.pick(OPTIONS).upper(), 'FOR', 'update', 'IGNORE', 'ignore', '1', '%s', '{}', '.', '*',
                       'a.b', '(', ')', '[a-z]', '\\w', '^', '$', '+', '"', "'", '`', ' ', ',', 'AND', 'DESC', 'AS', 'NULL', 'JOIN', 'ON', 'Ｉ'])
    if k > 0.75:
        i = g.r.randrange(len(src))
        return src[i:i + g.r.randrange(1, 12)] or 'x'
    words = []
    w = ''
    for c in src + ' ':
        if wordy(c):
            w += c
        elif w:
            words.append(w)
            w = ''
    if not words:
        return src[:5]
    w = g.pick(words)
    j = g.r.random()
    if j < 0.5:
        return w
    if j < 0.65:
        return w[:-1] or w
    if j < 0.75:
        return w[1:] or w
    if j < 0.8:
        return w + g.pick(['x', '_', '1', '.', 'é'])
    if j < 0.9:
        return g.pick(['"%s"', '`%s`', "'%s'", '%s,', '.%s', '(%s', '%s)', ' %s ', '= %s', '%s.', '%s*', '^%s$', '%s|x', '.%s'[:0] + '%s?', '[%s]', '\\b%s']) % w
    return ''.join(g.pick(['.', c]) for c in w) if j < 0.96 else w.swapcase()


def inspect(g, q, sh, d, M, ctx, log):
    kind = sh.kind
    if kind == 'union':
        clauses = {}
        text = str(q)
    else:
        allowed = sh
        if kind in ('update', 'delete'):
            allowed = sh.clone()
            allowed.apply(Op('allow_%s_all' % kind, [], {}, None))
        text = str(allowed.build())
        try:
            clauses = cut(text, kind, d)
        except LexError as e:
            raise Violation('rendered SQL is not well-formed: %s' % e, sql=text)
    ctx['sql'] = text
    M[kind] += 1
    for name in ALL_NAMES:
        got = ask(q, name)
        want = name in clauses
        if got != want:
            raise Violation('has(%r) is %s, but the clause is %s' % (name, got, 'in the statement' if want else 'not in the statement'), sql=text)
        M['clause present' if want else 'clause absent'] += 1
    if kind == 'select':
        on = clauses.get('select_options', ('', ''))[0].lower().split()
        for o in OPTIONS:
            for spelled in (o, o.upper()) if g.p(0.2) else (o,):
                got = ask(q, spelled)
                if got != (o in on):
                    raise Violation('has(%r) is %s' % (spelled, got), sql=text)
            M['option on' if o in on else 'option off'] += 1
            if g.p(0.3) and ask(q, 'select_options', o) != (o in on):
                raise Violation("has('select_options', %r) is wrong" % o, sql=text)
    else:
        for o in OPTIONS:
            if ask(q, o):
                raise Violation('has(%r) is true for a query that cannot have it' % o, sql=text)
    for _ in range(2):
        u = g.pick(UNKNOWN)
        if u not in CLAUSES[kind]:
            t = (question(g, clauses, 'where'),) if g.p(0.5) else ()
            if ask(q, u, *t):
                raise Violation('has%r is true, there is no such clause' % ((u,) + t,), sql=text)
            M['unknown clause'] += 1
    for _ in range(10):
        clause = g.pick(CLAUSES[kind]) if CLAUSES[kind] and g.p(0.85) else g.pick(ALL_NAMES)
        if clauses and g.p(0.6):
            clause = g.pick(sorted(clauses))
        t = question(g, clauses, clause)
        if not t:
            continue
        want = answer(clauses, clause, t)
        v = t
        if g.p(0.05):
            v = g.pick([lambda: sp.C(t), lambda: int(t) if t.isascii() and t.isdigit() and str(int(t)) == t and t != '0' else t])()
        got = ask(q, clause, v)
        M.saw('%s|%s|%s' % (text, clause, t))
        if want is None:
            M['not judged'] += 1
            continue
        if got != want:
            raise Violation('has(%r, %r) is %s' % (clause, t, got), sql=text, clause=clauses.get(clause))
        M['text present' if want else 'text absent'] += 1
        if any(not wordy(c) for c in t):
            M['text with punctuation'] += 1
        elif not want and clause in clauses and t in clauses[clause][0]:
            M['part of a word'] += 1


def case(rng, M, ctx):
    g = G(rng)
    d = g.pick(DIALECTS)
    configure(d)
    ctx['dialect'] = d
    depth = g.pick([0, 0, 1])
    if g.p(0.06):
        sh = g.union(1)
        ctx['query'] = sh
        inspect(g, sh.build(), sh, d, M, ctx, None)
        return
    sh = pool.new(g, d, depth)
    if sh.kind == 'insert' and g.p(0.3):
        sh = g.new_insert()
        sh.pool = g.unique(3)
    q = sh.build()
    ctx['query'] = sh
    for _ in range(g.r.randrange(1, 6)):
        inspect(g, q, sh, d, M, ctx, None)
        for op in pool.ops(g, sh, d, depth):
            op.run(q)
            sh.apply(op, d)
    inspect(g, q, sh, d, M, ctx, None)
    if g.p(0.2):
        inspect(g, q.copy(), sh, d, M, ctx, None)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
