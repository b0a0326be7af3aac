"""C10: a SELECT contains exactly what was requested, each clause in its place."""
import sys

import _path                                                 # noqa: F401
from lib import bulk, runner
from lib.boot import DIALECTS
from lib.gen import G
from lib.judge import HOWS, Violation, compare, configure

PROP = 'C10'
QUICK, THOROUGH = 62500, 800000
RULE = ('Random histories of SELECT builder calls over all clauses; after a random subset of calls (always the last) the '
        'statement is rendered, parsed by an independent parser and compared with the reference model; distinct = distinct texts.')


def case(rng, M, ctx):
    g = G(rng, big=rng.random() < 0.02)
    d = g.pick(DIALECTS)
    configure(d)
    depth = g.pick([0, 1, 1, 2])
    if g.p(0.02):
        M['large'] += 1
        sh = bulk.select(g, d)
        q = sh.build()
    else:
        sh = g.new_select(depth)
        q = sh.start()
    ctx['dialect'], ctx['query'] = d, sh
    n = g.r.randrange(0, 13) if g.p(0.97) else g.size(120)
    for i in range(n):
        for op in g.select_op(sh, depth, full=d == 'postgresql'):
            r = op.run(q)
            if r is not q:
                raise Violation('%s does not return the query' % op.method)
            sh.apply(op, d)
            M[op.method] += 1
        if g.p(0.2):
            compare(q, sh, d, M)
    compare(q, sh, d, M, g.pick(HOWS))


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
