"""C18: concurrent use from several threads gives the same results as sequential use."""
import copy
import re
import sys

import _path                                                 # noqa: F401
from lib import bulk, pool, runner, sched
from lib.boot import DIALECTS, exc, sp
from lib.gen import G
from lib.judge import HOWS, Violation, check_text, configure, render
from lib.shadow import Raises
from lib.spec import RW, VW

PROP = 'C18'
QUICK, THOROUGH = 2200, 40000
CHUNK = 25
RULE = ('Two to four threads run generated programs (building, copying, rendering, comparing and inspecting their own queries, or '
        'rendering, copying, comparing, inspecting and nesting one shared query) under a controlled scheduler that switches threads at '
        'lines or opcodes of the library: random switching, PCT priorities, and single preemptions at chosen points; and freely with a '
        'tiny switch interval. Small programs (one kind of call each) are run with the first thread preempted at each of its points in turn. Each thread\'s results must equal those of the same program run alone, and its statements those of the '
        'reference model. Distinct = distinct schedules (sequence of switch locations) together with the programs\' results.')
ASSUMPTIONS = ['the backend is not reconfigured while threads run', 'the interpreter switches threads between bytecodes (GIL build)']
NEED = ('observations', 'own programs', 'shared programs', 'switches', 'random schedules', 'preempting schedules', 'priority schedules',
        'free runs', 'opcode runs', 'line runs', 'preempted at every point')


def attempt(f):
    try:
        return f()
    except exc.SqlPuzzleException as e:
        return 'raises ' + type(e).__name__
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, e)


# ---------------------------------------------------------------- programs on own queries

def own_program(g, d):
    """A list of steps for one thread, with the model of what each render must say."""
    sh = pool.new(g, d, g.pick([0, 1, 1]))
    base = sh.clone()
    steps = []
    for _ in range(g.r.randrange(1, 5)):
        for op in pool.ops(g, sh, d, 1):
            sh.apply(op, d)
            steps.append(('op', op))
        k = g.r.random()
        if k < 0.35:
            steps.append(('render', g.pick(HOWS), sh.clone()))
        elif k < 0.5:
            steps.append(('has', g.pick(pool.PARTS), g.pick([(), ('a',), ('id',)])))
        elif k < 0.6:
            steps.append(('copy',))
        elif k < 0.7:
            steps.append(('same',))
    steps.append(('render', g.pick(HOWS), sh.clone()))

    def program():
        q, out, saved = base.build(), [], []
        for s in steps:
            if s[0] == 'op':
                out.append(attempt(lambda: s[1].run(q) is q))
            elif s[0] == 'render':
                out.append(attempt(lambda: render(q, s[1])))
            elif s[0] == 'has':
                out.append(attempt(lambda: q.has(s[1], *s[2])))
            elif s[0] == 'copy':
                c = q.copy()
                out.append(attempt(lambda: c == q))
                saved.append(c)
            else:
                out.append([attempt(lambda: q == x) for x in saved])
        out.append([attempt(lambda: render(x)) for x in saved])
        return out

    def judge(out):
        for s, r in zip(steps, out):
            if s[0] == 'render':
                want = s[2].exp(d)
                if isinstance(want, Raises):
                    if r != 'raises ' + want.name:
                        raise Violation('expected %s' % want.name, got=r)
                else:
                    check_text(r, want, d)

    program.judge = judge
    program.text = '%r then %r' % (base, steps)
    return program


# ---------------------------------------------------------------- programs on a shared query

def shared_steps(g, sh):
    steps = []
    for _ in range(g.r.randrange(1, 5)):
        k = g.r.randrange(13)
        if k < 4:
            steps.append(('render', g.pick(HOWS)))
        elif k == 4:
            steps.append(('has', g.pick(pool.PARTS), g.pick([(), ('a',), ('id',), ('*',)])))
        elif k == 5:
            steps.append(('copy', g.p(0.5)))
        elif k == 6:
            steps.append(('equal', g.p(0.5)))
        elif k == 7:
            steps.append(('mangle', g.r.random()))
        elif k == 8:
            steps.append(('hash',))
        elif sh.kind in ('select', 'union'):
            steps.append(('nest', g.r.randrange(7), g.pick(HOWS)))
        else:
            steps.append(('render', g.pick(HOWS)))
    return steps


NEST = [lambda q: sp.select_from((q, 'x')), lambda q: sp.select(q), lambda q: sp.select_from('t').where('a', q),
        lambda q: sp.select_from('t').where(sp.exists(q)), lambda q: sp.select_from('t').where(a=sp.relations.IN(q)),
        lambda q: sp.select_from('t').join((q, 'j')).on('a', 'b'), lambda q: q | sp.select('z')]


def shared_program(steps, q, other):
    def one(s):
        if s[0] == 'render':
            return render(q, s[1])
        if s[0] == 'has':
            return q.has(s[1], *s[2])
        if s[0] == 'copy':
            c = q.copy() if s[1] else copy.deepcopy(q)
            return attempt(lambda: render(c)), attempt(lambda: c == q)
        if s[0] == 'equal':
            return [attempt(lambda: q == other), attempt(lambda: other != q)] if s[1] else attempt(lambda: q == q)
        if s[0] == 'mangle':
            c = q.copy()
            pool.mangle(G(runner.case_rng(s[1], 'mangle', 0)), c)
            return attempt(lambda: render(c)), attempt(lambda: c == q)
        if s[0] == 'hash':
            hash(q)
            return 'hashed'
        return render(NEST[s[1]](q), s[2])

    return lambda: [attempt(lambda: one(s)) for s in steps]


# ---------------------------------------------------------------- small programs, preempted at every point

def small(g, d):
    """make() -> programs: each thread does one or two things of the same kind, on one shared query or on its own ones."""
    n = g.pick([2, 2, 2, 3])
    kind = g.pick(['has', 'has', 'render', 'render', 'build', 'build', 'copy', 'equal', 'part', 'part'])
    shared = kind in ('has', 'render', 'copy', 'equal') and g.p(0.5)
    if kind == 'part':
        specs = [[g.wpick((2, lambda: g.fn(1)), (2, lambda: VW(g.scalar())), (1, lambda: RW(g.name())), (1, g.custom))() for _ in range(g.pick([1, 1, 2]))]
                 for _ in range(n)]
        return kind, specs, lambda: [lambda s=s: [attempt(lambda: render(x.make())) for x in s] for s in specs]
    shs = []
    for _ in range(1 if shared else n):
        sh = pool.new(g, d, g.pick([0, 0, 1]))
        ops = []
        for _ in range(g.pick([0, 1, 1, 2, 3])):
            for op in pool.ops(g, sh, d, 0):
                sh.apply(op, d)
                ops.append(op)
        shs.append(sh)
    if kind == 'build':
        return kind, shs, lambda: [lambda sh=sh: [attempt(lambda: render(sh.build()))] for sh in shs]
    shs = [shs[i % len(shs)] for i in range(n)]
    asks = []
    for sh in shs:
        q = sh.build()
        words = re.findall(r'\w+', pool.text_or_error(q))
        parts = [x for x in pool.PARTS[:16] if attempt(lambda: q.has(x)) is True]
        pairs = [(x, w) for x in parts for w in words if attempt(lambda: q.has(x, w)) is True]
        asks.append([g.pick(pairs) if pairs and g.p(0.5) else (g.pick(parts or pool.PARTS), g.pick(words + ['zz', 'a'])) for _ in range(g.pick([1, 1, 2]))])
    how = g.pick(HOWS)

    def make():
        if shared:
            qs = [shs[0].build()] * n
        else:
            qs = [sh.build() for sh in shs]
        others = [sh.build() for sh in shs]
        if kind == 'has':
            return [lambda q=q, a=a: [attempt(lambda: q.has(*x)) for x in a] for q, a in zip(qs, asks)]
        if kind == 'render':
            return [lambda q=q: [attempt(lambda: render(q, how))] for q in qs]
        if kind == 'copy':
            return [lambda q=q: [attempt(lambda: render(q.copy(), how))] for q in qs]
        return [lambda q=q, o=o: [attempt(lambda: q == o), attempt(lambda: o == q)] for q, o in zip(qs, others)]
    return kind, (shs, asks if kind == 'has' else ''), make


def everywhere(g, d, M, ctx):
    kind, ctx['programs'], make = small(g, d)
    M['small ' + kind] += 1
    opcodes, copies = g.p(0.12), kind == 'copy' and g.p(0.3)
    n = len(make())
    want = [p() for p in make()]
    length = sched.length(make()[0], opcodes, copies)
    points = list(range(length))
    most = 60
    if length > most:
        points = g.r.sample(points, most)
    else:
        M['preempted at every point'] += 1
    for k in points:
        at = [k] + [-1] * (n - 1)
        if g.p(0.2):
            at[1] = g.r.randrange(max(1, length))
        r = sched.Run(make(), sched.Preempt(g.r, n, at, list(range(n))), opcodes, copies)
        out = r.go()
        M['switches'] += r.switches
        M['points'] += sum(r.counts)
        M['runs left to the interpreter'] += r.free
        M.saw('%s %s' % (r.trail.hexdigest(), out))
        if out != want:
            raise Violation('thread got other results than alone, when thread 0 was preempted at point %d' % k, alone=want, concurrent=out)
        if r.free:
            break


# ---------------------------------------------------------------- schedules

def strategy(g, n, lengths, M):
    k = g.r.random()
    if k < 0.3:
        M['random schedules'] += 1
        return sched.RandomSwitch(g.r, n, g.pick([0.01, 0.05, 0.2, 0.2, 0.5, 1.0]))
    if k < 0.8:
        M['preempting schedules'] += 1
        at = [g.r.randrange(max(1, x)) for x in lengths]
        if g.p(0.5):                            # only one of them
            keep = g.r.randrange(n)
            at = [a if i == keep else -1 for i, a in enumerate(at)]
        return sched.Preempt(g.r, n, at)
    M['priority schedules'] += 1
    return sched.Priorities(g.r, n, sum(lengths), g.r.randrange(1, 5))


def execute(g, programs, lengths, opcodes, copies, M):
    if g.p(0.06):
        M['free runs'] += 1
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            return sched.Run(programs, None).go()
        finally:
            sys.setswitchinterval(old)
    r = sched.Run(programs, strategy(g, len(programs), lengths, M), opcodes, copies)
    out = r.go()
    M['opcode runs' if opcodes else 'line runs'] += 1
    M['switches'] += r.switches
    M['points'] += sum(r.counts)
    M['runs left to the interpreter'] += r.free
    M['distinct switch locations in a run'] += len(r.where)
    M.saw('%s %s' % (r.trail.hexdigest(), out))
    return out


def case(rng, M, ctx):
    g = G(rng)
    d = ctx['dialect'] = g.pick(DIALECTS)
    configure(d)
    n = g.pick([2, 2, 2, 3, 4])
    size = g.size
    g.size = lambda cap=1100: size(min(cap, 40))                # every line of the library is a scheduling point
    if g.p(0.3):
        return everywhere(g, d, M, ctx)
    opcodes, copies = g.p(0.12), g.p(0.15)
    if g.p(0.4):
        M['own programs'] += 1
        programs = [own_program(g, d) for _ in range(n)]
        if g.p(0.3):
            programs = [programs[0]] * n        # the same calls, on separate objects
        ctx['programs'] = '\n'.join(p.text for p in programs)
        make = lambda: programs                 # noqa: E731
    else:
        M['shared programs'] += 1
        sh = pool.whole(g, d, 1, (0, 5), 0.15)
        if g.p(0.06):
            sh = bulk.query(g, d, ('select', 'select', 'insert', 'update', 'delete', 'union'))
            M['large'] += 1
        steps = [shared_steps(g, sh) for _ in range(n)]
        if g.p(0.3):
            steps = [steps[0]] * n
        ctx['query'], ctx['steps'] = sh, steps
        warm = g.p(0.3)

        def make():
            q, other = sh.build(), sh.build()
            if warm:
                attempt(lambda: render(q))
            return [shared_program(s, q, other) for s in steps]

    outs = []
    lengths = [g.r.randrange(20, 1500) * (4 if opcodes else 1) for _ in range(n)]
    for _ in range(g.r.randrange(2, 6)):
        outs.append(execute(g, make(), lengths, opcodes, copies, M))
        if len(outs) == 1:
            lengths = [sched.length(p, opcodes, copies) for p in make()]
    want = []
    for i in range(n):                          # alone, on fresh objects, and after the concurrent runs
        want.append(make()[i]())
    for out in outs:
        for i in range(n):
            if out[i] != want[i]:
                raise Violation('thread %d got other results than alone' % i, alone=want[i], concurrent=out[i])
    if hasattr(make()[0], 'judge'):
        for p, w in zip(make(), want):
            p.judge(w)
    else:
        exp = sh.exp(d)
        for s, w in zip(steps, want):
            for step, r in zip(s, w):
                if step[0] == 'render' and not isinstance(exp, Raises):
                    check_text(r, exp, d)


if __name__ == '__main__':
    sys.exit(runner.main(sys.modules[__name__]))
