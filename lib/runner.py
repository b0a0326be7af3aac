"""Runs the cases of one check in parallel, gathers what the monitors observed, writes the evidence.

Exit codes: 0 held on everything explored, 1 violation, 2 nothing (or too
little) was observed, 3 the harness itself failed.
"""
import hashlib
import json
import multiprocessing
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
from collections import Counter

from . import boot
from .judge import Violation
from .spec import DOUBT

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHUNK = 100
CASE_LIMIT = 240        # seconds; no case takes more than a few


class Hang(Exception):
    pass


class Monitor:
    """Counters of observed events, and hashes of distinct observations."""

    def __init__(self):
        self.counts = Counter()
        self.hashes = set()
        self.samples = []
        self.known = Counter()

    def __getitem__(self, k):
        return self.counts[k]

    def __setitem__(self, k, v):
        self.counts[k] = v

    def saw(self, text):
        self.counts['observations'] += 1
        h = hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).digest()
        if h not in self.hashes:
            self.hashes.add(h)
            if len(self.samples) < 40 and 20 < len(text) < 400 and len(self.hashes) % 17 == 1:
                self.samples.append(text)

    def finding(self, key):
        self.known[key] += 1


class Lines:
    """Which lines of the library were executed (sys.monitoring; each line reports once)."""

    def __init__(self):
        self.seen = set()

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        self.id = mon.COVERAGE_ID
        try:
            mon.use_tool_id(self.id, 'verif-lines')
        except ValueError:
            return

        def line(code, n):
            if code.co_filename.startswith(boot.PKG):
                self.seen.add((code.co_filename[len(boot.PKG) + 1:], n))
            return mon.DISABLE

        mon.register_callback(self.id, mon.events.LINE, line)
        mon.set_events(self.id, mon.events.LINE)


def executable_lines():
    out = set()

    def walk(code, f):
        if code.co_flags & 2:               # function bodies only; the rest ran at import
            for _, _, n in code.co_lines():
                if n and n != code.co_firstlineno:
                    out.add((f, n))
        for c in code.co_consts:
            if hasattr(c, 'co_lines'):
                walk(c, f)

    for root, _, files in os.walk(boot.PKG):
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(root, f)
                try:
                    with open(p, encoding='utf-8') as h:
                        walk(compile(h.read(), p, 'exec'), os.path.relpath(p, boot.PKG))
                except SyntaxError:
                    pass
    return out


def from_library(e):
    """Does the traceback of an exception end in the code under test?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(boot.PKG):
            last = 'lib'
        elif f.startswith(VERIF):
            last = 'harness'
        tb = tb.tb_next
    return last == 'lib'


def at_the_boundary(e):
    """Was the call itself refused: a public name, method or parameter is missing, or an object cannot be used as it could?"""
    if not isinstance(e, (TypeError, AttributeError)):
        return False
    text = str(e)
    if text.startswith("module 'sqlpuzzle"):
        return True
    classes, methods = set(), set()
    for m in [m for n, m in sys.modules.items() if n.split('.')[0] == 'sqlpuzzle']:
        for k, v in vars(m).items():
            if isinstance(v, type) and v.__module__.startswith('sqlpuzzle'):
                classes.add(v.__name__)
                methods.update(n for n in vars(v) if not n.startswith('_'))
            elif callable(v) and str(getattr(v, '__module__', '')).startswith('sqlpuzzle'):
                methods.add(k)
    m = re.match(r"(?:([\w.]+)\(\) (?:got|missing|takes|argument)|unhashable type: '(\w+)'|'(\w+)' object|.*instances? of '(\w+)'|(?:type object )?'(\w+)')", text)
    names = set(re.findall(r'\w+', ' '.join(x for x in m.groups() if x))) if m else set()
    if 'NoneType' in names and set(re.findall(r"attribute '(\w+)'", text)) & methods:
        return True
    return bool(names & (classes | methods))


def library_running():
    """Is any other thread inside the code under test right now?"""
    for f in sys._current_frames().values():
        while f is not None:
            if f.f_code.co_filename.startswith(boot.PKG):
                return True
            if f.f_code.co_filename.startswith(VERIF):
                break
            f = f.f_back
    return False


def case_rng(seed, prop, i):
    return random.Random('%s:%s:%d' % (seed, prop, i))


def on_alarm(*_):
    raise Hang()


def run_case(check, seed, i, M):
    """Returns None or a violation record."""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT)
    ctx = {}
    DOUBT.clear()
    cpu, t0 = time.process_time(), time.time()
    try:
        M['cases'] += 1
        check.case(case_rng(seed, check.PROP, i), M, ctx)
    except Violation as e:
        if DOUBT:
            M['cases left undecided'] += 1
            return None
        return dict(case=i, what=e.what, data={k: str(v)[:3000] for k, v in e.data.items()},
                    context={k: str(v)[:3000] for k, v in ctx.items()})
    except Hang as e:
        if not (from_library(e) or library_running() or time.process_time() - cpu < CASE_LIMIT / 20):
            M['cases left undecided (slow)'] += 1       # the harness itself is slow here: says nothing about the library
            return None
        return dict(case=i, what='no answer within %d s' % CASE_LIMIT, data={'traceback': traceback.format_exc()[-3000:]},
                    context={k: str(v)[:3000] for k, v in ctx.items()})
    except (Exception, RecursionError) as e:
        if from_library(e) or at_the_boundary(e):
            return dict(case=i, what='unexpected %s: %s' % (type(e).__name__, str(e)[:500]),
                        data={'traceback': traceback.format_exc()[-3000:]},
                        context={k: str(v)[:3000] for k, v in ctx.items()})
        e.case = i
        e.ctx = ctx
        raise
    finally:
        signal.alarm(0)
        boot.sp.configure('sql')
        if os.environ.get('VERIF_SLOW') and time.time() - t0 > float(os.environ['VERIF_SLOW']):
            print('slow: %s case %d %.1f s' % (check.PROP, i, time.time() - t0), file=sys.stderr, flush=True)
    return None


def _worker(check, seed, ids, deadline):
    M = Monitor()
    lines = Lines()
    lines.start()
    viol = []
    harness = None
    for i in ids:
        if time.time() > deadline:
            M['cases not run (time cap)'] += 1
            continue
        try:
            v = run_case(check, seed, i, M)
        except Exception as e:          # harness failure
            harness = 'case %d: %s\ncontext: %s' % (i, traceback.format_exc()[-4000:], str(getattr(e, 'ctx', ''))[:3000])
            break
        if v:
            v['first'] = ids[0]
            viol.append(v)
            break
    return M.counts, M.hashes, M.samples, M.known, viol, harness, lines.seen


_CHECK = None


def _pool_init(check):
    global _CHECK
    _CHECK = check
    if hasattr(check, 'setup'):
        check.setup()


def _pool_run(a):
    return _worker(_CHECK, *a)


def load_known(prop):
    """Known findings of a property: {key: description}."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop and w[2].startswith('key='):
                out[w[2][4:]] = w[3]
    return out


def main(check):
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    prop = check.PROP
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        return replay(check, sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
        tier = sys.argv[1]
    n = check.THOROUGH if tier == 'thorough' else check.QUICK
    n = int(os.environ.get('VERIF_CASES', n))
    cap = float(os.environ.get('VERIF_TIME_CAP', 600 if tier == 'thorough' else 200))
    deadline = t0 + cap
    os.environ['VERIF_TIER'] = tier
    M = Monitor()
    viols, harness, lines = [], None, set()
    procs = int(os.environ.get('VERIF_PROCS', min(8, os.cpu_count() or 1)))

    def absorb(r):
        nonlocal harness
        c, h, s, k, v, he, li = r
        M.counts.update(c)
        M.hashes.update(h)
        M.samples.extend(s)
        M.known.update(k)
        viols.extend(v)
        harness = harness or he
        lines.update(li)

    if n:
        chunk = getattr(check, 'CHUNK', CHUNK)
        jobs = [(seed, range(i, min(i + chunk, n)), deadline) for i in range(0, n, chunk)]
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(procs, _pool_init, (check,)) as pool:
            for r in pool.imap_unordered(_pool_run, jobs):
                absorb(r)
                if viols or harness:
                    break
            pool.terminate()
    if not viols and not harness and hasattr(check, 'extra'):
        try:
            for v in check.extra(seed, tier, M, deadline) or []:
                viols.append(v)
        except Exception as e:
            if from_library(e) or at_the_boundary(e):
                viols.append(dict(case=-1, what='unexpected %s: %s' % (type(e).__name__, e), data={'traceback': traceback.format_exc()[-3000:]}, context={}))
            else:
                harness = traceback.format_exc()[-4000:]
    known = load_known(prop)
    bad_known = [k for k in M.known if k not in known]
    for k in bad_known:
        viols.append(dict(case=-1, what='violation not listed as a known finding: ' + k, data={}, context={}))

    total = executable_lines()
    cov = dict(
        evaluations=M['cases'] + M['extra cases'], distinct_nontrivial=len(M.hashes), rule=check.RULE,
        samples=sorted(set(M.samples), key=lambda s: hashlib.md5(s.encode('utf-8', 'replace')).digest())[:8] or ['(none)'],
        events={k: v for k, v in sorted(M.counts.items()) if k not in ('cases', 'extra cases')},
        known_findings_seen=dict(M.known),
        library_lines_executed=len(lines & total), library_lines=len(total))
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(check, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(viols))
    path = os.path.join(ev_dir, prop + '.json')
    with open(path + '.tmp', 'w', encoding='utf-8') as h:
        json.dump(ev, h, indent=1, ensure_ascii=True, default=str)
    os.replace(path + '.tmp', path)

    for k in M.known:
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if viols:
        v = viols[0]
        rp = os.path.join(ev_dir, 'replay-%s.json' % prop)
        with open(rp, 'w', encoding='utf-8') as h:
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), h, indent=1, default=str)
        print('violation: %s' % v['what'])
        for part in ('data', 'context'):
            for k, x in v.get(part, {}).items():
                print('  %s: %s' % (k, str(x)[:1500]))
        print('replay with: /opt/venv/bin/python checks/%s.py --replay %s' % (prop.lower(), rp))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if harness:
        print('harness error:\n' + harness, file=sys.stderr)
        return 3
    need = getattr(check, 'NEED', ('observations',))
    for k in need:
        if not M.counts.get(k):
            print('inconclusive: the monitors observed no %r' % k, file=sys.stderr)
            return 2
    print('ok property=%s tier=%s seed=%d cases=%d distinct=%d lines=%d/%d %.1fs' % (
        prop, tier, seed, cov['evaluations'], len(M.hashes), len(lines & total), len(total), time.time() - t0))
    return 0


def replay(check, path):
    rec = json.load(open(path, encoding='utf-8'))
    os.environ['VERIF_TIER'] = rec.get('tier', 'quick')
    if hasattr(check, 'setup'):
        check.setup()
    i = rec['case']
    if i < 0:
        print('recorded outside the numbered cases; run the whole check again with VERIF_SEED=%s' % rec['seed'])
        return 2
    for start in (i, rec.get('first', i)):
        for j in range(start, i + 1):
            v = run_case(check, rec['seed'], j, Monitor())
            if v:
                print(json.dumps(v, indent=1))
                print('VIOLATION property=%s replay=%s' % (check.PROP, path))
                return 1
    print('not reproduced')
    return 0
