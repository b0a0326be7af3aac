#!/opt/venv/bin/python
"""Mutation testing of the checks.   tools/mutants.py [-d DIVISOR] FOLDER [mutant numbers...]

Makes systematic mutants of /repo/sqlpuzzle, keeps those the test suite does not notice (FOLDER/survivors.json,
reused when present), runs the checks with 1/DIVISOR of their quick cases on each until one reports a violation,
and lists the mutants nobody noticed. All of it in scratch copies under FOLDER. Not part of any check.
"""
import argparse, ast, copy, difflib, hashlib, json, os, re, shutil, subprocess, sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/sqlpuzzle'
SW={ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Lt:[ast.LtE],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE],ast.GtE:[ast.Gt],ast.In:[ast.NotIn],ast.NotIn:[ast.In],ast.Is:[ast.IsNot,ast.Eq],ast.IsNot:[ast.Is]}
def docs(tree):
    d=set()
    for n in ast.walk(tree):
        b=getattr(n,'body',None)
        if isinstance(b,list) and b and isinstance(b[0],ast.Expr) and isinstance(b[0].value,ast.Constant): d.add(id(b[0].value))
    return d
def muts(n,isdoc,parent):
    """yield (desc, replacement node)"""
    if isinstance(n,ast.Compare) and len(n.ops)==1:
        for o in SW.get(type(n.ops[0]),[]):
            m=copy.deepcopy(n); m.ops=[o()]; yield 'cmp',m
    if isinstance(n,ast.BoolOp):
        m=copy.deepcopy(n); m.op=ast.Or() if isinstance(n.op,ast.And) else ast.And(); yield 'boolop',m
        for i in range(len(n.values)):
            vs=[v for j,v in enumerate(n.values) if j!=i]
            yield 'dropoperand%d'%i, vs[0] if len(vs)==1 else ast.BoolOp(n.op,vs)
    if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): yield 'not',n.operand
    if isinstance(n,ast.If):
        for v in (True,False):
            m=copy.deepcopy(n); m.test=ast.Constant(v); yield 'if%s'%v,m
    if isinstance(n,ast.IfExp):
        yield 'ifexp-body',n.body; yield 'ifexp-else',n.orelse
    if isinstance(n,ast.Constant) and not isdoc:
        v=n.value
        if v is True or v is False: yield 'bool',ast.Constant(not v)
        elif isinstance(v,int):
            yield 'int+1',ast.Constant(v+1)
            yield 'int-1',ast.Constant(v-1)
        elif isinstance(v,str) and v:
            yield 'str-empty',ast.Constant('')
            yield 'str-x',ast.Constant(v+'x')
            if v.strip()!=v: yield 'strip',ast.Constant(v.strip())
            if v.upper()!=v: yield 'upper',ast.Constant(v.upper())
        elif v is None: yield 'none->0',ast.Constant(0)
    if isinstance(n,ast.Return) and n.value is not None and not(isinstance(n.value,ast.Constant) and n.value.value is None):
        yield 'return none',ast.Return(ast.Constant(None))
    if isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign,ast.Raise,ast.Continue,ast.Break)) and not(isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)):
        yield 'delete',ast.Pass()
    if isinstance(n,ast.Call):
        for i in range(len(n.args)):
            m=copy.deepcopy(n); del m.args[i]; yield 'droparg%d'%i,m
        for i in range(len(n.keywords)):
            m=copy.deepcopy(n); del m.keywords[i]; yield 'dropkw%d'%i,m
        if len(n.args)==1 and not n.keywords and not isinstance(n.args[0],ast.Starred): yield 'unwrap',n.args[0]
        if isinstance(n.func,ast.Attribute) and not n.args and not n.keywords: yield 'unwrapmeth',n.func.value
        if len(n.args)==2:
            m=copy.deepcopy(n); m.args.reverse(); yield 'swapargs',m
    if isinstance(n,(ast.ListComp,ast.GeneratorExp,ast.SetComp)):
        g=n.generators[0]
        for i in range(len(g.ifs)):
            m=copy.deepcopy(n); del m.generators[0].ifs[i]; yield 'dropfilter',m
        m=copy.deepcopy(n); m.generators[0].iter=ast.parse('list(x)[1:]',mode='eval').body; m.generators[0].iter.value.args=[g.iter]; yield 'skipfirst',m
        m=copy.deepcopy(n); m.generators[0].iter=ast.parse('list(x)[:1]',mode='eval').body; m.generators[0].iter.value.args=[g.iter]; yield 'onlyfirst',m
        m=copy.deepcopy(n); m.generators[0].iter=ast.parse('list(x)[::-1]',mode='eval').body; m.generators[0].iter.value.args=[g.iter]; yield 'reverse',m
    if isinstance(n,ast.For):
        for s in ('[1:]','[:1]','[:-1]','[::-1]'):
            m=copy.deepcopy(n); m.iter=ast.parse('list(x)'+s,mode='eval').body; m.iter.value.args=[n.iter]; yield 'for'+s,m
    if isinstance(n,ast.Tuple) and isinstance(n.ctx,ast.Load) and len(n.elts)>1:
        for i in range(len(n.elts)):
            yield 'dropelt%d'%i,ast.Tuple([e for j,e in enumerate(n.elts) if j!=i],ast.Load())
    if isinstance(n,ast.List) and isinstance(n.ctx,ast.Load) and n.elts:
        for i in range(len(n.elts)):
            yield 'dropelt%d'%i,ast.List([e for j,e in enumerate(n.elts) if j!=i],ast.Load())
    if isinstance(n,ast.Dict) and n.keys:
        for i in range(len(n.keys)):
            yield 'dropkey%d'%i,ast.Dict([e for j,e in enumerate(n.keys) if j!=i],[e for j,e in enumerate(n.values) if j!=i])
    if isinstance(n,ast.BinOp):
        yield 'left',n.left
        yield 'right',n.right
        if isinstance(n.op,ast.Add): yield 'swap',ast.BinOp(n.right,n.op,n.left)
    if isinstance(n,ast.Try):
        yield 'notry',ast.If(ast.Constant(True),n.body,[])
    if isinstance(n,ast.FunctionDef):
        if n.decorator_list:
            m=copy.deepcopy(n); m.decorator_list=[]; yield 'nodecorator',m
        # the same function returning early: skip
def build():
    out=[];seen=set()
    for root,_,fs in sorted(os.walk(PKG)):
        for f in sorted(fs):
            if not f.endswith('.py'): continue
            p=os.path.join(root,f); src=open(p).read(); tree=ast.parse(src); dd=docs(tree); base=ast.unparse(tree)
            # enumerate nodes with parents
            def walk(n):
                for field,val in ast.iter_fields(n):
                    if isinstance(val,list):
                        for i,c in enumerate(val):
                            if isinstance(c,ast.AST):
                                yield n,field,i,c
                                yield from walk(c)
                    elif isinstance(val,ast.AST):
                        yield n,field,None,val
                        yield from walk(val)
            for par,field,i,node in list(walk(tree)):
                if isinstance(node,(ast.Import,ast.ImportFrom)): continue
                if isinstance(par,ast.JoinedStr): continue
                for desc,rep in muts(node,id(node) in dd,par):
                    if i is None: setattr(par,field,rep)
                    else: getattr(par,field)[i]=rep
                    try:
                        s=ast.unparse(ast.fix_missing_locations(tree)); compile(s,'x','exec')
                    except Exception: s=None
                    if i is None: setattr(par,field,node)
                    else: getattr(par,field)[i]=node
                    if s and s!=base:
                        h=hashlib.md5((p+s).encode()).hexdigest()
                        if h not in seen:
                            seen.add(h)
                            out.append((os.path.relpath(p,PKG),'%s:%d %s'%(os.path.relpath(p,PKG),getattr(node,'lineno',0),desc),s))
    return out

ORDER = 'C10 C05 C11 C19 C16 C12 C17 C15 C09 C06 C03 C01 C02 C04 C08 C13 C14 C07 C18'.split()
FIRST = (('insert', 'C11'), ('values', 'C11'), ('function', 'C16'), ('condition', 'C05'), ('tables', 'C12'), ('common', 'C01'), ('backends', 'C15'), ('union', 'C13'))


def cases(check):
    return int(re.search(r'QUICK, THOROUGH = (\d+)', open(os.path.join(HERE, 'checks', check.lower() + '.py')).read()).group(1))


def start(folder):
    global WORK, MINE
    WORK, MINE = '%s/w%d' % (folder, os.getpid()), '%s/v%d' % (folder, os.getpid())
    shutil.copytree('/repo', WORK, symlinks=True)
    os.mkdir(MINE)
    for name in ('checks', 'lib', 'known_findings.txt'):
        src = os.path.join(HERE, name)
        (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(MINE, name))


def with_mutant(f):
    def g(job):
        n, (path, what, source), arg = job
        p = os.path.join(WORK, 'sqlpuzzle', path)
        old = open(p).read()
        open(p, 'w').write(source)
        try:
            return n, f(path, arg)
        finally:
            open(p, 'w').write(old)
    return g


@with_mutant
def _tested(path, _):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/x', PYTHONPATH=WORK, PYTHONHASHSEED='0')
    try:
        r = subprocess.run([sys.executable, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'tests'], cwd=WORK, env=env, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return '476 passed' in r.stdout


@with_mutant
def _checked(path, divisor):
    first = [c for w, c in FIRST if w in path]
    for c in first + [c for c in ORDER if c not in first]:
        env = dict(os.environ, VERIF_REPO=WORK, VERIF_SEED='1', VERIF_PROCS='1', VERIF_CASES=str(int(cases(c) / divisor)))
        try:
            r = subprocess.run([sys.executable, 'checks/%s.py' % c.lower(), 'quick'], cwd=MINE, env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            return c
    return None


def tested(job):
    return _tested(job)


def checked(job):
    return _checked(job)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('folder')
    a.add_argument('-d', type=float, default=20)
    a.add_argument('numbers', nargs='*', type=int)
    a = a.parse_args()
    folder = os.path.abspath(a.folder)
    os.makedirs(folder, exist_ok=True)
    mutants = build()
    print(len(mutants), 'mutants', flush=True)
    kept = os.path.join(folder, 'survivors.json')
    with Pool(8, start, (folder,)) as pool:
        try:
            if a.numbers:
                alive = a.numbers
            elif os.path.exists(kept):
                alive = json.load(open(kept))
            else:
                alive = sorted(n for n, ok in pool.imap_unordered(tested, [(n, m, None) for n, m in enumerate(mutants)], 4) if ok)
                json.dump(alive, open(kept, 'w'))
            print(len(alive), 'pass the tests', flush=True)
            missed = 0
            for n, by in pool.imap_unordered(checked, [(n, mutants[n], a.d) for n in alive], 1):
                if by is None:
                    missed += 1
                    path, what, source = mutants[n]
                    base = ast.unparse(ast.parse(open(os.path.join(PKG, path)).read()))
                    diff = [l for l in difflib.unified_diff(base.split('\n'), source.split('\n'), n=0, lineterm='') if l[:1] in '+-' and l[:3] not in ('+++', '---')]
                    print(n, what, ' | '.join(l.replace('    ', '') for l in diff)[:240], flush=True)
            print(missed, 'of', len(alive), 'not noticed by any check')
        finally:
            for name in os.listdir(folder):
                if re.fullmatch(r'[wv]\d+', name):
                    shutil.rmtree(os.path.join(folder, name), ignore_errors=True)


if __name__ == '__main__':
    main()
