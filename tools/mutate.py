#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-k per_function] [-f fileglob] [-p parallel] [-s seed] [-F function]: small automatic changes
to a scratch copy of /repo, each run through the checks that executed the changed function (by evidence/*.json), until one
reports a violation.  Survivors are listed for reading: they are equivalent changes, or behaviour no check looks at."""
import warnings; warnings.simplefilter("ignore")
import argparse, ast, fnmatch, glob, json, os, random, shutil, subprocess, sys, threading, time, queue, tempfile
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('-k', type=int, default=3); ap.add_argument('-f', default='*')
ap.add_argument('-F', default=None); ap.add_argument('-p', type=int, default=4); ap.add_argument('-s', type=int, default=1)
ap.add_argument('-m', type=int, default=7); ap.add_argument('--procs', default='2')
A = ap.parse_args()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
cover = {}
times = {}
for f in glob.glob(VERIF + '/evidence/C*.json'):
    d = json.load(open(f))
    times[d['property']] = d['wall_s']
    for fn in d['coverage']['functions_encoded']:
        cover.setdefault(fn, set()).add(d['property'])
anchors = {}
for l in open(VERIF + '/properties.jsonl'):
    d = json.loads(l)
    anchors[d['id']] = json.dumps(d)

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants_of(src, fn, rnd):
    """(lineno, description, new source)"""
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new, what):
        s, e = span(n)
        old = b[s:e].decode()
        return (n.lineno, '%s: %s -> %s' % (what, old[:70], new[:70]), (b[:s] + new.encode() + b[e:]).decode())
    out = []
    seg = lambda n: b[slice(*span(n))].decode()
    args = [a.arg for a in fn.args.args if a.arg not in ('self', 'cls')]
    body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(getattr(fn.body[0], 'value', None), ast.Constant) else fn.body
    nodes = [n for s in body for n in ast.walk(s)] + [n for d in fn.args.defaults for n in ast.walk(d)]
    doc = {id(n.value) for n in nodes if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    for n in nodes:
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append(rep(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'compare'))
            out.append(rep(n, 'not (%s)' % seg(n), 'negate'))
        elif isinstance(n, ast.Compare):
            out.append(rep(n, 'not (%s)' % seg(n), 'negate'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(getattr(n.left, 'value', None), str):
            out.append(rep(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'binop'))
        elif isinstance(n, ast.BoolOp):
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            out.append(rep(n, '(' + (' %s ' % op).join('(%s)' % seg(v) for v in n.values) + ')', 'boolop'))
            out.append(rep(n, '(%s)' % seg(n.values[0]), 'boolop-drop'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append(rep(n, '(%s)' % seg(n.operand), 'unary'))
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            if n.value is True or n.value is False:
                out.append(rep(n, str(not n.value), 'const'))
            elif isinstance(n.value, (int, float)):
                out.append(rep(n, repr(n.value + 1 if n.value != 1 else 0), 'const'))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append(rep(n, '%s %s= %s' % (seg(n.target), BIN[type(n.op)], seg(n.value)), 'aug'))
            out.append(rep(n, 'pass', 'delete'))
        elif isinstance(n, (ast.Assign,)) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append(rep(n, 'pass', 'delete'))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append(rep(n, 'pass', 'delete'))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append(rep(n, 'pass', 'delete'))
        elif isinstance(n, ast.If):
            out.append(rep(n.test, 'True', 'if-true'))
            out.append(rep(n.test, 'False', 'if-false'))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in args and len(args) > 1:
            o = rnd.choice([a for a in args if a != n.id])
            out.append(rep(n, o, 'name'))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            a0, a1 = n.args[:2]
            s, _ = span(a0); _, e = span(a1)
            out.append((n.lineno, 'swap args: ' + seg(n)[:80], (b[:s] + seg(a1).encode() + b', ' + seg(a0).encode() + b[e:]).decode()))
        if isinstance(n, ast.Name) and n.id in ('i', 'j') and isinstance(n.ctx, ast.Load) and {'i', 'j'} <= {m.id for m in nodes if isinstance(m, ast.Name)}:
            out.append(rep(n, 'j' if n.id == 'i' else 'i', 'index'))
    ok = []
    for m in out:
        try:
            ast.parse(m[2]); ok.append(m)
        except SyntaxError:
            pass
    return ok


jobs = []
uncovered = []
rnd = random.Random(A.s)
for path in sorted(glob.glob(REPO + '/crowddynamics/**/*.py', recursive=True)):
    rel = os.path.relpath(path, REPO + '/crowddynamics')
    if 'tests' in rel or not fnmatch.fnmatch(rel, A.f):
        continue
    src = open(path).read()
    tree = ast.parse(src)

    def visit(node, prefix):
        for n in getattr(node, 'body', []):
            if isinstance(n, ast.ClassDef):
                visit(n, prefix + n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                q = prefix + n.name
                if A.F and A.F != q and A.F != n.name:
                    continue
                key = [k for k in cover if k.startswith(rel + ':') and (k.split(':')[1] == q or k.split(':')[1] == n.name or k.split(':')[1].startswith(q + '.'))]
                props = set().union(*[cover[k] for k in key]) if key else set()
                if not props:
                    uncovered.append('%s:%s' % (rel, q))
                    continue
                props = sorted(props, key=lambda p: (n.name not in anchors.get(p, ""), rel not in anchors.get(p, ""), times[p]))[:A.m]
                ms = mutants_of(src, n, rnd)
                rnd.shuffle(ms)
                for m in ms[:A.k]:
                    jobs.append((rel, q, m, props))
            elif isinstance(n, (ast.If, ast.Try)):
                visit(n, prefix)
    visit(tree, '')
done = set()
if os.path.exists(A.out):
    for l in open(A.out):
        d = json.loads(l)
        done.add((d['file'], d['line'], d['what']))
jobs = [j for j in jobs if (j[0], j[2][0], j[2][1]) not in done]
rnd.shuffle(jobs)
print(len(jobs), 'mutants;', len(uncovered), 'functions in no check:', ' '.join(uncovered))
sys.stdout.flush()
if A.p == 0:
    sys.exit()
q = queue.Queue()
for j in jobs:
    q.put(j)
lock = threading.Lock()
tmp = tempfile.mkdtemp(prefix='mut')
snap = tmp + '/verif'
subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'evidence', '--exclude', 'out', VERIF + '/', snap + '/']) if shutil.which('rsync') else \
    shutil.copytree(VERIF, snap, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'out', '__pycache__'))


def work(w):
    W = '%s/w%d' % (tmp, w)
    subprocess.run(['cp', '-a', REPO, W], check=True)
    V = '%s/v%d' % (tmp, w)
    shutil.copytree(snap, V)
    while True:
        try:
            rel, qn, (line, what, new), props = q.get_nowait()
        except queue.Empty:
            break
        f = '%s/crowddynamics/%s' % (W, rel)
        old = open(f).read()
        open(f, 'w').write(new)
        res, by, t0, note = 'survived', None, time.time(), []
        for p in props:
            try:
                r = subprocess.run(['python3-vt', 'check.py', p, 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=W, SYMX_PROCS=A.procs, SYMX_BUDGET='200'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 124
            if rc == 1:
                res, by = 'killed', p
                break
            if rc != 0:
                res, by = 'noanswer', p
            note += [l[:200] for l in (r.stdout if rc != 124 else '').splitlines() if l.startswith(('UNREPRODUCED total', 'ERROR', 'UNDECIDED total', 'INCONCLUSIVE total', 'NOTE'))][-4:]
        if res != 'killed':
            t = W + '/t.json'
            subprocess.run(['bash', '-c', 'true'])
        open(f, 'w').write(old)
        with lock:
            with open(A.out, 'a') as o:
                o.write(json.dumps(dict(file=rel, func=qn, line=line, what=what, result=res, by=by, props=props, note=note if res != 'killed' else [], s=round(time.time() - t0))) + '\n')


ts = [threading.Thread(target=work, args=(i,)) for i in range(A.p)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(tmp)
