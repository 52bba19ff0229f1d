#!/opt/venv/bin/python
"""Mutation runs: how much of what the code does do the checks judge?

  mutate.py cover OUT.json             which sub-checks run which lines of xmps
  mutate.py run COVER.json OUT.jsonl FILE [FUNC ...]   mutate FILE (xmps/...), run covering sub-checks
  mutate.py one CASE.json              (internal) one mutant in its own process

Works on copies of /repo/xmps below /tmp/w/mut; nothing in /repo is touched.
Mutants: constants, operators, comparisons, conditions, dropped calls (conj, norm, ...), swapped
arguments, dropped statements, changed default values."""
import ast
import warnings
import json
import os
import random
import shutil
import subprocess
import sys
import time
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = '/tmp/w/mut'
PY = '/opt/venv/bin/python'
PROPS = ['C%02d' % k for k in range(1, 40) if os.path.exists('%s/checks/c%02d.py' % (ROOT, k))]


def cover_one(pid):
    sys.path.insert(0, ROOT)
    import pbt.core as core
    out = {}
    mon = sys.monitoring
    mon.use_tool_id(1, 'cover')
    cur = set()
    root = os.path.join(core.REPO, 'xmps') + os.sep

    def line(code, n):
        if code.co_filename.startswith(root):
            cur.add((code.co_filename[len(root):], n))
        return mon.DISABLE
    core.import_repo()
    prop = core.load_prop(pid)
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    for name, sub in prop.subs.items():
        sub.quick = min(sub.quick, 60)
        cur.clear()
        mon.restart_events()
        t = time.time()
        core.run_sub(prop, name, 'quick', 5, 100)
        out[pid + '/' + name] = dict(lines=sorted(cur), t=time.time() - t)
    json.dump(out, open('%s/cover-%s.json' % (BASE, pid), 'w'))


def cover(dst):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda p: subprocess.run([PY, '-W', 'ignore', __file__, 'cover1', p]), PROPS))
    d = {}
    for p in PROPS:
        d.update(json.load(open('%s/cover-%s.json' % (BASE, p))))
    json.dump(d, open(dst, 'w'))


# ------------------------------------------------------------------ mutants
OPS = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.MatMult: [], ast.FloorDiv: ['/'], ast.Mod: ['//'], ast.Pow: ['*']}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
DROP = {'c', 'conj', 'conjugate', 'C', 'H', 'cT', 'abs', 're', 'im', 'norm', 'sqrt', 'reversed', 'sorted', 'copy', 'squeeze', 'inv', 'max', 'min', 'list', 'real', 'imag'}
STR = {'left': 'right', 'right': 'left', 'l': 'r', 'r': 'l', 'ij': 'xy', 'bare': 'full'}


class Finder(ast.NodeVisitor):
    def __init__(self, src, off):
        self.src, self.off, self.out, self.fn = src, off, [], []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def add(self, n, new, a=None, b=None, kind=''):
        s = self.span(n)
        a, b = s[0] if a is None else a, s[1] if b is None else b
        if self.src[a:b] != new:
            self.out.append(dict(line=n.lineno, a=a, b=b, new=new, kind=kind, fn='.'.join(self.fn)))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.generic(d)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.fn.pop()

    def generic(self, n):
        self.visit(n)

    def visit(self, n):
        if isinstance(n, (ast.Assert, ast.Raise)):
            return
        if isinstance(n, ast.stmt) and self.fn and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
                isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) and not self._reassigned(n)):
            self.add(n, 'pass', kind='drop statement')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            self.add(n.test, 'True' if not isinstance(n, ast.While) else 'False', kind='cond')
            if not isinstance(n, ast.While):
                self.add(n.test, 'False', kind='cond')
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                self.add(n, str(not v), kind='const')
            elif isinstance(v, int):
                for w in {0: [1], 1: [0, 2], -1: [1]}.get(v, [v + 1, v - 1]):
                    self.add(n, str(w), kind='const')
            elif isinstance(v, float) or isinstance(v, complex):
                self.add(n, '(%r)' % (v * 2 if v else 1.), kind='const')
                if abs(v) < 1e-3:
                    self.add(n, '(%r)' % (v * 1e3 if v else 1.), kind='const')
            elif v in STR if isinstance(v, str) else False:
                self.add(n, repr(STR[v]), kind='str')
        if isinstance(n, ast.BinOp):
            la, lb = self.span(n.left), self.span(n.right)
            for o in OPS.get(type(n.op), []):
                mid = self.src[la[1]:lb[0]]
                sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**'}[type(n.op)]
                self.add(n, mid.replace(sym, o, 1), la[1], lb[0], kind='op')
            if isinstance(n.op, ast.MatMult):
                self.add(n, '(%s) @ (%s)' % (self.text(n.right), self.text(n.left)), kind='swap')
        if isinstance(n, ast.UnaryOp):
            self.add(n, '(%s)' % self.text(n.operand), kind='unary')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.add(n, '(%s) %s (%s)' % (self.text(n.left), CMP[type(n.ops[0])], self.text(n.comparators[0])), kind='cmp')
        if isinstance(n, ast.BoolOp):
            for k, v in enumerate(n.values):
                rest = [self.text(w) for q, w in enumerate(n.values) if q != k]
                j = ' and ' if isinstance(n.op, ast.And) else ' or '
                self.add(n, j.join('(%s)' % r for r in rest), kind='bool')
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('ncon', 'ncon_orig') and n.args:
                # index lists: errors on any change, nearly always
                self.visit(n.args[0])
                return
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if name in DROP and n.args and not isinstance(n.args[0], ast.Starred):
                self.add(n, '(%s)' % self.text(n.args[0]), kind='drop call')
            if name in DROP and not n.args and isinstance(f, ast.Attribute):
                self.add(n, '(%s)' % self.text(f.value), kind='drop call')
            if len(n.args) == 2 and not any(isinstance(a, (ast.Starred, ast.Constant)) for a in n.args) and name not in ('isinstance', 'hasattr', 'zip', 'range', 'enumerate', 'max', 'min'):
                a, b = self.span(n.args[0])[0], self.span(n.args[1])[1]
                self.add(n, '%s, %s' % (self.text(n.args[1]), self.text(n.args[0])), a, b, kind='swap args')
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1 and isinstance(k.value, (ast.Constant, ast.Name)):
                    a, b = self.off[k.lineno - 1] + k.col_offset, self.off[k.end_lineno - 1] + k.end_col_offset
                    pre = self.src[:a].rstrip()
                    if pre.endswith(','):
                        self.add(n, '', len(pre) - 1, b, kind='drop keyword')
        if isinstance(n, ast.Attribute) and n.attr in ('T', 'real', 'imag', 'H'):
            self.add(n, '(%s)' % self.text(n.value), kind='drop attr')
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2 and False:
            pass
        if isinstance(n, ast.FunctionDef):
            return self.visit_FunctionDef(n)
        if isinstance(n, ast.ClassDef):
            return self.visit_ClassDef(n)
        ast.NodeVisitor.generic_visit(self, n)

    def _reassigned(self, n):
        # x = f(x): dropping it leaves a defined name
        names = {t.id for t in ast.walk(n.targets[0]) if isinstance(t, ast.Name)}
        return names and names <= {t.id for t in ast.walk(n.value) if isinstance(t, ast.Name)}


def mutants(file):
    src = open('/repo/xmps/' + file).read()
    raw = src.encode()
    assert len(raw) == len(src) or True
    off = [0]
    for l in src.splitlines(True):
        off.append(off[-1] + len(l))
    f = Finder(src, off)
    f.visit(ast.parse(src))
    seen, out = set(), []
    for m in f.out:
        k = (m['a'], m['b'], m['new'])
        if k in seen:
            continue
        seen.add(k)
        new = src[:m['a']] + m['new'] + src[m['b']:]
        try:
            compile(new, file, 'exec')
        except SyntaxError:
            continue
        m['file'] = file
        m['was'] = src[m['a']:m['b']]
        m['text'] = src.splitlines()[m['line'] - 1].strip()
        out.append(m)
    return src, out


def one(path):
    """run the sub-checks of a mutant until one fails"""
    q = json.load(open(path))
    os.environ['XMPS_REPO'] = q['repo']
    sys.path.insert(0, ROOT)
    import pbt.core as core
    core._engine.MAX_SHRINKING_SECONDS = 0
    t0 = time.time()
    res = dict(killed=None)
    done = []
    try:
        core.import_repo()
    except Exception as e:
        print(json.dumps(dict(killed='import', msg=str(e)[:100])))
        return
    for key in q['subs']:
        if time.time() - t0 > q['limit']:
            res['timeout'] = True
            break
        pid, name = key.split('/')
        prop = core.load_prop(pid)
        sub = prop.subs[name]
        sub.quick = max(30, int(sub.quick * q.get('scale', 1)))
        sub.timeout = 40
        r = core.run_sub(prop, name, 'quick', 1, 60)
        done.append(key)
        if r['failure'] or r['error']:
            res = dict(killed=key, how='violation' if r['failure'] else 'error', msg=(r['failure'] or {}).get('message', r['error'] or '')[-160:])
            break
    res['n'] = len(done)
    res['wall'] = round(time.time() - t0, 1)
    print(json.dumps(res))


def work(args):
    k, m, src, subs, scale, limit = args
    d = '%s/w%d' % (BASE, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/xmps', d + '/xmps', ignore=shutil.ignore_patterns('__pycache__', 'projects'))
    open('%s/xmps/%s' % (d, m['file']), 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
    json.dump(dict(repo=d, subs=subs, scale=scale, limit=limit), open(d + '/q.json', 'w'))
    try:
        p = subprocess.run([PY, '-W', 'ignore', __file__, 'one', d + '/q.json'], capture_output=True, text=True, timeout=limit + 150)
        try:
            r = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            r = dict(killed='crash', msg=p.stderr[-300:])
    except subprocess.TimeoutExpired:
        r = dict(killed='hang')
    shutil.rmtree(d, ignore_errors=True)
    return dict(m, **r)


def run(cov, dst, file, fns):
    from concurrent.futures import ThreadPoolExecutor
    cov = json.load(open(cov))
    lines = {}
    total = {}
    for key, v in cov.items():
        for f, n in v['lines']:
            lines.setdefault((f, n), []).append(key)
        total[key] = v['t'] + len(v['lines']) / 100.
    src, ms = mutants(file)
    scale = float(os.environ.get('SCALE', .5))
    limit = float(os.environ.get('LIMIT', 60))
    jobs, n = [], 0
    rnd = random.Random(int(os.environ.get('SEED', 0)))
    frac = float(os.environ.get('FRAC', 1))
    for m in ms:
        if fns and not any(m['fn'].split('.')[-1] == f or m['fn'] == f for f in fns):
            continue
        if not m['fn'] or rnd.random() > frac:
            continue
        subs = set()
        # a line inside a multi-line expression belongs to the statement
        for q in range(m['line'], m['line'] + 1):
            subs |= set(lines.get((file, q), []))
        if not subs:
            m['killed'] = None
            m['uncovered'] = True
            with open(dst, 'a') as f:
                f.write(json.dumps(m) + '\n')
            continue
        subs = sorted(subs, key=lambda k: total[k])
        jobs.append((n, m, src, subs, scale, limit))
        n += 1
    print(file, len(jobs), 'mutants', flush=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex, open(dst, 'a') as f:
        for r in ex.map(work, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    os.makedirs(BASE, exist_ok=True)
    a = sys.argv
    if a[1] == 'cover':
        cover(a[2])
    elif a[1] == 'cover1':
        cover_one(a[2])
    elif a[1] == 'one':
        one(a[2])
    elif a[1] == 'list':
        for m in mutants(a[2])[1]:
            print(m['line'], m['fn'], m['kind'], repr(m['was'][:50]), '->', repr(m['new'][:50]))
    else:
        run(a[2], a[3], a[4], a[5:])
