"""Mutation sweep (development tool, no check uses it).

python3 tools/mutate.py OUT.jsonl [--files GLOB] [--per-file N] [--workers W] [--seed S] [--skip OUT0.jsonl]
Each mutant of a package file is written to a scratch copy of /repo/src and the checks anchored in that
file are run against it (PYHIPP_SRC), first kill stops.  Survivors are then looked at by hand.
"""
import argparse, ast, fnmatch, json, os, queue, random, shutil, subprocess, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src'

CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.Mod: ['+'], ast.Pow: ['*'],
       ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.MatMult: ['*']}


class M(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = text.encode()
        self.out = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def rep(self, n, new, op):
        a, b = self.span(n)
        self.out.append((a, b, new, op, n.lineno))

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
        self.body(n.body)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.body(n.body)

    def body(self, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                continue
            if isinstance(s, (ast.Assign, ast.AugAssign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                self.rep(s, 'pass', 'del')
            if isinstance(s, ast.Assert):
                self.rep(s, 'pass', 'del-assert')
            self.visit(s)

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list):
                self.body(v)
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'body', 'orelse', 'finalbody') and isinstance(v, list) or f in ('annotation', 'returns'):
                continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    self.visit(c)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Raise = visit_Import

    def visit_If(self, n):
        if 'TYPE_CHECKING' in self.src(n.test):
            return
        self.rep(n.test, f'not ({self.src(n.test)})', 'negcond')
        self.visit(n.test)
        self.body(n.body)
        self.body(n.orelse)

    def visit_IfExp(self, n):
        self.rep(n.test, f'not ({self.src(n.test)})', 'negcond')
        for c in (n.test, n.body, n.orelse):
            self.visit(c)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.rep(n, f'{self.src(n.left)} {o} {self.src(n.comparators[0])}', 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        for o in BIN.get(type(n.op), []):
            self.rep(n, f'({self.src(n.left)}) {o} ({self.src(n.right)})', 'bin')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.rep(n, o.join(f'({self.src(v)})' for v in n.values), 'bool')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.rep(n, f'({self.src(n.operand)})', 'unary')
        if not isinstance(n.operand, ast.Constant):
            self.visit(n.operand)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.rep(n, str(not v), 'const')
        elif isinstance(v, int):
            self.rep(n, str(v + 1), 'const')
            if v > 1:
                self.rep(n, str(v - 1), 'const')
        elif isinstance(v, float):
            self.rep(n, repr(v * 1.01 if v else 0.01), 'const')
        elif isinstance(v, str) and '\n' not in v and len(v) < 40:
            self.rep(n, repr(v + 'X'), 'str')

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            self.rep(n, f'({self.src(n.args[0])})', 'unwrap')
        if isinstance(n.func, ast.Attribute) and (not n.args or n.func.attr in ('astype', 'sum', 'clip', 'reshape')):
            self.rep(n, f'({self.src(n.func.value)})', 'unmethod')
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1:
                a, b = self.span(k)
                t = self.b
                # drop a preceding or following comma
                a0 = a
                while a0 > 0 and t[a0 - 1:a0].isspace():
                    a0 -= 1
                if t[a0 - 1:a0] == b',':
                    self.out.append((a0 - 1, b, '', 'dropkw', k.value.lineno))
        if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            self.out.append((self.span(n.args[0])[0], self.span(n.args[1])[1], f'{self.src(n.args[1])}, {self.src(n.args[0])}', 'swap', n.lineno))
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_Slice(self, n):
        for x, f in ((n.lower, 'lower'), (n.upper, 'upper')):
            if x is not None:
                s = self.src(x)
                self.rep(x, '', 'slice')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        sw = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'minimum': 'maximum', 'maximum': 'minimum', 'sin': 'cos', 'cos': 'sin', 'mean': 'median',
              'float64': 'float32', 'float32': 'float64', 'int64': 'int32', 'log10': 'log', 'log': 'log10', 'argmax': 'argmin', 'argmin': 'argmax', 'rint': 'floor', 'round': 'floor'}
        if n.attr in sw:
            self.rep(n, f'{self.src(n.value)}.{sw[n.attr]}', 'attr')
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.rep(n, 'break', 'flow')

    def visit_Break(self, n):
        self.rep(n, 'continue', 'flow')


def mutants(path):
    t = open(path).read()
    m = M(t)
    m.body(ast.parse(t).body)
    seen = set()
    for a, b, new, op, line in m.out:
        r = (m.b[:a] + new.encode() + m.b[b:])
        try:
            d = ast.dump(ast.parse(r.decode()))
        except SyntaxError:
            continue
        if r in seen or d == ast.dump(ast.parse(t)):
            continue
        seen.add(r)
        yield r.decode(), op, line, m.b[a:b].decode()[:120], new[:120]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='*')
    ap.add_argument('--per-file', type=int, default=40)
    ap.add_argument('--workers', type=int, default=6)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--mult', default='1.0')
    ap.add_argument('--skip', action='append', default=[])
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
    by = {}
    for d in props:
        for f in d['anchors']['files']:
            by.setdefault(f, []).append(d['id'])
    extra = {'src/pyhipp/stats/kernel.py': ['S04', 'S03', 'C07'], 'src/pyhipp/stats/reduction.py': ['S02', 'C07', 'S03'], 'src/pyhipp/stats/binning.py': ['S01', 'C07', 'S04'],
             'src/pyhipp/core/abc.py': ['C07', 'C08', 'C09'], 'src/pyhipp/stats/sampling.py': ['S05'], 'src/pyhipp/core/dataproc/iter.py': ['C03']}
    by.update(extra)
    done = set()
    for p in a.skip + [a.out]:
        if os.path.exists(p):
            for l in open(p):
                d = json.loads(l)
                done.add((d['file'], d['line'], d['old'], d['new']))
    todo = []
    rnd = random.Random(a.seed)
    for root, _, fs in os.walk(f'{SRC}/pyhipp'):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            rel = os.path.relpath(f'{root}/{f}', '/repo')
            if not fnmatch.fnmatch(rel, a.files):
                continue
            if rel not in by:
                if a.count and os.path.getsize(f'{root}/{f}') > 600:
                    print('no check anchored in', rel)
                continue
            ms = [m for m in mutants(f'{root}/{f}') if (rel, m[2], m[3], m[4]) not in done]
            if a.count:
                print(len(ms), rel, by[rel])
            rnd.shuffle(ms)
            todo += [(rel, *m) for m in ms[:a.per_file]]
    rnd.shuffle(todo)
    print(len(todo), 'mutants')
    if a.count:
        return
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    base = tempfile.mkdtemp(prefix='mutants_')
    fp = open(a.out, 'a')

    def work(k):
        d = f'{base}/{k}'
        shutil.copytree(SRC, f'{d}/src', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree(V, f'{d}/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        while True:
            try:
                rel, text, op, line, old, new = q.get_nowait()
            except queue.Empty:
                return
            dst = f'{d}/{rel}'
            with open(dst, 'w') as f:
                f.write(text)
            res, t0 = {}, time.time()
            killed = None
            for pid in by[rel]:
                env = dict(os.environ, PYHIPP_SRC=f'{d}/src', VERIF_NOSHRINK='1', VERIF_SEED='1', VERIF_TIER='quick')
                try:
                    r = subprocess.run(['bash', 'run.sh', pid, '--no-evidence', '--fail-fast', '--jobs', str(a.jobs), '--mult', a.mult], cwd=f'{d}/v', env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True)
                    rc, tail = r.returncode, r.stdout[-300:]
                except subprocess.TimeoutExpired:
                    rc, tail = 'timeout', ''
                res[pid] = rc
                if rc == 1:
                    killed = pid
                    break
            shutil.copy(f'/repo/{rel}', dst)
            with lock:
                fp.write(json.dumps(dict(file=rel, line=line, op=op, old=old, new=new, killed=killed, res=res, t=round(time.time() - t0, 1),
                                         tail='' if killed else tail)) + '\n')
                fp.flush()

    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base)


main()
