#!/usr/bin/env python3
"""Mutation study (not a check): single-token mutants of skcurve that survive the
test suite are run against the checks.

   mutants.py gen OUT.json
   mutants.py tests OUT.json N        run the suite on every mutant in N scratch copies
   mutants.py checks OUT.json N       run the mapped checks on the survivors, N at a time
"""
import ast, json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
SRC = REPO + '/skcurve'
FILES = ['_base.py', '_diffgeom.py', '_distance.py', '_geomalg.py', '_interpolate.py', '_intersect.py', '_numeric.py', '_smooth.py', '_utils.py', 'curves.py', 'plot.py']
CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='),
       ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is'), ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Pow: ('**', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'), ast.MatMult: ('@', '*')}
SWAP = {'minimum': 'maximum', 'maximum': 'minimum', 'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'p1': 'p2', 'p2': 'p1', 'flipud': 'array',
        'hstack': 'vstack', 'sort': 'array', 'floor': 'ceil', 'isclose': 'equal', 'float64': 'float32', 'segment1': 'segment2', 'segment2': 'segment1'}

def gen(path):
    txt = open(path).read()
    lines = txt.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = txt.encode()
    tree = ast.parse(txt)
    res = []
    def off(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    def put(a, b, new, what, n):
        res.append([a, b, new, what, n.lineno, func[-1] if func else ''])
    func = []
    def seg(n):
        return raw[off(n):off(n, True)].decode()
    def between(l, r, old, new, what, n):
        a, b = off(l, True), off(r)
        s = raw[a:b].decode()
        i = s.find(old)
        if i >= 0:
            put(a + i, a + i + len(old), new, what, n)
    def visit(n, ann=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func.append(n.name)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d)
            for d in n.decorator_list:
                pass
            for c in n.body:
                visit(c)
            func.pop()
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value: visit(n.value)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if f.endswith('warnings.warn') or f == 'ty.cast' or f.startswith('ty.'):
                if f == 'ty.cast': visit(n.args[1])
                return
            for k in n.keywords:
                if k.arg:
                    a, b = off(k.value), off(k.value, True)
                    # drop the keyword with the preceding comma
                    i = raw.rfind(k.arg.encode(), 0, a)
                    j = raw.rfind(b',', 0, i)
                    if raw[j + 1:i].strip() == b'' and j > off(n.func, True):
                        put(j, b, '', 'drop keyword ' + k.arg, n)
            if len(n.args) == 2 and not n.keywords:
                put(off(n.args[0]), off(n.args[1], True), seg(n.args[1]) + ', ' + seg(n.args[0]), 'swap arguments', n)
        if isinstance(n, ast.Compare):
            l = n.left
            for o, r in zip(n.ops, n.comparators):
                old, new = CMP[type(o)]
                between(l, r, old, new, 'cmp', n)
                l = r
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            old, new = BIN[type(n.op)]
            between(n.left, n.right, old, new, 'bin', n)
        if isinstance(n, ast.BoolOp):
            old, new = (' and ', ' or ') if isinstance(n.op, ast.And) else (' or ', ' and ')
            for x, y in zip(n.values, n.values[1:]):
                s = raw[off(x, True):off(y)].decode()
                i = s.find(old.strip())
                put(off(x, True) + i, off(x, True) + i + len(old.strip()), new.strip(), 'bool', n)
        if isinstance(n, ast.UnaryOp):
            put(off(n), off(n.operand), '' if not isinstance(n.op, ast.Not) else 'not not ', 'unary', n)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(off(n), off(n, True), str(not v), 'const', n)
            elif isinstance(v, int):
                put(off(n), off(n, True), str(v + 1), 'const', n)
                if v > 0: put(off(n), off(n, True), str(v - 1), 'const', n)
            elif isinstance(v, float):
                put(off(n), off(n, True), repr(v * 2 + 1), 'const', n)
            elif v is None:
                pass
            return
        if isinstance(n, (ast.Attribute, ast.Name)):
            name = n.attr if isinstance(n, ast.Attribute) else n.id
            if name in SWAP and not isinstance(n.ctx, ast.Store):
                put(off(n, True) - len(name), off(n, True), SWAP[name], 'swap name', n)
        if isinstance(n, (ast.If, ast.IfExp)):
            put(off(n.test), off(n.test, True), 'not (' + seg(n.test) + ')', 'negate', n)
            put(off(n.test), off(n.test, True), 'False', 'never', n)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if func:
                s = seg(n)
                if 'warnings.warn' not in s:
                    put(off(n), off(n, True), 'pass' , 'delete statement', n)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.AnnAssign) and c is n.annotation: continue
            visit(c)
    for c in tree.body:
        visit(c)
    return res

MAP = {'_diffgeom.py': ['C08', 'C09', 'C07', 'C21', 'C10', 'C02'], '_distance.py': ['C06', 'C02'], '_geomalg.py': ['C11', 'C12', 'C13', 'C16', 'C14', 'C15'],
       '_interpolate.py': ['C17', 'C18', 'C20', 'C02'], '_intersect.py': ['C14', 'C15', 'C16', 'C20', 'C02'], '_numeric.py': ['C05', 'C18', 'C08', 'C11', 'C23'],
       '_smooth.py': ['C19', 'C20', 'C02'], '_utils.py': ['C01'], 'curves.py': ['C22'], 'plot.py': ['C23'],
       '_base.py': ['C01', 'C03', 'C04', 'C05', 'C06', 'C10', 'C13', 'C21', 'C02', 'C11', 'C12', 'C14', 'C15']}
FIRST = {'segment_point': ['C13'], 'segment_t': ['C13'], 'segments_angle': ['C11'], 'parallel_segments': ['C11'], 'collinear_points': ['C11'], 'coplanar_points': ['C11'],
         'overlap_segments': ['C13'], 'segment_to_point': ['C12'], 'segment_to_segment': ['C12'], 'segments_to_segments': ['C16'],
         'curvature': ['C09'], 'torsion': ['C09'], 'coorientplane': ['C21'], 'nonsingular': ['C21'], 'chordlen': ['C07'], 'arclen': ['C07'], 'cumarclen': ['C07'],
         'AlmostIntersectionMethod': ['C16'], '_correct_overlap': ['C16'], '_remove_extra_intersections': ['C16'], 'linrescale': ['C18'],
         'register_intersect_method': ['C20'], 'register_interpolator': ['C20'], 'register_smooth_method': ['C20'], 'decorator': ['C20'],
         '_fill': ['C18'], 'UniformInterpolationGrid': ['C18'], 'UniformExtrapolationGrid': ['C18'], 'PreservedSpeedInterpolationGrid': ['C18'],
         'interpolate': ['C17'], 'smooth': ['C19'], 'index': ['C05'], 'count': ['C05'], '__contains__': ['C05'], '__eq__': ['C05'], 'insert': ['C03'],
         'delete': ['C03'], 'drop': ['C03', 'C21'], 'unique': ['C21', 'C04'], 'insertdim': ['C03'], 'deletedim': ['C03'], 'appenddim': ['C03'], 'reverse': ['C03'],
         '_op': ['C06'], 'distance': ['C06', 'C12'], 'subcurve': ['C10'], 'singular': ['C13'], 'to_curve': ['C13'], 'seglen': ['C13'], 't': ['C04', 'C13'],
         'shortest_segment': ['C12'], 'collinear': ['C11'], 'parallel': ['C11'], 'coplanar': ['C11'], 'angle': ['C11'], 'intersect': ['C14', 'C15'],
         '__getitem__': ['C03', 'C01'], 'segments': ['C10'], 'values': ['C01'], 'isplane': ['C11']}

def main():
    mode, out = sys.argv[1:3]
    if mode == 'gen':
        M = []
        for f in FILES:
            for m in gen(os.path.join(SRC, f)):
                M.append(dict(id=len(M), file=f, a=m[0], b=m[1], new=m[2], what=m[3], line=m[4], func=m[5]))
        json.dump(M, open(out, 'w'), indent=0)
        print(len(M))
        return
    n = int(sys.argv[3])
    M = json.load(open(out))
    base = tempfile.mkdtemp(prefix='mut-')
    copies = Queue()
    for i in range(n):
        c = os.path.join(base, 'r%d' % i)
        shutil.copytree(REPO, c, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs', 'examples'))
        copies.put(c)
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=base)
    import threading
    lock = threading.Lock()
    def job(m):
        c = copies.get()
        f = os.path.join(c, 'skcurve', m['file'])
        raw = open(os.path.join(SRC, m['file']), 'rb').read()
        try:
            new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                m['tests'] = 'syntax'
                return
            open(f, 'wb').write(new)
            if mode == 'tests':
                try:
                    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=c, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
                    m['tests'] = 'pass' if p.returncode == 0 else 'fail'
                except subprocess.TimeoutExpired:
                    m['tests'] = 'timeout'
            else:
                m['checks'] = {}
                first = FIRST.get(m['func'], [])
                for pid in m.get('pids') or (first or MAP[m['file']])[:int(os.environ.get('MUT_CHECKS', '2'))]:
                    v = os.path.join(base, 'v' + os.path.basename(c))
                    if not os.path.exists(v):
                        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
                    p = subprocess.run(['python3', 'run.py', pid, '--workers', '1', '--scale', os.environ.get('MUT_SCALE', '0.6')],
                                       cwd=v, env=dict(env, VERIF_REPO=c, VERIF_MAX_FAILS='1'), capture_output=True, text=True)
                    m['checks'][pid] = p.returncode
                    if p.returncode == 1:
                        break
        finally:
            open(f, 'wb').write(raw)
            copies.put(c)
            with lock:
                done[0] += 1
                if done[0] % 20 == 0:
                    json.dump(M, open(out + '.tmp', 'w'), indent=0)
                    os.replace(out + '.tmp', out)
                    print(done[0], flush=True)
    done = [0]
    todo = [m for m in M if (mode == 'tests' and 'tests' not in m) or (mode == 'checks' and m.get('tests') == 'pass' and 'checks' not in m)]
    print(len(todo), flush=True)
    try:
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(job, todo))
        json.dump(M, open(out, 'w'), indent=0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
main()
