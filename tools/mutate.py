#!/usr/bin/env python3
"""Systematic small mutations of the library, to find out what the checks do not see.

   mutate.py list [FILE..]                 number of mutants per file
   mutate.py run OUT.jsonl SEED WORKERS [FILE..]   run tests, then the checks of that file
Works on scratch copies of /repo and /verif in /dev/shm only. Not a check."""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UPM = ['C17', 'C11', 'C13', 'C10', 'C09', 'C12', 'C15', 'C14', 'C16', 'C27']
ROOM = ['C21', 'C20', 'C19', 'C17', 'C26', 'C32']
MAP = {
    'redeclipse/__init__.py': ['C28', 'C03', 'C02', 'C31', 'C04', 'C01'],
    'redeclipse/objects.py': ['C28', 'C06', 'C02', 'C04', 'C01'],
    'redeclipse/entities/__init__.py': ['C03', 'C26', 'C04', 'C02', 'C01'],
    'redeclipse/entities/model.py': ['C03', 'C01'], 'redeclipse/entities/weapon.py': ['C03', 'C01'],
    'redeclipse/enums.py': ['C03', 'C04', 'C01'],
    'redeclipse/vector/__init__.py': ['C07', 'C08'], 'redeclipse/vector/re.py': ['C07', 'C08'], 'redeclipse/vector/orientations.py': ['C07', 'C08', 'C18', 'C19'],
    'redeclipse/voxel/__init__.py': ['C05', 'C06', 'C28'],
    'redeclipse/upm.py': UPM, 'redeclipse/prefabs/__init__.py': ROOM, 'redeclipse/prefabs/castle/__init__.py': ROOM + ['C24'],
    'redeclipse/prefabs/egypt/__init__.py': ROOM + ['C24'], 'redeclipse/prefabs/dungeon/__init__.py': ROOM + ['C24'],
    'redeclipse/prefabs/spacestation/__init__.py': ROOM + ['C24'], 'redeclipse/prefabs/original/__init__.py': ROOM + ['C24'],
    'redeclipse/prefabs/distributions.py': ['C17'], 'redeclipse/prefabs/construction_kit.py': ['C18', 'C25', 'C19'],
    'redeclipse/prefabs/magica.py': ['C24', 'C20', 'C21', 'C19'],
    'redeclipse/textures/__init__.py': ['C22', 'C28'], 'redeclipse/textures/basetex.py': ['C22'],
    'redeclipse/magicavoxel/writer.py': ['C23'], 'redeclipse/magicavoxel/reader.py': ['C24', 'C31', 'C30', 'C23'],
    'redeclipse/aftereffects.py': ['C25'], 'redeclipse/lighting/__init__.py': ['C26', 'C27'],
    'redeclipse/worldflavors.py': ['C28', 'C02'], 'redeclipse/skybox/__init__.py': ['C28', 'C02'],
    'redeclipse/cli/__init__.py': ['C28', 'C13'], 'redeclipse/cli/magica_rooms.py': ['C29', 'C27'],
    'redeclipse/cli/snow_forest.py': ['C33'], 'redeclipse/cli/perlin.py': ['C33'],
    'redeclipse/cli/magicavoxel_info.py': ['C30'], 'redeclipse/cli/iso.py': ['C30'], 'redeclipse/cli/to_json.py': ['C04'], 'redeclipse/cli/from_json.py': ['C04'],
}
DIRS = {'NORTH': ['SOUTH', 'EAST'], 'SOUTH': ['NORTH', 'WEST'], 'EAST': ['WEST', 'NORTH'], 'WEST': ['EAST', 'SOUTH'], 'ABOVE': ['SELF'], 'SELF': ['ABOVE'],
        'ABOVE_FINE': ['ABOVE'], 'HALF_HEIGHT': ['ABOVE'], 'NORTHEAST': ['NORTHWEST'], 'NORTHWEST': ['SOUTHWEST'], 'SOUTHEAST': ['NORTHEAST'], 'SOUTHWEST': ['SOUTHEAST']}
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.Div: ['//', '*'], ast.FloorDiv: ['/'], ast.Mod: ['+'], ast.Pow: ['*'], ast.BitAnd: ['|'], ast.BitOr: ['&', '^'], ast.LShift: ['>>'], ast.RShift: ['<<']}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def rep(n, text, what):
        s, e = pos(n)
        out.append((n.lineno, what, b[:s] + text.encode() + b[e:]))
    seg = lambda n: b[slice(*pos(n))].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0])); skip.add(id(n.body[0].value))
        if isinstance(n, ast.If) and 'verbose' in seg(n.test) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('log', 'logging', 'logger', 'parser', 'pbar', 'warnings'):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__', 'line_points'):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and '__name__' in seg(n.test):
            for x in ast.walk(n):
                skip.add(id(x))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, repr(not v), '%r -> %r' % (v, not v))
            elif isinstance(v, int):
                for w in {v + 1, v - 1}:
                    rep(n, '(%d)' % w if w < 0 else str(w), '%r -> %r' % (v, w))
            elif isinstance(v, float):
                rep(n, repr(v * 2 + .5), '%r -> %r' % (v, v * 2 + .5))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, '(%s %s %s)' % (seg(n.left), o, seg(n.comparators[0])), 'compare %s' % o)
        elif isinstance(n, ast.BinOp) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))):
            for o in BIN.get(type(n.op), []):
                rep(n, '(%s %s %s)' % (seg(n.left), o, seg(n.right)), 'operator %s' % o)
        elif isinstance(n, ast.AugAssign):
            for o in BIN.get(type(n.op), []):
                rep(n, '%s %s= %s' % (seg(n.target), o, seg(n.value)), 'operator %s=' % o)
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'boolean%s' % o)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            rep(n, '(%s)' % seg(n.operand), 'drop unary')
        elif isinstance(n, ast.If) and not isinstance(n.test, ast.Constant):
            rep(n.test, 'True', 'if True')
            rep(n.test, 'False', 'if False')
        elif isinstance(n, ast.IfExp):
            rep(n.test, 'True', 'ifexp True')
            rep(n.test, 'False', 'ifexp False')
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.YieldFrom, ast.Yield)):
            rep(n, 'pass', 'delete statement')
        elif isinstance(n, ast.Continue):
            rep(n, 'break', 'continue -> break')
        elif isinstance(n, ast.Break):
            rep(n, 'pass', 'delete break')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in DIRS:
            for w in DIRS[n.id]:
                rep(n, w, '%s -> %s' % (n.id, w))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    s, e = pos(k)
                    e2 = e
                    while b[e2:e2 + 1] in (b' ', b'\n'):
                        e2 += 1
                    if b[e2:e2 + 1] == b',':
                        out.append((k.lineno if hasattr(k, 'lineno') else n.lineno, 'drop %s=' % k.arg, b[:s] + b[e2 + 1:]))
                    else:
                        out.append((n.lineno, 'drop %s=' % k.arg, b[:s] + b[e:]))
    good = []
    for line, what, text in out:
        try:
            t = ast.parse(text.decode())
        except SyntaxError:
            continue
        if ast.dump(t) != ast.dump(tree):
            good.append((path, line, what, text))
    return good


def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, 'TIMEOUT'


def main():
    files = [f for f in sys.argv[5:] or sys.argv[2:] if f.endswith('.py')] if sys.argv[1] == 'list' else sys.argv[5:]
    files = files or list(MAP)
    todo = []
    for f in files:
        todo += mutants(f, open('/repo/' + f).read())
        if sys.argv[1] == 'list':
            print(f, len(mutants(f, open('/repo/' + f).read())))
    if sys.argv[1] == 'list':
        print(len(todo))
        return
    outp, seed, workers = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    random.Random(seed).shuffle(todo)
    done = set()
    if os.path.exists(outp):
        done = {tuple(json.loads(l)['key']) for l in open(outp)}
    lock = threading.Lock()
    h = open(outp, 'a')
    base = '/dev/shm/mut-%d' % os.getpid()
    os.makedirs(base)
    free = []
    for w in range(workers):
        subprocess.check_call(['cp', '-a', '/repo', '%s/r%d' % (base, w)])
        os.makedirs('%s/v%d' % (base, w))
        for x in ('mc', 'check', 'known_findings.txt'):
            subprocess.check_call(['cp', '-a', VERIF + '/' + x, '%s/v%d/' % (base, w)])
        os.makedirs('%s/v%d/evidence' % (base, w))
        free.append(w)

    def one(m):
        path, line, what, text = m
        key = (path, line, what, hash_(text))
        if key in done:
            return
        with lock:
            w = free.pop()
        r, v = '%s/r%d' % (base, w), '%s/v%d' % (base, w)
        t0 = time.time()
        try:
            orig = open(os.path.join('/repo', path), 'rb').read()
            with open(os.path.join(r, path), 'wb') as f:
                f.write(text)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='', HYPOTHESIS_STORAGE_DIRECTORY='/dev/shm/mut-hyp', REMAPPER_REPO=r,
                       MC_WORKERS='1', MC_MAX_VIOLATIONS='1', MC_BUDGET='900', HOME=base)
            rc, out = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--hypothesis-profile=ci', '-o', 'python_files=test_*.py *_test.py hyp_*.py', 'tests'], r, 120, env)
            res = 'tests'
            if rc == 0:
                res = 'SURVIVED'
                for c in MAP[path]:
                    rc, out = sh([v + '/check', c, 'quick'], v, 1000, env)
                    if rc == 1 and 'VIOLATION' in out or rc == 124:
                        res = c if rc == 1 else c + ' timeout'
                        break
                    if rc not in (0, 1):
                        res = c + ' rc=%d' % rc
                        break
            with open(os.path.join(r, path), 'wb') as f:
                f.write(orig)
            with lock:
                h.write(json.dumps({'key': key, 'result': res, 'line': text.decode().split('\n')[line - 1].strip(), 'was': orig.decode().split('\n')[line - 1].strip(), 's': round(time.time() - t0, 1)}) + '\n')
                h.flush()
        finally:
            with lock:
                free.append(w)
    try:
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def hash_(b):
    import hashlib
    return hashlib.sha1(b).hexdigest()[:12]


main()
