#!/usr/bin/env python3
"""plant.py build [ID..]  builds seeded/<id>/ from tools/bugs/*.py and verifies it
   plant.py run [ID..]    runs the property's quick check against each planted bug
Works in scratch copies of /repo only."""
import importlib.util, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
BASE = '748c015'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='',
           HYPOTHESIS_STORAGE_DIRECTORY='/tmp/plant-hyp')

DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0: the property holds; anything else: it does not.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''
PRE = '''import atexit, os, random, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
SCRATCH = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, SCRATCH, True)
os.environ['HOME'] = SCRATCH

'''


def specs():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs', '*.py'))):
        sp = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.BUGS
    ids = [b['id'] for b in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def sh(cmd, cwd, timeout=300, env=ENV):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, stdout='TIMEOUT')


def copy():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d


def build(b):
    d = copy()
    try:
        for (f, old, new) in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'BAD EDIT: %d matches of %r in %s' % (s.count(old), old, f)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=d, text=True)
        # removed lines must be original
        orig = other = 0
        for f in set(e[0] for e in b['edits']):
            blame = subprocess.check_output(['git', 'blame', '-s', 'HEAD', '--', f], cwd=d, text=True).splitlines()
            dd = subprocess.check_output(['git', 'diff', '-U0', '--', f], cwd=d, text=True)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
                st, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(st, st + n):
                    if blame[k - 1].startswith('^' + BASE):
                        orig += 1
                    else:
                        other += 1
        if not orig or other:
            return 'BLAME: %d original lines, %d of mine' % (orig, other)
        out = os.path.join(SEEDED, b['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(PRE + b['demo'].strip('\n') + '\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--hypothesis-profile=ci',
                '-o', 'python_files=test_*.py *_test.py hyp_*.py', 'tests'], d, 600)
        tail = [l for l in r.stdout.splitlines() if 'passed' in l or 'failed' in l][-1:]
        rp = sh(['bash', os.path.join(out, 'demo.sh')], d)
        rc = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
        ok = (tail and '49 passed' in tail[0]) and rp.returncode != 0 and rc.returncode == 0
        msg = 'ok' if ok else 'FAIL tests=%s demo clean=%d patched=%d' % (tail, rc.returncode, rp.returncode)
        if not ok:
            if rc.returncode:
                msg += '\n' + rc.stdout[-1500:]
            if not (tail and '49 passed' in tail[0]):
                msg += '\n' + '\n'.join(l for l in r.stdout.splitlines() if l.startswith('FAILED'))[-800:]
        else:
            msg += '   (%s)' % (rp.stdout.strip().splitlines() or ['-'])[-1][:150]
        if not ok:
            shutil.rmtree(out)
        return msg
    finally:
        shutil.rmtree(d)


def run(i, prop=None, tier='quick'):
    d = copy()
    try:
        p = os.path.join(SEEDED, i, 'patch.diff')
        prop = prop or json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property']
        subprocess.check_call(['git', 'apply', p], cwd=d)
        t = time.time()
        r = sh([os.path.join(VERIF, 'check'), prop, tier], VERIF, 1200, dict(ENV, REMAPPER_REPO=d))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        w = [l for l in r.stdout.splitlines() if l.strip()]
        caught = r.returncode == 1 and any('property=' + prop in l for l in v)
        return '%s %-28s %s rc=%d %.0fs  %s' % ('CAUGHT' if caught else 'MISSED', i, prop, r.returncode, time.time() - t,
                                               ' | '.join(w[-3:])[:300])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'build':
        bs = [b for b in specs() if not ids or any(b['id'].startswith(x) for x in ids)]
        with ThreadPoolExecutor(6) as ex:
            for b, m in zip(bs, ex.map(build, bs)):
                print('%-30s %s' % (b['id'], m), flush=True)
    elif cmd == 'run':
        allids = sorted(os.listdir(SEEDED))
        for i in [x for x in allids if not ids or any(x.startswith(y) for y in ids)]:
            print(run(i), flush=True)
