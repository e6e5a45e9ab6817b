"""Runs of the command-line generator in fresh processes."""
import json
import os
import shutil
import subprocess
import sys

from mc import harness

DRIVER = os.path.join(harness.HERE if hasattr(harness, 'HERE') else os.path.dirname(os.path.abspath(__file__)), 'e2e_driver.py')


def run(ck, name, argv, hashseed=0, junk=0, module='redeclipse.cli.magica_rooms', keep=False, seconds=300, layout=False):
    """Returns (result dict, error text); keep: leave the output files in place."""
    out = ck.path('e2e-' + name)
    with ck.containment.trusted():
        os.mkdir(out)
        env = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': out, 'PYTHONDONTWRITEBYTECODE': '1',
               'PYTHONHASHSEED': str(hashseed), 'REMAPPER_REPO': harness.REPO}
        if layout:
            env['MC_LAYOUT_ONLY'] = '1'
        try:
            p = subprocess.run([sys.executable, '-W', 'ignore', DRIVER, out, str(junk), module] + [str(a) for a in argv],
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=seconds)
            if p.returncode:
                return None, 'exit status %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-600:])
            with open(os.path.join(out, 'result.json')) as h:
                res = json.load(h)
            res['dir'] = out
            return res, None
        except subprocess.TimeoutExpired:
            return None, 'did not finish within %ds' % seconds
        finally:
            if not keep:
                shutil.rmtree(out, ignore_errors=True)


def cleanup(ck, res):
    with ck.containment.trusted():
        shutil.rmtree(res['dir'], ignore_errors=True)
