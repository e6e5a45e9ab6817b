import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from mc import harness  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    name = 'mc.checks.' + pid.lower().replace('-', '_')
    sys.exit(harness.main(pid, tier, lambda: importlib.import_module(name)))
