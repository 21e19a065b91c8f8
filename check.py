#!/opt/venv/bin/python
"""check.py C01 --tier quick|thorough   (see DESIGN.md)"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

# same iteration order of sets in every run with the same VERIF_SEED
SEED = str(int(os.environ.get('VERIF_SEED', '1') or 1) % 4294967295)
if os.environ.get('PYTHONHASHSEED') != SEED:
    os.environ['PYTHONHASHSEED'] = SEED
    os.execv(sys.executable, [sys.executable] + sys.argv)

from mc.core import main  # noqa

if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
