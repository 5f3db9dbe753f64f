#!/usr/bin/env python3
"""check.py <property id> [-v]   run one check;   check.py --setup   verify that the tools are present"""
import os
import sys

PY = '/opt/veriftools/pyvenv/bin/python3'
try:
    import z3  # noqa: F401
except ImportError:
    if os.path.exists(PY) and not os.environ.get('IRVC_REEXEC'):
        os.environ['IRVC_REEXEC'] = '1'
        os.execv(PY, [PY] + sys.argv)
    raise
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if len(sys.argv) < 2:
    print(__doc__)
    sys.exit(2)
if sys.argv[1] == '--setup':
    import shutil
    import irvc.harness  # noqa: F401
    for t in ('clang++', 'protoc', 'cvc5', '/usr/lib/llvm-18/bin/opt'):
        if shutil.which(t) is None:
            print('missing tool', t)
            sys.exit(1)
    print('tools present: z3', z3.get_version_string())
    sys.exit(0)
from irvc.harness import main  # noqa: E402
sys.exit(main(sys.argv))
