#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--thorough]   decide one property from /repo's current source"""
import os
import sys

PY = "/opt/venv/bin/python"
if not os.environ.get("SA_NOREEXEC"):
    try:
        import Cython  # noqa
    except ImportError:
        os.environ["SA_NOREEXEC"] = "1"
        os.execv(PY, [PY, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.core import main, selfcheck  # noqa: E402

if "--selfcheck" in sys.argv:
    sys.exit(selfcheck())

sys.exit(main(sys.argv))
