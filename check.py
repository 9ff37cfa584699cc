#!/usr/bin/env python
"""Entry point: check.py <property id> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import symx  # noqa: E402,F401
from symx.run import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
