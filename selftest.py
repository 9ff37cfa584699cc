#!/usr/bin/env python
"""setup_cmd: the tools the checks need are there and the sources load symbolically."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import symx  # noqa: E402,F401
import numpy, spglib, z3  # noqa: E402
from symx.loader import symbolic_spgrep, real_spgrep  # noqa: E402

L = symbolic_spgrep()
real_spgrep("core")
print("ok", z3.get_version_string(), numpy.__version__, spglib.__version__, len(L.mods), "modules")
