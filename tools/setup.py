#!/usr/bin/env python3
"""Build everything the checks use from /repo's working tree, so that the first check does not pay for it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
t = build.tree()
print(t.mes())
t.gcc_lib('libc_tcc', 32)
t.mescc_go()
for b in (32, 64):
    t.mescc_libdir(b)

for x in ('gcc32', 'mescc32'):
    t.mes_other(x)
