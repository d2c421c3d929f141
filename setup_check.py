#!/usr/bin/env python3
"""setup: nothing is built ahead of time; check that the tools the analyses use are present."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import ir
missing = [t for t in (ir.CLANG, ir.OPT, ir.LLVM_SO) if not os.path.exists(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
if missing:
    print('missing: ' + ', '.join(missing)); sys.exit(1)
print('ok')
