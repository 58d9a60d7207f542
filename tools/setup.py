#!/usr/bin/env python3
"""Nothing is built ahead of a check; this only verifies that the tools a check needs are there."""
import shutil, sys
miss = [t for t in ('clang++-18', 'llvm-link', 'g++', 'cvc5', 'c++filt', 'python3-vt') if not shutil.which(t)]
try:
    import z3
    print('z3', z3.get_version_string())
except ImportError:
    miss.append('z3 python module')
if miss:
    print('missing: ' + ', '.join(miss)); sys.exit(1)
print('ok')
