#!/usr/bin/env python3
"""Nothing is built ahead of the checks; this only says early if a tool is missing."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import build
bad = [t for t in ('clang++', 'llvm-link', 'opt', 'llvm-cxxfilt') if not os.path.exists(build.LLVM + t)]
if bad:
    sys.exit('missing: %s' % bad)
import props.registry
print('ready: %d checks' % len(props.registry.SPECS))
