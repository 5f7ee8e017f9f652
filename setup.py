#!/usr/bin/env python3
"""Checks that the tools the checks rely on are present.  Nothing is built ahead of time:
every check compiles what it needs from /repo's working tree."""
import os, shutil, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
missing = [t for t in ('g++', 'clang++', 'avr-g++') if not shutil.which(t)]
if missing:
    print('missing tools:', ', '.join(missing))
    sys.exit(1)
print('ready')
