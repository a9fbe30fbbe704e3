"""checks that the tools the framework needs are there (nothing to build: the checks compile what they need from /repo)"""
import os, shutil, sys
import z3, cvc5
for t in ('/usr/bin/clang++-18', '/usr/bin/opt-18', '/usr/bin/llvm-link-18', shutil.which('g++') or 'g++'):
    if not os.path.exists(t): sys.exit('missing ' + t)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
