"""setup: nothing to build ahead (every check compiles the specifications against /repo itself); checks that the tools are there"""
import subprocess, sys
for c in (['/usr/bin/clang++', '--version'], ['/usr/bin/opt-18', '--version'], ['cvc5', '--version'], ['z3-new', '--version'], ['python3-vt', '-c', 'import z3']):
    r = subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
    if r.returncode: print('missing tool', c); sys.exit(1)
