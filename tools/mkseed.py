#!/usr/bin/env python3
"""mkseed.py NAME: (re)assembles /verif/seeded/NAME from tools/seedkit; the
directory must hold patch.diff, demo.cc and meta.json."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for n in sys.argv[1:]:
    d = os.path.join(V, 'seeded', n)
    for f in ('demo.sh', 'kit.h', 'refcrypto.h', 'refcrypto.cc'):
        shutil.copy(os.path.join(V, 'tools/seedkit', f), d)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.rmtree(os.path.join(d, 'shim'), ignore_errors=True)
    shutil.copytree(os.path.join(V, 'upb_shim'), os.path.join(d, 'shim'))
