#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in bugs.py (edits are text replacements in /repo/src)."""
import sys, os, json, subprocess, shutil, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, '..', '..', 'seeded')
only = set(sys.argv[1:])
for b in BUGS:
    if only and b['id'] not in only: continue
    t = tempfile.mkdtemp(prefix='mkbug')
    subprocess.run(['cp', '-a', '/repo/.git', '/repo/src', t], check=True)
    ok = True
    for f, old, new in b['edits']:
        p = f'{t}/src/{f}'; s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'edit matches', s.count(old), 'times:', old[:70]); ok = False; continue
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.run(['git', 'diff', '--', 'src'], cwd=t, capture_output=True, text=True).stdout
    shutil.rmtree(t)
    if not ok: continue
    o = f'{out}/{b["id"]}'; os.makedirs(o, exist_ok=True)
    open(f'{o}/patch.diff', 'w').write(d)
    shutil.copy(f'{here}/demo.sh', o); shutil.copy(f'{here}/common.rs', o)
    open(f'{o}/demo.rs', 'w').write('#![allow(unused_imports)]\nmod common;\nuse common::*;\nuse generic_btree::rle::*;\nuse generic_btree::*;\nuse std::ops::Range;\nuse std::panic::{catch_unwind, AssertUnwindSafe};\n\nfn main() {\n' +
        '\n'.join('    ' + l if l else '' for l in b['demo'].strip('\n').split('\n')) + '\n}\n')
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{o}/meta.json', 'w'), indent=1)
    print(b['id'], 'written')
