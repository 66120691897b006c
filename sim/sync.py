#!/usr/bin/env python3
"""Copy SRC to DST by content: unchanged files keep their time stamps.

If a file went away, a makefile or the flags changed, the copy starts afresh.
Generated and built files (obj, lib, bin, include dirs and yacc/lex output that
git ignores) are not copied.
"""
import os, sys, shutil, filecmp, hashlib, subprocess

src, dst, flags = sys.argv[1:4]
SKIPDIR = {'obj', 'lib', 'bin', 'include', 'testTmp', 'tests', 'docker', '__pycache__'}


def walk(root):
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in SKIPDIR and not os.path.islink(os.path.join(d, x))]
        for f in files:
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            out[os.path.relpath(p, root)] = p
    return out


GEN = ('.tab.c', '.tab.h', '.yy.c')
files = {k: v for k, v in walk(src).items() if not k.endswith(GEN) and not k.endswith('zmdpMainConfig.cc')}
listf = os.path.join(os.path.dirname(dst.rstrip('/')), 'synced')
key = hashlib.sha256()
key.update(flags.encode())
for k in sorted(files):
    b = os.path.basename(k)
    if b.startswith('Makefile') or b.endswith('.mak') or b.endswith('.perl'):
        key.update(k.encode() + open(files[k], 'rb').read())
key.update(subprocess.run(['gcc', '--version'], capture_output=True).stdout)
state = key.hexdigest() + '\n' + '\n'.join(sorted(files)) + '\n'
old = open(listf).read() if os.path.exists(listf) else ''
if old != state:
    top = os.path.dirname(dst.rstrip('/'))
    oldset = set(old.split('\n')[1:])
    if not old or old.split('\n')[0] != key.hexdigest() or oldset - set(files) - {''}:
        print('fresh copy')
        for n in ('src', 'lib', 'bin', 'include'):
            shutil.rmtree(os.path.join(top, n), ignore_errors=True)
n = 0
for k, p in files.items():
    q = os.path.join(dst, k)
    if os.path.exists(q) and filecmp.cmp(p, q, shallow=False):
        continue
    os.makedirs(os.path.dirname(q), exist_ok=True)
    if os.path.exists(q):
        os.remove(q)
    shutil.copy(p, q)
    n += 1
os.makedirs(os.path.dirname(listf), exist_ok=True)
open(listf, 'w').write(state)
print('synced', n, 'files')
