#!/usr/bin/env python3
"""mkbug.py ID PROP 'needs' 'what' FILE OLD NEW [FILE OLD NEW ...] < demo.sh : write seeded/ID"""
import sys, os, json, subprocess, tempfile, shutil
i, prop, needs, what = sys.argv[1:5]
d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
ed = sys.argv[5:]; files = {}
for k in range(0, len(ed), 3):
    f, old, new = ed[k:k+3]
    s = files.get(f) or open('/repo/' + f).read()
    if s.count(old) != 1: print('MATCHES', s.count(old), repr(old)); sys.exit(1)
    files[f] = s.replace(old, new)
out = ''
t = tempfile.mkdtemp(prefix='mkbug.')
for f, s in files.items():
    for side, txt in (('a', open('/repo/' + f).read()), ('b', s)):
        os.makedirs(os.path.dirname('%s/%s/%s' % (t, side, f)), exist_ok=True)
        open('%s/%s/%s' % (t, side, f), 'w').write(txt)
    out += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True).stdout
shutil.rmtree(t)
open(d + '/patch.diff', 'w').write(out)
demo = sys.stdin.read()
if demo.strip(): open(d + '/demo.sh', 'w').write(demo)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
