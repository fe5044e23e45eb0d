#!/usr/bin/env python3
"""mkseed.py ID PROP FILE: reads OLD/NEW blocks from stdin (separated by lines ---- and ====), writes seeded/ID/{patch.diff,demo.sh,meta.json}
stdin format: needs-line, breaks-line, then one or more of:  <<<< [file]\nold\n====\nnew\n>>>>, then DEMO: rest is demo.py"""
import sys, os, re, json, subprocess, shutil
sid, prop = sys.argv[1], sys.argv[2]
txt = sys.stdin.read()
head, demo = txt.split('\nDEMO:\n', 1)
needs, breaks = head.split('\n')[:2]
W = '/tmp/mkseed_%d' % os.getpid()
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', W])
try:
    for m in re.finditer(r'<<<< (\S+)(?: @@ ([^\n]*))?\n(.*?)\n====\n(.*?)\n?>>>>', head, re.S):   # @@ TEXT: first occurrence after TEXT
        p = os.path.join(W, m.group(1)); s = open(p).read()
        old, new, at = m.group(3), m.group(4), 0
        if m.group(2):
            if s.count(m.group(2)) != 1:
                sys.exit('anchor occurs %d times in %s' % (s.count(m.group(2)), p))
            at = s.index(m.group(2))
        if s.count(old, at) < 1 or (not at and s.count(old) != 1):
            sys.exit('old text occurs %d times in %s:\n%s' % (s.count(old), p, old))
        open(p, 'w').write(s[:at] + s[at:].replace(old, new, 1))
    diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', W])
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.py', 'w').write(demo)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
repo="$PWD"
tmp="$(mktemp -d)" || exit 3
cd "$tmp" || exit 3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" "$PY" -W ignore "$here/demo.py"
rc=$?
rm -rf "$tmp"
exit $rc
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
print(d)
