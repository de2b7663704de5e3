#!/usr/bin/env python3
"""seed.py SPEC...      make /verif/seeded/<id>/ from a spec (a Python file setting ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS, and optionally SRCS) and confirm it
seed.py --run [ID..]   run the property's quick check against each seeded bug in a scratch copy (VF_REPO)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = V + '/tools/kit'
SH = '''#!/bin/bash
# builds the demonstration from /repo's sources (run with cwd = the repository) in a scratch directory and runs it there
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SRCS="%s"
cd "$R"
%s -g -std=gnu90 -w -D__NO_CTYPE -include stdlib.h -include assert.h -I"$D/include" -Iinclude -IlibCrashDebug/src -Ilibcommon/src "$D/demo.c" $SRCS %s -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
'''


def copy():
    t = tempfile.mkdtemp(prefix='seed_')
    subprocess.check_call(['cp', '-a', '/repo', t + '/repo'])
    return t, t + '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d = V + '/seeded/' + g['ID']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(KIT + '/include', d + '/include'); shutil.copytree(KIT + '/mri', d + '/mri')
    for f in ('stubs.c', 'demo.h'):
        shutil.copy(KIT + '/' + f, d)
    open(d + '/demo.c', 'w').write('#include "demo.h"\n' + g['DEMO'])
    open(d + '/demo.sh', 'w').write(SH % (g.get('SRCS', 'libCrashDebug/src/*.c libcommon/src/*.c main/MockDefaults.c'), g.get('CC', 'gcc -O1'), g.get('EXTRA', '"$D/stubs.c"')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    t, r = copy()
    ok = True
    try:
        c = sh(d + '/demo.sh', cwd=r)
        if c.returncode:
            print(g['ID'], 'demo fails on the clean tree:', c.stdout[-800:]); ok = False
        for f, old, new in g['EDITS']:
            s = open(r + '/' + f, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                print(g['ID'], 'edit matches', s.count(old), 'times:', old); ok = False
            open(r + '/' + f, 'w', newline='').write(s.replace(old, new))
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', 'diff'], cwd=r))
        if sh('git stash -q && git apply ' + d + '/patch.diff', cwd=r).returncode:
            print(g['ID'], 'patch does not apply'); ok = False
        c = sh(d + '/demo.sh', cwd=r)
        if c.returncode == 0 or c.returncode == 2:
            print(g['ID'], 'demo status with the bug:', c.returncode, c.stdout[-800:]); ok = False
        if any('libmocks' in e[0] for e in g['EDITS']):
            c = sh("rm -f ./LIBMOCKS_tests; sed 's#/repo#%s#g' /opt/vp/build.sh > ../b.sh; bash ../b.sh && ./LIBMOCKS_tests" % r, cwd=r)
            if c.returncode or 'Failures' in c.stdout:
                print(g['ID'], 'stable tests:', c.stdout[-800:]); ok = False
        else:
            c = sh("gcc -fsyntax-only -std=gnu90 -w -include stdlib.h -include assert.h -I%s/include -Iinclude %s" % (KIT, ' '.join(e[0] for e in g['EDITS'] if e[0].endswith('.c')) or 'libcommon/src/common.c'), cwd=r)
            if c.returncode:
                print(g['ID'], 'does not compile', c.stdout[-500:]); ok = False
    finally:
        shutil.rmtree(t)
    print(g['ID'], 'ok' if ok else 'REJECTED')
    if not ok:
        shutil.rmtree(d)


def run(i, tier=''):
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    t, r = copy()
    try:
        subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=r)
        c = sh('python3 check.py %s %s' % (prop, tier), cwd=V, env=dict(os.environ, VF_REPO=r))
        v = [l for l in c.stdout.split('\n') if l.startswith('  ') and ':' in l]
        print('%-10s %s exit %d %s  %s' % (i, prop, c.returncode, 'CAUGHT' if c.returncode == 1 else 'MISSED', (v or [c.stdout[-300:]])[0][:170]), flush=True)
    finally:
        shutil.rmtree(t)


if sys.argv[1] == '--run':
    for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
        run(i)
else:
    for s in sys.argv[1:]:
        make(s)
