#!/usr/bin/env python3
"""plant.py SPEC.py: each entry of BUGS = dict(id, prop, edits=[(file, old, new)], demo=<C++ body of main>, inc=<headers>, needs, breaks)
writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json} and tries the demonstration on a scratch build of both trees."""
import os, subprocess, sys, json, shutil, runpy
S = '/verif/seeded'
DEMO = '''#!/bin/bash
# run in /repo after its build: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); cd src || exit 2
g++ -w -std=c++11 -DGANDALF_DOUBLE_PRECISION -DGANDALF_GSL -I Headers -I . "$D/demo.cpp" $(ls *.o | grep -v '^gandalf.o$\\|_wrap.o$\\|^Test') -lgsl -lgslcblas -lgomp -o "$T/demo" || { rm -rf "$T"; exit 3; }
cd "$T" && ./demo; rc=$?; cd /; rm -rf "$T"; exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(): # in /repo, where the build script works
    r = sh('bash /opt/vp/build.sh'); return r.returncode == 0, r.stdout[-2000:]
only = [a for a in sys.argv[2:] if a[0] != '-']
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if only and b['id'] not in only: continue
    d = S + '/' + b['id']; os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'repo dirty'
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write('#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <algorithm>\n#include <vector>\n#include <string>\n#include <iostream>\nusing namespace std;\n' + ''.join('#include "%s"\n' % i for i in b['inc']) + 'static int bad = 0;\n#define EXPECT(a, b, tol) do { double x_ = (a), y_ = (b); if (!(fabs(x_ - y_) <= (tol))) { printf("%s = %.10g, expected %.10g\\n", #a, x_, y_); bad = 1; } } while (0)\n' + b.get('pre', '') + 'int main() {\n' + b['demo'] + '\n  return bad; }\n')
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    c = sh('bash %s/demo.sh' % d, cwd='/repo')
    for e in b['edits']: # (file, old, new[, which of several places])
        f, o, n = e[:3]; p = '/repo/src/' + f; s = open(p).read(); q = s.split(o); assert len(q) == 2 or len(e) > 3 and len(q) > e[3] + 1, (b['id'], f, len(q) - 1, o); w = e[3] if len(e) > 3 else 0; open(p, 'w').write(o.join(q[:w + 1]) + n + o.join(q[w + 1:]))
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    ok, out = build(); m = sh('bash %s/demo.sh' % d, cwd='/repo') if ok else None
    k = sh('python3 /verif/check.py %s --tier quick' % b['prop'], env=dict(os.environ, VERIF_SEED='1')) if ok and '--nocheck' not in sys.argv else None
    sh('git -C /repo checkout -- .')
    print(b['id'], 'clean', c.returncode, 'build', ok, 'patched', m.returncode if m else out[-600:], 'check', k.returncode if k else '', [l for l in (k.stdout.splitlines() if k else []) if l.startswith('VIOLATION')][:1], flush=True)
    if c.returncode: print(c.stdout[-1500:])
    elif m: print('   ', m.stdout[-200:].strip())
print(build()[0])
