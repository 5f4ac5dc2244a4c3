"""mk(id, prop, edits, needs, breaks, cpp=..., src=[...] | py=...): writes
/verif/seeded/<id>, confirms its demonstration passes on the unchanged tree and
fails with the change, and reports whether the property's check catches it."""
import json, os, shutil, subprocess, tempfile
S = '/verif/seeded/'
HEAD = '''#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define EXPECT(x) do { if (!(x)) { std::printf("failed: %s (line %d)\\n", #x, __LINE__); return 1; } } while (0)
'''
DG = '''#include <Eigen/Dense>
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
'''


def sh(cmd, cwd, t=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    return r.returncode, r.stdout


def mk(sid, prop, edits, needs, breaks, cpp=None, src=(), py=None, dg=True, flags='', check=True, checks=None):
    d = S + sid
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='vseed.', dir='/tmp')
    try:
        sh('git -C /repo archive HEAD | tar -x -C ' + w, '/')
        sh('git init -q . && git add -A . && git -c user.email=a@b -c user.name=x commit -qm x', w)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline='').read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        rc, diff = sh('git diff', w)
        open(d + '/patch.diff', 'w', newline='').write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
        if cpp is not None:
            open(d + '/demo.cpp', 'w').write(HEAD + (DG if dg else '') + cpp)
            inc = ''
            if dg:
                shutil.copytree('/verif/standin/include', d + '/standin')
                inc = '-I"$here/standin" '
            body = ('w=$(mktemp -d) || exit 3\ntrap \'rm -rf "$w"\' EXIT\nR=$PWD\n'
                    'cd "$w" || exit 3\npids=""\ni=0\n'
                    'for f in "$here/demo.cpp" %s; do\n  i=$((i+1))\n'
                    '  g++ -std=c++14 -w -O0 %s -I"$R/include" -I"$R/src" %s-isystem /usr/include/eigen3 -c "$f" -o "$w/$i.o" &\n  pids="$pids $!"\ndone\n'
                    'for p in $pids; do wait $p || exit 3; done\n'
                    'g++ %s "$w"/*.o -o "$w/demo" -ldl -lpthread || exit 3\ntimeout 120 "$w/demo"\n'
                    % (' '.join('"$R/%s"' % x for x in src), flags, inc, flags))
        else:
            open(d + '/demo.py', 'w').write(py)
            body = 'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" timeout 120 /usr/bin/python3 "$here/demo.py" "$PWD"\n'
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n' + body)
        os.chmod(d + '/demo.sh', 0o755)
        rc1, o1 = sh('bash %s/demo.sh' % d, w)
        sh('git stash -q', w)
        rc0, o0 = sh('bash %s/demo.sh' % d, w)
        sh('git stash pop -q', w)
        ok = rc0 == 0 and rc1 == 1 or rc0 == 0 and rc1 not in (0, 3)
        print(sid, prop, 'demo clean', rc0, 'patched', rc1, 'OK' if ok else 'BAD ' + (o0 + o1)[-1500:])
        if ok and check:
            for c in (checks or [prop]):
                rc, o = sh('VERIF_REPO=%s python3 /verif/run.py %s' % (w, c), '/verif')
                print('   check', c, 'rc', rc, 'CAUGHT' if rc == 1 else 'MISSED', o.strip().splitlines()[0][:160] if rc == 1 else o[-200:])
        return ok
    finally:
        shutil.rmtree(w)
