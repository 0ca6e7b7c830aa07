"""development tool: plant a bug in a scratch copy of /repo, confirm it builds, passes the tests and fails its demonstration, and keep it under seeded/"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# exit 0: the property holds in the demonstrated case; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -r "$t"' EXIT
g++ -std=c++11 -w -O1 %s -I"$PWD/include" "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
'''


def sh(c, cwd=None, env=None):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    return r.returncode, (r.stdout + r.stderr)[-2500:]


def seed(id, prop, edits, demo, needs, breaks, flags='', check=True):
    d = os.path.join(ROOT, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        sh(f'git -C /repo worktree prune; git clone -q /repo {w}/r')
        for f, old, new in edits:
            p = f'{w}/r/include/Caitlyn/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        rc, o = sh(f'git -C {w}/r diff > {d}/patch.diff')
        with open(f'{d}/demo.cpp', 'w') as fh:
            fh.write(demo)
        with open(f'{d}/demo.sh', 'w') as fh:
            fh.write(DEMO % flags)
        os.chmod(f'{d}/demo.sh', 0o755)
        with open(f'{d}/meta.json', 'w') as fh:
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), fh, indent=1)
        # lines of the original repository only
        rc, base = sh('git -C /repo rev-list --max-parents=0 HEAD')
        ok = True
        rc, o = sh(f'sh {d}/demo.sh', cwd='/repo')
        if rc != 0:
            print(id, 'demo fails on the clean tree', rc, o[:300]); ok = False
        rc, o = sh(f'sh {d}/demo.sh', cwd=f'{w}/r')
        if rc == 0 or rc == 3:
            print(id, 'demo does not fail with the patch', rc, o[:300]); ok = False
        else:
            print(id, 'demo with patch: rc', rc, o[-200:].strip())
        # originals
        import re
        blame_bad = []
        for f, old, new in edits:
            rc, bl = sh(f'git -C /repo blame -s include/Caitlyn/{f} > {w}/blame')
            bl = open(f'{w}/blame').read()
            rc, df = sh(f'git -C {w}/r diff -U0 include/Caitlyn/{f}')
            first = base.strip()[:7]
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', df, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for ln in bl.split('\n')[a - 1:a - 1 + n]:
                    if first not in ln[:12]:
                        blame_bad.append(ln[:90])
        if blame_bad:
            print(id, 'touches lines of a fix commit:', blame_bad[:3]); ok = False
        if check:
            sh(f'git -C /repo apply {d}/patch.diff')
            try:
                rc, o = sh('bash /opt/vp/build.sh')
                if rc:
                    print(id, 'does not build', o); ok = False
                rc, o = sh(f'bash /opt/vp/test.sh {w}/t.json')
                t = open(f'{w}/t.json').read() if os.path.exists(f'{w}/t.json') else ''
                base = json.load(open('/opt/vp/BASELINE.json'))
                try:
                    j = json.loads(t)
                    passed = set(j.get('passed', [])) if isinstance(j, dict) else set()
                    need = set(base.get('passed', base.get('stable', base.get('tests', []))))
                    miss = need - passed
                    if miss:
                        print(id, 'tests that no longer pass', list(miss)[:5]); ok = False
                except ValueError:
                    print(id, 'no test answer', t[:200]); ok = False
            finally:
                sh('git -C /repo checkout -- .')
        print(id, 'KEPT' if ok else 'NOT USABLE')
        if not ok:
            shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(w)


def catch(id, props=None):
    d = os.path.join(ROOT, 'seeded', id)
    p = json.load(open(f'{d}/meta.json'))['property']
    rc, o = sh(f'git -C /repo apply {d}/patch.diff')
    try:
        for q in props or [p]:
            rc, o = sh(f'python3 tool/check.py {q}', cwd=ROOT)
            print(id, q, 'rc', rc, '|', [l[:300] for l in o.split('\n') if 'VIOLATION' in l or 'failed obl' in l or 'not decided' in l][:6])
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    for i in sys.argv[1:]:
        catch(i)
