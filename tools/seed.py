"""Development tool: turn bug specs into seeded/<id>/ and validate them in a scratch copy.

   seed.py SPEC.py [id ...]   SPEC.py defines BUGS = [dict(id, property, file, old, new, demo, needs, breaks)]
Nothing registered in MANIFEST.json uses this.
"""
import json, os, subprocess, sys, shutil, runpy, tempfile
V = '/verif/seeded'
PY = '/opt/venv/bin/python'

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def main():
    spec = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in spec:
        if want and b['id'] not in want:
            continue
        d = f"{V}/{b['id']}"
        w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        try:
            sh(f'cp -a /repo {w}/repo')
            r = f'{w}/repo'
            os.makedirs(d, exist_ok=True)
            for f, old, new in (b.get('edits') or [(b['file'], b['old'], b['new'])]):
                s = open(f'{r}/{f}').read()
                if s.count(old) != 1:
                    print(b['id'], 'OLD TEXT COUNT', s.count(old)); raise SystemExit
                open(f'{r}/{f}', 'w').write(s.replace(old, new))
            rc, diff = sh('git diff', r)
            open(f'{d}/patch.diff', 'w').write(diff)
            open(f'{d}/demo.py', 'w').write(b['demo'].lstrip('\n'))
            open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\n'
                'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD"\n'
                'work=$(mktemp -d)\nexport NUMBA_CACHE_DIR="$work"\n'
                '/opt/venv/bin/python "$here/demo.py"\nrc=$?\nrm -rf "$work"\nexit $rc\n')
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                      open(f'{d}/meta.json', 'w'), indent=1)
            isc = diff.find('.c\n') > 0 and 'new_capi' in diff or '.cpp' in diff
            if isc:
                sh('bash /opt/vp/build.sh'); rc0, o0 = sh(f'bash {d}/demo.sh', '/repo')
                print(sh(f'git -C /repo apply {d}/patch.diff')[1])
                try:
                    rcb, ob = sh('bash /opt/vp/build.sh'); rc1, o1 = sh(f'bash {d}/demo.sh', '/repo')
                    sh(f'bash /opt/vp/test.sh {w}/o.json')
                    miss = stable - set(json.load(open(f'{w}/o.json'))['passed'])
                    print(b['id'], b['property'], 'build', rcb, 'clean', rc0, 'patched', rc1, o1.strip().splitlines()[-1:], o0[-300:] if rc0 else '', 'tests lost', len(miss), sorted(miss)[:3], flush=True)
                finally:
                    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
                continue
            rc0, o0 = sh(f'bash {d}/demo.sh', '/repo')
            rc1, o1 = sh(f'bash {d}/demo.sh', r)
            print(b['id'], b['property'], 'clean', rc0, 'patched', rc1, o1.strip().splitlines()[-1:] , '' if rc0 == 0 else o0[-600:], flush=True)
            if rc0 or not rc1 or os.environ.get('NOTEST'):
                continue
            rc, o = sh(f'{PY} -m pytest -q -n 8 -p no:cacheprovider --basetemp={w}/tmp --timeout=300 '
                       f'--continue-on-collection-errors -o junit_family=xunit2 --junitxml={w}/j.xml tests; '
                       f'python3 /opt/vp/results.py {w}/o.json junit:{w}/j.xml', r,
                       dict(PYTHONPATH=r, NUMBA_CACHE_DIR=f'{w}/nb'))
            try:
                passed = set(json.load(open(f'{w}/o.json'))['passed'])
                miss = stable - passed
                print('   ', b['id'], 'tests lost:', len(miss), sorted(miss)[:3], flush=True)
            except Exception as ex:
                print('   ', b['id'], 'test run failed', ex, o[-400:])
        finally:
            shutil.rmtree(w, ignore_errors=True)

main()
