"""Confirms planted bugs: python3 tools/plant.py DEFS.py [ID...]

DEFS.py defines BUGS = [dict(id, prop, file, old, new, demo, needs, breaks, [check])]. For each one: edits /repo,
builds, runs the stable tests, runs the demonstration with and without the edit, runs the property's check, restores
/repo, and, if it counts as a planted bug, writes seeded/<id>/. /repo must be clean.
"""
import json, os, re, runpy, subprocess, sys, time

REPO, HERE = '/repo', '/verif/seeded'
BASE = '1619490'
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_lines(diff, path):
    """(number of removed lines that come from the original repository, removed lines)"""
    blame = sh(f'git -C {REPO} blame -s HEAD -- {path}').stdout.splitlines()
    n = o = 0
    line = 0
    for l in diff.splitlines():
        m = re.match(r'@@ -(\d+)', l)
        if m:
            line = int(m[1])
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            o += blame[line - 1].lstrip('^').startswith(BASE)
            line += 1
        elif l.startswith(' '):
            line += 1
    return o, n


def restore():
    sh(f'git -C {REPO} checkout -q -- .')


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) or None
    assert not sh(f'git -C {REPO} status --porcelain').stdout, '/repo is not clean'
    for b in bugs:
        if only and b['id'] not in only:
            continue
        t0 = time.time()
        d = f"/tmp/w/plants/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f'{d}/demo.py', 'w').write(
            'import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n' + b['demo'].strip() + '\n')
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# run in /repo after the build\nset -e\n'
                                        'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        try:
            edits = b['edits'] if 'edits' in b else [(b['file'], b['old'], b['new'])]
            c = sh(f'bash {d}/demo.sh', cwd=REPO)
            if c.returncode:
                print(b['id'], 'DEMO FAILS CLEAN', c.stdout[-300:], c.stderr[-600:], flush=True)
                continue
            bad = False
            for f, old, new in edits:
                s = open(f'{REPO}/{f}').read()
                if s.count(old) != 1:
                    print(b['id'], f'OLD TEXT x{s.count(old)} in {f}', flush=True)
                    bad = True
                    break
                open(f'{REPO}/{f}', 'w').write(s.replace(old, new))
            if bad:
                continue
            diff = sh(f'git -C {REPO} diff').stdout
            files = {f for f, *_ in edits}
            o = n = 0
            for f in files:
                x, y = original_lines(sh(f'git -C {REPO} diff -- {f}').stdout, f)
                o, n = o + x, n + y
            open(f'{d}/patch.diff', 'w').write(diff)
            c = sh('bash /opt/vp/build.sh')
            if c.returncode:
                print(b['id'], 'DOES NOT BUILD', c.stdout[-300:], flush=True)
                continue
            c = sh(f'bash {d}/demo.sh', cwd=REPO)
            demo = c.returncode
            if not demo:
                print(b['id'], 'DEMO PASSES PATCHED', flush=True)
                continue
            tests = 'skipped'
            if '--notest' not in os.environ.get('PLANT', ''):
                sh(f'bash /opt/vp/test.sh {d}/tests.json')
                r = json.load(open(f'{d}/tests.json'))
                tests = sum(1 for v in (r['passed'] if 'passed' in r else r))
                failed = r.get('failed', [])
                os.remove(f'{d}/tests.json')
                if failed:
                    print(b['id'], 'TESTS FAIL', [str(x)[-70:] for x in failed][:4], flush=True)
                    continue
            checks = b.get('check', [b['prop']])
            res = []
            for ch in checks:
                t = time.time()
                c = sh(f'./check {ch}', cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                w = [l for l in c.stdout.splitlines() if l.strip() and not l.startswith('VIOLATION')]
                res.append(f"{ch}: {'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode} {len(v)} "
                           f"({time.time() - t:.0f} s)")
                if v:
                    res.append(v[0][:160])
            print(b['id'], f'orig {o}/{n} demo {demo} tests {tests}', *res, f'[{time.time() - t0:.0f} s]', flush=True)
            if o:
                sh(f"mkdir -p {HERE}; rm -rf {HERE}/{b['id']}; cp -r {d} {HERE}/{b['id']}")
        finally:
            restore()
    sh('bash /opt/vp/build.sh')


main()
