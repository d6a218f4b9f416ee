"""Writes properties.jsonl, MANIFEST.json and the list of repaired defects (known_findings.txt) from one table."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, FIXED  # noqa: E402

CK = {f[:3].upper(): f for f in sorted(os.listdir(os.path.join(HERE, 'checks'))) if f[0] == 'c' and f[1:3].isdigit()}
LEVEL_NOTE = ('Runtime monitoring: the real code runs under generated workloads and every observation is judged by an '
              'independent oracle; nothing is claimed beyond the executions the evidence counts.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            if p['id'] not in CK:
                continue
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quantifier']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] in CK:
            checks.append({
                'property': p['id'], 'quick_cmd': f"./check {p['id']}", 'thorough_cmd': f"./check {p['id']} --tier thorough",
                'technique': p['technique'], 'level': 'exploration', 'level_note': p.get('note', '') + LEVEL_NOTE,
            })
    man = {
        'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -m vlib.build plain asan bounds tsan', 'checks': checks,
        'not_applicable': [],
        'notes': 'No hooks in /repo: every monitor observes the public interface, the native extensions are rebuilt from '
                 '/repo outside it (plain, ASan+UBSan, TSan and index-checked variants). known_findings.txt lists findings.',
    }
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '1619490..HEAD'], capture_output=True,
                         text=True, check=True).stdout.splitlines()
    path = os.path.join(HERE, 'known_findings.txt')
    keep = [ln for ln in (open(path).read().splitlines() if os.path.exists(path) else []) if ln.startswith('finding:')]
    with open(path, 'w') as f:
        f.write('# finding: property=<id> key=<mechanism> | <what fails>      (a listed finding is not an alarm)\n'
                '# fixed: property=<id> <commit> <what failed>                (suppresses nothing)\n')
        for ln in keep:
            f.write(ln + '\n')
        for ln in log:
            h, s = ln.split(' ', 1)
            assert s.startswith('fix: '), ln
            s = s[5:]
            prop = next((v for k, v in FIXED if k in s), None)
            if prop is None:
                sys.exit(f'no property for: {s}')
            if prop in CK:
                f.write(f'fixed: property={prop} {h} {s}\n')
            else:
                print('unclaimed', prop, s)


main()
