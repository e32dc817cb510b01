"""Make a planted bug: seed.py ID PROPERTY FILE  (reads OLD/NEW/DEMO/NEEDS/BREAKS sections from stdin).

Applies the edit in a scratch copy of /repo, runs the tests and the demonstration on
both trees, and keeps the bug under seeded/ when the demonstration separates them.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': '/opt/vp/mplconfig', 'TZ': 'UTC'}


def main():
    sid, prop, fname = sys.argv[1:4]
    text = sys.stdin.read()
    sec = {}
    name = None
    for line in text.splitlines(keepends=True):
        m = re.match(r'^@@(\w+)\s*(.*)$', line)
        if m:
            name = m.group(1)
            sec.setdefault(name, []).append('')
            continue
        sec[name][-1] += line
    tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    cp = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', cp, symlinks=True)
        p = os.path.join(cp, fname)
        s = open(p, encoding='utf-8').read()
        for old, new in zip(sec['OLD'], sec['NEW']):
            if s.count(old) != 1:
                sys.exit(f'{sid}: OLD occurs {s.count(old)} times:\n{old}')
            s = s.replace(old, new)
        open(p, 'w', encoding='utf-8').write(s)
        diff = subprocess.run(['git', '-C', cp, 'diff'], capture_output=True, text=True).stdout
        out = os.path.join(ROOT, 'seeded', sid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w', encoding='utf-8').write(diff)
        open(os.path.join(out, 'demo.py'), 'w', encoding='utf-8').write(sec['DEMO'][0])
        open(os.path.join(out, 'demo.sh'), 'w', encoding='utf-8').write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': sec['NEEDS'][0].strip(), 'what_it_breaks': sec['BREAKS'][0].strip()},
            open(os.path.join(out, 'meta.json'), 'w', encoding='utf-8'), indent=1)
        good = subprocess.run([os.path.join(out, 'demo.sh')], cwd='/repo', capture_output=True, text=True, env=ENV)
        bad = subprocess.run([os.path.join(out, 'demo.sh')], cwd=cp, capture_output=True, text=True, env=ENV)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        nodes = [re.sub(r'^test\.(\w+)::', r'test/\1.py::', x) for x in stable]
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x'] + nodes, cwd=cp,
            capture_output=True, text=True, env={**ENV, 'PYTHONPATH': f'{cp}:/opt/vp/plugins'})
        ck = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), prop, '--root', cp], capture_output=True, text=True, cwd=ROOT)
        ok = good.returncode == 0 and bad.returncode != 0 and t.returncode == 0
        print(f'{sid} {prop}: demo clean={good.returncode} patched={bad.returncode} tests={t.returncode} check={ck.returncode}', 'KEEP' if ok else 'REJECT')
        if good.returncode:
            print(good.stdout[-800:], good.stderr[-1500:])
        if not bad.returncode:
            print('demo does not fail on patched', bad.stdout[-500:])
        if t.returncode:
            print(t.stdout[-1500:])
        print('\n'.join(x for x in ck.stdout.splitlines() if not x.startswith('KNOWN'))[-1200:], ck.stderr[-800:])
        if not ok:
            shutil.rmtree(out)
    finally:
        shutil.rmtree(tmp)


main()
