"""python3 tools/plant.py specs.py [id ...]: makes seeded/<id> from (file, old, new) edits, confirming in a scratch copy that
the 38 stable tests pass with the change and that the demonstration passes without and fails with it.  Development aid; no check uses it."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SCR = '/tmp/plant'
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
DEMO = '#!/bin/bash\n# exit 0 when the behaviour is right\nexport MPLBACKEND=Agg\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def tests(root):
    xml = '/tmp/plant_junit.xml'
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:warnings', '-p', 'fixed_seed', '--timeout=180',
                    '-o', 'junit_family=xunit2', '--deselect', 'test/test_main.py::test_equalization', '--junitxml=' + xml, '.'],
                   cwd=root + '/test', env=dict(ENV, PYTHONPATH=root + ':/opt/vp/plugins'), capture_output=True)
    ok = set()
    for c in ET.parse(xml).getroot().iter('testcase'):
        if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    return STABLE - ok


def plant(sid, spec):
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', SCR, 'HEAD'], check=True)
    out = os.path.join(VERIF, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    try:
        with open(out + '/demo.py', 'w') as f:
            f.write(spec['demo'].lstrip('\n'))
        with open(out + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=SCR, env=ENV, capture_output=True, text=True, timeout=280)
        for file, old, new in spec['edits']:
            p = os.path.join(SCR, file)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (sid, file, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=SCR, env=ENV, capture_output=True, text=True, timeout=280)
        bad = tests(SCR)
        diff = subprocess.run(['git', '-C', SCR, 'diff'], capture_output=True).stdout
        open(out + '/patch.diff', 'wb').write(diff)
        json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(out + '/meta.json', 'w'), indent=1)
        c = subprocess.run([VERIF + '/check.sh', spec['property'], 'quick'], env=dict(ENV, VERIF_REPO=SCR), capture_output=True, text=True)
        good = r0.returncode == 0 and r1.returncode != 0 and not bad
        print(sid, spec['property'], 'OK' if good else 'INVALID', 'demo', r0.returncode, r1.returncode, 'tests failing', sorted(bad),
              'CAUGHT' if c.returncode == 1 else f'MISSED rc={c.returncode}', flush=True)
        if not good:
            print(r0.stderr[-600:], r1.stderr[-200:])
        return good
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', SCR])


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for sid, spec in ns['SPECS'].items():
        if len(sys.argv) > 2 and sid not in sys.argv[2:]:
            continue
        try:
            plant(sid, spec)
        except AssertionError as e:
            print(sid, "ASSERT", e)
