"""seedtest.py [--all-checks] [--no-tests] IDS: for each folder in seeded/, in a scratch copy of /repo: patch applies, stable
tests pass, demo passes without and fails with it, and which checks report it (by default the check of its property)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opts = {a for a in sys.argv[1:] if a.startswith('--')}
ids = args or sorted(os.listdir(V + '/seeded'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]


def run(cmd, cwd, env=None, t=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'] if cmd[0].startswith('/opt/venv') else os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1', **(env or {})), capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, 'TIMEOUT', '')


def one(i):
    d = f'{V}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed_')
    out = [i]
    try:
        r = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        shutil.copytree(d, tmp + '/demo')
        demo = ['sh', tmp + '/demo/demo.sh']
        a = run(demo, r).returncode
        ap = run(['git', 'apply', d + '/patch.diff'], r)
        if ap.returncode:
            return f'{i}: patch does not apply: {ap.stderr}'
        b = run(demo, r)
        out.append('demo %s/%s' % (a, b.returncode) + ('' if a == 0 and b.returncode else '  <== BAD DEMO'))
        if '--show' in opts: out.append(b.stderr[-300:])
        if '--no-tests' not in opts:
            x = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--ignore=test/test_cli.py', '--ignore=test/test_px4_events.py', '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/r.xml', 'test'], r, {'PYTHONPATH': r})
            import xml.etree.ElementTree as ET
            ok = {c.get('classname') + '::' + c.get('name') for c in ET.parse(tmp + '/r.xml').iter('testcase') if not list(c)}
            miss = stable - ok
            out.append('tests ok' if not miss else 'TESTS FAIL: %s' % sorted(miss)[:3])
        for p in (props if '--all-checks' in opts else [meta['property']]):
            ev = tmp + '/ev'
            c = run(['python3-vt', 'run.py', p, '--tier', 'quick'], V, {'VP_REPO': r, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'VP_EVIDENCE': ev})
            if c.returncode == 1 and 'VIOLATION property=' + p in c.stdout:
                out.append(p + ' CAUGHT')
                if '--show' in opts: out.append(c.stdout[-600:])
            elif c.returncode or p == meta['property']:
                out.append(p + (' MISSED' if c.returncode == 0 else ' rc=%d %s' % (c.returncode, (c.stdout + c.stderr)[-300:])))
        return '  '.join(out)
    finally:
        shutil.rmtree(tmp)


with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    for line in ex.map(one, ids):
        print(line, flush=True)
