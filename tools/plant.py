"""Plant a bug: python3 tools/plant.py SPEC.py [id...]

SPEC.py defines BUGS, a list of dicts with id, property, needs, breaks, edits
[(file below src/mdpo, old text, new text)] and demo (Python source that exits
non zero when the property does not hold).  Each is confirmed in a scratch copy
(compiles, the stable tests pass, the demo tells both trees apart, an original
line of the repository is changed) and kept in seeded/<id>/.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

REPO, VERIF = os.environ.get('MDPO_REPO', '/repo'), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = 'a16f29d'
STABLE = json.load(open('/opt/vp/BASELINE.json'))
DEMO_SH = '''#!/bin/sh
# cwd: the repository. Exits 0 when the property holds in the scenario.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRELUDE = '''import contextlib, io, os, sys, tempfile, shutil
sys.stdin = io.StringIO('')
TMP = tempfile.mkdtemp()
os.chdir(TMP)


def check(got, expected):
    if got != expected:
        print('got     ', repr(got))
        print('expected', repr(expected))
        os.chdir('/')
        shutil.rmtree(TMP)
        sys.exit(1)


'''
EPILOGUE = '''
os.chdir('/')
shutil.rmtree(TMP)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def plant(bug):
    work = tempfile.mkdtemp(prefix='plant-')
    copy = os.path.join(work, 'repo')
    try:
        shutil.copytree(REPO, copy, symlinks=True)
        for f, old, new in bug['edits']:
            p = os.path.join(copy, 'src/mdpo', f)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{s.count(old)} places in {f} for {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', copy, 'diff']).stdout
        # at least one changed line comes from the original repository
        orig = False
        for f in {e[0] for e in bug['edits']}:
            bl = sh(['git', '-C', copy, 'blame', '-s', 'HEAD', '--',
                     'src/mdpo/' + f]).stdout.split('\n')
            fd = sh(['git', '-C', copy, 'diff', '-U0', '--',
                     'src/mdpo/' + f]).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
                n = int(m[2] or 1)
                for i in range(int(m[1]) - 1, int(m[1]) - 1 + n):
                    if bl[i].lstrip('^').startswith(BASE):
                        orig = True
        if not orig:
            return 'changes no original line'
        demo = os.path.join(work, 'demo')
        os.makedirs(demo)
        open(demo + '/demo.sh', 'w').write(DEMO_SH)
        open(demo + '/demo.py', 'w').write(
            PRELUDE + bug['demo'].strip('\n') + '\n' + EPILOGUE)
        good = sh(['sh', demo + '/demo.sh'], cwd=REPO)
        if good.returncode:
            return 'demo fails on the unchanged tree: ' + good.stdout + good.stderr
        bad = sh(['sh', demo + '/demo.sh'], cwd=copy)
        if not bad.returncode:
            return 'demo passes with the change'
        env = dict(os.environ, PYTHONPATH=copy + '/src:/opt/vp/plugins',
                   PATH='/opt/venv/bin:' + os.environ['PATH'])
        t = sh(['timeout', '300', PY, '-m', 'pytest', '-q', '--tb=no', '-p',
                'no:cacheprovider', '-p', 'vp_seed', '--timeout=30', 'tests'],
               cwd=copy, env=env, stdin=subprocess.DEVNULL)
        if t.returncode:
            return 'tests: ' + t.stdout[-700:]
        d = os.path.join(VERIF, 'seeded', bug['id'])
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(demo, d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        return 'ok ' + (bad.stdout + bad.stderr).strip().replace('\n', ' ')[-200:]
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], plant(b), flush=True)
