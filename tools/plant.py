""" Plants seeded bugs (a development aid; no check uses it).

usage: plant.py FILE.py [ID..]
FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo,
needs, breaks)]. Each is confirmed (tests pass, demo fails only when planted,
changed lines original), saved under seeded/ and run against its check.
"""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

REPO, BASE = '/repo', '32b0bfe'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/seedwork'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           PYTHONWARNINGS='ignore', VERIF_SEED='1', VERIF_TIER='quick')

DEMO_SH = '''#!/bin/sh
# Run with cwd = the repository; exits nonzero if the property is broken.
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, limit=600, env=ENV):
    try:
        done = subprocess.run(cmd, cwd=cwd, env=env, timeout=limit, text=True,
                              stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT)
        return done.returncode, done.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def original_lines(path, diff):
    """ True if some removed line of the diff is blamed on BASE. """
    name, found, foreign = None, 0, 0
    lineno = 0
    blame = {}
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            name = line[6:]
            out = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', name],
                     REPO)[1]
            blame = {i + 1: row.split()[0].lstrip('^')
                     for i, row in enumerate(out.splitlines())}
        elif line.startswith('@@'):
            lineno = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            commit = blame[lineno]
            old = sh(['git', 'merge-base', '--is-ancestor', commit, BASE],
                     REPO)[0] == 0
            found += old
            foreign += not old
            lineno += 1
        elif line.startswith(' '):
            lineno += 1
    return found, foreign


def plant(bug):
    path = os.path.join(WORK, bug['id'])
    if os.path.exists(path):
        shutil.rmtree(path)
    shutil.copytree(REPO, path, symlinks=True,
                    ignore=shutil.ignore_patterns('docs', '__pycache__'))
    try:
        for name, old, new in bug['edits']:
            full = os.path.join(path, name)
            with open(full) as file:
                text = file.read()
            if text.count(old) != 1:
                return 'EDIT matches %d times: %s' % (text.count(old), old)
            with open(full, 'w') as file:
                file.write(text.replace(old, new))
        diff = sh(['git', 'diff', '--', 'forecaster'], path)[1]
        found, foreign = original_lines(path, diff)
        if not found:
            return 'changes no original line'
        code, out = sh([PY, '-m', 'pytest', 'tests', '-q', '-p',
                        'no:cacheprovider'], path)
        if code != 0:
            return 'TESTS FAIL\n' + out[-600:]
        home = os.path.join(WORK, bug['id'] + '.demo')
        shutil.rmtree(home, ignore_errors=True)
        os.makedirs(home)
        with open(os.path.join(home, 'demo.sh'), 'w') as file:
            file.write(DEMO_SH)
        os.chmod(os.path.join(home, 'demo.sh'), 0o755)
        with open(os.path.join(home, 'demo.py'), 'w') as file:
            file.write('import os\nimport sys\nsys.path.insert(0, '
                       'os.getcwd())\n' + bug['demo'].strip() + '\n')
        code, out = sh([os.path.join(home, 'demo.sh')], REPO, 280)
        if code != 0:
            return 'DEMO FAILS CLEAN %s\n%s' % (code, out[-900:])
        code, out = sh([os.path.join(home, 'demo.sh')], path, 280)
        if code == 0:
            return 'DEMO PASSES PLANTED'
        tail = out.strip().splitlines()[-1:] or ['']
        dest = os.path.join(VERIF, 'seeded', bug['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(home, dest)
        with open(os.path.join(dest, 'patch.diff'), 'w') as file:
            file.write(diff)
        with open(os.path.join(dest, 'meta.json'), 'w') as file:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, file, indent=1)
            file.write('\n')
        code, out = sh([os.path.join(VERIF, 'check'), bug['property'],
                        '--jobs', '2'], VERIF, 900,
                       dict(ENV, FORECASTER_REPO=path))
        hit = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        why = [l.strip() for l in out.splitlines()
               if 'fails' in l or 'failed' in l][:1]
        return 'kept (%s%s) check=%s %s %s' % (
            tail[0][:100], ' FOREIGN%d' % foreign if foreign else '',
            code, 'CAUGHT' if hit and code == 1 else 'MISSED', why)
    finally:
        shutil.rmtree(path, ignore_errors=True)
        shutil.rmtree(os.path.join(WORK, bug['id'] + '.demo'),
                      ignore_errors=True)


def recheck(name):
    """ Runs the check of a bug already planted. """
    home = os.path.join(VERIF, 'seeded', name)
    path = os.path.join(WORK, 'r.' + name)
    if os.path.exists(path):
        shutil.rmtree(path)
    shutil.copytree(REPO, path, symlinks=True,
                    ignore=shutil.ignore_patterns('docs', '__pycache__'))
    try:
        code, out = sh(['git', 'apply', os.path.join(home, 'patch.diff')],
                       path)
        if code:
            return 'DOES NOT APPLY ' + out
        if subprocess.run([os.path.join(home, 'demo.sh')], cwd=REPO, env=ENV,
                          stdout=-3, stderr=-3).returncode:
            return 'DEMO FAILS CLEAN'
        if not subprocess.run([os.path.join(home, 'demo.sh')], cwd=path,
                              env=ENV, stdout=-3, stderr=-3).returncode:
            return 'DEMO PASSES PLANTED'
        with open(os.path.join(home, 'meta.json')) as file:
            prop = json.load(file)['property']
        code, out = sh([os.path.join(VERIF, 'check'), prop, '--jobs', '2'],
                       VERIF, 900, dict(ENV, FORECASTER_REPO=path))
        hit = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        return 'check=%s %s' % (
            code, 'CAUGHT' if hit and code == 1 else 'MISSED')
    finally:
        shutil.rmtree(path, ignore_errors=True)


def main():
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == '--recheck':
        names = sys.argv[2:] or sorted(os.listdir(
            os.path.join(VERIF, 'seeded')))
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            for name, verdict in zip(names, pool.map(recheck, names)):
                print(name, verdict, flush=True)
        return
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    os.makedirs(WORK, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for bug, verdict in zip(bugs, pool.map(plant, bugs)):
            print(bug['id'], verdict, flush=True)


if __name__ == '__main__':
    main()
