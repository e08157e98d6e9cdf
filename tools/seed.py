#!/usr/bin/env python3
"""Build and confirm planted bugs.  seed(id, prop, [(file, old, new)...], demo, needs, breaks)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/sh\nJYTHONPATH=/repo:/opt/jylib exec jython -B "$(dirname "$0")/demo.py"\n'


def seed(id, prop, edits, demo, needs, breaks, check=True):
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'OLD TEXT occurs', s.count(old), 'times in', f)
                return False
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
        out = os.path.join(V, 'seeded', id)
        tmp = os.path.join(d, 'seed')
        os.mkdir(tmp)
        open(os.path.join(tmp, 'patch.diff'), 'w').write(patch)
        open(os.path.join(tmp, 'demo.py'), 'w').write('# -*- coding: utf-8 -*-\n' + demo.lstrip('\n'))
        open(os.path.join(tmp, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(tmp, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(tmp, 'meta.json'), 'w'), indent=1)
        env = dict(os.environ, JYTHONPATH='/repo:/opt/jylib')
        good = subprocess.run(['sh', os.path.join(tmp, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        env['JYTHONPATH'] = repo + ':/opt/jylib'
        bad = subprocess.run(['jython', '-B', os.path.join(tmp, 'demo.py')], cwd=repo, capture_output=True, text=True, env=env)
        ok = good.returncode == 0 and bad.returncode != 0
        if not ok:
            print(id, 'DEMO unchanged=%d planted=%d' % (good.returncode, bad.returncode), good.stderr[-600:], bad.stderr[-300:])
            return False
        t = subprocess.run(['bash', '-c', 'cd %s && bash %s/tools/rt_in.sh %s' % (repo, V, repo)], capture_output=True, text=True)
        if 'missing: []' not in t.stdout:
            print(id, 'TESTS', t.stdout[-400:], t.stderr[-300:])
            return False
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(id, 'planted;', bad.stderr.strip().splitlines()[-1:] )
        return True
    finally:
        shutil.rmtree(d)


def caught(id, prop=None):
    """Run the check of the property on a scratch copy of /repo with the bug applied."""
    out = os.path.join(V, 'seeded', id)
    prop = prop or json.load(open(os.path.join(out, 'meta.json')))['property']
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.run('mkdir %s && git -C /repo archive HEAD | tar x -C %s && cp -r %s/check.py %s/known_findings.txt %s/sa %s/checks %s' % (
            repo, repo, V, V, V, V, d), shell=True, check=True)
        subprocess.run(['git', 'apply', os.path.join(out, 'patch.diff')], check=True, cwd=repo)
        r = subprocess.run([sys.executable, os.path.join(d, 'check.py'), prop], capture_output=True, text=True, env=dict(os.environ, FLATLAND_REPO=repo))
    finally:
        shutil.rmtree(d)
    hit = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
    msg = '%s %s %s' % (id, prop, 'CAUGHT' if hit else 'missed (%d)' % r.returncode)
    if not hit or '-v' in sys.argv:
        msg += '\n    %s %s' % (r.stdout[-400:], r.stderr[-300:])
    print(msg, flush=True)
    return hit


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')))
    with ThreadPoolExecutor(4) as ex:
        sys.exit(0 if all(list(ex.map(caught, ids))) else 1)
