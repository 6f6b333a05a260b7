#!/usr/bin/env python3
"""Runs every check on behaviour-preserving edits of /repo (tools/refactorings/*.py): all have to stay quiet.

usage: refactor.py [-j N] [NAME...]       each file defines D = {name: [(file, old, new), ...]}
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
jobs = 7
names = sys.argv[1:]
if names[:1] == ['-j']:
    jobs, names = int(names[1]), names[2:]
notest = '-notest' in names
names = [n for n in names if n != '-notest']
D = {}
for f in sorted(glob.glob(HERE + '/refactorings/*.py')):
    g = {}
    exec(open(f).read(), g)
    D.update(g['D'])
ids = [c['property'] if 'property' in c else c['id'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod')

def run(name):
    w = tempfile.mkdtemp(prefix='refactor.')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        p = w + '/repo/protocol/'
        for f, old, new in D[name]:
            if old is None:
                s = open(p + f).read() if os.path.exists(p + f) else ''
                open(p + f, 'w').write(s + new)
                continue
            s = open(p + f).read()
            if s.count(old) < 1:
                return '%-28s NOT FOUND in %s: %s' % (name, f, old[:60])
            open(p + f, 'w').write(s.replace(old, new, 1))
        r = subprocess.run(['goimports', '-w'] + sorted(set(f for f, _, _ in D[name])), cwd=p, env=env, capture_output=True, text=True)
        r = subprocess.run(['go', 'build', './...'] if notest else ['go', 'test', './...'], cwd=p, env=env, capture_output=True, text=True)
        if r.returncode:
            return '%-28s BUILD/TEST %s' % (name, '\n'.join([l for l in (r.stdout + r.stderr).splitlines() if 'no test files' not in l][:12]))
        e = dict(env, VSA_REPO=w + '/repo/protocol', VSA_OUT=w + '/ev')
        r = subprocess.run([VERIF + '/bin/vsa', 'check'] + ids, env=e, capture_output=True, text=True)
        v = re.findall(r'^VIOLATION property=(\S+)', r.stdout, re.M)
        u = sorted(set(re.findall(r'^UNDECIDED property=(\S+)', r.stdout, re.M)))
        os.makedirs('/tmp/refactor', exist_ok=True)
        open('/tmp/refactor/' + name + '.out', 'w').write(r.stdout + r.stderr)
        subprocess.run('git -C %s/repo diff > /tmp/refactor/%s.diff' % (w, name), shell=True)
        return '%-28s %s V%s U%s rc=%d' % (name, 'ok ' if not v and r.returncode == 0 and not u else '***', v, u, r.returncode)
    finally:
        shutil.rmtree(w)

with ThreadPoolExecutor(jobs) as ex:
    for l in ex.map(run, names or list(D)):
        print(l, flush=True)
