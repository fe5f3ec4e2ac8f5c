#!/usr/bin/env python3
"""seed.py [ID...]: for the planted bugs (all by default), in a scratch copy of /repo: the patch applies and
builds, the stable tests pass, the demonstration passes without and fails with the patch, and which of the
checks of its property report it.  --kit: lay the demonstration kit into the folders that have a demo.cpp."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def kit(d):
    k = os.path.join(d, 'kit')
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k)
    shutil.copytree(os.path.join(HERE, 'stubs'), os.path.join(k, 'stubs'))
    for f in ('engine/world.cpp', 'engine/world.hpp', 'tools/gen_msgs.py'):
        shutil.copy(os.path.join(HERE, f), k)
    for f in os.listdir(os.path.join(HERE, 'tools', 'demo_kit')):
        shutil.copy(os.path.join(HERE, 'tools', 'demo_kit', f), k)


def sh(cmd, cwd, env=None, timeout=1800):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


def one(i, fast):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    out = [i, prop]
    try:
        repo = tmp + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        demo = tmp + '/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('patch.diff', 'meta.json'))
        if not fast:
            r = sh('bash %s/demo.sh' % demo, repo)
            out.append('clean:%s' % ('ok' if r.returncode == 0 else 'FAIL\n' + r.stdout))
        r = sh('git apply %s/patch.diff' % d, repo)
        if r.returncode:
            return out + ['patch does not apply ' + r.stdout]
        if not fast:
            r = sh('bash %s/demo.sh' % demo, repo)
            out.append('demo rc %d %s' % (r.returncode, r.stdout.strip()[-200:].replace('\n', ' / ')))
            # the official build works on /repo only: see --official
        r = sh('python3 check.py %s' % prop, HERE, dict(os.environ, NDT_REPO=repo))
        line = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'minimal' in x or 'shrinking' in x]
        out.append('check rc %d %s' % (r.returncode, ' / '.join(x[:200] for x in line)))
        if r.returncode != 1:
            out.append(r.stdout[-300:])
    finally:
        shutil.rmtree(tmp)
    return out


def official(i):
    """In /repo itself: builds and passes the stable tests"""
    p = os.path.join(SEEDED, i, 'patch.diff')
    if subprocess.call(['git', '-C', '/repo', 'apply', p]):
        return 'does not apply'
    try:
        r = sh('bash /opt/vp/test.sh /tmp/seed-tests.json', '/repo')
        passed = json.load(open('/tmp/seed-tests.json'))
        return '%d passed, %d failed%s' % (len(passed['passed']), len(passed['failed']), '' if r.returncode == 0 else ' rc %d' % r.returncode)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])


args = sys.argv[1:]
opts = {a for a in args if a.startswith('--')}
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(SEEDED))
for i in ids:
    if os.path.exists(os.path.join(SEEDED, i, 'demo.cpp')):
        kit(os.path.join(SEEDED, i))
if '--kit' in opts:
    sys.exit(0)
if '--official' in opts:
    for i in ids:
        print(i, official(i), flush=True)
    sys.exit(0)
with concurrent.futures.ThreadPoolExecutor(2) as pool:
    for r in pool.map(lambda i: one(i, '--fast' in opts), ids):
        print(' | '.join(str(x) for x in r), flush=True)
