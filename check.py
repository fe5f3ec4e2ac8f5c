#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--seed N] [--tier quick|thorough] [engine options]

Decides property ID on the current working tree of /repo: builds the sources it needs with the
stand-ins and the harness, runs the generated cases, writes evidence/ID.json.
Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer.
check.py --setup: checks that the tools are there and the harness compiles."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NDT_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
CXX = ['g++', '-std=c++17', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w']
TSAN_CXX = ['g++', '-std=c++17', '-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-w']
PLAIN = ['-fno-sanitize=all']                 # not seen by a sanitizer
FUZZ_CXX = ['clang++', '-std=c++17', '-O1', '-g1', '-fsanitize=fuzzer-no-link,address',
            '-fno-omit-frame-pointer', '-w', '-DPBT_LIBFUZZER']
PYTHON = '/opt/veriftools/pyvenv/bin/python'
LIBS = ['-lceres', '-lglog', '-pthread']

MODEL = ['ndt_model', 'scan']
SOLVER = ['ceres_solver', 'scan', 'constraint']
MATCHER = ['scan_matcher_ndt', 'ndt_model', 'scan']
FILTER = ['particle_filter', 'motion_model'] + MATCHER
GRAPH = ['graph', 'scan', 'constraint']
NODE = None                                  # everything
# property: (harness file, sources of the repository)
SPEC = {
    'C01': ('cell', MODEL), 'C02': ('cell', MODEL), 'C03': ('grid', MODEL), 'C04': ('grid', MODEL),
    'C05': ('scan', ['scan']), 'C06': ('constraint', ['constraint', 'scan']),
    'C07': ('solver', SOLVER), 'C08': ('solver', SOLVER), 'C09': ('solver', SOLVER),
    'C10': ('kdtree', []), 'C11': ('motion', ['motion_model']), 'C12': ('motion', ['motion_model']),
    'C13': ('filter', FILTER), 'C14': ('filter', FILTER), 'C15': ('evidence', FILTER),
    'C16': ('matcher', MATCHER), 'C17': ('matcher', MATCHER), 'C18': ('matcher', MATCHER),
    'C19': ('occupancy', ['occupancy_grid', 'scan']), 'C20': ('occupancy', ['occupancy_grid', 'scan']),
    'C21': ('graph', GRAPH), 'C22': ('graph', GRAPH), 'C23': ('graph', GRAPH),
    'C24': ('laser', NODE), 'C25': ('node', NODE), 'C26': ('node', NODE), 'C27': ('node', NODE),
    'C28': ('node', NODE), 'C29': ('load', NODE), 'C31': ('closures', NODE), 'C32': ('faults', NODE),
    'C34': ('published', NODE), 'C35': ('cloud', NODE), 'C33': ('races', NODE),
    'C36': ('track', NODE), 'C37': ('track', NODE), 'C39': ('unload', NODE),
    'C38': ('params', NODE), 'C40': ('memory', NODE), 'C41': ('malformed', NODE),
}
ASSUMPTIONS = [
    'the stand-ins in /verif/stubs behave like the ROS interfaces they replace, as far as the repository uses them',
    'compiled with g++ -O1 and AddressSanitizer on this machine; floating point as here',
]


def text(path):
    with open(path, 'rb') as f:
        return f.read()


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, subs, files in sorted(os.walk(d)):
            subs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith(('.hpp', '.h', '.py')):
                    h.update(os.path.relpath(p, d).encode() + b'\0' + text(p) + b'\0')
    return h.hexdigest()


class BuildError(Exception):
    pass


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(what + ' failed:\n' + ' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout


def generate_messages():
    h = hashlib.sha256()
    for d in ('msg', 'srv'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            h.update(f.encode() + text(os.path.join(REPO, d, f)))
    h.update(text(os.path.join(HERE, 'tools', 'gen_msgs.py')))
    out = os.path.join(BUILD, 'msgs-' + h.hexdigest()[:16])
    if not os.path.isdir(out):
        tmp = out + '.%d' % os.getpid()
        run([sys.executable, os.path.join(HERE, 'tools', 'gen_msgs.py'), REPO, tmp], 'generating messages')
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class Builder:
    def __init__(self, cxx):
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        self.cxx = cxx
        self.msgs = generate_messages()
        self.inc = ['-I' + os.path.join(HERE, 'stubs'), '-I' + self.msgs, '-I' + os.path.join(REPO, 'include'),
                    '-I/usr/include/eigen3', '-I' + os.path.join(HERE, 'engine')]
        self.headers = tree_hash([os.path.join(HERE, 'stubs'), os.path.join(REPO, 'include'),
                                  os.path.join(REPO, 'src'), os.path.join(HERE, 'engine'),
                                  os.path.join(HERE, 'props')]) + os.path.basename(self.msgs)

    def compile(self, src, extra=()):
        key = hashlib.sha256(self.headers.encode() + src.encode() + text(src) +
                             ' '.join(self.cxx + list(extra)).encode()).hexdigest()[:24]
        obj = os.path.join(BUILD, 'obj', key + '.o')
        if not os.path.exists(obj):
            tmp = obj + '.%d.o' % os.getpid()
            run(self.cxx + list(extra) + self.inc + ['-c', src, '-o', tmp], 'compiling ' + src)
            os.rename(tmp, obj)
        return obj

    def all_sources(self):
        d = os.path.join(REPO, 'src')
        return sorted(f[:-4] for f in os.listdir(d) if f.endswith('.cpp'))

    def program(self, harness, names, link_extra=()):
        every = self.all_sources()
        if names is None:
            names = every
        try:
            return self.link(harness, [n for n in names if n in every], link_extra)
        except BuildError:
            # A refactoring may have moved code to another file
            if set(names) == set(every):
                raise
            return self.link(harness, every, link_extra)

    def link(self, harness, names, link_extra):
        srcs = [os.path.join(REPO, 'src', n + '.cpp') for n in names]
        srcs.sort(key=lambda s: ('ceres' not in s, 'mapper' not in s))
        mine = [os.path.join(HERE, 'props', harness + '.cpp')] + \
               [os.path.join(HERE, 'engine', f + '.cpp') for f in ('pbt', 'world')]
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            # ThreadSanitizer must not see how threads are scheduled
            hidden = PLAIN if '-fsanitize=thread' in self.cxx else ()
            objs = list(pool.map(lambda f: self.compile(f, hidden if f.endswith('/world.cpp') else ()), srcs + mine))
        key = hashlib.sha256(' '.join(objs + self.cxx + list(link_extra)).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, 'prog-' + key)
        if not os.path.exists(exe):
            tmp = exe + '.%d' % os.getpid()
            run(self.cxx + list(link_extra) + objs + ['-o', tmp] + LIBS, 'linking ' + harness)
            os.rename(tmp, exe)
        return exe


def prune():
    # the cache of a developer's machine does not grow without bound
    d = os.path.join(BUILD, 'obj')
    files = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('prog-')]
    if os.path.isdir(d):
        files += [os.path.join(d, f) for f in os.listdir(d)]
    if len(files) > 400:
        files.sort(key=os.path.getmtime)
        for f in files[:-200]:
            try:
                os.unlink(f)
            except OSError:
                pass


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


def evidence(prop, tier, seed, wall, results, violations, extra=None):
    tests = results.get('tests', [])
    cov = {
        'evaluations': sum(t['cases'] for t in tests),
        'distinct_nontrivial': sum(t['distinct'] for t in tests),
        'rule': ' | '.join('%s: %s' % (t['test'], t['rule']) for t in tests),
        'samples': [s for t in tests for s in t['samples']][:12] or ['(none)'],
        'tests': [{k: v for k, v in t.items() if k not in ('samples', 'rule')} for t in tests],
    }
    if extra:
        cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))


def environment():
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=0:'
                           'allocator_may_return_null=0:max_allocation_size_mb=6000:quarantine_size_mb=16')
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:detect_deadlocks=1:history_size=4:report_bugs=1:report_thread_leaks=0'
    env['GLOG_minloglevel'] = '2'
    env['GLOG_logtostderr'] = '1'
    return env


def finish(prop, tier, seed, start, results):
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    evidence(prop, tier, seed, time.time() - start, results, int(results['violated']))
    if results['violated']:
        print('VIOLATION property=%s replay=%s' % (prop, results['replay']), flush=True)
        return 1
    if not results['tests'] or any(t['cases'] == 0 for t in results['tests']):
        print('%s: nothing was explored' % prop)
        return 2
    print('%s: held, %.1f s' % (prop, time.time() - start))
    return 0


def scripts(tier, seed, rest, start):
    """C30: Python under Hypothesis"""
    tool = [PYTHON, os.path.join(HERE, 'props', 'scripts_check.py'), REPO]
    if '--replay' in rest:
        return subprocess.run(tool + ['--replay', rest[rest.index('--replay') + 1]]).returncode
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    path = os.path.join(BUILD, 'C30-%d.json' % os.getpid())
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run(tool + [path, '4000' if tier == 'quick' else '100000', str(seed), replays], env=env, cwd=BUILD)
    if r.returncode not in (0, 1) or not os.path.exists(path):
        print('C30: no answer (exit %d)' % r.returncode)
        return 2
    with open(path) as f:
        results = json.load(f)
    os.unlink(path)
    return finish('C30', tier, seed, start, results)


def main():
    args = sys.argv[1:]
    start = time.time()
    if not args:
        print(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    if args[0] == '--setup':
        b = Builder(CXX)
        b.compile(os.path.join(HERE, 'engine', 'pbt.cpp'))
        b.compile(os.path.join(HERE, 'engine', 'world.cpp'))
        print('ready')
        return 0
    prop, rest = args[0], args[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1') & 0x7fffffffffffffff
    except ValueError:
        seed = 1
    pass_on = []
    i = 0
    while i < len(rest):
        if rest[i] == '--tier':
            tier = rest[i + 1]
            i += 2
        elif rest[i] == '--seed':
            seed = int(rest[i + 1])
            i += 2
        else:
            pass_on.append(rest[i])
            i += 1
    if prop == 'C30':
        return scripts(tier, seed, pass_on, start)
    harness, names = SPEC[prop]
    prune()
    exe = Builder(TSAN_CXX if prop == 'C33' else CXX).program(harness, names)
    print('%s: built in %.1f s' % (prop, time.time() - start), flush=True)
    if '--replay' in pass_on:
        return subprocess.run([exe] + pass_on, env=environment()).returncode
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    env = environment()
    if prop == 'C33':
        env['PBT_ISOLATED'] = '1'
    results_path = os.path.join(BUILD, '%s-%d.json' % (prop, os.getpid()))
    budget = '240' if tier == 'quick' else '2400'
    command = [exe]
    if prop == 'C33' and subprocess.run([exe, '--help'], env=env, stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL).returncode == 66:
        command = ['setarch', 'x86_64', '-R', exe]    # ThreadSanitizer does not like the addresses
    r = subprocess.run(command + ['--property', prop, '--tier', tier, '--seed', str(seed), '--jobs', '8',
                        '--results', results_path, '--replay-dir', replays, '--budget', budget,
                        '--regressions', os.path.join(HERE, 'regressions')] + pass_on, env=env)
    if r.returncode not in (0, 1) or not os.path.exists(results_path):
        print('%s: the engine gave no answer (exit %d)' % (prop, r.returncode))
        return 2
    with open(results_path) as f:
        results = json.load(f)
    os.unlink(results_path)
    return finish(prop, tier, seed, start, results)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print(str(e))
        sys.exit(2)
