#!/usr/bin/env python3
"""C30: the command line scripts against a recording stand-in of rclpy, in virtual time.
scripts_check.py REPO RESULT CASES SEED REPLAY_DIR | scripts_check.py REPO --replay FILE
Hypothesis generates the script, the file name and when things happen, and shrinks."""
import contextlib
import io
import json
import os
import re
import runpy
import sys
import time as real_time
import types

from hypothesis import HealthCheck, Phase, given, seed, settings, strategies as st

REPO = sys.argv[1]
SCRIPTS = {'enable_mapping.py': 'ENABLE_MAPPING', 'disable_mapping.py': 'DISABLE_MAPPING',
           'load_map.py': 'LOAD_FROM_FILE', 'save_map.py': 'SAVE_TO_FILE'}


def constants():
    out = {}
    for line in open(os.path.join(REPO, 'srv', 'Configure.srv')):
        m = re.match(r'\s*\w+\s+([A-Z][A-Z_0-9]*)\s*=\s*(\d+)', line)
        if m:
            out[m.group(1)] = int(m.group(2))
    return out


CONSTANTS = constants()


class Wrong(Exception):
    pass


class Endless(BaseException):
    pass


class World:
    """One run: when the service appears, how long it takes to answer; what it received"""

    def __init__(self, up, answer):
        self.now, self.up, self.answer = 0.0, up, answer
        self.requests, self.early, self.shut, self.calls = [], 0, None, 0
        self.names, self.inits = [], 0

    def tick(self, t=0.0):
        self.calls += 1
        if self.calls > 20000:
            raise Endless()
        self.now += max(t, 0.0)


class Request:
    def __init__(self, action=0, filename=''):
        self.action, self.filename = action, filename


class Response:
    pass


class Configure:
    pass


class Future:
    def __init__(self, world, done_at):
        self.world, self.at, self.callbacks = world, done_at, []

    def done(self):
        self.world.tick(0.001)
        return self.at is not None and self.world.now >= self.at

    def result(self):
        return Response() if self.at is not None and self.world.now >= self.at else None

    def exception(self):
        return None

    def cancelled(self):
        return False

    def add_done_callback(self, f):
        self.callbacks.append(f)


class Client:
    def __init__(self, world, kind, name):
        self.world, self.kind, self.srv_name = world, kind, name

    def service_is_ready(self):
        self.world.tick(0.001)
        return self.world.now >= self.world.up

    def wait_for_service(self, timeout_sec=None):
        w = self.world
        if timeout_sec is None or timeout_sec < 0:
            w.tick(max(0.0, w.up - w.now))
            return True
        if w.now < w.up:
            w.tick(max(0.0001, min(timeout_sec, w.up - w.now)))
        else:
            w.tick()
        return w.now >= w.up

    def call_async(self, request):
        w = self.world
        w.tick()
        if w.shut is not None:
            raise Wrong('a request after shutting down')
        w.names.append((self.kind, self.srv_name))
        if w.now < w.up:
            w.early += 1
            return Future(w, None)
        w.requests.append((request.action, request.filename))
        w.answered = w.now + w.answer
        return Future(w, w.answered)

    def call(self, request, timeout_sec=None):
        f = self.call_async(request)
        if f.at is None:
            raise Endless()
        self.world.tick(f.at - self.world.now)
        return Response()

    def destroy(self):
        pass


class Logger:
    def __getattr__(self, name):
        return lambda *a, **k: None


def stand_ins(w):
    class Node:
        def __init__(self, name, **k):
            if not w.inits:
                raise Wrong('a node before rclpy.init()')
            self.name = name

        def create_client(self, kind, name, **k):
            return Client(w, kind, name)

        def get_logger(self):
            return Logger()

        def destroy_node(self):
            w.tick()

        def destroy_client(self, c):
            pass

        def get_name(self):
            return self.name

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def init(*a, **k):
        w.inits += 1

    def shutdown(*a, **k):
        if w.shut is None:
            w.shut = w.now

    def spin_until(node, future, executor=None, timeout_sec=None):
        w.tick()
        if future.at is None:
            if timeout_sec is None:
                raise Endless()
            w.tick(timeout_sec)
            return
        left = future.at - w.now
        if left > 0:
            w.tick(left if timeout_sec is None else min(left, timeout_sec))
        if w.now >= future.at:
            for f in future.callbacks:
                f(future)
            future.callbacks = []

    def spin_once(node=None, executor=None, timeout_sec=None):
        w.tick(0.05 if timeout_sec is None else timeout_sec)

    rclpy = types.ModuleType('rclpy')
    rclpy.init, rclpy.shutdown, rclpy.try_shutdown = init, shutdown, shutdown
    rclpy.ok = lambda **k: w.shut is None
    rclpy.spin_until_future_complete, rclpy.spin_once, rclpy.spin = spin_until, spin_once, spin_once
    rclpy.create_node = lambda name, **k: Node(name, **k)
    node = types.ModuleType('rclpy.node')
    node.Node = Node
    rclpy.node = node
    logging = types.ModuleType('rclpy.logging')
    logging.get_logger = lambda n: Logger()
    rclpy.logging = logging
    utilities = types.ModuleType('rclpy.utilities')
    utilities.remove_ros_args = lambda args=None: list(sys.argv if args is None else args)
    rclpy.utilities = utilities
    class Configure_(Configure):
        pass
    Configure_.Request = type('Configure_Request', (Request,), dict(CONSTANTS))
    Configure_.Response = Response
    ndt, srv = types.ModuleType('ndt_2d'), types.ModuleType('ndt_2d.srv')
    srv.Configure = Configure_
    ndt.srv = srv
    return {'rclpy': rclpy, 'rclpy.node': node, 'rclpy.logging': logging, 'rclpy.utilities': utilities,
            'ndt_2d': ndt, 'ndt_2d.srv': srv}


def run(script, filename, up, answer):
    """One run of a script. Raises Wrong."""
    w = World(up, answer)
    mods = stand_ins(w)
    kept = {k: sys.modules.get(k) for k in mods}
    argv, path, sleep = sys.argv, list(sys.path), real_time.sleep
    sys.modules.update(mods)
    f = os.path.join(REPO, 'scripts', script)
    sys.argv = [f] + ([filename] if filename is not None else [])
    sys.path.insert(0, os.path.dirname(f))
    sys.dont_write_bytecode = True
    real_time.sleep = w.tick
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(f, run_name='__main__')
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Wrong('%s ended with %r' % (script, e.code))
    except Endless:
        raise Wrong('%s does not end' % script)
    except Wrong:
        raise
    except Exception as e:  # noqa: B902
        raise Wrong('%s raised %s: %s' % (script, type(e).__name__, e))
    finally:
        real_time.sleep = sleep
        sys.argv, sys.path = argv, path
        for k, v in kept.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if w.early:
        raise Wrong('%s sent a request before the service was there' % script)
    if len(w.requests) != 1:
        raise Wrong('%s sent %d requests' % (script, len(w.requests)))
    kind, name = w.names[0]
    if not issubclass(kind, Configure) or name.strip('/') != 'configure':
        raise Wrong('%s called %s' % (script, name))
    action, sent = w.requests[0]
    if action != CONSTANTS[SCRIPTS[script]]:
        raise Wrong('%s requested action %r' % (script, action))
    if filename is not None and sent != filename:
        raise Wrong('%s was given %r and requested %r' % (script, filename, sent))
    if filename is None and sent != '':
        raise Wrong('%s requested file %r' % (script, sent))
    if w.shut is not None and w.shut < w.answered - 1e-9:
        raise Wrong('%s shut down %g s before the answer' % (script, w.answered - w.shut))
    if w.now < w.answered - 1e-9:
        raise Wrong('%s ended %g s before the answer' % (script, w.answered - w.now))


def main():
    if sys.argv[2] == '--replay':
        c = json.load(open(sys.argv[3]))
        try:
            run(c['script'], c['filename'], c['up'], c['answer'])
        except Wrong as e:
            print('still fails: %s' % e)
            return 1
        print('passes')
        return 0
    result, cases, seed_, replays = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    names = st.one_of(
        st.text(alphabet=st.characters(blacklist_characters='\0', blacklist_categories=('Cs',)), min_size=1, max_size=80),
        st.sampled_from(['map', '/tmp/my map', '-map', '--help', '~/m.db3', 'a/../b', "it's", ' lead', 'trail ', '"q"', '$HOME',
                         '\u00e9\u00df\u6f22', 'x' * 300, '.', '-', '%s', '{}', '\\n', 'map.yaml', 'C:\\maps\\a']),
        st.from_regex(r'\A(/?[A-Za-z0-9_. -]{1,12}){1,4}\Z'))
    times = st.one_of(st.just(0.0), st.floats(0, 5), st.sampled_from([0.5, 1.0, 10.0, 30.0, 120.0]))
    seen, distinct, samples, failure = {'cases': 0}, set(), [], {}

    @seed(seed_)
    @settings(max_examples=cases, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck), print_blob=False)
    @given(st.sampled_from(sorted(SCRIPTS)), names, times, times)
    def check(script, name, up, answer):
        filename = name if script in ('load_map.py', 'save_map.py') else None
        if not failure:
            seen['cases'] += 1
            if up > 0 or filename is not None:
                distinct.add((script, filename, up, answer))
            if len(samples) < 12 and (up > 0 and filename is not None):
                samples.append('%s %r, service after %g s, answer after %g s' % (script, filename, up, answer))
        try:
            run(script, filename, up, answer)
        except Wrong as e:
            failure.update(script=script, filename=filename, up=up, answer=answer, message=str(e))
            raise

    # Regressions first, then the search
    try:
        check()
    except Wrong as e:
        failure['message'] = str(e)
    out = {'violated': bool(failure), 'replay': '',
           'tests': [{'test': 'requests', 'cases': seen['cases'], 'nontrivial': len(distinct), 'distinct': len(distinct), 'samples': samples,
                      'rule': 'a script, a file name, the time until the service appears and the time until it answers; '
                              'non-trivial: the service is not there at first, or there is a file name'}]}
    if failure:
        print('minimal case: %s' % failure['message'])
        print(json.dumps({k: v for k, v in failure.items() if k != 'message'}))
        out['replay'] = os.path.join(replays, 'C30-requests-%d.replay' % seed_)
        with open(out['replay'], 'w') as f:
            json.dump(failure, f)
    print('C30/requests: %d cases, %d non-trivial, %s' % (seen['cases'], len(distinct), 'FAILED' if failure else 'held'))
    with open(result, 'w') as f:
        json.dump(out, f)
    return 1 if failure else 0


if __name__ == '__main__':
    sys.exit(main())
