# coding=utf-8
"""
Simulated nodes: other interpreters, with other string hash randomisation, that describe and restore objects.

`python -m dst.node NAME` listens on an abstract unix socket and serves each connection in a forked process, so every
simulated run talks to nodes that have just started.
"""
import base64
import copy
import importlib
import json
import os
import pickle
import socket
import subprocess
import sys
import select
import time

from . import core, gen


def ident(obj):
    from whatami import What
    from whatami.whatutils import what2id
    if isinstance(obj, What):
        return obj.id()
    if hasattr(obj, 'what'):
        return what2id(obj)
    return What('w', {'v': obj}).id()


class Order(object):
    """Decides the insertion order of unordered containers, and if equal strings are the same object."""

    def __init__(self, seed):
        self.rng = core.rng_for('order', seed)
        self.strings = {}
        self.p = self.rng.choice((0, .5, 1))

    def __call__(self, items):
        return self.rng.sample(list(items), len(items))

    def intern(self, s):
        if self.rng.random() < self.p:
            return self.strings.setdefault(s, s)
        return ''.join(list(s))


def make(spec, seed):
    return gen.build(spec, order=Order(seed))


def serve(req):
    cmd = req['cmd']
    if cmd == 'id':
        return ident(make(req['spec'], req['seed']))
    if cmd == 'dump':
        return base64.b64encode(pickle.dumps(make(req['spec'], req['seed']), req['protocol'])).decode()
    if cmd == 'load':
        return ident(pickle.loads(base64.b64decode(req['data'])))
    if cmd == 'reload':
        return base64.b64encode(pickle.dumps(pickle.loads(base64.b64decode(req['data'])), req['protocol'])).decode()
    if cmd == 'copy':
        return ident(copy.copy(make(req['spec'], req['seed'])))
    if cmd == 'deepcopy':
        return ident(copy.deepcopy(make(req['spec'], req['seed'])))
    if cmd == 'rng':
        from .props.c15 import draw
        rs = pickle.loads(base64.b64decode(req['data']))
        whatid = ident(rs)
        for d in req['draws']:
            draw(rs, d)
        return [whatid, ident(rs), base64.b64encode(pickle.dumps(rs, req['protocol'])).decode()]
    raise ValueError(cmd)


def answer(req):
    try:
        return ['ok', serve(req)]
    except Exception as e:
        return ['exc', '%s: %s' % (type(e).__name__, str(e)[:300])]


class Node(object):
    """The client side."""

    def __init__(self, address):
        self.address = address
        self.sock = None

    def ask(self, req):
        if self.sock is None:
            self.sock = socket.socket(socket.AF_UNIX)
            self.sock.connect('\0' + self.address)
            self.file = self.sock.makefile('rwb')
        self.file.write(json.dumps(req).encode() + b'\n')
        self.file.flush()
        line = self.file.readline()
        if not line:
            raise core.Violation('died', 'the node died')
        return json.loads(line)

    def crash(self):
        """The next request is served by a new process."""
        if self.sock is not None:
            self.file.close()
            self.sock.close()
            self.sock = None


class Local(object):
    """The node inside the simulating process."""

    def ask(self, req):
        return json.loads(json.dumps(answer(json.loads(json.dumps(req)))))

    def crash(self):
        pass


_SPAWNED = []


def spawn(hashseed, preload=None):
    """Starts a node, that first calls preload() of the given module, and returns its address."""
    address = 'dst-node-%d-%d-%d' % (os.getpid(), hashseed, len(_SPAWNED))
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.Popen([sys.executable, '--jit', 'off', '-W', 'ignore', '-m', 'dst.node', address] +
                         ([preload] if preload else []),
                         cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=None if os.environ.get('DST_DEBUG') else subprocess.DEVNULL)
    _SPAWNED.append(p)
    return address


def wait_for(addresses):
    deadline = time.monotonic() + 120
    for a in addresses:
        while True:
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect('\0' + a)
                s.close()
                break
            except OSError:
                if time.monotonic() > deadline or any(p.poll() is not None for p in _SPAWNED):
                    raise core.HarnessError('node %s does not start' % a)
                time.sleep(.05)


def stop():
    for p in _SPAWNED:
        p.kill()
        p.wait()
    del _SPAWNED[:]


def main():
    parent = os.getppid()
    sys.path.insert(0, core.REPO)
    import whatami
    import whatami.whatutils  # noqa
    if not os.path.abspath(whatami.__file__).startswith(core.REPO + '/'):
        sys.exit(2)
    if len(sys.argv) > 2:
        importlib.import_module(sys.argv[2]).preload()
    listener = socket.socket(socket.AF_UNIX)
    listener.bind('\0' + sys.argv[1])
    listener.listen(256)
    while os.getppid() == parent:
        ready, _, _ = select.select([listener], [], [], 1.)
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        if not ready:
            continue
        conn, _ = listener.accept()
        if os.fork() == 0:
            try:
                listener.close()
                f = conn.makefile('rwb')
                for line in f:
                    f.write(json.dumps(answer(json.loads(line))).encode() + b'\n')
                    f.flush()
            finally:
                os._exit(0)
        conn.close()


if __name__ == '__main__':
    main()
