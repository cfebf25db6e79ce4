# Common start of every driver: import this first.
import sys, os, json, logging
sys.path.insert(0, '/opt/vp/runner')
import compat
compat.install()
logging.disable(logging.CRITICAL)


def load(path):
    f = open(path, 'rb')
    try:
        return json.loads(f.read().decode('utf-8'))
    finally:
        f.close()


def lines(path):
    f = open(path, 'rb')
    for l in f:
        yield json.loads(l.decode('utf-8'))
    f.close()


class Log(object):
    def __init__(self, path):
        self.f = open(path, 'wb')
        self.n = 0

    def put(self, o):
        self.f.write(json.dumps(o) + '\n')
        self.n += 1

    def close(self):
        self.f.close()


def codes(s):
    """text as the code points of its characters"""
    if isinstance(s, str):
        return [ord(c) for c in s]
    out = []
    i = 0
    for ch in s:
        out.append(ord(ch))
    return out


def text(cs):
    return u''.join([unichr(c) if c < 0x10000 else eval("u'\\U%08x'" % c) for c in cs])
