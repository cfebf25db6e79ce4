# Takes URIs apart and puts them together with the real code: uri_io.py IN OUT
import vqboot
from vqboot import *
import pyslet.rfc2396 as uri
import pyslet.rfc2616_params as params
F = uri.URIFactory


def s8(c):
    return ''.join(map(chr, c))


def c8(s):
    return [ord(c) for c in s]


def opt(s):
    return [] if s is None else [c8(s)]


def kind(e):
    if isinstance(e, uri.URIRelativeError):
        return 'rel'
    if isinstance(e, uri.URIException):
        return 'uri'
    return '%s: %s' % (e.__class__.__name__, str(e)[:100])


def parse(r, s):
    x = {'s': s, 'st': 'ok', 'scheme': [], 'opaque': [], 'auth': [], 'abs': [], 'rel': [], 'query': [], 'frag': [], 'back': [], 'name': []}
    try:
        u = uri.URI(s8(s))
        x.update(scheme=opt(u.scheme), opaque=opt(u.opaquePart), auth=opt(u.authority), abs=opt(u.absPath), rel=opt(u.relPath), query=opt(u.query), frag=opt(u.fragment), back=c8(str(u)))
        try:
            x['name'] = opt(u.GetFileName())
        except UnicodeDecodeError:
            pass
    except Exception, e:
        x['st'] = kind(e)
    return x


def resolve(r, s):
    x = {'s': s, 'st': 'ok', 'got': []}
    try:
        x['got'] = c8(str(F.Resolve(s8(r['b']), s8(s))))
    except Exception, e:
        x['st'] = kind(e)
    return x


def relative(r, s):
    x = {'s': s, 'st': 'ok', 'got': [], 'back': []}
    try:
        b = F.URI(s8(r['b']))
        g = F.URI(s8(s)).Relative(b)
        x['got'] = c8(str(g))
        x['back'] = c8(str(F.URI(str(g)).Resolve(b)))
    except Exception, e:
        x['st'] = kind(e)
    return x


def escape(r, s):
    t = s8(s)
    e1, e2, e3 = uri.EscapeData(t), uri.EscapeData(t, lambda c: not uri.IsAlphaNum(c)), uri.EscapeData(t, lambda c: False)
    return {'s': s, 'e1': c8(e1), 'e2': c8(e2), 'e3': c8(e3), 'u1': c8(uri.UnescapeData(e1)), 'u2': c8(uri.UnescapeData(e2)), 'u3': c8(uri.UnescapeData(e3)), 'u': c8(uri.UnescapeData(t))}


def http(r, st):
    x = {'s': st[0], 't': st[1], 'st': 'ok', 'match': False, 'twice': True, 'self': True}
    try:
        a, b = F.URI(s8(st[0])), F.URI(s8(st[1]))
        m = bool(a.Match(b))
        if m != bool(b.Match(a)):
            x['st'] = 'not symmetric'
        x['match'] = m
        x['self'] = bool(a.Match(a))
        c = a.Canonicalize()
        x['twice'] = str(c) == str(c.Canonicalize())
    except Exception, e:
        x['st'] = kind(e)
    return x


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        r['xs'] = [globals()[r['k']](r, s) for s in r['xs']]
        log.put(r)
    log.close()
