# HTTP header values in the real code: http_io.py IN OUT
import vqboot
from vqboot import *
import pyslet.rfc2616_core as core
import pyslet.rfc2616_params as params
import pyslet.rfc2616_headers as headers
import pyslet.iso8601 as iso

raw = lambda cs: ''.join(map(chr, cs))


def q(x):
    return int(round(x * 1000))


def ps(d):
    return [[codes(k), codes(d[k][0]), codes(d[k][1])] for k in sorted(d.keys())]


def mt(x):
    return {'t': codes(x.type), 's': codes(x.subtype), 'ps': ps(x.parameters)}


def ai(x):
    return {'r': mt(x.range), 'q': q(x.q), 'x': ps(x.params)}


def at(x):
    return {'t': codes(x.token), 'q': q(x.q)}


def each(f):
    return lambda l: [f(x) for x in l]


def cr(x):
    return {'r': [] if x.firstByte is None else [x.firstByte, x.lastByte], 'n': [] if x.totalLength is None else [x.totalLength]}


def cc(x):
    out = []
    for d in x:
        if isinstance(d, tuple):
            d, v = d
            assert x[d] == v
            if isinstance(v, tuple):
                out.append({'d': codes(d), 'k': 'f', 'v': [codes(y) for y in v]})
            elif isinstance(v, (int, long)):
                out.append({'d': codes(d), 'k': 'n', 'v': [v]})
            else:
                out.append({'d': codes(d), 'k': 's', 'v': codes(v)})
        else:
            out.append({'d': codes(d), 'k': '', 'v': []})
    return out


def fd(x):
    c, y, m, d, h, mi, s = x.GetCalendarTimePoint()
    return [100 * c + y, m, d, h, mi, s]


pt = lambda x: {'t': codes(x.token), 'v': [] if x.version is None else [codes(x.version)]}
lt = lambda x: [codes(y) for y in (x.primary,) + tuple(x.subtags)]
KINDS = {
    'mt': (params.MediaType.FromString, mt), 'mr': (headers.MediaRange.FromString, mt), 'ai': (headers.AcceptItem.FromString, ai),
    'al': (headers.AcceptList.FromString, each(ai)), 'at': (headers.AcceptToken.FromString, at), 'ac': (headers.AcceptCharsetList.FromString, each(at)),
    'ae': (headers.AcceptEncodingList.FromString, each(at)), 'ag': (headers.AcceptLanguageList.FromString, each(at)),
    'te': (params.TransferEncoding.FromString, lambda x: {'t': codes(x.token), 'ps': ps(x.parameters)}),
    'pt': (params.ProductToken.FromString, pt), 'ptl': (params.ProductToken.ListFromString, each(pt)),
    'lt': (params.LanguageTag.FromString, lt), 'ltl': (params.LanguageTag.ListFromString, each(lt)),
    'et': (params.EntityTag.FromString, lambda x: {'t': codes(x.tag), 'w': int(bool(x.weak))}),
    'hv': (params.HTTPVersion.FromString, lambda x: [x.major, x.minor]), 'cr': (headers.ContentRange.FromString, cr),
    'ar': (headers.AcceptRanges.FromString, lambda x: [codes(y) for y in x]), 'aw': (headers.Allow.FromString, lambda x: [codes(y) for y in x]),
    'cc': (headers.CacheControl.FromString, cc), 'fd': (params.FullDate.FromHTTPString, fd)}


def back(k, x):
    if k in ('ptl', 'ltl'):
        return (' ' if k == 'ptl' else ', ').join(map(str, x))
    return str(x)


def guard(f, x):
    try:
        return f()
    except core.SyntaxError, e:
        x['st'] = 'err'
    except Exception, e:
        x['st'] = 'crash %s: %s' % (e.__class__.__name__, str(e)[:100])
    x.setdefault('v', [])
    x['back'] = []


def parse(k, x):
    def f():
        o = KINDS[k][0](raw(x['s']))
        x['v'] = KINDS[k][1](o)
        x['back'] = codes(back(k, o))
        if k == 'cr':
            x['valid'] = int(bool(o.IsValid()))
            try:
                x['len'] = len(o)
            except ValueError:
                x['len'] = -1
        x['st'] = 'ok'
    x['valid'] = x['len'] = 0
    guard(f, x)


def dps(p):
    return dict((raw(k), [raw(n), raw(v)]) for k, n, v in p)


def build(k, v):
    if k == 'mt':
        return params.MediaType(raw(v['t']), raw(v['s']), dps(v['ps']))
    if k == 'mr':
        return headers.MediaRange(raw(v['t']), raw(v['s']), dps(v['ps']))
    if k == 'ai':
        return headers.AcceptItem(build('mr', v['r']), v['q'] / 1000.0, dps(v['x']))
    if k == 'al':
        return headers.AcceptList(*[build('ai', y) for y in v])
    if k == 'at':
        return headers.AcceptToken(raw(v['t']), v['q'] / 1000.0)
    if k in ('ac', 'ae', 'ag'):
        c = {'ac': headers.AcceptCharsetList, 'ae': headers.AcceptEncodingList, 'ag': headers.AcceptLanguageList}[k]
        return c(*[c.ItemClass(raw(y['t']), y['q'] / 1000.0) for y in v])
    if k == 'te':
        return params.TransferEncoding(raw(v['t']), dps(v['ps']))
    if k == 'pt':
        return params.ProductToken(raw(v['t']), *[raw(y) for y in v['v']])
    if k == 'lt':
        return params.LanguageTag(*map(raw, v))
    if k == 'et':
        return params.EntityTag(raw(v['t']), bool(v['w']))
    if k == 'hv':
        return params.HTTPVersion(*v)
    if k == 'cr':
        return headers.ContentRange(v['r'][0] if v['r'] else None, v['r'][1] if v['r'] else None, v['n'][0] if v['n'] else None)
    if k == 'ar':
        return headers.AcceptRanges(*map(raw, v))
    if k == 'aw':
        return headers.Allow(*map(raw, v))
    if k == 'cc':
        return headers.CacheControl(*[raw(y['d']) if y['k'] == '' else (raw(y['d']), y['v'][0] if y['k'] == 'n' else raw(y['v']) if y['k'] == 's' else tuple(map(raw, y['v'])))
                                      for y in v])


def make(k, x):
    def f():
        o = build(k, x['v'])
        x['back'] = codes(str(o))
        x['st'] = 'ok'
    guard(f, x)


def date(x):
    def f():
        y, m, d, h, mi, s = x['v']
        z = abs(x['z'])
        t = params.FullDate(date=iso.Date(century=y // 100, year=y % 100, month=m, day=d),
                            time=iso.Time(hour=h, minute=mi, second=s, zDirection=(z and (1 if x['z'] > 0 else -1)), zHour=z // 60, zMinute=z % 60))
        x['back'] = codes(str(t))
        x['st'] = 'ok'
    guard(f, x)


def sign(n):
    return (n > 0) - (n < 0)


def compare(k, x):
    f = headers.AcceptLanguageItem.FromString if k == 'ag' else KINDS[k][0]
    os = []
    for t in x['ss']:
        try:
            os.append(f(raw(t)))
        except core.SyntaxError:
            os.append(None)
    x['cmp'] = []
    x['why'] = ''
    for a in os:
        row = []
        for b, s in zip(os, x['ss']):
            if a is None or b is None:      # 72: no value to compare
                row.append(72)
                continue
            try:
                c = cmp(a, b)
                ops = (a < b, a == b, a > b, a != b, a <= b, a >= b)
                if ops != (c < 0, c == 0, c > 0, c != 0, c <= 0, c >= 0):
                    c = 70
                elif k != 'hv' and cmp(a, raw(s)) != c:       # text stands for the value it parses to
                    c = 71
                row.append(sign(c) if abs(c) < 70 else c)
            except Exception, e:
                row.append(73)
                x['why'] = '%s: %s' % (e.__class__.__name__, e)
        x['cmp'].append(row)
    x['hash'] = []
    for a in os:
        try:
            x['hash'].append('%i' % hash(a))
        except TypeError:
            x['hash'].append('')


def select(k, x):
    h = KINDS[k][0](raw(x['s']))
    os = [raw(s) for s in x['os']]
    if k == 'al':
        os = [params.MediaType.FromString(s) for s in os]
        g = h.SelectType(os)
    else:
        g = h.SelectToken(os)
    x['got'] = 0
    if g is not None:
        for i, o in enumerate(os):
            if (o is g) if k == 'al' else (o == g):
                x['got'] = i + 1
                break
        else:
            x['got'] = -1
    if k == 'ag':
        ls = [params.LanguageTag.FromString(s) for s in os]
        g = h.SelectLanguage(ls)
        i = 0 if g is None else [n + 1 for n, l in enumerate(ls) if l is g][0]
        if i != x['got'] and not (i and os[i - 1] == os[x['got'] - 1]):
            x['got'] = -2


if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        for x in r['xs']:
            if r['op'] == 'parse':
                parse(r['k'], x)
            elif r['op'] == 'make':
                make(r['k'], x)
            elif r['op'] == 'date':
                date(x)
            elif r['op'] == 'cmp':
                compare(r['k'], x)
            else:
                try:
                    select(r['k'], x)
                except core.SyntaxError, e:
                    x['got'] = -3
        log.put(r)
    log.close()
