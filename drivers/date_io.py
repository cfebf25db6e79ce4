# Dates in the real code: date_io.py IN OUT
import vqboot
from vqboot import *
import pyslet.iso8601 as iso
import pyslet.rfc2234 as rfc2234
from pyslet.iso8601 import Date, Truncation, Precision
REFUSED = (iso.DateTimeError, ValueError, rfc2234.RFC2234Error, rfc2234.RFCParserError)
TR = [Truncation.No, Truncation.Century, Truncation.Decade, Truncation.Year, Truncation.Month, Truncation.Week, Truncation.Hour, Truncation.Minute]
PR = {Precision.Century: 1, Precision.Year: 2, Precision.Month: 3, Precision.Week: 4, Precision.Complete: 5}
N = lambda v: -1 if v is None else int(v)


def d5(d):
    return {'c': N(d.century), 'y': N(d.year), 'm': N(d.month), 'w': N(d.week), 'd': N(d.day)}


def mk(x):
    v = dict((k, None if n < 0 else n) for k, n in x.items())
    if v['w'] is not None:
        return Date(century=v['c'], decade=v['y'] // 10, year=v['y'] % 10, week=v['w'])
    return Date(century=v['c'], year=v['y'], month=v['m'], day=v['d'])


NO = {'c': -9, 'y': -9, 'm': -9, 'w': -9, 'd': -9}


def guard(x, f):
    x['st'] = 'ok'
    try:
        f(x)
    except REFUSED:
        x['st'] = 'refused'
    except Exception, e:
        x['st'] = '%s: %s' % (e.__class__.__name__, str(e)[:80])
    return x


def texts(f):
    out = []
    for basic in (True, False):
        row = []
        for t in TR:
            try:
                row.append(codes(f(basic, t)))
            except REFUSED:
                row.append([])
        out.append(row)
    return out


def put_texts(x, d):
    x['ct'], x['wt'] = texts(d.GetCalendarString), texts(d.GetWeekString)
    try:
        x['ot'] = texts(d.GetOrdinalString)
    except REFUSED:
        x['ot'] = [[[]] * len(TR)] * 2


def day(n):
    x = {'n': n, 'cal': [], 'ord': [], 'wk': [], 'jul': [1, 1, 1], 'leap': False, 'abs': 0, 'back': [], 'ct': [[[]] * 8] * 2, 'ot': [[[]] * 8] * 2, 'wt': [[[]] * 8] * 2}

    def f(x):
        d = Date(absoluteDay=n)
        x['cal'], x['ord'], x['wk'], x['jul'] = map(N, d.GetCalendarDay()), map(N, d.GetOrdinalDay()), map(N, d.GetWeekDay()), map(N, d.GetJulianDay())
        x['leap'], x['abs'] = bool(d.LeapYear()), d.GetAbsoluteDay()
        c, y, m, dd = d.GetCalendarDay()
        o = d.GetOrdinalDay()
        w = d.GetWeekDay()
        back = [Date(d), Date(century=c, year=y, month=m, day=dd), Date(century=o[0], year=o[1], ordinalDay=o[2]), Date(century=w[0], decade=w[1], year=w[2], week=w[3], weekday=w[4]),
                Date.FromJulian(*d.GetJulianDay()), Date.FromString(str(d)), Date.FromString(unicode(d))]
        t = [0] * 9
        d.UpdateStructTime(t)
        if t[6] != w[4] - 1 or t[7] != o[2]:
            raise KeyError('struct_time %r' % t)
        back.append(Date.FromStructTime(t))
        put_texts(x, d)
        for k in ('ct', 'ot', 'wt'):
            for row in x[k]:
                for s in row:
                    if s:
                        back.append(Date.FromString(text(s), d))
        x['back'] = map(d5, back)
    return guard(x, f)


def read(q):
    x = dict(q, got=NO, f=[])

    def f(x):
        d, fm = Date.FromStringFormat(''.join(map(chr, q['s'])), mk(q['b'][0]) if q['b'] else None)
        x['got'], x['f'] = d5(d), codes(fm)
    return guard(x, f)


def part(d):
    x = {'d': d, 'p': 0, 'full': False, 'ct': [], 'ot': [], 'wt': []}

    def f(x):
        e = mk(d)
        x['p'], x['full'] = PR[e.GetPrecision()], bool(e.Complete())
        put_texts(x, e)
    return guard(x, f)


def offset(q):
    x = dict(q, got=NO)

    def f(x):
        c, y, m, w, d = q['o']
        x['got'] = d5(mk(q['x']).Offset(centuries=c, years=y, months=m, weeks=w, days=d))
    return guard(x, f)


def cmpd(q):
    x = dict(q, got=9, hash=False)

    def f(x):
        a, b = mk(q['a']), mk(q['b'])
        x['hash'] = hash(a) == hash(b)
        x['got'] = cmp(a, b)
        if (a < b) != (x['got'] < 0) or (a == b) != (x['got'] == 0) or (a >= b) != (x['got'] >= 0) or (b < a) != (x['got'] > 0):
            raise KeyError('inconsistent comparisons')
    return guard(x, f)


def make(q):
    x = dict(q, got=NO)

    def f(x):
        v = q['v']
        if q['how'] == 'cal':
            d = Date(century=v[0], year=v[1], month=v[2], day=v[3])
        elif q['how'] == 'ord':
            d = Date(century=v[0], year=v[1], ordinalDay=v[2])
        elif q['how'] == 'week':
            d = Date(century=v[0], decade=v[1], year=v[2], week=v[3], weekday=v[4])
        elif q['how'] == 'abs':
            d = Date(absoluteDay=v[0])
        else:
            d = Date.FromJulian(*v)
        x['got'] = d5(d)
    return guard(x, f)


F = {'day': day, 'read': read, 'part': part, 'offset': offset, 'cmp': cmpd, 'make': make}
if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        r['xs'] = [F[r['k']](q) for q in r['xs']]
        log.put(r)
    log.close()
