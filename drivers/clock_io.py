# Times, time points and durations in the real code: clock_io.py IN OUT
import vqboot
from vqboot import *
import pyslet.iso8601 as iso
import pyslet.rfc2234 as rfc2234
from pyslet.iso8601 import Date, Time, TimePoint, Duration, Truncation, Precision
from date_io import guard, mk, d5, REFUSED
PREC = {1: Precision.Hour, 2: Precision.Minute, 3: Precision.Complete}
n_ = lambda v: v // 8 if v % 8 == 0 else v / 8.0


def e8(v):
    if v is None:
        return -8
    if v * 8 != int(v * 8):
        raise KeyError('not in eighths: %r' % v)
    return int(v * 8)


def tv(t):
    h, m, s = t.GetTime()
    d, o = t.GetZone()
    return [e8(h), e8(m), e8(s)] + ([9, 0] if d is None else [d, o])


def mt(v):
    if v == []:
        return None
    p = [None if x < 0 else n_(x) for x in v[:3]]
    if v[3] == 9:
        return Time(hour=p[0], minute=p[1], second=p[2])
    return Time(hour=p[0], minute=p[1], second=p[2], zDirection=v[3], zHour=v[4] // 60, zMinute=v[4] % 60)


def zone(z):
    d, h, m = z
    return dict(zDirection=None if d == 9 else d, zHour=None if h < 0 else h, zMinute=None if m < 0 else m)


def S(s):
    return ''.join(map(chr, s))


def read(q):
    x = dict(q, got=[], over=0, f=[])

    def f(x):
        t, x['over'], fm = Time.FromStringFormat(S(q['s']), mt(q['b']))
        x['got'], x['f'] = tv(t), codes(fm)
        if tv(Time.FromString(unicode(S(q['s'])), mt(q['b']))) != x['got']:
            raise KeyError('FromString')
    return guard(x, f)


def make(q):
    x = dict(q, got=[], copy=False, total=-1, texts=False)

    def f(x):
        p = [None if v < 0 else n_(v) for v in q['v']]
        if q['how'] == 'new':
            t = Time(hour=p[0], minute=p[1], second=p[2], **zone(q['z']))
        else:
            t = Time(hour=p[0], minute=p[1], second=p[2])
            z = zone(q['z'])
            if q['how'] == 'with':
                t = t.WithZone(**z)
            elif z['zDirection'] is not None and z['zHour'] is not None:
                s = 'Z' if z['zDirection'] == 0 else '%s%02d%s' % ('+' if z['zDirection'] > 0 else '-', z['zHour'], '' if z['zMinute'] is None else ':%02d' % z['zMinute'])
                t = t.WithZoneString(s) if q['how'] == 'str' else t.WithZoneStringFormat(s)[0]
            else:
                t = t.WithZone(**z)
        x['got'] = tv(t)
        try:
            x['total'] = e8(t.GetTotalSeconds())
        except REFUSED:
            pass
        x['copy'] = tv(Time(t)) == tv(t) and Time(t) == t and hash(Time(t)) == hash(t)
        d, h, m = t.GetZone3()
        c = t.GetCanonicalZone()
        o = t.GetZoneOffset()
        x['texts'] = str(t) == unicode(t) == t.GetString() and (d is None) == (o is None) and (d is None or (d * (h * 60 + m) == o and c == ((0, 0, 0) if o == 0 else (d, h, m)))) \
            and t.Complete() == (t.second is not None)
        if t.Complete() and 8 * t.second % 8 == 0:
            st = [0] * 9
            t.UpdateStructTime(st)
            x['texts'] = x['texts'] and tv(Time.FromStructTime(st))[:3] == x['got'][:3]
    return guard(x, f)


def text_(q):
    x = dict(q, s=[])

    def f(x):
        x['s'] = codes(mt(q['t']).GetString(q['bas'], q['tr'], q['ndp'], Precision.Hour if q['short'] else Precision.Complete, chr(q['dp'])))
    return guard(x, f)


def offset(q):
    x = dict(q, got=[], over=0)

    def f(x):
        h, m, s = map(n_, q['o'])
        t, x['over'] = mt(q['t']).Offset(hours=h, minutes=m, seconds=s)
        x['got'] = tv(t)
    return guard(x, f)


def shift(q):
    x = dict(q, got=[], over=0)

    def f(x):
        t, x['over'] = mt(q['t']).ShiftZone(**zone(q['z']))
        x['got'] = tv(t)
    return guard(x, f)


def prec(q):
    x = dict(q, got=[])

    def f(x):
        t = mt(q['t']).WithPrecision(PREC[q['p']], q['cut'])
        x['got'] = tv(t)
        if t.GetPrecision() != PREC[q['p']]:
            raise KeyError('precision')
    return guard(x, f)


def secs(q):
    x = dict(q, got=[])

    def f(x):
        x['got'] = tv(Time(totalSeconds=n_(q['n'])))
    return guard(x, f)


def cmps(a, b, x):
    x['hash'] = hash(a) == hash(b)
    x['got'] = cmp(a, b)
    if (a < b) != (x['got'] < 0) or (a == b) != (x['got'] == 0) or (a >= b) != (x['got'] >= 0) or (b < a) != (x['got'] > 0) or (a != b) == (a == b):
        raise KeyError('inconsistent comparisons')


def cmpt(q):
    return guard(dict(q, got=7, hash=False), lambda x: cmps(mt(q['a']), mt(q['b']), x))


NOP = {'d': 0, 't': []}


def mp(v):
    return TimePoint(date=Date(absoluteDay=v['d']), time=mt(v['t']))


def pv(p):
    if not isinstance(p.date, Date) or not isinstance(p.time, Time):
        raise KeyError('parts')
    return {'d': p.date.GetAbsoluteDay(), 't': tv(p.time)}


def ptext(q):
    x = dict(q, s=[], back=NOP)

    def f(x):
        p = mp(q['p'])
        g = {'cal': p.GetCalendarString, 'ord': p.GetOrdinalString, 'week': p.GetWeekString}[q['kind']]
        s = g(q['bas'], q['dtr'], q['ndp'], Precision.Hour if q['short'] else Precision.Complete, chr(q['dp']))
        x['s'] = codes(s)
        x['back'] = pv(TimePoint.FromString(s, p.date))
        if str(p) != unicode(p) or str(p) != p.GetCalendarString() or p.GetZone() != p.time.GetZone() or p.GetCalendarTimePoint() != p.date.GetCalendarDay() + p.time.GetTime() \
           or p.GetOrdinalTimePoint() != p.date.GetOrdinalDay() + p.time.GetTime() or p.GetWeekDayTimePoint() != p.date.GetWeekDay() + p.time.GetTime():
            raise KeyError('views')
        if p.Complete() and p.time.second == int(p.time.second):
            st = [0] * 9
            p.UpdateStructTime(st)
            r = TimePoint.FromStructTime(st)
            if pv(r)['d'] != q['p']['d'] or pv(r)['t'][:3] != q['p']['t'][:3]:
                raise KeyError('struct_time')
    return guard(x, f)


def pread(q):
    x = dict(q, got=NOP, f=[])

    def f(x):
        p, fm = TimePoint.FromStringFormat(S(q['s']), mk(q['b'][0]) if q['b'] else None)
        x['got'], x['f'] = pv(p), codes(fm)
    return guard(x, f)


def pshift(q):
    x = dict(q, got=NOP)

    def f(x):
        x['got'] = pv(mp(q['p']).ShiftZone(**zone(q['z'])))
    return guard(x, f)


def pcmp(q):
    return guard(dict(q, got=7, hash=False), lambda x: cmps(mp(q['a']), mp(q['b']), x))


def pprec(q):
    x = dict(q, got=NOP)

    def f(x):
        x['got'] = pv(mp(q['p']).WithPrecision(PREC[q['pr']], q['cut']))
    return guard(x, f)


def unix(q):
    x = dict(q, got=NOP)

    def f(x):
        x['got'] = pv(TimePoint.FromUnixTime(q['days'] * 86400 + n_(q['u'])))
    return guard(x, f)


def dv(d):
    return [e8(d.weeks)] if d.weeks is not None else map(e8, d.GetCalendarDuration())


def dread(q):
    x = dict(q, got=[], eq=False, back=[])

    def f(x):
        d = Duration(S(q['s']))
        x['got'] = dv(d)
        c = Duration(d)
        n = Duration(unicode(S(q['s'])))
        o = Duration('P7W') if x['got'] != [56] else Duration('P3D')
        x['eq'] = c == d and not (c != d) and n == d and d == S(q['s']) and dv(c) == x['got'] and not (o == d) and o != d
        x['back'] = codes(d.GetString(ndp=3))
    return guard(x, f)


def dtext(q):
    x = dict(q, s=[])

    def f(x):
        d = Duration()
        v = [None if a < 0 else n_(a) for a in q['v']]
        if len(v) == 1:
            d.SetWeekDuration(v[0])
        else:
            d.SetCalendarDuration(*v)
        x['s'] = codes(d.GetString(q['zeros'], q['ndp'] if q['dp'] == 44 else -q['ndp']))
    return guard(x, f)


F = {'read': read, 'make': make, 'text': text_, 'offset': offset, 'shift': shift, 'prec': prec, 'secs': secs, 'cmp': cmpt, 'ptext': ptext, 'pread': pread, 'pshift': pshift,
     'pcmp': pcmp, 'pprec': pprec, 'unix': unix, 'dread': dread, 'dtext': dtext}
if __name__ == '__main__':
    log = Log(sys.argv[2])
    for r in lines(sys.argv[1]):
        r['xs'] = [F[r['k']](q) for q in r['xs']]
        log.put(r)
    log.close()
