"""Dates: conversions, arithmetic, comparison and ISO 8601 texts, judged by specs/time/Calendar (itself checked against the calendar walked day by day)."""
import datetime
import json

FORMS = ["YYYYMMDD", "YYYY-MM", "YYYY", "YY", "YYMMDD", "-YYMM", "-YY", "--MMDD", "--MM", "---DD", "YYYYDDD", "YYDDD", "-DDD", "YYYYWwwD", "YYYYWww", "YYWwwD", "YYWww",
         "-YWwwD", "-YWww", "-WwwD", "-Www", "-W-D", "YYYY-MM-DD", "YY-MM-DD", "-YY-MM", "--MM-DD", "YYYY-DDD", "YY-DDD", "YYYY-Www-D", "YYYY-Www", "YY-Www-D", "YY-Www",
         "-Y-Www-D", "-Y-Www", "-Www-D"]


def d5(d):
    return {'c': d.year // 100, 'y': d.year % 100, 'm': d.month, 'w': -1, 'd': d.day}


def run(ctx):
    r = ctx.rng
    n = 1 if ctx.quick else 25
    years = '1..4, 97..101, 399..401, 1899..1901, 1999..2001, 9997..9998' if ctx.quick else '1..410, 1500..2110, 9900..9998'
    ys = '{' + ', '.join(str(y) for a in years.split(', ') for y in range(int(a.split('..')[0]), int(a.split('..')[1]) + 1)) + '}'
    model = lambda: ctx.tlc('time', 'MCCalendar', 'INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANT Years = %s\n' % ys)
    recs = []
    MAX = datetime.date.max.toordinal()

    def put(k, xs, size):
        for j in range(0, len(xs), size):
            recs.append({'k': k, 'xs': xs[j:j + size]})

    def day(y=None):
        y = y or r.choice([1, 2, 4, 99, 100, 101, 399, 400, 401, 1582, 1899, 1900, 1901, 1970, 1999, 2000, 2001, 2004, 2005, 2008, 2009, 2010, 2015, 2020, 9998, 9999] + [r.randint(1, 9999)] * 10)
        a = datetime.date(y, 1, 1).toordinal()
        b = datetime.date(y, 12, 31).toordinal()
        x = r.random()
        if x < 0.25:
            return r.randint(a, min(b, a + 7))
        if x < 0.5:
            return r.randint(max(a, b - 7), b)
        if x < 0.6:
            return a + r.randint(57, 61)
        return r.randint(a, b)
    D = lambda k: datetime.date.fromordinal(k)
    # days: around the turn of each year of the cycle, all days of some years, and any
    ds = set()
    for y in list(range(1, 9)) + list(range(96, 105)) + list(range(396, 405)) + list(range(1895, 1905)) + list(range(1976, 2012)) + list(range(9990, 10000)):
        a = datetime.date(y, 1, 1).toordinal()
        ds |= set(range(max(1, a - 4), a + 5)) | {a + 57, a + 58, a + 59, a + 60}
    ds |= set(range(1, 60)) | set(range(MAX - 40, MAX + 1))
    for _ in range(1200 * n):
        ds.add(day())
    for y in (1999, 2000) if ctx.quick else range(1990, 2020):
        ds |= set(range(datetime.date(y, 1, 1).toordinal(), datetime.date(y, 12, 31).toordinal() + 1))
    put('day', sorted(ds), 60)
    # texts with and without a base
    xs = []

    def textof(f, d):
        iso = d.isocalendar()
        yd = d.timetuple().tm_yday
        wk = 'W' in f
        y = '%04d' % (iso[0] if wk else d.year)
        k = f.count('Y')
        s = f.replace('Y' * k, y if k == 4 else (y[:2] if f == 'YY' else y[2:]) if k == 2 else y[3:]) if k else f
        s = s.replace('DDD', '%03d' % yd).replace('DD', '%02d' % d.day).replace('MM', '%02d' % d.month).replace('ww', '%02d' % iso[1])
        return s.replace('D', str(iso[2]))
    for _ in range(9000 * n):
        f = r.choice(FORMS)
        b = D(day())
        x = r.random()
        if x < 0.5:
            k = b.toordinal() + r.choice([-1, 1]) * r.choice([0, 1, 2, 6, 7, 8, 29, 30, 31, 365, 366, 3652, 3653, 36524, r.randint(0, 800)])
            d = D(min(max(k, 1), MAX))
        else:
            d = D(day())
        if x < 0.7 and d.year < 9990:
            s = textof(f, d)
        else:
            g = lambda m, w: ('%%0%dd' % w) % r.choice([0, 1, 2, m - 1, m, m + 1, r.randrange(10 ** w)])
            s = f
            for a, m, w in (('YYYY', 2000, 4), ('YY', 99, 2), ('Y', 9, 1), ('DDD', 366, 3), ('DD', 31, 2), ('MM', 12, 2), ('ww', 53, 2), ('D', 7, 1)):
                s = s.replace(a, g(m, w)[-w:])
        if r.random() < 0.06:
            k = r.randrange(len(s))
            s = s[:k] + r.choice(['', '', 'W', '-', '0', 'T', ' ', '+']) + s[k + r.randint(0, 1):]
        xs.append({'s': [ord(c) for c in s], 'b': [d5(b)] if r.random() < 0.85 else []})
    xs += [{'s': [], 'b': []}, {'s': [45], 'b': []}, {'s': [87], 'b': []}]
    put('read', xs, 150)
    # reduced precision
    xs = []
    for _ in range(150 * n):
        d = d5(D(day()))
        k = r.randrange(4)
        if k < 3:
            d['d'] = -1
        if k < 2:
            d['m'] = -1
        if k < 1:
            d['y'] = -1
        elif k == 2 and r.random() < 0.5:
            d['m'], d['w'] = -1, r.randint(1, 52)
        xs.append(d)
    put('part', xs, 60)
    # arithmetic
    xs = []
    for _ in range(3000 * n):
        o = [0] * 5
        for k in r.sample(range(5), r.choice([1, 1, 1, 2, 2, 3])):
            m = [2, 120, 30, 60, 800][k]
            o[k] = r.choice([0, 1, -1, 2, -2, m, -m, 12, -12, r.randint(-m, m)])
        xs.append({'x': d5(D(day())), 'o': o})
    put('offset', xs, 150)
    xs = []
    for _ in range(1200 * n):
        a, b = d5(D(day())), d5(D(day()))
        if r.random() < 0.6:
            b = dict(a)
            k = r.choice('cymd')
            b[k] = a[k] + r.choice([-1, 0, 1])
            if b['d'] > 28:
                b['d'] = 28
            b['c'], b['y'], b['m'], b['d'] = max(1, min(99, b['c'])), max(0, min(99, b['y'])), max(1, min(12, b['m'])), max(1, b['d'])
        for z in (a, b):
            k = r.choice([0, 0, 0, 1, 2, 3]) if z is a else k
            if k and r.random() < 0.9:
                z['d'] = -1
                if k > 1:
                    z['m'] = -1
                if k == 3:
                    z['y'] = -1
                elif k == 2 and r.random() < 0.5:
                    z['w'] = r.randint(1, 52)
        xs.append({'a': a, 'b': b})
    put('cmp', xs, 150)
    # constructors
    xs = [{'how': 'abs', 'v': [v]} for v in (0, -1, -2, -365, -366, 1, 2, MAX, MAX + 1, MAX + 2, MAX + 400)]
    for _ in range(2500 * n):
        how = r.choice(['cal', 'ord', 'week', 'jul'])
        c, y = r.choice([0, 1, 3, 4, 15, 16, 19, 20, 99, 100, -1]), r.choice([0, 1, 4, 68, 69, 99, 100, -1])
        m, d = r.choice([1, 2, 2, 2, 12, r.randint(1, 12), 0, 13]), r.choice([1, 28, 29, 30, 31, r.randint(1, 28), 0, 32])
        if how == 'cal':
            v = [c, y, m, d]
        elif how == 'ord':
            v = [c, y, r.choice([0, 1, 59, 60, 61, 365, 366, 367, r.randint(1, 366)])]
        elif how == 'week':
            v = [c, r.choice([0, 1, 5, 9, 10]), r.choice([0, 1, 4, 9, 10]), r.choice([0, 1, 52, 53, 54, r.randint(1, 53)]), r.choice([1, 2, 4, 7, 8, 0])]
        else:
            v = [r.randint(2, 9998), r.randint(1, 12), r.randint(1, 28)]
        xs.append({'how': how, 'v': v})
    put('make', xs, 150)
    m = ctx.parallel([lambda: ctx.drive('date_io.py', recs, parts=7), model])
    ctx.count('observations', sum(len(x['xs']) for x in recs))
    for v, o in ctx.judge('time', 'CalendarTrace', m[0]):
        if v['bad']:
            want = dict(map(tuple, v['want']))
            for j in v['xs'][:3]:
                x = o['xs'][j - 1]
                d = dict(x, **{k: ''.join(map(chr, x[k])) for k in ('s', 'f') if k in x})
                d = {k: w for k, w in d.items() if o['k'] == 'day' or k not in ('ct', 'ot', 'wt')}
                ctx.violate('%s %s' % (o['k'], json.dumps(d.get('s') or d.get('n') or d)), '%s: %s (expected %s)' % (o['k'], json.dumps(d)[:1500], want[j]), d)
