"""Times, zones, time points and durations judged by specs/time/Clock (itself checked against a ticking clock)."""
import datetime
import json


def run(ctx):
    r = ctx.rng
    n = 1 if ctx.quick else 25
    model = lambda: ctx.tlc('time', 'MCClock', 'INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANT Step = %d\n' % (1201 if ctx.quick else 77))
    recs = []
    MAX = datetime.date.max.toordinal()

    def put(k, xs, size=150):
        for j in range(0, len(xs), size):
            recs.append({'k': k, 'xs': xs[j:j + size]})
    hour = lambda: r.choice([0, 0, 1, 11, 12, 22, 23, 23, r.randint(0, 23)]) * 8
    sixty = lambda: r.choice([0, 0, 1, 29, 30, 58, 59, 59, r.randint(0, 59)]) * 8
    fr = lambda: r.choice([0, 0, 0, 4, 1, 7, r.randint(0, 7)])
    zn = lambda: [9, 0] if r.random() < 0.35 else [0, 0] if r.random() < 0.25 else [r.choice([-1, 1]), r.choice([0, 60, 120, 300, 330, 345, 540, 720, 840, 1380, 1439, r.randint(0, 1439)])]

    def tm(p=None, f=True):
        p = p or r.choice([1, 2, 3, 3, 3])
        z = zn()
        if p == 1 and r.random() < 0.5 and z[0] != 9:
            z[1] -= z[1] % 60
        v = [hour(), sixty() if p > 1 else -8, sixty() if p > 2 else -8]
        if f:
            v[p - 1] += fr()
        if r.random() < 0.02:
            v = [192] + [0 if a >= 0 else -8 for a in v[1:]]
        return v + z

    def zargs():
        z = zn()
        if z[0] == 9:
            return [9, -1, -1]
        if z[0] == 0:
            return [0, r.choice([-1, 0]), r.choice([-1, 0])]
        h, m = z[1] // 60, z[1] % 60
        if r.random() < 0.1:
            h = r.choice([-1, 23, 24, 25, 99])
        if r.random() < 0.1:
            m = r.choice([-1, 59, 60, 75, 99])
        if r.random() < 0.3:
            m = r.choice([-1, 0])
        return [z[0], h, m]

    def frac(f, w=None):
        s = str(f * 125).zfill(3)
        s = s.rstrip('0') if r.random() < 0.5 else s
        return (s or '0') + '0' * r.choice([0, 0, 0, 1, 2])

    def ttext(v):
        p = 1 + sum(a >= 0 for a in v[1:3])
        bas = r.random() < 0.5
        f = v[p - 1] % 8
        x = r.random()
        ds = ['%02d' % (a // 8) for a in v[:p]]
        if r.random() < 0.08:
            ds[r.randrange(p)] = r.choice(['24', '25', '59', '60', '61', '99', '23', '00'])
        if x < 0.7:
            s = ('' if bas else ':').join(ds)
        elif p == 3 and x < 0.85:
            s = '-' + ('' if bas else ':').join(ds[1:])
        elif p == 3:
            s = '--' + ds[2]
        elif p == 2:
            s = '-' + ds[1]
        else:
            s = ds[0]
        if f or r.random() < 0.1:
            s += r.choice(',.') + frac(f)
        if s[0] != '-' or r.random() < 0.05:
            if v[3] != 9:
                if r.random() < 0.08:
                    bas = not bas
                s += 'Z' if v[3] == 0 else '+-'[v[3] < 0] + '%02d' % (v[4] // 60) + ('' if r.random() < 0.3 else ('' if bas else ':') + '%02d' % (v[4] % 60 if r.random() < 0.95 else r.choice([59, 60, 61, 99])))
        if r.random() < 0.3:
            s = 'T' + s
        if r.random() < 0.08:
            k = r.randrange(len(s))
            s = s[:k] + r.choice(['', '', ':', '-', '0', 'T', ' ', '+', 'Z', ',']) + s[k + r.randint(0, 1):]
        return s
    C = lambda s: [ord(c) for c in s]

    def near(b):
        u = (b[0] // 8) * 28800 + (b[1] // 8) * 480 + b[2] + r.choice([0, 0, 1, -1, 8, -8, 480, -480, 3600, r.randint(-30000, 30000)])
        u %= 691200
        return [u // 28800 * 8, u % 28800 // 480 * 8, u % 480] + zn()

    def base():
        b = tm(3)
        if b[0] == 192:
            b[0] = 0
        return b
    xs = []
    for _ in range(8000 * n):
        b = base()
        v = near(b) if r.random() < 0.5 else tm()
        if r.random() < 0.3:
            v[2] = -8
            v[1] -= v[1] % 8
        xs.append({'s': C(ttext(v)), 'b': b if r.random() < 0.7 else []})
    xs += [{'s': C(s), 'b': b} for s in ('', 'T', '-', '--', 'Z', '1', '12:', '12,', '12.5.5', '123', '12345', 'T-30', '--30', '-30', '-3015', '-30:15', '1200z', '12+', '12+1', '12+01:', '12Z0', '24', '24:00', '240000', '24:00:01', '24,5')
           for b in ([], base())]
    put('read', xs)
    # construction
    xs = []
    for _ in range(2500 * n):
        v = tm()[:3]
        if r.random() < 0.2:
            k = r.randrange(3)
            v[k] = r.choice([-8, 8 * 24, 8 * 25, 8 * 59, 8 * 59 + 7, 8 * 60, 8 * 100, 0, 4])
        if v[2] >= 480 and v[2] < 488:
            v[2] = 488
        if v[0] < 0:
            v[0] = 0
        xs.append({'how': r.choice(['new', 'new', 'with', 'str', 'fmt']), 'v': v, 'z': zargs()})
    put('make', xs)
    xs = []
    for _ in range(3000 * n):
        xs.append({'t': tm(), 'bas': r.random() < 0.5, 'tr': r.choice([0, 0, 0, 6, 6, 7, 1, 3, 5]), 'ndp': r.choice([0, 0, 1, 2, 3, 4]), 'short': r.random() < 0.4, 'dp': r.choice([44, 46])})
    put('text', xs)
    xs = []
    for _ in range(4000 * n):
        t = tm()
        if t[0] == 192:
            continue
        o = [0, 0, 0]
        for k in r.sample(range(3), r.choice([1, 1, 1, 2, 3])):
            m = [30, 2000, 100000][k] * 8
            o[k] = r.choice([1, -1, 8, -8, 24 * 8, -24 * 8, 60 * 8, -60 * 8, 3600 * 8, r.randint(-m, m), 4, -4, r.randint(-m, m) // 8 * 8])
            if r.random() < 0.6:
                o[k] -= o[k] % 8
        xs.append({'t': t, 'o': o})
    put('offset', xs)
    xs = []
    for _ in range(2500 * n):
        t = tm()
        if t[0] < 192:
            xs.append({'t': t, 'z': zargs()})
    put('shift', xs)
    put('prec', [{'t': tm(), 'p': r.randint(1, 3), 'cut': r.random() < 0.6} for _ in range(1200 * n)])
    put('secs', [{'n': r.choice([0, 8, -1, -8, 691199, 691200, 691208, 480, 479, 28800, 28799, r.randint(0, 691199), r.randint(0, 86399) * 8])} for _ in range(500 * n)])
    xs = []
    for _ in range(1500 * n):
        a, b = tm(), tm()
        if r.random() < 0.7:
            b = a[:3] + (a[3:] if r.random() < 0.85 else zn())
            k = r.randrange(3)
            if r.random() < 0.6 and 0 < b[k] < 184:
                b[k] += r.choice([-8, 8] if r.random() < 0.5 or k + 1 < 3 and b[k + 1] >= 0 else [-1, 1])
            if b[3] == 0 and r.random() < 0.5:
                b[3] = 1
        xs.append({'a': a, 'b': b})
    put('cmp', xs)
    # time points
    day = lambda: r.choice([1, 2, 3, MAX, MAX - 1, 693596, 730120, 719163, 59, 60, 365, 366, 367] + [r.randint(1, MAX)] * 8)
    ymd = lambda k: (lambda d: {'c': d.year // 100, 'y': d.year % 100, 'm': d.month, 'w': -1, 'd': d.day})(datetime.date.fromordinal(k))
    def pt():
        t = tm()
        while t[0] == 192:
            t = tm()
        return {'d': day(), 't': t}
    xs = []
    for _ in range(2500 * n):
        k = r.choice(['cal', 'ord', 'week'])
        p = pt()
        if k == 'week' and (p['d'] < 8 or p['d'] > MAX - 8):
            p['d'] = 700000
        xs.append({'p': p, 'kind': k, 'bas': r.random() < 0.5, 'dtr': r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 7]), 'ndp': r.choice([0, 3, 3, 3]), 'short': r.random() < 0.4, 'dp': r.choice([44, 46])})
    put('ptext', xs)
    from checks.T01 import FORMS
    xs = []
    for _ in range(4000 * n):
        d = datetime.date.fromordinal(min(max(day(), 400), MAX - 400))
        iso = d.isocalendar()
        f = r.choice(FORMS) if r.random() < 0.5 else r.choice(['YYYYMMDD', 'YYYY-MM-DD', 'YYYYDDD', 'YYYY-DDD', 'YYYYWwwD', 'YYYY-Www-D'])
        k = f.count('Y')
        y = '%04d' % (iso[0] if 'W' in f else d.year)
        s = f.replace('Y' * k, y if k == 4 else y[2:] if k == 2 else y[3:]) if k else f
        s = s.replace('DDD', '%03d' % d.timetuple().tm_yday).replace('DD', '%02d' % d.day).replace('MM', '%02d' % d.month).replace('ww', '%02d' % iso[1]).replace('D', str(iso[2]))
        t = ttext(tm())
        t = t.lstrip('T') if r.random() < 0.95 else t
        if ('-' in s.strip('-')) != (':' in t) and r.random() < 0.6:
            t = t.replace(':', '') if ':' in t else t
        s += r.choice(['T'] * 30 + ['', 't', ' ', 'TT']) + t
        xs.append({'s': C(s), 'b': [ymd(min(max(d.toordinal() + r.choice([0, 1, -1, 40, -40, 400]), 1), MAX))] if r.random() < 0.8 else []})
    xs += [{'s': C(s), 'b': []} for s in ('', '2000-01-01', '20000101', '2000-01-01T', '2000-01T12:00', '20000101T-30', '2000-01-01T-30', '2000-01-01T12', '20000101T12', '2000-01-01T1200', '20000101T12:00', '2000-01-01T12:00+0100')]
    put('pread', xs)
    xs = []
    for _ in range(2000 * n):
        xs.append({'p': pt(), 'z': zargs()})
    put('pshift', xs)
    xs = []
    for _ in range(3000 * n):
        a = pt()
        a['d'] = min(max(a['d'], 5), MAX - 5)
        b = pt()
        b['d'] = min(max(b['d'], 5), MAX - 5)
        if r.random() < 0.85 and a['t'][3] != 9:
            z = zn()
            if z[0] == 9:
                z = [1, 0]
            # the same moment, or one close to it, told in another zone
            v = a['t']
            p = 1 + sum(q >= 0 for q in v[1:3])
            if p == 1:
                z[1] = z[1] // 60 * 60 + v[4] % 60 if v[3] * z[0] > 0 else 0
                if v[3] * z[0] <= 0 and v[4] % 60:
                    z = [v[3], v[4]]
            u = a['d'] * 691200 + v[0] * 3600 + (v[1] * 60 if p > 1 else 0) + (v[2] if p > 2 else 0)
            u += (z[0] * z[1] - v[3] * v[4]) * 480
            q = [3600, 60, 1][p - 1]
            u += r.choice([0, 0, 0, 1, -1, 8, -8]) * q
            d, u = u // 691200, u % 691200
            w = [u // 3600, -8, -8] if p == 1 else [u // 28800 * 8, u % 28800 // 60, -8] if p == 2 else [u // 28800 * 8, u % 28800 // 480 * 8, u % 480]
            if p == 1 and u % 3600:
                continue
            b = {'d': d, 't': w + z}
        elif r.random() < 0.5:
            b = {'d': a['d'] + r.choice([-1, 0, 0, 1]), 't': a['t'][:3] + (a['t'][3:] if r.random() < 0.8 else [9, 0])}
        xs.append({'a': a, 'b': b})
    put('pcmp', xs)
    put('pprec', [{'p': pt(), 'pr': r.randint(1, 3), 'cut': r.random() < 0.6} for _ in range(400 * n)])
    put('unix', [{'days': r.choice([0, 0, -1, 1, r.randint(-20000, 40000)]), 'u': r.choice([0, 8, r.randint(0, 691199), r.randint(0, 86399) * 8])} for _ in range(500 * n)])
    # durations
    num = lambda: r.choice([0, 0, 1, 2, 9, 10, 12, 60, 100, r.randint(0, 5000)])
    xs = []
    for _ in range(4000 * n):
        if r.random() < 0.15:
            s = 'P%d' % num() + (r.choice(',.') + frac(fr()) if r.random() < 0.5 else '') + 'W'
        else:
            ks = sorted(r.sample(range(6), r.choice([1, 2, 2, 3, 4, 6])))
            s = 'P'
            for k in ks:
                if k > 2 and 'T' not in s:
                    s += 'T'
                s += str(num()) + (r.choice(',.') + frac(fr()) if k == ks[-1] and r.random() < 0.4 or r.random() < 0.04 else '') + 'YMDHMS'[k]
        if r.random() < 0.2:
            k = r.randrange(len(s))
            s = s[:k] + r.choice(['', '', 'T', 'P', 'Y', 'M', 'S', '5', '.', ',', '-', 'W']) + s[k + r.randint(0, 1):]
        xs.append({'s': C(s)})
    xs += [{'s': C(s)} for s in ('', 'P', 'PT', 'P5', 'P1YT', 'PT5', 'P.5D', 'P1.D', 'P1,5Y', 'P1.5Y2M', 'P1D2Y', 'P1M1M', 'PT1M1M', 'PT1Y', 'P1S', 'P1Y2W', 'P2W1D', '1D', 'P-1D', 'P1YT1', 'P0D', 'PT0S', 'P1H')]
    put('dread', xs)
    xs = []
    for _ in range(1500 * n):
        if r.random() < 0.15:
            v = [num() * 8 + fr()]
        else:
            k = r.randint(1, 6)
            z = r.randint(0, k)
            v = [0 if j < z else num() * 8 for j in range(k)]
            v[-1] += fr()
            v += [-8] * (6 - k)
        xs.append({'v': v, 'zeros': r.random() < 0.5, 'ndp': r.choice([0, 1, 3, 3]), 'dp': r.choice([44, 46])})
    put('dtext', xs)
    r.shuffle(recs)
    m = ctx.parallel([lambda: ctx.drive('clock_io.py', recs, parts=7), model])
    ctx.count('observations', sum(len(x['xs']) for x in recs))
    for v, o in ctx.judge('time', 'ClockTrace', m[0]):
        if v['bad']:
            want = dict(map(tuple, v['want']))
            for j in v['xs'][:3]:
                x = o['xs'][j - 1]
                d = dict(x, **{k: ''.join(map(chr, x[k])) for k in ('s', 'f', 'back') if k in x and isinstance(x[k], list)})
                ctx.violate('%s %s' % (o['k'], json.dumps(d.get('s') or d)), '%s: %s (expected %s)' % (o['k'], json.dumps(d)[:1500], want[j]), d)
