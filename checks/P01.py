"""Histories of content packages on the real classes, judged by specs/package: files, file table, references and archives."""
import urllib.parse
import cpgen


def codes(seg):
    return list(urllib.parse.unquote_to_bytes(seg))


def run(ctx):
    r = ctx.rng
    g = cpgen.G(r)
    n = 1 if ctx.quick else 12
    ctx.tlc('package', 'MCPackage', 'CONSTANT MaxOps = %d\nCONSTANT MaxRefs = %d\nCONSTANT Forgetful = FALSE\nINIT Init\nNEXT Next\nINVARIANT Agrees\nINVARIANT Lasting\nINVARIANT ManifestSafe\nINVARIANT EntryMeans\n' % ((4, 3) if ctx.quick else (5, 4)))
    recs = [g.history(r.choice([3, 6, 10, 14])) for _ in range(400 * n)]
    recs += [g.archive() for _ in range(500 * n)]
    out = ctx.drive('cp_run.py', recs)
    for o in out:
        for s in o['steps']:
            if s['op'] in ('copy', 'uniq') and s.get('st') == '':
                last = lambda h: h[-1] if h else ''
                s['codes'] = codes(last(s['got']['s'] if s['op'] == 'copy' else s['got']))
                s['wcodes'] = codes(s['name'] if s['op'] == 'copy' else last(cpgen.G.norm((cpgen.PKG if s['low']['t'] == 'rel' else []) + [x for x in s['low']['s'] if x])))
    for v, o in ctx.judge('package', 'PackageTrace', out):
        ctx.count('archives' if v['err'] else 'histories', 1) if not v['bad'] else None
        if not v['bad']:
            continue
        if o['k'] == 'zip':
            e = ' '.join('%s%s%s' % ('/'.join(x['s']), '=' if x['c'] else '', '*' if x['utf8'] else '') for x in o['entries'])
            ctx.violate('zip %s' % e, 'archive %s: %s %s, files %s, left %s; expected %s %s' % (e, o['st'], o['why'], o['see'], o['out'], v['err'], v['want']), {'o': o, 'want': v})
        elif v['err'] in ('crash', 'start', 'close'):
            ctx.violate('%s %s' % (v['err'], o['why'] or o['see']), 'package %s: %s %s %s; expected %s %s' % (v['err'], o['st'], o['why'], o['see'], v['want'], v['table']), {'o': o, 'want': v})
        else:
            s = o['steps'][v['at'] - 1]
            d = dict((k, x) for k, x in s.items() if k not in ('see', 'out', 'codes', 'wcodes', 'x', 'y'))
            ctx.violate('%s %s %s' % (s['op'], v['err'], s['st']), 'step %d, %s: %s seen %s %s; expected of %s table %s' % (v['at'], v['err'], d, s['see'], s['out'] if v['err'] == 'outside' else '', v['want'], v['table']), {'o': o, 'want': v})
