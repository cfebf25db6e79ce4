# Histories of real content packages: cp_run.py IN OUT
# All effects are kept in a scratch directory: whatever would write, create or remove anything elsewhere is refused here, before the real call.
import vqboot
from vqboot import *
import os, shutil, tempfile, urllib, zipfile, __builtin__

LOG = Log(sys.argv[2])
SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix='vqcp-'))
tempfile.tempdir = os.path.join(SCRATCH, 't')


class Escape(Exception):
    pass


def guard(f, n, writes=lambda a, k: True):
    def g(*a, **k):
        if writes(a, k):
            for p in a[:n]:
                q = os.path.realpath(str(getattr(p, 'path', p)))
                if q != SCRATCH and not q.startswith(SCRATCH + '/'):
                    raise Escape(q)
        return f(*a, **k)
    return g


RMTREE = shutil.rmtree
for name in ('remove', 'unlink', 'rmdir', 'mkdir'):
    setattr(os, name, guard(getattr(os, name), 1))
os.rename = guard(os.rename, 2)
__builtin__.open = guard(open, 1, lambda a, k: isinstance(a[0], basestring) and [c for c in (a[1:] and a[1] or k.get('mode', 'r')) if c in 'wa+'])

import random
import pyslet.imsqtiv2p1
import pyslet.imscpv1p2 as imscp
import pyslet.rfc2396 as uri
import pyslet.vfs as vfs

DRAWN = [0]


def draw(a, b):
    DRAWN[0] += 1
    return a + DRAWN[0] // 3 % 5


random.randint = draw
SAFE = '._-'


def esc(s):
    return urllib.quote(s.encode('utf-8') if isinstance(s, unicode) else s, SAFE)


def raw(segs):
    """path segments as a file name"""
    return '/'.join([urllib.unquote(str(s)) for s in segs])


def full(segs):
    return os.path.join(SCRATCH, raw(segs))


def segs(p):
    p = str(p)
    return [esc(s) for s in p.split('/')] if p else []


def under(p):
    p = str(p)
    if not p.startswith(SCRATCH + '/'):
        return ['elsewhere'] + segs(p)
    return segs(p[len(SCRATCH) + 1:])


def href(h):
    """a reference as a text"""
    if h['t'] == 'web':
        return str(h['s'][0])
    s = '/'.join(map(str, h['s']))
    return s if h['t'] == 'rel' else 'file://%s/%s' % (SCRATCH, s)


def unhref(u):
    u = str(u)
    if u.startswith('http:'):
        return {'t': 'web', 's': [u]}
    t = 'rel'
    if u.startswith('file://' + SCRATCH + '/'):
        t, u = 'abs', u[len('file://' + SCRATCH) + 1:]
    elif u.startswith(SCRATCH + '/'):
        t, u = 'abs', u[len(SCRATCH) + 1:]
    return {'t': t, 's': [esc(urllib.unquote(x)) for x in u.split('/')]}


def listing(top, skip=()):
    out = []
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for f in fs:
            p = os.path.join(d, f)
            if p not in skip:
                h = open(p, 'rb')
                out.append({'p': segs(p[len(top) + 1:]), 'c': h.read()})
                h.close()
    return out


def put(p, c):
    d = os.path.dirname(p)
    if not os.path.isdir(d):
        os.makedirs(d)
    f = open(p, 'wb')
    f.write(c)
    f.close()


def see(cp):
    """what can be observed of a package"""
    rs = cp.manifest.root.Resources.Resource
    table = []
    for p, fs in cp.fileTable.items():
        table.append({'p': segs(p), 'n': [len([f for f in fs if f.parent is r]) for r in rs]})
        if sum(table[-1]['n']) != len(fs):
            table[-1]['n'] = [0 - 1]
    res = []
    for r in rs:
        ps = [f.PackagePath(cp) for f in r.File]
        e = r.GetEntryPoint()
        res.append({'refs': [unhref(f.href) for f in r.File], 'paths': [['none'] if p is None else segs(p) for p in ps],
                    'entry': 0 if e is None else [x is e for x in r.File].index(True) + 1})
    d = str(cp.dPath)
    return {'files': listing(d, [os.path.join(d, 'imsmanifest.xml')]), 'table': table, 'res': res}


def outside(pkg):
    return [{'p': [top] + x['p'], 'c': x['c']} for top in ('r1', 'src') for x in listing(os.path.join(SCRATCH, top), [str(pkg)])]


def history(r):
    for f in r['files']:
        put(full(r['pkg'] + f['p']), f['c'])
    for f in r['out0']:
        put(full(f['p']), f['c'])
    if r['manifest']:
        put(full(r['pkg'] + ['imsmanifest.xml']), text(r['manifest']).replace('$SCRATCH', SCRATCH).encode('utf-8'))
    elif not os.path.isdir(full(r['pkg'])):
        os.makedirs(full(r['pkg']))
    cp = imscp.ContentPackage(full(r['pkg']))
    temp = False
    r['see'] = see(cp)
    done = []
    try:
        for o in r['steps']:
            rs = cp.manifest.root.Resources.Resource
            o['r'] = o.get('x', 0) % max(1, len(rs)) + 1
            if o['op'] in ('file', 'copy', 'entry'):
                if not rs:
                    continue
                res = rs[o['r'] - 1]
                if o['op'] == 'entry':
                    if not res.File:
                        continue
                    o['k'] = o['y'] % len(res.File) + 1
            if o.get('pick') is not None:
                # one of the files in the package, those with references first
                ps = sorted([str(p) for p, fs in cp.fileTable.items() if os.path.isfile(os.path.join(str(cp.dPath), str(p))) and (fs or o['pick'] % 3 == 0)])
                if ps:
                    p = segs(ps[o['pick'] % len(ps)])
                    o['h'] = {'t': 'rel', 's': o['via'] + p} if o['op'] == 'del' else {'t': 'abs', 's': under(cp.dPath) + p}
            o['st'] = ''
            done.append(o)
            try:
                if o['op'] == 'res':
                    res = cp.manifest.root.Resources.ChildElement(cp.manifest.root.Resources.ResourceClass)
                    res.SetID(cp.manifest.GetUniqueID('r'))
                    if o['base']:
                        res.SetBase(href(o['base'][0]))
                elif o['op'] == 'file':
                    o['got'] = unhref(cp.File(res, uri.URIFactory.URI(href(o['h']))).href)
                elif o['op'] == 'copy':
                    p = full(o['src'])
                    if os.path.exists(p):
                        os.remove(p)
                    if o['there']:
                        put(p, o['c'])
                    f = cp.FileCopy(res, uri.URIFactory.URLFromPathname(p))
                    o['got'] = unhref(f.href)
                elif o['op'] == 'del':
                    cp.DeleteFile(href(o['h']))
                elif o['op'] == 'uniq':
                    o['got'] = segs(cp.GetUniqueFile(raw(o['h']['s']) if o['h']['t'] == 'rel' else full(o['h']['s'])))
                elif o['op'] == 'entry':
                    res.SetEntryPoint(res.File[o['k'] - 1])
                    o['got'] = unhref(res.href)
                elif o['op'] == 'put':
                    put(os.path.join(str(cp.dPath), raw(o['p'])), o['c'])
                    cp.RebuildFileTable()
                elif o['op'] == 'open':
                    cp.manifest.Update()
                    cp = imscp.ContentPackage(cp.dPath)
                elif o['op'] == 'pif':
                    cp.manifest.Update()
                    z = os.path.join(SCRATCH, 'z%i.zip' % len(done))
                    cp.ExportToPIF(z)
                    old = str(cp.dPath)
                    cp.Close()
                    if os.path.isdir(old):
                        RMTREE(old)
                    cp = imscp.ContentPackage(z)
                    temp = True
                    o['pkg'] = under(cp.dPath)
            except Exception, e:
                o['st'] = e.__class__.__name__
                o['why'] = repr(e)[:200]
            if os.path.isdir(full(['src'])):
                for f in os.listdir(full(['src'])):
                    if f.startswith('new'):
                        RMTREE(os.path.join(full(['src']), f))
            if o['op'] == 'open':
                temp = False
            if o['op'] in ('open', 'pif') and o['st']:
                raise ValueError('%s: %s' % (o['op'], o['why']))
            o['see'] = see(cp)
            o['out'] = outside(cp.dPath)
        r['steps'] = done
        r['last'] = see(cp)
    finally:
        d = str(cp.dPath)
        cp.Close()
        r['closed'] = os.path.isdir(d) != temp


def archive(r):
    z = os.path.join(SCRATCH, 'x.zip')
    f = zipfile.ZipFile(z, 'w')
    for e in r['entries']:
        n = raw(e['s'])
        f.writestr(zipfile.ZipInfo(n.decode('utf-8') if e['utf8'] else n), str(e['c']))
    f.close()
    cp = None
    try:
        cp = imscp.ContentPackage(z)
        r['see'] = see(cp)['files']
    finally:
        if cp is not None:
            cp.Close()
        os.remove(z)
        r['out'] = listing(SCRATCH)
        r['closed'] = not os.listdir(tempfile.tempdir)


for r in lines(sys.argv[1]):
    os.mkdir(tempfile.tempdir)
    r.update({'st': '', 'why': '', 'see': [], 'out': [], 'closed': False})
    try:
        (archive if r['k'] == 'zip' else history)(r)
    except Exception, e:
        r['st'] = e.__class__.__name__
        r['why'] = repr(e)[:300]
    LOG.put(r)
    for x in os.listdir(SCRATCH):
        x = os.path.join(SCRATCH, x)
        if os.path.isdir(x):
            RMTREE(x)
        else:
            os.remove(x)
RMTREE(SCRATCH)
LOG.close()
