# Builds an OData service for an abstract schema and performs the abstract operations of specs/store on it.
import vqboot
import random
from StringIO import StringIO
import pyslet.odata2.csdl as edm
import pyslet.odata2.edmx as edmx
import pyslet.odata2.memds as memds

MULT = {'1': '1', '?': '0..1', '*': '*'}


def navseq(sc, s):
    out = []
    for i, a in enumerate(sc['a']):
        if a['f'] == s and a['fn']:
            out.append((i + 1, 0))
        if a['t'] == s and a['tn']:
            out.append((i + 1, 1))
    return out


def target(sc, n):
    a = sc['a'][n[0] - 1]
    return a['t'] if n[1] == 0 else a['f']


def tmult(sc, n):
    a = sc['a'][n[0] - 1]
    return a['tm'] if n[1] == 0 else a['fm']


def navname(n):
    return 'N%i_%i' % (n[0], n[1])


KEYTYPES = {
    'int': '<Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>',
    'str': '<Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.String" Nullable="false" MaxLength="40" Unicode="true" FixedLength="false"/>',
    'pair': '<Key><PropertyRef Name="A"/><PropertyRef Name="B"/></Key><Property Name="A" Type="Edm.Int64" Nullable="false"/>'
            '<Property Name="B" Type="Edm.String" Nullable="false" MaxLength="40" Unicode="true" FixedLength="false"/>',
}
STRKEYS = [u"zero", u"o'ne", u"two two", u"a/b", u"k(4)", u"f,i=ve", u"s\u00e9", u"%37", u"?8&x", u"#9", u"+10", u"$11", u"''", u""]


def key_of(kt, k):
    """concrete key of abstract key k"""
    if kt == 'int':
        return k
    if kt == 'str':
        return STRKEYS[k]
    return (1000000000000L + k // 3, u"b'%i" % (k % 3))


def abs_key(kt, key):
    if kt == 'int':
        return int(key)
    if kt == 'str':
        return STRKEYS.index(key)
    return int(key[0] - 1000000000000L) * 3 + int(key[1][2:])


def metadata(sc, kts, stream=False, concurrency=False):
    x = ['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>'
         '<edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">'
         '<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">'
         '<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm"><EntityContainer Name="C" m:IsDefaultEntityContainer="true">']
    for s in range(1, sc['n'] + 1):
        x.append('<EntitySet Name="S%i" EntityType="M.T%i"/>' % (s, s))
    for i, a in enumerate(sc['a']):
        i += 1
        x.append('<AssociationSet Name="X%i" Association="M.A%i"><End Role="F" EntitySet="S%i"/><End Role="T" EntitySet="S%i"/></AssociationSet>' % (i, i, a['f'], a['t']))
    x.append('</EntityContainer>')
    for s in range(1, sc['n'] + 1):
        x.append('<EntityType Name="T%i"%s>' % (s, ' m:HasStream="true"' if stream else ''))
        x.append(KEYTYPES[kts[s - 1]])
        x.append('<Property Name="V" Type="Edm.Int32" Nullable="true"%s/>' % (' ConcurrencyMode="Fixed"' if concurrency else ''))
        x.append('<Property Name="C" Type="M.CT" Nullable="false"/>')
        x.append('<Property Name="W" Type="Edm.String" Nullable="true" MaxLength="40" Unicode="true" FixedLength="false"/>')
        for n in navseq(sc, s):
            x.append('<NavigationProperty Name="%s" Relationship="M.A%i" FromRole="%s" ToRole="%s"/>' % (
                navname(n), n[0], 'F' if n[1] == 0 else 'T', 'T' if n[1] == 0 else 'F'))
        x.append('</EntityType>')
    x.append('<ComplexType Name="CT"><Property Name="X" Type="Edm.Int32" Nullable="true"/><Property Name="D" Type="M.DT" Nullable="false"/></ComplexType>')
    x.append('<ComplexType Name="DT"><Property Name="Y" Type="Edm.String" Nullable="true" MaxLength="40" Unicode="true" FixedLength="false"/><Property Name="Z" Type="Edm.Int32" Nullable="true"/></ComplexType>')
    for i, a in enumerate(sc['a']):
        i += 1
        x.append('<Association Name="A%i"><End Role="F" Type="M.T%i" Multiplicity="%s"/><End Role="T" Type="M.T%i" Multiplicity="%s"/></Association>' % (
            i, a['f'], MULT[a['fm']], a['t'], MULT[a['tm']]))
    x.append('</Schema></edmx:DataServices></edmx:Edmx>')
    return ''.join(x)


def classify(e):
    if isinstance(e, edm.NavigationError):
        return 'NavigationError'
    if isinstance(e, edm.ConstraintError):
        return 'ConstraintError'
    if isinstance(e, KeyError):
        return 'KeyError'
    return 'exc:%s:%s' % (e.__class__.__name__, str(e)[:80])


def set_values(e, v):
    e['V'].SetFromValue(v)
    e['W'].SetFromValue(u'w%i' % v)
    e['C']['X'].SetFromValue(v * 7)
    e['C']['D']['Y'].SetFromValue(u'y%i' % v)
    e['C']['D']['Z'].SetFromValue(v * 11)


def get_value(e):
    v = e['V'].value
    if v is None:
        return -1000
    v = int(v)
    if (e['W'].value, e['C']['X'].value, e['C']['D']['Y'].value, e['C']['D']['Z'].value) != (u'w%i' % v, v * 7, u'y%i' % v, v * 11):
        return -2000     # a mixture of the values of several writes
    return v


class Api(object):
    """The abstract operations performed through the data access API on the entity sets of a container definition."""

    def __init__(self, sc, kts, rng):
        self.sc = sc
        self.kts = kts
        self.rng = rng
        self.doc = edmx.Document()
        self.doc.Read(StringIO(metadata(sc, kts)))
        self.cdef = self.doc.root.DataServices['M.C']
        self.sets = [None] + [self.cdef['S%i' % s] for s in range(1, sc['n'] + 1)]
        self.ns = [None] + [navseq(sc, s) for s in range(1, sc['n'] + 1)]

    def reset(self):
        self.container = memds.InMemoryEntityContainer(self.cdef)

    def key(self, s, k):
        return key_of(self.kts[s - 1], k)

    def akey(self, s, key):
        return abs_key(self.kts[s - 1], key)

    def bind(self, e, s, b):
        for n, bs in zip(self.ns[s], b):
            t = target(self.sc, n)
            for x in bs:
                if x['t'] == 'key':
                    key = self.key(t, x['k'])
                    if self.rng.random() < 0.5:
                        with self.sets[t].OpenCollection() as c:
                            try:
                                key = c[key]
                            except KeyError:
                                pass
                    e[navname(n)].BindEntity(key)
                else:
                    with self.sets[t].OpenCollection() as c:
                        ne = c.NewEntity()
                    ne.SetKey(self.key(t, x['k']))
                    set_values(ne, x['v'])
                    self.bind(ne, t, x['b'])
                    e[navname(n)].BindEntity(ne)

    def nav(self, e, s, n):
        return e[navname(self.ns[s][n - 1])].OpenCollection()

    def apply(self, op):
        """returns the error class, and the key used for an insertion without a key"""
        err, self.newkey = self.run(op)
        return err

    def run(self, op):
        try:
            return 'ok', self.do(op['op'], op['s'], op)
        except Exception as e:
            return classify(e), None

    def new(self, coll, s, op):
        e = coll.NewEntity()
        if op.get('auto'):
            pass
        else:
            e.SetKey(self.key(s, op['t'] if op['op'] == 'navins' else op['k']))
        set_values(e, op['v'])
        self.bind(e, s, op['b'])
        return e

    def do(self, o, s, op):
        with self.sets[s].OpenCollection() as c:
            if o == 'insert':
                e = self.new(c, s, op)
                c.InsertEntity(e)
                return self.akey(s, e.Key())
            elif o == 'clear':
                c.clear()
            elif o == 'delete':
                if self.rng.random() < 0.5:
                    del c[self.key(s, op['k'])]
                else:
                    e = c[self.key(s, op['k'])]
                    e.Delete()
            else:
                e = c[self.key(s, op['k'])]
                if o == 'get':
                    return get_value(e)
                if o == 'scan':
                    for x in c.itervalues():
                        get_value(x)
                    for m in self.ns[s]:
                        with e[navname(m)].OpenCollection() as nc:
                            for x in nc.itervalues():
                                get_value(x)
                    return None
                if o == 'update':
                    set_values(e, op['v'])
                    self.bind(e, s, op['b'])
                    if self.rng.random() < 0.5:
                        e.Update()
                    else:
                        c.UpdateEntity(e)
                    return
                t = target(self.sc, self.ns[s][op['n'] - 1])
                with self.nav(e, s, op['n']) as nc:
                    if o == 'navclear':
                        nc.clear()
                    elif o == 'navdel':
                        del nc[self.key(t, op['t'])]
                    elif o == 'navins':
                        ne = self.new(nc, t, op)
                        nc.InsertEntity(ne)
                        return self.akey(t, ne.Key())
                    else:
                        with self.sets[t].OpenCollection() as tc:
                            te = tc[self.key(t, op['t'])]
                        if o == 'navset':
                            nc[self.key(t, op['t'])] = te
                        else:
                            nc.Replace(te)

    def view(self):
        """what a client sees: per set, per entity in key order [key, value, [sorted target keys per navigation]];
        [] if it cannot be read or is inconsistent (see note)"""
        self.note = ''
        try:
            out = [self.view_set(s) for s in range(1, self.sc['n'] + 1)]
            for x in out:
                if not isinstance(x, list):
                    self.note = x
                    return []
            return out
        except Exception as e:
            self.note = 'unreadable: ' + classify(e)
            return []

    def view_set(self, s):
        out = []
        with self.sets[s].OpenCollection() as c:
            n = 0
            for e in c.itervalues():
                n += 1
                k = self.akey(s, e.Key())
                if self.rng.random() < 0.3:
                    e = c[e.Key()]
                links = []
                for m in self.ns[s]:
                    t = target(self.sc, m)
                    with e[navname(m)].OpenCollection() as nc:
                        ks = [self.akey(t, x) for x in nc.keys()]
                        if len(nc) != len(ks):
                            return 'len(navigation)=%i but %r' % (len(nc), ks)
                        r = self.rng.random()
                        if r < 0.2:
                            for x in ks:
                                if self.akey(t, nc[self.key(t, x)].Key()) != x:
                                    return 'navigation[%r] is not it' % x
                    if tmult(self.sc, m) != '*' and len(ks) < 2:
                        te = e[navname(m)].GetEntity()
                        if [self.akey(t, x.Key()) for x in ([te] if te is not None else [])] != ks:
                            return 'GetEntity differs from the navigation collection'
                    links.append(sorted(ks))
                out.append([k, get_value(e), links])
            if len(c) != n:
                return 'len(%i)!=%i' % (len(c), n)
        out.sort()
        return out
