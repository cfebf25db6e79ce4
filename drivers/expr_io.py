# Parses and evaluates OData expressions with the real code and records what it does.
import vqboot
import sys, math, decimal, traceback
from fractions import Fraction
from StringIO import StringIO
import pyslet.odata2.csdl as edm
import pyslet.odata2.edmx as edmx
import pyslet.odata2.memds as memds
import pyslet.odata2.core as core

PROPS = [('I16', 'Int16'), ('I32', 'Int32'), ('I64', 'Int64'), ('By', 'Byte'), ('Db', 'Double'), ('Sg', 'Single'), ('De', 'Decimal'),
         ('St', 'String'), ('Bo', 'Boolean'), ('DT', 'DateTime'), ('Gu', 'Guid'), ('Bi', 'Binary')]


def metadata(ks=None):
    ps = ''.join('<Property Name="%s" Type="Edm.%s" Nullable="true"/><Property Name="N%s" Type="Edm.%s" Nullable="true"/>' % (n, t, n, t) for n, t in PROPS)
    ks2 = '<Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>'
    ks = ks or ks2
    return '''<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
<edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">
<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
<EntityContainer Name="C" m:IsDefaultEntityContainer="true"><EntitySet Name="S" EntityType="M.T"/><EntitySet Name="U" EntityType="M.R"/>
<AssociationSet Name="X1" Association="M.A1"><End Role="F" EntitySet="S"/><End Role="T" EntitySet="U"/></AssociationSet>
<AssociationSet Name="X2" Association="M.A2"><End Role="F" EntitySet="S"/><End Role="T" EntitySet="U"/></AssociationSet>
<AssociationSet Name="X3" Association="M.A3"><End Role="F" EntitySet="S"/><End Role="T" EntitySet="U"/></AssociationSet></EntityContainer>
<EntityType Name="T">%s%s<Property Name="Cx" Type="M.CT" Nullable="false"/>
<NavigationProperty Name="One" Relationship="M.A1" FromRole="F" ToRole="T"/>
<NavigationProperty Name="None" Relationship="M.A2" FromRole="F" ToRole="T"/>
<NavigationProperty Name="Many" Relationship="M.A3" FromRole="F" ToRole="T"/></EntityType>
<EntityType Name="R">%s%s<NavigationProperty Name="Back" Relationship="M.A1" FromRole="T" ToRole="F"/>
<NavigationProperty Name="Sm" Relationship="M.A3" FromRole="T" ToRole="F"/></EntityType>
<ComplexType Name="CT"><Property Name="I32" Type="Edm.Int32" Nullable="true"/><Property Name="St" Type="Edm.String" Nullable="true"/>
<Property Name="Dp" Type="M.DT" Nullable="false"/></ComplexType>
<ComplexType Name="DT"><Property Name="Db" Type="Edm.Double" Nullable="true"/><Property Name="NSt" Type="Edm.String" Nullable="true"/></ComplexType>
<Association Name="A1"><End Role="F" Type="M.T" Multiplicity="0..1"/><End Role="T" Type="M.R" Multiplicity="0..1"/></Association>
<Association Name="A2"><End Role="F" Type="M.T" Multiplicity="*"/><End Role="T" Type="M.R" Multiplicity="0..1"/></Association>
<Association Name="A3"><End Role="F" Type="M.T" Multiplicity="*"/><End Role="T" Type="M.R" Multiplicity="*"/></Association>
</Schema></edmx:DataServices></edmx:Edmx>''' % (ks, ps, ks2, ps)


TNAME = dict((edm.SimpleType.decode[k], k[4:]) for k in edm.SimpleType.decode if k.startswith('Edm.'))


def V(t, n=False, a=0, d=1, s=None, f=0):
    return {'t': t, 'n': n, 'a': a, 'd': d, 's': s or [], 'f': f}


def num(t, v):
    try:
        fr = Fraction(v)
    except Exception:
        return V(t, d=0, f=2000000001)       # nan, inf
    if abs(fr.numerator) <= 20000 and fr.denominator <= 20000:
        return V(t, a=int(fr.numerator), d=int(fr.denominator))
    f = (fr.numerator * 1000) // fr.denominator
    return V(t, d=0, f=int(f) if abs(f) < 2000000000 else 2000000001)


def observed(v):
    if isinstance(v, edm.Entity):
        return V('Entity')
    if isinstance(v, edm.Complex):
        return V('Complex')
    if not isinstance(v, edm.SimpleValue):
        return V('other:' + v.__class__.__name__)
    if v.typeCode is None:
        return V('Null', n=True)
    t = TNAME.get(v.typeCode, '?')
    if v.value is None:
        return V(t, n=True)
    x = v.value
    if t in ('Double', 'Single', 'Decimal', 'Int64', 'Int32', 'Int16', 'Byte', 'SByte'):
        if isinstance(x, decimal.Decimal):
            try:
                x = Fraction(str(x))
            except Exception:
                pass
        return num(t, x)
    if t == 'Boolean':
        return V(t, a=1 if x is True else 0 if x is False else 7)
    if t == 'String':
        return V(t, s=vqboot.codes(x))
    if t == 'Guid':
        return V(t, s=[int(x.get_hex()[i:i + 2], 16) for i in range(0, 32, 2)])
    if t == 'Binary':
        return V(t, s=[ord(c) for c in x])
    if t == 'DateTime':
        c, y, m, d = x.date.GetCalendarDay()
        h, mi, se = x.time.GetTime()
        return V(t, s=[c * 100 + y, m, d, h, mi, int(round(se * 1000))])
    return V(t)


def sql_key(o):
    return repr(sorted(o.items()))


OPN = dict((core.Operator.decode[k], k) for k in core.Operator.decode if not k.startswith('bool'))
METHN = dict((core.Method.decode[k], k) for k in core.Method.decode)


class Dump(object):
    def __init__(self, lits):
        self.known = {}
        for text in lits:
            e = core.CommonExpression.FromString(text)
            if not isinstance(e, core.LiteralExpression):
                raise RuntimeError('literal %r is read as %r' % (text, e))
            self.known[sql_key(observed(e.value))] = text

    def lit(self, v):
        k = sql_key(observed(v))
        return self.known.get(k, '?' + k)

    def ast(self, e):
        if isinstance(e, core.LiteralExpression):
            return ['lit', self.lit(e.value)]
        if isinstance(e, core.PropertyExpression):
            return ['prop', unicode(e.name)]
        if isinstance(e, core.UnaryExpression):
            return ['un', '-' if e.operator == core.Operator.negate else 'not', self.ast(e.operands[0])]
        if isinstance(e, core.CallExpression):
            return ['call', METHN[e.method], [self.ast(x) for x in e.operands]]
        if isinstance(e, core.BinaryExpression):
            if e.operator in (core.Operator.isof, core.Operator.cast):
                return ['call', 'isof' if e.operator == core.Operator.isof else 'cast', [self.ast(x) for x in e.operands]]
            return ['bin', '/' if e.operator == core.Operator.member else OPN[e.operator]] + [self.ast(x) for x in e.operands]
        return ['?', e.__class__.__name__]

    def norm(self, a):
        """a negated numeric literal and the negative literal are the same text"""
        if a[0] in ('lit', 'prop', '?'):
            if a[0] == 'lit' and a[1][:1] == '?':
                return ['lit', '?']
            return a
        if a[0] == 'call':
            return [a[0], a[1], [self.norm(x) for x in a[2]]]
        r = a[:2] + [self.norm(x) for x in a[2:]]
        if r[0] == 'un' and r[1] == '-' and r[2][0] == 'lit':
            t = r[2][1]
            if t == '?' or t.lstrip('-')[:1].isdigit():
                return ['lit', '?']
        if r[0] == 'lit':
            return r
        return r


def same(d, a, b):
    if a == b:
        return True

    def n2(x):
        if x[0] == 'lit':
            t = x[1]
            return ['lit', '?'] if t[:1] == '?' or t.lstrip('-')[:1].isdigit() else x
        if x[0] in ('prop', '?'):
            return x
        if x[0] == 'call':
            return [x[0], x[1], [n2(y) for y in x[2]]]
        r = x[:2] + [n2(y) for y in x[2:]]
        if r[0] == 'un' and r[1] == '-' and r[2] == ['lit', '?']:
            return ['lit', '?']
        return r
    return n2(a) == n2(b) and has_neg(a)


def has_neg(a):
    if a[0] == 'un' and a[1] == '-' and a[2][0] == 'lit':
        return True
    if a[0] == 'un' and a[1] == '-' and has_neg(a[2]):
        return True
    return any(isinstance(x, list) and (has_neg(x) if x and not isinstance(x[0], list) else any(has_neg(y) for y in x)) for x in a[1:])


def fill(e, row, vals):
    for n, text in row.items():
        p = e
        parts = n.split('/')
        for x in parts[:-1]:
            p = p[x]
        v = vals[text]
        if isinstance(v, float) and p[parts[-1]].typeCode == edm.SimpleType.Decimal:
            v = decimal.Decimal(str(v))
        p[parts[-1]].SetFromValue(v)


def main(cfgfile, infile, outfile):
    cfg = vqboot.load(cfgfile)
    doc = edmx.Document()
    doc.Read(StringIO(metadata()))
    cdef = doc.root.DataServices['M.C']
    store = memds.InMemoryEntityContainer(cdef)
    d = Dump(cfg['lits'])
    vals = {}
    for text in cfg['lits']:
        vals[text] = core.CommonExpression.FromString(text).value.value

    with cdef['U'].OpenCollection() as c:
        for i in (7, 8):
            r = c.NewEntity()
            r.SetKey(i)
            fill(r, cfg['row2'], vals)
            c.InsertEntity(r)
    with cdef['S'].OpenCollection() as c:
        e = c.NewEntity()
        e.SetKey(1)
        fill(e, cfg['row1'], vals)
        e['One'].BindEntity(7)
        e['Many'].BindEntity(8)
        c.InsertEntity(e)
        ctx = c[1]
    out = vqboot.Log(outfile)
    for r in vqboot.lines(infile):
        o = {'ts': r['ts'], 'src': r['src'], 'pe': '', 'ast': ['none'], 'round': '', 'v': V('none'), 'note': ''}
        try:
            e = core.CommonExpression.FromString(r['src'])
        except ValueError as x:
            o['pe'] = 'ValueError'
            out.put(o)
            continue
        except Exception as x:
            o['pe'] = 'exc:' + x.__class__.__name__
            out.put(o)
            continue
        try:
            o['ast'] = d.ast(e)
        except Exception as x:
            o['ast'] = ['broken', x.__class__.__name__]
            o['pe'] = ''
            out.put(o)
            continue
        try:
            t = unicode(e)
            o['note'] = t
            a2 = d.ast(core.CommonExpression.FromString(t))
            o['round'] = 'same' if same(d, o['ast'], a2) else 'differs: %s' % t
        except Exception as x:
            o['round'] = 'exc:%s:%s' % (x.__class__.__name__, str(x)[:60])
        try:
            o['v'] = observed(e.Evaluate(ctx))
        except core.EvaluationError:
            o['v'] = V('ERR')
        except Exception as x:
            o['v'] = V('exc:%s:%s' % (x.__class__.__name__, str(x)[:60]))
        out.put(o)
    out.close()


if __name__ == '__main__':
    main(*sys.argv[1:])
