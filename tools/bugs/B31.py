
PROPERTY = 'X02'
NEEDS = 'an attribute value that begins with an apostrophe and has more quotation marks than apostrophes'
BREAKS = 'what is written is not well-formed'
EDITS = [('pyslet/pyslet/xml20081126/structures.py', '''				# escape apos
				for i in xrange(len(data)):
''', '''				# escape apos
				for i in xrange(1,len(data)):
''')]
DEMO = r'''
import pyslet.xml20081126.structures as xml
from pyslet.xmlnames20091208 import *
from StringIO import StringIO

d = xml.Document()
e = d.ChildElement(xml.Element, 'e')
e.SetAttribute('a', u"'" + u'""')
s = unicode(d)
print s
f = xml.Document()
f.Read(src=StringIO(s))
sys.exit(0 if f.root.GetAttribute('a') == u"'" + u'""' else 1)
'''
