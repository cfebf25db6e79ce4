
PROPERTY = 'X02'
NEEDS = 'an element without a namespace between two elements in the namespace that is the default'
BREAKS = 'the inner element is written without its namespace'
EDITS = [('pyslet/pyslet/xmlnames20091208.py', '''					if ej.prefixToNS.get(prefix,None) is not None:
''', '''					if ej.prefixToNS.get(prefix,None):
''')]
DEMO = r'''
import pyslet.xml20081126.structures as xml
from pyslet.xmlnames20091208 import *
from StringIO import StringIO

d = XMLNSDocument()
a = d.ChildElement(XMLNSElement, ('u:a', 'a'))
b = a.ChildElement(XMLNSElement, (None, 'b'))
c = b.ChildElement(XMLNSElement, ('u:a', 'c'))
s = unicode(d)
print s
e = XMLNSDocument()
e.Read(src=StringIO(s))
print e.root.GetChildren().next().GetChildren().next().GetXMLName()
sys.exit(0 if e.root.GetChildren().next().GetChildren().next().GetXMLName() == ('u:a', 'c') else 1)
'''
