
PROPERTY = 'X02'
NEEDS = 'an element with xml:space="preserve", with an element inside that holds only elements, not its parent but a further ancestor preserving'
BREAKS = 'white space is added where it is to be preserved'
EDITS = [('pyslet/pyslet/xml20081126/structures.py', '''			spc=self.parent.PrettyPrint()
			if spc is False:
				return False
''', '''			spc=self.parent.GetSpace()
			if spc=='preserve':
				return False
''')]
DEMO = r'''
import pyslet.xml20081126.structures as xml
from pyslet.xmlnames20091208 import *
from StringIO import StringIO

d = xml.Document()
a = d.ChildElement(xml.Element, 'a')
a.SetSpace('preserve')
c = a.ChildElement(xml.Element, 'b').ChildElement(xml.Element, 'c')
c.ChildElement(xml.Element, 'd')
s = StringIO()
c.WriteXML(s)
s = s.getvalue()
print repr(s)
sys.exit(0 if '\n' not in s.strip() else 1)
'''
