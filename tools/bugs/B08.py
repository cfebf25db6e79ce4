PROPERTY = 'X01'
NEEDS = 'an attribute value delimited by one kind of quote that refers to an entity whose replacement text contains that quote'
BREAKS = 'the attribute ends at the quote inside the entity, so a well-formed document is refused'
EDITS = [('pyslet/pyslet/xml20081126/parser.py', '''				elif self.theChar==q:
					if self.entity is qEntity:
						self.NextChar()
						break
					else:
						value.append(self.theChar)
						self.NextChar()
				elif self.theChar in end''', '''				elif self.theChar==q:
					self.NextChar()
					break
				elif self.theChar in end''')]
DEMO = r'''
import pyslet.xml20081126.structures as xml
d = xml.Document()
try:
    d.Read(src=u"<!DOCTYPE a [<!ENTITY e 'x&#34;y'><!ATTLIST a b CDATA #IMPLIED>]><a b=\"-&e;-\"/>")
    got = d.root.GetAttributes()
except xml.XMLError, e:
    got = repr(e)
print got
sys.exit(0 if got == {u'b': u'-x"y-'} else 1)
'''
