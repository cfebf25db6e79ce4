PROPERTY = 'X01'
NEEDS = 'an attribute declared with a tokenized type in the internal subset, with extra spaces in its value, in a parse that does not check validity'
BREAKS = 'the value of a tokenized attribute keeps leading, trailing and repeated spaces'
EDITS = [('pyslet/pyslet/xml20081126/parser.py', '''					if aDef.type!=XMLAttributeDefinition.CData:
						# ...then''', '''					if self.checkValidity and aDef.type!=XMLAttributeDefinition.CData:
						# ...then''')]
DEMO = r'''
import pyslet.xml20081126.structures as xml
d = xml.Document()
d.Read(src=u"<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b=' x   y '/>")
got = d.root.GetAttributes()
print got
sys.exit(0 if got == {u'b': u'x y'} else 1)
'''
