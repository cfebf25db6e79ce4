
PROPERTY = 'X05'
NEEDS = 'a text with a character that Unicode calls a space and XML does not, U+00A0 say'
BREAKS = 'it is collapsed like white space'
EDITS = [('pyslet/pyslet/xsdatatypes20041028.py', '''		if c in u"\\x09\\x0A\\x0D\\x20":
''', '''		if c.isspace():
''')]
DEMO = r'''
from pyslet.xsdatatypes20041028 import WhiteSpaceCollapse
s = WhiteSpaceCollapse(u'a\xa0b  c')
print repr(s)
sys.exit(0 if s == u'a\xa0b c' else 1)
'''
