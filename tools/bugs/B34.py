
PROPERTY = 'X04'
NEEDS = 'a class that ends in a hyphen and has another class subtracted from it'
BREAKS = 'the expression is refused'
EDITS = [('pyslet/pyslet/xsdatatypes20041028.py', '''				elif self.Match(u"-]") or self.Match(u"--["):
''', '''				elif self.Match(u"-]"):
''')]
DEMO = r'''
from pyslet.xsdatatypes20041028 import RegularExpression, RegularExpressionError
try:
    r = RegularExpression(u'[a-c--[b]]+')
    ok = r.Match(u'a-c') and not r.Match(u'b')
except RegularExpressionError, e:
    print e
    ok = False
sys.exit(0 if ok else 1)
'''
