
PROPERTY = 'X04'
NEEDS = 'a range subtracted that begins where a range of the class begins and ends outside of all ranges'
BREAKS = 'an empty range stays behind, so that equal classes differ'
EDITS = [('pyslet/pyslet/unicode5.py', '''					if ord(A)==ord(Z) or ord(a)==ord(A):
						snip=indexA
''', '''					if ord(A)==ord(Z):
						snip=indexA
''')]
DEMO = r'''
from pyslet.unicode5 import CharClass
c = CharClass(u'abc', u'x')
c.SubtractRange(u'a', u'e')
print repr(c)
sys.exit(0 if c == CharClass(u'x') else 1)
'''
