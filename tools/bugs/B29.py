PROPERTY = 'H02'
NEEDS = 'a parameter value that contains a backslash before something other than a quote'
BREAKS = 'the value that is written is read back without its backslash'
EDITS = [('pyslet/pyslet/rfc2616_core.py', '''	for c in s:
		if c in '\\\\"' or (IsCTL(c) and c not in SP+HT):
			qstring.append('\\\\'+c)
''', '''	for i in xrange(len(s)):
		c=s[i]
		if c=='"' or s[i:i+2]=='\\\\"' or (IsCTL(c) and c not in SP+HT):
			qstring.append('\\\\'+c)
''')]
DEMO = r'''
from pyslet.rfc2616_params import *
p = {'file': ['file', 'C:\\new dir\\x']}
s = str(MediaType('a', 'b', p))
v = MediaType.FromString(s).parameters['file'][1]
print s, repr(v)
sys.exit(0 if v == p['file'][1] else 1)
'''
