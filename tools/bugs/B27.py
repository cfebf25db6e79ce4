PROPERTY = 'H02'
NEEDS = 'a media range with a parameter and an offered type whose value for it differs in case only'
BREAKS = 'the type is chosen although the range does not match it'
EDITS = [('pyslet/pyslet/rfc2616_headers.py', '''			if p not in mType.parameters or mType.parameters[p][1]!=v:
''', '''			if p not in mType.parameters or mType.parameters[p][1].lower()!=v.lower():
''')]
DEMO = r'''
from pyslet.rfc2616_headers import *
from pyslet.rfc2616_params import *
ts = map(MediaType.FromString, ['a/b;boundary=x', 'a/b;boundary=X'])
g = AcceptList.FromString('a/b;boundary=X, c/d;q=0.5').SelectType(ts)
print g
sys.exit(0 if g is ts[1] else 1)
'''
