PROPERTY = 'H02'
NEEDS = 'an Accept-Charset header that gives another charset full quality, which is offered before iso-8859-1'
BREAKS = 'the default charset is chosen although an acceptable one was offered first'
EDITS = [('pyslet/pyslet/rfc2616_headers.py', '''				if 1.0>bestQ:
					bestMatch=token
''', '''				if 1.0>=bestQ:
					bestMatch=token
''')]
DEMO = r'''
from pyslet.rfc2616_headers import *
g = AcceptCharsetList.FromString('utf-8, x;q=0.5').SelectToken(['x', 'utf-8', 'iso-8859-1'])
print g
sys.exit(0 if g == 'utf-8' else 1)
'''
