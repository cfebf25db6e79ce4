PROPERTY = 'U01'
NEEDS = 'a relative reference whose ".." follows directly on a segment that was itself moved up by an earlier "..", in a base path with empty segments'
BREAKS = 'an empty segment is skipped when ".." takes a segment away'
EDITS = [('pyslet/pyslet/rfc2396.py', '''			else:
				del pathSegments[i]
				del pathSegments[i-1]
				i-=1
''', '''			else:
				del pathSegments[i]
				del pathSegments[i-1]
				i-=1
				if i>0 and not pathSegments[i-1]:
					del pathSegments[i-1]
					i-=1
''')]
DEMO = r'''
from pyslet.rfc2396 import URIFactory as F
bad = 0
for b, r, want in (('http://h/a//b/c', '../d', 'http://h/a//d'), ('http://h/a/b/c', '../d', 'http://h/a/d'), ('http://h/a/b/c', '../../d', 'http://h/d')):
    got = str(F.Resolve(b, r))
    print b, r, got
    bad |= got != want
sys.exit(bad)
'''
