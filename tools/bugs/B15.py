PROPERTY = 'Q04'
NEEDS = 'an event with a key that is at least two events old'
BREAKS = 'the stale key is reported as a key that was never given (SessionKeyMismatch) rather than as an expired one'
EDITS = [('pyslet/pyslet/qtiv2/variables.py', '''			if keyCheck in self.keyMap:
				raise SessionKeyExpired(keyCheck)
''', '''			if keyCheck and keyCheck==self.prevKey:
				raise SessionKeyExpired(keyCheck)
''')]
DEMO = r'''
import os, shutil, tempfile
from StringIO import StringIO
import pyslet.qtiv2.core as core, pyslet.qtiv2.tests as tests, pyslet.qtiv2.variables as variables, pyslet.imsqtiv2p1
import pyslet.rfc2396 as uri
NOW = [1000.0]
class Clock:
    def time(self):
        return NOW[0]
variables.time = Clock()
NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
def start(body):
    d = tempfile.mkdtemp()
    try:
        f = open(os.path.join(d, 'item.xml'), 'wb')
        f.write('<assessmentItem xmlns="%s" identifier="X" title="X" adaptive="false" timeDependent="false"><responseDeclaration identifier="R" cardinality="single" baseType="boolean"/></assessmentItem>' % NS)
        f.close()
        doc = core.QTIDocument(baseURI=uri.URIFactory.URLFromPathname(os.path.join(d, 'test.xml')))
        doc.Read(src=StringIO('<assessmentTest xmlns="%s" identifier="T" title="T"><testPart identifier="P" navigationMode="linear" submissionMode="individual">%s</testPart></assessmentTest>' % (NS, body)))
        return variables.TestSessionState(tests.TestForm(doc.root))
    finally:
        shutil.rmtree(d)
def sec(i, body):
    return '<assessmentSection identifier="%s" title="S" visible="true">%s</assessmentSection>' % (i, body)
def q(i):
    return '<assessmentItemRef identifier="%s" href="item.xml"/>' % i

s = start(sec('A', q('Q1') + q('Q2')))
keys = [s.key]
s.BeginSession(s.key)
for k in xrange(3):
    NOW[0] += 1
    keys.append(s.key)
    s.HandleEvent({'SAVE': s.key})
ok = True
for k in keys + ['nosuch']:
    try:
        s.HandleEvent({'SAVE': k})
        print 'accepted', k
        ok = False
    except variables.SessionKeyExpired:
        ok = ok and k != 'nosuch'
    except variables.SessionKeyMismatch:
        print 'mismatch', k
        ok = ok and k == 'nosuch'
sys.exit(0 if ok else 1)
'''
