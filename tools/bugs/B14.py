PROPERTY = 'Q04'
NEEDS = 'a question that follows, in the same section, a finished section which itself holds a section'
BREAKS = 'the time spent on the question is also added to the duration of the finished section'
EDITS = [('pyslet/pyslet/qtiv2/variables.py', '''						if ignore:
							ignore=ignore-1
						else:
							# This must be an open section or test part
''', '''						if ignore:
							# the start of a section that has already ended
							ignore=0
						else:
							# This must be an open section or test part
''')]
DEMO = r'''
import os, shutil, tempfile
from StringIO import StringIO
import pyslet.qtiv2.core as core, pyslet.qtiv2.tests as tests, pyslet.qtiv2.variables as variables, pyslet.imsqtiv2p1
import pyslet.rfc2396 as uri
NOW = [1000.0]
class Clock:
    def time(self):
        return NOW[0]
variables.time = Clock()
NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
def start(body):
    d = tempfile.mkdtemp()
    try:
        f = open(os.path.join(d, 'item.xml'), 'wb')
        f.write('<assessmentItem xmlns="%s" identifier="X" title="X" adaptive="false" timeDependent="false"><responseDeclaration identifier="R" cardinality="single" baseType="boolean"/></assessmentItem>' % NS)
        f.close()
        doc = core.QTIDocument(baseURI=uri.URIFactory.URLFromPathname(os.path.join(d, 'test.xml')))
        doc.Read(src=StringIO('<assessmentTest xmlns="%s" identifier="T" title="T"><testPart identifier="P" navigationMode="linear" submissionMode="individual">%s</testPart></assessmentTest>' % (NS, body)))
        return variables.TestSessionState(tests.TestForm(doc.root))
    finally:
        shutil.rmtree(d)
def sec(i, body):
    return '<assessmentSection identifier="%s" title="S" visible="true">%s</assessmentSection>' % (i, body)
def q(i):
    return '<assessmentItemRef identifier="%s" href="item.xml"/>' % i

s = start(sec('A', sec('B', sec('C', q('Q1'))) + q('Q2')))
s.BeginSession(s.key)
NOW[0] += 5
s.HandleEvent({'SUBMIT': s.key})
NOW[0] += 7
s.HandleEvent({'SAVE': s.key})
got = [s[x + 'duration'].value for x in ('', 'A.', 'B.', 'C.', 'Q1.', 'Q2.')]
print got
sys.exit(0 if got == [12.0, 12.0, 5.0, 5.0, 5.0, 7.0] else 1)
'''
