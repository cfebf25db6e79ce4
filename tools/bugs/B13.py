PROPERTY = 'Q03'
NEEDS = 'a shuffled section with an invisible section that need not be kept together, and a fixed child between the free places'
BREAKS = 'the surplus children of the invisible section all end up in the last free place, so that the forms with more of them before the fixed child never come up'
EDITS = [('pyslet/pyslet/qtiv2/tests.py', '''				# choose a random bucket
				random.choice(buckets).append(shuffleList[i])
''', '''				# choose a random bucket
				random.sample(buckets,len(buckets))
				buckets[-1].append(shuffleList[i])
''')]
DEMO = r'''
from StringIO import StringIO
import pyslet.qtiv2.core as core, pyslet.qtiv2.tests as tests, pyslet.imsqtiv2p1
NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
doc = core.QTIDocument()
doc.Read(src=StringIO('<assessmentTest xmlns="%s" identifier="T" title="T"><testPart identifier="P" navigationMode="linear" submissionMode="individual">'
    '<assessmentSection identifier="S" title="S" visible="true"><ordering shuffle="true"/><assessmentSection identifier="I" title="I" visible="false" keepTogether="false">'
    '<assessmentItemRef identifier="A" href="a.xml"/><assessmentItemRef identifier="B" href="b.xml"/></assessmentSection>'
    '<assessmentItemRef identifier="F" fixed="true" href="f.xml"/><assessmentItemRef identifier="C" href="c.xml"/></assessmentSection></testPart></assessmentTest>' % NS))
seen = set()
for k in xrange(400):
    seen.add(list(tests.TestForm(doc.root)).index('F'))
print seen
sys.exit(0 if len(seen) == 2 else 1)
'''
