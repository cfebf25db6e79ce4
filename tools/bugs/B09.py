PROPERTY = 'Q01'
NEEDS = 'contains on ordered containers where a partial match in the second container overlaps the real one, as with 0,2 in 0,0,2'
BREAKS = 'after a partial match the search goes on behind it, so an overlapping occurrence is missed'
EDITS = [('pyslet/pyslet/qtiv2/expressions.py', '''				for i in xrange(imax+1):
					# try a match starting at i
					match=True
					for iv1,iv2 in zip(v1.value,v2.value[i:i+len(v1.value)]):
						if iv1!=iv2:
							match=False
							break
					if match:
						return variables.BooleanValue(True)
''', '''				i=0
				while i<=imax:
					# try a match starting at i
					matchPos=0
					while matchPos<len(v1.value) and v1.value[matchPos]==v2.value[i+matchPos]:
						matchPos+=1
					if matchPos==len(v1.value):
						return variables.BooleanValue(True)
					# carry on behind the values that have been compared
					i+=max(matchPos,1)
''')]
DEMO = r'''
from StringIO import StringIO
import pyslet.qtiv2.core as core, pyslet.qtiv2.variables as variables, pyslet.imsqtiv2p1
NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
def con(vs):
    return '<ordered>%s</ordered>' % ''.join('<baseValue baseType="integer">%i</baseValue>' % v for v in vs)
def contains(a, b):
    doc = core.QTIDocument()
    doc.Read(src=StringIO(('<assessmentItem xmlns="%s" identifier="X" title="X" adaptive="false" timeDependent="false">'
        '<outcomeDeclaration identifier="O" cardinality="single" baseType="boolean"/><responseProcessing><setOutcomeValue identifier="O"><contains>%s%s</contains></setOutcomeValue></responseProcessing></assessmentItem>' % (NS, con(a), con(b))).encode('utf-8')))
    s = variables.ItemSessionState(doc.root)
    s.BeginSession(); s.BeginAttempt(); s.SubmitSession({})
    return s['O'].value
ok = True
for a, b, want in [([1], [1, 2], True), ([1, 2], [2, 1], False), ([1, 1, 2], [1, 1, 1, 2], True), ([1, 2, 1, 3], [1, 2, 1, 2, 1, 3], True)]:
    got = contains(a, b)
    print a, b, got, want
    ok = ok and got is want
sys.exit(0 if ok else 1)
'''
