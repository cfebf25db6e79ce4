PROPERTY = 'Q02'
NEEDS = 'an item with default response values whose processing consults the default after a response has been submitted'
BREAKS = 'the response shares its value object with its default, so submitting a response changes the default'
EDITS = [('pyslet/pyslet/qtiv2/variables.py', '''				self.map[rd.identifier]=Value.CopyValue(self.map[rd.identifier+".DEFAULT"])
''', '''				self.map[rd.identifier]=self.map[rd.identifier+".DEFAULT"]
''')]
DEMO = r'''
from StringIO import StringIO
import pyslet.qtiv2.core as core, pyslet.qtiv2.variables as variables, pyslet.imsqtiv2p1
NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
doc = core.QTIDocument()
doc.Read(src=StringIO('<assessmentItem xmlns="%s" identifier="X" title="X" adaptive="false" timeDependent="false">'
    '<responseDeclaration identifier="R" cardinality="single" baseType="integer"><defaultValue><value>1</value></defaultValue></responseDeclaration>'
    '<outcomeDeclaration identifier="O" cardinality="single" baseType="boolean"/><responseProcessing><setOutcomeValue identifier="O"><match>'
    '<default identifier="R"/><variable identifier="R"/></match></setOutcomeValue></responseProcessing></assessmentItem>' % NS))
s = variables.ItemSessionState(doc.root)
s.BeginSession(); s.BeginAttempt()
ok = s['R'].value == 1
s.SubmitSession({'R': '5'})
print s['O'].value, s['R'].value, s['R.DEFAULT'].value
sys.exit(0 if ok and s['O'].value is False and s['R'].value == 5 and s['R.DEFAULT'].value == 1 else 1)
'''
