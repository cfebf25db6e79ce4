PROPERTY = 'Q02'
NEEDS = 'a response that is cleared: an empty text saved or submitted where an earlier attempt had given a value'
BREAKS = 'saved values that are NULL do not replace the earlier response and stay saved'
EDITS = [('pyslet/pyslet/qtiv2/variables.py', '''			if sName in self.map:
				self.map[rd.identifier].SetValue(self.map[sName].value)
''', '''			if self.map.get(sName):
				self.map[rd.identifier].SetValue(self.map[sName].value)
''')]
DEMO = r'''
from StringIO import StringIO
import pyslet.qtiv2.core as core, pyslet.qtiv2.variables as variables, pyslet.imsqtiv2p1
NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
doc = core.QTIDocument()
doc.Read(src=StringIO('<assessmentItem xmlns="%s" identifier="X" title="X" adaptive="false" timeDependent="false">'
    '<responseDeclaration identifier="R" cardinality="single" baseType="string"/>'
    '<outcomeDeclaration identifier="O" cardinality="single" baseType="boolean"/><responseProcessing><setOutcomeValue identifier="O"><isNull>'
    '<variable identifier="R"/></isNull></setOutcomeValue></responseProcessing></assessmentItem>' % NS))
s = variables.ItemSessionState(doc.root)
s.BeginSession(); s.BeginAttempt()
s.SubmitSession({'R': 'x'})
one = s['O'].value
s.BeginAttempt()
s.SaveSession({'R': ''})
s.SubmitSession({})
print one, s['O'].value, s['R'].value
sys.exit(0 if one is False and s['O'].value is True and s['R'].value is None else 1)
'''
