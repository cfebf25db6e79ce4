PROPERTY = 'Q01'
NEEDS = 'mapResponse on an ordered response where the same value appears again after a different one'
BREAKS = 'a value that is repeated, but not directly after itself, is counted twice'
EDITS = [('pyslet/pyslet/qtiv2/variables.py', '''		beenThere={}
		dstValue=FloatValue(0.0)
		if value.baseType is None:
			# a value of unknown type results in NULL
			nullFlag=True
		for v in srcValues:
			if v in beenThere:
				# If a container contains multiple instances of the same value then that value is counted once only
				continue
			else:
				beenThere[v]=True
			result=result+''', '''		beenThere=None
		dstValue=FloatValue(0.0)
		if value.baseType is None:
			# a value of unknown type results in NULL
			nullFlag=True
		for v in srcValues:
			if v==beenThere:
				# If a container contains multiple instances of the same value then that value is counted once only
				continue
			else:
				beenThere=v
			result=result+''')]
DEMO = r'''
from StringIO import StringIO
import pyslet.qtiv2.core as core, pyslet.qtiv2.variables as variables, pyslet.imsqtiv2p1
NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'
doc = core.QTIDocument()
doc.Read(src=StringIO('<assessmentItem xmlns="%s" identifier="X" title="X" adaptive="false" timeDependent="false">'
    '<responseDeclaration identifier="R" cardinality="ordered" baseType="identifier"><mapping defaultValue="0"><mapEntry mapKey="A" mappedValue="1"/><mapEntry mapKey="B" mappedValue="10"/></mapping></responseDeclaration>'
    '<outcomeDeclaration identifier="O" cardinality="single" baseType="float"/><responseProcessing><setOutcomeValue identifier="O"><mapResponse identifier="R"/></setOutcomeValue></responseProcessing></assessmentItem>' % NS))
s = variables.ItemSessionState(doc.root)
s.BeginSession(); s.BeginAttempt(); s.SubmitSession({'R.1': 'A', 'R.2': 'B', 'R.3': 'A'})
print s['R'].value, s['O'].value
sys.exit(0 if s['O'].value == 11.0 else 1)
'''
