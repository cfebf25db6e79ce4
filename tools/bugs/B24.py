PROPERTY = 'Q05'
NEEDS = 'three or more conditions: one that matches and does not continue, a later one with continue, and another after it'
BREAKS = 'the conditions after the continuing one are tried although an earlier condition stopped the processing'
EDITS = [('pyslet/pyslet/qtiv1/item.py', '''			if not cMode:
				ruleContainer=ruleContainer.ChildElement(qtiv2.processing.ResponseElse)
			rc=ruleContainer.ChildElement(qtiv2.processing.ResponseCondition)
			rcIf=rc.ChildElement(qtiv2.processing.ResponseIf)
''', '''			# the rules of an else branch go in a response condition of their own
			parent=ruleContainer
			if not cMode:
				parent=ruleContainer.ChildElement(qtiv2.processing.ResponseElse)
			rc=parent.ChildElement(qtiv2.processing.ResponseCondition)
			rcIf=rc.ChildElement(qtiv2.processing.ResponseIf)
			if not cMode:
				ruleContainer=ruleContainer.parent
''')]
PRE = r'''
from StringIO import StringIO
import pyslet.imsqtiv2p1 as qti2, pyslet.imsqtiv1p2p1 as qti1
import pyslet.qtiv2.variables as variables
def item(rp, kind='<response_lid ident="R" rcardinality="Single"><render_choice><response_label ident="A"><material><mattext>a</mattext></material></response_label>'
         '<response_label ident="B"><material><mattext>b</mattext></material></response_label></render_choice></response_lid>'):
    doc = qti1.QTIDocument()
    doc.Read(src=StringIO('<questestinterop><item ident="I"><presentation>%s</presentation><resprocessing><outcomes><decvar varname="S" vartype="Integer" defaultval="0"/>'
                          '</outcomes>%s</resprocessing></item></questestinterop>' % (kind, rp)))
    return doc.root.MigrateV2()[0][0].root
def score(it, values):
    st = variables.ItemSessionState(it)
    st.BeginSession()
    for k in values:
        st[k].SetValue(values[k])
    st.EndAttempt()
    return st['S'].value
'''
DEMO = PRE + r'''
c = lambda a, n, f: '<respcondition continue="%s"><conditionvar><varequal respident="R">%s</varequal></conditionvar><setvar varname="S" action="Add">%i</setvar></respcondition>' % (f, a, n)
it = item(c('A', 1, 'No') + c('A', 10, 'Yes') + c('A', 100, 'No') + c('B', 1000, 'Yes'))
s = [score(it, {'R': x}) for x in ('A', 'B')]
print s
sys.exit(0 if s == [1, 1000] else 1)
'''
