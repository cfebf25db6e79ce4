import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from B24 import PRE
PROPERTY = 'Q05'
NEEDS = 'an or that contains an and of more than one test'
BREAKS = 'the tests of an and inside an or become alternatives themselves'
EDITS = [('pyslet/pyslet/qtiv1/common.py', '''			eOr=parent.ChildElement(qtiv2.expressions.Or)
			for e in self.ExpressionMixin:
				e.MigrateV2Expression(eOr,log)
''', '''			eOr=parent.ChildElement(qtiv2.expressions.Or)
			for e in self.ExpressionMixin:
				# nested lists of tests need no operator of their own
				for eTest in (e.ExpressionMixin if isinstance(e,(And,Or)) and e.ExpressionMixin else [e]):
					eTest.MigrateV2Expression(eOr,log)
''')]
DEMO = PRE + r'''
q = '<varequal respident="R">%s</varequal>'
it = item('<respcondition><conditionvar><or><and>%s%s</and>%s</or></conditionvar><setvar varname="S" action="Set">3</setvar></respcondition>' % (q % 'A', q % 'B', q % 'C'))
s = [score(it, {'R': 'A'}), score(it, {'R': 'B'})]
print s
sys.exit(0 if s == [0, 0] else 1)
'''
