import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from B24 import PRE
PROPERTY = 'Q05'
NEEDS = 'a condition that divides a variable by a number, whose value is not the square of the number'
BREAKS = 'the number is divided by the variable instead of the variable by the number'
EDITS = [('pyslet/pyslet/qtiv1/common.py', '''			variable=op.ChildElement(qtiv2.expressions.Variable)
			variable.identifier=identifier
			value=op.ChildElement(qtiv2.expressions.BaseValue)
''', '''			if self.action!=core.Action.Divide:
				variable=op.ChildElement(qtiv2.expressions.Variable)
				value=op.ChildElement(qtiv2.expressions.BaseValue)
			else:
				value=op.ChildElement(qtiv2.expressions.BaseValue)
				variable=op.ChildElement(qtiv2.expressions.Variable)
			variable.identifier=identifier
''')]
DEMO = PRE.replace('vartype="Integer"', 'vartype="Decimal"') + r'''
it = item('<respcondition continue="Yes"><conditionvar><varequal respident="R">A</varequal></conditionvar><setvar varname="S" action="Set">8</setvar></respcondition>'
          '<respcondition><conditionvar><varequal respident="R">A</varequal></conditionvar><setvar varname="S" action="Divide">2</setvar></respcondition>')
s = score(it, {'R': 'A'})
print s
sys.exit(0 if s == 4 else 1)
'''
