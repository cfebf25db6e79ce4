PROPERTY = 'D03'
NEEDS = 'a call to substring with an explicit length of zero'
BREAKS = 'substring(s,i,0) returns the rest of the string instead of the empty string'
EDITS = [('pyslet/pyslet/odata2/core.py', '''				if length:
					result.SetFromValue(target.value[start.value:start.value+length.value])''', '''				if length and length.value:
					result.SetFromValue(target.value[start.value:start.value+length.value])''')]
DEMO = r'''
import pyslet.odata2.core as core
v = core.CommonExpression.FromString("substring('startswith',2,0)").Evaluate(None).value
print repr(v)
sys.exit(0 if v == u'' else 1)
'''
