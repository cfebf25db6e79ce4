PROPERTY = 'D03'
NEEDS = 'isof applied to a Decimal value and a narrower integer type'
BREAKS = 'isof says a value is of a type that is narrower than its own'
EDITS = [('pyslet/pyslet/odata2/core.py', '''				rValue=(typeCode==PromoteTypes(typeCode,lValue.typeCode))
''', '''				rValue=PromoteTypes(typeCode,lValue.typeCode) in (typeCode,edm.SimpleType.Decimal)
''')]
DEMO = r'''
import pyslet.odata2.core as core
v = core.CommonExpression.FromString("isof(1.5M,'Edm.Int32')").Evaluate(None).value
print repr(v)
sys.exit(0 if v is False else 1)
'''
