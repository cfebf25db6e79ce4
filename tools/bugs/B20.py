PROPERTY = 'T02'
NEEDS = 'a truncated time "--ss" in the last minute of the hour, or day, whose second lies before that of the base'
BREAKS = 'the carry into the next hour is lost'
EDITS = [('pyslet/pyslet/iso8601.py', '''					if newSecond<baseSecond:
						addMinute=1
''', '''					if newSecond<baseSecond:
						newMinute=(newMinute+1)%60
''')]
DEMO = r'''
from pyslet.iso8601 import Time
t, over, f = Time.FromStringFormat('--10', Time.FromString('23:59:30'))
u, o2, f = Time.FromStringFormat('--10', Time.FromString('11:20:30'))
print t, over, u, o2
sys.exit(0 if (str(t), over, str(u), o2) == ('00:00:10', 1, '11:21:10', 0) else 1)
'''
