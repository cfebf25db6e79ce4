PROPERTY = 'T02'
NEEDS = 'a time point moved to a zone in which it lies on the day before, at precision of less than a second'
BREAKS = 'the day is not carried back for times without seconds'
EDITS = [('pyslet/pyslet/iso8601.py', '''		t,overflow=self.time.ShiftZone(zDirection,zHour,zMinute)
		if overflow:
''', '''		t,overflow=self.time.ShiftZone(zDirection,zHour,zMinute)
		if overflow>0 or (overflow and t.Complete()):
''')]
DEMO = r'''
from pyslet.iso8601 import TimePoint
p = TimePoint.FromString('2001-03-01T01:15+02:00')
print p.ShiftZone(zDirection=0), hash(p) == hash(TimePoint.FromString('2001-02-28T23:15Z'))
sys.exit(0 if str(p.ShiftZone(zDirection=0)) == '2001-02-28T23:15Z' and p == TimePoint.FromString('2001-02-28T23:15Z') else 1)
'''
