PROPERTY = 'T01'
NEEDS = 'a date of the Julian calendar in a century year that is no leap year of the Gregorian one, after February'
BREAKS = 'Julian dates in 1500, 1700, 1800, 1900, ... after February are one day off'
EDITS = [('pyslet/pyslet/iso8601.py', '''		if year%4:
			mSizes=MONTH_SIZES
		else:
			mSizes=MONTH_SIZES_LEAPYEAR
		year-=1	
		for m in mSizes[:month-1]:
			day+=m
		return cls(''', '''		if not LeapYear(year):
			mSizes=MONTH_SIZES
		else:
			mSizes=MONTH_SIZES_LEAPYEAR
		year-=1	
		for m in mSizes[:month-1]:
			day+=m
		return cls(''')]
DEMO = r'''
from pyslet.iso8601 import Date
bad = [y for y in (1500, 1600, 1700, 1896, 1900) for m in (2, 3, 12) if Date.FromJulian(y, m, 5).GetJulianDay() != (y, m, 5)]
print bad
sys.exit(1 if bad else 0)
'''
