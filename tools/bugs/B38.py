
PROPERTY = 'P01'
NEEDS = 'a hidden file, or directory, inside a directory of a package that is exported'
BREAKS = 'hidden files are exported'
EDITS = [('pyslet/pyslet/imscpv1p2.py', '''			for f in fPath.listdir():
				if self.IgnoreFile(unicode(f)):
					continue
				self.AddToZip(fPath.join(f),zf,zpath,beenThere)
''', '''			for f in fPath.listdir():
				if self.IgnoreFile(zpath):
					continue
				self.AddToZip(fPath.join(f),zf,zpath,beenThere)
''')]
DEMO = r'''
import os, zipfile
import pyslet.imsqtiv2p1
import pyslet.imscpv1p2 as imscp
cp = imscp.ContentPackage()
try:
    d = os.path.join(str(cp.dPath), 'd1')
    os.mkdir(d)
    for n in ('a.txt', '.secret'):
        open(os.path.join(d, n), 'w').close()
    z = os.path.join(str(cp.dPath), '.out.zip')
    cp.ExportToPIF(z)
    f = zipfile.ZipFile(z)
    names = f.namelist()
    f.close()
finally:
    cp.Close()
print names
sys.exit(0 if 'd1/a.txt' in names and 'd1/.secret' not in names else 1)
'''
