
PROPERTY = 'P01'
NEEDS = 'a resource that refers twice to a file that is deleted'
BREAKS = 'the second reference stays and dangles'
EDITS = [('pyslet/pyslet/imscpv1p2.py', '''			for f in delList:
				r.DeleteFile(f)
''', '''			for f in delList[:1]:
				r.DeleteFile(f)
''')]
DEMO = r'''
import os, tempfile, shutil
import pyslet.imsqtiv2p1
import pyslet.imscpv1p2 as imscp
import pyslet.rfc2396 as uri
cp = imscp.ContentPackage()
try:
    open(os.path.join(str(cp.dPath), 'a.txt'), 'w').close()
    cp.RebuildFileTable()
    r = cp.manifest.root.Resources.ChildElement(cp.manifest.root.Resources.ResourceClass)
    cp.File(r, uri.URIFactory.URI('a.txt'))
    cp.File(r, uri.URIFactory.URI('d/../a.txt'))
    cp.DeleteFile('a.txt')
    n = len(r.File)
finally:
    cp.Close()
print n
sys.exit(0 if n == 0 else 1)
'''
