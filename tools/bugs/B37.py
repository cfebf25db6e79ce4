
PROPERTY = 'P01'
NEEDS = 'a file element with an xml:base of its own that becomes the entry point of its resource'
BREAKS = 'the href of the resource is that of the file element and means another file'
EDITS = [('pyslet/pyslet/imscpv1p2.py', '''		href=self.RelativeURI(f.ResolveURI(f.href))
		self.href=href
''', '''		href=self.RelativeURI(self.ResolveURI(f.href))
		self.href=href
''')]
DEMO = r'''
import pyslet.imsqtiv2p1
import pyslet.imscpv1p2 as imscp
import pyslet.rfc2396 as uri
cp = imscp.ContentPackage()
try:
    r = cp.manifest.root.Resources.ChildElement(cp.manifest.root.Resources.ResourceClass)
    f = cp.File(r, uri.URIFactory.URI('a.txt'))
    f.SetBase('d1/')
    r.SetEntryPoint(f)
    ok = r.GetEntryPoint() is f
finally:
    cp.Close()
sys.exit(0 if ok else 1)
'''
