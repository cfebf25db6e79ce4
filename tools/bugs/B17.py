PROPERTY = 'U01'
NEEDS = 'an https URL with the port of http, or an http URL with an explicit port that is kept'
BREAKS = 'the port 80 is dropped from https URLs when they are compared'
EDITS = [('pyslet/pyslet/rfc2616_params.py', '''				port=int(self.port)
				if port!=self.DEFAULT_PORT:
''', '''				port=int(self.port)
				if port not in (self.DEFAULT_PORT,HTTPURL.DEFAULT_PORT):
''')]
DEMO = r'''
import pyslet.rfc2616_params
from pyslet.rfc2396 import URIFactory as F
m = lambda a, b: F.URI(a).Match(F.URI(b))
print m('https://h/', 'https://h:80/'), m('https://h/', 'https://h:443/'), m('http://h/', 'http://h:80/')
sys.exit(0 if not m('https://h/', 'https://h:80/') and m('https://h/', 'https://h:443/') and m('http://h/', 'http://h:80/') else 1)
'''
