import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from B21 import MODEL
PROPERTY = 'D06'
NEEDS = 'a POST in JSON that makes a new entity bound to another new one whose object has __metadata with its type, as clients write it'
BREAKS = 'the nested object is taken for a link to an existing entity and the request fails'
EDITS = [('pyslet/pyslet/odata2/core.py', '''						if len(link)==1 and '__metadata' in link:''', '''						if '__metadata' in link:''')]
DEMO = MODEL + r'''
r = send('POST', 'As', '{"ID": 1, "Bs": [{"__metadata": {"type": "M.B"}, "ID": 2, "P": "x"}]}', CONTENT_TYPE='application/json')
print r, keys('As'), keys('Bs')
sys.exit(0 if r[0] == 201 and (keys('As'), keys('Bs')) == ([1], [2]) else 1)
'''
