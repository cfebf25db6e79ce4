"""XML well-formedness and content, judged by specs/xml/XML."""
import json, itertools, re
import vlib, xmlgen


ENCS = {'utf8': 'utf-8', 'utf8bom': 'UTF-8', 'utf16le': 'utf-16', 'utf16be': 'UTF-16', 'latin1': 'iso-8859-1'}


def medium(rng, d):
    """as text, or as bytes in some encoding; and the size of the chunks it is read in"""
    chunk = rng.choice([0, 0, 0, 1, 2, 3, 5, 16])
    enc = rng.choice(['', '', '', ''] + sorted(ENCS))
    if any(0xD800 <= ord(c) < 0xE000 for c in d):
        enc = ''
    if enc.startswith('utf16') and any(ord(c) > 0xFFFD for c in d):
        enc = ''    # Jython's own UTF-16 stream decoder fails when a read ends inside a surrogate pair, and drops U+FFFE
    if enc == 'latin1' and all(ord(c) < 256 for c in d) and rng.random() < 0.5 and not d.startswith('<?xml '):
        d = '<?xml version="1.0" encoding="ISO-8859-1"?>' + d
    elif enc:
        for t in ('"UTF-8"', "'utf-8'"):
            d = d.replace('encoding=' + t, 'encoding=' + t[0] + ENCS[enc] + t[0], 1)
    m = re.search(r'encoding\s*=\s*[\'"]?([A-Za-z0-9._-]*)', d)
    if m and m.group(1).lower() not in ('utf-8', 'utf-16', 'iso-8859-1') or enc and d.count('encoding') > 1:
        enc = ''
    if enc == 'latin1' and not (all(ord(c) < 256 for c in d) and re.match(r'<\?xml version\s*=\s*[^?]*encoding=.iso-8859-1.', d, re.I)):
        enc = ''
    return vlib.code(d), enc, chunk


def run(ctx):
    rng = ctx.rng
    g = xmlgen.G(rng)
    docs = []
    for n in range(0, 4 if not ctx.quick else 3):
        docs += ['<a>' + ''.join(t) + '</a>' for t in itertools.product(xmlgen.TOK, repeat=n)]
    dt = '<!DOCTYPE a [<!ENTITY e "%s">]>'
    docs += [dt % ''.join(t).replace('"', '') + '<a>' + c + '</a>' for n in (1, 2) for t in itertools.product(xmlgen.TOK, repeat=n) for c in (['&e;'] if n == 2 else ['&e;', '<b x="&e;"/>', '&e;x&e;', '&e;>', ']&e;'])]
    ctx.note('%d documents enumerated' % len(docs))
    n = 9000 if ctx.quick else 200000
    for _ in range(n):
        t = g.doc()
        docs.append(t)
        if rng.random() < 0.7:
            docs.append(g.spoil(t))
    out = ctx.drive('xml_io.py', [dict(zip(('src', 'enc', 'chunk'), medium(rng, d))) for d in docs])
    ctx.note('%d documents parsed' % len(out))
    for x, o in ctx.judge('xml', 'XMLTrace', out):
        ctx.count('documents_' + x['k'], 1)
        if x['bad']:
            src = vlib.uncode(o['src'])
            ctx.violate('%s:%r' % (x['why'], src), 'document %r: %s (%s) where the specification says it is to be %s; parsed content %s' % (
                src, o['res'] + (' as ' + o['enc'] if o['enc'] else '') + (' in chunks of %d' % o['chunk'] if o['chunk'] else ''), o['err'], x['k'], json.dumps(o['ev'])[:600]), o)
