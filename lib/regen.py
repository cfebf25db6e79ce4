"""Random character classes and schema regular expressions (specs/regex)."""
MAXC = 0x10ffff
SPECIAL = '.\\?*+{}()[]|'
LITS = 'aabbcA1-_^$,:é€"/&'
CHARS = 'aaabbbcAZ159-_^$.\\?*+{}()[]|,:= \n\t\r\xa0é€É«²\u0301\u03b1\u0660\u2160\u3042\u2028~`/"#\U00010400'
CATS = ['L', 'Ll', 'Lu', 'Lo', 'N', 'Nd', 'Nl', 'No', 'M', 'Mn', 'P', 'Pd', 'Pc', 'Ps', 'Pe', 'Pi', 'Pf', 'Po', 'Z', 'Zs', 'Zl', 'S', 'Sm', 'Sc', 'Sk', 'C', 'Cc']
BLOCKS = ['BasicLatin', 'Latin-1Supplement', 'LatinExtended-A', 'Hiragana']


def c(s):
    return [ord(x) for x in s]


class G(object):
    def __init__(self, r):
        self.r = r

    # ------------------------------------------------------- classes
    def point(self):
        r = self.r
        if r.random() < 0.75:
            return r.choice([97 + r.randrange(9), 97 + r.randrange(9), 90 + r.randrange(6), 45, 93, 94, 92, 91, 10])
        return r.choice([0, 1, 0xd7fe, 0xe001, MAXC, MAXC - 1, 0x7f, 0x80, 0xff, 0xd7fe, 0xe001, 0xffff, 0x10000, 0x10400, 0x20ac])

    def history(self):
        r = self.r
        ops = []
        for _ in range(r.choice([1, 2, 3, 5, 8, 12])):
            o = r.choice(['range'] * 3 + ['unrange'] * 3 + ['char'] * 3 + ['unchar'] * 2 + ['add', 'sub', 'sub', 'neg', 'copy', 'copy', 'new'])
            d = {'o': o, 'r': r.randrange(1, 4)}
            if o in ('range', 'unrange'):
                d['a'], d['z'] = self.point(), self.point()
            elif o in ('char', 'unchar'):
                d['a'] = self.point()
            elif o in ('add', 'sub', 'copy'):
                d['q'] = r.randrange(1, 4)
                if d['q'] == d['r']:
                    d['q'] = d['r'] % 3 + 1
            elif o == 'new':
                d['cs'] = [self.point() for _ in range(r.randrange(6))]
            ops.append(d)
        return ops

    # --------------------------------------------------- expressions
    def esc1(self, ch):
        """a character as it is or as a single character escape"""
        if ch in SPECIAL or ch == '\\':
            return '\\' + ch
        if ch in '\n\r\t' and self.r.random() < 0.7:
            return '\\' + {'\n': 'n', '\r': 'r', '\t': 't'}[ch]
        if ch in '-^' and self.r.random() < 0.3:
            return '\\' + ch
        return ch

    def inclass(self, ch):
        if ch in '\\-[]' or ch == '^':
            return '\\' + ch
        if ch in SPECIAL and self.r.random() < 0.3:
            return '\\' + ch
        if ch in '\n\r\t':
            return '\\' + {'\n': 'n', '\r': 'r', '\t': 't'}[ch]
        return ch

    def special(self):
        """an escape for many characters: (item, text)"""
        r = self.r
        x = r.random()
        neg = r.random() < 0.3
        if x < 0.6:
            e = r.choice('sicdw')
            return {'k': 'esc', 'e': e, 'neg': neg}, '\\' + (e.upper() if neg else e)
        if x < 0.9:
            e = r.choice(CATS)
            return {'k': 'cat', 'e': e, 'neg': neg}, '\\%s{%s}' % ('P' if neg else 'p', e)
        e = r.choice(BLOCKS)
        return {'k': 'block', 'e': e, 'neg': neg}, '\\%s{Is%s}' % ('P' if neg else 'p', e)

    def cls(self, depth=1):
        r = self.r
        items, txt = [], ''
        n = r.choice([1, 1, 2, 2, 3])
        for k in range(n):
            x = r.random()
            if x < 0.45:
                ch = r.choice(CHARS)
                items.append({'k': 'range', 'a': ord(ch), 'z': ord(ch)})
                txt += self.inclass(ch)
            elif x < 0.75:
                a, z = sorted([r.choice(CHARS), r.choice(CHARS)], key=ord)
                items.append({'k': 'range', 'a': ord(a), 'z': ord(z)})
                txt += self.inclass(a) + '-' + self.inclass(z)
            else:
                t, s = self.special()
                items.append(t)
                txt += s
        y = r.random()
        if y < 0.08:
            items.append({'k': 'range', 'a': 45, 'z': 45})
            txt = '-' + txt
        elif y < 0.16 and items[-1]['k'] == 'range' and items[-1]['a'] == items[-1]['z']:
            items.append({'k': 'range', 'a': 45, 'z': 45})
            txt += '-'
        neg = r.random() < 0.3
        sub, st = [], ''
        if depth and r.random() < 0.2:
            e, s = self.cls(depth - 1)
            sub, st = [e], '-' + s
        return {'k': 'cls', 'items': items, 'neg': neg, 'sub': sub}, '[%s%s%s]' % ('^' if neg else '', txt, st)

    def atom(self, depth):
        r = self.r
        x = r.random()
        if x < 0.5:
            ch = r.choice(LITS if r.random() < 0.7 else CHARS)
            return {'k': 'chr', 'c': ord(ch)}, self.esc1(ch)
        if x < 0.56:
            return {'k': 'dot'}, '.'
        if x < 0.64:
            t, s = self.special()
            return {'k': 'one', 't': t}, s
        if x < 0.78 or not depth:
            return self.cls()
        e, s = self.expr(depth - 1)
        return e, '(%s)' % s

    def piece(self, depth):
        r = self.r
        e, s = self.atom(depth)
        if r.random() < 0.6:
            return e, s
        y = r.randrange(7)
        n = r.randrange(0, 4)
        m = n + r.randrange(0, 3)
        n, m, q = [(0, 1, '?'), (0, -1, '*'), (1, -1, '+'), (n, n, '{%d}' % n), (n, -1, '{%d,}' % n), (n, m, '{%d,%d}' % (n, m)), (n, m, '{%d,%d}' % (n, m))][y]
        return {'k': 'rep', 'x': e, 'n': n, 'm': m}, s + q

    def branch(self, depth):
        ps = [self.piece(depth) for _ in range(self.r.choice([0, 1, 1, 1, 2, 2, 3, 4] if depth < 2 else [1, 2, 2, 3, 4]))]
        return {'k': 'cat', 'xs': [e for e, s in ps]}, ''.join(s for e, s in ps)

    def expr(self, depth=2):
        bs = [self.branch(depth) for _ in range(self.r.choice([1, 1, 1, 2, 3]))]
        if len(bs) == 1:
            return bs[0]
        return {'k': 'alt', 'xs': [e for e, s in bs]}, '|'.join(s for e, s in bs)

    def like(self, e):
        """a text that the expression may match"""
        r = self.r
        k = e['k']
        if k == 'chr':
            return chr(e['c'])
        if k == 'cls':
            it = [t for t in e['items'] if t['k'] == 'range' and not e['neg']]
            if it and r.random() < 0.8:
                t = r.choice(it)
                return r.choice([chr(t['a']), chr(t['z'])] + [x for x in CHARS if t['a'] <= ord(x) <= t['z']])
            return r.choice(CHARS)
        if k in ('dot', 'one'):
            return r.choice(CHARS)
        if k == 'alt':
            return self.like(r.choice(e['xs']))
        if k == 'cat':
            return ''.join(map(self.like, e['xs']))
        n = r.randrange(e['n'], (e['m'] if e['m'] >= 0 else e['n'] + 3) + 1)
        return ''.join(self.like(e['x']) for _ in range(n))

    def targets(self, e):
        r = self.r
        out = ['', r.choice(CHARS)]
        for _ in range(7):
            s = self.like(e)
            out.append(s)
            if r.random() < 0.4:
                k = r.randrange(len(s) + 1)
                out.append(r.choice([s[:k] + s[k + 1:], s[:k] + r.choice(CHARS) + s[k:], s[:k] + r.choice(CHARS) + s[k + 1:], s + s[-1:], s + '\n']))
        return [c(s) for s in sorted(set(out)) if len(s) < 14]

    def bad(self, s):
        """a text that is no expression"""
        r = self.r
        return r.choice([s + ')', '(' + s, ')' + s, s + '[', s + '{', 'a**' + s, 'a{2}{3}' + s, '?' + s, s + '|*', s + '(+)', s + ']', '}' + s, '{2}' + s, 'a{3,2}' + s, 'a{,2}' + s, 'a{}' + s, 'a{b}' + s, 'a{1,2' + s.replace('}', ''),
                         '[]' + s.replace(']', ''), '[b-a]' + s, s + '\\', '\\q' + s, '\\p{Xy}' + s, '\\p{L' + s.replace('}', ''), '\\pL' + s, '\\p{IsNone}' + s, '[a-b-c]' + s, '[a-[b]c]' + s, 'a+?' + s, 'a?*' + s])
