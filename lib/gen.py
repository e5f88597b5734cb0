"""Input texts for the conformance runs.  They only have to be diverse: what
each of them means is decided by the specification."""
import itertools, random

NAMECH = "!$&*+-./:;<>?[]^_`|"
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
EXT = "éÉüÜßñΩω中€😀éÉüÜßñΩω中€😀éÉüÜÀøØŁłŞşĞİıŽžЖяæÆŸÿかא–“×÷"
ACCENTS = "'c^.`~\""
ESC = "\\$&%{}_"
MACSYM = ",;[]()"
WS = [" ", "\n", "\t", "\r\n", "  ", "\n\n", " \n ", "\r"]


FIELDNAMES = ['author', 'title', 'year', 'a', 'b', 'note', 'editor', 'http', 'urls', 'ur', 'doi', 'month', 'journal', 'booktitle', 'pages', 'volume', 'number', 'isbn', 'crossref', 'key', 'keywords',
              'abstract', 'publisher', 'howpublished', 'annote', 'eprint', 'date', 'file', 'string', 'comment', 'preamble', 'and', 'name-x', 'bib:url', 'x_url', 'href', 'link']
TYPES = ['article', 'book', 'a', 'inproceedings', 'Misc', 'strings', 'commen', 'preambles', 'my_type', 'é', 'TypÉ', 'x', 'misc', 'phdthesis', 'techreport', 'online', 'proceedings', 'control', 'include', 'key',
         'string2', 'stringx', 'comments', 'preamble_', 'İx', 'Ωm', 'ſ']
KEYS = ['DBLP:conf/vldb/AuthorB84', 'doi:10.1000/182', 'a-b', 'Knuth_84', 'and', 'string', 'comment', 'preamble', 'url', 'x.y', 'a+b', "k'1", '1984', '84a', 'K', 'others', 'key*', '10.1145/1', '-', '+1', '1e5', '0x1F', '1.5']
KEYS = [k for k in KEYS if all(c.isalnum() or c in NAMECH for c in k)]
NUMBERS = ['0', '1984', '2020', '007', '12345678901234567890', '9223372036854775808', '00', '1', '0755', '99999999999']
ABBREVS = ['jan', 'feb', 'dec', 'and', 'true', 'nil', 'string', 'url', 'IEEE', 'acm:tods', 'x-y', 'e', 'E5']
WORDS = ['12--34', "O'Reilly", 'pp.', '1st', 'http://x.y/z', 'https://a.b', 'www.x', 'and', 'et', 'al.', 'C++', 'A*', '---', "l'a", '``q\'\'', '(x)', '[1]', '@a', 'x=y', 'a#b', 'http', 'url', 'http:', '50%', 'jan', 'others']
MACROS = ['cite', 'emph', 'textbf', 'LaTeX', 'o', 'aa', 'ss', 'alpha', 'urlx', 'hrefs', 'ccx', 'i', 'cedilla', 'ur', 'Url', 'a', 'z', 'Z', 'chi', 'textit', 'O', 'l', 'L', 'ae', 'AE', 'j', 'noopsort', 'relax',
          'ldots', 'newline', 'par', 'H', 'u', 'v', 'k', 'd', 'r', 't', 'b', 'URL', 'footnote', 'texttt', 'tilde', 'mathrm', 'it', 'bf', 'em', 'TeX']


class Gen:
    def __init__(self, seed, strings=True, comments=0.1, lean=False, layout=None):
        self.r = random.Random(seed)
        # layout: a source of choices of its own, so that the same content
        # can be laid out in several ways
        self.lr = self.r if layout is None else random.Random(layout)
        self.strings = strings      # keep to what both modes accept
        self.pc = comments
        self.lean = lean

    def pick(self, s):
        return s[self.r.randrange(len(s))]

    def p(self, x):
        return self.r.random() < x

    def lpick(self, s):
        return s[self.lr.randrange(len(s))]

    def lp(self, x):
        return self.lr.random() < x

    # ---- layout
    def comment(self):
        body = ''.join(self.lpick(LETTERS + ' %@{}"=,#\\$~' + EXT) for _ in range(self.lr.choice([0, 1, 3, 8])))
        if self.lp(.12):
            body = self.lpick(['%', '%%', '%% ', ' %', '!', '@', '{', '}', '\t', '-*-']) + body
        return '%' + body + ('\r\n' if self.lp(.1) else '\n')

    def sp(self, need=False):
        """Layout between two tokens."""
        out = ''
        if need or self.lp(.5):
            out += self.lpick(WS) if self.lp(.4) else ' '
        while self.lp(self.pc):
            if self.lp(.3):
                out += self.lpick(["\n", "\n\n", " ", "\n \n"])
            out += self.comment()
            if self.lp(.3):
                out += self.lpick(["\n", "\n\n", " ", "\t"])
        if need and not out:
            out = ' '
        return out

    def case(self, s):
        k = self.lr.randrange(4)
        if k == 0:
            return s.upper()
        if k == 1:
            return ''.join(c.upper() if self.lp(.5) else c for c in s)
        return s

    # ---- names
    def name(self, first=LETTERS, n=None):
        n = n if n is not None else self.r.choice([0, 1, 2, 5, 9, 20])
        k = self.r.random()
        alpha = LETTERS + DIGITS + (NAMECH if k < .5 else '_-:')
        return self.pick(first) + ''.join(self.pick(alpha) for _ in range(n))

    def key(self):
        k = self.r.random()
        if k < .15:
            return ''.join(self.pick(DIGITS) for _ in range(self.r.randrange(1, 6)))
        if k < .3:
            return ''.join(self.pick(DIGITS) for _ in range(self.r.randrange(1, 5))) + self.name(LETTERS + NAMECH)
        if k < .45:
            return self.name(NAMECH + LETTERS)
        if k < .6:
            return self.pick(KEYS)
        return self.name()

    def tagname(self):
        k = self.r.random()
        if k < .12:
            return self.case('url')
        if k < .5:
            return self.case(self.pick(FIELDNAMES))
        return self.case(self.name())

    def number(self):
        if self.p(.3):
            return self.pick(NUMBERS)
        return ''.join(self.pick(DIGITS) for _ in range(self.r.choice([1, 2, 4, 8])))

    # ---- strings
    def word(self):
        n = self.r.choice([1, 1, 2, 4, 7])
        k = self.r.random()
        if k < .05:
            return self.pick(WORDS)
        if k < .6:
            return ''.join(self.pick(LETTERS) for _ in range(n))
        if k < .85:
            return ''.join(self.pick(LETTERS + DIGITS + "-.:;/!?'`()[]<>|*+=@#%&^_") for _ in range(n))
        return ''.join(self.pick(LETTERS + EXT) for _ in range(n))

    def accent(self):
        a, l = self.pick(ACCENTS), self.pick(LETTERS)
        k = self.r.randrange(4)
        if k == 0:
            return '\\%s{%s}' % (a, l)
        if k == 1:
            return '\\%s%s%s' % (a, ' ' * self.r.choice([1, 1, 2, 4]), l)
        if a == 'c' and k == 2:
            return '\\cc '                       # ended by a non letter
        return '\\%s%s%s' % (a, l, ' ' if a == 'c' else '')

    def math(self):
        out = ''
        for _ in range(self.r.randrange(0, 6)):
            out += self.pick(['a', '^2', ' ', '\\alpha', '\\$', '\\\\', ',', '~', '_1', '{x}', '+', '\\{', '"' if False else 'b'])
        return '$' + out + '$'

    def macro(self):
        k = self.r.random()
        if k < .25:
            return '\\' + self.pick(MACSYM)
        name = self.pick(MACROS)
        return '\\' + name + self.pick([' ', '{}', '', '{' + self.word0() + '}', '-', ','])

    def word0(self):
        return ''.join(self.pick(LETTERS) for _ in range(self.r.randrange(0, 4)))

    def urltext(self):
        k = self.r.random()
        base = self.pick(['http://', 'https://', 'http', 'www.', '', 'ftp://', 'httx'])
        out = base
        for _ in range(self.r.randrange(0, 6) if self.p(.8) else self.r.randrange(6, 24)):
            out += self.pick(['a', 'foo.com', '/', '~', '~bar', ',', '#', '?q=1', '&', '%20', '--', '_x', 'é', ':', '\\%', '\\_', '\\&', '=', '.html', ';'])
        return out

    def url(self, quote):
        inner = self.urltext()
        if self.p(.1):
            inner = (inner if self.p(.6) else '') + '{' + self.word0() + '}' + self.word0() + (inner if self.p(.2) else '')
        if self.p(.06):
            inner += '$' + self.pick(['', ' ', 'a ', ' $ $ ']) + self.word0() + self.pick(['', ' ', ' b', '\\$']) + '$'
        if self.p(.05):
            inner += '\\' + self.pick(['foo', ',', 'emph']) + '/'
        out = '\\' + self.pick(['url', 'href']) + '{' + inner + (' ' if self.p(.1) else '') + '}'
        if self.p(.4):
            out += '{' + self.word0() + ' ' + self.word0() + '}'
        return out

    def pieces(self, depth, quote, n=None):
        """The content of a string; balanced, and safe in both modes."""
        out = ''
        n = n if n is not None else self.r.choice([0, 1, 2, 3, 5, 8])
        for _ in range(n):
            k = self.r.random()
            if k < .32:
                w = self.word()
                if out and out[-1].isascii() and out[-1].isalpha():
                    out += ' '
                out += w
            elif k < .5:
                out += self.pick(WS)
            elif k < .56:
                out += ','
            elif k < .61:
                out += '~'
            elif k < .67:
                out += self.math() if not quote or depth else self.math()
            elif k < .73:
                e = self.pick(ESC if self.strings is False else '\\$&%_')
                if e in '{}' and self.strings:
                    e = '&'
                out += '\\' + e
            elif k < .81:
                a = self.accent()
                if quote and depth == 0 and '"' in a:
                    a = '{' + a + '}'
                out += a
            elif k < .86:
                out += self.macro()
            elif k < .89:
                out += self.url(quote)
            elif k < .92 and (depth or not quote):
                out += '"'
            elif depth < 6:
                out += '{' + self.pieces(depth + 1, quote, self.r.choice([0, 1, 1, 2, 3])) + '}'
        return out

    def raw(self, depth, quote):
        """Balanced text that need not make sense as a parsed string."""
        out = ''
        for _ in range(self.r.choice([0, 1, 2, 4, 7])):
            k = self.r.random()
            if k < .3:
                out += self.word()
            elif k < .45:
                out += self.pick(WS)
            elif k < .65 and depth < 7:
                out += '{' + self.raw(depth + 1, quote) + '}'
            elif k < .75 and (depth or not quote):
                out += '"'
            else:
                out += self.pick(['\\', '$', '~', ',', '%', '#', '@', '=', '\\\\', "\\'", '(', ')', '\\$', '$$', 'é', '%x\n'])
        return out

    def string(self, url=False):
        quote = self.p(.5)
        if url and self.p(.7):
            k = self.r.random()
            body = self.urltext() if k < .6 else self.url(quote) + (self.pick(['', ' ', ' x', '{y}', '~z']) if self.p(.4) else '')
            if k > .5 and self.p(.3):
                body += self.pick([' ', ' x', '{y}', ',z', '"' if not quote else 'q', '\\&'])
        elif self.strings:
            body = self.pieces(0, quote)
        else:
            body = self.raw(0, quote)
        return '"' + body + '"' if quote else '{' + body + '}'

    def operand(self, url=False):
        k = self.r.random()
        if k < .12:
            return self.number()
        if k < .24:
            return self.pick(ABBREVS) if self.p(.4) else self.name() if self.p(.5) else self.key()
        return self.string(url)

    def value(self, url=False, n=None):
        n = n or self.r.choice([1, 1, 1, 1, 1, 2, 2, 3, 4])
        out = self.operand(url)
        for _ in range(n - 1):
            out += self.sp(need=False) + '#' + self.sp() + self.operand(url)
        return out

    # ---- declarations
    def delims(self):
        return ('{', '}') if self.lp(.75) else ('(', ')')

    def bib(self, ntags=None):
        typ = self.case(self.pick(TYPES))
        o, c = self.delims()
        out = '@' + typ + self.sp() + o + self.sp()
        k = self.r.random()
        nk = 1 if k < .75 else (0 if k < .85 else self.r.randrange(2, 5))
        nt = ntags if ntags is not None else self.r.choice([0, 1, 1, 2, 2, 3, 5])
        parts = [self.key() for _ in range(nk)]
        for _ in range(nt):
            n = self.tagname()
            parts.append(n + self.sp() + '=' + self.sp() + self.value(n.lower() == 'url'))
        if nk > 1 and self.p(.3):
            self.r.shuffle(parts)
        for i, x in enumerate(parts):
            out += x
            last = i == len(parts) - 1
            out += self.sp(need=False)
            if not last or self.lp(.4):
                out += ','
            out += self.sp()
        out += c
        if self.lp(.1):
            out += self.sp() + ','
        return out

    def abbrev(self):
        o, c = self.delims()
        return ('@' + self.case('string') + self.sp() + o + self.sp() + self.tagname() + self.sp() + '=' + self.sp()
                + self.value() + self.sp() + (',' + self.sp() if self.lp(.3) else '') + c)

    def preamble(self):
        o, c = self.delims()
        return '@' + self.case('preamble') + self.sp() + o + self.sp() + self.value() + self.sp() + c

    def doc(self, n=None):
        n = n if n is not None else self.r.choice([0, 1, 1, 1, 2, 2, 3, 5])
        out = '\ufeff' if self.lp(.05) else ''
        out += self.sp()
        for _ in range(n):
            k = self.r.random()
            out += self.bib() if k < .7 else self.abbrev() if k < .87 else self.preamble()
            out += self.sp()
        if self.pc and self.lp(.1):
            out += self.comment().rstrip('\r\n')
        return out


def big(g, kind=None, size=1):
    """A document that is large in one way."""
    r = g.r
    kind = kind or r.choice(['fields', 'keys', 'decls', 'operands', 'depth', 'word', 'text', 'comments', 'groups', 'lines', 'name', 'math', 'url', 'blank'])
    n = r.choice([7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40]) * size
    field = lambda: g.tagname() + ' = ' + r.choice(['{x}', '"y"', '12', 'n', '{a {b} c}', 'a # {b}'])
    after = r.choice(['', '\n@b{l, other = {y}}', '@string{s = {t}}\n@b{l, title = "z", x = 1}', '@b{l2, %s}' % ', '.join(field() for _ in range(r.choice([1, 3, 9, 12])))])
    before = r.choice(['', '@c{first, note = {w}}\n', '% doc\n'])
    if kind == 'fields':
        d = '@a{k, ' + (',' + g.sp()).join(field() for _ in range(n)) + '}'
    elif kind == 'keys':
        d = '@a{' + ', '.join(g.key() for _ in range(n)) + r.choice(['', ', t = {x}']) + '}'
    elif kind == 'decls':
        d = g.sp().join(r.choice(['@a{k%d, t = {x}}', '@string{s%d = "v"}', '@b{%d}', '@preamble{"p%d"}']) % i for i in range(n))
    elif kind == 'operands':
        d = '@a{k, t = ' + ' # '.join(r.choice(['{x}', '"y"', 'n', '1', '{}']) for _ in range(2 * n)) + '}'
    elif kind == 'depth':
        m = n + r.choice([0, 30])
        d = r.choice(['@a{k, t = %s}', '@a{k, t = "%s"}', '@preamble{%s}', '@string{s = %s}']).replace('"%s"', '"a%sb"') % ('{x' * m + 'y}' * m)
    elif kind == 'word':
        d = '@a{k, t = {' + ''.join(g.pick(LETTERS + EXT) for _ in range(8 * n)) + '}}'
    elif kind == 'text':
        d = '@a{k, t = {' + g.pieces(0, False, n) + '}, u = "' + g.pieces(0, True, n) + '"}'
    elif kind == 'comments':
        d = ''.join(g.comment() for _ in range(n)) + '@a{k, ' + ''.join(g.comment() for _ in range(n)) + 't = {x}}'
    elif kind == 'groups':
        d = ''.join(g.comment() + g.lpick(['', '\n']) for _ in range(n)) + '@a{k' + ''.join(g.comment() + '\n' for _ in range(n)) + '}'
    elif kind == 'lines':
        d = '\n' * n + '@a{k,' + '\n' * n + 't = {x' + '\n' * n + 'y}' + '\r\n' * n + '}'
    elif kind == 'name':
        d = '@' + g.pick(LETTERS) * n + '{' + g.name(n=6 * n) + ', ' + g.name(n=6 * n) + ' = ' + '7' * n + '}'
    elif kind == 'math':
        d = '@a{k, t = {$' + '\\alpha_1 + ' * n + '$}}'
    elif kind == 'url':
        d = '@a{k, url = {http://x/' + '~a,b' * n + '}, t = {\\url{http://' + '~x,y' * n + '}}}'
    else:
        d = '@a{k,' + ' ' * 8 * n + 't' + '\t' * n + '= {x' + ' ' * 8 * n + 'y}}'
    return before + d + after


def huge(g, kind):
    """A document past the sizes at which buffers and counters turn over."""
    if kind in VAST:
        return vast(g, kind)
    r = g.r
    n = r.choice([257, 260, 300])
    v = r.choice(['{x}', '"y z"', '{a {b} c}'])
    m = r.choice([1030, 1500, 2060])
    if kind == 'fields':
        d = '@a{k, ' + ', '.join('t%d = %s' % (i, v) for i in range(n)) + '}'
    elif kind == 'keys':
        d = '@a{' + ', '.join('k%d' % i for i in range(n)) + ', t = {x}}'
    elif kind == 'decls':
        d = '\n'.join(('@a{k%d, t = {x}}', '@string{s%d = "v"}', '@b{l%d}')[i % 3] % i for i in range(n))
    elif kind == 'operands':
        d = '@a{k, t = ' + ' # '.join(['{x}', '"y"', 'n', '1'][i % 4] for i in range(104)) + ', u = 1}'
    elif kind == 'depth':
        d, o = '', r.choice([['{'], ['{', '{a', '{"b" ', '{"'], ['{', '{ ', "{\\'e", '{~', '{,', '{\\&', '{$x$', '{"a"']])
        for _ in range(r.choice([9, 17, 33, 100]) if len(o) == 1 else r.choice([9, 17, 33])):
            d = r.choice(o) + d + '}' + r.choice(['', '', 'b', '"']) * (len(o) > 1)
        d = '@a{k, t = {%s}, u = 1}' % d.replace('{}', '{x"y}', 1)
    elif kind == 'text':
        d = '@a{k, t = {' + 'ab, c~ \\& {d} ' * (m // 14) + '}, u = "' + 'w' * m + '"}'
    elif kind == 'pieces':
        d = '@a{k, t = "' + 'a ' * n + '{' + '{x}' * n + '}"}'
    elif kind == 'long text':
        d = '@a{k, t = {' + 'abc de ' * 600 + '}}'
    elif kind == 'comments':
        d = ''.join('%%c%d\n' % i for i in range(n)) + '@a{k, ' + ''.join('%%d%d\n' % i for i in range(n)) + 't = {x}}'
    elif kind == 'groups':
        d = ''.join('%%c%d\n\n' % i for i in range(n)) + '@a{k}'
    elif kind == 'long comment':
        d = '%' + 'c d' * (m // 3) + '\n@a{k, t = {x}} % ' + 'e' * m
    elif kind == 'lines':
        d = '\n' * n + '@a{k,' + '\n' * n + 't = {x' + '\n' * n + 'y}' + '\r\n' * n + '}'
    elif kind == 'names':
        d = '@' + 'typ' * (m // 6) + '{' + 'key' * (m // 6) + ', ' + 'fld' * (m // 6) + ' = ' + '7' * (m // 3) + ', u = ' + 'abb' * (m // 6) + '}'
    else:
        d = '@a{k,' + ' ' * m + 't =' + '\n\t' * n + '{x' + ' ' * m + 'y} # "$' + 'x+' * n + '$"}'
    return d + r.choice(['', '\n', '\n@z{last, t = {y}}'])


def vast(g, kind):
    """A single token about as long as a buffer."""
    r = g.r
    n = r.choice([4096, 8192, 10000, 16384, 32768, 65536]) + r.randrange(-3, 4)
    w = r.choice(['a', 'ab-', 'xyz']) * n
    w = w[:n]
    if kind == 'vast word':
        d = '@a{k, t = ' + r.choice(['{%s}', '"%s"', '{a %s b}', '"%s {c}"']) % w + ', u = 1}'
    elif kind == 'vast name':
        d = r.choice(['@a{%s, t = 1}', '@a{k, %s = 1, u = 2}', '@string{%s = {v}}', '@a{k, t = %s # {x}}']) % w
    elif kind == 'vast number':
        d = '@a{k, t = ' + '7' * n + ' # 1}'
    elif kind == 'vast comment':
        d = '%' + r.choice(['c', 'c d', 'é ']) * (n // 2) + '\n@a{k, t = {x}}%' + 'e' * n
    elif kind == 'vast space':
        b = r.choice([' ', '\n', ' \n', '\t\r\n']) * n
        d = r.choice(['@a{k,%st = 1}', '%s@a{k}', '@a{k, t = {x%sy}}', '@a{k, t = "%s"} % c', '@a{k}%s@b{l}']).replace('%s', b)
    elif kind == 'vast math':
        d = '@a{k, t = {$' + 'x+' * (n // 2) + '$ y}}'
    elif kind == 'vast url':
        d = '@a{k, url = {http://' + 'x/' * (n // 2) + '}, t = {\\url{http://' + 'y' * n + '}}}'
    else:
        d = '@a{k, t = {' + ''.join('line %d {x} \\& $a$\n' % i for i in range(n // 80)) + '}, u = "' + '~' * (n // 20) + '"}'
    return d + r.choice(['', '\n@z{last, t = {y}} % c'])


VAST = ['vast word', 'vast name', 'vast number', 'vast comment', 'vast space', 'vast math', 'vast url', 'vast lines']
HUGE = ['fields', 'keys', 'decls', 'operands', 'depth', 'text', 'pieces', 'long text', 'comments', 'groups', 'long comment', 'lines', 'names', 'blanks']


ODDCH = ['\x0b', '\x0c', '\x01', '\x1a', '\x7f', '\x85', '\xa0', '\u2028', '\u200b', '\ufeff', '\ufeff\ufeff', '\ufffd', '\u0301', '\u0661', '\u017f', '\u212a', 'ñ']
HOT = list('{}"(),=#@%\\$~\' \n\ta1c') + ['\x00', '\ufeff', 'é', '@a{', '@string', '\\c', '$x', '{}', "\\'", 'http', '😀', '\r', '\\url{', '@comment', '@preamble', '-', '!', '\\^', '"}', '},', '%x\n'] + ODDCH


def mutate(r, s, n=None):
    """A few random edits of a text; returns bytes."""
    b = s
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(7)
        i = r.randrange(len(b) + 1)
        j = min(len(b), i + r.choice([1, 1, 1, 2, 5, 12]))
        if k == 0:
            b = b[:i]
        elif k == 1:
            b = b[:i] + b[j:]
        elif k == 2:
            b = b[:i] + r.choice(HOT) + b[i:]
        elif k == 3:
            b = b[:i] + r.choice(HOT) + b[j:]
        elif k == 4:
            b = b[:i] + b[i:j] + b[i:]
        elif k == 5:
            b = b[i:] if r.random() < .3 else b[:i] + b[j:]
        else:
            x = b[i:j]
            q = r.randrange(len(b) + 1)
            b = b[:q] + x + b[q:]
    out = b.encode('utf-8', errors='surrogatepass')
    if r.random() < .03:
        out = r.choice(ODDCH).encode() + out
    if r.random() < .06 and out:
        i = r.randrange(len(out))
        out = out[:i] + bytes([r.choice([0xff, 0xc3, 0x80, 0xed, 0])]) + out[i:]
    return out


STRCHUNKS = ['a', ' ', ',', '~', '$', '\\', '{', '}', '"', "'", 'c', '%', '\n', '1']
TOPCHUNKS = ['@a', '@string', '@preamble', '{', '}', '(', ')', 'k', '1', '=', ',', '#', '"x"', '{y}', '%c\n', ' ', '\n', '@comment']


def chunks(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)
