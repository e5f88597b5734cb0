"""Words with a place in each text where a word may stand.

The specification treats nearly all words alike, so an implementation that
treats one of them in its own way departs from it; but only a text that has
the word shows it.  The words are those well known from bibliographies and
those that the sources of the repository spell out: a dictionary of inputs.
What a text with a word means is decided by the specification alone."""
import ast, glob, itertools, re, unicodedata, warnings
import gen
from vlib import REPO

KNOWN = """xdata set control ieeetranbstctl journaltitle path nolinkurl doi eprint LaTeX TeX BibTeX ss de von De Von van der la Jr. Jr Sr. II III et al. al others Others OTHERS and And AND
 others. jan january January Jan JAN dec mon crossref xref ids options related shorthand label langid date year origdate url Url URL href urldate file keywords
 annotation mvbook mvcollection entry ref key Key KEY title Title booktitle series volume number pages month note author editor Author editora translator institution school address
 nil null true false NaN Inf string comment preamble include import begin end input let def newcommand providecommand cite citep emph textbf textit textsc textrm textsf texttt
 mathrm ensuremath mkbibquote mkbibemph enquote noopsort uppercase lowercase MakeUppercase copyright pounds euro ldots dots textbackslash textasciitilde tilde quad par hspace
 i j l o L O ae AE oe OE aa AA th TH DH dh ng NG b c d k r t u v H G U href hyperref footnote verb lstinline item left right big frac sqrt
 a A x X _ - + . : ; / * & ! ? | < > [ ] ^ ` ' ( ) @ -- --- ... '' `` ``x'' ; & + / ://  http http: http:// https:// ftp:// mailto: www. doi: DOI arXiv: urn:isbn: 10.1000/182 #1 ?x=1 a/b.c
 0 1 01 1e3 0x10 1.5 -1 1984 9999 12345678901234567890 1980-1990 1st 12--34
 \\& \\% \\$ \\_ \\# \\{ \\} \\- \\/ \\, \\; \\! \\@ \\ss \\o \\aa \\LaTeX {} {{}} {a} {A} {{A}} $x$ $$ ~ ~~ \\'e \\"{o}
 """.split() + ['et al.', 'et al', 'and others', ' and ', ', and ', ' ', '  ', '\u00a0', '\u2028', '\u200b', '\ufeff', '\u00ad', '\u2013', '\u2014', '\u201c', '\u00df', 'ß', 'Ł', 'é', 'İ', 'ı', 'ſ', 'K', 'ﬁ', '中', '😀', 'e\u0301', 'a\tb', 'a\fb', 'a\u00a0b', 'a\u2028b', 'Ab\u3000Cd', '\f', '\v', '\x7f']


def literals():
    """The strings and characters that the sources spell out."""
    out = set()
    for p in sorted(glob.glob(REPO + '/**/*.go', recursive=True)):
        if p.endswith('_test.go') or '/testdata/' in p:
            continue
        try:
            txt = open(p, encoding='utf-8', errors='replace').read()
        except OSError:
            continue
        txt = re.sub(r'(?m)^\s*//.*$', '', txt)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"|`([^`]*)`|\'((?:[^\'\\\n]|\\.[^\']*))\'', txt):
            q, raw, c = m.groups()
            try:
              with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s = raw if raw is not None else ast.literal_eval("'''%s '''" % (q if q is not None else c).replace("'", "\\'"))[:-1]
            except (SyntaxError, ValueError):
                continue
            s.encode('utf-8', 'surrogatepass')
            if 0 < len(s) <= 24 and not (s.count(' ') and re.search(r'[a-z]{3} [a-z]{3}', s)) and '/bibtex' not in s:
                out.add(s)
    return sorted(out)[:500]


def numbers():
    """The whole numbers that the sources spell out, those worth a try."""
    out = set()
    for p in glob.glob(REPO + '/**/*.go', recursive=True):
        if p.endswith('_test.go'):
            continue
        for m in re.finditer(r'(?<![\w.\'"])(0[xX][0-9a-fA-F]+|\d+)(?:\s*<<\s*(\d+))?(?![\w.\'"])', open(p, encoding='utf-8', errors='replace').read()):
            n = int(m.group(1), 16 if m.group(1)[:2].lower() == '0x' else 10) << min(int(m.group(2) or 0), 20)
            if 2 < n <= 5000:
                out.add(n)
    return sorted(out)[:60]


# the letters whose case Chars.tla knows
LETTERS = set(list(range(192, 384)) + list(range(913, 972)) + list(range(1040, 1104)) + [170, 181, 186, 8490] + list(range(19968, 40896)) + list(range(12354, 12439)) + list(range(1488, 1515)) + list(range(64256, 64263)))


def judged(w):
    return all(c.isascii() or unicodedata.category(c)[0] not in 'LC' or ord(c) in LETTERS or c in gen.ODDCH + ['\u00ad'] for c in w)


_all = None


def vocabulary():
    global _all
    if _all is None:
        ws = gen.FIELDNAMES + gen.TYPES + gen.KEYS + gen.NUMBERS + gen.ABBREVS + gen.WORDS + gen.MACROS + KNOWN + literals()
        _all = [w for w in dict.fromkeys(ws) if judged(w)]
    return _all


def cases(w):
    return list(dict.fromkeys([w, w.upper(), w.capitalize()]))


NAMED = re.compile(r"[^\W\d][\w!$&*+\-./:;<>?\[\]^`|]*\Z")
FRAMES = {
    'name': ['@%s{k, t = {x}}', '@%s{k, t = {x~y}} @%s(l, u = "z")', '@a{k, %s = {http://a~b,c}, Title = {x}}', '@a{k, %s = "http://x~y"}', '@a{k, %s = jan}', '@a{k, %s = 1}', '@a{%s}', '@a{%s, t = %s}', '@a{k, t = %s # {x}, %s = {y}}',
             '@string{%s = {v}} @a{k, t = %s}', '@preamble{%s}', '@a{k, howpublished = {http://x}, %s = {x y, \\& z - w}, %s = "u"}', '@a{k, crossref = {%s}, %s = k}'],
    'key': ['@a{k, %s, t = {x}, m, %s}', '@a{%s,}\n@b{l, crossref = "%s"}'],
    'text': ['@a{k, t = {%s}}', '@a{k, t = {x %s y}}', '@a{k, t = {x%sy}, u = {z}}', '@a{k, t = {{%s} %s~%s, %s}}', '@a{k, url = {%s}, howpublished = {x, %s~y}}', '@a{k, t = "%s", u = "x %s y"}', '@preamble{{%s} # "%s"}',
             '@string{s = {%s}}', '@a{k, author = {%s and A %s}}', '@a{k, t = {\\emph{%s} \\url{%s} $%s$}}'],
    'macro': ['@a{k, t = {\\%s}}', '@a{k, t = {\\%s x}}', '@a{k, t = "\\%s{x~b,c} y"}', '@a{k, t = {\\%s{http://a~b%%c}{d,e}, {\\%s}}}', '@a{k, t = {\\%s\\%s{}}}', '@a{k, url = {\\%s{x}}}'],
    'comment': ['%%%s\n@a{k}', '%% %s\n%%%s\n@a{k, t = {x}}', '@a{k, %%%s\n t = {x}} %%%s', '%%%%%s%%%%\n\n@a{k}\n%%%s'],
    'bare': ['%s', '%s\n@a{k}', '@a{k} %s @b{l}', '@a{k, t = {x} %s}'],
}
REPEATS = [c * n + d for c in '%-=*#~_ \t' for n in (2, 3, 4, 5, 8, 10, 20, 40, 72, 80) for d in ('', ' x', '\r')]
MACRO = re.compile(r'[A-Za-z]+\*?\Z')


def balanced(w):
    d = 0
    for c in w:
        d += (c == '{') - (c == '}')
        if d < 0:
            return False
    return d == 0


def fill(f, w):
    return f.replace('%%', '\0').replace('%s', w).replace('\0', '%')


def plain(w):
    """What begins or ends with a space of another kind may count as blank."""
    return w and not any(c.isspace() and c not in ' \t\r\n' for c in (w[0], w[-1])) and balanced(w) and not w.endswith('\\')


def documents(kinds, words=None, cased=False):
    """One text for each frame and word that fits it."""
    for w in words or vocabulary():
        for k in kinds:
            if k == 'name':
                ws = (cases(w) if cased else [w]) if NAMED.match(w) else []
            elif k == 'key':
                ws = [w] if w and all(c.isalnum() or c in gen.NAMECH for c in w) else []
            elif k == 'macro':
                ws = [w] if MACRO.match(w) else []
            elif k == 'text':
                ws = [w] if balanced(w) else []
            elif k == 'comment':
                ws = [w] if '\n' not in w else []
            else:
                ws = [w]
            for f in FRAMES[k]:
                for v in ws:
                    yield fill(f, v)
    if 'comment' in kinds and not words:
        for w in REPEATS:
            for f in FRAMES['comment']:
                yield fill(f, w)


def sized(n):
    """Texts with n of something, for each number near one spelled out."""
    yield '@a{' + 'k' * n + ', ' + 't' * n + ' = {' + 'x' * n + '}}'
    yield '%' + 'c' * n + '\n@a{k, t = jan' + '1' * n + '}'
    if n <= 300:
        yield '@a{k, t = {' + 'x ' * n + '}, u = "' + 'y, ' * n + '"}'
        yield '%c\n' * n + '@a{k}\n' * n
        yield '@a{k, t = ' + ' # '.join(['1', '{x}', 'y'][i % 3] for i in range(min(n, 90))) + '}'
        yield '@a{k, ' + ', '.join('t%d = {x}' % i for i in range(n)) + '}'
        yield '@a{k, t = {' + '{' * min(n, 90) + 'x' + '}' * min(n, 90) + '}}'
        yield '@a{k, author = {' + ' and '.join(['A b C'] * n) + '}}'
        yield '@a{k, u = }' * n + '@a{k}'


def sizes():
    return sorted({m for n in numbers() for m in (n - 1, n, n + 1)})


def filenames():
    """Names of files that have a word in them."""
    out = []
    for w in vocabulary():
        w = w.replace('\x00', '')
        if not w.strip('./') or len(w.encode('utf-8', 'surrogatepass')) > 80 or '..' in w.split('/'):
            continue
        out += [w, w + '.bib', 'dir/' + w, '.' + w.lstrip('/.'), '_' + w, w + '~', w + '.bak', w + '/f.bib', 'x' + w + 'y']
    return [x for x in dict.fromkeys(out) if not x.endswith('/') and x.strip('./') and '//' not in x and not x.startswith('/') and not x.split('/')[-1] in ('.', '..') and not x.startswith(('./', '../'))]


COUNTS = list(range(2, 13)) + [15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 90]
RUNS = {      # a frame and what is repeated in it
    'string': [(f % ('\\c%sc',), ' ') for f in ('@a{k, t = {%s}}', '@a{k, t = "x %s"}', '@a{k, t = {{%s} y}}')] + [("@a{k, t = {\\'%se}}", ' '), ('@a{k, t = {x%sy}}', ' '), ('@a{k, t = {x%sy}}', '\n'), ('@a{k, t = {%s}}', '\t')] +
              [(f, u) for f in ('@a{k, t = {%s}}', '@a{k, t = "%s"}', '@a{k, t = {{x %s} y}}') for u in (',', '~', '$a$', '$$', '\\&', '\\emph{x}', '\\foo ', '\\,', "\\'e", '\\c{c}', '{}', '{a}', 'a ', 'a, ', 'a~', '\\url{x}', '\\$', '\\\\', '-', '{ }', '$a$ ', '{$a$}', 'and ', ' and')] +
              [('@a{k, url = {http://a%s}}', ','), ('@a{k, url = {http://a%s}}', '~'), ('@a{k, url = "x%s"}', '~'), ('@a{k, t = {\\url{x%s}}}', '{y}'), ('@a{k, t = {\\url{x%s}}}', '$y$'), ('@a{k, t = {\\url{x%s}}}', '~'), ('@a{k, t = {\\url{x%s}}}', '\\&')],
    'decls': [('%s', u) for u in ('@a{k}', '@a{k, t = 1}\n', '@string{s = {x}}\n', '@preamble{"x"}', '@a{k},', '%c\n@a{k}\n', '@A{K, T = {x}}')] +
             [('@a{%s}', 'k,'), ('@a{k, %sm}', 'k,'), ('@a{m, %s}', 'k, l, '), ('@a{k, u = 2, %s}', 'k, '), ('@b{k} @a{k%s}', ', t = 1'), ('@a{k, u = 1, %sv = 1}', 't = {x}, '), ('@a{k, %s}', 't = {x},\n'), ('@a{k, %s}', 'T = 1, t = 1, '), ('@a{k, %s}', 't = jan, '), ('@a{k, %s}', 't = "x y", '),
              ('@a{k, %s}', 't = {x}, u = {x}, '), ('@a{k, %s}', 'url = {x}, '), ('@a{k, t = 1%s}', ' # 1'), ('@a{k, t = x%s, u = {z}}', ' # {x}'), ('@a{k, t = x%s}', '#x'), ('@string{s = x%s}', ' # "x"'), ('@preamble{{x}%s}', '#{x}'),
              ('@a{k,%st = 1}', ' '), ('@a{k,%st = 1}', '\n'), ('@a{k,%st = 1}', '%\n'), ('@a{k, t%s= 1}', '\t'), ('%s@a{k}', '\n'), ('@a{k}%s@b{l}', '\r\n')],
    'comments': [('%s@a{k}', '%c\n'), ('@a{k, %st = 1}', '%c\n'), ('@a{k, %st = 1}', '%\n'), ('%s\n@a{k}', '%c\n'), ('@a{k}%s', '%c\n'), ('@a{k} %d\n%s\n%s@b{l}', '%c\n'), ('%s@a{k}', '%c\n\n'), ('@a{k,\n%s t = 1}', '%c\n \n'), ('%c\n%s@a{k}', '\n'), ('@a{%c\n%sk}', ' '), ('%s\n@a{k}', '%'), ('%x%s\n@a{k}', ' ')]}


def repeated(kinds):
    return [f.replace('%s', u * n) for k in kinds for f, u in RUNS[k] for n in COUNTS if len(u) * n < 400]


def tiny():
    """Entries whose type, keys, fields and values share two names."""
    items = ['a', 'b', 'a = a', 'a = {a}', 'b = 1', 'a = a # "b"', 'b = b']
    for n in (1, 2, 3, 4):
        for xs in itertools.product(items, repeat=n):
            for ty in 'ab':
                yield '@' + ty + '{' + ', '.join(xs) + '}'
    for a, b in itertools.product(['@string{a = {b}}', '@string{b = a}', '@a{a}', '@a{a, a = a}', '@b{a, b = a # b}', '@preamble{a}'], repeat=2):
        yield a + b
        yield a + a + b + a


def counted():
    """Numbers of keys and of fields in one entry, in several orders."""
    for i in (0, 1, 2, 3, 4, 5, 8):
        for j in (0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64):
            ks, fs = ['k%d' % x for x in range(i)], ['t%d = {x}' % x for x in range(j)]
            yield '@a{' + ', '.join(ks + fs) + '}'
            if i and j:
                yield '@a{' + ', '.join(fs + ks) + '}'
                yield '@a(' + ', '.join(ks[:1] + fs + ks[1:]) + ')'
                yield '@a{' + ', '.join(fs[:j // 2] + ks + fs[j // 2:]) + ',}'


def operands():
    """Every short concatenation in every place."""
    for n in (1, 2, 3):
        for xs in itertools.product(['x', '0', '12', '"s"', '{s}', '{}', '""'], repeat=n):
            e = ' # '.join(xs)
            yield '@preamble(' + e + ')@string(s = ' + e + ')'
            yield '@preamble{' + e + '}@a{k, t = ' + e + ', u = ' + e + '}'
            yield '@a{k, url = ' + e + ', url = ' + e.replace('s', 'http://a~b') + '}'


PIECES = ['}', '{', '"', '{}', '{x}', '\\}', '\\{', '%', ',', '~', '@', '#', '\\$', '\\\\', '$', '\n', '\r', ' ', '\t', '\\foo', "\\'e", '\\,', 'é', '\x01']


def late():
    """What is special, late in something long."""
    for n in (60, 90, 130, 260, 300, 600):
        for u in PIECES:
            for f in ('@a{k, t = {$%s$ y}}', '@a{k, t = "$%s$ y"}', '@a{k, t = {%s y}}', '@a{k, t = "%s y"}', '@a{k, t = {{%s} y}}', '@a{k, t = "{%s} y"}', '@a{k, t = {\\url{%s} y}}', '@a{k, url = {http%s}}', '%%%s\n@a{k}', '@a{%s}', '@%s{k}'):
                yield f.replace('%s', 'x' * n + u)
                if n in (90, 300):
                    yield f.replace('%s', 'xy, ' * (n // 4) + u + 'z')
