"""Random and exhaustive trees, as node tuples."""
import itertools, random
from gen import LETTERS, EXT


def cp(s):
    return [ord(c) for c in s]


def N(kind, s='', kids=(), num=0):
    return [kind, -1, -1, num, cp(s), list(kids)]


ACC = "`'^\"~c."
GOODACC = [('`', 'aeiouAEIOU'), ("'", 'aeiouyAEIOUY'), ('^', 'aeiouAEIOU'), ('"', 'aeiouAEIOU'), ('~', 'anoANO'), ('c', 'cC'), ('.', 'cegizCEGIZ')]


class Trees:
    def __init__(self, seed, badaccents=.03, depth=4):
        self.r = random.Random(seed)
        self.bad = badaccents
        self.depth = depth

    def word(self):
        r = self.r
        return ''.join(r.choice(LETTERS if r.random() < .85 else EXT + "-.'1#&%") for _ in range(r.choice([1, 1, 2, 4, 7])))

    def accent(self):
        r = self.r
        if r.random() < self.bad:
            return N('Accent', r.choice(LETTERS), num=ord(r.choice(ACC)))
        a, ls = r.choice(GOODACC)
        return N('Accent', r.choice(ls), num=ord(a))

    def piece(self, d=0):
        r = self.r
        k = r.random()
        if k < .3:
            return N('Text', self.word() if r.random() < .95 else '')
        if k < .45:
            return N('Space', r.choice(['', '', ' ', '\n ', '\t', '\n', '  ', '\r\n', '\u00a0']))
        if k < .52:
            return N('Comma')
        if k < .58:
            return N('NBSP')
        if k < .64:
            return N('Hyphen')
        if k < .7:
            return N('Math', r.choice(['x', '', 'a^2', '\\alpha $'.replace('$', 'b')]))
        if k < .77:
            return N('Escaped', r.choice('\\$&%{}_'))
        if k < .85:
            return self.accent()
        if k < .91:
            return N('Macro', r.choice(['emph', 'url', 'cite', '', 'href', 'textbf', 'textit', 'frac', 'c', 'H']), [x for x in self.pieces(d + 1, r.choice([0, 1, 2, 3, 5])) if x[0] not in ('Escaped',)])
        if d < self.depth:
            return self.parsed(d + 1)
        return N('Text', 'z')

    def pieces(self, d, n=None):
        n = self.r.choice([0, 1, 1, 2, 3, 5]) if n is None else self.r.randrange(n + 1)
        return [self.piece(d) for _ in range(n)]

    def parsed(self, d=0):
        q = self.r.random() < (.4 if d == 0 else .05)
        return N('Parsed', '"' if q else '{', self.pieces(d), num=d)

    def expr(self, d=0):
        r = self.r
        k = r.random()
        if k < .6:
            return self.parsed()
        if k < .68:
            return N('Ident', self.word())
        if k < .74:
            return N('Number', str(r.randrange(3000)))
        if k < .8:
            return N('Unparsed', self.word(), num=ord(r.choice('"{')))
        if k < .86:
            return self.authors()
        if k < .88:
            return N('Text', self.word())
        if k < .885:
            return N('BadExpr')
        if d < 3:
            return N('Concat', kids=[self.expr(d + 1), self.expr(d + 1)])
        return self.parsed()

    def authors(self):
        r = self.r

        def part(first=False):
            k = r.random()
            if k < .6:
                return N('Text', self.word() if r.random() < .6 else '')
            if k < .8:
                return N('nil')
            return self.parsed()
        return N('Authors', kids=[N('Author', kids=[part() for _ in range(4)]) for _ in range(r.randrange(4))])

    def tag(self, names=('author', 'title', 'year', 'editor', 'note', 'url'), value=None):
        return N('TagStmt', self.r.choice(names), [value or (self.expr() if self.r.random() < .97 else N('nil'))])

    def bib(self, names=('author', 'title', 'year', 'editor', 'note', 'url'), value=None):
        r = self.r
        ks = [N('Key', self.word()) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        if r.random() < .05:
            ks = [N('Key', self.word(), num=1) for _ in range(r.choice([1, 2]))]  # extra keys only
        ts = [self.tag(names, value() if value else None) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        return N('BibDecl', r.choice(['article', 'book', 'misc']), ks + ts)

    def decl(self, **kw):
        r = self.r
        k = r.random()
        if k < .7:
            return self.bib(**kw)
        if k < .85:
            return N('AbbrevDecl', kids=[self.tag() if r.random() < .9 else N('nil')])
        if k < .97:
            return N('PreambleDecl', kids=[self.expr()])
        return N('BadDecl')

    def file(self, **kw):
        return N('File', 'f.bib', [self.decl(**kw) for _ in range(self.r.choice([0, 1, 1, 2, 3]))])

    def package(self, n=3, **kw):
        return N('Package', kids=[self.file(**kw) for _ in range(self.r.randrange(n + 1))])

    def large(self, kind):
        """A tree that is large in one way."""
        r = self.r
        n = r.choice([17, 20, 33, 40, 65, 65, 130])
        if kind == 'pieces':
            return N('Parsed', r.choice('{"'), [self.piece(3) for _ in range(4 * n)])
        if kind == 'depth':
            t, m = N('Parsed', '{', [N('Escaped', '&'), N('Text', 'x')]), r.choice([5, 12, 33, 50])
            for i in range(m):
                ks = [self.piece(9) for _ in range(r.randrange(3))]
                k = r.randrange(len(ks) + 1)
                t = N('Macro', 'emph', ks[:k] and [N('Text', 'm')] + [t] or [t]) if r.random() < .1 else N('Parsed', '{', ks[:k] + [t] + ks[k:], num=max(0, m - i - 1))
            return t if t[0] == 'Parsed' else N('Parsed', '{', [t])
        if kind == 'arguments':
            return N('Parsed', '{', [N('Macro', 'm', [self.piece(3) if r.random() < .5 else N('Parsed', '{', [N('Escaped', '%'), N('Text', 'e')], num=1) for _ in range(n)])][:1])
        if kind == 'operands':
            t = self.parsed()
            for _ in range(min(n, 40)):
                t = N('Concat', kids=[r.choice([N('Ident', 'i'), N('Number', '1'), N('Parsed', '"', [N('Text', 'a')])]), t])
            return t
        if kind == 'fields':
            return N('BibDecl', 'article', [N('Key', 'k')] + [N('TagStmt', 't%d' % r.randrange(2 * n), [self.parsed()]) for _ in range(2 * n)])
        if kind == 'keys':
            return N('BibDecl', 'article', [N('Key', 'k%d' % i) for i in range(n)] + [self.tag()])
        if kind == 'decls':
            return N('File', 'f.bib', [r.choice([N('BibDecl', 'a', [N('Key', 'k%d' % i), N('TagStmt', 'title', [N('Parsed', '{', [N('Text', 'v')])])]), N('BibDecl', 'b', []),
                                                 N('AbbrevDecl', kids=[N('TagStmt', 's', [N('Parsed', '"')])]), N('PreambleDecl', kids=[N('Parsed', '"')])]) for i in range(3 * n)])
        if kind == 'package':
            f = self.large(r.choice(['decls', 'decls', 'file']))
            f = f if f[0] == 'File' else N('File', 'f.bib', [f])
            return N('Package', 'p', [f])
        if kind == 'packages':
            return N('Package', 'p', [self.large('decls'), N('File', 'g.bib', [self.large('fields')])])
        if kind == 'file':
            return N('File', 'f.bib', [self.large(r.choice(['fields', 'keys'])) for _ in range(3)])
        if kind == 'authors':
            return N('TagStmt', 'title', [N('Authors', kids=[N('Author', kids=[N('Text', r.choice(['', 'A', 'b'])) for _ in range(4)]) for _ in range(r.choice([n, 2 * n]))])])
        return N('Package', kids=[N('File', 'f', [self.bib() for _ in range(n)])])

    def any(self):
        k = self.r.random()
        if k < .3:
            return self.file()
        if k < .4:
            return self.package()
        if k < .6:
            return self.parsed()
        if k < .75:
            return self.expr()
        if k < .85:
            return self.decl()
        return self.piece()


LARGE = ['pieces', 'depth', 'arguments', 'operands', 'fields', 'keys', 'decls', 'authors', 'files', 'package', 'file']
CLASS = dict(File='file', Package='package', TagStmt='tag', Author='author', Key='key', BibDecl='decl', AbbrevDecl='decl', PreambleDecl='decl', BadDecl='decl', nil='nil')


def share(r, tree, p=.15):
    """The tree with some parts replaced by an earlier part, the very same object."""
    done = []

    def go(n, near):
        c = CLASS.get(n[0], 'expr')
        if c in ('key', 'nil'):
            return n
        near = [i for i in near if done[i] == c]
        if near and r.random() < p * 2:
            return N('Again', num=near[-1])
        if r.random() < p:
            old = [i for i, x in enumerate(done) if x == c]
            if old:
                return N('Again', num=r.choice(old))
        kids, mine = [], []
        for k in n[5]:
            x = go(k, mine)
            kids.append(x)
            if x[0] == 'Again':
                mine.append(x[3])
            elif x[0] not in ('Key', 'nil'):
                mine.append(len(done) - 1)
        done.append(c)
        return n[:5] + [kids]
    return go(tree, [])


LEAF = [N('Text', 'a'), N('Space'), N('Comma'), N('Escaped', '&'), N('Accent', 'o', num=34), N('NBSP'), N('Math', 'x'), N('Hyphen')]


# ---- author lists -----------------------------------------------------------
class Names:
    """Author lists as source text (of a brace string)."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def word(self):
        r = self.r
        k = r.random()
        up = lambda: r.choice('ABCDEFGHXYZÉÜABCDEFGHXYZÉÜŽŁİΩЖΑ')
        lo = lambda: r.choice('abcdefghxyzéüßabcdefghxyzéüßžłıωжα中אカª1-(')
        body = lambda: ''.join(r.choice('abcdefnxyzéZ') for _ in range(r.choice([0, 1, 2, 5])))
        acc = lambda ls='aeou': '\\' + r.choice("'`^\"") + r.choice(['%s', '{%s}']) % r.choice(ls)
        if k < .25:
            return up() + body()
        if k < .45:
            return lo() + body()
        if k < .5:
            return r.choice(['von', 'de', 'la', 'and', 'And', 'others', 'Others', 'andy', 'band', 'van', 'Jr.', 'III', "d'", 'AND'])
        if k < .56:
            return '{' + (up() if r.random() < .5 else lo()) + body() + '}'
        if k < .61:
            return '{' + self.word0() + ' ' + self.word0() + '}'
        if k < .65:
            return '{' + self.word0() + r.choice([' and ', ', ', ',', 'and', ' and']) + self.word0() + '}'
        if k < .7:
            return '{' + acc('aeouAEOU') + '}' + body()
        if k < .75:
            return up() + body() + acc() + body()
        if k < .79:
            return acc('aeouAEOU') + body()
        if k < .82:
            return body() + '{' + up() + '}' + body()
        if k < .85:
            return up() + '.'
        if k < .87:
            return up() + '-' + up() + body()
        if k < .89:
            return r.choice(['{\\o}rst', '\\emph{x}y', '$x$', 'M\\&M', '\\_', '{}', '{{}}', '1st', '{\\c{c}}a', '{and}', 'a{nd}', '{B}and', "\\'1" if r.random() < .02 else 'O', 'and{}'])
        if k < .91:
            return '{' + acc('aeou') + body() + ' ' + self.word0() + '}'
        return up() + body()

    def word0(self):
        r = self.r
        return r.choice('ABCabcÉ') + ''.join(r.choice('abcd') for _ in range(r.randrange(4)))

    def sp(self):
        return self.r.choice([' ', ' ', ' ', ' ', '~', '\n', '  ', ' ~', '\t'])

    def words(self, n):
        out = ''
        for i in range(n):
            if i:
                out += self.sp()
            out += self.word()
        return out

    def name(self):
        r = self.r
        k = r.random()
        n = lambda: r.choice([0, 1, 1, 2, 3])
        if k < .5:
            return self.words(r.choice([1, 1, 2, 3, 4, 5]))
        c = lambda: r.choice([', ', ', ', ',', ' , ', ',~'])
        if k < .8:
            return self.words(r.choice([1, 1, 2, 3, 4])) + c() + self.words(n())
        if k < .97:
            return self.words(r.choice([1, 2, 3])) + c() + self.words(r.choice([0, 1, 1, 2])) + c() + self.words(n())
        if k < .985:
            return self.words(1) + c() + self.words(1) + c() + self.words(1) + c() + self.words(1)
        return ''

    def list(self):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4])
        out = r.choice(['', '', '', ' '])
        for i in range(n):
            if i:
                out += r.choice([' and ', ' and ', ' and ', '\nand\n', '~and ', ' and~', '  and  '])
            out += self.name()
        if r.random() < .12:
            out += ' and others'
        if r.random() < .03:
            out += r.choice([' and', ' and ', ','])
        return out + r.choice(['', '', ' ', '\n'])


# words of every structure, for exhaustive name lists
NAMEWORDS = ['A', 'b', '{C}', '{d}', "{\\'e}f", "{\\'E}f", "g\\'a", "H\\'a", "\\'ab", '{I j}', '{K and l}', 'm{N}', '{o, p}', 'and', 'others']
# every kind of piece, for exhaustive strings
NAMEPIECES = ['and', 'A', 'b', ' ', ',', '~', '{c}', '{D}', "{\\'e}", "{{\\'e}f}", "{\\'E}", '\\url{u}', '\\foo ', '$x$', "\\'e", '\\&', '-', '{and}', '{}', '\\O']
NAMEGLUE = [' ', '~', ', ', ' and ', '']
