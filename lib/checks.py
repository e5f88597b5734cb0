"""What each check explores.  The verdicts come from the specifications."""
import concurrent.futures, itertools, os, random, re, time
from core import *
import gen, vlib, words
from gen import Gen, big, mutate, chunks, STRCHUNKS, TOPCHUNKS

NAMES = ['', 'f.bib', 'dir/é x.bib']


def lc(**x):
    return dict(name='f.bib', lc=True, **x)


def doc_reqs(seed, n, modes=(0, 2), strings=True, comments=0.1, lc=False, pre=False, maxlen=700):
    """Random well-formed documents."""
    r = random.Random(seed * 7919 + 13)
    g = Gen(seed * 31 + 7, strings=strings, comments=comments)
    out = []
    while len(out) < n:
        d = g.doc()
        if len(d) > maxlen:
            continue
        for m in modes:
            x = dict(name=r.choice(NAMES))
            if lc:
                x['lc'] = True
            if pre:
                x['pre'] = r.choice([0, 0, 1, 57, 1000])
            out.append(req('file', d, m, **x))
    for _ in range(n // 40):
        d = gen.big(g)
        for m in modes:
            x = dict(name=r.choice(NAMES))
            if lc:
                x['lc'] = True
            out.append(req('file', d, m, **x))
    return out


def huge_reqs(seed, kinds=gen.HUGE, modes=(0, 2), bad=0, **x):
    """Documents past the sizes at which buffers and counters turn over."""
    r = random.Random(seed * 61)
    g = Gen(seed * 67)
    out = []
    for kd in kinds:
        d = gen.huge(g, kd)
        if bad:
            d = mutate(r, d)
        out += [req('file', d, m, name='f.bib', **x) for m in modes]
    return out


SIZES = (5000, 9000, 17000, 34000, 66000)


def sum_reqs(seed, n, modes=(0, 2), sizes=SIZES, strings=True, bad=False, comments=.1):
    """Files put together from parts, up to sizes the machine does not read."""
    r = random.Random(seed * 83)
    g = Gen(seed * 89, strings=strings, comments=comments)
    out = []
    for i in range(n):
        size = sizes[i % len(sizes)]
        parts = ['%' + 'c' * r.choice([1, 60]) + '\n\n', '\n\n\n']
        while len(parts) < 14:
            d = (big(g) if r.random() < .15 else g.doc(r.choice([1, 1, 2, 3]))).lstrip('\ufeff')
            if len(d) < 2500 and '\ufeff' not in d:
                parts.append(d + '\n\n')
        parts = [p.encode('utf-8', 'surrogatepass') for p in parts]
        seq, have = [], 0
        while have < size:
            seq.append(r.randrange(1, len(parts) + 1))
            have += len(parts[seq[-1] - 1])
        if bad:
            parts.append(mutate(r, g.doc(1)))
            seq.append(len(parts))
        else:
            seq.append(1)
        out.append(req('sum', b'', modes[i % len(modes)], parts=[b64(p) for p in parts], seq=seq, pre=r.choice([0, 0, 57, 70000])))
    return out


def many(run, f):
    """The quick tier takes one, the thorough one more."""
    return [q for i in range(1 if run.quick else 6) for q in f(i)]


def mut_reqs(seed, n, modes=(0, 2), comments=0.05, maxlen=500):
    """Documents with a few random edits: mostly malformed."""
    r = random.Random(seed * 104729 + 5)
    gs = [Gen(seed * 17 + 3, strings=True, comments=comments), Gen(seed * 19 + 4, strings=False, comments=comments)]
    out = []
    while len(out) < n:
        d = r.choice(gs).doc()
        if len(d) > maxlen:
            continue
        out.append(req('file', mutate(r, d), r.choice(modes), name='f.bib'))
    for _ in range(n // 50):
        out.append(req('file', mutate(r, gen.big(r.choice(gs))), r.choice(modes), name='f.bib'))
    return out


def prefix_reqs(seed, n, modes=(0, 2), maxlen=120):
    """Every truncation of some documents."""
    r = random.Random(seed * 1299709 + 1)
    out = []
    g = Gen(seed * 23 + 9, strings=True, comments=.05)
    while len(out) < n:
        b = g.doc(r.choice([1, 1, 2])).encode()
        if not b or len(b) > maxlen:
            continue
        for i in range(len(b)):
            for m in modes:
                out.append(req('file', b[:i], m, name='f.bib'))
    return out[:n]


def subst_reqs(seed, n, modes=(0, 2), maxlen=60):
    """Every single-character deletion and substitution of some documents."""
    r = random.Random(seed * 15485863 + 2)
    out = []
    g = Gen(seed * 29 + 1, strings=True, comments=.03)
    hot = list('{}"(),=#@%\\$~ \na1') + ['\x00', '\ufeff', '-']
    while len(out) < n:
        d = g.doc(1)
        if not d or len(d) > maxlen:
            continue
        for i in range(len(d)):
            m = r.choice(modes)
            out.append(req('file', d[:i] + d[i + 1:], m, name='f.bib'))
            c = r.choice(hot)
            out.append(req('file', d[:i] + c + d[i + 1:], m, name='f.bib'))
            out.append(req('file', d[:i] + r.choice(hot) + d[i:], m, name='f.bib'))
    return out[:n]


def string_chunk_reqs(n, modes=(0, 2), frames=('@a{k,t={%s}}', '@a{k,t="%s"}', '@a(k,url={%s})'), sample=None, seed=1):
    """Exhaustive: every sequence of up to n string chunks."""
    out = [req('file', f % s, m, name='f.bib') for s in chunks(STRCHUNKS, n) for f in frames for m in modes]
    if sample and len(out) > sample:
        out = random.Random(seed).sample(out, sample)
    return out


def top_chunk_reqs(n, modes=(0, 2), prefix='', sample=None, seed=1):
    out = [req('file', prefix + s, m, name='f.bib') for s in chunks(TOPCHUNKS, n) for m in modes]
    if sample and len(out) > sample:
        out = random.Random(seed).sample(out, sample)
    return out


ODDFRAMES = ['%s@a{k}', '@a%s{k}', '@a{%s k}', '@a{k%s}', '@a{k, %st = 1}', '@a{k, t%s = 1}', '@a{k, t =%s 1}', '@a{k, t = 1%s}', '@a{k, t = {%s}}', '@a{k, t = "%s"}',
             '@a{k, t = {x%sy}}', '@a{k, t = {$%s$}}', '@a{k, t = {\\%s}}', '@a{k, t = {\\foo%s}}', "@a{k, t = {\\'%s}}", '@a{k, t = {\\c %s}}', '@a{k} %% %s\n@b{l}', '@a{k}%s', '@%sa{k}',
             '@a{k, t = x%s}', '@a{k, t = {\\url{%s}}}', '@a{k, url = "%s"}', '@a{k, url = {http%s}}', '@a{k, t = {a} %s# {b}}', '@string%s{s = {v}}', '@string{s%s = {v}}', '@preamble{%s"p"}', '%s', ' %s',
             "@a{k, t = {\\'%se}}", '@a{k, t = {\\c%se}}', '@a{k} %%x%s', '%%%s', '@a{k, t = {\\%sx}}', "@a{k, t = {\\'{%s}}}", '@a{k, t = {\\c{e%s}}}', '@a{k, t = {$a%s', '@a{k, t = {a%s', '@a{k, %s', '@a%s', '@a{k, t = "\\\\%s"}', '%%c%s\n@a{k}']


def odd_reqs(modes=(0, 2), op='file'):
    """Characters from outside the usual set in every kind of place."""
    x = dict(name='f.bib') if op == 'file' else {}
    out = [req(op, (f % c).replace('%%', '%'), m, **x) for f in ODDFRAMES for c in gen.ODDCH + ['\x00', '\t', '\r', 'é', '😀', '@', '%'] for m in modes]
    # bytes that are not UTF-8
    out += [req(op, (f % '<>').replace('%%', '%').encode().replace(b'<>', c), m, **x) for f in ODDFRAMES for c in (b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xf0\x9f', b'\xc0\x80', b'\x80') for m in modes]
    return out


# every character of ASCII in every kind of place, in the middle and as the last one
BYTEFRAMES = ['%s', '@%s', '@a%s', '@a{%s', '@a{k%s', '@a{1%s', '@a{k,%s', '@a{k,t%s', '@a{k,t=%s', '@a{k,t=x%s', '@a{k,t=1%s', '@a{k,t={%s', '@a{k,t="%s', '@a{k,t={{%s', '@a{k,t={\\%s', "@a{k,t={\\'%s", "@a{k,t={\\'{%s", "@a{k,t={\\'{e%s",
              '@a{k,t={\\c%s', '@a{k,t={\\ca%s', '@a{k,t={\\c{%s', '@a{k,t={\\c %s', '@a{k,t={\\a%s', '@a{k,t={$%s', '@a{k,t={$\\%s', '@a{k,t={\\url{%s', '@a{k,t={\\url%s', '@a{k,url="%s', '@a{k,t={x}%s', '@a{k,t={x},%s', '@a{k}%s', '@a{k}%%%s', '@string{s%s', '@preamble{%s']
BYTEENDS = {'{': '}', '"': '"'}


def byte_reqs(op='file', modes=(2,), frames=BYTEFRAMES, every=1, seed=0, whole=True):
    x = dict(name='f.bib') if op == 'file' else {}
    r = random.Random(seed)
    out = []
    for f in frames:
        f = f.replace('%%', '%')
        i = f.rindex('%s')
        p = f[:i]
        # closers for what the frame has open
        ends = ['']
        if whole:
            o = re.sub(r'\\.', lambda m: '', p)
            o = [c for c in (o if '%' not in o else '') if c in '{"$']
            st = []
            for c in o:
                if st and st[-1] == c and c in '"$':
                    st.pop()
                else:
                    st.append(c)
            ends.append(''.join({'{': '}'}.get(c, c) for c in reversed(st)))
            ends.append(' = 1' + ends[-1] if p[-1:] in ',t' else 'e' + ends[-1])
        for c in range(128):
            for e in ends:
                for m in modes:
                    if every == 1 or r.random() * every < 1:
                        out.append(req(op, p + chr(c) + e, m, **x))
    return out


# ways for a declaration to be of some shape, without its closing delimiter
SHAPES = ['@a%sk', '@a%sk,', '@a%sk, l', '@a%sk, l,', '@a%s', '@a%sk, t = 1', '@a%sk, t = {v},', '@a%st = "v"', '@a%st = n, u = 1', '@a%sk, l, t = {v}, m', '@string%ss = 1', '@string%ss = {v}', '@string%ss = {v},',
          '@preamble%s"p"', '@preamble%s{p} # q', '@a%sk, t = ', '@a%sk, t', '@string%s', '@preamble%s', '@a%sk t', '@a%sk, t = 1 # ', '@string%ss = 1, u = 2']
CLOSERS = ['}', ')', '', ']', '})', ')}', ',', '>', '"', ' )', '\n}', '} }', '),)', '},', '}}']


def shape_reqs(modes=(0, 2)):
    out = []
    for i, (o, f, c, a) in enumerate(itertools.product('{(["', SHAPES, CLOSERS, ('', '\n@z{last}', ' x'))):
        out.append(req('file', f % o + c + a, modes[i % len(modes)], name='f.bib'))
        if i % 40 == 0:  # far from the beginning
            out.append(req('file', '@b{l%d, u = {v}}\n' % i * 30 + f % o + c + a, modes[i // 40 % len(modes)], name='f.bib'))
    return out


# what may be left over at top level
STRAYS = [',', ',,', '=', '#', '{', '}', '(', ')', '"', '"x"', '{x}', '12', 'k', 'k, ', 't = 1', '@', '@ a{k}', '@1', ';', ']', '~', '\\', "'", '$', '\x00', '-', 'a@b{k}', '}@b{k}', '=1', '# {x}', ',@b{l}', '%', '{}', '()']


def stray_reqs(seed, n, modes=(0, 2, 18)):
    """Complete declarations, on one line or more, then something stray."""
    r = random.Random(seed * 97)
    ds = ['@a{k}', '@a{k, t = {v}}', '@string{s = "v"}', '@preamble{"p"}', '@b(l, u = 1)', '@string(s = 1)', '@a{}', '@a{k},']
    out = []
    for k in range(3):
        for pre in itertools.product(ds[:4] if k > 1 else ds, repeat=k):
            for x in STRAYS:
                if k < 2 or r.random() < .1:
                    out.append(''.join(pre) + r.choice(['', ' ', '\n']) + x + r.choice(['', ' ', '\n', '\n@c{last}', ' @c{last}']))
    while len(out) < n:
        out.append(r.choice(['', ' ', '\n']).join(r.choice(ds) for _ in range(r.choice([3, 3, 4, 5, 8, 12]))) + r.choice(['', ' ', '\n']) + r.choice(STRAYS) + r.choice(['', '\n', '\n@c{last}', ' @c{last}', ' ' + r.choice(STRAYS)]))
    r.shuffle(out)
    return [req('file', d, modes[i % len(modes)], name='f.bib') for i, d in enumerate(out[:n])]


FAULTS = ['@a{k, 1 \0= {x}}', '@a{k, 1x\0 = 1}', '@a{k, t \0 {x}}', '@a{k, t = \xff}', '@a{k, t = {\\q9 \0}}', '@string{a \0}', '@a{k, t = "x\0', '@preamble{\0}', '}', '@a{k, t = {x}', '@a{k = }', ') \ufeff',
          '@a{k, t = {\\\'9}}', '@a{k, _t = {$}', '@a(k}', '@a{k, t = x # }', 'stray', '@', '=', '@a{l, t = {fine}}', '@a{k, 1 = {\\9}}']


def fault_reqs(seed, n):
    """Many mistakes in one source, found by the scanner and by the parser."""
    r = random.Random(seed * 101)
    out = []
    for i in range(n):
        fs = r.sample(FAULTS, r.choice([1, 2, 4])) if i % 3 else FAULTS
        d = r.choice(['', '@a{k}']) + ''.join(r.choice(fs) + r.choice(['\n', '\n', ' ', '']) for _ in range(r.choice([2, 5, 11, 12, 13, 20, 40])))
        out.append(req('file', d.encode('utf-8', 'surrogatepass').replace(b'\xc3\xbf', b'\xff'), r.choice([0, 2, 16, 18, 24, 26]), name='f.bib'))
    return out


def start_reqs(modes=(0, 2)):
    """Every character at the beginning, inside and at the end of a name."""
    out = []
    fs = ['@a{k, %sx = 1}', '@a{%sx = 1}', '@a{%s}', '@a{k, %s = 1}', '@a{x%s = 1}', '@string{%sx = 1}', '@string{%s = 1}', '@string{x%s = 1}', '@a{k, t = %sx}', '@a{k, t = %s}', '@a{k, t = x%s}', '@a{%sx}', '@a{x%s}',
          '@%s{k}', '@%sx{k}', '@x%s{k}', '@a{k, t = {\\%s }}', '@a{k, t = {\\%sx}}', '@a{k, t = {\\x%s}}', '@a{k, t = 1%s}', '@a{k, 1%s = 1}', '@a{1%s}', "@a{k, t = {\\%s{e}}}", '@a{k, t = {\\%s e}}', '@a%s{k}']
    cs = [chr(i) for i in range(128)] + list('éŞ中Ωж²½ªºµ٣')
    for i, (f, c) in enumerate(itertools.product(fs, cs)):
        out.append(req('file', f.replace('%s', c), modes[i % len(modes)], name='f.bib'))
    return out


MATH = ['$', '\\', '\n', 'a', '}', ' ', '"']


def math_chunks(n, op='file', mode=2):
    fs = ('@a{k,t={$%s', '@a{k,t={$%s$}}', '@a{k,t="{$%s$}"}') if op == 'file' else ('={$%s', '={$%s$} a', '="$%s$"')
    x = dict(name='f.bib') if op == 'file' else {}
    return [req(op, f.replace('%s', s), mode, **x) for s in chunks(MATH, n) for f in fs]


URLPIECES = ['{', '}', 'a', '\\foo', '\\,', '$a$', '\\&', '\\\\', '{\\foo}']
URLCHUNKS = ['{', '}', '~', ',', 'a', ' ', '"', '\\%', '{}', 'http']


def url_chunks(n, seed, sample):
    fs = ('@a{k,t={\\url{%s}', '@a{k,t={\\url{%s}}}', '@a{k,t="\\href{%s}{a}"}', '@a{k,url={%s}}', '@a{k,url="%s"}', '@a{k,url={http%s}}', '@a{k,url="http%s",}')
    qs = [req('file', f.replace('%s', s), 2, name='f.bib') for s in chunks(URLCHUNKS, n) for f in fs]
    r = random.Random(seed)
    long = [req('file', r.choice(fs).replace('%s', r.choice(['', '', 'ftp://', 'https://', 'www.', 'HTTP://', 'mailto:', '/', 'doi:', '//']) + ''.join(r.choice('a~,/~,b') for _ in range(r.choice([8, 12, 20, 40, 80, 150])))), 2, name='f.bib') for _ in range(60 + sample // 50)]
    pcs = [req('file', f.replace('%s', s), 2, name='f.bib') for s in chunks(URLPIECES, 3) for f in fs[1:3]]
    return (qs if len(qs) <= sample else r.sample(qs, sample)) + (pcs if len(pcs) <= sample else r.sample(pcs, sample)) + long


ACCCHUNKS = ["\\'", '\\c', '{', '}', 'e', ' ', '1', '\\i', 'é']


def accent_chunks(n, seed, sample):
    fs = ('@a{k,t={%s', '@a{k,t={%s}}', '@a{k,t="%s"}')
    near = [req('file', f.replace('%s', b + '{' + s), 2, name='f.bib') for s in chunks(ACCCHUNKS[2:7], 3) for f in fs for b in ACCCHUNKS[:2]]
    qs = [req('file', f.replace('%s', s), 2, name='f.bib') for s in chunks(ACCCHUNKS, n) for f in fs]
    return near + qs if len(qs) <= sample else near + random.Random(seed).sample(qs, sample)


# characters at the ends of lines, in every place that may hold them
ENDCH = [chr(i) for i in range(1, 128)] + ['\u0085', '\u2028', '\u2029', '\u00a0', '\ufffd', 'é', '中', '😀', '']


def line_reqs(seed):
    fs = ['@a{k, t = {x%s\n%s y}, u = 1}\n@b{l}', '@a{k, t = "x%s\r\n%s", u = {z}}\n@b{l}', '%% x%s\n%% y%s\n@a{k}\n\n@b{l, t = {u}}', '@a{k, %% %s\n%%%s\r\nt = {\n}, u = {v}} @b{l}', '@a{k, t = {$x%s\n%s$}, u = "v"}\r\n@b{l}',
          '@a{k, t = {\\url{x%s\n%s}}, u = 1}\n@b{l}', '@preamble{"%s\n\n%s"}@a{k}\n@b{l}']
    out = []
    for i, (f, c) in enumerate(itertools.product(fs, ENDCH)):
        for d in ('', c):
            out.append(req('file', f.replace('%s', c, 1).replace('%s', d).replace('%%', '%'), (1, 3)[i % 2], name='f.bib', lc=True, pre=(0, 91)[i // 2 % 2]))
            if i % 2:
                out.append(req('file', f.replace('%s', c, 1).replace('%s', d).replace('%%', '%'), 1, name='f.bib', lc=True))
    return out


def corpus_reqs(seed, n, modes=(0, 2)):
    """Entries of the corpus file of the repository."""
    p = REPO + '/parser/testdata/vldb.bib'
    if not os.path.exists(p):
        return []
    txt = open(p, encoding='utf-8', errors='surrogateescape').read()
    parts = re.split(r'(?m)^(?=@)', txt)[1:]
    r = random.Random(seed)
    return [req('file', r.choice(parts).encode('utf-8', 'surrogateescape'), m, name='f.bib') for _ in range(n) for m in modes]


def expr_reqs(seed, n, mutated=.3):
    r = random.Random(seed * 331 + 1)
    g = Gen(seed * 37 + 5, strings=True, comments=.02)
    out = []
    while len(out) < n:
        s = g.value()
        if len(s) > 300:
            continue
        out.append(req('expr', mutate(r, s) if r.random() < mutated else s))
    return out


def wreqs(run, docs, ps, most=None, whole=None, **x):
    """Requests for documents of the writer; whole: only complete ones."""
    r = random.Random(run.seed * 59 + 3)
    docs = [d for d, ph in docs if whole is None or whole == (ph in ('top', 'end'))]
    if most and len(docs) > most:
        docs = r.sample(docs, most)
    return [req('file', d, (2 if ps else 0) + r.choice((0, 1, 4, 8)), name='f.bib', **x) for d in docs]


def word_reqs(run, kinds, modes=(0, 2), most=9000, **x):
    """Every word in every frame; other cases of the names now and then."""
    r = random.Random(run.seed * 83 + 7)
    ds = list(dict.fromkeys(words.documents(kinds)))
    if 'name' in kinds:
        ds += r.sample(list(words.documents(['name'], cased=True)), 1000 if run.quick else 8000)
    if run.quick and len(ds) > most:
        ds = r.sample(ds, most)
    n = r.randrange(2)
    return [req('file', d, m, name='f.bib', **x) for i, d in enumerate(ds) for m in ((modes[(i + n) % len(modes)],) if run.quick else modes)]


def repeat_reqs(kinds, modes=(0, 2), **x):
    return [req('file', d, modes[i % len(modes)], name='f.bib', **x) for i, d in enumerate(words.repeated(kinds))]


def small_reqs(seed, most, gens=('tiny', 'counted', 'operands', 'late'), modes=(0, 2), op='file', **x):
    """Entries of two names, counts of keys and fields, short concatenations, and what is special late in something long."""
    ds = [d for g in gens for d in getattr(words, g)()]
    r = random.Random(seed)
    if len(ds) > most:
        ds = r.sample(ds, most)
    return [req(op, d, modes[i % len(modes)], **dict(x, name='f.bib') if op == 'file' else {}) for i, d in enumerate(ds)]


def size_reqs(modes=(0, 2), op='file', **x):
    return [req(op, d, modes[i % len(modes)], **dict(x, name='f.bib') if op == 'file' else {}) for n in words.sizes() for i, d in enumerate(words.sized(n)) if len(d) < 20000]


def parse_check(parts):
    def f(run):
        for name, reqs in parts(run):
            mod = 'TraceParse'
            if isinstance(name, tuple):
                name, mod = name
            run.batch(Batch(name, mod, reqs, per=2 if name in ('past the limits', 'long files') else 400))
        return run.finish(explanation='each trace is one call of the real parser; TraceParse runs the machine of '
                          'Parser.tla on the same source and compares every projection', assumptions=ASSUME)
    return f


ASSUME = ['the driver encodes trees faithfully (harness/enc.go)', 'TLC evaluates the specification correctly']


def c03(run):
    s, k = run.seed, 1 if run.quick else 12
    run.model('MCSum', env=dict(LEN='2', LENB='1' if run.quick else '2'))
    yield 'documents', doc_reqs(s, 1800 * k)
    yield 'documents, raw strings', doc_reqs(s + 1, 500 * k, modes=(0,), strings=False)
    yield 'writer: declarations', wreqs(run, run.written('decls', 7 if run.quick else 9), 1, 3000 * k)
    yield 'writer: long documents', wreqs(run, run.written('all', 40, 8, 1, 600 * k), 1) + wreqs(run, run.written('all', 40, 8, 0, 400 * k), 0)
    yield 'corpus entries', corpus_reqs(s, 40 * k)
    yield 'past the limits', many(run, lambda i: huge_reqs(s + i, ('fields', 'keys', 'decls', 'names', 'operands', 'blanks', 'groups', 'vast name', 'vast space', 'vast comment', 'vast word')))
    yield 'names', start_reqs()
    yield ('long files', 'TraceSum'), many(run, lambda i: sum_reqs(s + 11 * i, 10))
    yield 'declaration chunks', top_chunk_reqs(3 if run.quick else 4, sample=4000 * k, seed=s)
    yield 'field chunks', top_chunk_reqs(3 if run.quick else 4, prefix='@a{', sample=3000 * k, seed=s)
    yield 'words', word_reqs(run, ['name', 'key'])
    yield 'words elsewhere', word_reqs(run, ['comment', 'text', 'bare'], most=1500)
    yield 'sizes', size_reqs()
    yield 'repeated', repeat_reqs(['decls'])
    yield 'small', small_reqs(s, 1500 * k, ('tiny', 'counted')) + small_reqs(s, 2500 * k, ('operands', 'late'))


def c04(run):
    s, k = run.seed, 1 if run.quick else 12
    yield 'raw documents', doc_reqs(s + 2, 1800 * k, modes=(0,), strings=False)
    yield 'documents', doc_reqs(s + 3, 600 * k, modes=(0,))
    yield 'names', start_reqs((0,))
    yield 'string chunks', string_chunk_reqs(3, modes=(0,)) if run.quick else string_chunk_reqs(4, modes=(0,), sample=60000, seed=s)
    yield 'writer: raw strings', wreqs(run, run.written('raw', 5 if run.quick else 6, ps=0), 0, 3000 * k)
    yield 'writer: long documents', wreqs(run, run.written('all', 40, 6, 0, 800 * k), 0)
    yield 'corpus entries', corpus_reqs(s, 60 * k, modes=(0,))
    yield 'past the limits', many(run, lambda i: huge_reqs(s + i, ('text', 'pieces', 'long text', 'depth', 'operands', 'names', 'lines', 'blanks', 'vast word', 'vast lines', 'vast number', 'vast space', 'vast math'), modes=(0,)))
    yield ('long files', 'TraceSum'), many(run, lambda i: sum_reqs(s + 1 + 11 * i, 10, modes=(0,), strings=False))
    yield 'words', word_reqs(run, ['text'], modes=(0,))
    yield 'words as names', word_reqs(run, ['name', 'macro'], modes=(0,), most=2500)
    yield 'sizes', size_reqs((0,))
    yield 'repeated', repeat_reqs(['string', 'decls'], (0,))
    yield 'small', small_reqs(s + 1, 2000 * k, ('operands', 'late'), (0,))


def c05(run):
    s, k = run.seed, 1 if run.quick else 12
    yield 'documents', doc_reqs(s + 4, 1500 * k, modes=(2,))
    yield 'expressions', expr_reqs(s, 1200 * k)
    yield 'string chunks', string_chunk_reqs(3, modes=(2,)) if run.quick else string_chunk_reqs(4, modes=(2,), sample=60000, seed=s)
    yield 'writer: strings', wreqs(run, run.written('strings', 3 if run.quick else 5), 1, 3000 * k)
    yield 'writer: long documents', wreqs(run, run.written('all', 50, 4, 1, 800 * k), 1)
    yield 'corpus entries', corpus_reqs(s, 60 * k, modes=(2,))
    yield 'past the limits', many(run, lambda i: huge_reqs(s + i, ('text', 'pieces', 'long text', 'depth', 'operands', 'names', 'lines', 'blanks', 'vast word', 'vast lines', 'vast url', 'vast space', 'vast math'), modes=(2,)))
    yield ('long files', 'TraceSum'), many(run, lambda i: sum_reqs(s + 2 + 11 * i, 10, modes=(2,)))
    yield 'math', math_chunks(4 if run.quick else 6)
    yield 'urls', url_chunks(3 if run.quick else 5, s, 3000 * k)
    yield 'accents', accent_chunks(4 if run.quick else 5, s, 3000 * k)
    yield 'words', word_reqs(run, ['text', 'macro'], modes=(2,))
    yield 'words as names', word_reqs(run, ['name'], modes=(2,))
    yield 'sizes', size_reqs((2,))
    yield 'repeated', repeat_reqs(['string', 'decls'], (2,))
    yield 'small', small_reqs(s + 2, 2500 * k, ('operands', 'late'), (2,))


def c06(run):
    s, k = run.seed, 1 if run.quick else 12
    yield 'mutated documents', mut_reqs(s, 1500 * k)
    yield 'truncations', prefix_reqs(s, 1200 * k)
    yield 'odd characters', odd_reqs()
    yield 'every character', byte_reqs(every=3 if run.quick else 1, modes=(2,) if run.quick else (0, 2), seed=s)
    yield 'single edits', subst_reqs(s, 1500 * k)
    yield 'delimiters', shape_reqs()
    yield 'left over', stray_reqs(s, 1200 * k)
    yield 'names', start_reqs()
    yield 'many mistakes', fault_reqs(s, 250 * k)
    yield 'accents', accent_chunks(4 if run.quick else 5, s + 1, 2500 * k)
    yield 'math', math_chunks(3 if run.quick else 5)
    yield ('long files', 'TraceSum'), many(run, lambda i: sum_reqs(s + 3 + 11 * i, 10, bad=True))
    yield 'declaration chunks', top_chunk_reqs(3 if run.quick else 4, sample=3000 * k, seed=s + 1)
    yield 'string chunks', string_chunk_reqs(3 if run.quick else 4, sample=3000 * k, seed=s + 1)
    yield 'expressions', expr_reqs(s + 1, 600 * k, mutated=.8)
    yield 'documents', doc_reqs(s + 5, 300 * k)
    yield 'writer: cut off', wreqs(run, run.written('all', 30, 4, 1, 1200 * k), 1, whole=False) + wreqs(run, run.written('all', 30, 4, 0, 800 * k), 0, whole=False)
    yield 'writer: declarations, cut off', wreqs(run, run.written('decls', 6 if run.quick else 8), 1, 2000 * k, whole=False)
    yield 'past the limits', many(run, lambda i: huge_reqs(s + i, gen.HUGE + gen.VAST, bad=1, modes=(2 * (i % 2),)))
    # the entry points that return a tree or an error
    rd, pk = [], []
    for q in mut_reqs(s + 6, 500 * k):
        rd.append(dict(q, op='read', x=dict(sizes=[600], end='eof', name='f.bib')))
        if len(base64.b64decode(q['b'])) < 200:
            pk.append(q['b'])
    yield ('entry points', 'TraceSource'), [x for x in rd if len(base64.b64decode(x['b'])) <= 500]
    r = random.Random(s)
    yield ('packages', 'TraceSource'), [req('package', b'', r.choice((0, 2)), pool=[r.choice(pk), b64('@a{k}'), r.choice(pk), b64('@b{l')], paths=[r.randrange(1, 5) for _ in range(r.choice([1, 3, 5]))])
                                        for _ in range(100 * k)]
    yield 'words', word_reqs(run, ['bare', 'key'], most=4000)
    yield 'words as names', word_reqs(run, ['name', 'macro', 'text'], most=2500)
    yield 'sizes', size_reqs()
    yield 'repeated', repeat_reqs(['string', 'decls', 'comments'])
    yield 'small', small_reqs(s + 3, 1000 * k)


def c07(run):
    s, k = run.seed, 1 if run.quick else 12
    r = random.Random(s)
    g = Gen(s * 41 + 2, strings=True, comments=.05)
    tails = ['@', '@a', '@a{', '@a{k,', '@a{k,x', '@a{k,x=', '@a{k,x=}', '@a{k,x={', '@a{k,x="', '@a{k,x={y}', '@a{k x y z',
             '}', ')', 'x', '1', '=', '#', '"', '{', '@string', '@string{', '@string{a', '@string{a=', '@string{a={b}', '@preamble',
             '@preamble{', '@preamble{"x', '@preamble{x #', '@a{k,x={$y}}', '@a{k,x={\\}}', '@a{k,x={\\\'1}}', '\x00', '@a{k,x={\x00}}',
             '@a(k,x={y}}', '@a{k,x={y})', '@a{k,-x={y}}', '@a{k,1x={y}}', '@string(a={b}}', '@1{', '@é', '@a{k,x==', '@a{k,x=1 2}',
             '@comment{x}', '@a{k,x=#}', '@a{k,x={y}#}', '@a{k,x=@}', '@string{a={b},,}', '@a[k]', '@a{,,}', '@a{k;;x={', '@a{k,url=\\url{']
    out = []
    while len(out) < 2400 * k:
        d = g.doc(r.choice([0, 1, 1, 2, 3, 5]))
        if len(d) > 350:
            continue
        n = r.choice([1, 1, 2, 5, 30])
        t = r.choice(tails)
        rest = ''.join(r.choice(tails) + r.choice(['', ' ', '\n']) for _ in range(n - 1))
        rest += r.choice(['', '', g.doc(1), '\n@a{k,}'])
        if len(rest) > 250:
            continue
        out.append(req('file', d + r.choice(['', '\n', ' ']) + t + r.choice(['', ' ', '\n']) + rest, r.randrange(32), name='f.bib'))
    bad = ['x', '@a{k,x=}', '@string{a}', '@preamble{}', '}', '@a{k,x={$y}}', '@1{', '@a k', '@a{k x}']
    out += [req('file', '\n'.join(['@a%d{k%d}' % (i, i) for i in range(n)] + [(bad[j % len(bad)] if t is None else t) for j in range(m)] + e), md, name='f.bib')
            for n in (0, 1, 2, 3, 5, 9, 11, 12, 13, 16, 24, 25, 40) for m in (9, 10, 11, 12, 20) for t in (None, '@string{a}') for e in ([], ['@b{l}']) for md in r.sample((0, 2, 16, 18), 2)]
    inner = [['x =,'], ['x = {y} z'], ['x = {$y}'], ['= {y},'], ['1,'], ["x = {\\'1},"], ['#'], ['x = 1 # ,'], ['x = {\\q} # y,']]
    out += [req('file', '\n'.join(['@a{k%d}' % i for i in range(n)] + ['@b{l,'] + b * m + ['}']), md, name='f.bib') for n in (1, 5, 12, 13, 24, 40) for b in inner for m in (12, 25) for md in (0, 2)]
    out += [req('file', '\n'.join(['@a{k}'] * n + b * 13), md, name='f.bib') for n in (150, 300) for b in (['@string{a}'], ['x'], ['@a{k,x=}']) for md in (0, 2)]
    yield 'valid prefix, bad rest', out
    yield 'writer: cut off', wreqs(run, run.written('all', 40, 4, 1, 1200 * k), 1, whole=False) + wreqs(run, run.written('all', 40, 4, 0, 800 * k), 0, whole=False)
    yield 'mutated documents', mut_reqs(s + 2, 1500 * k, modes=tuple(range(32)))
    yield 'truncations', prefix_reqs(s + 2, 1000 * k, modes=(0, 18))
    yield 'left over', stray_reqs(s + 1, 2000 * k)
    yield 'delimiters', shape_reqs()
    yield ('long files', 'TraceSum'), many(run, lambda i: sum_reqs(s + 4 + 11 * i, 10, bad=True, comments=.03))
    yield 'past the limits', many(run, lambda i: [dict(q, b=b64(base64.b64decode(q['b']).decode() + '\n' + r.choice(tails) + '\n' + 'x @a{\n@b{k,=\n}' * r.choice([1, 4, 150]))) for q in huge_reqs(s + i, ('fields', 'decls', 'text', 'comments', 'lines'), modes=(0, 18))] + huge_reqs(s + i, ('decls', 'names', 'text', 'operands'), bad=1))
    yield 'words', word_reqs(run, ['bare'], most=2600)
    yield 'sizes', size_reqs()
    yield 'repeated', repeat_reqs(['decls'], (0, 2, 18))


def c08(run):
    s, k = run.seed, 1 if run.quick else 12
    yield 'commented documents', doc_reqs(s + 6, 2400 * k, comments=.35)
    yield 'dense comments', doc_reqs(s + 7, 600 * k, comments=.6, maxlen=900)
    ch = ['%a\n', '%b\r\n', '\n', ' ', '%\n', 'k,', 't={v},', '@b{', '}']
    seqs = list(chunks(ch, 4 if run.quick else 5))
    r = random.Random(s)
    out = [req('file', '@a{' + q + '}', r.choice((0, 2)), name='f.bib') for q in seqs]
    out += [req('file', q + '@a{k}' + q2, r.choice((0, 2)), name='f.bib') for q in chunks(['%a\n', '\n', ' ', '%b\n', '@c{}', '@string{s={v}}', '@preamble{"p"}'], 4)
            for q2 in ('', '%e', '\n%e\n')]
    ends = ['%e', '%', '%e\r', '%\r', '%e\r\r', '%e\t', '% ', '%e\n', '%e\r\n', '%e\n\r', '%é', '%😀', '%e%f', '%\u2028x', '%\x0bx', '%e\r%f', '%a\n%b\r', '%a\r\n%b', '%\\', '%"', '%{', '%@a{', '%\x85', '%a\n\n%b', '%a\n \t%b\n']
    out += [req('file', b + e, m, name='f.bib') for b in ('', '\n', ' ', '@a{k}', '@a{k}\n', '@a{k, t = {%}} ', '@string{s = "v"}', '%x\n', '%x\n\n', '@a{k,\n%c\n t={v} %d\n}') for e in ends for m in (0, 2)]
    out += [req('file', f % e, m, name='f.bib') for e in ends for m in (0, 2) for f in ('@a{k, %s\n}', '@a{%s\nk}', '%s\n@a{k}', '@a{k, t = %s\n {v}, %s\n u = 1}'.replace('%s', '%s', 1).replace(', %s\n u', ', u'), '@string{%s\ns = {v}}', '@preamble{"p"%s\n}', '@a%s\n{k}')]
    for ps in (1, 0):
        yield 'writer: layout', wreqs(run, run.written('layout', 6 if run.quick else 8, 2 if run.quick else 3, ps), ps, 2000 * k)
    yield 'writer: long documents', wreqs(run, run.written('all', 40, 14, 1, 500 * k), 1) + wreqs(run, run.written('all', 40, 14, 0, 400 * k), 0)
    yield 'past the limits', many(run, lambda i: huge_reqs(s + i, ('comments', 'groups', 'long comment', 'lines', 'text', 'vast comment', 'vast space'), modes=(2 * (i % 2),)))
    yield ('long files', 'TraceSum'), many(run, lambda i: sum_reqs(s + 5 + 11 * i, 10, comments=.4))
    yield 'comment chunks', out if not run.quick else r.sample(out[:-600], 3600) + out[-600:]
    yield 'words', word_reqs(run, ['comment'])
    yield 'words elsewhere', word_reqs(run, ['name', 'text', 'bare'], most=1000)
    yield 'sizes', size_reqs()
    yield 'repeated', repeat_reqs(['comments', 'decls'])


def c09(run):
    s, k = run.seed, 1 if run.quick else 12
    yield 'documents', doc_reqs(s + 8, 2000 * k, lc=True, pre=True, comments=.15)
    yield 'raw documents', doc_reqs(s + 9, 400 * k, modes=(0,), strings=False, lc=True, pre=True)
    yield 'writer: long documents', wreqs(run, run.written('all', 40, 6, 1, 500 * k), 1, whole=True, lc=True) + wreqs(run, run.written('all', 40, 6, 0, 300 * k), 0, whole=True, lc=True)
    yield 'expressions', expr_reqs(s + 3, 1000 * k, mutated=.05)
    yield 'string chunks', string_chunk_reqs(3, sample=2500 * k, seed=s + 2, modes=(2,))
    yield 'urls', url_chunks(3 if run.quick else 4, s + 2, 1000 * k)
    yield 'ends of lines', line_reqs(s)
    yield 'past the limits', many(run, lambda i: huge_reqs(s + i, ('text', 'pieces', 'long text', 'depth', 'comments', 'operands', 'names', 'lines', 'blanks', 'vast lines', 'vast space', 'vast word'), modes=(2 * (i % 2),), lc=True, pre=(57, 0, 70000)[i % 3]))
    yield ('long files', 'TraceSum'), many(run, lambda i: sum_reqs(s + 6 + 11 * i, 10, comments=.2))
    yield 'words', word_reqs(run, ['text', 'macro'], modes=(3,), lc=True, pre=7)
    yield 'words elsewhere', word_reqs(run, ['comment', 'name', 'key'], modes=(1, 3), most=2500, lc=True)
    yield 'sizes', size_reqs((1, 3), lc=True)
    yield 'repeated', repeat_reqs(['string', 'decls', 'comments'], (1, 3), lc=True)


CHECKS = {p: parse_check(f) for p, f in dict(C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09).items()}


# ---------------------------------------------------------------- C02
def fragment(g, r):
    k = r.random()
    if k < .35:
        return g.doc(r.choice([1, 1, 2]))
    if k < .5:
        return g.value()
    if k < .7:
        return '=' + g.string()
    return ''.join(r.choice(gen.HOT + gen.TOPCHUNKS + gen.STRCHUNKS + ['={', '="', '= {\n', '\\c  x', '\\cite', '$a$', 'K1', '12a', '-']) for _ in range(r.choice([3, 6, 12, 25])))


def scan_reqs(seed, n, reuse=False, maxlen=300):
    r = random.Random(seed * 613 + 3)
    gs = [Gen(seed * 43 + 1, strings=True), Gen(seed * 47 + 1, strings=False)]
    out = []
    priors = ['={a{b', '="x', '="a{b', '={', '@a{k,t={x', '={$', 'k=', '#', '\ufeff{', '="}', '@a(', '={a}', '= "b" # {', '\x00', '=']
    while len(out) < n:
        s = fragment(r.choice(gs), r)
        if len(s) > maxlen:
            continue
        b = mutate(r, s) if r.random() < .4 else s.encode('utf-8', 'surrogatepass')
        x = {}
        if reuse:
            p = r.choice(priors) if r.random() < .7 else fragment(gs[0], r)
            x = dict(prior=base64.b64encode(p.encode('utf-8', 'surrogatepass')).decode(), steps=r.choice([1, 2, 3, 4, 5, 6, 9, 20]))
        out.append(req('scan', b, r.choice((0, 1, 2, 2, 3)), **x))
    return out


def scan_prefixes(seed, n):
    """Every truncation of some fragments."""
    r = random.Random(seed * 617)
    g = Gen(seed * 53, strings=True)
    out = []
    fixed = ['={\\cab x', "={\\cc{x}}", '={\\url{http://a}}', "={\\'  e}", "={\\'{e}}", '="{a}$x\\$y$ {\\& b}"', '= {é😀}', '@StrInG{k', '= 12ab', '% cé\r\n', '={\\c  c}', '={\\textbf{a b}}']
    while len(out) < n:
        b = (fixed.pop() if fixed else '=' + g.string() if r.random() < .7 else fragment(g, r)).encode('utf-8', 'surrogatepass')
        if len(b) <= 80:
            out += [req('scan', b[:i], 2 if b[:1] == b'=' else r.choice((0, 2))) for i in range(len(b))]
    return out[:n]


SCANCHUNKS = ['a', '1', '-', ' ', ',', '~', '$', '\\', '{', '}', '"', "'", 'c', '%', '\n', '@a', '=', '#', '(', 'é']


def c02(run):
    s, k = run.seed, 1 if run.quick else 12
    run.batch(Batch('random text', 'TraceScan', scan_reqs(s, 2500 * k)))
    run.batch(Batch('odd characters', 'TraceScan', odd_reqs(op='scan')))
    run.batch(Batch('every character', 'TraceScan', byte_reqs('scan', modes=(2,) if run.quick else (0, 2))))
    run.batch(Batch('truncations', 'TraceScan', scan_prefixes(s, 1500 * k)))
    run.batch(Batch('math', 'TraceScan', math_chunks(4 if run.quick else 6, 'scan')))
    run.batch(Batch('scanner used before', 'TraceScan', scan_reqs(s + 1, 1500 * k, reuse=True)))
    ex = [req('scan', p + q, m) for p in ('', '={', '="', '="{') for q in chunks(SCANCHUNKS, 2) for m in ((2,) if p else (0, 2))]
    run.batch(Batch('all chunk pairs', 'TraceScan', ex))
    ex = [req('scan', p + q, 2) for p in ('={', '="') for q in chunks(STRCHUNKS, 3 if run.quick else 4)]
    ex += [req('scan', '=' + d + q + e, 0) for d, e in ('""', '{}') for q in chunks(['{', '}', '"', 'a', '\\', '\n', '$', '%'], 4 if run.quick else 5)]
    if run.quick:
        ex = random.Random(s).sample(ex, 6000)
    run.batch(Batch('string chunks', 'TraceScan', ex))
    run.batch(Batch('words', 'TraceScan', [dict(q, op='scan', x={}) for q in word_reqs(run, ['bare', 'text', 'macro', 'comment'], most=16000) + word_reqs(run, ['name', 'key'], most=1500)]))
    run.batch(Batch('sizes', 'TraceScan', size_reqs(op='scan')))
    run.batch(Batch('late', 'TraceScan', small_reqs(s, 1500 * k, ('late',), op='scan')))
    run.batch(Batch('corpus entries', 'TraceScan', [dict(q, op='scan', x={}) for q in corpus_reqs(s, 12 * k)]))
    return run.finish(explanation='each trace is the token stream of one real scanner', assumptions=ASSUME)


CHECKS['C02'] = c02


# ------------------------------------------------------- trees: C11 - C15
import trees
from trees import Trees, Names, N


def treq(op, tree, **x):
    return dict(op=op, x=dict(tree=tree, **x))


ANSWERS = ['go'] * 12 + ['skip', 'skip', 'skip', 'stop', 'go!', 'skip!', 'stop!']


def c14(run):
    s, k = run.seed, 1 if run.quick else 12
    r = random.Random(s)
    t = Trees(s)
    g = Gen(s * 3, comments=.02)
    out = []
    for i in range(2500 * k):
        p = r.random()
        ans = [] if p < .3 else [r.choice(ANSWERS) for _ in range(r.choice([2, 5, 10, 30, 60]))]
        if p > .85:
            ans = [r.choice(['go', 'go', 'go', 'skip']) for _ in range(80)]
        if r.random() < .8:
            tree = t.any()
            out.append(treq('walk', trees.share(r, tree) if r.random() < .3 else tree, answers=ans, err=r.choice(ERRS)))
        else:
            out.append(req('walk', g.doc(), r.choice((0, 2)), answers=ans, err=r.choice(ERRS)))
    run.batch(Batch('random trees and answers', 'TraceWalk', out))
    out = []
    for kd in trees.LARGE:
        for _ in range(3 * k):
            tree, n = t.large(kd), r.choice([10, 100, 300])
            out += [treq('walk', tree), treq('walk', tree, answers=['go'] * n + [r.choice(ANSWERS[12:])], err=r.choice(ERRS)), treq('walk', tree, answers=[r.choice(['go', 'go', 'go', 'skip']) for _ in range(n)])]
    run.batch(Batch('large trees', 'TraceWalk', out, per=20))
    # every answer at every call of small trees, one at a time and in pairs
    small = [N('File', 'f', [N('BibDecl', 'a', [N('TagStmt', 'x', [N('Parsed', '{', [N('Text', 'a'), N('Parsed', '{', [N('Comma')]), N('Macro', 'm', [N('Text', 'u')])])]),
                                                N('TagStmt', 'y', [N('Concat', '', [N('Ident', 'i'), N('Number', '1')])])]),
                             N('AbbrevDecl', '', [N('TagStmt', 'z', [N('Unparsed', 'q')])]), N('PreambleDecl', '', [N('Parsed', '"', [])])]),
             N('TagStmt', 'x', [N('Authors', '', [N('Author', '', [N('Text', 'a'), N('nil'), N('Text', 'b'), N('Text', '')]), N('Author', '', [N('nil')] * 4)])]),
             N('Package', '', [N('File', 'a', [N('BadDecl')]), N('File', 'b', []), N('File', 'c', [N('BibDecl', 't', [N('TagStmt', 'x', [N('BadExpr')])])])]),
             N('Parsed', '{', [N('Accent', 'o', num=34), N('Escaped', '&'), N('Hyphen'), N('Math', 'x'), N('NBSP'), N('Space')])]
    ex = []
    for tree in small:
        calls = 2 * count(tree)
        for i in range(calls):
            for a in ('skip', 'stop', 'go!', 'skip!', 'stop!'):
                ex.append(treq('walk', tree, answers=['go'] * i + [a], err=r.choice(ERRS)))
        for i in range(calls):
            for j in range(i + 1, calls):
                for a, b in ((('skip', 'skip'), ('skip', 'go!')) if run.quick else itertools.product(('skip',), ('skip', 'stop', 'go!', 'skip!', 'stop!'))):
                    ex.append(treq('walk', tree, answers=['go'] * i + [a] + ['go'] * (j - i - 1) + [b]))
    run.batch(Batch('every answer at every call', 'TraceWalk', ex))
    out = []
    for w in words.vocabulary():
        x = N('Text', w)
        nil, e = N('nil'), N('Text', '')
        out += [treq('walk', a, answers=['go'] * r.choice([0, 3, 40])) for a in (
            N('Authors', '', [N('Author', '', [nil, nil, x, nil]), N('Author', '', [e, e, x, e]), N('Author', '', [x, e, e, e])]),
            N('BibDecl', w, [N('Key', w), N('TagStmt', w, [N('Ident', w)]), N('TagStmt', 'a', [N('Parsed', '{', [x, N('Macro', w, [x]), N('Math', w), N('Escaped', w)])])]),
            N('File', w, [N('AbbrevDecl', '', [N('TagStmt', w, [N('Concat', '', [N('Number', w), N('Unparsed', w)])])]), N('PreambleDecl', '', [x])]))]
    run.batch(Batch('words', 'TraceWalk', out, per=1500))
    t3 = Trees(s * 27, depth=2)
    few = [x for x in (t3.any() for _ in range(200)) if count(x) <= 9 and (x[0] != 'Package' or len(x[5]) < 4)][:10 if run.quick else 60]
    ts = small[1:3] + small[4:] + few
    bs = run.behaviours('MCWalk', 'WALK', ts, NOTGO=1 if run.quick else 2)
    run.batch(Batch('behaviours of the walk', 'TraceWalk', [treq('walk', ts[i - 1], answers=a, err=r.choice(ERRS)) for i, a in r.sample(bs, min(len(bs), 2500 * k))]))
    return run.finish(explanation='each trace is one walk of a real tree: the calls, the answers, the result', assumptions=ASSUME)


def count(t):
    return 1 + sum(count(k) for k in t[5] if k[0] not in ('nil', 'Key'))


RKINDS = ['Parsed', 'Text', 'Comma', 'Escaped', 'Hyphen', 'Math', 'NBSP', 'Space', 'Macro', 'Ident', 'Number', 'Unparsed', 'Concat', 'TagStmt', 'BibDecl', 'File',
          'AbbrevDecl', 'PreambleDecl', 'Authors', 'Author', 'BadExpr', 'BadDecl']


def c15(run):
    s, k = run.seed, 1 if run.quick else 12
    r = random.Random(s * 5)
    t = Trees(s * 7, badaccents=.02)
    g = Gen(s * 11, comments=.02)
    out = []
    for i in range(2500 * k):
        reps = []
        if r.random() < .6:
            for _ in range(r.choice([1, 1, 2, 3])):
                rp = dict(kind=r.choice(RKINDS if r.random() < .4 else RKINDS[:9]), mark=r.choice(['<m>', '<n>', '', '@']))
                if r.random() < .1:
                    rp['nil'] = True
                if r.random() < .5:
                    rp['answers'] = [r.choice(ANSWERS) for _ in range(r.choice([1, 2, 6, 20]))]
                reps.append(rp)
        fa = r.choice([0] * 6 + [1, 2, 5, 12, 40])
        if r.random() < .8:
            tree = t.parsed() if r.random() < .6 else t.any()
            if tree[0] == 'Package':
                tree = N('Package', kids=tree[5][:1])
            if r.random() < .15:
                tree = trees.share(r, tree)
            out.append(treq('render', tree, repls=reps, failat=fa, full=r.choice((0, 0, 1, 2)), err=r.choice(ERRS)))
        else:
            out.append(req('render', g.doc(), 2, repls=reps, failat=fa, err=r.choice(ERRS)))
    run.batch(Batch('random trees, replacements, failing writers', 'TraceRender', out))
    out = []
    for kd in trees.LARGE:
        for _ in range(3 * k):
            tree = t.large(kd)
            out += [treq('render', tree, repls=[], failat=f, err=r.choice(ERRS)) for f in (0, r.choice([20, 60, 150]))]
            out.append(treq('render', tree, repls=[dict(kind=r.choice(RKINDS[:9]), mark='#')], failat=0))
    run.batch(Batch('large trees', 'TraceRender', out, per=20))
    ex = [treq('render', N('Parsed', '{', [N('Space', v), N('Parsed', d, [N('Text', 'x')], num=n)], num=m)) for v in ('', ' ', '\n', '\t', '  ', '\r', '\n\n', '\u00a0', ' \n') for d in '{"' for n in (0, 1, 2, 7) for m in (0, 1)]
    lv = trees.LEAF + [N('Parsed', '{', [N('Text', 'b')], num=1), N('Macro', 'm', [N('Text', 'c')])]
    for n in (0, 1, 2):
        for xs in itertools.product(lv, repeat=n):
            for d in '{"':
                ex.append(treq('render', N('Parsed', d, xs)))
    for kd in RKINDS[:9]:
        for a in ANSWERS[11:]:
            for j in range(4):
                ex.append(treq('render', N('Parsed', '{', lv), repls=[dict(kind=kd, mark='#', answers=['go'] * j + [a])]))
        ex.append(treq('render', N('Parsed', '{', lv), repls=[dict(kind=kd, nil=True)]))
        ex.append(treq('render', N('Parsed', '{', lv), repls=[dict(kind=kd, mark='#'), dict(kind=kd, mark='@')]))
    for f in range(1, 40):
        ex += [treq('render', N('Parsed', '{', lv + [N('Ident', 'id')]), failat=f, full=u) for u in (0, 1, 2)]
    for l in lv + [N('Ident', 'id'), N('Number', '12'), N('Unparsed', 'ab'), N('Concat', '', [N('Ident', 'i'), N('Number', '1')])]:
        ex += [treq('render', x, failat=f, full=u, err=r.choice(ERRS)) for x in (l, N('Parsed', '{', [l])) for f in (1, 2, 3) for u in (1, 2)]
    run.batch(Batch('all short strings', 'TraceRender', ex))
    pool = [['Parsed', 0, '<', []], ['Text', 0, '#', ['go', 'skip']], ['Text', 0, '@', ['go'] * 6], ['Macro', 0, '', ['skip']], ['Comma', 1, '', []], ['Space', 0, '_', ['go', 'go', 'stop!']],
            ['Concat', 0, '?', []], ['Math', 0, 'M', ['stop']], ['Escaped', 0, '&', ['go!']], ['Parsed', 0, '|', ['go', 'skip', 'skip']], ['File', 0, 'F', ['skip']], ['TagStmt', 0, 'T', []]]
    ts = [N('Parsed', '{', lv), N('Parsed', '"', lv[:4] + [N('Parsed', '{', lv[3:], num=1)])] + [t.parsed() for _ in range(12 * k)] + [t.file() for _ in range(2 * k)]
    bs = run.behaviours('MCRender', 'RENDER', ts, [[a, b, trees.cp(c), d] for a, b, c, d in pool], LEN=1 if run.quick else 2)
    run.batch(Batch('behaviours of the renderer', 'TraceRender', [treq('render', ts[i - 1], failat=r.choice([0, 0, 0, 3, 8]), err=r.choice(ERRS),
                                                                       repls=[dict(kind=a, nil=bool(b), mark=''.join(map(chr, c)), answers=d) for a, b, c, d in rs])
                                                                  for i, rs in r.sample(bs, min(len(bs), 1500 * k))]))
    run.batch(Batch('words', 'TraceRender', word_trees('render', repls=[], failat=0), per=1500))
    run.batch(Batch('string sources', 'TraceRender', [dict(q, op='render', x=dict(repls=[], failat=0)) for q in string_chunk_reqs(3, modes=(2,), frames=('@a{k,t={%s}}',), sample=1500 * k, seed=s)]))
    return run.finish(explanation='each trace is one call of Biber.Render with replaced renderers and a bounded writer', assumptions=ASSUME)


def accent_req(seed, n=1):
    r = random.Random(seed)
    pairs = [[ord(a), ord(l)] for a in trees.ACC for l in gen.LETTERS]
    pairs += [[ord(a), 0] for a in trees.ACC] + [[ord(a), -2] for a in trees.ACC] + [[0, ord('a')]]
    pairs += [[r.randrange(1, 127), r.randrange(33, 127)] for _ in range(600)] + [[ord(a), ord(l)] for a in trees.ACC for l in gen.EXT + '1 -']
    return dict(op='accent', x=dict(pairs=pairs))


def word_trees(op, **x):
    out = []
    for w in words.vocabulary():
        out += [treq(op, N('Parsed', d, ks), **x) for d in '{"' for ks in (
            [N('Text', w)], [N('Text', 'a'), N('Space'), N('Text', w), N('Space'), N('Text', 'b')], [N('Macro', w)], [N('Macro', w), N('Space'), N('Text', w)], [N('Macro', w, [N('Text', 'a'), N('Comma'), N('Text', w)])],
            [N('Parsed', '{', [N('Text', w)], num=1), N('NBSP'), N('Ident', w)])]
        out += [treq(op, N('Parsed', '{', [N(kd, w), N('Text', w)]), **x) for kd in ('Math', 'Escaped', 'Ident', 'Number')]
    return out


def c13(run):
    s, k = run.seed, 1 if run.quick else 12
    r = random.Random(s * 9)
    t = Trees(s * 13, badaccents=.05)
    g = Gen(s * 15, comments=.02)
    run.batch(Batch('all accents', 'TraceAuthors', [accent_req(s)]))
    out = [treq('text', trees.share(r, t.parsed()) if r.random() < .15 else t.parsed(), failat=r.choice([0] * 5 + [1, 3, 9, 20]), err=r.choice(ERRS)) for _ in range(1800 * k)]
    out += [dict(q, op='text', x=dict(failat=0)) for q in expr_reqs(s + 9, 600 * k, mutated=.05)]
    lv = trees.LEAF + [N('Parsed', '{', [N('Text', 'b')], num=1), N('Macro', 'm', [N('Text', 'c')])]
    for n in (0, 1, 2) if run.quick else (0, 1, 2, 3):
        out += [treq('text', N('Parsed', d, xs)) for xs in itertools.product(lv, repeat=n) for d in '{"']
    out += [treq('text', N('Parsed', '{', [N('Parsed', '{', [N('Accent', l, num=ord(a))], num=1)])) for a in trees.ACC for l in gen.LETTERS]
    run.batch(Batch('text renderer', 'TraceRender', out))
    # a writer that fails at every place
    out = [treq('text', N('Parsed', '{', xs), failat=f, err=r.choice(ERRS)) for n in (1, 2) for xs in itertools.product(lv, repeat=n) for f in range(1, 5 if n == 1 else 7)]
    bare = [N(kd, '') for kd in ('Text', 'Escaped', 'Math', 'Ident', 'Number')] + [N('Macro', ''), N('Macro', '', [N('Text', '')]), N('Parsed', '{'), N('Parsed', '"')]
    out += [treq('text', N('Parsed', '{', xs), failat=f, err=r.choice(ERRS)) for n in (1, 2) for xs in itertools.product(bare, repeat=n) for f in range(0, 5)]
    out += [treq('text', x, failat=f, full=u, err=r.choice(ERRS)) for l in lv + bare for x in (l, N('Parsed', '{', [l])) for f in range(1, 4) for u in (1, 2)]
    lg = [t.large(kd) for kd in ('pieces', 'depth', 'arguments', 'operands') for _ in range(4 * k)]
    out += [treq('text', x, failat=f, err=r.choice(ERRS)) for x in lg for f in (0, r.choice([10, 20, 60, 150]))]
    run.batch(Batch('failing writers, large trees', 'TraceRender', out))
    pipes = [[['escape']], [['render']], [['escape'], ['render']], [['render'], ['escape']], [['authors', 'author'], ['escape'], ['render']], [['escape'], ['escape']]]
    out = []
    for _ in range(1200 * k):
        p = r.choice(pipes)
        if r.random() < .5:
            tt = Trees(r.random(), badaccents=.01)
            out.append(treq('resolve', tt.package(2) if r.random() < .1 else tt.bib() if r.random() < .3 else tt.parsed() if r.random() < .3 else tt.file(), pipe=p))
        else:
            out.append(req('resolve', g.doc(), r.choice((0, 2, 2, 2)), pipe=p))
    run.batch(Batch('resolvers on documents', 'TraceResolve', out))
    # an escape in every kind of place, and large trees
    esc = N('Escaped', '&')

    def inside(x):
        yield N('Parsed', '{', [x])
        yield N('Parsed', '"', [N('Text', 'a'), x])
        yield N('Parsed', '{', [N('Parsed', '{', [x, x], num=1), N('Space'), x])
    spots = list(inside(esc))
    spots += [y for x in spots[:3] for y in (N('Parsed', '{', [N('Macro', 'm', [x])]), N('Parsed', '{', [N('Macro', 'm', [N('Text', 'u'), x, N('Macro', 'n', [x])]), N('Comma')]), N('Concat', kids=[x, N('Ident', 'i')]),
                                             N('Concat', kids=[N('Number', '1'), N('Concat', kids=[x, x])]), N('Macro', 'm', [x]))]
    spots += [N('Parsed', '{', [x]) for x in spots]
    ex = []
    for x in spots:
        for p in pipes:
            ex.append(treq('resolve', x, pipe=p))
            for w in (N('TagStmt', 'title', [x]), N('BibDecl', 'a', [N('Key', 'k'), N('TagStmt', 'title', [x]), N('TagStmt', 'year', [N('Parsed', '{', [esc])])]), N('AbbrevDecl', kids=[N('TagStmt', 's', [x])]), N('PreambleDecl', kids=[x])):
                ex.append(treq('resolve', w, pipe=p))
    # documentation on every kind of node
    v = '{\\& {\\% x} \\emph{\\$ y}}'
    for d in ('%%c\n@preamble{%s}', '%%c\n@string{s = %s}', '%%c\n@a{k, t = %s}', '@a{k,\n%%c\n t = %s,\n%%d\n u = %s}', '%%c\n\n@preamble{%s}%%d', '%%c\n@preamble{%s # "\\&"}\n%%d\n@a{k,%%e\nt = %s}', '@string{%%c\n%%d\ns = %s}',
              '@preamble{%s}', '%%c\n%%d\n@a{%%e\nk,\n%%f\nt = %s}\n%%g\n@string(%%h\ns = %s)'):
        ex += [req('resolve', d.replace('%s', v).replace('%%', '%'), 2, pipe=p) for p in pipes]
    run.batch(Batch('escapes in every place', 'TraceResolve', ex))
    run.batch(Batch('large trees', 'TraceResolve', [treq('resolve', t.large(kd), pipe=p) for kd in trees.LARGE for p in pipes for _ in range(k)], per=20))
    run.batch(Batch('words', 'TraceRender', word_trees('text'), per=1500))
    out = []
    for w in words.vocabulary():
        v = N('Parsed', '{', [N('Text', w), N('Space'), N('Macro', w, [N('Text', 'a'), N('Comma')]), N('Escaped', '%'), N('Parsed', '{', [N('Macro', w), N('NBSP'), N('Hyphen')], num=1)])
        for x in (v, N('BibDecl', w, [N('Key', w), N('TagStmt', w, [v])]), N('File', w, [N('AbbrevDecl', '', [N('TagStmt', w, [v])]), N('BibDecl', 'a', [N('Key', 'k'), N('TagStmt', w, [N('Concat', kids=[v, N('Ident', w)])])]), N('PreambleDecl', '', [v])])):
            out.append(treq('resolve', x, pipe=r.choice(pipes[:4])))
    run.batch(Batch('words in documents', 'TraceResolve', out))
    return run.finish(explanation='each trace is one rendering or resolver pipeline on a real tree', assumptions=ASSUME)


def author_reqs(seed, n):
    nm = Names(seed)
    return [req('authors', '{' + nm.list() + '}') for _ in range(n)]


def c12(run):
    s, k = run.seed, 1 if run.quick else 12
    run.batch(Batch('random author lists', 'TraceAuthors', author_reqs(s * 17, 5000 * k), per=1200))
    ws = trees.NAMEWORDS
    out = []
    for n in (1, 2, 3):
        for xs in itertools.product(ws, repeat=n):
            for gl in itertools.product(trees.NAMEGLUE, repeat=n - 1):
                out.append(''.join(a + b for a, b in zip(xs, gl + ('',))))
    if run.quick:
        out = out[:1200] + random.Random(s).sample(out, 6000)
    run.batch(Batch('all short names', 'TraceAuthors', [req('authors', '{' + x + '}') for x in out], per=1500))
    few = run.written('few', 3 if run.quick else 4, module='MCNames')
    out = few if run.quick else random.Random(s).sample(few, min(len(few), 20000))
    out = out + run.written('all', 12, num=3000 * k, module='MCNames')
    run.batch(Batch('writer: names', 'TraceAuthors', [req('authors', '{' + x + '}') for x, _ in out], per=1200))
    ps = trees.NAMEPIECES
    out = [''.join(x) for n in (1, 2, 3) for x in itertools.product(ps, repeat=n)]
    rr = random.Random(s * 5)
    out += [''.join(rr.choice(ps) for _ in range(n)) for n in (4, 5, 6, 8) for _ in range(600 * k)]
    out += [f % ''.join(x) for f in ('A %s B', 'A and %s C') for n in (1, 2) for x in itertools.product(ps, repeat=n)]
    run.batch(Batch('all short strings of pieces', 'TraceAuthors', [req('authors', '{' + x + '}') for x in out], per=1200))
    # long lists and names
    out = []
    nm = Names(s * 29)
    for _ in range(30 * k):
        n = rr.choice([6, 9, 15, 17, 20, 33] if run.quick else [6, 9, 15, 17, 20, 33, 65])
        out.append(' and '.join(rr.choice(['A', 'b C', 'D, E', 'f G, H', 'I, J, K', 'l m N o P', '{Q and R}', nm.name() or 'X']) for _ in range(n)))
        ws = [rr.choice('Ab') if rr.random() < .3 else rr.choice(['b', 'b', 'b', 'A', 'cc']) for _ in range(n)]
        i, j = sorted((rr.randrange(1, n), rr.randrange(1, n)))
        out += [' '.join(ws), ' '.join(ws[:i]) + ', ' + ' '.join(ws[i:]), ' '.join(ws[:i]) + ', ' + ' '.join(ws[i:j]) + ', ' + ' '.join(ws[j:]), 'b ' * n + 'A', 'A ' * n + 'b ' * n + 'C', 'x' * 40 * n + ' ' + 'Y' * 40 * n]
    run.batch(Batch('long lists and names', 'TraceAuthors', [req('authors', '{' + x + '}') for x in out], per=24))
    # every pattern of word case, up to 6 words and two commas
    pats = []
    for n in range(1, 6 if run.quick else 8):
        for p in itertools.product('Ab', repeat=n):
            pats.append(' '.join(p))
            for i in range(1, n):
                pats.append(' '.join(p[:i]) + ', ' + ' '.join(p[i:]))
                for j in range(i + 1, n):
                    pats.append(' '.join(p[:i]) + ', ' + ' '.join(p[i:j]) + ', ' + ' '.join(p[j:]))
    run.batch(Batch('all case patterns', 'TraceAuthors', [req('authors', '{' + x + '}') for x in pats], per=1500))
    bad = ["\\'q", "{\\'q}", "\\emph{\\'q}", "{\\emph{\\'q}}", "\\emph{a {\\'q}}", "x\\'q", "{x \\^z y}", "\\textbf{x\\cz}", "\\'{q}b", "\\emph{\\'e}", "\\emph{\\ccx{\\'e}}", "{\\emph{\\'E f}}"]
    frames = ['%s', 'A %s', '%s B', 'A b %s D', 'A, %s', '%s, A', 'A, %s, B', '%s, B, C', 'A, B, %s', 'A and %s', '%s and B', 'a %s C', 'A%s', '{A %s}', '%s others', '%s and others', 'A~%s', 'A %s and B and C, %s']
    out = []
    for w in words.vocabulary():
        if words.plain(w):
            out += [f.replace('%s', w) for f in ('%s', 'A %s', '%s B', 'A %s B', 'A %s B and C', 'A and %s', '%s and B', '%s, A', 'B, %s, A', 'B, A %s', 'A {%s} B', 'A~%s~B', '{%s}', 'b %s A', 'A and {%s}', 'A %s and others')]
            if words.MACRO.match(w):
                out += [f.replace('%s', w) for f in ('A \\%s B', '\\%s{a} B', 'A {\\%s b} C', '\\%s{and} A', 'b\\%s{C} D, E')]
    run.batch(Batch('words', 'TraceAuthors', [req('authors', '{' + x + '}') for x in dict.fromkeys(out)], per=1500))
    run.batch(Batch('accents that do not apply', 'TraceAuthors', [req('authors', '{' + f.replace('%s', b) + '}') for f in frames for b in bad]))
    t = Trees(s * 19)
    nm = Names(s * 19)
    r = random.Random(s)
    out = [treq('authors', t.parsed()) for _ in range(600 * k)]
    run.batch(Batch('random trees', 'TraceAuthors', out))
    docs = []
    for _ in range(400 * k):
        d = '@book{k, ' + ', '.join('%s = {%s}' % (r.choice(['author', 'editor', 'Author', 'title']), nm.list()) for _ in range(r.choice([1, 2]))) + '}'
        docs.append(req('resolve', d, 2, pipe=[['authors'] + r.choice([['author'], ['author', 'editor'], ['title'], []])]))
    docs += [req('resolve', '@a{k, author = {A B and C}, editor = {D, E}, title = {x}}', 2, pipe=[['authors'] + ['a%d' % i for i in range(n)] + ['editor', 'author'][:m]])
             for n in (2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65) for m in (1, 2)]
    run.batch(Batch('author resolver', 'TraceResolve', docs))
    return run.finish(explanation='each trace is one call of ExtractAuthors (or of the author resolver) on a real tree', assumptions=ASSUME)


FIELDS = ('author', 'title', 'year')


def c11(run):
    s, k = run.seed, 1 if run.quick else 12
    r = random.Random(s * 21)
    g = Gen(s * 23, comments=.03)
    t = Trees(s * 25)
    out = []
    for _ in range(1500 * k):
        d = g.doc(r.choice([1, 2, 3, 5]))
        if len(d) < 900:
            out.append(req('resolve', d, r.choice((0, 2)), pipe=[]))
    run.batch(Batch('documents', 'TraceResolve', out))
    out = []
    for _ in range(1500 * k):
        x = r.random()
        tree = t.file(names=FIELDS) if x < .4 else t.package(4, names=FIELDS) if x < .7 else t.bib(names=FIELDS) if x < .9 else t.any()
        pipe = r.choice([[], [], [['log']], [['tag', 'title', 'new']], [['tag', 'z', 'w']]])
        if pipe in ([], [['log']]) and r.random() < .3:
            tree = trees.share(r, tree, .3)
        out.append(treq('resolve', tree, pipe=pipe))
    run.batch(Batch('trees', 'TraceResolve', out))
    run.batch(Batch('repeated', 'TraceResolve', [req('resolve', d, 2 * (i % 2), pipe=[]) for i, d in enumerate(words.repeated(['decls']))]))
    run.batch(Batch('large trees', 'TraceResolve', [treq('resolve', t.large(kd), pipe=[]) for kd in ('fields', 'keys', 'decls', 'files', 'pieces', 'authors', 'package', 'file', 'packages') for _ in range(4 * k)], per=20))
    # every entry with up to 4 fields over 2 names and 2 values, with 0..2 keys
    ex = []
    fs = [N('TagStmt', a, [N('Text', b)]) for a in 'xy' for b in '12']
    for v in (N('BadExpr'), N('nil'), N('Parsed', '{'), N('Number', '1'), N('Unparsed', ''), N('Text', ''), N('Authors'), N('Ident', '')):
        for nm in ('', 'x', 'X', '1'):
            for o in ([], fs[:1], [N('TagStmt', nm, [N('Text', 'y')])]):
                for f in (o + [N('TagStmt', nm, [v])], [N('TagStmt', nm, [v])] + o):
                    ex += [treq('resolve', N('BibDecl', 'book', ks + f), pipe=[]) for ks in ([], [N('Key', 'k', num=1)], [N('Key', '')])]
    for nk in range(3):
        for n in range(4):
            for p in itertools.product(fs, repeat=n):
                ex.append(treq('resolve', N('BibDecl', 'book', [N('Key', 'k%d' % i) for i in range(nk)] + list(p)), pipe=[]))
    kinds = [N('BibDecl', 'a', [N('Key', 'p')]), N('BibDecl', 'b', [fs[0]]), N('AbbrevDecl', '', [fs[1]]), N('PreambleDecl', '', [N('Text', 'p')]), N('BadDecl')]
    for n in range(4):
        for p in itertools.product(kinds, repeat=n):
            ex.append(treq('resolve', N('File', 'f', p), pipe=[]))
    for x in [N('Text', 'a'), N('Parsed', '{'), N('TagStmt', 'a', [N('Text', 'b')]), N('AbbrevDecl', '', [fs[0]]), N('PreambleDecl', '', [N('Text', 'a')]), N('Ident', 'i'), N('Authors'), N('BadDecl'), N('BadExpr'), N('BadStmt')]:
        ex.append(treq('resolve', x, pipe=[]))
    run.batch(Batch('all small entries and files', 'TraceResolve', ex))
    # every word as a type, a name, a key and a value; entries that name each other
    out = []
    for w in words.vocabulary():
        for i, v in enumerate((N('Ident', w), N('Text', w), N('Parsed', '{', [N('Text', w)]), N('Number', '1'), N('Unparsed', 'x'))):
            out.append(treq('resolve', N('BibDecl', w if i % 2 else 'book', [N('Key', 'k' if i % 3 else w), N('TagStmt', w if i % 2 else 'title', [v]), N('TagStmt', w, [N('Ident', 'jan')])]), pipe=[]))
        for v in (N('Text', 'p'), N('Ident', 'p')):
            out.append(treq('resolve', N('File', 'f', [N('BibDecl', 'a', [N('Key', 'p'), N('TagStmt', 'title', [N('Text', 'x')])]), N('BibDecl', 'b', [N('Key', 'k'), N('TagStmt', w, [v])]), N('AbbrevDecl', '', [N('TagStmt', w, [N('Text', 'y')])])]), pipe=[]))
            out.append(treq('resolve', N('File', 'f', [N('BibDecl', w, [N('Key', 'p'), N('TagStmt', 'title', [N('Text', 'x')])]), N('BibDecl', 'b', [N('Key', 'p'), N('TagStmt', w, [N('Text', 'k')])])]), pipe=[]))
            a, b = N('BibDecl', 'a', [N('Key', 'p'), N('TagStmt', 'title', [N('Text', 'x')])]), N('BibDecl', 'b', [N('Key', 'k'), N('TagStmt', w, [v])])
            for fs in ([[a, b]], [[b], [a]], [[a], [b, b]]):
                out.append(treq('resolve', N('Package', '', [N('File', c, ks) for c, ks in zip((w, 'g'), fs)]), pipe=[]))
        if words.NAMED.match(w):
            out.append(req('resolve', '@a{p, title = {x}, %s = {y}} @string{%s = "v"} @b{k, %s = {p}, u = %s} @%s{p, %s = p}' % ((w,) * 6), 2, pipe=[['escape'], ['render']]))
    run.batch(Batch('words', 'TraceResolve', out))
    return run.finish(explanation='each trace is one call of Biber.Resolve', assumptions=ASSUME)


CHECKS.update(C11=c11, C12=c12, C13=c13, C14=c14, C15=c15)


# ---------------------------------------------------------------- C01
def total(src, modes=(2,), rep=()):
    if isinstance(src, str):
        src = src.encode('utf-8', 'surrogatepass')
    return req('total', src, 0, modes=list(modes), rep=[[base64.b64encode(c if isinstance(c, bytes) else c.encode()).decode(), n] for c, n in rep])


PLAIN = [m for m in range(32) if not m & 4]
DEEPCHUNKS = ['{', '}', '"', '(', ')', '@a', '@a{', '@a{k,t={', '@a(k', '@string{a=', '@preamble{', '@comment', '#', '{}#', '""#', '1#', 'a', ' ', '\n', '%', '%x\n', '$', '$a$',
              '\\', "\\'", '\\url{', '\\c', ',', '~', '=', 'k,', 'a=1,', 't={x}\n', ' and ', 'and,', '\x00', '\xff', '\ufeff', 'é', '{\\c c}', '{a} ', 'a{', '\\x']
OPENINGS = ['', '@a{k,t=', '@a{k,t={', '@a{k,t="', '@string{x=', '@preamble{', '@a{k,author={', '@a{k,url="', '@a{k,t={\\url{', '{', '"', '@a{', '%', '=']


def lat(c):
    return c.encode('latin-1') if '\x80' <= c <= '\xff' and c != 'é' else c.encode('utf-8')


def c01(run):
    s, k = run.seed, 1 if run.quick else 12
    r = random.Random(s * 71)
    for cs, n in (('top', 3), ('entry', 3), ('string', 3)) if run.quick else (('top', 4), ('entry', 4), ('string', 4)):
        run.model('MCParse', env=dict(SET=cs, LEN=str(n)))
    out = []
    for q in mut_reqs(s + 51, 1500 * k, modes=(2,)):
        out.append(total(base64.b64decode(q['b']), r.sample(range(32), 3)))
    for _ in range(700 * k):
        n = r.choice([0, 1, 2, 3, 5, 9, 30, 100])
        out.append(total(bytes(r.randrange(256) for _ in range(n)), r.sample(range(32), 2)))
        out.append(total(''.join(r.choice(gen.HOT + gen.STRCHUNKS + gen.TOPCHUNKS) for _ in range(n)), r.sample(range(32), 2)))
    run.batch(Batch('random bytes and mutations', 'TraceTotal', out))
    ex = []
    for p in ('', '@a{k,t={', '@a{k,t="', '@a{k,author={', '@string{s=', '@preamble{', '@a{k,url={\\url{'):
        for q in chunks(gen.STRCHUNKS + ['(', ')', '@', '#', '=', '\x00'], 2 if run.quick else 3):
            ex.append(total(p + q, (0, 2)))
    run.batch(Batch('all short continuations', 'TraceTotal', ex))
    run.batch(Batch('every character', 'TraceTotal', [total(base64.b64decode(q['b']), (0, 2) if run.quick else (0, 2, 16, 27)) for q in byte_reqs('scan', every=2 if run.quick else 1, seed=s)] +
                    [total(f % chr(c), (0, 2)) for f in ('@a{%s', '@a{%s,', '@a{%s=', '@a{%s=1', '@a{%s=1}', '@a{k,%s=1}', '@string{%s=1}', '@a{k,t=%s}', '@%s', '@%s{k}', '@a{k,t={\\c%s', '@a{k,t={\\%s') for c in range(128)]))
    cut = []
    g = Gen(s * 3 + 77, strings=True)
    while len(cut) < 1500 * k:
        d = g.doc(2).encode('utf-8', 'surrogatepass')
        if len(d) < 300:
            cut += [total(d[:i], (0, 2, 16)) for i in range(len(d))]
    run.batch(Batch('every truncation', 'TraceTotal', cut))
    deep = []
    for c in DEEPCHUNKS:
        for o in OPENINGS:
            for size in (400, 65000) if run.quick else (100, 400, 3000, 20000, 65000):
                if run.quick and size == 65000 and r.random() < .75:
                    continue
                n = max(1, (size - len(o)) // len(lat(c)))
                deep.append(total(o, (0, 2, 18) if size > 1000 else r.sample(range(32), 4), [(lat(c), n)]))
    for _ in range(150 * k):
        cs = [(lat(r.choice(DEEPCHUNKS)), r.choice([1, 2, 40, 500])) for _ in range(r.choice([2, 3, 5]))]
        deep.append(total(r.choice(OPENINGS), r.sample(PLAIN, 2), cs))
    run.batch(Batch('long and deep', 'TraceTotal', deep, limit=20))
    run.batch(Batch('words', 'TraceTotal', [total(d, r.sample(range(32), 2)) for q in (['bare', 'name', 'key'], ['text', 'macro', 'comment']) for d in r.sample(list(words.documents(q)), 1500 * k if run.quick else 8000)] +
                    [total(d, (0, 2)) for n in words.sizes() for d in words.sized(n) if len(d) < 20000]))
    # authors and renderers on the strings of the string grammar
    run.batch(Batch('short sources, machine', 'TraceParse', string_chunk_reqs(3, sample=1500 * k, seed=s) + top_chunk_reqs(3, sample=1500 * k, seed=s)))
    return run.finish(explanation='each trace is the life of one source text in all entry points', assumptions=ASSUME)


CHECKS['C01'] = c01


# ---------------------------------------------------------------- C10
def rel(kind, srcs, modes):
    bs = [base64.b64encode(x if isinstance(x, bytes) else x.encode('utf-8', 'surrogatepass')).decode() for x in srcs]
    return req('rel', b'', 0, kind=kind, srcs=bs, modes=list(modes))


TRACELESS = [m for m in range(32) if not m & 4]


def layout_groups(seed, n, strings, variants=4, maxlen=400):
    r = random.Random(seed)
    out = []
    while len(out) < n:
        c = r.randrange(1 << 40)
        srcs = []
        pcs = [0, 0, .1, .3, .5]
        for v in range(variants):
            g = Gen(c, strings=strings, comments=r.choice(pcs), layout=r.randrange(1 << 40))
            srcs.append(g.doc())
        if max(map(len, srcs)) <= maxlen:
            out.append(srcs)
    return out


def c10(run):
    s, k = run.seed, 1 if run.quick else 12
    r0 = random.Random(s * 5 + 9)
    out = [rel('layout', g, (0, 2)) for g in layout_groups(s * 3 + 1, 700 * k, True)]
    out += [rel('layout', g, (0,)) for g in layout_groups(s * 3 + 2, 300 * k, False)]
    run.batch(Batch('layouts', 'TraceRel', out, per=120))
    # every kind of white space and a comment at every token boundary
    base = [('@', 'article', '{', 'k1', ',', 'Url', '=', '{a b}', '#', 'x', ',', 'n2', '=', '12', ',', '}', '@', 'string', '(', 'q', '=', '"y"', ')', '@', 'preamble', '{', '{z}', '#', '1', '}'),
            ('@', 'a', '(', '12', ',', 'k+2', ',', 'author', '=', '"{A} and B"', ',', 'm', '=', 'jan', '#', '"x"', ')', '@', 'b', '{', 'k', '}'),
            ('@', 'a', '{', 't', '=', '{x}', '}', '@', 'c', '{', '}')]
    ex = []
    for b in base:
        seps = [i for i in range(len(b) + 1) if i == 0 or b[i - 1] != '@']
        plain = ''.join(b)
        groups = []
        for i in seps:
            for w in (' ', '\n', '\r\n', '\t', '\r', '\n\n', '%\n', '%x\n', '\n%x\n', '%x\r\n', ' %x\n\n%y\n', '%"\n', '%{\n', '%@a{\n', '%=\n'):
                groups.append(''.join(b[:i]) + w + ''.join(b[i:]))
        for j in range(0, len(groups), 12):
            ex.append(rel('layout', [plain] + groups[j:j + 12], (0, 2)))
        for old, new in (('@article', '@ARTICLE'), ('@article', '@aRTicle'), ('@string', '@STRING'), ('@preamble', '@PreAmble'), ('Url', 'URL'), ('Url', 'url'), ('n2', 'N2'),
                         ('{k1,', '(k1,'), ('12,}', '12}'), ('author', 'AUTHOR'), ('12,k', '12 , k')):
            if old in plain:
                v = plain.replace(old, new)
                if '(k1' in v and '(k1' not in plain:
                    v = v.replace('12,}', '12,)')
                ex.append(rel('layout', [plain, v], (0, 2)))
    run.batch(Batch('one change of layout', 'TraceRel', ex, per=10))
    ex = []
    for w in words.vocabulary():
        if words.NAMED.match(w):
            up, lo = ''.join(c.upper() if c.isascii() else c for c in w), ''.join(c.lower() if c.isascii() else c for c in w)
            cs = list(dict.fromkeys([w, up, lo, up[:1] + lo[1:]]))
            ex += [rel('layout', [f % c for c in cs], (0, 2)) for f in ('@%s{k, t = {x}}', '@a{k, %s = {http://x~y, z}}', '@a{k, %s = "http://x~y"}')]
            ex.append(rel('layout', [f % w for f in ('@a{k,%s={x y},u=1}', '@a (k , %s = {x y} , u = 1 , )', '%%c\n@a{ k%%d\n,%s%%\n=%%e\n{x y},u=1%%\n}')], (0, 2)))
            ex.append(rel('layout', [f % w for f in ('@string{%s={x y}}', '@string ( %s = {x y} )', '@STRING{%%c\n%s%%\n={x y}%%\n}')], (0, 2)))
            ex.append(rel('layout', [f % w for f in ('@%s{k,t=jan}', '@%s (\tk,\r\n t\n=\njan,)', '@%s%%c\n{%%c\nk%%c\n, t = %%\njan}')], (0, 2)))
            ex.append(rel('layout', [f.replace('%s', w) for f in ('@a{k,t=%s#{x}#%s}', '@a (k,t = %s # {x} # %s )', '@a{k,t=%s%%c\n#\n{x}%%d\n#%%\n%s}'.replace('%%', '%'))], (0, 2)))
    run.batch(Batch('words', 'TraceRel', ex, per=60))
    fl = []
    for q in doc_reqs(s + 61, 350 * k, modes=(2,), comments=.15) + mut_reqs(s + 62, 350 * k, modes=(2,), comments=.1):
        fl.append(rel('flags', [base64.b64decode(q['b'])], range(32)))
    for q in chunks(gen.TOPCHUNKS, 2):
        fl.append(rel('flags', [q], range(32)))
    g = Gen(s + 5, comments=.1)
    for _ in range(30 * k):        # many errors
        d = ''.join(g.doc(1) + random.Random(s).choice(['x\n', '@a{\n', '@b{k,=\n', '}\n', '@\n']) for _ in range(20))
        fl.append(rel('flags', [d], range(32)))
    for n in (2, 3, 4, 5, 6, 8, 12, 20):                # deep in the grammar
        fl += [rel('flags', [d], range(32)) for d in ('@a{k, t = ' + ' # '.join(['{a b, c}', 'x', '"u~v"', '1'][i % 4] for i in range(n)) + '}', '@preamble{' + ' # '.join(['"a {b c}"'] * n) + '}',
                                                      '@string(s = ' + '#\n'.join(['{}', '"\\& $x$ \\emph{a b}"'] * n) + ')', '@a{k, t = ' + '{' * n + 'a b' + '}' * n + '}', '@a{k, t = "' + '{' * n + 'a, b' + '}' * n + '"} @b{l,')]
    run.batch(Batch('all flag combinations', 'TraceRel', fl))
    return run.finish(explanation='each trace is a group of runs that must agree', assumptions=ASSUME)


CHECKS['C10'] = c10


# ---------------------------------------------------------------- C19
POOL = [['a', 'bib', 'a', 7, 'entry'], ['a', 'none', '', 0, 'bad'], ['b', 'bib', 'a', 3, 'entry'], ['', 'bib', '', 9, 'abbrev'], ['a', 'abbrev', 'a', 5, 'abbrev']]   # as in MCScope
DECLARED = ['bib', 'nokey', 'abbrev', 'empty abbrev', 'extra', 'extra only', 'bib and extra', 'scope', 'none', 'preamble', 'tag', 'ident', 'file', 'bad', 'string']
POOL2 = [[n, by, key, 3 + 10 * i, k] for i, (by, (n, key), k) in enumerate(itertools.product(DECLARED, (('a', 'a'), ('b', 'a'), ('', ''), ('A', 'a'), ('c', 'c')), ('entry', 'bad', 'abbrev')))]
START = [['new', 0], ['new', 1], ['new', 1]]


def c19(run):
    s = run.seed
    names = ['a', 'b', '', 'c', 'A']
    out = run.model('MCScope', env=dict(N='3' if run.quick else '4'))
    hs = printed(out, 'HIST')
    if len(hs) < 100:
        raise CheckError('no histories')
    run.batch(Batch('all histories', 'TraceScope', [req('scope', b'', 0, pool=POOL, hist=START + h, names=names) for h in hs]))
    r = random.Random(s)
    out = []
    for _ in range(1500 if run.quick else 20000):
        h, n = [['new', 0]], 1
        for _ in range(r.choice([5, 20, 60])):
            c = r.random()
            if c < .12 and n < 8:
                h.append(['new', r.randrange(n + 1)])
                n += 1
            elif c < .8:
                h.append(['ins', r.randrange(1, n + 1), r.randrange(1, 13)])
            else:
                h.append(['look', r.randrange(1, n + 1), r.choice(names)])
            if c > .95:
                h.append(['ren', r.randrange(1, 13), r.choice(names)])
        out.append(req('scope', b'', 0, pool=r.sample(POOL2, 12), hist=h, names=names))
    out += [req('scope', b'', 0, pool=POOL2, hist=START, names=names)]
    # names that are long, alike or odd; many of them
    alike = ['Knuth1984a', 'Knuth1984b', 'knuth1984a', 'Xnuth1984a', 'Knuth1984', 'Knuth1984a ', ' Knuth1984a', 'Knuth 1984a', 'é', 'e\u0301', 'É', 'ſ', 's', 'S', 'DBLP:conf/x/1', 'DBLP:conf/x/11', '0', '00', '_', '%', 'x' * 300, 'x' * 301, 'y' + 'x' * 299]
    for _ in range(200 if run.quick else 2000):
        ns = r.sample(alike, 6)
        pool = [[r.choice(ns), r.choice(DECLARED), r.choice(ns), 3 + 10 * i, r.choice(['entry', 'bad', 'abbrev'])] for i in range(14)]
        pool = [q[:2] + [q[0] if r.random() < .5 else q[2]] + q[3:] for q in pool]
        h, n = [['new', 0]], 1
        for _ in range(r.choice([6, 20])):
            c = r.random()
            if c < .15 and n < 6:
                h.append(['new', r.randrange(n + 1)])
                n += 1
            elif c < .8:
                h.append(['ins', r.randrange(1, n + 1), r.randrange(1, 15)])
            elif c < .87:
                h.append(['ren', r.randrange(1, 15), r.choice(ns)])
            else:
                h.append(['look', r.randrange(1, n + 1), r.choice(ns)])
        out.append(req('scope', b'', 0, pool=pool, hist=h, names=ns))
    ws = words.vocabulary()
    for i in range(0, len(ws), 5):
        ns = ws[i:i + 5] + [ws[i].upper(), ws[i] + 'x']
        pool = [[n, 'bib', n, 3 + 10 * j, 'entry'] for j, n in enumerate(ns)] + [[n, r.choice(DECLARED), n, 103 + 10 * j, r.choice(['entry', 'bad', 'abbrev'])] for j, n in enumerate(ns)]
        h = [['new', 0], ['new', 1]] + [['ins', r.choice([1, 2]), j + 1] for j in r.sample(range(len(pool)), len(pool))] + [['look', 2, n] for n in ns]
        out.append(req('scope', b'', 0, pool=pool, hist=h, names=ns))
    for m in (70, 140) if run.quick else (70, 140, 300):
        ns = ['n%d' % i for i in range(m)]
        pool = [[x, 'bib', x, i + 3, 'entry'] for i, x in enumerate(ns)] + [[x, 'none', '', 0, 'bad'] for x in ns[:20]]
        ins = [['ins', 1, i + 1] for i in range(m)]
        out.append(req('scope', b'', 0, pool=pool, hist=[['new', 0], ['new', 1]] + ins + [['ins', r.choice([1, 2]), r.randrange(1, m + 21)] for _ in range(30)], names=ns))
    run.batch(Batch('random histories', 'TraceScope', out))
    return run.finish(explanation='histories enumerated by TLC from Scope.tla, replayed into ast.Scope and validated', assumptions=ASSUME)


CHECKS['C19'] = c19


# ---------------------------------------------------------------- C18
PIPES = [['log'], ['log', 'x'], ['fail'], ['tag', 'title', 'new'], ['tag', 'z', 'w'], ['authors', 'author'], ['authors', 'title', 'year'], ['authors'], ['escape'], ['render']]


ERRS = ['', '', 'eof', 'unexpected eof', 'short', 'closed', 'progress', 'not exist', 'file closed', 'path', 'canceled', 'skip dir', 'skip all', 'wrapped eof', 'wrapped', 'joined', 'list', 'one',
        'typed nil', 'empty']


RERRS = [e for e in ERRS if e != 'eof']


def option_batch(run):
    out = run.model('MCOptions', env=dict(N='3' if run.quick else '4'))
    os_ = printed(out, 'OPTS')
    if len(os_) < 1000:
        raise CheckError('no option lists')
    r = random.Random(run.seed)
    out = [req('options', b'', 0, opts=o, other=r.choice(os_), err=r.choice(ERRS)) for o in os_]
    res = [o for o in os_ if len([x for x in o if x[0] == 'res' and x[1]]) >= 2]
    for o in res:       # begins the same way
        for _ in range(2):
            p = r.choice(res)
            out.append(req('options', b'', 0, opts=o, other=[x for x in o if x[0] == 'res'][:1] + p, err=r.choice(ERRS)))
    # long lists
    for n in (9, 16, 17, 20, 33, 65):
        for _ in range(8 if run.quick else 60):
            o = []
            while len(o) < n:
                c = r.random()
                o.append(['res', [r.randrange(1, 9) for _ in range(r.choice([0, 1, 1, 2, 3, 5, n]))]] if c < .7 else ['mode', r.choice([0, 2, 16, 18])] if c < .85 else ['rend', r.choice(['Text', 'Comma', 'Escaped']), r.choice([0, 1, 2, 3])])
                if r.random() < .01:
                    o.append(['res', [9]])
            out.append(req('options', b'', 0, opts=o, other=r.choice(os_), err=r.choice(ERRS)))
            out.append(req('options', b'', 0, opts=[['res', [r.randrange(1, 9)]] for _ in range(n)] + r.choice([[], [['res', [9, 1]]]]), other=[['res', [1] * n]], err=r.choice(ERRS)))
    return Batch('all option lists', 'TraceOptions', out)


def c18(run):
    s, k = run.seed, 1 if run.quick else 12
    run.batch(option_batch(run))
    r = random.Random(s * 91)
    t = Trees(s * 93)
    g = Gen(s * 95, comments=.02)
    out = []
    for _ in range(2000 * k):
        pipe = [r.choice(PIPES if r.random() < .6 else PIPES[:5]) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
        x = r.random()
        if x < .7:
            tree = t.file(names=FIELDS) if x < .3 else t.package(1, names=FIELDS) if x < .4 else t.bib(names=FIELDS) if x < .6 else t.any()
            out.append(treq('resolve', tree, pipe=pipe, twice=r.random() < .3, err=r.choice(ERRS)))
        else:
            out.append(req('resolve', g.doc(2), 2, pipe=pipe, twice=r.random() < .3, err=r.choice(ERRS)))
    run.batch(Batch('random pipelines', 'TraceResolve', out))
    ex = []
    f = N('File', 'f', [N('BibDecl', 'a', [N('Key', 'p'), N('TagStmt', 'title', [N('Parsed', '{', [N('Text', 'x'), N('Escaped', '%')])])])])
    for n in range(4):
        for p in itertools.product([['log'], ['fail'], ['tag', 'title', 'v'], ['render'], ['escape']], repeat=n):
            for tw in (False, True):
                ex.append(treq('resolve', f, pipe=list(p), twice=tw, err=r.choice(ERRS)))
    for n in range(13):       # a failure at each position of a long pipeline
        for e in dict.fromkeys(ERRS):
            ex.append(treq('resolve', f, pipe=[['log']] * n + [['fail']] + [['log']] * (12 - n), twice=False, err=e))
            if n < 6:
                ex.append(treq('resolve', f, pipe=[['log']] * n + [['fail']], twice=n % 2 == 1, err=e))
    f = N('File', 'f', [N('BibDecl', 'a', [N('Key', 'k'), N('TagStmt', 'author', [N('Parsed', '{', [N('Text', 'A'), N('Space'), N('Text', 'and'), N('Space'), N('Text', 'B')])]), N('TagStmt', 'title', [N('Text', 'x')])])])
    for n in (2, 3, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65):
        ex.append(treq('resolve', f, pipe=[['authors'] + ['a%d' % i for i in range(n)] + ['author']], err=r.choice(ERRS)))
        ex.append(treq('resolve', f, pipe=[['tag', 'title', 'v%d' % i] for i in range(n)] + [['authors', 'author']], err=r.choice(ERRS)))
    one = N('BibDecl', 'a', [N('Key', 'k'), N('TagStmt', 'title', [N('Parsed', '{', [N('Text', 'x'), N('Escaped', '%')])])])
    for root in (one, N('BibDecl', 'b'), N('File', 'f', [one]), N('File', 'f'), N('Package', '', [N('File', 'f', [one])]), N('Package'), N('AbbrevDecl', kids=[N('TagStmt', 's', [N('Text', 'v')])]), N('TagStmt', 's', [N('Text', 'v')]), N('Parsed', '{', [N('Escaped', '&')]), N('Text', 'x')):
        for n in list(range(10)) + [16, 17, 33]:
            ex.append(treq('resolve', root, pipe=[['log']] * n, twice=n % 3 == 1))
            ex.append(treq('resolve', root, pipe=[['log'], ['escape'], ['tag', 'title', 'w'], ['render']][:n % 5] + [['log']] * n))
            if n:
                ex.append(treq('resolve', root, pipe=[['log']] * (n - 1) + [['fail']] + [['log']] * (n % 2), err=r.choice(ERRS)))
    run.batch(Batch('all short pipelines', 'TraceResolve', ex))
    out = []
    for w in filter(words.plain, words.vocabulary()):
        f = N('File', 'f', [N('BibDecl', w, [N('Key', 'p'), N('TagStmt', w, [N('Parsed', '{', [N('Text', 'A'), N('Space'), N('Text', w), N('Escaped', '%')])]), N('TagStmt', 'author', [N('Parsed', '{', [N('Text', w)])])])])
        out += [treq('resolve', f, pipe=p, err=r.choice(ERRS)) for p in ([['tag', w, w]], [['authors', w], ['tag', 'author', w]], [['log'], ['authors', w, 'author'], ['escape'], ['log']])]
    run.batch(Batch('words', 'TraceResolve', out))
    def bib(ty, key, *tags):
        return N('BibDecl', ty, ([N('Key', key)] if key else []) + [N('TagStmt', n, [v]) for n, v in tags])

    def P(*ks):
        return N('Parsed', '{', ks)
    x = N('Text', 'x')
    ts = [N('File', 'f', [bib('a', 'p', ('title', P(x, N('Escaped', '%'), P(N('Escaped', '&')))), ('author', P(N('Text', 'A'), N('Space'), N('Text', 'and'), N('Space'), N('Text', 'B'), N('Escaped', '&'))))]),
          N('Package', '', [N('File', 'a', [bib('a', 'k', ('title', P(x)), ('title', N('Text', 'y')))]), N('File', 'b', [bib('b', '')])]),
          N('File', 'f', [N('AbbrevDecl', '', [N('TagStmt', 'z', [P(N('Escaped', '$'))])]), bib('c', 'q', ('author', P(N('Text', 'and')))), N('PreambleDecl', '', [P(N('Comma'))])]),
          bib('d', 'k', ('author', N('Ident', 'x')), ('title', P(N('Accent', 'q', num=34)))), P(N('Escaped', '%')), x] + [t.file(names=FIELDS) for _ in range(0 if run.quick else 30)]
    pool = [['log'], ['fail'], ['tag', 'title', 'new'], ['authors', 'author'], ['authors'], ['escape'], ['render']]
    bs = run.behaviours('MCResolve', 'PIPE', ts, [p[:1] + [trees.cp(a) for a in p[1:]] for p in pool], LEN=3)
    run.batch(Batch('behaviours of pipelines', 'TraceResolve', [treq('resolve', ts[i - 1], pipe=[p[:1] + [''.join(map(chr, a)) for a in p[1:]] for p in pipe], twice=bool(tw), err=r.choice(ERRS))
                                                                for i, pipe, tw in r.sample(bs, min(len(bs), 3000 * k))]))
    return run.finish(explanation='option lists enumerated by TLC from Options.tla and replayed; pipelines validated against Resolve.tla', assumptions=ASSUME)


CHECKS['C18'] = c18


# ---------------------------------------------------------------- C17
def b64(s):
    return base64.b64encode(s if isinstance(s, bytes) else s.encode('utf-8', 'surrogatepass')).decode()


def c17(run):
    s, k = run.seed, 1 if run.quick else 10
    out = run.model('MCSource', env=dict(N='3' if run.quick else '4'))
    sch, lists = printed(out, 'SCHED'), printed(out, 'PATHS')
    if len(sch) < 300 or len(lists) < 200:
        raise CheckError('no schedules')
    r = random.Random(s * 17)
    reqs = []
    for sizes, end in sch:
        for c in ('@a{k,x=1}', '@a{é}%c'):
            # the specification's text has 9 characters; the real one as many bytes
            reqs.append(req('read', c, r.choice((0, 2)), sizes=sizes, end=end, name=r.choice(['r.bib', '', 'dir/x']), err=r.choice(RERRS)))
    g = Gen(s * 7, comments=.05)
    for _ in range(1200 * k):
        d = g.doc(r.choice([1, 2]))
        b = mutate(r, d) if r.random() < .3 else d.encode('utf-8', 'surrogatepass')
        if len(b) > 500:
            continue
        sizes = [r.choice([0, 1, 2, 3, 7, 60]) for _ in range(r.choice([1, 3, 10, 60]))]
        if r.random() < .6:
            sizes.append(490)
        reqs.append(req('read', b, r.choice((0, 2)), sizes=sizes, end=r.choice(['eof', 'eof', 'dataeof', 'fail', 'datafail']), name='r.bib', err=r.choice(RERRS)))
    run.batch(Batch('readers', 'TraceSource', reqs))
    kinds = [req('kinds', c, m, err=e) for e in dict.fromkeys(RERRS) for c in ('', ' ', '@a{k}', '@a{k,t={x}}%c\n@b{', 'x', '\ufeff@a{k}', '%é') for m in (0, 2)]
    for _ in range(400 * k):
        d = g.doc(r.choice([1, 2]))
        kinds.append(req('kinds', mutate(r, d) if r.random() < .3 else d, r.choice((0, 2)), err=r.choice(RERRS)))
    big = '@a{k,' + ''.join('t%d = {%s},\n' % (i, 'x' * 50) for i in range(400)) + '}'     # more than one read
    for n in (1, 2, 3, 6):
        kinds.append(req('kinds', big * n, 2 * (n % 2)))
    for e in dict.fromkeys(RERRS):
        kinds += [req('kinds', '@a{k, t = {' + 'x y, ' * n + '}}%c\n@b{l}' + q, 2, err=e) for n in (110, 210, 900, 4000) for q in r.sample(['', '@c{'], 1)]
    edges = ['', '\x00', '\ufeff', '\ufeff%c\n', '\ufeff ', '\ufeff\ufeff', ' ', '\n', '\r\n', '%', '%c\n', '\x1a', '\x00\x00', '\t', '}', '\xa0', 'x', '@', ',']
    for p in edges:
        for q in edges:
            kinds.append(req('kinds', p + '@a{k, t = {x}}' + q, r.choice((0, 2, 1))))
    kinds += [req('kinds', p + b'@a{k}' + q, 2) for p in (b'', b'\xff\xfe', b'\xfe\xff', b'\x80', b'\x1f\x8b') for q in (b'', b'\xff', b'\xc3', b'\xef\xbb', b'\xef\xbb\xbf')]
    run.batch(Batch('kinds of sources', 'TraceSource', kinds))
    pk = []
    pool = [b64('@a{k, t = {x}}'), b64('%c\n@b{l}@string{x="y"}'), b64('@a{k, t = }'), 'missing', 'dir', b64('')]
    for ps in lists:
        pk.append(req('package', b'', r.choice((0, 2)), pool=pool, paths=ps))
    for _ in range(400 * k):
        pool = []
        for _ in range(r.choice([1, 2, 4, 7, 9, 16])):
            d = g.doc(r.choice([0, 1, 2]))
            x = r.random()
            pool.append('as:%d' % r.randrange(1, len(pool) + 1) if pool and r.random() < .12 else 'missing' if x < .06 else 'denied' if x < .09 else 'dir' if x < .13 else b64(mutate(r, d) if x < .35 else d))
        pk.append(req('package', b'', r.choice((0, 2)), pool=pool, paths=[r.randrange(1, len(pool) + 1) for _ in range(r.choice([0, 1, 2, 4, 8, 16, 17, 33]))]))
    run.batch(Batch('packages', 'TraceSource', pk))
    # words in the names
    fs = words.filenames()
    if run.quick:
        fs = r.sample(fs, 1200)
    docs = ['@a{k, t = {x}}', '%c\n@b{l}', '@a{k, t = }', '']
    out = [req('kinds', docs[0] if i % 4 else r.choice(docs), r.choice((0, 2)), base=f, bare=i % 2) for i, f in enumerate(r.sample(fs, 200 if run.quick else len(fs)))]
    out += [req('kinds', d, m, bare=2) for d in docs for m in (0, 2)]
    run.batch(Batch('names of sources', 'TraceSource', out))
    out = []
    for i in range(0, len(fs), 4):
        ns = [f for j, f in enumerate(fs[i:i + 4]) if not any(f.split('/')[0] == g.split('/')[0] for g in fs[i:i + j])]
        pool = [b64(r.choice(docs[:2])) if r.random() < .9 else b64(docs[2]) if r.random() < .7 else 'missing' for _ in ns]
        out.append(req('package', b'', r.choice((0, 2)), pool=pool, names=ns, paths=r.choice([list(range(1, len(ns) + 1)), [r.randrange(1, len(ns) + 1) for _ in range(5)]])))
    run.batch(Batch('names of files', 'TraceSource', out))
    run.batch(Batch('named sources', 'TraceParse', mut_reqs(s + 71, 400 * k)))
    return run.finish(explanation='reader schedules and file lists enumerated by TLC from Source.tla and replayed; results validated', assumptions=ASSUME)


CHECKS['C17'] = c17


# ---------------------------------------------------------------- C16
ISO = ['@a{k, t = {one \\^e {\\%} $x$ # y}}',
       '@b{l, t = {two \\`e {\\&} $y$ # z}}',          # as long as the first
       '@string{s = "v"} @a{k, author = {A B and {C, D} and E, F}, editor = "G" # s # {h}, n = 12}',
       '@string{s = "w"} @a{k, author = {A B and {C, D} and E, F}, editor = "G" # s # {h}, n = 12}',
       '% note\n@a{k, t = {\\url{http://x/%y}, \\href{a}{b} \\"{o}}}\n% end',
       '@a{k, t = , u = {v}} @b{l, t = {x}} @c{m, = }',         # malformed in two places
       '@a{k, author = {A1 B2 C3 D4 E5 F6 G7 H8 {I9 J10} K11 von L12 M13 and X1 X2 X3 X4 X5 X6 X7 X8 X9 Y1, Jr, Y2 Y3}, t = {' + 'long {text} $m$ \\& \\c{c}~x, ' * 12 + '}, u = a # {b} # "c" # 4 # {d e} # "f"}',
       '@a{k, t = {unclosed', '@comment{x} @a{k, author = {A, B, C, D}}', '@preamble{"p" # q} @a{k, t = {x}}', '',
       '@a{k, url = {http://x/~y,z}, Url = "a~b,c", t1 = {x}, t2 = "y", t3 = 3, t4 = {\\url{u~v,w}}, t5 = n # {m}, t6 = {\\cite{a}}, t7 = {}, t8 = ""}\n' + '@b{l, a1 = {v}, b1 = {w}}\n' * 9]
VARIED = """%% about %(x)s
@string{%(abbr)s = "v%(x)s"}
@book%(x)s{key%(x)s, title = {\\%(acc)s{%(low)s} \\%(acc)s%(up)s t%(x)s \\%(m)s{m%(x)s} $x_{%(x)s}$ \\%(esc)s w~z - y, {in %(x)s}},
  author = {First%(x)s von Last%(x)s and One Two {Three Four} Five Six Seven Eight%(x)s de la Nine Ten Eleven Twelve and \\'{e}b Z%(x)s, Jr, %(up)s.}, field%(x)s = %(abbr)s # "s%(x)s" # 12%(x)s,
  url = {http://%(x)s~u,v}, Url = "w%(x)s~u,v", year = 12, note = {}}
@preamble{"p%(x)s"}"""
DOS = ['parse', 'bytes', 'reader', 'expr', 'scan', 'resolve', 'resolve twice', 'render', 'render failing', 'render shared', 'text shared',
       'authors shared', 'walk shared', 'package']
OWN = ('parse', 'resolve', 'resolve twice', 'render', 'render failing', 'render shared')     # calls on an instance
MODED = ('bytes', 'reader', 'scan', 'package')


class Calls:
    """Calls and what each returns as the only call of a process."""

    def __init__(self, run, seed, extra):
        self.run, self.r = run, random.Random(seed)
        g = Gen(seed * 3 + 1, comments=.05)
        docs = ISO + [g.doc(2) for _ in range(extra)]
        self.all = []
        for d in docs:
            for do in DOS:
                for inst in range(4) if do in OWN else [0]:
                    for mode in ([1] if do == 'scan' else (0, 2, 18)) if do in MODED else [0]:
                        self.all.append((do, inst, d, mode))
            self.all.append(('scan', 0, d, 0))
        self.ref = {}

    def need(self, calls):
        new = [c for c in dict.fromkeys(calls) if c not in self.ref]
        reqs = [dict(session([c], [[1]], []), id=1) for c in new]
        driver = self.run.work.build()
        with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
            got = list(ex.map(lambda q: vlib._drive(driver, [q], self.run.work.path('ref'), 20)[1], reqs))
        for c, o in zip(new, got):
            if 'crash' in o:
                self.ref[c] = None
            else:
                self.ref[c] = [e for e in o['events'] if e[1] == 'ret'][0][3]
        self.all = [c for c in self.all if self.ref.get(c, 1) is not None]

    def refs(self, calls):
        return {str(i + 1): self.ref[c] for i, c in enumerate(calls)}

    def pick(self, n):
        """A few calls with something in common."""
        r = self.r
        x = r.random()
        pool = self.all
        if x < .3:
            d = r.choice(pool)[2]
            pool = [c for c in pool if c[2] == d]
        elif x < .6:
            do = r.choice(DOS)
            pool = [c for c in pool if c[0] == do]
        elif x < .8:
            inst = r.randrange(4)
            pool = [c for c in pool if c[1] == inst and c[0] in OWN]
        return [r.choice(pool or self.all) for _ in range(n)]


def session(calls, progs, sched, refs=None):
    return req('session', b'', 0, calls=[dict(do=c[0], inst=c[1], b=b64(c[2]), mode=c[3]) for c in calls], progs=progs, sched=sched, refs=refs or {})


def c16(run):
    s, k = run.seed, 1 if run.quick else 10
    cs = Calls(run, s * 131, 0 if run.quick else 6)
    r = random.Random(s * 133)
    # every call once, alone in its process
    if run.quick:
        pool = []
        for do in DOS:
            for d in ISO:
                p = [c for c in cs.all if c[0] == do and c[2] == d]
                pool += r.sample(p, min(len(p), 3 if do in OWN else 2))
        cs.all = pool
    t = time.time()
    cs.need(cs.all)
    log('  %d calls alone  %.1fs' % (len(cs.ref), time.time() - t))
    # interleavings of two and three clients
    two = printed(run.model('MCSession', env=dict(CLIENTS='2', TURNS='4')), 'TURNS')
    three = printed(run.model('MCSession', env=dict(CLIENTS='3', TURNS='2' if run.quick else '3')), 'TURNS')
    if len(two) != 70 or len(three) < 90:
        raise CheckError('no schedules')
    out = []
    for _ in range(24 * k):
        calls = cs.pick(2)
        for sch in two:
            out.append((calls, [[1], [2]], sch))
    for _ in range(8 * k):
        calls = cs.pick(4)
        for sch in r.sample(two, 20):
            out.append((calls, [[1, 3], [2, 4]], sch))
    for _ in range(8 * k):
        calls = cs.pick(3)
        for sch in r.sample(three, 60):
            out.append((calls, [[1], [2], [3]], sch))
    reqs = [session(c, p, sch, cs.refs(c)) for c, p, sch in out]
    run.batch(Batch('interleavings', 'TraceSession', reqs, limit=30))
    # histories: each call again after up to 8 others, repeats among them
    his = []
    for c in cs.all:
        for n in (2, 5):
            before = cs.pick(n)
            calls = before + [c]
            his.append(session(calls, [list(range(1, len(calls) + 1)) + ([1] if r.random() < .3 else [])], [], cs.refs(calls)))
    for _ in range(300 * k):
        n = r.choice([2, 3, 8])
        calls = cs.pick(n)
        his.append(session(calls, [[r.randrange(1, n + 1) for _ in range(r.choice([3, 6, 12]))]], [], cs.refs(calls)))
    run.batch(Batch('histories', 'TraceSession', his, limit=30))
    run.batch(option_batch(run))
    # at the same time, under the race detector
    st = []
    for j in range(8 if run.quick else 60):
        calls = cs.pick(10)[:5] + r.sample(cs.all, min(len(cs.all), 25)) if j % 2 else r.sample(cs.all, min(40, len(cs.all)))
        st.append(req('stress', b'', 0, calls=[dict(do=c[0], inst=c[1], b=b64(c[2]), mode=c[3]) for c in calls], clients=8,
                      rounds=60 if run.quick else 150, seed=s * 1000 + j, refs=cs.refs(calls)))
    run.batch(Batch('all at once', 'TraceSession', st, race=True, nproc=1 if run.quick else 2, limit=120))
    # the first calls of a process, all at once, on texts with nothing in common
    st = []
    docs = [VARIED % dict(x=chr(97 + j % 26) + str(j), acc=a, low=lo, up=lo.upper(), m=mac, esc=esc, abbr='ab' + str(j))
            for j, (a, lo, mac, esc) in enumerate(zip("`'^\"~" * 6, 'aeioun' * 5, ['emph', 'textbf', 'url', 'href', 'cite', 'frac', 'c', 'k', 'H', 'v', 'u', 'b', 'd', 't', 'r'] * 2, '$&%{}_' * 5))]
    dos = [('bytes', 2), ('bytes', 0), ('reader', 2), ('parse', 0), ('parse', 1), ('parse', 2), ('expr', 0), ('scan', 2), ('package', 2), ('resolve', 2), ('resolve', 3), ('resolve', 0), ('render', 2), ('render', 0)]
    for j in range(6 if run.quick else 60):
        calls = []
        for d in r.sample(docs, 10 if run.quick else 20):
            for do, x in r.sample(dos, 2):
                calls.append((do, x if do in OWN else 0, d if do != 'expr' else '{' + d.replace('@', 'a') + '}', 0 if do in OWN or do == 'expr' else x))
        calls = [c for c in calls if c[0] != 'expr'] + [('expr', 0, '{' + e + '}', 0) for e in r.sample(["\\'e x", '\\`a', '\\"{o} $m$ n', '\\textit{x} \\emph{y}', 'A and B', '\\url{u}~v'], 3)]
        cs.need(calls)
        calls = [c for c in calls if cs.ref[c] is not None]
        st.append(req('stress', b'', 0, calls=[dict(do=c[0], inst=c[1], b=b64(c[2]), mode=c[3]) for c in calls], clients=8, rounds=40, seed=s * 7000 + j, cold=True, refs=cs.refs(calls)))
    run.batch(Batch('first calls at once', 'TraceSession', st, race=True, nproc=4, alone=True, limit=120))
    # the text given is only read
    ro = mut_reqs(s + 91, 600 * k) + prefix_reqs(s + 91, 600 * k) + doc_reqs(s + 92, 200 * k) + [req('file', d + e, m) for d in ISO for e in ('', '\r', '\n', '\r\n', ' ', '%', '%c', '%c\r', '\x00', '\ufeff') for m in (0, 2, 16)]
    ro += [q for q in odd_reqs() if r.random() < .33]
    run.batch(Batch('texts are only read', 'TraceParse', ro))
    run.batch(Batch('texts are only scanned', 'TraceScan', [dict(q, op='scan', mode=q['mode'] & 2, x={}) for q in ro[::2]]))
    return run.finish(explanation='schedules enumerated by TLC from Session.tla and replayed with gates in readers, resolvers and writers; results compared with those of the call alone', assumptions=ASSUME)


CHECKS['C16'] = c16
