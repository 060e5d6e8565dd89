"""Scenario generators.  Everything random comes from the rng passed in."""
import itertools, re

U32 = (1 << 32) - 1
DEPTHS = [0, 1, 2, 3, 5, 10, 10, 10, 20, 100, U32]


# ---- patterns as small trees ----------------------------------------------
# ('lit', text) ('cls', text, [sample code points]) ('cat', [..]) ('alt', [..])
# ('rep', x, min, max|-1, lazy) ('grp', x)
def nullable(x):
    t = x[0]
    if t == 'cat':
        return all(nullable(y) for y in x[1])
    if t == 'alt':
        return any(nullable(y) for y in x[1])
    if t == 'rep':
        return x[2] == 0 or nullable(x[1])
    return False


def show(x, ctx=0):
    """ctx: 0 anywhere, 1 within a concatenation, 2 under a repetition"""
    t = x[0]
    if t in ('lit', 'cls'):
        return x[1]
    if t == 'cat':
        s = ''.join(show(y, 1) for y in x[1])
        return '(%s)' % s if ctx >= 2 else s
    if t == 'alt':
        s = '|'.join(show(y, 0) for y in x[1])
        return '(%s)' % s if ctx >= 1 else s
    if t == 'rep':
        n, m = x[2], x[3]
        if (n, m) == (0, -1):
            q = '*'
        elif (n, m) == (1, -1):
            q = '+'
        elif (n, m) == (0, 1):
            q = '?'
        elif m == -1:
            q = '{%d,}' % n
        elif n == m:
            q = '{%d}' % n
        else:
            q = '{%d,%d}' % (n, m)
        s = show(x[1], 2) + q + ('?' if x[4] else '')
        return '(%s)' % s if ctx >= 2 else s
    raise ValueError(t)


def sample(x, rng):
    """Code points which match x, or nearly so."""
    t = x[0]
    if t in ('lit', 'cls'):
        return [rng.choice(x[2])]
    if t == 'cat':
        return [c for y in x[1] for c in sample(y, rng)]
    if t == 'alt':
        return sample(rng.choice(x[1]), rng)
    hi = x[3] if x[3] >= 0 else x[2] + 3
    n = rng.randint(x[2], min(hi, x[2] + 3))
    return [c for _ in range(n) for c in sample(x[1], rng)]


ALPHA = 'abc'


def esc(c):
    return '\\' + c if c in '|()?+*.[]^$-{}\\&~<>=!,' and c not in ',<>=!&~-' else c


class Lang:
    """What atoms the patterns are made of."""

    def __init__(self, letters=ALPHA, classes=True, dot=True, bytes_=False, extra=(), quant=True):
        self.letters, self.classes, self.dot, self.bytes_, self.extra, self.quant = \
            letters, classes, dot, bytes_, list(extra), quant

    def atom(self, rng):
        L = self.letters
        r = rng.random()
        if r < 0.62 or not self.classes:
            c = rng.choice(L)
            return ('lit', esc(c), [ord(c)])
        if self.dot and r < 0.68:
            return ('cls', '.', [ord(c) for c in L])
        if self.bytes_ and r < 0.76:
            c = rng.choice(L)
            b = ord(c) & 0xff
            return ('cls', '\\z%02x' % b, [b])
        if self.extra and r < 0.84:
            return rng.choice(self.extra)
        k = rng.sample(L, min(len(L), rng.randint(1, 3)))
        if rng.random() < 0.25:
            rest = [c for c in L if c not in k]
            if rest:
                return ('cls', '[^%s]' % ''.join(map(cesc, k)), [ord(c) for c in rest])
        if rng.random() < 0.3 and len(k) > 1 and min(k) < max(k):
            lo, hi = min(k), max(k)
            return ('cls', '[%s-%s]' % (cesc(lo), cesc(hi)), [ord(lo), ord(hi)])
        return ('cls', '[%s]' % ''.join(map(cesc, k)), [ord(c) for c in k])


def cesc(c):
    return '\\' + c if c in '[]^-\\&~' else c


def tree(rng, lang, depth):
    r = rng.random()
    if depth <= 0 or r < 0.22:
        return lang.atom(rng)
    if r < 0.55:
        return ('cat', [tree(rng, lang, depth - 1) for _ in range(rng.choice([2, 2, 2, 3, 4]))])
    if r < 0.72:
        return ('alt', [tree(rng, lang, depth - 1) for _ in range(rng.choice([2, 2, 3]))])
    if not lang.quant:
        return lang.atom(rng)
    x = tree(rng, lang, depth - 1)
    lo, hi = rng.choice([(0, -1), (1, -1), (0, 1), (0, -1), (1, -1), (0, 1), (2, 2), (1, 2), (0, 2), (2, -1), (1, 3), (3, 3), (2, 4)])
    if hi not in (0, 1, -1) or lo > 1:
        if nullable(x) and rng.random() < 0.85:
            lo, hi = rng.choice([(0, -1), (1, -1), (0, 1)])
    return ('rep', x, lo, hi, rng.random() < 0.35)


def size(x):
    t = x[0]
    if t in ('lit', 'cls'):
        return 1
    if t == 'rep':
        n = x[3] if x[3] > 0 else x[2] + 1
        return size(x[1]) * max(1, n)
    return sum(size(y) for y in x[1])


def keyword(rng, lang, depth=3, nonnull=True, limit=40):
    while True:
        x = tree(rng, lang, rng.randint(0, depth))
        if size(x) <= limit and not (nonnull and nullable(x)):
            return x


def enc_cp(cps, enc='utf-8'):
    out = b''
    for c in cps:
        try:
            out += chr(c).encode(enc, 'strict')
        except (UnicodeEncodeError, ValueError):
            out += bytes([c & 0xff])
    return out


def text_for(rng, trees, letters, n, enc='utf-8', noise=0.5):
    out = []
    total = 0
    while total < n:
        if trees and rng.random() > noise:
            s = sample(rng.choice(trees), rng)
            if rng.random() < 0.3 and s:
                s = s[:rng.randint(0, len(s))] + s[rng.randint(0, len(s)):]
            out += s
            total += max(1, len(s))
        else:
            out.append(ord(rng.choice(letters)))
            total += 1
    return enc_cp(out[:n + 12], enc)


def chunks(rng, b, maxn=6):
    n = len(b)
    k = rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, maxn)])
    if rng.random() < 0.12:
        k = min(n, 40)
        cuts = list(range(1, n))[:k]
    else:
        cuts = sorted(rng.randint(0, n) for _ in range(k))
    out, p = [], 0
    for c in cuts + [n]:
        out.append(b[p:c])
        p = c
    return out


# ---- scenario pieces -------------------------------------------------------
def pat(p, text, fx=0, ci=0, un=0, **kw):
    return dict(op='pat', p=p, bytes=text.encode() if isinstance(text, str) else text, fx=fx, ci=ci, un=un, **kw)


def add(f, p, enc, idx=0, **kw):
    return dict(op='add', f=f, p=p, enc=enc.encode() if isinstance(enc, str) else enc, idx=idx, **kw)


def build_ops(kws, depth, f='f', g='g', c='c'):
    """kws: (pattern, fx, ci, un, enc)"""
    ops = [dict(op='fsm', f=f)]
    for i, (t, fx, ci, un, enc) in enumerate(kws):
        ops += [pat('p', t, fx, ci, un), add(f, 'p', enc, i)]
    ops += [dict(op='prog', g=g, f=f, depth=depth), dict(op='ctx', c=c, g=g)]
    return ops


def search(b, off=0, c='c', **kw):
    return dict(op='search', c=c, off=off & ((1 << 64) - 1), bytes=b, **kw)


def close(c='c', **kw):
    return dict(op='close', c=c, **kw)


def stream(rng, b, off, c='c', split=True):
    ops, p = [], 0
    for x in (chunks(rng, b) if split else [b]):
        ops.append(search(x, off + p, c))
        p += len(x)
    return ops


BASES = [0, 0, 1, 100, (1 << 31) - 3, (1 << 32) - 5, (1 << 32) + 7, (1 << 40) + 1, (1 << 62) + 5, (1 << 63) - 20]
UTFS = ['ASCII', 'UTF-8', 'UTF-16LE', 'UTF-16BE', 'UTF-32LE', 'UTF-32BE']
PYENC = {'ASCII': 'ascii', 'UTF-8': 'utf-8', 'UTF-16LE': 'utf-16-le', 'UTF-16BE': 'utf-16-be',
         'UTF-32LE': 'utf-32-le', 'UTF-32BE': 'utf-32-be'}


def small_lang(rng):
    r = rng.random()
    if r < 0.45:
        return Lang('ab')
    if r < 0.8:
        return Lang('abc')
    if r < 0.9:
        return Lang('aAbB')
    return Lang('ab\n\x00é'.replace('\x00', '0'))


# ---- P01: one keyword, one buffer -----------------------------------------
# Small scopes.  All patterns of two repeated atoms, in sequence or as
# alternatives, perhaps repeated as a whole; and a text of all words up to some
# length, which a letter separates that no pattern has.
ATOMS = ['a', 'b', '[ab]', '(ab)', '(ba)', '(a|ab)', '(ab|a)', '(|a)', '(a|)', '(a|b)', '(ab?)', '(a*b)']
SIMPLE = ['', '?', '*', '+', '??', '*?', '+?']      # what may follow what can match nothing
QUANTS = SIMPLE + ['{2}', '{0,2}', '{1,2}', '{2,3}', '{2,}', '{0,2}?', '{1,2}?', '{2,3}?', '{2,}?', '{3,5}']
REPEATED = [a + q for a in ATOMS for q in (SIMPLE if re.fullmatch(a, '') else QUANTS)]
WORDS = [''.join(w) for n in range(1, 7) for w in itertools.product('ab', repeat=n)]


def quant(rng, s):
    return s + rng.choice(SIMPLE if re.fullmatch(s, '') else QUANTS)


def two(k):
    """The k-th of the patterns of two repeated atoms."""
    n = len(REPEATED)
    return REPEATED[k // 2 // n] + ('|' if k % 2 else '') + REPEATED[k // 2 % n]
TWO = 2 * len(REPEATED) ** 2


def small_pattern(rng):
    r = rng.random()
    if r < 0.25:    # the same atom twice
        a = rng.choice(ATOMS)
        s = quant(rng, a) + rng.choice(['', '', '|']) + quant(rng, a)
    else:
        s = two(rng.randrange(TWO))
    if r < 0.45:
        return s
    s = quant(rng, '(' + s + ')')
    if r < 0.65:
        return s
    z = rng.choice(REPEATED)
    return rng.choice(['%s%s', '%s%s', '%s|%s']) % rng.choice([(s, z), (z, s)])


def small_keyword(rng):
    while True:
        s = small_pattern(rng)
        if not re.fullmatch(s, ''):
            return s


def all_words(rng, n):
    ws = [w for w in WORDS if len(w) <= n]
    rng.shuffle(ws)
    return 'z'.join(ws).encode()


def p01(rng, i, tier):
    if i % 4 == 3:
        if tier == 'quick':
            ss = [small_pattern(rng) for _ in range(2)]
        else:       # all of them, and some larger ones
            ss = [two(k % TWO) for k in range(i // 4 * 7, i // 4 * 7 + 7)] + [small_pattern(rng)]
        ops = []
        for s in ss:
            if re.fullmatch(s, ''):     # refused
                ops += [dict(op='fsm', f='f'), pat('p', s), add('f', 'p', 'ASCII', 0), dict(op='dfsm', f='f')]
            else:
                ops += build_ops([(s, 0, 0, 0, rng.choice(['ASCII', 'UTF-8']))], rng.choice(DEPTHS)) + \
                    [search(all_words(rng, rng.choice([3, 4, 5]))), close(), dict(op='dctx', c='c'), dict(op='dprog', g='g'), dict(op='dfsm', f='f')]
        return ops
    lang = small_lang(rng)
    x = keyword(rng, lang, 4 if rng.random() < 0.4 else 3)
    enc = rng.choice(['ASCII', 'ASCII', 'UTF-8'])
    b = text_for(rng, [x], lang.letters, rng.choice([6, 12, 25, 40 if tier == 'quick' else 90]))
    ci = int(rng.random() < 0.2)
    return build_ops([(show(x), 0, ci, 0, enc)], rng.choice(DEPTHS)) + [search(b), close()]


def some_keywords(rng, lang, n):
    xs = []
    for _ in range(n):
        r = rng.random()
        if xs and r < 0.15:
            xs.append(rng.choice(xs))                       # the same again
        elif xs and r < 0.3:
            xs.append(('cat', [rng.choice(xs), lang.atom(rng)]))   # one with a common prefix
        elif xs and r < 0.4:
            xs.append(('cat', [lang.atom(rng), rng.choice(xs)]))   # a common suffix
        elif r < 0.6:
            k = rng.randint(1, 4)
            xs.append(('cat', [('lit', esc(c), [ord(c)]) for c in rng.choices(lang.letters, k=k)]))
        else:
            xs.append(keyword(rng, lang, 3, limit=20))
    return xs


# ---- P02: several keywords -------------------------------------------------
def p02(rng, i, tier):
    lang = small_lang(rng)
    n = rng.choice([2, 2, 3, 4, 6] + ([12] if tier != 'quick' else []))
    xs = some_keywords(rng, lang, n)
    b = text_for(rng, xs, lang.letters, rng.choice([10, 20, 40]))
    encs = rng.choice([['ASCII'], ['ASCII', 'UTF-8'], ['UTF-8', 'UTF-16LE', 'ASCII']])
    if i % 5 == 4:
        return build_ops([(small_keyword(rng), 0, 0, 0, rng.choice(encs[:2])) for _ in range(rng.choice([2, 2, 3]))], rng.choice(DEPTHS)) + \
            [search(all_words(rng, rng.choice([3, 4]))), close()]
    kws = [(show(x), 0, int(rng.random() < 0.15), 0, rng.choice(encs)) for x in xs]
    if i % 5 == 2:      # an FSM which grows, and is compiled on the way
        ops = [dict(op='fsm', f='f')]
        cuts = sorted({n, rng.randint(1, n), rng.randint(1, n)})
        for j, (t, fx, ci, un, enc) in enumerate(kws):
            ops += [pat('p', t, fx, ci, un), add('f', 'p', enc, j)]
            if j + 1 in cuts:
                g = 'g%d' % j
                ops += [dict(op='prog', g=g, f='f', depth=rng.choice(DEPTHS)), dict(op='ctx', c='c' + g, g=g)]
        gs = ['cg%d' % (j - 1) for j in cuts]
        rng.shuffle(gs)
        for c in gs:
            ops += [search(b, 0, c), close(c)]
        return ops
    return build_ops(kws, rng.choice(DEPTHS)) + [search(b), close()]


# ---- P03, P04: chunks ------------------------------------------------------
def p03(rng, i, tier):
    lang = small_lang(rng)
    xs = some_keywords(rng, lang, rng.choice([1, 1, 2, 3]))
    enc = rng.choice(['ASCII', 'ASCII', 'UTF-8', 'UTF-16LE'])
    b = text_for(rng, xs, lang.letters, rng.choice([8, 16, 30]), PYENC[enc] if enc != 'ASCII' else 'utf-8')
    ops = build_ops([(show(x), 0, 0, 0, enc) for x in xs], rng.choice(DEPTHS))
    base = rng.choice(BASES)
    if i % 3 == 2:      # the offsets pass a power of two on the way; much that overlaps, of keywords with much in common
        k = small_keyword(rng)
        ks = [k] + [rng.choice(['[ab]%s', 'a%s', '%s%%s' % quant(rng, rng.choice(ATOMS[2:]))]) % k if rng.random() < 0.5 else small_keyword(rng)
                    for _ in range(rng.choice([1, 2, 2, 3]))]
        rng.shuffle(ks)
        ops = build_ops([(k, 0, 0, 0, enc) for k in ks], rng.choice(DEPTHS))
        b = ''.join(rng.choices('aab' if rng.random() < 0.5 else 'abb', k=rng.choice([16, 24, 40]))).encode(PYENC[enc])
        base = max(0, (1 << rng.choice([8, 16, 31, 32, 32, 32, 32, 33, 48, 62])) - rng.choice([0, 1, rng.randint(1, len(b) - 1)]))
    ops += stream(rng, b, base)
    ops.append(close())
    if rng.random() < 0.3:
        ops.append(dict(op='reset', c='c'))
        ops += stream(rng, b, rng.choice(BASES))
        ops.append(close())
    return ops


def p04(rng, i, tier):
    lang = Lang('ab') if rng.random() < 0.6 else Lang('abc')
    xs = some_keywords(rng, lang, rng.choice([1, 1, 1, 2]))
    b = text_for(rng, xs, lang.letters, rng.choice([6, 10, 16]), noise=0.35)
    ss = [show(x) for x in xs]
    if i % 5 == 4:
        ss = [small_keyword(rng)]
        b = all_words(rng, 2) if rng.random() < 0.5 else bytes(rng.choices(b'aab', k=10))
    ops = build_ops([(s, 0, 0, 0, 'ASCII') for s in ss], rng.choice(DEPTHS))
    base = rng.choice(BASES)
    p = 0
    step = rng.choice([1, 1, 2, 3])
    while p < len(b):
        ops.append(search(b[p:p + step], base + p))
        p += step
        if rng.random() < 0.05:
            ops.append(search(b'', base + min(p, len(b))))
    ops.append(close())
    return ops


# ---- P05: depth of determinization ----------------------------------------
def p05(rng, i, tier):
    lang = small_lang(rng)
    xs = some_keywords(rng, lang, rng.choice([1, 2, 4]))
    b = text_for(rng, xs, lang.letters, rng.choice([12, 24]))
    ops = []
    ds = rng.sample([0, 1, 2, 3, 4, 7, 10, 50, U32], 3 if tier == 'quick' else 6)
    ss = [show(x) for x in xs]
    if i % 4 == 3:
        ss = [small_keyword(rng) for _ in range(rng.choice([1, 1, 2]))]
        b = all_words(rng, rng.choice([3, 4]))
    kws = [(s, 0, 0, 0, 'UTF-8') for s in ss]
    for k, d in enumerate(ds):
        if k and i % 2:     # the same FSM, compiled again
            ops += [dict(op='prog', g='g', f='f', depth=d), dict(op='ctx', c='c', g='g')]
        else:
            ops += build_ops(kws, d)
        ops += [search(b), close()]
    return ops


# ---- P06: starts_with ------------------------------------------------------
def p06(rng, i, tier):
    lang = small_lang(rng)
    if i % 5 == 4:
        ops = build_ops([(small_keyword(rng), 0, 0, 0, 'ASCII') for _ in range(rng.choice([1, 2]))], rng.choice(DEPTHS))
        return ops + [dict(op='starts', c='c', off=0, bytes=w) for w in all_words(rng, 4).split(b'z')]
    xs = some_keywords(rng, lang, rng.choice([1, 2, 3, 5]))
    ops = build_ops([(show(x), 0, 0, 0, rng.choice(['ASCII', 'UTF-8'])) for x in xs], rng.choice(DEPTHS))
    for _ in range(rng.choice([1, 3, 6])):
        b = text_for(rng, xs, lang.letters, rng.choice([0, 1, 2, 5, 12]), noise=0.3)
        if rng.random() < 0.3:
            s = sample(rng.choice(xs), rng)
            b = enc_cp(s)[:rng.choice([1, 2, 3, 50])]
        ops.append(dict(op='starts', c='c', off=rng.choice(BASES), bytes=b))
        if rng.random() < 0.3:
            ops += stream(rng, b, rng.choice(BASES)) + [close(), dict(op='reset', c='c')]
    return ops


# ---- P07: resolve ----------------------------------------------------------
def p07(rng, i, tier):
    lang = Lang('ab') if rng.random() < 0.6 else small_lang(rng)
    xs = some_keywords(rng, lang, rng.choice([1, 2, 3]))
    b = text_for(rng, xs, lang.letters, rng.choice([8, 14, 24]), noise=0.35)
    ops = build_ops([(show(x), 0, 0, 0, 'UTF-8') for x in xs], rng.choice(DEPTHS))
    base = rng.choice(BASES)
    for _ in range(rng.choice([1, 1, 2])):
        cut = rng.randint(0, len(b))
        ops += stream(rng, b[:cut], base)
        p = cut
        for x in chunks(rng, b[cut:], 3):
            ops.append(dict(op='resolve', c='c', off=base + p, bytes=x))
            p += len(x)
        ops += [close(), dict(op='reset', c='c')]
    return ops


# ---- P08: contexts ---------------------------------------------------------
def p08(rng, i, tier):
    lang = small_lang(rng)
    xs = some_keywords(rng, lang, rng.choice([1, 2, 4]))
    ops = build_ops([(show(x), 0, 0, 0, 'UTF-8') for x in xs], rng.choice(DEPTHS))
    m = rng.choice([2, 2, 3, 4])
    cs = ['c'] + ['c%d' % j for j in range(1, m)]
    if rng.random() < 0.25:     # another program of the FSM, which has grown
        ys = some_keywords(rng, lang, 1)
        ops += [pat('p', show(ys[0])), add('f', 'p', 'UTF-8', 9), dict(op='prog', g='h', f='f', depth=rng.choice(DEPTHS))]
        xs = xs + ys
    for c in cs[1:]:
        ops.append(dict(op='ctx', c=c, g=rng.choice(['g', 'h']) if any(o.get('g') == 'h' for o in ops) else 'g'))

    def life(c):
        r = []
        for _ in range(rng.choice([1, 2, 3])):
            b = text_for(rng, xs, lang.letters, rng.choice([4, 8, 14]), noise=0.35)
            kind = rng.random()
            if kind < 0.15:
                r.append(dict(op='starts', c=c, off=rng.choice(BASES), bytes=b))
                continue
            r += stream(rng, b, rng.choice(BASES), c)
            if kind < 0.6:
                r.append(close(c))
            r.append(dict(op='reset', c=c))
        b = text_for(rng, xs, lang.letters, rng.choice([4, 8, 14]), noise=0.35)
        return r + stream(rng, b, rng.choice(BASES), c) + [close(c)]
    lives = [life(c) for c in cs]
    if rng.random() < 0.4:
        ops.append(dict(op='par', scripts=lives))
    else:
        while any(lives):
            l = rng.choice([l for l in lives if l])
            ops.append(l.pop(0))
    return ops


# ---- P09: serialization ----------------------------------------------------
def p09(rng, i, tier):
    lang = small_lang(rng)
    xs = some_keywords(rng, lang, rng.choice([1, 2, 3, 8]))
    ops = [dict(op='fsm', f='f')]
    for j, x in enumerate(xs):
        ops += [pat('p', show(x), 0, int(rng.random() < 0.2), 0),
                add('f', 'p', rng.choice(['ASCII', 'UTF-8', 'utf-16le', 'UTF-8|OCE', 'windows-1252', 'identity|UTF-32BE']),
                    rng.choice([0, j, rng.getrandbits(64), U32 + 1, (1 << 64) - 1]))]
    ops += [dict(op='prog', g='g', f='f', depth=rng.choice(DEPTHS)), dict(op='pinfos', g='g')]
    if rng.random() < 0.2:
        ops += [pat('p', show(some_keywords(rng, lang, 1)[0])), add('f', 'p', 'UTF-8', 5)]      # no matter for the program
    if rng.random() < 0.5:
        ops += [dict(op='dfsm', f='f'), dict(op='dpat', p='p')]
    ops += [dict(op='write', b='b', g='g')]
    if rng.random() < 0.4:
        ops.append(dict(op='dprog', g='g'))
    for _ in range(rng.choice([0, 1, 3])):
        ops.append(dict(op='readcut', b='b', n=rng.choice([0, 1, 7, 8, 9, 15, 16, -1, -2, -8, -9])))
    ops += [dict(op='read', g='g2', b='b'), dict(op='pcount', g='g2'), dict(op='pinfos', g='g2'),
            dict(op='write', b='b2', g='g2'), dict(op='wsame', b='b', b2='b2'),
            dict(op='ctx', c='c', g='g2')]
    b = text_for(rng, xs, lang.letters, rng.choice([8, 20]), noise=0.35)
    ops += stream(rng, b, rng.choice(BASES)) + [close()]
    if rng.random() < 0.3:
        ops += [dict(op='dctx', c='c'), dict(op='ctx', c='c', g='g2'), search(b), close()]
    return ops


# ---- P10: the pattern language --------------------------------------------
PIECES = ['a', 'b', 'i', 'A', '0', '1', '9', ',', '<', '=', '!', '-', '--', '&', '&&', '~', '~~', ']', '}', '{', '[', '[^', '(', ')',
          '(?i)', '(?-i)', '(?a)', '(?-a)', '(?ai-)', '(?i-a)', '(?ia)', '|', '*', '+', '?', '{2}', '{1,}', '{1,2}', '{0}', '{,2}', '{2,1}',
          '{0,0}', '.', '^', '$', '\\b', '\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\h', '\\H', '\\v', '\\V', '\\n', '\\t', '\\e', '\\a', '\\f', '\\r',
          '\\x41', '\\x{61}', '\\x4', '\\x{110000}', '\\x{0}', '\\101', '\\0', '\\377', '\\400', '\\z61', '\\zff', '\\zg0', '\\.', '\\*', '\\k', '\\Q',
          '\\p{Lu}', '\\P{L}', '\\p{Nope}', '\\N{U+62}', '\\N{LATIN SMALL LETTER A}', '\\N{NO SUCH}', '\\-', '\\[', '\\]', '\\^', '\\\\', '\\A', '\\Z',
          '\\B', '\\K', '(?=a)', '(?!a)', '(?<=a)', '(?<!a)', '(?:a)', 'é', 'ß', '中', '😀', ' ', '\n']
CPIECES = ['a', 'b', 'c', 'z', 'A', '0', '9', '-', '--', '&&', '~~', '&', '~', '^', '[', ']', '[^', '\\d', '\\w', '\\W', '\\s', '\\z61', '\\z80-\\zff', '\\zff',
           'a-c', 'a-z', 'c-a', 'a-a', '\\x61-\\x63', '\\n', '\\b', '.', '*', '(', ')', '{', '}', '|', '$', ',', '\\p{Lu}', '\\P{L}', '[ab]', '[^b]', '\\-', '\\]', 'é']


def soup(rng):
    n = rng.choice([1, 2, 3, 4, 6])
    out = ''
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            out += '[' + ('^' if rng.random() < 0.3 else '') + ''.join(rng.choice(CPIECES) for _ in range(rng.choice([1, 2, 3, 4]))) + \
                (']' if rng.random() < 0.93 else '')
        elif r < 0.4:
            out += '(' + ''.join(rng.choice(PIECES) for _ in range(rng.choice([1, 2, 3]))) + ')'
        else:
            out += rng.choice(PIECES)
    return out


PROBE = 'aabb AB zZ09 \t\n-^&~[]{}(),<=!|*+?.$\\ é ß 中 😀iIkK\x85'


def probe_text(rng, pattern):
    """A text which shows apart what a pattern matches."""
    cps = [ord(c) for c in pattern if c not in '\\'] + [ord(c) for c in PROBE]
    rng.shuffle(cps)
    s = [ord(c) for c in pattern]
    cut = rng.choice([14, 22, 34])
    return (enc_cp(s) if rng.random() < 0.3 else b'') + enc_cp(cps[:cut]) + rng.choice([b'', b'\xff', b'\x80\xc3'])


def fuzzed(rng, s):
    """A pattern with a small change to its text."""
    for _ in range(rng.choice([1, 1, 2])):
        if not s:
            return s
        k = rng.randrange(len(s))
        r = rng.random()
        if r < 0.35:
            s = s[:k] + s[k + 1:]
        elif r < 0.7:
            s = s[:k] + rng.choice(PIECES) + s[k:]
        else:
            s = s[:k] + rng.choice(PIECES) + s[k + 1:]
    return s


FULL = Lang('abcABkKiI09 ', extra=[
    ('cls', '\\d', [48, 57]), ('cls', '\\D', [97, 32]), ('cls', '\\w', [97, 48, 95]), ('cls', '\\W', [32, 45]),
    ('cls', '\\s', [32, 9]), ('cls', '\\S', [97, 45]), ('cls', '\\h', [32, 9]), ('cls', '\\v', [10, 13]), ('cls', '\\n', [10]),
    ('cls', '\\x61', [97]), ('cls', '\\141', [97]), ('cls', '\\x{62}', [98]), ('cls', '\\N{U+63}', [99]), ('cls', '\\z61', [97]),
    ('cls', '[a-c--b]', [97, 99]), ('cls', '[a-c&&b-k]', [98, 99]), ('cls', '[ab~~bc]', [97, 99]), ('cls', '[^a-z]', [65, 48]),
    ('cls', '\\p{Lu}', [65, 75]), ('cls', '[^\\w]', [32, 45]), ('cls', '[\\d\\s]', [48, 32]), ('cls', '[]a]', [93, 97]), ('cls', '[^]a]', [98, 99]),
    ('cls', '[a-]', [97, 45]), ('cls', '[-a]', [97, 45]), ('cls', '[\\z61b]', [97, 98]), ('cls', '\\.', [46]), ('cls', '\\\\', [92])])


EDGES = [0, 1, 9, 0x20, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x60, 0x61, 0x7a, 0x7b, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xdf, 0xe9, 0xff, 0x100, 0x17f, 0x212a,
         0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]


def a_char(rng, c):
    """A way to write a character in a class."""
    if 0x30 <= c < 0x7b and chr(c).isalnum() and rng.random() < 0.7:
        return chr(c)
    ways = ['\\x{%x}' % c, '\\x{%06X}' % c, '\\N{U+%04x}' % c]
    if c < 256:
        ways.append('\\x%02x' % c)
        ways.append('\\%03o' % c)
    if c > 0x7f and c != 0x85 and not 0xd800 <= c < 0xe000:
        ways.append(chr(c))
    if 0x20 <= c < 0x7f and not chr(c).isalnum() and chr(c) not in ' _':
        ways.append('\\' + chr(c))
    return rng.choice(ways)


def class_atom(rng, depth):
    r = rng.random()
    near = lambda c: min(0x10ffff, max(0, c + rng.choice([-1, 0, 1])))
    c = rng.choice([rng.choice(EDGES), rng.choice(EDGES), rng.choice(b'abcABCkKiIsS019'), near(rng.choice(EDGES))])
    if 0xd800 <= c < 0xe000 and rng.random() < 0.7:
        c = 0xe000
    if r < 0.25:
        return a_char(rng, c)
    if r < 0.45:
        d = rng.choice([rng.choice(EDGES), c + rng.choice([0, 1, 5])])
        if rng.random() < 0.95:
            c, d = min(c, d), max(c, d)
        return a_char(rng, c) + '-' + a_char(rng, min(d, 0x10ffff))
    named = rng.choice(['\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\h', '\\v', '\\p{Lu}', '\\P{Lu}', '[ab]', '[^a-k]', '[\\z61]', '[^\\z61b]'])
    if r < 0.55:
        return '\\z%02x' % rng.choice([rng.randrange(256), 0x61, 0x80, 0xff, 0xc3, 0x30])
    if r < 0.62:
        x, y = rng.choice([(0x60, 0x7a), (0, 255), (0x80, 0xff), (0x61, 0x61), (0x7f, 0x80), (0xc0, 0xc3), (0x62, 0x61), (0xfe, 0xff)])
        return '\\z%02x-\\z%02x' % (x, y)
    if r < 0.66:
        return '\\z%02x-' % rng.choice([0x61, 0x30, 0xff]) + named
    if r < 0.7:
        return a_char(rng, c) + '-' + named
    if r < 0.85 or depth == 0:
        return named
    return a_class(rng, depth - 1)


def a_class(rng, depth=2):
    out = '[' + ('^' if rng.random() < 0.35 else '') + rng.choice(['', '', '', '', '-', ']'])
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        out += (rng.choice(['', '', '--', '&&', '~~']) if k else '') + class_atom(rng, depth)
    return out + rng.choice(['', '', '', '', '-']) + ']'


def class_probe(rng):
    """Characters and bytes, one by one, which tell classes apart."""
    xs = [enc_cp([c]) for c in EDGES] + [enc_cp([c]) for c in b'abcdkKiIsSzZ_-,&~[]^189'] + \
        [bytes([b]) for b in (0x80, 0xbf, 0xc2, 0xc3, 0xe2, 0xf4, 0xfe, 0xff)] + [enc_cp([rng.randrange(0xd800)]) for _ in range(6)]
    rng.shuffle(xs)
    return b''.join(xs)


def p10(rng, i, tier):
    r = rng.random()
    if i % 5 == 4:      # classes
        kws = [(a_class(rng), 0, int(rng.random() < 0.25), int(rng.random() < 0.4), rng.choice(['UTF-8', 'UTF-8', 'ASCII'])) for _ in range(3)]
        return maybe_ops(kws, class_probe(rng))
    if r < 0.3:
        x = keyword(rng, FULL, 3, nonnull=False)
        s = show(x)
        b = text_for(rng, [x], FULL.letters, rng.choice([10, 20]), noise=0.4)
    else:
        s = fuzzed(rng, show(keyword(rng, FULL, 3, nonnull=False))) if r < 0.6 else soup(rng)
        b = probe_text(rng, s)
    fx, ci, un = int(rng.random() < 0.08), int(rng.random() < 0.3), int(rng.random() < 0.3)
    return maybe_ops([(s, fx, ci, un, rng.choice(['UTF-8', 'UTF-8', 'ASCII']))], b)


def maybe_ops(kws, b, depth=10, more=()):
    """Where it is not known which keywords will be accepted: a sure one ends the
    list, so that the program is never empty."""
    ops = [dict(op='fsm', f='f')]
    for j, (t, fx, ci, un, enc) in enumerate(kws):
        ops += [pat('p', t, fx, ci, un), add('f', 'p', enc, j)]
    ops += list(more)
    ops += [pat('q', 'zz'), add('f', 'q', 'ASCII', 77), dict(op='fcount', f='f'), dict(op='finfos', f='f'),
            dict(op='prog', g='g', f='f', depth=depth), dict(op='pinfos', g='g'), dict(op='ctx', c='c', g='g'), search(b), close()]
    return ops


# ---- P11: rejection --------------------------------------------------------
BADPAT = ['(', ')', '[', '[]', '[^]', 'a**', '*', '+a', '?', 'a|', '|a', '()', '(a', 'a)', 'a{2,1}', 'a{', '\\', '\\k', '\\x', '\\x{', '\\xg0', '[b-a]',
          '[a-a]', '[a&&b]', '[a--a]', '\\p{}', '\\p{Foo}', '\\p', '\\N{}', '\\N{FOO}', '\\400', '', '(?x)a', '(?', 'a{99999999999}',
          '[\\z80-\\z70]', '^a', 'a$', '\\ba', 'a(?=b)', '(?<!a)b', 'a\\Kb', '\\Aa', 'a\\Z', '\\Ba', 'a{4294967296}', '[[:alpha:', '[a&&&&b]', '[a-]-']
NULLPAT = ['a*', 'a?', 'a*?', '(a|b*)', 'a{0,2}', 'a{0}', '(a?){2}', 'a*b*', '(a*)+', '.*', 'a??', '(a{0,1}|b)']
BADENC = ['', 'nope', 'UTF-9', 'UTF-8|', 'UTF-8|rot13', 'OCE|UTF-8', 'UTF-8|UTF-8', 'rot13', 'identity', '|', 'identity|', 'ASCII|OCE|foo', 'utf8x', 'XOR7|UTF-8',
          'UTF-8|XOR7', 'rot13|ASCII', 'OCE', 'UTF-16', 'UTF-32', 'UTF-7', 'ISO-2022-JP', 'SCSU', 'HZ', 'ibm-930', 'UTF-16|OCE', 'IMAP-mailbox-name']
GOODENC = ['ASCII', 'UTF-8', 'UTF-16LE', 'UTF-16BE', 'UTF-32LE', 'UTF-32BE', 'windows-1252', 'utf-8', 'latin1', 'identity|UTF-8', 'UTF-8|OCE', '|UTF-8|']


def p11(rng, i, tier):
    lang = Lang('abc', extra=[('cls', 'é', [233]), ('cls', '\\zff', [255]), ('cls', '中', [0x4e2d])])
    ops = [dict(op='fsm', f='f')]
    if rng.random() < 0.4:
        ops += [add('f', 'none', 'ASCII')]
    trees = []
    for j in range(rng.choice([2, 4, 7])):
        r = rng.random()
        p = rng.choice(['p', 'p', 'q'])
        if r < 0.3:
            s = rng.choice(BADPAT)
        elif r < 0.45:
            s = rng.choice(NULLPAT)
        elif r < 0.55:
            s = fuzzed(rng, show(keyword(rng, lang, 2)))
        else:
            x = keyword(rng, lang, 2)
            trees.append(x)
            s = show(x)
        fx = int(rng.random() < 0.1)
        b = s.encode()
        q = rng.random()
        if q < 0.04:
            b = b[:1] + rng.choice([b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xe2\x82']) + b[1:]
        kw = {}
        if rng.random() < 0.15:
            kw = {'slice': 1, 'tail': rng.choice([b'', b'(', b'abc'])}
            if rng.random() < 0.2:
                b = b[:1] + b'\0' + b[1:]
        want = int(rng.random() > 0.12)
        ops.append(pat(p, b, fx, int(rng.random() < 0.2), int(rng.random() < 0.2), want=want, **kw))
        for _ in range(rng.choice([1, 1, 2, 0])):
            enc = rng.choice(GOODENC) if rng.random() < 0.65 else rng.choice(BADENC)
            if rng.random() < 0.02:
                enc = None
            ops.append(add('f', p, enc, rng.choice([j, rng.getrandbits(64)]), want=int(rng.random() > 0.12)))
        if rng.random() < 0.3:
            ops += [dict(op='fcount', f='f'), dict(op='finfos', f='f')]
    b = text_for(rng, trees, 'abc', 18, noise=0.4) + rng.choice([b'', b'\xff\xe9', 'é中'.encode()])
    ops += [pat('s', 'zz'), add('f', 's', 'ASCII', 77), dict(op='fcount', f='f'), dict(op='finfos', f='f'),
            dict(op='prog', g='g', f='f', depth=rng.choice(DEPTHS)), dict(op='pinfos', g='g'), dict(op='pcount', g='g'),
            dict(op='ctx', c='c', g='g')] + stream(rng, b, 0) + [close()]
    if i % 4 == 3:      # the FSM is compiled; what is added now is in the next program only
        ops += [pat('s', rng.choice(['zy', 'z', 'a+', '(', 'a*', show(keyword(rng, lang, 2))])), add('f', 's', rng.choice(GOODENC + BADENC), 78),
                dict(op='fcount', f='f'), dict(op='finfos', f='f'), dict(op='pcount', g='g'), dict(op='pinfos', g='g'),
                dict(op='prog', g='h', f='f', depth=rng.choice(DEPTHS)), dict(op='pinfos', g='h'),
                dict(op='reset', c='c'), dict(op='ctx', c='d', g='h')] + stream(rng, b + b'zyz', 5) + [close()] + stream(rng, b + b'zyz', 5, 'd') + [close('d')]
    return ops


# ---- P12, P13: encodings ---------------------------------------------------
LEGACY = ['windows-1252', 'windows-1251', 'windows-1253', 'windows-1255', 'windows-1256', 'windows-1250', 'windows-1254', 'windows-1257', 'windows-1258',
          'iso-8859-1', 'iso-8859-2', 'iso-8859-5', 'iso-8859-7', 'iso-8859-15', 'koi8-r', 'koi8-u', 'ibm-437', 'ibm-850', 'ibm-866', 'ibm-852',
          'shift_jis', 'euc-jp', 'gb18030', 'gb2312', 'big5', 'euc-kr', 'euc-tw', 'tis-620', 'macintosh', 'cesu-8', 'ibm-37', 'ibm-1047', 'windows-874',
          'gbk', 'big5-hkscs', 'windows-949', 'windows-950', 'cp932', 'windows-936', 'ks_c_5601-1987', 'ibm-500', 'ibm-273', 'hp-roman8', 'viscii', 'x-mac-cyrillic', 'ibm-1140']
CPPOOL = [0x41, 0x61, 0x62, 0x7a, 0x30, 0x20, 0xe9, 0xc9, 0xff, 0xdf, 0x153, 0x178, 0x3b1, 0x391, 0x3c9, 0x430, 0x410, 0x44f, 0x5d0, 0x627, 0xe01,
          0x4e2d, 0x6587, 0x3042, 0x30a2, 0xac00, 0x20ac, 0x2022, 0x2550, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000]


def enc_lang(rng, cps):
    letters = ''.join(chr(c) for c in cps)
    lo, hi = sorted(rng.sample(cps, 2))
    extra = [('cls', '[%s-%s]' % (cx(lo), cx(hi)), [lo, hi]), ('cls', '\\x{%X}' % lo, [lo]),
             ('cls', '[^%s]' % cx(lo), [hi]), ('cls', '.', list(cps))]
    return Lang(letters, extra=extra)


def cx(c):
    return '\\x{%X}' % c


def encode_with(facts, name, cps, rng):
    """Texts in an encoding, with what it lacks left out or put in as noise."""
    up = {'UTF-8', 'UTF-16LE', 'UTF-16BE', 'UTF-32LE', 'UTF-32BE'}
    t = name.upper()
    out = b''
    if t in up:
        for c in cps:
            if not 0xd800 <= c < 0xe000:
                out += chr(c).encode(PYENC[t])
        return out
    if t == 'ASCII':
        return bytes(c if c < 128 else 0x3f for c in cps)
    tab = facts.enc(facts.canon(name))[0]
    for c in cps:
        if c in tab:
            out += tab[c]
    return out


def known(facts, names):
    """Those names which mean something here."""
    return [n for n in names if facts.canon(n)]


def enc_kws(rng, facts, n, encs):
    kws, trees = [], []
    for _ in range(n):
        e = rng.choice(encs)
        base = e.split('|')
        core = [x for x in base if x and x.lower() not in ('identity', 'oce')][0]
        if core.upper() in ('UTF-8', 'UTF-16LE', 'UTF-16BE', 'UTF-32LE', 'UTF-32BE'):
            pool = CPPOOL
        elif core.upper() == 'ASCII':
            pool = [c for c in CPPOOL if c < 128]
        else:
            tab = facts.enc(facts.canon(core))[0]
            pool = [c for c in CPPOOL if c in tab]
            pool += rng.sample(sorted(tab), min(6, len(tab)))
        if rng.random() < 0.1:
            pool = pool + [rng.choice(CPPOOL)]           # perhaps one it lacks
        pool = [c for c in pool if c not in (0,)]
        lang = enc_lang(rng, rng.sample(pool, min(len(pool), rng.choice([2, 3, 4]))))
        lang.letters = ''.join(c for c in lang.letters)
        x = keyword(rng, lang, 2, limit=12)
        kws.append((x, e, core, lang))
    return kws


def lit_ok(s):
    return all(c not in s for c in '\0')


def enc_ops(rng, facts, kws, ci=None):
    from lg import un_oce
    oce = un_oce()
    ops = [dict(op='fsm', f='f')]
    text = b''
    for j, (x, e, core, lang) in enumerate(kws):
        s = show(x)
        c, u = int(rng.random() < 0.2) if ci is None else ci, int(rng.random() < 0.5)
        ops += [pat('p', s, 0, c, u), add('f', 'p', e, j)]
        k = sum(1 for z in e.lower().split('|') if z == 'oce')
        for _ in range(rng.choice([1, 2])):
            cps = []
            for _ in range(rng.choice([1, 2])):
                cps += sample(x, rng) if rng.random() < 0.7 else [ord(rng.choice(lang.letters))]
            b = encode_with(facts, core, cps, rng)
            for _ in range(k):
                b = bytes(oce[y] for y in b)
            if rng.random() < 0.15:
                b = b[:-1]
            text += b
        if rng.random() < 0.3:
            text += bytes([rng.choice([0, 0x20, 0x61, 0x80, 0xff, 0xc3])])
    text = text[:90]
    ops += [pat('q', 'zz'), add('f', 'q', 'ASCII', 77), dict(op='finfos', f='f'), dict(op='prog', g='g', f='f', depth=rng.choice(DEPTHS)),
            dict(op='ctx', c='c', g='g')] + stream(rng, text, rng.choice(BASES)) + [close()]
    return ops


def p12(rng, i, tier, facts):
    utf = ['ASCII', 'UTF-8', 'UTF-16LE', 'UTF-16BE', 'UTF-32LE', 'UTF-32BE']
    legacy = known(facts, LEGACY)
    if tier == 'quick':
        encs = rng.sample(legacy, 2) + rng.sample(utf, 2)
    else:
        encs = rng.sample(legacy, 3) + rng.sample(utf, 1)
    if i % 5 == 4:      # the same encoding in several ways
        e = rng.choice(encs)
        encs = [e, e, e + '|OCE', 'identity|' + e, e + '|identity', recase(rng, e)]
    return enc_ops(rng, facts, enc_kws(rng, facts, rng.choice([1, 2, 2, 3]), encs))


def recase(rng, s):
    return ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


def p13(rng, i, tier, facts):
    core = rng.choice(['UTF-8', 'UTF-16LE', 'ASCII', 'windows-1252', 'UTF-32BE', 'koi8-r', 'UTF-16BE', 'shift_jis'])
    chain = ['identity'] * rng.choice([0, 0, 0, 1, 2]) + [core] + [rng.choice(['OCE', 'OCE', 'identity']) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    chain = [recase(rng, x) if rng.random() < 0.3 else x for x in chain]
    e = '|'.join(chain)
    if rng.random() < 0.12:
        e = rng.choice(['|', '||', '']) + e + rng.choice(['|', '', '||'])
    kws = enc_kws(rng, facts, 1, [e])
    if rng.random() < 0.5:
        kws += enc_kws(rng, facts, 1, [core])
    ops = enc_ops(rng, facts, kws)
    if rng.random() < 0.25:
        bad = rng.choice(BADENC + [e + '|foo', 'OCE|' + e, e + '|' + core, 'rot13|' + e, e + '|XOR1'])
        ops[1:1] = [pat('z', 'ab'), add('f', 'z', bad, 5)]
    return ops


# ---- P24: Unicode ----------------------------------------------------------
UPROPS = ['\\p{Lu}', '\\p{Ll}', '\\p{L}', '\\P{L}', '\\p{Nd}', '\\p{N}', '\\p{Z}', '\\p{Greek}', '\\p{Script=Cyrillic}', '\\p{Alphabetic}', '\\p{^Lu}',
          '\\p{Han}', '\\P{ASCII}', '\\p{Uppercase}', '\\p{Sc}', '\\p{Punct}', '\\p{Any}', '\\p{Cn}', '\\p{Block=Hebrew}', '\\p{White_Space}', '\\p{gc=Lt}', '\\p{Lt}',
          '\\p{Age=3.0}', '\\p{IDS}', '\\p{Foo}', '\\p{Lowercase}', '\\P{Lowercase}', '\\p{Emoji}', '\\p{sc=Latn}', '\\P{Greek}', '\\p{Co}', '\\p{Cs}']
UNAMES = ['\\N{LATIN SMALL LETTER SHARP S}', '\\N{KELVIN SIGN}', '\\N{GREEK SMALL LETTER FINAL SIGMA}', '\\N{greek small letter sigma}', '\\N{U+212A}', '\\N{LATIN SMALL LETTER LONG S}',
          '\\N{SNOWMAN}', '\\N{NO-BREAK SPACE}', '\\N{CJK UNIFIED IDEOGRAPH-4E2D}', '\\N{HANGUL SYLLABLE GA}', '\\N{BOGUS NAME}', '\\N{U+110000}']
UCPS = [0x4b, 0x6b, 0x212a, 0x53, 0x73, 0x17f, 0xdf, 0x1e9e, 0x69, 0x49, 0x130, 0x131, 0x3c3, 0x3c2, 0x3a3, 0xe5, 0xc5, 0x212b, 0x1c4, 0x1c5, 0x1c6, 0xb5, 0x3bc,
        0x39c, 0x1f80, 0x1f88, 0x10400, 0x10428, 0x24b6, 0x24d0, 0xff21, 0xff41, 0x660, 0x661, 0x969, 0x2160, 0x2170, 0xa0, 0x3000, 0x2028, 0x85, 0x1680, 0x180e, 0x200b,
        0x5f, 0xaa, 0x4e00, 0x4e2d, 0x20ac, 0x1f600, 0x378, 0xe000, 0x30, 0x41, 0x61, 0x20, 0x9, 0xb, 0x2d, 0x10ffff, 0x3c9, 0x2126, 0x3a9, 0x1e61, 0x1e60, 0x1e9b]


def p24(rng, i, tier, facts):
    cps = rng.sample(UCPS, 5)
    atoms = []
    for _ in range(rng.choice([1, 2])):
        r = rng.random()
        if r < 0.3:
            s = rng.choice(UPROPS)
        elif r < 0.4:
            s = rng.choice(UNAMES)
        elif r < 0.55:
            s = rng.choice(['\\w', '\\W', '\\d', '\\D', '\\s', '\\S', '\\h', '\\H', '\\v', '\\V', '.'])
        elif r < 0.7:
            s = cx(rng.choice(UCPS))
        elif r < 0.8:
            lo, hi = sorted(rng.sample(UCPS, 2))
            s = '[%s%s-%s]' % ('^' if rng.random() < 0.3 else '', cx(lo), cx(hi))
        else:
            parts = [rng.choice(UPROPS + ['\\w', '\\d', '\\s', cx(rng.choice(UCPS))]) for _ in range(rng.choice([1, 2, 3]))]
            s = '[' + ('^' if rng.random() < 0.4 else '') + rng.choice(['', '&&', '--', '~~']).join(parts) + ']'
        atoms.append(s)
    s = ''.join(atoms)
    if rng.random() < 0.25:
        s = rng.choice(['(?i)', '(?-i)', '(?a)', '(?-a)', '(?ia)', '(?i-a)', '(?a-i)']) + s
    if rng.random() < 0.15:
        s = s + '+'
    pool = cps + rng.sample(UCPS, 18)
    fold = {c: v for c, v in facts.fold()}
    for c in cps:
        pool += fold.get(c, [])
    text = ''
    for c in pool:
        text += chr(c)
    enc = rng.choice(['UTF-8', 'UTF-8', 'UTF-16LE', 'UTF-16BE', 'UTF-32LE'])
    b = text.encode(PYENC[enc], 'ignore')
    return maybe_ops([(s, int(rng.random() < 0.05), int(rng.random() < 0.55), int(rng.random() < 0.6), enc)], b, rng.choice(DEPTHS))


# ---- P14, P15: windows ------------------------------------------------------
DECS = UTFS + ['utf-8', 'Utf-16le', 'latin1']


def buffer_in(rng, facts, enc, n):
    """Bytes which mostly make sense in an encoding, and where characters begin."""
    core = [t for t in enc.split('|') if t.lower() not in ('identity', 'oce')][0]
    if core.upper() in PYENC:
        pool = CPPOOL if core.upper() != 'ASCII' else [c for c in CPPOOL if c < 128]
    else:
        tab = facts.enc(facts.canon(core))[0]
        pool = [c for c in CPPOOL if c in tab] + rng.sample(sorted(tab), min(8, len(tab)))
    pool = rng.sample(pool, min(len(pool), 6)) + [0x61, 0x0a]
    if rng.random() < 0.1:
        pool.append(0)
    from lg import un_oce
    oce, k = un_oce(), sum(1 for t in enc.split('|') if t.lower() == 'oce')
    b, at = b'', [0]
    noise = rng.choice([0, 0, 0.1, 0.4])
    while len(b) < n:
        if rng.random() < noise:
            x = bytes(rng.choice([0, 0x41, 0x80, 0xa4, 0xbf, 0xc3, 0xd8, 0xdc, 0xe2, 0xed, 0xf0, 0xf4, 0xff, 0x10, 0x8f, 0x90]) for _ in range(rng.choice([1, 1, 2, 3])))
        else:
            x = encode_with(facts, core, [rng.choice(pool)], rng)
            if not x:
                x = b'a'
            if rng.random() < 0.06:
                x = x[:-1] or x
        b += x
        at.append(len(b))
    for _ in range(k):
        b = bytes(oce[y] for y in b)
    return b, at


def dec_enc(rng, facts):
    r = rng.random()
    e = rng.choice(UTFS) if r < 0.7 else rng.choice(known(facts, LEGACY))
    if rng.random() < 0.2:
        e = '|'.join(['identity'] * rng.choice([0, 1]) + [e] + rng.choice([['OCE'], ['identity'], ['oce', 'OCE'], []]))
    if rng.random() < 0.2:
        e = recase(rng, e)
    return e


def a_hit(rng, b, at):
    n = len(b)
    if rng.random() < 0.75 and len(at) > 1:
        x, y = sorted(rng.sample(at, 2))
    else:
        x, y = sorted((rng.randint(0, n), rng.randint(0, n)))
    if rng.random() < 0.3:
        y = min(n, x + rng.choice([1, 2, 3, 4]))
    return x, y


def few_encs(rng, facts):
    """TLC gets a table of each encoding which a batch mentions: use few."""
    return [dec_enc(rng, facts) for _ in range(3)]


def p14(rng, i, tier, facts):
    ops = [dict(op='dec', d='d')]
    for _ in range(rng.choice([1, 2, 3])):
        e = dec_enc(rng, facts)
        b, at = buffer_in(rng, facts, e, rng.choice([0, 1, 3, 8, 16, 30]))
        for _ in range(rng.choice([1, 2])):
            x, y = a_hit(rng, b, at)
            off = rng.choice(BASES)
            ee = e if rng.random() < 0.96 else rng.choice(BADENC)
            ops.append(dict(op='win', d='d', bytes=b, off=off, hb=off + x, he=off + y, enc=ee.encode(),
                            pre=rng.choice([0, 1, 2, 3, 5, 9, 40]), post=rng.choice([0, 1, 2, 3, 5, 9, 40])))
    return ops


REPLS = [0xfffd, 0xfffd, 0x3f, 0x2588, 0xe9, 0x1f4a9, 0x10ffff, 1, 0x7f]


def p15(rng, i, tier, facts):
    ops = [dict(op='dec', d='d')]
    for _ in range(rng.choice([1, 2, 3])):
        e = dec_enc(rng, facts)
        b, at = buffer_in(rng, facts, e, rng.choice([0, 1, 3, 8, 16, 30]))
        for _ in range(rng.choice([1, 2])):
            x, y = a_hit(rng, b, at)
            off = rng.choice(BASES)
            ee = e if rng.random() < 0.96 else rng.choice(BADENC)
            ops.append(dict(op='hctx', d='d', bytes=b, off=off, hb=off + x, he=off + y, enc=ee.encode(),
                            n=rng.choice([0, 1, 2, 3, 5, 9, 40]), repl=rng.choice(REPLS)))
    return ops


# ---- P16: keyword lists -----------------------------------------------------
def p16(rng, i, tier):
    lang = Lang('abc', extra=[('cls', 'é', [233]), ('cls', '\\zff', [255])])
    ops = [dict(op='fsm', f='f')]
    trees = []
    if rng.random() < 0.3:
        ops += [pat('p', 'ab'), add('f', 'p', 'ASCII', 5)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        lines = []
        want = int(rng.random() > 0.15)
        for j in range(rng.choice([0, 1, 2, 4, 7])):
            r = rng.random()
            if r < 0.2 and want:
                s = rng.choice([x for x in BADPAT + NULLPAT if x and '\n' not in x])
            else:
                x = keyword(rng, lang if want else Lang('abc'), 2)
                trees.append(x)
                s = show(x)
            cols = [s]
            if rng.random() < 0.7:
                es = [rng.choice(GOODENC) if rng.random() < 0.85 else rng.choice(BADENC) for _ in range(rng.choice([1, 1, 2, 3]))]
                cols.append(','.join(es) or 'ASCII')
                if rng.random() < 0.05:
                    cols[-1] = rng.choice([',', ',,', ',ASCII,', 'ASCII,,UTF-8'])
                while len(cols) < 6 and rng.random() < 0.6:
                    cols.append(rng.choice(['0', '1', '0', '1', '0', '1', '0', '1', '2', 'x', 'true', '10', ' 1']))
            ln = '\t'.join(cols)
            if rng.random() < 0.08:
                ln = rng.choice(['\t' + ln, ln + '\t', ln.replace('\t', '\t\t')])
            if rng.random() < 0.06:
                ln = rng.choice(['', '\t', '\t\t', ' '])
            lines.append(ln)
        eol = rng.choice(['\n', '\n', '\r\n', '\r', '\n\n'])
        text = eol.join(lines) + rng.choice(['', eol])
        tb = text.encode()
        if rng.random() < 0.04:
            tb = tb[:len(tb) // 2] + rng.choice([b'\xff', b'\xc3']) + tb[len(tb) // 2:]
        defs = [rng.choice(GOODENC if rng.random() < 0.9 else BADENC).encode() for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        ops.append(dict(op='plist', f='f', text=tb, src=rng.choice([b'keys.txt', b'', b'a b']), encs=defs, fx=int(rng.random() < 0.15),
                        ci=int(rng.random() < 0.3), un=int(rng.random() < 0.3), want=want))
        ops += [dict(op='fcount', f='f'), dict(op='finfos', f='f')]
    b = text_for(rng, trees, 'abc', 18, noise=0.4) + rng.choice([b'', b'\xff\xe9', 'é'.encode()])
    ops += [pat('s', 'zz'), add('f', 's', 'ASCII', 77), dict(op='finfos', f='f'),
            dict(op='prog', g='g', f='f', depth=rng.choice(DEPTHS)), dict(op='pinfos', g='g'),
            dict(op='ctx', c='c', g='g')] + stream(rng, b, 0) + [close()]
    return ops


# ---- P17 ... P21: the command line ------------------------------------------
CLIENC = ['ASCII', 'US-ASCII', 'UTF-8', 'utf-8', 'UTF-16LE', 'utf-16be', 'UTF-32LE', 'windows-1252', 'ISO-8859-1', 'Shift_JIS', 'ASCII|OCE', 'UTF-8|OCE']


def cli_keys(rng, langs, bad=0.0, encs=None, single=False, depth=2, odd=True):
    """(ks, trees, way)"""
    trees, n = [], 1 if single else rng.choice([1, 1, 2, 3, 5])
    encs = sorted(set(encs or CLIENC))

    def kw():
        x = keyword(rng, rng.choice(langs), depth, limit=16)
        trees.append(x)
        return show(x)
    seen = set()

    def one():
        for _ in range(50):
            s = rng.choice([p for p in BADPAT + NULLPAT if p and not set(p) & set('\n\t\0') and p.isprintable()]) if rng.random() < bad else kw()
            if s not in seen:
                break
        seen.add(s)
        return s
    ks = dict(pats=[], lists=[], encs=[], fx=int(rng.random() < 0.06), ci=int(rng.random() < 0.2))
    if rng.random() < 0.3:
        ks['encs'], ks['noenc'] = [b'US-ASCII'], 1
    else:
        ks['encs'] = [e.encode() for e in rng.sample(encs, rng.choice([1, 1, 1, 2]))]
        if bad and rng.random() < bad:
            ks['encs'].append(rng.choice([b'nope', b'UTF-9', b'ASCII|ASCII', b'rot13']))
    if rng.random() < 0.4:
        ks['pats'] = [one().encode() for _ in range(n)]
        if odd and rng.random() < 0.05:
            ks['pats'].append(rng.choice([b'a\tb', b'\ta', b'a\nb', b'a\r', b'b\t']))
        if rng.random() < 0.05 and not ks.get('noenc'):
            ks['encs'] = [b','.join(ks['encs'])]
    else:
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            lines = []
            for _ in range(rng.randint(0 if j else 1, n)):
                ln = one()
                if rng.random() < 0.5:
                    es = rng.sample(encs, rng.choice([1, 1, 2]))
                    if bad and rng.random() < bad:
                        es.append('nope')
                    ln += '\t' + ','.join(es)
                    if rng.random() < 0.5:
                        ln += '\t' + rng.choice('01') * 1
                        if rng.random() < 0.5:
                            ln += '\t' + rng.choice('01')
                            if rng.random() < 0.3:
                                ln += '\t' + rng.choice('01')
                        if bad and rng.random() < bad:
                            ln += '\tx'
                lines.append(ln)
            text = ''.join(l + rng.choice(['\n', '\n', '\r\n']) for l in lines)
            if rng.random() < 0.2:
                text = text.rstrip('\r\n')
            ks['lists'].append(dict(src=b'keys%d.txt' % j, text=text.encode()))
    way = rng.choice(['pos', 'opt', 'long'])
    return ks, trees, way


def cli_enc(ks):
    return [x for e in ks['encs'] for x in e.decode('latin-1').split(',')]


CLIPY = {'utf-8': 'utf-8', 'utf-16le': 'utf-16-le', 'utf-16be': 'utf-16-be', 'utf-32le': 'utf-32-le',
         'windows-1252': 'cp1252', 'iso-8859-1': 'latin-1', 'shift_jis': 'shift_jis'}


def cli_text(rng, trees, letters, n, ks, newlines=0.15):
    parts, m = b'', rng.choice([1, 1, 2, 3])
    es = cli_enc(ks) + [x for l in ks['lists'] for ln in l['text'].decode().split('\n') if '\t' in ln for x in ln.split('\t')[1].split(',')]
    while len(parts) < n:
        e = rng.choice(es + ['utf-8']).lower().split('|')[-1]
        b = text_for(rng, trees, letters, max(1, n // m), CLIPY.get(e, 'utf-8'), noise=0.35)
        if rng.random() < newlines * 3:
            k = rng.randint(0, len(b))
            b = b[:k] + rng.choice([b'\n', b'\n', b'\r\n', b'\n\n', b'\r', b'\t', b'\x00', b'\x07', b'\xff', b'\xc3']) + b[k:]
        parts += b
        if rng.random() < newlines:
            parts += rng.choice([b'\n', b'\r\n'])
        if rng.random() < 0.1:
            break
    return parts[:n + 8]


def ctx_lines(rng, trees, letters, n, ks):
    """Text of several lines."""
    out = b''
    for _ in range(rng.randint(1, n)):
        out += cli_text(rng, trees, letters, rng.choice([0, 1, 2, 4, 8]), ks, 0.05) + rng.choice([b'\n', b'\n', b'\n', b'\r\n', b'\r\n', b'\n\r', b'\r'])
    return out if rng.random() < 0.6 else out[:-1]


NAMES = [b'a', b'b.txt', b'c d', b'e', b'zz', b'0']


def cli_run(ks, way, fs, toks, **kw):
    op = dict(op='trun', f='t', by='', ks=ks, way=way, fs=fs, dirs=[], toks=toks, stdin=b'', rec=0, ord=1, shown=0, before=-1, after=-1,
              quiet=0, whist=0, opts=[])
    op.update(kw)
    return op


BLOCKS = [1, 2, 3, 4, 5, 7, 8, 13, 16, 64, 4096]


def p17(rng, i, tier):
    langs = [Lang('ab'), Lang('abc'), Lang('ab\n', dot=True), Lang('aé')]
    lang = rng.choice(langs)
    ks, trees, way = cli_keys(rng, [lang], bad=0.0 if '\n' in lang.letters else 0.1, odd='\n' in lang.letters)
    ops = [dict(op='tval', f='t', ks=ks, way=way)]
    size = [0, 1, 3, 8, 16, 30]
    one = cli_text(rng, trees, lang.letters, rng.choice(size[1:]), ks)
    # one text, in several ways
    for _ in range(rng.choice([1, 2, 3])):
        r = rng.random()
        opts = []
        if rng.random() < 0.7:
            opts += [b'--block-size', b'%d' % rng.choice(BLOCKS + [max(1, len(one)), max(1, len(one) - 1), max(1, len(one) // 2), len(one) + 1])]
        if rng.random() < 0.3:
            opts += [b'--determinize-depth', b'%d' % rng.choice([0, 1, 2, 5, 100])]
        more = dict(tofile=int(rng.random() < 0.2), verbose=int(rng.random() < 0.3))
        if r < 0.3:
            h = rng.choice([b'-h', b'-H', None])
            if h == b'-H':
                opts.append(h)
            ops.append(cli_run(ks, way, [], [b'-'], stdin=one, bare=1, shown=int(h == b'-H'), opts=opts, **more))
        else:
            if rng.random() < 0.4:
                opts.append(b'--mmap')
            h = rng.choice([b'-h', b'-H', None])
            if h:
                opts.append(h)
            ops.append(cli_run(ks, way, [dict(name=b'f', b=one)], [b'f'], shown=int(h != b'-h'), opts=opts, nlist=rng.choice([0, 0, 1]), **more))
    # several files
    if rng.random() < 0.7:
        mm = rng.random() < 0.4
        opts = [b'--mmap'] if mm else []
        if rng.random() < 0.7:
            opts += [b'--block-size', b'%d' % rng.choice(BLOCKS)]
        rec = int(rng.random() < 0.4)
        fs, dirs, junk = [], [], []
        for nm in rng.sample(NAMES, rng.choice([1, 2, 3])):
            fs.append(dict(name=nm, b=cli_text(rng, trees, lang.letters, rng.choice(size), ks) if rng.random() < 0.85 else b''))
        if rec or rng.random() < 0.2:
            dirs = [b'd', b'd/s', b'x'][:rng.randint(1, 3)]
            for dn in dirs:
                for nm in rng.sample(NAMES, rng.choice([0, 1, 1, 2])):
                    fs.append(dict(name=dn + b'/' + nm, b=cli_text(rng, trees, lang.letters, rng.choice(size[:4]), ks)))
            if rng.random() < 0.3:
                junk.append(dict(name=dirs[-1] + b'/junk', kind=rng.choice(['fifo', 'link'])))
        toks = [f['name'] for f in fs if b'/' not in f['name']] + [x for x in (b'd', b'x') if x in dirs]
        rng.shuffle(toks)
        if not rec and rng.random() < 0.3:
            toks.append(rng.choice(toks))
        stdin = b''
        if not mm and rng.random() < 0.25:
            toks.insert(rng.randint(0, len(toks)), b'-')
            stdin = cli_text(rng, trees, lang.letters, rng.choice(size), ks)
        nl = rng.choice([0, 0, 1, len(toks)])
        nl = min(nl, len(toks))
        unordered = rec and bool(dirs)
        h = None if unordered else rng.choice([b'-h', b'-H', None, None])
        if h:
            opts.append(h)
        ops.append(cli_run(ks, way, fs, toks, dirs=dirs, junk=junk, stdin=stdin, rec=rec, ord=int(not unordered), shown=int(h != b'-h'),
                           opts=opts, nlist=nl, verbose=int(rng.random() < 0.3)))
    return ops


def p18(rng, i, tier):
    lang = rng.choice([Lang('ab'), Lang('ab\n'), Lang('aé'), Lang('ab\r\n', dot=False)])
    ks, trees, way = cli_keys(rng, [lang], encs=['ASCII', 'UTF-8', 'UTF-16LE', 'UTF-16BE', 'windows-1252', 'Shift_JIS', 'UTF-8|OCE', 'UTF-8'])
    ops = [dict(op='tval', f='t', ks=ks, way=way)]
    for _ in range(rng.choice([1, 2])):
        fs = [dict(name=nm, b=ctx_lines(rng, trees, lang.letters, rng.choice([1, 3, 6]), ks)[:44]) for nm in rng.sample(NAMES, rng.choice([1, 1, 2]))]
        before, after = rng.choice([(0, 0), (1, 1), (2, 2), (0, -1), (-1, 0), (1, 0), (0, 1), (2, -1), (-1, 2), (3, 1), (1, 5), (9, 9)])
        opts, h = [], rng.choice([b'-h', None])
        if h:
            opts.append(h)
        if rng.random() < 0.5:
            opts += [b'--block-size', b'%d' % rng.choice(BLOCKS)]
        if rng.random() < 0.3:
            opts.append(b'--mmap')
        kw = {}
        if rng.random() < 0.3:
            kw['sep'] = rng.choice([b'', b'==', b'a'])
        if rng.random() < 0.2:
            kw['whist'] = 1
        ops.append(cli_run(ks, way, fs, [f['name'] for f in fs], shown=int(not h), opts=opts, before=before, after=after, c=int(rng.random() < 0.7), **kw))
    return ops


def like(rng, b):
    """A text of the same shape: hits are in the same places, but of other texts."""
    alt = {97: b'bA', 98: b'aB', 65: b'a', 66: b'b', 9: b'a', 10: b'ab', 92: b'ab'}
    p = rng.choice([0.1, 0.3, 0.6])
    return bytes(rng.choice(alt[x]) if x in alt and rng.random() < p else x for x in b)


def p19(rng, i, tier):
    lang = rng.choice([Lang('ab'), Lang('a\n\tb'), Lang('aé'), Lang('ab\\')])
    ks, trees, way = cli_keys(rng, [lang], encs=['ASCII', 'UTF-8', 'UTF-16LE', 'windows-1252', 'UTF-8', 'UTF-16BE', 'Shift_JIS'])
    ops = [dict(op='tval', f='t', ks=ks, way=way)]
    for _ in range(rng.choice([1, 2])):
        quiet = int(rng.random() < 0.3)
        fs = [dict(name=nm, b=cli_text(rng, trees, lang.letters, rng.choice([4, 10, 24, 40]), ks)) for nm in rng.sample(NAMES, rng.choice([1, 1, 2, 3]))]
        # inputs of the same shape, with few hits
        same = rng.random() < 0.4
        if same:
            one = cli_text(rng, trees, lang.letters, rng.choice([1, 2, 4, 10]), ks)
            fs = [dict(name=nm, b=like(rng, one)) for nm in rng.sample(NAMES, rng.choice([2, 3, 4]))]
        opts = []
        stdin = rng.random() < 0.25
        before, after = (-1, -1)
        if not stdin and rng.random() < 0.2:
            before, after = rng.choice([(0, 0), (1, 1), (0, -1), (-1, 1)])
        if rng.random() < 0.7:
            opts += [b'--block-size', b'%d' % rng.choice(BLOCKS)]
        if stdin:
            opts += [b'-H']
            ops.append(cli_run(ks, way, [], [b'-'], stdin=fs[0]['b'], bare=1, shown=1, opts=opts, whist=1, quiet=quiet))
        else:
            if rng.random() < (0.6 if same else 0.4):
                opts.append(b'--mmap')
            ops.append(cli_run(ks, way, fs, [f['name'] for f in fs], shown=1, opts=opts, whist=1, quiet=quiet, before=before, after=after))
    return ops


def p20(rng, i, tier):
    lang = rng.choice([Lang('ab', dot=False), Lang('abc', dot=False, extra=[('cls', '[\\x20-\\x7e]', [65]), ('cls', '\\d', [48]), ('cls', '[\\x{e0}-\\x{1ff}]', [0xe0])]),
                       Lang('ab', dot=False, extra=[('cls', c, [k]) for c, k in (('\\x7f', 127), ('[\\x7f]', 127), ('\\x01', 1), ('[\\x01-\\x08]', 1), ('[\\x7f-\\xa0]', 0x80),
                                                                              (' ', 32), ('[ -!]', 32), ('[\\x1f-\\x20]', 32), ('[~\\x7f]', 126), ('[\\x{ff}-\\x{100}]', 255))]),
                       Lang('abcd', classes=False)])
    ks, trees, way = cli_keys(rng, [lang], single=rng.random() < 0.6, encs=['ASCII', 'UTF-8', 'UTF-16LE', 'UTF-16BE', 'windows-1252', 'ASCII|OCE'], depth=4, odd=False)
    ops = [dict(op='tval', f='t', ks=ks, way=way)]
    for _ in range(2):
        ops.append(dict(op='tsamp', f='t', ks=ks, way=way, limit=rng.choice([0, 1, 2, 5, 20, 60]), loops=rng.choice([1, 1, 2, 3, 5])))
    return ops


def p21(rng, i, tier):
    lang = rng.choice([Lang('ab'), Lang('abc'), Lang('aé')])
    bad = rng.choice([0, 0.15, 0.4])
    ks, trees, way = cli_keys(rng, [lang], bad=bad, odd=not bad)
    ops = [dict(op='tval', f='t', ks=ks, way=way)]
    pr = dict(op='tprog', f='t', b='prog.bin', ks=ks, way=way)
    if rng.random() < 0.6:
        pr['depth'] = rng.choice([0, 1, 2, 3, 10])
    ops.append(pr)
    for _ in range(rng.choice([1, 2])):
        fs = [dict(name=nm, b=cli_text(rng, trees, lang.letters, rng.choice([0, 4, 10, 24]), ks)) for nm in rng.sample(NAMES, rng.choice([1, 1, 2]))]
        opts = [b'--block-size', b'%d' % rng.choice(BLOCKS)] if rng.random() < 0.5 else []
        ctx = dict(before=1, after=0) if rng.random() < 0.15 else {}
        ops.append(cli_run(ks, way, fs, [f['name'] for f in fs], by='prog.bin', shown=1, opts=opts, whist=int(rng.random() < 0.2), **ctx))
    return ops


# ---- P22, P23: the bindings --------------------------------------------------
BINDENC = ['UTF-8', 'UTF-8', 'ASCII', 'UTF-16LE', 'utf-16be', 'UTF-32LE', 'UTF-8|OCE', 'windows-1252', 'identity|UTF-8']
BINDBAD = ['+++', 'a{', '(a', '[z-a]', '\\x{110000}', 'a)', 'x*', '', '\\p{Nope}', 'é{2,1}', "it's (", '(?<=a)b', '😀**+', 'a\x00(']
JIDX = [0, 1, -1, 7, (1 << 31) - 1, -(1 << 31), 12345]


def bind_text(rng, trees, langs, kws, n):
    out = b''
    for _ in range(rng.choice([2, 3, 4, 5])):
        j = rng.randrange(len(trees))
        cps = sample(trees[j], rng) if rng.random() < 0.75 else [ord(rng.choice(langs[j].letters))]
        e = kws[j][4].decode()
        core = [t for t in e.split('|') if t.lower() not in ('identity', 'oce')][0]
        b = enc_cp(cps, PYENC[core.upper()] if core.upper() in PYENC else 'cp1252')
        if 'OCE' in e:
            from lg import un_oce
            b = bytes(un_oce()[y] for y in b)
        out += b
        if rng.random() < 0.3:
            out += bytes([rng.choice([0, 0x20, 0x61, 0x80, 0xff])])
    return out[:n]


def binding(rng, lang):
    py = lang == 'py'
    kws, trees, langs = [], [], []
    for j in range(rng.choice([1, 1, 2, 3, 5])):
        e = rng.choice(BINDENC)
        core = [t for t in e.split('|') if t.lower() not in ('identity', 'oce')][0]
        l = Lang('abc') if core == 'ASCII' else Lang('aéß' if core == 'windows-1252' else rng.choice(['abc', 'aé中', 'a😀é', 'x\U0001F4A9\uffff']))
        x = keyword(rng, l, 2, limit=16)
        kws.append((show(x), int(rng.random() < 0.08), int(rng.random() < 0.15), int(rng.random() < 0.5), e.encode()))
        trees.append(x)
        langs.append(l)
    bad = rng.random() < 0.35
    way = rng.choice(['steps', 'steps', 'all', 'mk'] if py else ['steps'])
    ops = []
    uses = ['bytes', 'bytes', 'bytearray', 'view', 'slice', 'array', 'mmap'] if py else ['array', 'array', 'part', 'wrap', 'slice', 'ro', 'direct', 'dslice', 'droom']
    depth = rng.choice(DEPTHS) if py else rng.choice([0, 1])
    live = []
    if way == 'steps':
        ops.append(dict(op='fsm', f='f', h1=rng.choice([0, 1, 10]), h2=rng.choice([0, 1, 1000])))
        for j, (t, fx, ci, un, e) in enumerate(kws):
            if bad and rng.random() < 0.5:
                t0, _, more = rng.choice(BINDBAD).partition('\0')
                if more and not py:
                    t0, more = t0.encode() + b'\xc0\x80' + more.encode(), ''
                ops.append(pat('p', t0, int(rng.random() < 0.1), 0, int(rng.random() < 0.5), **({'tail': b'\0' + more.encode()} if more else {})))
                if rng.random() < 0.5:
                    ops.append(dict(add('f', 'p', 'UTF-8', 9000 + j), pat=ops[-1]['bytes']))
            ops.append(pat('p', t, fx, ci, un))
            if bad and rng.random() < 0.3:
                ops.append(dict(add('f', 'p', rng.choice(['', 'nope', 'UTF-8|', 'ÜTF-8', 'UTF-8|UTF-8', 'OCE|UTF-8']), 8000 + j), pat=ops[-1]['bytes']))
            idx = (rng.getrandbits(64) if rng.random() < 0.3 else j + 1000 * j) if py else rng.choice(JIDX) + 0 * j
            ops.append(dict(add('f', 'p', e, idx), pat=t.encode()))
            if rng.random() < 0.2:
                ops.append(dict(op='fcount', f='f'))
        if not py and rng.random() < 0.5:
            ops.append(dict(op='finfos', f='f'))
        if not py and rng.random() < 0.3:
            ops.append(dict(op='setidx', h='f', f='f', k=rng.choice([0, 0, 1, 4, 7]), idx=rng.choice(JIDX)))
            ops.append(dict(op='finfos', f='f'))
        ops.append(dict(op='prog', g='g', f='f', depth=depth))
        live += ['dfsm', 'dpat']
    else:
        items = [dict(bytes=t.encode(), fx=fx, ci=ci, un=un, encs=[e] + ([x for x in [b'UTF-16BE', b'ascii'] if rng.random() < 0.3])) for t, fx, ci, un, e in kws]
        if bad:
            k = rng.randrange(len(items) + 1)
            if rng.random() < 0.5:
                items.insert(k, dict(bytes=rng.choice([b for b in BINDBAD if b]).encode(), fx=0, ci=0, un=0, encs=[b'UTF-8']))
            else:
                items.insert(k, dict(bytes=b'ab', fx=0, ci=0, un=0, encs=[b'UTF-8', rng.choice([b'nope', 'ÜTF'.encode()]), b'ASCII']))
        if way == 'mk':
            if rng.random() < 0.05:
                items = []
            if items:
                ops.append(dict(op='mk', g='g', kws=items, depth=depth))
        if way == 'all' or not ops:
            ops.append(dict(op='fsm', f='f', h1=0, h2=0))
            if items:
                ops.append(dict(op='addall', f='f', kws=items))
            ops.append(dict(op='fcount', f='f'))
            ops.append(dict(op='prog', g='g', f='f', depth=depth))
            live.append('dfsm')
        if bad:
            return ops + [dict(op='pcount', g='g')]
    g = 'g'
    ops.append(dict(op='pcount', g=g))
    if not py and rng.random() < 0.5:
        ops.append(dict(op='pinfos', g=g))
    if not py and rng.random() < 0.3:
        ops.append(dict(op='setidx', h='g', g='g', k=rng.choice([0, 0, 1, 4, 7]), idx=rng.choice(JIDX)))
        ops.append(dict(op='pinfos', g='g'))
    progs = ['g']
    if rng.random() < 0.5:
        ops.append(dict(op='write', b='b', g='g', at=rng.choice([0, 0, 1, 3, 100])))
        if rng.random() < 0.3:
            ops.append(dict(op='readcut', b='b', n=rng.choice([0, 1, 7, 8, 9, 15, -1, -2, -9]), how=rng.choice(uses[:4])))
        ops.append(dict(op='read', g='g2', b='b', how=rng.choice([u for u in uses if u != 'mmap'])))
        ops += [dict(op='write', b='b2', g='g2', at=0), dict(op='wsame', b='b', b2='b2'), dict(op='pcount', g='g2')]
        if not py:
            ops.append(dict(op='pinfos', g='g2'))
        live += ['dbuf', 'dprog g2']
        progs.append('g2')
    live.append('dprog g')
    ctxs = {}
    for c in ['c', 'c1'][:rng.choice([1, 1, 2])]:
        ctxs[c] = rng.choice(progs)
        ops.append(dict(op='ctx', c=c, g=ctxs[c]))
        live.append('dctx ' + c)

    def using(c):
        r = []
        for _ in range(rng.choice([1, 2])):
            b = bind_text(rng, trees, langs, kws, rng.choice([0, 6, 16, 30]))
            kind = rng.random()
            extra = dict(named=1, acc=int(rng.random() < 0.5), clear=int(rng.random() < 0.2)) if py else {}
            how = lambda: rng.choice(uses)
            if py and kind < 0.35:
                r.append(dict(op='whole', c=c, bytes=b, how=how(), **extra))
            elif py and kind < 0.45:
                r.append(dict(op='wstart', c=c, bytes=b, how=how(), **extra))
            elif kind < 0.6:
                r.append(dict(op='starts', c=c, off=rng.choice(BASES if py else JBASES), bytes=b, how=how(), **extra))
            else:
                for s in stream(rng, b, rng.choice(BASES if py else JBASES), c):
                    r.append(dict(s, how=how(), **extra))
                if not py and rng.random() < 0.15:
                    r.append(dict(op='threw', c=c, off=r[-1]['off'] + len(r[-1]['bytes']), bytes=bind_text(rng, trees, langs, kws, 16), how=how(),
                                  stop=rng.choice([1, 1, 2, 3])))
                elif rng.random() < 0.8:
                    r.append(dict(op='close', c=c, **extra))
                r.append(dict(op='reset', c=c))
        return r
    rng.shuffle(live)
    closed = set()
    dead = set()
    for d in [None] + live:
        if d:
            t = d.split()
            how = rng.choice(['close', 'twice', 'with', 'del', 'del'])
            key = {'dfsm': dict(f='f'), 'dpat': dict(p='p'), 'dbuf': dict(b='b'), 'dprog': dict(g=t[-1]), 'dctx': dict(c=t[-1])}[t[0]]
            if t[0] == 'dbuf':
                how = 'del'
            ops.append(dict(op=t[0], way=how, **key))
            if how != 'del' and rng.random() < 0.6:
                ops.append(dict(op='gone'))
            if t[0] == 'dprog' and how != 'del' and py:
                closed.add(t[1])
            if t[0] == 'dctx':
                dead.add(t[1])
        for c in ctxs:
            if c not in dead:
                if ctxs[c] not in closed and rng.random() < (1 if d is None else 0.4):
                    ops += using(c)
                elif rng.random() < 0.2:
                    ops.append(dict(op='reset', c=c))
    return ops


JBASES = [0, 0, 1, 100, (1 << 31) - 3, (1 << 32) - 5, (1 << 40) + 1, (1 << 62) + 5]


def p22(rng, i, tier, facts):
    if i % 5 == 4:
        return [dict(o, how=rng.choice(['bytes', 'bytearray', 'view', 'slice', 'array', 'mmap']), repl=0x20) if o['op'] == 'hctx' else o
                for o in p15(rng, i, tier, facts)]
    return binding(rng, 'py')


def p23(rng, i, tier, facts):
    if i % 5 == 4:
        ops = [dict(o, how=rng.choice(['array', 'part', 'wrap', 'slice', 'ro', 'direct', 'dslice', 'droom'])) if o['op'] == 'hctx' else o
               for o in p15(rng, i, tier, facts)]
        if rng.random() < 0.2:
            ops += [dict(op='ddec', d=ops[0]['d'], way=rng.choice(['close', 'twice', 'with', 'del'])), dict(op='gone')]
        return ops
    return binding(rng, 'java')


# ---- P27: how much a search keeps ---------------------------------------------
def p27(rng, i, tier):
    import sweep
    return sweep.long(rng, i)
