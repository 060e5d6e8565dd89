"""More runs than TLC can be asked about, to choose from what it is asked.

By the specification what is found is decided by the keywords and the text: not
by where the text is in its stream, by the pieces in which it comes, by how the
program was made, nor by what its context did before. So where two runs differ
in nothing else and yet in what they find, TLC is given the scenario, and it
decides. Runs are also compared with what Python's re finds, where the pattern
means something there; that is a guess only, and it, too, merely chooses."""
import re, signal
import concurrent.futures as cf
import gen, lg
from gen import build_ops, search, close, stream, show, pat, add, some_keywords, small_keyword, text_for, PYENC

DEPTHS = [0, 1, 2, 3, 5, 8, 10]


class Slow(Exception):
    pass


def guess(cache, p, ci, b):
    """The matches of a pattern in ASCII text, as re would have them; None if it takes too long."""
    key = (p, ci, b)
    if key not in cache:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0.05)
            try:
                cache[key] = [m.span() for m in re.finditer(p, b, (re.I if ci else 0) | re.S) if m.end() > m.start()]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except (re.error, Slow, OverflowError, RecursionError):
            cache[key] = None
    return cache[key]


class Alike:
    """Does what was observed for a scenario look as it should?"""

    def __init__(self):
        self.pats, self.fsms, self.progs, self.bufs, self.ctxs = {}, {}, {}, {}, {}
        self.sizes = {}
        self.runs = {}
        self.cache = {}
        self.odd = False

    def done(self, kind, kws, text, at, hits):
        """kind: 'search', 'starts', or where, in the text, hits may begin no more."""
        got = sorted((a - at, b - at, k) for a, b, k in hits)
        if self.runs.setdefault((kind, kws, text), got) != got:
            self.odd = True
        encs = {e for _, _, _, _, e in kws}
        if len(encs) != 1:
            return
        enc = PYENC.get(encs.pop())
        try:
            t = text.decode(enc or 'ascii').encode('ascii')
            w = len(text) // max(1, len(t))
        except (UnicodeError, LookupError):
            return
        for k, (p, fx, ci, un, _) in enumerate(kws):
            if fx or un or not p.isascii():
                continue
            g = guess(self.cache, p, ci, t)
            if g is not None and kind != 'search':
                g = [(a, b) for a, b in g if a * w < (1 if kind == 'starts' else kind)]
            if g is not None and [(a * w, b * w) for a, b in g] != [(a, b) for a, b, j in got if j == k]:
                self.odd = True

    def see(self, op, ob):
        o = op['op']
        if not isinstance(ob, dict) or 'fail' in ob or 'skip' in ob:
            return
        if o == 'par':
            for s, obs in zip(op['scripts'], ob['par']):
                for x, y in zip(s, obs):
                    self.see(x, y)
        elif o == 'pat':
            self.pats[op['p']] = (op['bytes'], op['fx'], op['ci'], op['un']) if ob['ret'] > 0 else None
        elif o == 'fsm':
            self.fsms[op['f']] = ()
        elif o == 'add':
            if ob['ret'] >= 0 and self.pats[op['p']]:
                self.fsms[op['f']] += (self.pats[op['p']] + (op['enc'] if isinstance(op['enc'], str) else op['enc'].decode('latin-1'),),)
        elif o == 'prog':
            self.progs[op['g']] = self.fsms[op['f']]
            self.sizes[op['g']] = ob['size']
        elif o == 'write':
            self.bufs[op['b']] = self.progs[op['g']]
        elif o == 'read':
            self.progs[op['g']] = self.bufs[op['b']]
        elif o == 'ctx':
            self.ctxs[op['c']] = [self.progs[op['g']], None, b'', [], 'search', 0]
            self.sizes[op['c']] = self.sizes.get(op['g'], 0)
        elif o == 'reset':
            c = self.ctxs[op['c']]
            c[1:] = [None, b'', [], 'search', 0]
        elif o in ('search', 'resolve'):
            c = self.ctxs[op['c']]
            if op.get('mem') and c[2] is not None:
                size = self.sizes.get(op['c'], 0)
                if ob['mem'] // 1024 > (size - 8192) // 4 * 192 * (len(c[2] + op['bytes']) + 2) // 1024 + 4:
                    self.odd = True
            if c[1] is None:
                c[1] = op['off']
            if o == 'resolve' and c[4] == 'search':
                c[4] = len(c[2] or b'')
            if c[2] is not None:
                c[2] += op['bytes']
            if any(a < c[5] for a, _, _ in ob['hits']) or ob['ret'] != lg.M64 and (ob['ret'] < c[5] or ob['ret'] > op['off'] + len(op['bytes'])):
                self.odd = True     # it was said that none would begin there
            if ob['ret'] != lg.M64:
                c[5] = ob['ret']
            c[3] += ob['hits']
        elif o == 'close':
            c = self.ctxs[op['c']]
            if c[1] is not None and c[2] is not None:
                self.done(c[4], c[0], c[2], c[1], c[3] + ob['hits'])
                if any(a < c[5] for a, _, _ in ob['hits']):
                    self.odd = True
            c[1:] = [None, None, [], 'search', 0]
        elif o == 'starts':
            self.done('starts', self.ctxs[op['c']][0], op['bytes'], op['off'], ob['hits'])


def odd(s, obs):
    if isinstance(obs, tuple):
        return True
    a = Alike()
    for op, ob in zip(s['ops'], obs):
        a.see(op, ob)
    return a.odd


# ---- the runs ----------------------------------------------------------------
def kin(rng):
    """Patterns with much in common."""
    k = small_keyword(rng)
    ks = [k]
    for _ in range(rng.choice([1, 1, 2, 3])):
        q = gen.quant(rng, rng.choice(gen.ATOMS[2:]))
        ks.append(rng.choice(['[ab]%s', 'a%s', q + '%s', '%sb', '%s' + q, 'b*%s', '(%s){2}']) % k if rng.random() < 0.6 else small_keyword(rng))
    rng.shuffle(ks)
    return ks


def dense(rng, n):
    return ''.join(rng.choices(rng.choice(['ab', 'aab', 'abb', 'ab', 'abz', 'aaaab']), k=n))


def several(rng):
    """Keywords, and a text."""
    if rng.random() < 0.6:
        ks, b = kin(rng), dense(rng, rng.choice([16, 30, 60]))
    else:
        lang = gen.Lang(rng.choice(['ab', 'abc']))
        xs = some_keywords(rng, lang, rng.choice([2, 3, 5]))
        ks, b = [show(x) for x in xs], text_for(rng, xs, lang.letters, rng.choice([20, 40])).decode('latin-1')
    return ks, b


def one(rng, i):        # one keyword
    if i % 2:
        lang = gen.Lang(rng.choice(['ab', 'abc']))
        x = gen.keyword(rng, lang, 4)
        return build_ops([(show(x), 0, 0, 0, 'ASCII')], rng.choice(DEPTHS)) + [search(text_for(rng, [x], lang.letters, 60)), close()]
    return build_ops([(small_keyword(rng), 0, 0, 0, 'ASCII')], rng.choice(DEPTHS)) + [search(gen.all_words(rng, 5)), close()]


def many(rng, i):       # several
    ks, b = several(rng)
    return build_ops([(k, 0, 0, 0, 'ASCII') for k in ks], rng.choice(DEPTHS)) + [search(b.encode('latin-1')), close()]


def pieces(rng, i):     # in pieces, anywhere
    ks, b = several(rng)
    enc = rng.choice(['ASCII', 'ASCII', 'UTF-16LE']) if not re.search(r'\.|\[\^', ' '.join(ks)) else 'ASCII'
    try:
        b = b.encode(PYENC[enc])
    except UnicodeError:
        enc, b = 'ASCII', b.encode('latin-1')
    ops = build_ops([(k, 0, 0, 0, enc) for k in ks], rng.choice(DEPTHS)) + [search(b, 0), close()]
    for _ in range(4):
        base = rng.choice(gen.BASES[2:])
        if rng.random() < 0.6:
            base = max(0, (1 << rng.choice([8, 16, 31, 32, 32, 33, 48, 62])) - rng.choice([0, rng.randint(1, len(b)), rng.randint(1, len(b))]))
        ops += [dict(op='reset', c='c')] + stream(rng, b, base) + [close()]
    return ops


def depths(rng, i):     # compiled in several ways
    ks, b = several(rng) if i % 3 else ([small_keyword(rng)], gen.all_words(rng, 4).decode())
    kws = [(k, 0, 0, 0, 'ASCII') for k in ks]
    ops = []
    for d in rng.sample([0, 1, 2, 3, 4, 5, 6, 8], 4):
        if ops and i % 2:
            ops += [dict(op='prog', g='g', f='f', depth=d), dict(op='ctx', c='c', g='g')]
        else:
            ops += build_ops(kws, d)
        ops += [search(b.encode('latin-1')), close()]
    return ops


def again(rng, i):      # in contexts with a past
    ks, b = several(rng)
    b = b.encode('latin-1')
    ops = build_ops([(k, 0, 0, 0, 'ASCII') for k in ks], rng.choice(DEPTHS))
    for _ in range(4):
        for _ in range(rng.choice([0, 1, 1, 2])):
            x = dense(rng, rng.choice([3, 8, 20])).encode()
            ops += [dict(op='starts', c='c', off=rng.choice(gen.BASES), bytes=x)] if rng.random() < 0.3 else \
                stream(rng, x, rng.choice(gen.BASES)) + ([close()] if rng.random() < 0.3 else [])
            ops += [dict(op='reset', c='c')]
        ops += stream(rng, b, rng.choice(gen.BASES)) + [close(), dict(op='reset', c='c')]
    return ops


def copies(rng, i):     # in a program which was written and read
    ks, b = several(rng)
    b = b.encode('latin-1')
    ops = build_ops([(k, 0, 0, 0, 'ASCII') for k in ks], rng.choice(DEPTHS))
    return ops + [search(b), close(), dict(op='write', b='b', g='g'), dict(op='dctx', c='c'), dict(op='dprog', g='g'),
                  dict(op='read', g='g', b='b'), dict(op='ctx', c='c', g='g'), search(b), close()]


def starts(rng, i):     # at the first byte
    ks, b = several(rng)
    ops = build_ops([(k, 0, 0, 0, 'ASCII') for k in ks], rng.choice(DEPTHS))
    b = b.encode('latin-1')
    return ops + [dict(op='starts', c='c', off=rng.choice(gen.BASES), bytes=b[k:k + rng.choice([1, 3, 8, 20, 60])]) for k in rng.sample(range(len(b)), min(6, len(b)))]


def resolved(rng, i):   # what has begun, and is pursued
    ks, b = several(rng)
    b = b.encode('latin-1')
    ops = build_ops([(k, 0, 0, 0, 'ASCII') for k in ks], rng.choice(DEPTHS))
    for _ in range(3):
        base, cut = rng.choice(gen.BASES), rng.randint(0, len(b))
        ops += stream(rng, b[:cut], base)
        p = cut
        for x in gen.chunks(rng, b[cut:], 3):
            ops.append(dict(op='resolve', c='c', off=base + p, bytes=x))
            p += len(x)
        ops += [close(), dict(op='reset', c='c')]
    return ops


def bounded(rng, i):    # byte by byte
    ks, b = several(rng)
    b = b.encode('latin-1')
    base, step = rng.choice(gen.BASES), rng.choice([1, 1, 2])
    return build_ops([(k, 0, 0, 0, 'ASCII') for k in ks], rng.choice(DEPTHS)) + \
        [search(b[p:p + step], base + p) for p in range(0, len(b), step)] + [close()]


def long(rng, i):       # over a text which much may match
    ks = kin(rng) if i % 4 else [small_keyword(rng)]
    b = (dense(rng, rng.choice([60, 60, 120])) if i % 8 else ''.join(rng.choices('ab', [10, rng.choice([0, 1, 3])], k=500))).encode()
    ops = build_ops([(k, 0, 0, 0, 'ASCII') for k in ks], rng.choice([0, 0, 1, 2, 3, 5, 8]))
    if rng.random() < 0.3:
        return ops + [dict(o, mem=1) if o['op'] == 'search' else o for o in stream(rng, b, 0)]
    return ops + [search(b, mem=1)]


# property: (generator, how many where the check is quick, and thorough)
SWEEPS = {'P01': (one, 40000, 800000), 'P02': (many, 40000, 600000), 'P03': (pieces, 24000, 400000), 'P04': (bounded, 20000, 300000),
          'P05': (depths, 20000, 300000), 'P06': (starts, 20000, 300000), 'P07': (resolved, 20000, 300000), 'P08': (again, 16000, 200000),
          'P09': (copies, 16000, 200000), 'P27': (long, 40000, 400000)}
MOST = 40       # scenarios given to TLC


def part(prop, seed, exe, lo, hi):
    """The odd ones of some runs, in a process of its own."""
    import random

    def slow(*_):
        raise Slow()
    signal.signal(signal.SIGALRM, slow)
    g = SWEEPS[prop][0]
    scns = [{'id': 1000000 + i, 'ops': g(random.Random('%s/%s/sweep/%d' % (prop, seed, i)), i)} for i in range(lo, hi)]
    obs = lg.run_driver(exe, scns)
    return [s for s in scns if odd(s, obs[s['id']])]


def choose(run, exe, n):
    step = 250
    found, swept = [], 0
    with cf.ProcessPoolExecutor(lg.NCPU) as ex:
        for lo in range(0, n, step * lg.NCPU * 4):      # until there are enough
            jobs = [(run.prop, run.seed, exe, k, min(n, k + step)) for k in range(lo, min(n, lo + step * lg.NCPU * 4), step)]
            for r in ex.map(part, *zip(*jobs)):
                found += r
            swept = jobs[-1][-1]
            if len(found) >= MOST:
                break
    run.note(runs_swept=swept, runs_which_stand_out=len(found))
    return found[:MOST]
