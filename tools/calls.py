"""Histories of calls which TLC draws from spec/Calls.tla, given inputs."""
import json, os, re
import gen, lg

U32 = (1 << 32) - 1
ENV = dict(lg.ENV, SCENARIO_SECONDS='100')


def histories(run, n, depth):
    """n histories, and what exploring the model came to: (histories, states, transitions)."""
    rc, out = lg.tlc('Calls.tla', 'Calls.cfg', run.work, {'DEPTH': '0'}, workers=4)
    if rc:
        raise lg.CheckError('Calls: TLC found the model wrong\n' + out[-3000:])
    tr, st = lg.stats(out)
    hs = []
    for k in range(9):
        rc, out = lg.tlc('Calls.tla', 'Calls.cfg', run.work, {'DEPTH': str(depth)},
                         args=['-simulate', 'num=%d' % (n - len(hs) + 20), '-depth', str(6 * depth), '-seed', str(run.seed * 100 + k)])
        hs += [json.loads(json.loads(x)) for x in re.findall(r'<<"HISTORY", (".*")>>', out)]
        if len(hs) >= n:
            return hs[:n], st, tr
    raise lg.CheckError('Calls: TLC drew no histories\n' + out[-3000:])


# ---- inputs ----------------------------------------------------------------
def junk(r, n, letters=b'ab\\[](){}*+?|^$.,-&~0129xzpPN:<\x00\xff\xc3\xa9\t\n\x80'):
    return bytes(r.choice(letters) if r.random() < 0.9 else r.randrange(256) for _ in range(n))


def spoil(r, b):
    """Some change to a byte string."""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.randrange(len(b) + 1)
        x = r.random()
        if x < 0.3:
            del b[k:k + r.choice([1, 1, 3])]
        elif x < 0.6:
            b[k:k] = junk(r, r.choice([1, 2]))
        elif x < 0.8 and k < len(b):
            b[k] = r.randrange(256)
        else:
            b[k:k] = b[r.randrange(len(b) + 1):][:8]
    return bytes(b)


def deep(r):
    n = r.choice([3, 30, 300, 3000, 20000])
    k = r.randrange(10)
    m = min(n, 1000)
    return [b'(' * n + b'a' + b')' * n, b'(' * n, b'a' * m, b'a|b|' * m + b'c', b'(a|' * m + b'b' + b')' * m,
            b'(' * min(n, 8) + b'a' + b')+?' * min(n, 8), b'[' * m, b'[' * m + b'a' + b']' * m,
            b'[' + b'a-zb-y' * m + b']', b'(?i)' * m + b'a', b'a' + b'{1}' * m][k]


def reps(r):
    k = r.randrange(9)
    n = r.choice([0, 1, 2, 50, 255, 1000])
    return [b'a{%d}' % n, b'(ab?){%d,%d}' % (n // 4, n), b'a{%d,}b' % n, b'(a{%d}b){%d}' % (min(n, 30), min(n, 30)), b'[ab]{1,%d}?a' % n,
            b'((a|b){2}){3}', b'a{%d}' % r.choice([65535, 65536, 4294967295, 4294967296, 10 ** 20]) if r.random() < 0.2 else b'a{1,2}{3,4}?',
            b'(a{0,3}b{0,3}c?){1,%d}' % min(n, 20), b'.{0,%d}x' % min(n, 60)][k]


def pattern(r, cls, trees):
    if cls.startswith('sane'):
        x = gen.keyword(r, r.choice([gen.Lang('ab'), gen.Lang('abc'), gen.FULL]), 3, nonnull=r.random() < 0.8)
        trees.append(x)
        return gen.show(x).encode()
    if cls == 'soup':
        return (gen.soup(r) if r.random() < 0.5 else gen.fuzzed(r, gen.show(gen.keyword(r, gen.FULL, 3)))).encode()
    if cls == 'bytes':
        return junk(r, r.choice([0, 1, 2, 3, 5, 9, 20])) if r.random() < 0.6 else spoil(r, gen.show(gen.keyword(r, gen.FULL, 3)).encode())
    return deep(r) if cls == 'deep' else reps(r)


def encoding(r, cls):
    if cls.startswith('sane'):
        return r.choice(gen.GOODENC).encode()
    if cls == 'chain':
        x = r.choice(gen.GOODENC + gen.BADENC)
        for _ in range(r.choice([1, 1, 2, 5, 40, 120])):
            x = r.choice(['identity|' + x, x + '|OCE', x + '|identity', 'rot13|' + x, x + '|' + r.choice(gen.BADENC + gen.GOODENC), x + '|XOR%d' % r.choice([0, 255, 256])])
        return x.encode()
    if r.random() < 0.1:
        return None
    return junk(r, r.choice([0, 1, 3, 200])) if r.random() < 0.6 else spoil(r, r.choice(gen.GOODENC + gen.BADENC).encode())


def plist(r, cls, trees):
    if cls == 'bytes':
        return junk(r, r.choice([0, 1, 10, 60]))
    out = b''
    for _ in range(r.choice([1, 2, 3, 6])):
        cols = [pattern(r, r.choice(['sane', 'soup', 'bytes']), trees), b','.join(encoding(r, r.choice(['sane', 'bytes'])) or b'' for _ in range(r.choice([1, 2])))]
        cols += [r.choice([b'0', b'1', b'1', b'2', b'x', b'']) for _ in range(3)]
        out += b'\t'.join(cols[:r.randint(1, 5)]) + r.choice([b'\n', b'\n', b'\r\n', b''])
    return out if cls == 'sane' else spoil(r, out)


def text(r, cls, trees):
    if cls == 'empty':
        return r.choice([b'', None])
    n = r.choice([1, 2, 5, 12, 40])
    if cls == 'hit' and trees:
        return gen.text_for(r, trees[-4:], 'ab', n, noise=0.3)
    if r.random() < 0.02:
        return bytes(r.choice(b'ab') for _ in range(5000))
    return bytes(r.choice(b'abc') if r.random() < 0.8 else r.randrange(256) for _ in range(n))


def size(r, cls):
    return r.choice({'small': [0, 1, 2, 5], 'big': [40, 1000, 1 << 20], 'vast': [1 << 31, U32, 1 << 62, (1 << 63) - 1, (1 << 64) - 1, ((1 << 64) - 1) // 4 + 1]}[cls.rstrip('2')])


def fill(r, h, facts):
    trees, fed, base = [], {}, {}
    ops = []
    for e in h:
        o = e['op']
        cls = e.get('in', '')
        op = {'op': o, 'calls': 1}
        op.update((k, e[k]) for k in 'pfgbcd' if k in e)
        flags = dict(fx=int(r.random() < 0.15), ci=int(r.random() < 0.25), un=int(r.random() < 0.25))
        want = int(r.random() < 0.75)
        if o == 'pat':
            op.update(bytes=pattern(r, cls, trees), want=want, **flags)
            if flags['fx']:
                op['bytes'] = op['bytes'][:1000]        # what is long takes long
            if r.random() < 0.3 and want:
                op.update(slice=1, tail=r.choice([b'', b')', b'a']))
        elif o == 'add':
            op.update(enc=encoding(r, cls), idx=r.choice([0, 1, U32, (1 << 64) - 1]), want=want)
        elif o == 'plist':
            op.update(text=plist(r, cls, trees), src=r.choice([b'src', b'', None]), encs=[encoding(r, r.choice(['sane', 'sane', 'bytes'])) or b'' for _ in range(r.choice([0, 1, 1, 2]))],
                      want=want, **flags)
        elif o == 'prog':
            op.update(depth={'sane': r.choice([1, 2, 3, 10]), 'zero': 0, 'full': r.choice([14, U32])}[cls])
        elif o == 'readcut':
            op.update(n=r.choice([0, 1, 7, 8, 9, 12, 15, 16, 17, 24, 40, -1, -2, -4, -7, -8, -9, -12, -16, -20, -40]))
        elif o in ('search', 'resolve', 'starts'):
            c = e['c']
            b = text(r, cls, trees)
            base.setdefault(c, r.choice(gen.BASES))
            off = fed.get(c, 0)
            if o == 'starts':
                off = r.choice([0, off])
            elif e['at'] == 'odd':
                off = r.choice([0, max(0, off - 1), off + 1, off + 100, off // 2])
            op.update(bytes=b, off=(base[c] + off) & lg.M64, rel=off, base=base[c], cb=int(r.random() < 0.8))
            if o == 'search':
                fed[c] = off + len(b or b'')
            elif o == 'starts':
                fed[c] = 0
        elif o == 'close':
            op.update(cb=int(r.random() < 0.85), base=base.get(e['c'], 0))
        elif o in ('reset', 'dctx'):
            fed.pop(e['c'], 0)
            base.pop(e['c'], 0)
        elif o in ('win', 'hctx'):
            enc = r.choice(gen.UTFS + ['windows-1252', 'Shift_JIS', 'UTF-8|OCE']) if e['enc'] == 'sane' else encoding(r, e['enc'])
            if cls == 'sane':
                try:
                    b, at = gen.buffer_in(r, facts, enc, r.choice([1, 3, 8, 30]))
                except Exception:
                    b, at = text(r, 'text', ())[:200], [0]
            else:
                b = (text(r, cls, ()) or b'')[:200]
                at = [0]
            x, y = gen.a_hit(r, b, at)
            off = r.choice(gen.BASES)
            op.update(bytes=b, enc=b'' if enc is None else enc.encode() if isinstance(enc, str) else enc, off=off, hb=off + x, he=off + y)
            if o == 'win':
                op.update(pre=size(r, e['size']), post=size(r, r.choice(['small', e['size']])))
            else:
                op.update(n=size(r, e['size']), repl=r.choice(gen.REPLS + [0, 0xd800, 0x110000, 0x7fffffff, U32]))
        elif o == 'ids':
            op.update(name=encoding(r, cls) or b'')
        ops.append(op)
    return ops + [{'op': 'end', 'calls': 1}]


def scenarios(run, facts, n):
    depth = 40 if run.tier == 'quick' else 70
    hs, st, tr = histories(run, n, depth)
    run.note(states=st, transitions=tr, histories_drawn=len(hs))
    return [{'id': i + 1, 'ops': fill(run.rng(i), h, facts)} for i, h in enumerate(hs)]


# ---- what the specification sees -------------------------------------------
def event(op, ob):
    e = {k: v for k, v in op.items() if k in ('op', 'p', 'f', 'g', 'b', 'c', 'd', 'want', 'cb')}
    if 'fail' in ob or 'skip' in ob:
        e['skip'] = 1
    o = op['op']
    e.setdefault('want', 1)
    for k in ('ret', 'ok', 'n', 'intact', 'lost', 'bad'):
        if k in ob and isinstance(ob[k], int):
            e[k] = lg.clip(ob[k])
    if 'errs' in ob:
        e['nerr'] = len(ob['errs'])
        if any(not x['msg'] for x in ob['errs']):
            e['nerr'] = -1
    if 'infos' in ob:
        e['n'] = len(ob['infos'])
    if 'skip' in e:
        e.update({'off': 0, 'len': 0})
        return e
    if o in ('search', 'resolve', 'starts', 'close'):
        def rel(x):
            return lg.clip(((x - op['base'] + (1 << 63)) & lg.M64) - (1 << 63))
        e['hits'] = [[rel(a), rel(b), lg.clip(k)] for a, b, k in ob['hits']]
        if o != 'close':
            e.update(off=op['rel'], len=len(op['bytes'] or b''))
            e['ret'] = rel(ob.get('ret', 0))
    elif o == 'win':
        e.update(hb=lg.clip(ob['hb']), he=lg.clip(ob['he']), n=len(ob['cps']) - 1, len=len(op['bytes']),
                 lo=lg.clip(min(ob['offs'], default=0)), hi=lg.clip(max(ob['offs'], default=0)))
    elif o == 'hctx':
        e.update(hb=lg.clip(ob['hb']), he=lg.clip(ob['he']), n=len(ob['utf8']), len=len(op['bytes']),
                 lo=lg.clip((ob['ob'] - op['off']) & lg.M64), hi=lg.clip((ob['oe'] - op['off']) & lg.M64))
    elif o == 'ids':
        e['lo'] = min(ob['char'], ob['enc'], ob['byte'])
    return e


def target():
    return lg.B.build(('driver',), 'asan')['driver']


def run_calls(exe, scns, **kw):
    return lg.run_driver_par(exe, scns, env=ENV, **kw)


# ---- what is known to fail -------------------------------------------------
LONG = 200000


def probes(run, known):
    """A pattern so long that the walks over its parse tree exhaust the stack.
    Its outcome is that of one call, so it needs no trace."""
    what = known.get('long-pattern-stack')
    exe = lg.B.build(('driver',), 'std')['driver']
    s = {'id': 1, 'ops': [{'op': 'pat', 'p': 'p', 'bytes': b'a' * LONG, 'want': 1, 'fx': 1, 'ci': 0, 'un': 0}]}
    o = lg.run_driver(exe, [s], env=dict(lg.ENV, SCENARIO_SECONDS='60'))[1]
    if isinstance(o, tuple) and 'exit -11' in o[1]:
        if what:
            run.findings['long-pattern-stack'] = what
        else:
            run.violation({'scenario': s, 'observed': o[1]}, 'a pattern of %d characters: %s' % (LONG, o[1]))
