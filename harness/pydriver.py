"""Drives the Python binding: operations on standard input, one a line, what
the binding answers on standard output, one scenario a line (see tools/lg.py)."""
import array, gc, json, mmap, os, sys, tempfile

sys.path.insert(0, sys.argv[1])
import lightgrep as lg


def val(s):
    return bytes.fromhex(s[1:]) if s[0] == 'x' else int(s[1:]) if s[0] == 'i' else None if s[0] == 'n' else s[1:]


def lat(b):
    return b.decode('latin-1')


def lats(s):
    return lat(s.encode('utf-8', 'surrogatepass'))


def errors(e, prefix, pat=None, enc=None):
    """What an exception says, taken apart."""
    t = str(e)
    r = {'msg': None, 'pat': None, 'enc': None, 'src': None, 'idx': 0}
    if not isinstance(e, RuntimeError) or not t.startswith(prefix):
        r['msg'] = ''
        r['exc'] = repr(e)
        return [r]
    t = t[len(prefix):]
    t, _, i = t.rpartition(', ')
    r['idx'] = int(i)
    for k, v in (('enc', enc), ('pat', pat)):
        if v is None:
            continue
        if v == '':
            r[k] = ''
        elif t.endswith(", '%s'" % v):
            t = t[:-len(", '%s'" % v)]
            r[k] = lats(v)
    r['msg'] = lats(t)
    return [r]


def cstr(s):
    return s.split('\0')[0]


class Gone(Exception):
    pass


class World:
    def __init__(self):
        self.o = {}
        self.files = []

    def data(self, b, how):
        if how == 'bytearray':
            return bytearray(b)
        if how == 'array':
            return array.array('B', b)
        if how == 'view':
            return memoryview(b)
        if how == 'slice':
            return memoryview(bytearray(b'\xa5' * 3 + b + b'\x5a' * 5))[3:3 + len(b)]
        if how == 'mmap' and b:
            m = mmap.mmap(-1, len(b))
            m[:] = b
            return m
        return bytes(b)

    def keywords(self, s):
        out = []
        for x in s.split(';'):
            p, fx, ci, un, es = x.split(':')
            out.append((bytes.fromhex(p).decode(), [bytes.fromhex(e).decode() for e in es.split(',')] if es else [],
                        lg.KeyOpts(fx == '1', ci == '1', un == '1')))
        return out

    def hits(self, acc, n=0):
        return [[h['start'], h['end'], h['keywordIndex'], lats(h['pattern']), lats(h['encChain'])] for h in acc.Hits[n:]]

    def op(self, a):
        o, k = self.o, a['op']
        if k == 'fsm':
            o['F' + a['f']] = lg.Fsm(a.get('h1', 0), a.get('h2', 0))
            return {}
        if k == 'pat':
            h = o.setdefault('P' + a['p'], None) or lg.Pattern()
            o['P' + a['p']] = h
            s = (a['bytes'] + a.get('tail', b'')).decode()
            try:
                h.parse(s, lg.KeyOpts(bool(a['fx']), bool(a['ci']), bool(a['un'])))
                return {'ret': 1, 'errs': []}
            except Exception as e:
                return {'ret': 0, 'errs': errors(e, 'Error parsing pattern: ', cstr(s))}
        if k == 'add':
            try:
                r = o['F' + a['f']].add_pattern(o['P' + a['p']], a['enc'].decode(), a['idx'])
                return {'ret': r, 'errs': []}
            except Exception as e:
                return {'ret': -1, 'errs': errors(e, 'Error adding pattern: ', cstr(a['pat'].decode()), cstr(a['enc'].decode()))}
        if k == 'addall':
            ks = self.keywords(a['kws'])
            f = o['F' + a['f']]
            n0 = f.count()
            with lg.Pattern() as p:
                try:
                    f.add_patterns(p, ks)
                    return {'before': n0, 'n': f.count(), 'err': None}
                except Exception as e:
                    return {'before': n0, 'n': f.count(), 'err': lats('%s %s' % (type(e).__name__, e))}
        if k == 'mk':
            try:
                o['G' + a['g']] = lg.make_program_from_patterns(self.keywords(a['kws']), lg.ProgOpts(a['depth']))
                return {'ok': 1}
            except RuntimeError:
                return {'ok': 0}
        if k == 'fcount':
            return {'n': o['F' + a['f']].count()}
        if k == 'pcount':
            return {'n': o['G' + a['g']].count()}
        if k == 'prog':
            try:
                o['G' + a['g']] = lg.Program(o['F' + a['f']], lg.ProgOpts(a['depth']))
                return {'ok': 1}
            except RuntimeError:
                return {'ok': 0}
        if k == 'write':
            b = o['G' + a['g']].write()
            o['B' + a['b']] = b
            return {'intact': int(len(b) == o['G' + a['g']].size())}
        if k == 'wsame':
            return {'same': int(o['B' + a['b']] == o['B' + a['b2']])}
        if k in ('read', 'readcut'):
            b = o['B' + a['b']]
            if k == 'readcut':
                n = a['n']
                b = b[:n] if n >= 0 else b[:len(b) + n]
            try:
                g = lg.Program(self.data(b, a['how']))
            except RuntimeError:
                return {'ok': 0}
            except ValueError as e:
                return {'ok': 0}
            if k == 'read':
                o['G' + a['g']] = g
            return {'ok': 1}
        if k == 'ctx':
            o['C' + a['c']] = lg.Context(o['G' + a['g']], lg.CtxOpts())
            return {'ok': 1}
        if k in ('search', 'starts', 'close', 'whole', 'wstart'):
            c = o['C' + a['c']]
            acc = o.setdefault('accumulator', lg.HitAccumulator()) if a.get('acc') else lg.HitAccumulator()
            n = len(acc.Hits)
            before = dict(acc.KeyCounts)
            r = {}
            d = self.data(a['bytes'], a['how']) if k != 'close' else None
            if k == 'search':
                r['ret'] = c.search(d, a['off'], acc)
            elif k == 'starts':
                c.startswith(d, a['off'], acc)
            elif k == 'close':
                c.closeout(acc)
            elif k == 'whole':
                r['n'] = c.searchBuffer(d, acc) - n
            else:
                r['n'] = c.searchBufferStartswith(d, acc) - n
            r['hits'] = self.hits(acc, n)
            r['counts'] = sorted([lats(p), m - before.get(p, 0)] for p, m in acc.KeyCounts.items() if m != before.get(p, 0))
            if a.get('clear'):
                acc.reset()
                assert not acc.Hits and not acc.KeyCounts
            return r
        if k == 'reset':
            o['C' + a['c']].reset()
            return {'hits': []}
        if k == 'dec':
            o['D' + a['d']] = lg.HitDecoder()
            return {}
        if k == 'hctx':
            try:
                h = {'start': a['hb'], 'end': a['he'], 'encChain': a['enc'].decode()}
                d = self.data(a['bytes'], a['how'])
                x = o['D' + a['d']].full_hit_context(d, a['off'], h, a['n'])
                y = o['D' + a['d']].hit_context(d, a['off'], h, a['n'])
                return {'errs': [], 'utf8': list(x['hit_context'].encode()) if x['hit_context'] == y else [-1], 'bad': -2,
                        'ob': x['context_begin'], 'oe': x['context_end'], 'hb': x['context_hit_begin'], 'he': x['context_hit_end']}
            except RuntimeError as e:
                return {'errs': errors(e, 'Error decoding hit context: '), 'utf8': [], 'bad': -2, 'ob': 0, 'oe': 0, 'hb': 0, 'he': 0}
        if k in ('dfsm', 'dpat', 'dprog', 'dctx', 'dbuf'):
            key = {'dfsm': 'F', 'dpat': 'P', 'dprog': 'G', 'dctx': 'C', 'dbuf': 'B'}[k] + a[{'dfsm': 'f', 'dpat': 'p', 'dprog': 'g', 'dctx': 'c', 'dbuf': 'b'}[k]]
            h = o.pop(key)
            if a['way'] == 'close':
                h.close()
                o['X'] = h
            elif a['way'] == 'twice':
                h.close()
                h.close()
                o['X'] = h
            elif a['way'] == 'with':
                with h:
                    pass
                o['X'] = h
            del h
            gc.collect()
            # what was freed is used anew
            self.junk = [bytearray(b'\xdb' * n) for n in (64, 512, 8192, 8200, 70000) for _ in range(20)]
            return {'hits': []}
        if k == 'gone':
            # every use of a closed handle is refused
            h = o.pop('X', None)
            if h is None:
                return {'ok': 0}
            acc = lg.HitAccumulator()
            uses = {lg.Pattern: [lambda: h.parse('a', lg.KeyOpts())],
                    lg.Fsm: [h.count if hasattr(h, 'count') else None, lambda: h.add_pattern(lg.Pattern(), 'ASCII', 0), lambda: lg.Program(h, lg.ProgOpts())],
                    lg.Program: [lambda: h.count(), lambda: h.size(), lambda: h.write(), lambda: lg.Context(h, lg.CtxOpts())],
                    lg.Context: [lambda: h.search(b'abc', 0, acc), lambda: h.startswith(b'abc', 0, acc), lambda: h.closeout(acc), lambda: h.reset()]}[type(h)]
            ok = int(bool(h))
            if type(h) is lg.Program:
                for c in o.values():
                    if type(c) is lg.Context and c and c.prog is h:
                        uses += [lambda c=c: c.search(b'abc', 0, acc), lambda c=c: c.startswith(b'abc', 0, acc),
                                 lambda c=c: c.closeout(acc), lambda c=c: c.searchBuffer(b'abc', acc)]
            for u in uses:
                try:
                    u()
                    ok = 1
                except RuntimeError:
                    pass
            return {'ok': ok}
        raise ValueError(k)


def main():
    w, sid, obs = None, 0, []
    out = os.fdopen(os.dup(1), 'w', encoding='latin-1')
    for ln in sys.stdin:
        t = ln.split()
        if t[0] == 'S':
            w, sid, obs = World(), int(t[1]), []
        elif t[0] == 'E':
            out.write(json.dumps({'id': sid, 'obs': obs}) + '\n')
            out.flush()
            w = None
            gc.collect()
        else:
            a = {'op': t[0]}
            for x in t[1:]:
                k, _, v = x.partition('=')
                a[k] = val(v)
            try:
                obs.append(w.op(a))
            except KeyError as e:
                obs.append({'fail': str(e)})


main()
