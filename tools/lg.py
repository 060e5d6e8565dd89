"""Scenarios, facts, the driver and TLC: what the checks are made of."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, 'spec')
RUN = os.path.join(B.BUILD, 'run')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
M64 = (1 << 64) - 1
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


def hx(b):
    return b.hex() if b else '-'


# ---- facts ----------------------------------------------------------------
class Facts:
    def __init__(self):
        self.exe = B.build(('unidump',))['unidump']
        self.dir = os.path.join(B.BUILD, 'facts')
        os.makedirs(self.dir, exist_ok=True)
        self.key = hashlib.sha256(B.read(self.exe)).hexdigest()[:12]
        self.mem = {}

    def ask(self, cmd):
        if cmd in self.mem:
            return self.mem[cmd]
        path = os.path.join(self.dir, self.key + hashlib.sha256(cmd.encode()).hexdigest()[:24])
        try:
            with open(path) as f:
                r = json.load(f)
        except (OSError, ValueError):
            p = subprocess.run([self.exe], input=(cmd + '\n').encode(), stdout=subprocess.PIPE)
            if p.returncode:
                raise CheckError('unidump failed on ' + cmd)
            r = json.loads(p.stdout)
            tmp = path + '.t%d-%d' % (os.getpid(), threading.get_ident())
            with open(tmp, 'w') as f:
                json.dump(r, f)
            os.replace(tmp, path)
        self.mem[cmd] = r
        return r

    def fold(self):
        return self.ask('fold')

    def aliases(self):
        return self.ask('aliases')

    def prop(self, text):
        return self.ask('prop ' + text.encode().hex())

    def name(self, text):
        return self.ask('name ' + text.encode().hex())

    def enc(self, name):
        k = ('E', name)
        if k not in self.mem:
            r = self.ask('enc ' + name)
            tab = {int(c): bytes.fromhex(h) for c, h in r['tab'].items()
                   if not 0xd800 <= int(c) < 0xe000}      # surrogates are no characters
            rev = {}
            for c, b in tab.items():
                rev.setdefault(b, []).append(c)
            self.mem[k] = (tab, rev, max(map(len, rev), default=1), r['inv'])
        return self.mem[k]

    UTF = {'utf-8': 'UTF-8', 'utf-16le': 'UTF-16LE', 'utf-16be': 'UTF-16BE', 'utf-32le': 'UTF-32LE',
           'utf-32be': 'UTF-32BE', 'ascii': 'ASCII', 'us-ascii': 'ASCII'}

    def canon(self, token):
        """ICU's converter for a name, or None."""
        t = token.lower()
        a = self.aliases().get(t)
        if not a or self.BARRED.match(a[0]):
            return None
        return a[0]

    # Encodings with state, a byte order mark or the platform's byte order are
    # not supported.
    BARRED = re.compile(r'UTF-16$|UTF-32$|UTF-16[LB]?E?,version|UTF-7$|UTF16_|UTF32_|BOCU-1$|HZ$|IMAP-mailbox-name$|ISCII,|ISO_2022|LMBCS|SCSU$|x11-compound-text$|'
                        r'ibm-(930_P120-1999|933_P110-1995|935_P110-1999|937_P110-1999|939_P120-1999|1364_P110-2007|1371_P100-1999|1388_P103-2001|1390_P110-2003|1399_P110-2003|16684_P110-2003)$')

    def dec(self, canon, seqs):
        """What each byte sequence decodes to, as a single character."""
        m = self.mem.setdefault(('D', canon), {})
        new = sorted(x for x in seqs if x not in m)
        for k in range(0, len(new), 5000):
            part = new[k:k + 5000]
            p = subprocess.run([self.exe], input=('dec %s %s\n' % (canon, ','.join(x.hex() for x in part))).encode(),
                               stdout=subprocess.PIPE)
            r = json.loads(p.stdout)
            if len(r) != len(part):
                raise CheckError('unidump dec failed')
            m.update(zip(part, r))
        return m

    def encfacts(self, token, texts, windows=()):
        """The entry of FactEncs for a chain token, or None if it is no encoding."""
        t = token.lower()
        c = self.canon(t)
        if c is None:
            return None
        name = list(t.encode('latin-1'))
        u = {'US-ASCII': 'ASCII'}.get(c, c)
        if u in self.UTF.values():
            return {'name': name, 'enc': u, 'tab': [], 'dec': [], 'inv': [], 'max': 1 if u == 'ASCII' else 4}
        tab, rev, mx, inv = self.enc(c)
        seen = set()
        for b in texts:
            for i in range(len(b)):
                for n in range(1, min(mx, len(b) - i) + 1):
                    seen.add(b[i:i + n])
        use = sorted((cp, list(x)) for x in seen for cp in rev.get(x, ()))
        by = [[] for _ in range(256)]
        for a, b in use:
            by[b[0]].append([a, b])
        dby = [[] for _ in range(256)]
        if windows:
            subs = {b[i:i + n] for b in windows for i in range(len(b)) for n in range(1, min(mx, len(b) - i) + 1)}
            m = self.dec(c, subs)
            for x in sorted(subs):
                if m[x] >= 0:
                    dby[x[0]].append([m[x], list(x)])
        return {'name': name, 'enc': c, 'tab': by, 'dec': dby, 'inv': inv, 'max': mx}


OCE = None


def un_oce(facts_spec_table=None):
    """The OCE table, read from the specification."""
    global OCE
    if OCE is None:
        s = B.read(os.path.join(SPEC, 'Codec.tla')).decode()
        m = re.search(r'OCE == <<(.*?)>>', s, re.S)
        t = [int(x) for x in m.group(1).replace('\n', ' ').split(',')]
        assert sorted(t) == list(range(256))
        OCE = t
    return OCE


# ---- scenarios ------------------------------------------------------------
# An operation is a dict; byte strings are bytes objects, None a null pointer.
def tok(b):
    return '!' if b is None else hx(b)


def line(op):
    o = op['op']
    g = op.get
    if o == 'fsm':
        return 'fsm %s' % op['f']
    if o == 'pat':
        if g('slice'):
            return 'patslice %s %s %d %d %d %d' % (op['p'], hx(op['bytes'] + op.get('tail', b'')), len(op['bytes']),
                                                   op['fx'], op['ci'], op['un'])
        return 'pat%s %s %s %d %d %d' % ('' if g('want', 1) else 'noerr', op['p'], tok(op['bytes']),
                                         op['fx'], op['ci'], op['un'])
    if o == 'add':
        return 'add%s %s %s %s %d' % ('' if g('want', 1) else 'noerr', op['f'], op['p'], tok(op['enc']), op['idx'])
    if o == 'plist':
        return 'plist%s %s %s %s %s %d %d %d' % (
            '' if g('want', 1) else 'noerr', op['f'], tok(op['text']), tok(op['src']),
            ','.join(hx(e) for e in op['encs']) or '.', op['fx'], op['ci'], op['un'])
    if o in ('fcount', 'finfos', 'dfsm'):
        return '%s %s' % (o, op['f'])
    if o in ('pcount', 'pinfos', 'dprog'):
        return '%s %s' % (o, op['g'])
    if o == 'prog':
        return 'prog %s %s %d' % (op['g'], op['f'], op['depth'])
    if o == 'write':
        return 'write %s %s' % (op['b'], op['g'])
    if o == 'read':
        return 'read %s %s' % (op['g'], op['b'])
    if o == 'readcut':
        return 'readcut g %s %d' % (op['b'], op['n'])
    if o == 'wsame':
        return 'wsame %s %s' % (op['b'], op['b2'])
    if o == 'ctx':
        return 'ctx %s %s' % (op['c'], op['g'])
    if o in ('reset', 'dctx'):
        return '%s %s' % (o, op['c'])
    if o == 'dpat':
        return 'dpat %s' % op['p']
    if o == 'close':
        return 'close%s %s' % ('' if g('cb', 1) else '0', op['c'])
    if o in ('search', 'resolve', 'starts'):
        return '%s%s %s %d %s' % (o, '' if g('cb', 1) else '0', op['c'], op['off'], tok(op['bytes']))
    if o == 'par':
        return 'par ' + '|'.join(';'.join(line(x).replace(' ', ',') for x in s) for s in op['scripts'])
    if o == 'win':
        return 'win %s %s %d %d %d %s %d %d' % (op['d'], hx(op['bytes']), op['off'], op['hb'], op['he'],
                                                tok(op['enc']), op['pre'], op['post'])
    if o == 'hctx':
        return 'hctx %s %s %d %d %d %s %d %d' % (op['d'], hx(op['bytes']), op['off'], op['hb'], op['he'],
                                                 tok(op['enc']), op['n'], op['repl'])
    if o in ('dec', 'ddec'):
        return '%s %s' % (o, op['d'])
    if o == 'dbuf':
        return 'dbuf %s' % op['b']
    if o == 'ids':
        return 'ids %s' % hx(op['name'])
    if o == 'end':
        return 'end'
    raise ValueError(o)


def bl(s):
    """A string of the driver's as a list of byte values; <<-1>> for null."""
    return [-1] if s is None else [ord(c) for c in s]


def errs(x):
    return [{'msg': bl(e['msg'])[:1], 'pat': bl(e['pat']), 'enc': bl(e['enc']), 'src': bl(e['src']),
             'idx': clip(e['idx'])} for e in x]


def words(n):
    return [(n >> s) & 0xffff for s in (48, 32, 16, 0)]


def clip(n):
    return n if -(1 << 30) < n < (1 << 30) else -999


def nb(b):
    return [-1] if b is None else list(b)


class Bases:
    """Where the stream of each context begins."""

    def __init__(self):
        self.base = {}
        self.size = {}      # and how large its program is
        self.psize = {}

    def rel(self, c, off):
        d = (off - self.base.get(c, 0)) & M64
        return d if d < (1 << 30) else -999


def cstr(b):
    """What a C function sees of a string which a binding gives it."""
    return list(b.split(b'\0')[0])


def addall_events(op, ob):
    """Parsing and adding one after the other, up to the first failure."""
    out, n, left = [], ob['before'], ob['n'] - ob['before']
    err = [{'msg': [0], 'pat': [], 'enc': [], 'src': [-1], 'idx': 0}]
    for j, k in enumerate(op['kws']):
        p = {'op': 'pat', 'p': '*', 'bytes': cstr(k['bytes']), 'fx': k['fx'], 'ci': k['ci'], 'un': k['un'], 'ret': 1, 'err': [], 'want': 1}
        if not left and ob['err'] is not None and ob['err'].startswith('RuntimeError Error parsing pattern: '):
            return out + [dict(p, ret=0, want=0)]
        out.append(p)
        for e in k['encs']:
            a = {'op': 'add', 'f': op['f'], 'p': '*', 'enc': list(e), 'idx': words(j), 'want': 1, 'err': []}
            if left:
                out.append(dict(a, ret=n))
                n, left = n + 1, left - 1
            elif ob['err'] is not None and ob['err'].startswith('RuntimeError Error adding pattern: '):
                return out + [dict(a, ret=-1, want=0)]
            else:
                return out + [{'op': 'gone', 'ok': 1}]      # neither added nor refused
    return out + [{'op': 'gone', 'ok': 0 if ob['err'] is None and not left else 1}]


def events(op, ob, bases):
    """The events which the specification sees for one operation."""
    o = op['op']
    if op.get('calls'):
        import calls
        return [calls.event(op, ob)]
    e = dict(op)
    if o == 'rdr':
        return [{'t': 'inputs', 'files': [list(x) for x in op['files']]}] + ob['ev'] + [{'t': 'end', 'status': ob['status']}]
    if o == 'addall':
        return addall_events(op, ob)
    if 'wrong' in ob or 'refused' in ob:
        # refused where it should have been, or else broken
        return [{'op': 'gone', 'ok': 0 if ob.get('refused') else 1}]
    if o == 'par':
        out = []
        for s, obs in zip(op['scripts'], ob['par']):
            for x, y in zip(s, obs):
                out += events(x, y, bases)
        return out
    for k, v in list(e.items()):
        if isinstance(v, bytes):
            e[k] = list(v)
        elif v is None:
            e[k] = [-1]
    e.setdefault('want', 1)
    e.setdefault('cb', 1)
    e.pop('tail', None)
    if o == 'prog':
        bases.psize[op['g']] = ob.get('size', 0)
    elif o == 'ctx':
        bases.size[op['c']] = bases.psize.get(op['g'], 0)
    elif op.get('mem'):
        e.update(op='weigh', mem=clip(ob['mem'] // 1024), size=bases.size.get(op['c'], 0))
    if 'errs' in ob:
        e['err'] = errs(ob['errs'])
    for k in ('ret', 'ok', 'n', 'same', 'intact'):
        if k in ob and isinstance(ob[k], int):
            e[k] = clip(ob[k])
    if o in ('search', 'resolve', 'starts', 'close', 'reset', 'whole', 'wstart', 'threw'):
        c = op['c']
        if o in ('search', 'resolve', 'starts', 'whole', 'wstart', 'threw'):
            if c not in bases.base:
                bases.base[c] = op.get('off', 0)
            e['b'] = e.pop('bytes')
            e.pop('off', 0)
            if 'ret' in ob:
                e['ret'] = bases.rel(c, ob['ret'])
        e['hits'] = [] if op.get('named') else [[bases.rel(c, h[0]), bases.rel(c, h[1]), clip(h[2])] for h in ob.get('hits', [])]
        if 'hits' not in ob:
            raise CheckError('no context for %r' % op)
        if op.get('named') and ob.get('hits'):
            e['hits'] = [{'s': bases.rel(c, h[0]), 'e': bases.rel(c, h[1]), 'info': {'pat': bl(h[3]), 'enc': bl(h[4]), 'idx': words(h[2])}}
                         for h in ob['hits']]
        if 'counts' in ob:
            e['counts'] = [[bl(p), n] for p, n in ob['counts']]
        if o == 'threw':
            e['thrown'] = ob['thrown']
            e.pop('ret', 0)
        if o in ('reset', 'starts', 'whole', 'wstart'):
            bases.base.pop(c, None)
    elif o in ('ctx', 'dctx'):
        bases.base.pop(op['c'], None)
    elif o in ('add', 'setidx'):
        e['idx'] = words(op['idx'])
    elif o in ('finfos', 'pinfos'):
        e['infos'] = [{'pat': bl(p), 'enc': bl(n), 'idx': words(u)} for p, n, u in ob['infos']]
    elif o == 'plist':
        e['encs'] = [list(x) for x in op['encs']]
    elif o in ('tval', 'tprog', 'trun', 'tsamp'):
        e = {'op': o, 'f': op['f'], 'by': op.get('by', ''), 'b': op.get('b', '')}
        ks = op['ks']
        up = [[c - 32 if 97 <= c <= 122 else c for c in x] for x in ks['encs']]
        e['ks'] = {'pats': [list(x) for x in ks['pats']], 'encs': up, 'fx': ks['fx'], 'ci': ks['ci'],
                   'lists': [{'text': list(x['text']), 'src': list(x['src'])} for x in ks['lists']]}
        e.update(ob)
        if o == 'trun':
            e.update(toks=[list(x) for x in op['toks']], fs=[{'name': list(x['name']), 'b': list(x['b'])} for x in op['fs']],
                     dirs=[list(x) for x in op['dirs']], stdin=list(op['stdin']),
                     **{k: op[k] for k in ('rec', 'ord', 'shown', 'before', 'after', 'quiet', 'whist')})
        if o == 'tsamp':
            e.update(limit=op['limit'], loops=op['loops'])
    elif o == 'mk':
        e['kws'] = [dict(k, bytes=cstr(k['bytes']), encs=[list(x) for x in k['encs']]) for k in op['kws']]
    elif o == 'win':
        e.update(off=0, bad=clip(ob['bad']), cps=ob['cps'], offs=[clip(x) for x in ob['offs']],
                 dhb=clip(ob['hb']), dhe=clip(ob['he']), hb=clip(op['hb'] - op['off']), he=clip(op['he'] - op['off']))
    elif o == 'hctx':
        e.update(off=0, bad=clip(ob['bad']), utf8=ob['utf8'], ob=clip(ob['ob'] - op['off']),
                 oe=clip(ob['oe'] - op['off']), dhb=clip(ob['hb']), dhe=clip(ob['he']),
                 hb=clip(op['hb'] - op['off']), he=clip(op['he'] - op['off']))
    for k in ('f', 'p', 'g', 'c', 'd', 'b', 'b2'):
        if k in e and isinstance(e[k], str):
            pass
    return [e]


# ---- running the driver ---------------------------------------------------
ENV = dict(os.environ, LC_ALL='C.UTF-8', ASAN_OPTIONS='abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500')


def limited(exe):
    """The command, kept from eating up all memory; sanitizers need much address space, and have a limit of their own (see ENV)."""
    return [exe] if '/asan/' in exe or not os.path.exists('/usr/bin/prlimit') else ['/usr/bin/prlimit', '--as=%d' % (2 << 30), exe]


def kv(op):
    """An operation as a line for the drivers of the bindings."""
    def v(x):
        if x is None:
            return 'n'
        if isinstance(x, (bytes, bytearray)):
            return 'x' + x.hex()
        if isinstance(x, int):
            return 'i%d' % x
        if isinstance(x, list):
            return 's' + ';'.join('%s:%d:%d:%d:%s' % (k['bytes'].hex(), k['fx'], k['ci'], k['un'], ','.join(e.hex() for e in k['encs'])) for k in x)
        return 's' + x
    return op['op'] + ''.join(' %s=%s' % (a, v(b)) for a, b in op.items() if a != 'op')


def tail(err):
    t = err.decode('utf8', 'replace')
    return t if len(t) < 4000 else t[:2500] + '\n...\n' + t[-1000:]


def run_driver(exe, scns, timeout=600, fmt=None, env=None):
    """{id: list of observations | ('crash', text)}"""
    res = {}
    todo = list(scns)
    while todo:
        inp = []
        for s in todo:
            inp.append('S %d' % s['id'])
            inp += [(fmt or line)(op) for op in s['ops']]
            inp.append('E')
        t0 = time.time()
        try:
            p = subprocess.run(exe if isinstance(exe, list) else limited(exe), input=('\n'.join(inp) + '\n').encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, env=env or ENV)
            out, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as x:
            out, rc, err = x.stdout or b'', 'timeout', b''
        n = 0
        for ln in out.split(b'\n'):
            if not ln.endswith(b']}'):
                continue
            o = json.loads(ln.decode('latin-1'))
            if o['id'] != todo[n]['id']:
                raise CheckError('driver out of step')
            res[o['id']] = o['obs']
            n += 1
        if rc:
            err += b'\n'.join(x for x in out[-20000:].split(b'\n') if not x.endswith(b']}'))
        if n == len(todo):
            if rc not in (0,):
                res[todo[-1]['id']] = ('crash', 'exit %s\n%s' % (rc, tail(err)))
            break
        res[todo[n]['id']] = ('crash', 'exit %s after %.0f s\n%s' % (rc, time.time() - t0, tail(err)))
        todo = todo[n + 1:]
    return res


def run_driver_par(exe, scns, jobs=NCPU, timeout=600, fmt=None, env=None):
    parts = [scns[i::jobs] for i in range(jobs)]
    res = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda s: run_driver(exe, s, timeout, fmt, env), [p for p in parts if p]):
            res.update(r)
    return res


# ---- TLC ------------------------------------------------------------------
def tlc(module, cfg, workdir, env=None, workers=1, heap='2g', args=(), timeout=3000):
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    cmd = ['java', '-Xss256m', '-Djava.io.tmpdir=' + workdir, '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet' if False else '-Djava.awt.headless=true',
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, **(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError('TLC timed out on %s\n%s' % (module, (x.stdout or b'').decode('utf8', 'replace')[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


PROP_RE = re.compile(r'(?=(\\[pP]\{[^}]*\}))')
NAME_RE = re.compile(r'(?=\\N\{([^}]*)\})')
ALWAYS = ['\\p{Nd}', '\\p{L}', '\\p{N}']


def batch_facts(facts, scns, obs=()):
    props, names, toks, texts, wins = set(ALWAYS), set(), set(), [], []

    def pats(b):
        t = b.decode('utf8', 'replace')
        props.update(PROP_RE.findall(t))
        names.update(NAME_RE.findall(t))

    def enc(b):
        toks.update(x.lower() for x in b.decode('latin-1').split('|') if x)

    def walk(ops, acc):
        for o in ops:
            k = o['op']
            if o.get('calls'):
                continue
            if k == 'par':
                for s in o['scripts']:
                    walk(s, acc)
            elif k == 'pat' and o['bytes'] is not None:
                pats(o['bytes'])
            elif k == 'plist' and o['text'] is not None:
                pats(o['text'])
                for ln in re.split(rb'[\r\n]+', o['text']):
                    c = [x for x in ln.split(b'\t') if x]
                    if len(c) > 1:
                        for e in c[1].split(b','):
                            enc(e)
                for e in o['encs']:
                    enc(e)
            elif k == 'add' and o['enc'] is not None:
                enc(o['enc'])
            elif k in ('addall', 'mk'):
                for x in o['kws']:
                    pats(x['bytes'])
                    for e in x['encs']:
                        enc(e)
            elif k in ('search', 'resolve', 'starts', 'whole', 'wstart'):
                acc[o['c']] = acc.get(o['c'], b'') + o['bytes']
            elif k in ('win', 'hctx'):
                wins.append(o['bytes'])
                if o['enc'] is not None:
                    enc(o['enc'])
            elif k in ('tval', 'tprog', 'trun', 'tsamp'):
                for p in o['ks']['pats']:
                    pats(p)
                for e in o['ks']['encs']:
                    for x in e.split(b','):
                        enc(x)
                for l in o['ks']['lists']:
                    pats(l['text'])
                    for ln in re.split(rb'[\r\n]+', l['text']):
                        c = [x for x in ln.split(b'\t') if x]
                        if len(c) > 1:
                            for e in c[1].split(b','):
                                enc(e)
                if k == 'trun':
                    bs = [x['b'] for x in o['fs']] + [o['stdin']]
                    texts.extend(bs)
                    wins.extend(bs if o['before'] >= 0 or o['after'] >= 0 or o['whist'] else [])
                elif k == 'tsamp' and obs:
                    texts.extend(obs)
            if k in ('reset', 'dctx', 'starts', 'whole', 'wstart') and acc.get(o['c']):
                texts.append(acc.pop(o['c']))
    for s in scns:
        acc = {}
        walk(s['ops'], acc)
        texts.extend(acc.values())
    inv = [0] * 256
    for i, x in enumerate(un_oce()):
        inv[x] = i
    def unoce(t):
        r = list(t)
        if 'oce' in toks:
            for _ in range(3):
                t = [bytes(inv[x] for x in b) for b in t]
                r += t
        return r
    alltexts, allwins = unoce(texts), unoce(wins)
    return {
        'props': [dict(name=[ord(c) for c in p], **facts.prop(p)) for p in sorted(props)],
        'names': [dict(name=[ord(c) for c in p], **facts.name(p)) for p in sorted(names)],
        'encs': [x for x in (facts.encfacts(t, alltexts, allwins) for t in sorted(toks)) if x],
        'fold': facts.fold(),
    }


def check_traces(facts, scns, obs, workdir, module='Trace.tla', cfg='Trace.cfg', shards=NCPU, timeout=3000, explain=None):
    """Returns (rejected: {id: event index}, states, transitions)."""
    good = [s for s in scns if not isinstance(obs[s['id']], tuple)]
    shards = max(1, min(shards, len(good)))
    # heavier scenarios first, dealt out in turn
    good.sort(key=lambda s: -s.get('weight', 1))
    parts = [good[i::shards] for i in range(shards)]

    def one(arg):
        i, part = arg
        if not part:
            return {}, 0, 0
        d = os.path.join(workdir, 'shard%d' % i)
        os.makedirs(d, exist_ok=True)
        tr, fa = os.path.join(d, 'trace.ndjson'), os.path.join(d, 'facts.json')
        with open(tr, 'w') as f:
            for s in part:
                bases, ev = Bases(), []
                for op, ob in zip(s['ops'], obs[s['id']]):
                    if 'fail' in ob and not op.get('calls'):
                        break       # on an object which, as checked before, could not be made
                    ev += events(op, ob, bases)
                    if op['op'] == 'tprog' and ob['status'] != 0:
                        break
                    if ob.get('ok') == 0 and not op.get('calls') and op['op'] in ('prog', 'read', 'ctx', 'mk'):
                        break
                f.write(json.dumps({'id': s['id'], 'ev': ev}) + '\n')
        with open(fa, 'w') as f:
            json.dump(batch_facts(facts, part, [bytes(x) for s in part for ob in obs[s['id']] for x in ob.get('lines', ())]), f)
        rc, out = tlc(module, cfg, d, {'TRACE': tr, 'FACTS': fa, 'EXPLAIN': '1' if explain else '0'}, timeout=timeout)
        if explain:
            explain.append(out[out.find('"EXPLAIN"'):][:3000])
        done = re.search(r'<<"CHECKED", (\d+), (\d+)>>', out)
        rej = {int(a): int(b) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)}
        if rc != 0 or not done or int(done.group(1)) != len(part) or int(done.group(2)) != len(rej):
            raise CheckError('TLC failed (%s) on %s\n%s' % (rc, tr, out[:3000] + "..." + out[-3000:]))
        g, dist = stats(out)
        shutil.rmtree(d, ignore_errors=True)
        return rej, dist, g
    rej, st, tr = {}, 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r, a, b in ex.map(one, enumerate(parts)):
            rej.update(r)
            st += a
            tr += b
    return rej, st, tr


# ---- JSON with bytes (replay files) ---------------------------------------
def enc_json(x):
    if isinstance(x, bytes):
        return {'hex': x.hex()}
    if isinstance(x, dict):
        return {k: enc_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc_json(v) for v in x]
    return x


def dec_json(x):
    if isinstance(x, dict):
        if set(x) == {'hex'}:
            return bytes.fromhex(x['hex'])
        return {k: dec_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec_json(v) for v in x]
    return x
