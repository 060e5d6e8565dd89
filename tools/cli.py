"""Runs the command line program on scenarios, in scratch directories."""
import concurrent.futures as cf
import os, re, shutil, subprocess, tempfile
import lg


def put(d, name, data):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)


def enc_upper(e):
    return bytes(c - 32 if 97 <= c <= 122 else c for c in e)


def key_args(d, ks, way):
    """Arguments which give the keywords ks; files are made as need be."""
    a, pos = [], []
    for e in ks['encs'] if not ks.get('noenc') else ():
        a += [b'-e', e]
    if ks['fx']:
        a.append(b'-F')
    if ks['ci']:
        a.append(b'-i')
    if ks['pats']:
        for p in ks['pats']:
            a.append(b'--pattern=' + p if p.startswith(b'-') or way == 'long' else b'-p')
            if a[-1] == b'-p':
                a.append(p)
    else:
        for k, l in enumerate(ks['lists']):
            put(d, l['src'].decode(), l['text'])
        if len(ks['lists']) == 1 and way == 'pos':
            pos = [ks['lists'][0]['src']]
        else:
            for l in ks['lists']:
                a += [b'-k', l['src']]
    return a, pos


def known(ks):
    """What patterns and encodings rows can name, as regular expression."""
    out = set()
    if ks['pats']:
        for p in ks['pats']:
            for e in ks['encs']:
                for x in e.split(b','):
                    out.add((p, enc_upper(x)))
    else:
        for l in ks['lists']:
            for ln in re.split(rb'[\r\n]+', l['text'].split(b'\0')[0]):
                c = [x for x in ln.split(b'\t') if x]
                if not c:
                    continue
                es = [x for x in c[1].split(b',') if x] if len(c) > 1 else [enc_upper(e) for e in ks['encs']]
                out.update((c[0], e) for e in es)
    return out


def alt(xs):
    return b'(?:' + b'|'.join(re.escape(x) for x in sorted(set(xs), key=lambda x: (-len(x), x))) + b')'


def rows_of(out, op, paths):
    """(rows, separators, rest)"""
    ctx = op['before'] >= 0 or op['after'] >= 0
    kn = known(op['ks'])
    pat = rb'(?P<s>\d+)\t(?P<e>\d+)\t(?P<u>\d+)\t(?:' + \
        b'|'.join(b'(?:' + re.escape(p + b'\t' + e) + b')' for p, e in sorted(kn, key=lambda x: (-len(x[0] + x[1]), x))) + b')'
    if op['shown']:
        pat = b'(?P<p>' + alt(paths) + rb')\t' + pat
    if ctx:
        pat += rb'\t(?P<co>\d+)\t(?P<cx>[^\t\n]*)'
    rx = re.compile(pat + b'\n', re.S)
    sep = op.get('sep', b'--') + b'\n'
    rows, seps, i = [], 0, 0
    while i < len(out):
        m = rx.match(out, i)
        if not m:
            if rows and out.startswith(sep, i):
                seps += 1
                i += len(sep)
                continue
            break
        txt = out[m.end('u') + 1:m.start('co') - 1 if ctx else m.end() - 1]
        p, e = max((x for x in kn if x[0] + b'\t' + x[1] == txt), key=lambda x: x)
        rows.append({'p': list(m.group('p')) if op['shown'] else [], 's': lg.clip(int(m.group('s'))), 'e': lg.clip(int(m.group('e'))),
                     'u': lg.clip(int(m.group('u'))), 'pat': list(p), 'enc': list(e),
                     'co': lg.clip(int(m.group('co'))) if ctx else -1, 'cx': list(m.group('cx')) if ctx else []})
        i = m.end()
    rest = out[i:]
    if rest:
        # no row: none which the specification allows
        rows.append({'p': [], 's': -1, 'e': -1, 'u': -1, 'pat': list(rest[:80]), 'enc': [], 'co': -1, 'cx': []})
    return rows, seps, rest


def hist_of(data, ks):
    rx = re.compile(rb'(\d+)\t([^\t\n]*)\t(\d+)\t([^\t\n]*)\n', re.S)
    out, i = [], 0
    while i < len(data):
        m = rx.match(data, i)
        if not m:
            out.append({'n': -1, 't': [], 'u': -1, 'pat': list(data[i:i + 80])})
            break
        out.append({'n': lg.clip(int(m.group(1))), 't': list(m.group(2)), 'u': lg.clip(int(m.group(3))), 'pat': list(m.group(4))})
        i = m.end()
    return out


class Crash(Exception):
    pass


def call(exe, args, d, stdin=b'', timeout=30):
    try:
        p = subprocess.run(lg.limited(exe) + args, cwd=d, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=lg.ENV)
    except subprocess.TimeoutExpired:
        raise Crash('no end within %d s: %r' % (timeout, args))
    if p.returncode < 0 or p.returncode == 99:
        raise Crash('exit %d of %r\n%s' % (p.returncode, args, p.stderr.decode('utf8', 'replace')[-2000:]))
    return p.returncode, p.stdout, p.stderr


ERR = re.compile(rb'(?:[^\n]*?, )?pattern \d+ ')


def one_op(exe, d, op):
    o = op['op']
    ks = op.get('ks')
    if o == 'tval':
        a, pos = key_args(d, ks, op.get('way'))
        rc, out, err = call(exe, [b'-c', b'validate'] + a + pos, d)
        return {'status': rc, 'errl': [{'line': list(x)} for x in err.split(b'\n')[:-1]]}
    if o == 'tprog':
        a, pos = key_args(d, ks, op.get('way'))
        rc, out, err = call(exe, [b'-c', b'program', b'--binary', b'-o', op['b'].encode()] + a +
                            ([b'--determinize-depth', b'%d' % op['depth']] if 'depth' in op else []) + pos, d)
        p = os.path.join(d, op['b'])
        return {'status': rc, 'size': os.path.getsize(p) if os.path.exists(p) else 0}
    if o == 'tsamp':
        a, pos = key_args(d, ks, op.get('way'))
        rc, out, err = call(exe, [b'-c', b'sample'] + a + pos + [b'%d' % op['limit'], b'%d' % op['loops']], d)
        _, _, ev = call(exe, [b'-c', b'validate'] + a + pos, d)
        ls = out.split(b'\n')
        return {'status': rc, 'nerr': ev.count(b'\n'), 'lines': [list(x) for x in ls[:-1]] + ([list(ls[-1])] if ls[-1] else [])}
    if o == 'trun':
        fs = os.path.join(d, 'fs')
        shutil.rmtree(fs, ignore_errors=True)
        for x in op['dirs']:
            os.makedirs(os.path.join(d, x.decode()), exist_ok=True)
        for x in op['fs']:
            put(d, x['name'].decode(), x['b'])
        for x in op.get('junk', ()):
            p = os.path.join(d, x['name'].decode())
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if x['kind'] == 'fifo':
                os.mkfifo(p)
            else:
                os.symlink('nowhere', p)
        if op['by']:
            a, pos = [b'--program-file', op['by'].encode()], []
        else:
            a, pos = key_args(d, ks, op.get('way'))
        a = list(a) + list(op['opts'])
        stdin = op['stdin']
        toks = list(op['toks'])
        n = op.get('nlist', 0)          # so many of the inputs come from a list
        if n:
            put(d, 'inputs', b''.join(x + b'\n' for x in toks[:n]))
            a += [b'-a', b'inputs']
        given = toks[n:]
        if not n and given == [b'-'] and op.get('bare'):
            given = []
        elif not given and not n:
            raise lg.CheckError('no inputs')
        outp, histp = os.path.join(d, 'out'), os.path.join(d, 'hist')
        for p in (outp, histp):
            if os.path.exists(p):
                os.unlink(p)
        if op.get('tofile'):
            a += [b'-o', b'out']
        if op['whist']:
            a += [b'--histogram-file', b'hist']
        if op['before'] >= 0 and op['before'] == op['after'] and op.get('c'):
            a += [b'-C', b'%d' % op['before']]
        else:
            if op['before'] >= 0:
                a += [b'-B', b'%d' % op['before']]
            if op['after'] >= 0:
                a += [b'-A', b'%d' % op['after']]
        if 'sep' in op:
            a += [b'--group-separator', op['sep']]
        if op['rec']:
            a.append(b'-r')
        if op['quiet']:
            a.append(b'--no-output')
        if op.get('verbose'):
            a.append(b'--verbose')
        rc, out, err = call(exe, a + pos + given, d, stdin)
        if op.get('tofile') and os.path.exists(outp):
            out = lg.B.read(outp)
        paths = [x['name'] for x in op['fs']] + [b'(standard input)']
        rows, seps, rest = rows_of(out, op, paths)
        r = {'status': rc, 'rows': rows, 'seps': seps, 'hist': [], 'nhits': -1, 'nbytes': -1}
        if rest:
            r['rest'] = rest.decode('latin-1')[:300]
        if rc:
            r['stderr'] = err.decode('latin-1')[-300:]
        if op['whist']:
            r['hist'] = hist_of(lg.B.read(histp), ks) if os.path.exists(histp) else ([] if rc else [{'n': -2, 't': [], 'u': -1, 'pat': []}])
        if op.get('verbose') and not rc:
            m = re.search(rb'^(\d+) bytes$', err, re.M)
            r['nbytes'] = lg.clip(int(m.group(1))) if m else -2
            m = re.search(rb'^(\d+) hits?$', err, re.M)
            r['nhits'] = lg.clip(int(m.group(1))) if m else -2
        for x in op.get('junk', ()):
            os.unlink(os.path.join(d, x['name'].decode()))
        return r
    raise ValueError(o)


def run_cli(exe, scns, jobs=lg.NCPU):
    root = tempfile.mkdtemp(prefix='cli', dir=lg.RUN)

    def one(s):
        d = os.path.join(root, str(s['id']))
        os.makedirs(d)
        obs = []
        try:
            for op in s['ops']:
                obs.append(one_op(exe, d, op))
            return s['id'], obs
        except Crash as x:
            return s['id'], ('crash', str(x))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            return dict(ex.map(one, scns))
    finally:
        shutil.rmtree(root, ignore_errors=True)
