"""Runs the program with its reading and searching held to the schedules which
TLC finds in spec/Reader.tla (see harness/readerdrv.cpp)."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, tempfile
import lg


def schedules(workdir, blocks):
    """(distinct schedules, states, transitions) of the model, whose invariants and liveness TLC checks."""
    rc, out = lg.tlc('Reader.tla', 'Reader.cfg', workdir, {'MAXBLOCKS': str(blocks), 'EMIT': '1'}, heap='8g' if blocks > 3 else '2g')
    if rc:
        raise lg.CheckError('Reader: TLC found the model wrong\n' + out[-3000:])
    d, g = lg.stats(out)[::-1]
    xs = sorted({(int(a), int(b), int(x), c) for a, b, x, c in re.findall(r'<<"SCHED", (\d+), (\d+), (-?\d+), "(\w*)">>', out)})
    if not xs:
        raise lg.CheckError('no schedules\n' + out[-2000:])
    return xs, d, g


def text(r, n):
    return bytes(r.choice(b'abcxyz\n0123\x00\xff') for _ in range(n))


def scenarios(run, facts, n):
    blocks = 3 if run.tier == 'quick' else 4
    xs, st, tr = schedules(run.work, blocks)
    run.note(states=st, transitions=tr, schedules_in_model=len(xs))
    r = run.rng('schedules')
    r.shuffle(xs)
    # a third of them with faults
    kinds = [x for x in xs if x[2] < 0], [x for x in xs if x[2] >= 0]
    at = [0, 0]
    out = []
    for i in range(n):
        q = run.rng(i)
        if i % 4 != 3:
            c = int(i % 3 == 2)
            ln, blk, fault, plan = kinds[c][at[c] % len(kinds[c])]
            at[c] += 1
            op = {'op': 'rdr', 'files': [text(q, ln)], 'blk': blk, 'fault': [0, fault], 'plan': plan, 'how': q.choice(['file', 'stdin', 'hist', 'pipe'])}
        else:
            blk = q.choice([1, 2, 3, 5, 16, 100, 4096])
            op = {'op': 'rdr', 'files': [text(q, q.choice([0, blk - 1, blk, blk + 1, 2 * blk, q.randrange(6 * blk)])) for _ in range(q.randint(1, 4))],
                  'blk': blk, 'plan': '', 'how': q.choice(['file', 'mmap', 'hist', 'list', 'ctx', 'rec'])}
            j = q.randrange(len(op['files']))
            op['fault'] = [j, q.randint(0, len(op['files'][j]))] if op['how'] not in ('mmap', 'ctx') and q.random() < 0.4 else [0, -1]
        out.append({'id': i + 1, 'ops': [op]})
    return out


def one(exe, d, op):
    fs = []
    for i, b in enumerate(op['files']):
        p = os.path.join(d, 'd', 'f%d' % i)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(b)
        fs.append(p)
    log = os.path.join(d, 'log')
    how = op['how']
    args = lg.limited(exe) + ['-p', 'b[a-z]+', '--block-size', '%d' % op['blk']]
    kw = {'stdin': subprocess.DEVNULL}
    if how == 'mmap':
        args.append('--mmap')
    if how == 'hist':
        args += ['--histogram-file', os.path.join(d, 'h')]
    if how == 'ctx':
        args += ['-C', '1']
    if how == 'stdin':
        kw = {'stdin': open(fs[0], 'rb')}
        args.append('-')
    elif how == 'pipe':
        kw = {'input': op['files'][0]}
        args.append('-')
    elif how == 'list':
        with open(os.path.join(d, 'inputs'), 'w') as f:
            f.write('\n'.join(fs) + '\n')
        args += ['-a', os.path.join(d, 'inputs')]
    elif how == 'rec' and len(fs) == 1:
        args += ['-r', os.path.join(d, 'd')]
    else:
        args += fs
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env=dict(lg.ENV, READER_LOG=log, READER_PLAN=op['plan'],
                                    **({'READER_FAULT': '%d:%d' % tuple(op['fault'])} if op['fault'][1] >= 0 else {})), cwd=d, **kw)
    except subprocess.TimeoutExpired:
        return ('crash', 'no end within 120 s: %r' % args)
    finally:
        if how == 'stdin':
            kw['stdin'].close()
    if p.returncode < 0 or p.returncode == 99:
        return ('crash', 'exit %d of %r\n%s' % (p.returncode, args, p.stderr.decode('utf8', 'replace')[-2000:]))
    ev, free = [], False
    for ln in lg.B.read(log).splitlines() if os.path.exists(log) else ():
        e = json.loads(ln)
        if e['t'] == 'free':
            free = True
            continue
        if 'bytes' in e:
            e['bytes'] = list(bytes.fromhex(e['bytes']))
        if 'off' in e:
            e['off'] = lg.clip(e['off'])
        ev.append(e)
    return [{'ev': ev, 'status': p.returncode, 'free': free}]


def run_rdr(exe, scns, jobs=lg.NCPU):
    root = tempfile.mkdtemp(prefix='rdr', dir=lg.RUN)

    def go(s):
        d = os.path.join(root, str(s['id']))
        os.makedirs(d)
        try:
            return s['id'], one(exe, d, s['ops'][0])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            return dict(ex.map(go, scns))
    finally:
        shutil.rmtree(root, ignore_errors=True)
