#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--n N]

Exit 0: the property held on everything explored.  Exit 1, with a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: the machinery
failed."""
import argparse, json, os, random, shutil, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lg, gen, cli, rdr, bindings, calls, sweep
from lg import CheckError, VERIF

REPLAYS = os.path.join(lg.B.BUILD, 'replay')


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.findings = {}
        self.work = os.path.join(lg.RUN, '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(REPLAYS, exist_ok=True)

    def rng(self, *key):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, '/'.join(map(str, key))))

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in self.cov and isinstance(self.cov[k], (int, float)):
                self.cov[k] += v
            elif k == 'samples':
                self.cov['samples'] += v
            else:
                self.cov[k] = v

    def violation(self, data, what):
        path = os.path.join(REPLAYS, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'data': lg.enc_json(data)}, f, indent=1)
        self.violations.append((path, what))

    def finish(self, level):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
        shutil.rmtree(self.work, ignore_errors=True)
        for what in self.findings.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for path, what in self.violations[:20]:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + what.replace('\n', '\n  ')[:1500])
        if not self.violations:
            print('OK property=%s %s' % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != 'samples'})))
        return 1 if self.violations else 0


def show_ops(s, upto=None):
    out = []
    for k, op in enumerate(s['ops']):
        o = dict(op)
        out.append('%s%s' % ('--> ' if upto == k else '', {a: b for a, b in o.items()}))
    return out


def known(prop):
    """The findings which are recorded rather than repaired: {signature: what fails}."""
    out = {}
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for ln in f:
            t = ln.split(None, 3)
            if len(t) == 4 and t[0] == 'known:' and t[1] == 'property=' + prop:
                out[t[2]] = t[3].strip()
    return out


def java_search_int(s, obs):
    """ContextHandle.search returns 32 bits of what lg_search returns."""
    out, changed = [], False
    for op, o in zip(s['ops'], obs):
        if op['op'] == 'search' and 'ret' in o and op['off'] + len(op['bytes']) >= 1 << 31 and -(1 << 31) <= o['ret'] < 1 << 31:
            end = op['off'] + len(op['bytes'])
            o = dict(o, ret=end - ((end - o['ret']) & 0xffffffff))
            changed = True
        out.append(o)
    return out if changed else None


# What is observed where a known finding shows, made into what should have been
KNOWN = {'java-search-int': java_search_int}


def trace_check(run, facts, scns, exe, module='Trace.tla', cfg='Trace.cfg', driver=lg.run_driver_par, label=''):
    """Drives the scenarios, has TLC check the traces, confirms what it rejects."""
    obs = driver(exe, scns)
    by = {s['id']: s for s in scns}
    bad = {}
    for i, o in obs.items():
        if isinstance(o, tuple):
            bad[i] = None
    rej, st, tr = lg.check_traces(facts, scns, obs, run.work, module, cfg)
    mends = {sig: what for sig, what in known(run.prop).items() if sig in KNOWN}
    for sig, what in mends.items():
        mended = {i: KNOWN[sig](by[i], obs[i]) for i in rej}
        mended = {i: o for i, o in mended.items() if o}
        if mended:
            r2 = lg.check_traces(facts, [by[i] for i in mended], mended, run.work, module, cfg)[0]
            for i in mended:
                if i not in r2:
                    del rej[i]
                    run.findings[sig] = what
                else:
                    obs[i], rej[i] = mended[i], r2[i]
    bad.update(rej)
    run.note(states=st, transitions=tr, traces_validated_against_impl=len(scns))

    def drive(exe, one):
        out = driver(exe, one)
        for sig in mends:
            for j, o in out.items():
                out[j] = o if isinstance(o, tuple) else KNOWN[sig](by[j], o) or o
        return out

    for i in sorted(bad)[:12]:
        s = by[i]
        again = drive(exe, [s])
        if isinstance(again[i], tuple):
            run.violation({'scenario': s, 'observed': again[i][1]}, '%scrash: %s\nin %s' % (label, again[i][1][-800:], '\n'.join(show_ops(s))))
            continue
        r2, _, _ = lg.check_traces(facts, [s], again, run.work, module, cfg)
        if i not in r2:
            if isinstance(obs[i], tuple) or again[i] != obs[i]:
                # It does not repeat: what the library does depends on more than
                # the calls. Try some more before giving up on it.
                for _ in range(20):
                    again = drive(exe, [s])
                    if isinstance(again[i], tuple):
                        break
                    r2, _, _ = lg.check_traces(facts, [s], again, run.work, module, cfg)
                    if i in r2:
                        break
                if isinstance(again[i], tuple):
                    run.violation({'scenario': s, 'observed': again[i][1]}, '%scrash (not every time): %s' % (label, again[i][1][-800:]))
                    continue
                if i in r2:
                    pass
                else:
                    print('note: scenario %d was rejected once and not again' % i)
                    continue
            else:
                raise CheckError('TLC rejected scenario %d once and not again' % i)
        k = r2[i] - 1
        flat = [(op, o) for op, o in zip(s['ops'], again[i])]
        n, at = 0, None
        for j, (op, o) in enumerate(flat):
            n += len(lg.events(op, o, lg.Bases()))
            if n > k:
                at = j
                break
        run.violation({'scenario': s, 'observed': again[i], 'rejected': at},
                      '%sthe specification does not allow %s\nafter\n%s' % (label, json.dumps(lg.enc_json([flat[at][0], flat[at][1]])),
                                                                     '\n'.join(show_ops({'ops': s['ops'][:at]}))))
    return obs


# name: (generator, takes facts, quick count, thorough count, variant, rule)
TRACES = {
    'P01': (gen.p01, 0, 1500, 40000),
    'P02': (gen.p02, 0, 900, 20000),
    'P03': (gen.p03, 0, 900, 25000),
    'P04': (gen.p04, 0, 700, 15000),
    'P05': (gen.p05, 0, 500, 10000),
    'P06': (gen.p06, 0, 900, 20000),
    'P07': (gen.p07, 0, 700, 15000),
    'P08': (gen.p08, 0, 500, 12000),
    'P09': (gen.p09, 0, 700, 12000),
    'P10': (gen.p10, 0, 2000, 40000),
    'P11': (gen.p11, 0, 900, 20000),
    'P12': (gen.p12, 1, 500, 10000),
    'P13': (gen.p13, 1, 500, 10000),
    'P14': (gen.p14, 1, 700, 15000),
    'P15': (gen.p15, 1, 700, 15000),
    'P16': (gen.p16, 0, 500, 12000),
    'P17': (gen.p17, 0, 800, 16000),
    'P18': (gen.p18, 0, 800, 16000),
    'P19': (gen.p19, 0, 700, 16000),
    'P20': (gen.p20, 0, 500, 8000),
    'P21': (gen.p21, 0, 800, 16000),
    'P22': (gen.p22, 1, 800, 16000),
    'P23': (gen.p23, 1, 800, 16000),
    'P24': (gen.p24, 1, 900, 20000),
    'P27': (gen.p27, 0, 300, 5000),
    'P25': (None, 0, 1600, 16000),
    'P26': (None, 0, 1600, 12000),
}


# what runs the scenarios of a property: (build target, function)
RUNNERS = {p: ('lightgrep', cli.run_cli) for p in ('P17', 'P18', 'P19', 'P20', 'P21')}
RUNNERS['P22'] = (bindings.py_target, bindings.run_py)
RUNNERS['P23'] = (bindings.java_target, bindings.run_java)
RUNNERS['P25'] = (calls.target, calls.run_calls)
RUNNERS['P26'] = ('readerdrv', rdr.run_rdr)
# the trace specification, where it is not Trace
WHOLE = {'P25': calls, 'P26': rdr}
MODULES = {'P25': ('CallsTrace.tla', 'CallsTrace.cfg'), 'P26': ('ReaderTrace.tla', 'ReaderTrace.cfg')}


def runner(prop):
    target, fn = RUNNERS.get(prop, ('driver', lg.run_driver_par))
    return target() if callable(target) else lg.B.build((target,))[target], fn


def make(run, facts, g, wants, n, start=0, tier=None):
    out = []
    for i in range(start, start + n):
        r = run.rng(i)
        ops = g(r, i, tier or run.tier, facts) if wants else g(r, i, tier or run.tier)
        out.append({'id': i + 1, 'ops': ops})
    return out


def traces(run, facts, n=None):
    g, wants, nq, nt = TRACES[run.prop]
    few = n is not None
    n = n or (nq if run.tier == 'quick' else nt)
    exe, fn = runner(run.prop)
    step = 4000
    distinct = set()
    ncalls = 0
    whole = WHOLE[run.prop].scenarios(run, facts, n) if g is None else None
    extra = []
    if run.prop in sweep.SWEEPS and not few:
        extra = sweep.choose(run, exe, sweep.SWEEPS[run.prop][1 if run.tier == 'quick' else 2])
    for start in range(0, n, step):
        scns = whole[start:start + step] if whole else make(run, facts, g, wants, min(step, n - start), start)
        if start == 0:
            scns = scns + extra
        for s in scns:
            distinct.add(repr(s['ops']))
            ncalls += len(s['ops'])
        obs = trace_check(run, facts, scns, exe, *MODULES.get(run.prop, ()), driver=fn)
        if run.prop == 'P26':
            run.note(schedules_followed=sum(1 for s in scns if s['ops'][0]['plan'] and not obs[s['id']][0]['free']))
        if start == 0:
            run.note(samples=[{'ops': lg.enc_json(s['ops']), 'observed': obs[s['id']]} for s in scns[:3]])
        if run.violations:
            break
    if run.prop == 'P25':
        calls.probes(run, known('P25'))
    run.note(distinct_scenarios=len(distinct), calls_checked=ncalls)
    return 'model_checking'


def replay(run, facts, path):
    with open(path) as f:
        d = lg.dec_json(json.load(f)['data'])
    s = d['scenario']
    exe, fn = runner(run.prop)
    trace_check(run, facts, [s], exe, *MODULES.get(run.prop, ()), driver=fn)
    return 'model_checking'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--n', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        run = Run(a.prop, a.tier, a.seed)
        facts = lg.Facts()
        if a.replay:
            level = replay(run, facts, a.replay)
        else:
            level = traces(run, facts, a.n)
        return run.finish(level)
    except (CheckError, lg.B.BuildError) as x:
        print('CHECK FAILED: %s' % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
