#!/usr/bin/env python3
"""Build liblightgrep, the lightgrep program and the conformance drivers from
/repo's CURRENT working tree into /verif/build (git-ignored).

The sources are snapshotted into <build>/tree, generated sources (the bison
grammar, encodings.h) are regenerated there, and every object is cached by the
content of the source, of every repository header it read last time, and of the
flags.  Nothing is written to /repo or /opt/vp.
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LG_REPO', '/repo')
BUILD = os.environ.get('LG_BUILD', os.path.join(VERIF, 'build'))
HARNESS = os.path.join(VERIF, 'harness')

ICU_DEFS = ['-DU_USING_ICU_NAMESPACE=0', '-DU_CHARSET_IS_UTF8=1',
            '-DUNISTR_FROM_CHAR_EXPLICIT=explicit',
            '-DUNSTR_FROM_STRING_EXPLICIT=explicit']
JNI = ['-I/usr/lib/jvm/java-17-openjdk-amd64/include',
       '-I/usr/lib/jvm/java-17-openjdk-amd64/include/linux']
VARIANTS = {
  'std': ['-O1', '-w'],
  'asan': ['-O1', '-g1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer'],
  'tsan': ['-O1', '-g1', '-w', '-fsanitize=thread'],
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def write_if_changed(path, data):
    try:
        if read(path) == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'wb') as f:
        f.write(data)
    os.replace(tmp, path)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout


class Builder:
    def __init__(self, variant='std'):
        self.variant = variant
        self.flags = VARIANTS[variant]
        self.tree = os.path.join(BUILD, 'tree')
        self.objs = os.path.join(BUILD, 'cache')
        os.makedirs(self.objs, exist_ok=True)
        self._hash = {}

    # -- snapshot ----------------------------------------------------------
    def snapshot(self):
        keep = set()
        for top in ('include', 'src/lib', 'src/cmd', 'src/enc', 'src/java/jni', 'src/val',
                    'src/java/src/main/java', 'pylightgrep'):
            base = os.path.join(REPO, top)
            for d, dirs, files in os.walk(base):
                dirs[:] = [x for x in dirs if not x.startswith('.') and x != '__pycache__']
                for f in files:
                    if not f.endswith(('.h', '.cpp', '.ypp', '.java', '.py', '.hpp', '.cc')):
                        continue
                    src = os.path.join(d, f)
                    rel = os.path.relpath(src, REPO)
                    if rel in ('src/lib/re_grammar.cpp', 'include/lightgrep/encodings.h'):
                        continue
                    if rel.startswith('src/java/jni/') and f.endswith('.h'):
                        continue
                    keep.add(rel)
                    write_if_changed(os.path.join(self.tree, rel), read(src))
        cfg = os.path.join(REPO, 'config.h')
        if not os.path.exists(cfg):
            cfg = os.path.join(HARNESS, 'config.h.fallback')
        write_if_changed(os.path.join(self.tree, 'config.h'), read(cfg))
        keep.add('config.h')
        keep |= {'src/lib/re_grammar.cpp', 'include/lightgrep/encodings.h'}
        for d, dirs, files in os.walk(self.tree):
            for f in files:
                rel = os.path.relpath(os.path.join(d, f), self.tree)
                if rel not in keep and not rel.startswith('src/java/jni/') \
                        and not f.endswith('.class'):
                    os.unlink(os.path.join(d, f))

    def generate(self):
        ypp = os.path.join(self.tree, 'src/lib/re_grammar.ypp')
        key = sha('bison1', read(ypp))
        out = os.path.join(self.objs, 'gen-' + key)
        if not os.path.exists(out):
            tmp = out + '.t%d' % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            run(['bison', '-o', os.path.join(tmp, 're_grammar.cpp'), ypp])
            os.replace(os.path.join(tmp, 're_grammar.cpp'), out)
            shutil.rmtree(tmp, ignore_errors=True)
        write_if_changed(os.path.join(self.tree, 'src/lib/re_grammar.cpp'), read(out))
        enc = os.path.join(self.tree, 'src/enc/encodings.cpp')
        key = sha('enc1', read(enc), read(os.path.join(self.tree, 'include/lightgrep/transforms.h')))
        out = os.path.join(self.objs, 'gen-' + key)
        if not os.path.exists(out):
            exe = out + '.exe%d' % os.getpid()
            run(['g++', '-O0', '-w', '-include', 'functional', '-include', 'cstdint',
                 '-DHAVE_CONFIG_H', '-I', self.tree, '-I', os.path.join(self.tree, 'include')]
                + ICU_DEFS + [enc, '-o', exe, '-licuuc', '-licudata'])
            data = run([exe])
            os.unlink(exe)
            write_if_changed(out, data)
        write_if_changed(os.path.join(self.tree, 'include/lightgrep/encodings.h'), read(out))

    # -- objects -----------------------------------------------------------
    def fhash(self, path):
        h = self._hash.get(path)
        if h is None:
            try:
                h = sha(read(path))
            except OSError:
                h = 'absent'
            self._hash[path] = h
        return h

    def cc(self, src, extra=()):
        flags = self.flags + list(extra)
        base = sha('cc1', src, *flags)
        mpath = os.path.join(self.objs, 'm-' + base)
        src_h = self.fhash(src)

        def key(deps):
            return sha(base, src_h, *['%s=%s' % (d, self.fhash(d)) for d in deps])
        manifests = []
        try:
            manifests = json.loads(read(mpath))
        except (OSError, ValueError):
            pass
        for deps in manifests:
            obj = os.path.join(self.objs, key(deps) + '.o')
            if os.path.exists(obj):
                os.utime(obj)
                return obj
        tmp = os.path.join(self.objs, 't%d-%s' % (os.getpid(), base[:16]))
        cmd = ['g++', '-std=gnu++17', '-fPIC', '-pthread', '-include', 'functional', '-include', 'cstdint',
               '-DHAVE_CONFIG_H', '-I', self.tree, '-I', os.path.join(self.tree, 'include'),
               '-I', os.path.join(self.tree, 'src/java/jni')] \
            + ICU_DEFS + flags + ['-MD', '-MF', tmp + '.d', '-c', src, '-o', tmp + '.o']
        run(cmd)
        deps = re.sub(r'\\\n', ' ', read(tmp + '.d').decode()).split(':', 1)[1].split()
        deps = sorted({os.path.normpath(d) for d in deps if os.path.normpath(d).startswith((BUILD, VERIF))
                       and os.path.normpath(d) != src})
        obj = os.path.join(self.objs, key(deps) + '.o')
        os.replace(tmp + '.o', obj)
        os.unlink(tmp + '.d')
        manifests = [deps] + [m for m in manifests if m != deps]
        write_if_changed(mpath, json.dumps(manifests[:8]).encode())
        return obj

    def compile_all(self, jobs):
        """jobs: list of (src, extra) -> list of objects"""
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            # the slowest first
            slow = ('re_grammar', 'parseutil', 'options', 'optparser', 'encoderfactory', 'main', 'icu',
                    'lightgrep_c', 'nfa', 'lg_app', 'driver')
            order = sorted(range(len(jobs)), key=lambda i: 0 if any(s in jobs[i][0] for s in slow) else 1)
            futs = {i: ex.submit(self.cc, *jobs[i]) for i in order}
            return [futs[i].result() for i in range(len(jobs))]

    def link(self, name, objs, libs, shared=False):
        out = os.path.join(BUILD, self.variant, name)
        key = sha('ln2', name, *[os.path.basename(o) for o in objs], *libs, str(shared))
        cached = os.path.join(self.objs, key + '.bin')
        if not os.path.exists(cached):
            tmp = cached + '.t%d' % os.getpid()
            san = [f for f in self.flags if f.startswith('-fsanitize')]
            run(['g++', '-pthread'] + san + (['-shared'] if shared else []) + ['-o', tmp] + objs + libs)
            os.replace(tmp, cached)
        os.utime(cached)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.t%d' % os.getpid()
        try:
            os.link(cached, tmp)
        except OSError:
            shutil.copy2(cached, tmp)
        os.replace(tmp, out)
        if os.path.exists(tmp):         # it was the same file
            os.remove(tmp)
        return out


ICU_LIBS = ['-licuuc', '-licudata']


def sources(tree, rel):
    base = os.path.join(tree, rel)
    r = []
    for d, _, files in os.walk(base):
        r += [os.path.join(d, f) for f in files if f.endswith('.cpp')]
    return sorted(r)


def build(targets=('driver', 'lightgrep'), variant='std'):
    """Returns {target: path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        b = Builder(variant)
        b.snapshot()
        b.generate()
        jobs, groups = [], {}

        def group(name, items):
            groups[name] = (len(jobs), len(jobs) + len(items))
            jobs.extend(items)
        group('lib', [(s, ()) for s in sources(b.tree, 'src/lib')])
        if 'lightgrep' in targets:
            group('cmd', [(s, ()) for s in sources(b.tree, 'src/cmd')])
        if 'readerdrv' in targets:
            group('cmdlib', [(s, ()) for s in sources(b.tree, 'src/cmd')])
            group('readerdrv', [(os.path.join(HARNESS, 'readerdrv.cpp'), ())])
        if 'driver' in targets:
            group('driver', [(os.path.join(HARNESS, 'driver.cpp'), ())])
        if 'unidump' in targets:
            group('unidump', [(os.path.join(HARNESS, 'unidump.cpp'), ())])
        if 'jni' in targets:
            javac(b)
            group('jni', [(os.path.join(b.tree, 'src/java/jni/jlightgrep.cpp'), tuple(JNI))])
        objs = b.compile_all(jobs)

        def grp(name):
            lo, hi = groups[name]
            return objs[lo:hi]
        res = {}
        boost = ['-lboost_program_options', '-lboost_system']
        if 'driver' in targets:
            res['driver'] = b.link('driver', grp('driver') + grp('lib'), ICU_LIBS)
        if 'unidump' in targets:
            res['unidump'] = b.link('unidump', grp('unidump'), ICU_LIBS)
        if 'lightgrep' in targets:
            res['lightgrep'] = b.link('lightgrep', grp('cmd') + grp('lib'), boost + ICU_LIBS)
        if 'readerdrv' in targets:
            res['readerdrv'] = b.link('readerdrv', grp('readerdrv') + grp('cmdlib') + grp('lib'),
                                      ['-Wl,--wrap=' + f for f in ('fread', '__fread_chk', 'lg_search', 'lg_closeout_search')]
                                      + boost + ICU_LIBS)
        if 'so' in targets:
            res['so'] = b.link('liblightgrep.so', grp('lib'), ICU_LIBS, shared=True)
        if 'jni' in targets:
            res['jni'] = b.link('libjlightgrep.so', grp('jni') + grp('lib'), ICU_LIBS, shared=True)
        prune(b)
        return res


def javac(b):
    base = os.path.join(b.tree, 'src/java/src/main/java')
    files = []
    for d, _, fs in os.walk(base):
        files += sorted(os.path.join(d, f) for f in fs if f.endswith('.java'))
    key = sha('javac2', *[read(f) for f in files])
    stamp = os.path.join(BUILD, 'java', 'stamp')
    if os.path.exists(stamp) and read(stamp).decode() == key:
        return
    out = os.path.join(BUILD, 'java', 'classes')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jni = os.path.join(b.tree, 'src/java/jni')
    run(['javac', '-nowarn', '-d', out, '-h', jni] + files)
    hs = sorted(f for f in os.listdir(jni) if f.startswith('com_') and f.endswith('.h'))
    write_if_changed(os.path.join(jni, 'jlightgrep.h'),
                     ''.join('#include "%s"\n' % h for h in hs).encode())
    write_if_changed(stamp, key.encode())


def prune(b, limit=3 << 30):
    ents = []
    for f in os.listdir(b.objs):
        p = os.path.join(b.objs, f)
        st = os.stat(p)
        ents.append((st.st_mtime, st.st_size, p))
    total = sum(e[1] for e in ents)
    for _, size, p in sorted(ents):
        if total <= limit:
            break
        if not os.path.basename(p).startswith('gen-'):
            os.unlink(p)
            total -= size


if __name__ == '__main__':
    t = time.time()
    variant = os.environ.get('VARIANT', 'std')
    try:
        r = build(tuple(sys.argv[1:]) or ('driver', 'lightgrep'), variant)
    except BuildError as e:
        print('BUILD FAILED\n%s' % e)
        sys.exit(2)
    print(json.dumps(r), '%.1fs' % (time.time() - t))
