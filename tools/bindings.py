"""Runs scenarios through the bindings of other languages."""
import os, shutil, subprocess, sys
import lg

ASAN = dict(lg.ENV, ASAN_OPTIONS='exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:hard_rss_limit_mb=3500')


def asan_lib():
    """The sanitizer, and what it needs to see when it starts."""
    return ' '.join(subprocess.run(['gcc', '-print-file-name=' + x], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
                    for x in ('libasan.so', 'libstdc++.so.6'))


def package(so):
    """The Python package with the library beside it."""
    d = os.path.join(os.path.dirname(so), 'py')
    src = os.path.join(lg.B.BUILD, 'tree', 'pylightgrep', 'lightgrep')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, os.path.join(d, 'lightgrep'))
    shutil.copy2(so, os.path.join(d, 'lightgrep', 'liblightgrep.so'))
    return d


def py_target():
    so = lg.B.build(('so',), 'asan')['so']
    return [sys.executable, '-X', 'faulthandler', os.path.join(lg.B.HARNESS, 'pydriver.py'), package(so)]


def run_py(exe, scns, **kw):
    env = dict(ASAN, LD_PRELOAD=asan_lib(), PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1')
    return lg.run_driver_par(exe, scns, fmt=lg.kv, env=env, **kw)


def java_target():
    so = lg.B.build(('jni',), 'asan')['jni']
    src = os.path.join(lg.B.HARNESS, 'JavaDriver.java')
    classes = os.path.join(lg.B.BUILD, 'java', 'classes')
    out = os.path.join(lg.B.BUILD, 'java', 'driver')
    key = lg.B.sha('driver1', lg.B.read(src), lg.B.read(os.path.join(lg.B.BUILD, 'java', 'stamp')))
    stamp = os.path.join(out, 'stamp')
    if not os.path.exists(stamp) or lg.B.read(stamp).decode() != key:
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        lg.B.run(['javac', '-nowarn', '-cp', classes, '-d', out, src])
        lg.B.write_if_changed(stamp, key.encode())
    return ['java', '-Xcheck:jni', '-XX:ErrorFile=/dev/null', '-Xmx256m', '-Xss4m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Djava.library.path=' + os.path.dirname(so),
            '-cp', classes + ':' + out, 'com.lightboxtechnologies.lightgrep.JavaDriver']


def run_java(exe, scns, **kw):
    env = dict(ASAN, LD_PRELOAD=asan_lib())
    return lg.run_driver_par(exe, scns, fmt=lg.kv, env=env, **kw)
