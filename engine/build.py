"""Compile /repo's current sources to LLVM IR (real variant flags, clang -O0, then sroa)."""
import hashlib
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from irparse import Module

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
FLAGS = {
    'plain': [],
    'x86': ['-Dx86_INTRINSICS', '-maes', '-msse4.1'],
    'arm': ['--target=aarch64-linux-gnu', '-DARM_INTRINSICS', '-march=armv8-a+crypto'],
    'rounds6': ['-DROUND_REDUCED'],
    'rounds8': ['-DEIGHT_ROUNDS'],
    'rounds12': ['-DTWELVE_ROUNDS'],
}
BASE = ['-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-exceptions', '-fno-discard-value-names', '-w', '-S', '-emit-llvm',
        '-fdebug-compilation-dir=/', '-fno-threadsafe-statics']


class BuildError(Exception):
    pass


def compile_ir(path, flags, tmp):
    h = hashlib.sha1((path + repr(flags)).encode()).hexdigest()[:12]
    ll = os.path.join(tmp, h + '.ll')
    r = subprocess.run([CLANG] + BASE + flags + [path, '-o', ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('clang failed on %s:\n%s' % (path, r.stdout[-3000:]))
    o = ll[:-3] + '.o.ll'
    r = subprocess.run([OPT, '-S', '-passes=sroa', ll, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('opt failed on %s:\n%s' % (path, r.stdout[-2000:]))
    return open(o).read()


def modules(sources, variant, driver=None, incdirs=(), extra=()):
    """sources: paths relative to REPO; driver: C++ text. -> list of Module, driver first"""
    tmp = tempfile.mkdtemp(prefix='vgraph')
    try:
        flags = FLAGS[variant] + list(extra) + ['-I' + os.path.join(REPO, d) for d in incdirs]
        paths = []
        if driver is not None:
            p = os.path.join(tmp, 'driver.cpp')
            open(p, 'w').write(driver)
            paths.append(p)
        paths += [os.path.join(REPO, s) for s in sources]
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda p: compile_ir(p, flags, tmp), paths))
        return [Module(t) for t in texts]
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
