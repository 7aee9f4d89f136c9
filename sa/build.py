"""Compile /repo's current sources to LLVM IR and dump them as JSON for the analyses (nothing is executed)."""
import os, subprocess, tempfile, shutil, glob, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CLANG = 'clang++'
# files that are programs of their own or test drivers are not part of the library
SKIP = lambda f: f.endswith('Test.cpp')


class BuildError(Exception):
    pass


def tool():
    exe = os.path.join(VERIF, 'build', 'irdump'); src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cxx = subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags'], text=True).split()
    tmp = exe + '.%d' % os.getpid()
    r = subprocess.run([CLANG, '-std=c++17', '-O1'] + [f for f in cxx if not f.startswith('-std')] + ['-fno-rtti', '-w', src, '-o', tmp,
                        '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('irdump: ' + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def sources():
    return sorted(f for f in glob.glob(os.path.join(REPO, '*.cpp')) if not SKIP(f))


def build_json(out=None):
    """-> (path of the JSON dump, list of translation units)"""
    exe = tool()
    d = tempfile.mkdtemp(prefix='sa_')
    try:
        flags = ['-std=gnu++17', '-I' + REPO, '-I' + os.path.join(VERIF, 'stubs'), '-include', 'unistd.h', '-w', '-O0', '-g',
                 '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-femit-all-decls', '-emit-llvm', '-c']
        srcs = sources()
        if len(srcs) < 10:
            raise BuildError('only %d sources found in %s' % (len(srcs), REPO))
        units = srcs + [os.path.join(VERIF, 'driver', 'inst.cpp')]

        def comp(f):
            o = os.path.join(d, os.path.basename(f) + '.bc')
            r = subprocess.run([CLANG] + flags + [f, '-o', o], capture_output=True, text=True, cwd=d)
            return f, o, r
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(comp, units))
        bad = [(f, r.stderr) for f, o, r in rs if r.returncode]
        if bad:
            raise BuildError('cannot compile %s:\n%s' % (bad[0][0], bad[0][1][-3000:]))
        allbc = os.path.join(d, 'all.bc')
        r = subprocess.run(['llvm-link-18'] + [o for f, o, r in rs] + ['-o', allbc], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link: ' + r.stderr[-2000:])
        js = out or os.path.join(d, 'all.json')
        r = subprocess.run([exe, allbc, js, REPO.rstrip('/') + '/', os.path.join(VERIF, 'driver')], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('irdump: ' + r.stderr[-2000:])
        if out is None:
            from .ir import Module
            return Module(js), units
        return js, units
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load():
    """Module of the current tree.  SA_JSON (development only) reuses a dump."""
    p = os.environ.get('SA_JSON')
    if p:
        from .ir import Module
        return Module(p), sources()
    return build_json()


if __name__ == '__main__':
    if len(sys.argv) > 1:
        print(build_json(sys.argv[1])[0])
    else:
        tool()
