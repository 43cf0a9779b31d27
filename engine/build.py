"""Build steps shared by all checks: extractor, generated header, IR."""
import os, subprocess, hashlib, sys, fcntl
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
LL = '/usr/lib/llvm-18'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def repo_files():
    out = []
    for d in ('lib',):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs if f.endswith(('.hpp', '.cpp', '.h', '.in'))]
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def tool():
    src = os.path.join(V, 'engine', 'cxx2ir.cpp')
    exe = os.path.join(B, 'cxx2ir-' + tree_hash([src]))
    with Lock('tool'):
        if not os.path.exists(exe):
            r = sh(['clang++', '-std=c++17', '-fno-rtti', '-O1', '-I%s/include' % LL, src, '-o', exe + '.tmp',
                    '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', LL + '/lib/libLLVM.so'])
            if r.returncode:
                raise RuntimeError('extractor build failed: ' + r.stderr[-2000:])
            os.rename(exe + '.tmp', exe)
    return exe


def gen_include():
    d = os.path.join(B, 'include', 'sse')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'configure.hpp')
    src = open(os.path.join(REPO, 'lib/include/sse/configure.hpp.in')).read()
    txt = src.replace('#cmakedefine HAS_LIBAIO', '#define HAS_LIBAIO\n')
    if not os.path.exists(p) or open(p).read() != txt:
        open(p + '.tmp', 'w').write(txt)
        os.rename(p + '.tmp', p)
    return os.path.join(B, 'include')


def cxxflags():
    return ['-std=gnu++17', '-DNDEBUG_OFF', '-Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec',
            '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_COMPILED_LIB',
            '-I%s/lib/include' % REPO, '-I%s' % gen_include(), '-I%s/include/sse' % B, '-I%s/lib' % REPO,
            '-I%s/lib/include/sse/schemes' % REPO, '-I%s/stubs' % V]


def ir(driver):
    """extract the IR of a driver TU; returns path or raises"""
    exe = tool()
    flags = cxxflags()
    src = os.path.join(V, 'drivers', driver + '.cpp')
    stubs = []
    for r, _, fs in os.walk(os.path.join(V, 'stubs')):
        stubs += [os.path.join(r, f) for f in fs]
    h = tree_hash(repo_files() + [src, os.path.join(V, 'engine', 'cxx2ir.cpp')] + stubs)
    out = os.path.join(B, 'ir-%s-%s.json' % (driver, h))
    with Lock('ir-' + driver):
        if not os.path.exists(out):
            for f in os.listdir(B):
                if f.startswith('ir-%s-' % driver) and f.endswith('.json'):
                    os.unlink(os.path.join(B, f))
            rd = sh(['clang++', '-print-resource-dir']).stdout.strip()
            r = sh([exe, out + '.tmp', src, REPO + '/,' + os.path.join(V, 'stubs/sse/crypto/rcprf.hpp'), '--'] + flags + ['-resource-dir=' + rd, '-w'])
            if r.returncode or not os.path.exists(out + '.tmp'):
                raise RuntimeError('extraction of %s failed:\n%s' % (driver, r.stderr[-3000:]))
            os.rename(out + '.tmp', out)
    return out


def harness(name, h):
    """compile harness/<name>.cpp with the listed repo sources"""
    src = os.path.join(V, 'harness', name + '.cpp')
    hdrs = []
    for d in ('stubs', 'harness'):
        for r, _, fs in os.walk(os.path.join(V, d)):
            hdrs += [os.path.join(r, f) for f in fs]
    hh = tree_hash(repo_files() + hdrs) + hashlib.sha256(repr(h).encode()).hexdigest()[:6]
    exe = os.path.join(B, 'h-%s-%s' % (name, hh))
    with Lock('h-' + name):
        if os.path.exists(exe):
            return exe
        for f in os.listdir(B):
            if f.startswith('h-%s-' % name) and not f.endswith('.lock'):
                os.unlink(os.path.join(B, f))
        flags = ['-std=gnu++17', '-g', '-O1', '-w', '-fno-omit-frame-pointer'] + h.get('flags', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
        inc = [x for x in cxxflags() if x.startswith('-I') or x.startswith('-D')] + ['-I' + os.path.join(V, 'harness')]
        srcs = [src] + [os.path.join(REPO, s) for s in h.get('src', [])]
        objs, ps = [], []
        for i, s in enumerate(srcs):
            o = '%s.%d.o' % (exe, i)
            objs.append(o)
            ps.append((s, subprocess.Popen(['g++'] + flags + inc + h.get('inc', []) + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        err = ''
        for s, p in ps:
            out, _ = p.communicate()
            if p.returncode:
                err += '%s:\n%s\n' % (s, out[-3000:])
        if not err:
            r = sh(['g++'] + flags + objs + ['-o', exe + '.tmp'] + h.get('libs', []) + ['-lpthread'])
            if r.returncode:
                err = r.stderr[-3000:]
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
        if err:
            raise RuntimeError('harness %s does not build:\n%s' % (name, err))
        os.rename(exe + '.tmp', exe)
    return exe


if __name__ == '__main__':
    tool()
    gen_include()
    for d in sys.argv[1:]:
        print(ir(d))
