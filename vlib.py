"""Build pipeline: /repo sources + harness -> LLVM bitcode for the symbolic executor, and native executables for replay."""
import concurrent.futures as cf, threading, glob, hashlib, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BNL_REPO', '/repo')
BUILD = os.environ.get('BNL_VERIF_BUILD', os.path.join(ROOT, 'build'))
DEPS = '/opt/vp/deps'
NCPU = os.cpu_count() or 4
LLVM = '/usr/lib/llvm-18/bin'
CXX = LLVM + '/clang++'

INC = ['-I', ROOT + '/rt', '-I', ROOT + '/rt/include', '-I', REPO + '/bnl/base/include', '-I', REPO + '/bnl/http3/include', '-I', REPO + '/bnl/quic/include', '-I', REPO + '/bnl/quic/src', '-I', REPO + '/bnl/log/include', '-I', REPO,
       '-isystem', DEPS + '/outcome', '-include', DEPS + '/compat/compat.hpp']
BASE = ['-std=c++17', '-DFMT_SHARED', '-w']
IRFLAGS = BASE + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-builtin', '-D_GLIBCXX_ASSERTIONS', '-DSYM_IR', '-isystem', ROOT + '/rt/shim', '-emit-llvm', '-fno-strict-aliasing', '-fno-vectorize', '-fno-slp-vectorize']
SAN = ['-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return,null', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
NATFLAGS = BASE + ['-O1', '-g', '-D_GLIBCXX_ASSERTIONS', '-DXXH_INLINE_ALL', '-isystem', DEPS + '/xxhash']

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        el = [l for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l]
        raise RuntimeError('command failed: %s ... %s\n%s' % (cmd[0], cmd[-3:], '\n'.join(el[:8])[:1500] or r.stdout[-1500:]))
    return r.stdout

def fhash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:16]

def tree(d, exts=('.cpp', '.hpp', '.h', '.c', '.txt')):
    return [os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs if f.endswith(exts)]

def atomic(out, cmd):
    tmp = out + '.tmp%d' % os.getpid() + os.path.splitext(out)[1]
    sh([tmp if c == out else c for c in cmd]); os.replace(tmp, out)

def engine():
    src = [os.path.join(ROOT, 'engine', f) for f in ('engine.cpp', 'expr.h', 'solver.h')]
    out = os.path.join(BUILD, 'symx-' + fhash(src)); os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(out):
        fl = [f for f in sh([LLVM + '/llvm-config', '--cxxflags']).split() if not f.startswith('-std') and f != '-fno-exceptions']
        ld = sh([LLVM + '/llvm-config', '--ldflags', '--libs']).split()
        atomic(out, [CXX, '-std=c++17', '-O2', '-g0', '-w'] + fl + ['-fexceptions', src[0], '-o', out] + ld + ['-lz3'])
        for o in glob.glob(os.path.join(BUILD, 'symx-*')):
            if o != out: os.remove(o)
    return out

def sources(lib):
    """The .cpp files CMake compiles into bnl-<lib>."""
    d = os.path.join(REPO, 'bnl', lib); t = open(os.path.join(d, 'CMakeLists.txt')).read()
    ms = re.findall(r'target_sources\(bnl-%s\s+PRIVATE(.*?)\)' % lib, t, re.S)
    return [os.path.join(d, x) for m in ms for x in m.split() if x.endswith('.cpp')]

APP = os.path.join(REPO, 'bnl', 'http3', 'app', 'endpoint')
app = lambda: sources('base') + sources('http3') + sorted(f for f in tree(APP, ('.cpp',)) if os.path.basename(f) != 'client.cpp')
LIBS = {'http3': lambda: sources('base') + sources('http3'),
        'io': lambda: sources('base') + sources('http3') + sources('log') + [os.path.join(ROOT, 'rt/io.cpp')],
        'quic': lambda: sources('base') + sources('quic') + [os.path.join(ROOT, 'rt/io.cpp')],
        'app': lambda: app() + [os.path.join(ROOT, 'rt/io.cpp')],
        'client': lambda: app() + [os.path.join(APP, 'client.cpp'), os.path.join(ROOT, 'rt/io.cpp')]}
LIBINC = {'http3': [], 'io': [], 'quic': ['-isystem', ROOT + '/rt/quic'], 'app': ['-I', ROOT + '/rt/app', '-I', APP]}
LIBINC['client'] = LIBINC['app']
IRLIB = {'io': ['-UFMT_SHARED', '-DFMT_HEADER_ONLY']} # formatting is executed too
SRCFLAGS = {'client.cpp': ['-Dmain=client_main']}

class Build:
    def __init__(self):
        self.key = fhash(tree(os.path.join(REPO, 'bnl')) + tree(os.path.join(ROOT, 'rt')) + [os.path.join(ROOT, 'vlib.py')], repr((IRFLAGS, NATFLAGS, SAN, INC, LIBINC, IRLIB, SRCFLAGS)))
        self.dir = os.path.join(BUILD, 'lib-' + self.key); os.makedirs(self.dir, exist_ok=True)
        with open(os.path.join(self.dir, 'all_bnl.h.tmp%d' % os.getpid()), 'w') as f: # every public header of the libraries but bnl-quic
            for l in ('base', 'http3', 'log'):
                d = os.path.join(REPO, 'bnl', l, 'include')
                for h in sorted(tree(d, ('.hpp', '.h'))): f.write('#include <%s>\n' % os.path.relpath(h, d))
        os.replace(f.name, os.path.join(self.dir, 'all_bnl.h'))
        ds = sorted(glob.glob(os.path.join(BUILD, 'lib-*')), key=os.path.getmtime)
        os.utime(self.dir)
        for d in ds[:-4]:
            if d != self.dir: shutil.rmtree(d, ignore_errors=True)
        self.pool = cf.ThreadPoolExecutor(NCPU); self.futs = {}; self.lock = threading.Lock(); self.llock = {}
    def once(self, key, f):
        with self.lock:
            if key not in self.futs: self.futs[key] = self.pool.submit(f)
            return self.futs[key]
    def lockfor(self, key):
        with self.lock: return self.llock.setdefault(key, threading.Lock())
    def cc(self, src, out, flags, lib):
        def f():
            if not os.path.exists(out): atomic(out, [CXX] + flags + SRCFLAGS.get(os.path.relpath(src, APP), []) + LIBINC[lib] + INC + ['-I', self.dir, '-c', src, '-o', out])
            return out
        return self.once(out, f)
    def tag(self, src): return hashlib.sha256(src.encode()).hexdigest()[:8] + '-' + os.path.basename(src)
    def objs(self, lib, kind):
        fl, ext = {'ir': (IRFLAGS + IRLIB.get(lib, []), '.bc'), 'asan': (NATFLAGS + SAN, '.asan.o'), 'plain': (NATFLAGS + ['-O0'], '.plain.o')}[kind]
        fs = [self.cc(s, os.path.join(self.dir, lib + '-' + self.tag(s) + ext), fl, lib) for s in LIBS[lib]()]
        if kind == 'ir': fs += [self.cc(os.path.join(ROOT, 'rt', s), os.path.join(self.dir, s + '.bc'), IRFLAGS + ['-Xclang', '-disable-O0-optnone'], 'http3') for s in ('rt.cpp', 'xxh.cpp')]
        else: fs += [self.cc(os.path.join(ROOT, 'rt/native.cpp'), os.path.join(self.dir, 'native' + ext), fl + (['-DUSE_VALGRIND'] if kind == 'plain' else []), 'http3')]
        return fs
    def hfiles(self, h): return [h] + [os.path.join(os.path.dirname(h), i) for i in re.findall(r'^#include "(\w+\.cpp)"', open(h).read(), re.M)]
    def hkey(self, h): return fhash(self.hfiles(h) + tree(os.path.dirname(h), ('.h',)) )
    def ir(self, h, lib):
        """bitcode of the library + harness, ready for the executor (blocking)."""
        hp = os.path.join(ROOT, 'harness', h); k = self.hkey(hp); out = os.path.join(self.dir, '%s-%s.final.bc' % (h, k))
        fs = self.objs(lib, 'ir'); hb = os.path.join(self.dir, '%s-%s.bc' % (h, k)); fs.append(self.cc(hp, hb, IRFLAGS + IRLIB.get(lib, []), lib))
        bcs = [f.result() for f in fs]
        with self.lockfor(out):
          if not os.path.exists(out):
            l = out + '.link%d.bc' % os.getpid(); atomic(l, [LLVM + '/llvm-link', '-o', l] + bcs); sh([engine(), '-tag', l, l + '.tag']); os.replace(l + '.tag', l)
            names = re.findall(r'^ENTRY\((\w+)\)', ''.join(open(f).read() for f in self.hfiles(hp)), re.M)
            atomic(out, [LLVM + '/opt', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg<no-switch-to-lookup>)', '-internalize-public-api-list=' + ','.join(names), l, '-o', out]); os.remove(l)
        return out
    def native(self, h, lib, kind):
        hp = os.path.join(ROOT, 'harness', h); k = self.hkey(hp); out = os.path.join(self.dir, '%s-%s.%s.exe' % (h, k, kind))
        fl, ext = {'asan': (NATFLAGS + SAN, '.asan.o'), 'plain': (NATFLAGS + ['-O0'], '.plain.o')}[kind]
        fs = self.objs(lib, kind); fs.append(self.cc(hp, os.path.join(self.dir, '%s-%s' % (h, k) + ext), fl + ['-DSYM_NATIVE'], lib))
        os_ = [f.result() for f in fs]
        with self.lockfor(out):
          if not os.path.exists(out): atomic(out, [CXX] + (SAN if kind == 'asan' else []) + os_ + ['-lfmt', '-o', out])
        return out
