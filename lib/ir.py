"""Compile /repo's current sources to SSA IR and load it.

Every run re-reads /repo/src; results are cached in build/cache under a hash of every source byte, the
dumper and the flags, so the cache can never serve a stale tree."""
import os, re, sys, json, hashlib, subprocess, tempfile, shutil, pickle, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
CLANG = 'clang-18'
OPT = 'opt-18'
LINK = 'llvm-link-18'

class AnalysisBroken(Exception):
    pass

def _tool(n):
    if shutil.which(n): return n
    b = n.rsplit('-', 1)[0]
    p = '/usr/lib/llvm-18/bin/' + b
    return p if os.path.exists(p) else b

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise AnalysisBroken('%s\n%s' % (' '.join(cmd), r.stderr.decode('utf8', 'replace')[-3000:]))
    return r.stdout

def _make_objs(prog):
    """object list of a program, from its Makefile"""
    d = {'cc1': 'cc1', 'cpp': 'cpp2', 'ucc': 'ucc'}[prog]
    mk = open(os.path.join(REPO, 'src', d, 'Makefile')).read().replace('\\\n', ' ')
    want = {'cc1': ('OBJ_UTIL', 'OBJ_REST'), 'cpp': ('OBJ_CPP', 'OBJ_DEP'), 'ucc': ('OBJ_UCC', 'OBJ_DEP')}[prog]
    objs = []
    for m in re.finditer(r'^(\w+)\s*=\s*(.*)$', mk, re.M):
        if m.group(1) in want:
            objs += [w for w in m.group(2).split() if w.endswith('.o')]
    if prog == 'cc1':
        objs += ['cc1.o', 'out/x86_64.o']
    back = re.search(r'^BACKEND_TARGETTED\s*=\s*(.*)$', mk, re.M)
    back = set(back.group(1).split()) if back else set()
    out = []
    for o in dict.fromkeys(objs):
        c = o[:-2] + '.c'
        p = os.path.normpath(os.path.join(REPO, 'src', d, c))
        if not os.path.exists(p):
            raise AnalysisBroken('source %s named by the Makefile does not exist' % p)
        fl = []
        if c in back: fl.append('-DCC1_IMPL_FNAME="x86_64.h"')
        if prog == 'ucc' and not c.startswith('../'): fl.append('-D_XOPEN_SOURCE=500')
        out.append((p, fl))
    return out

CFLAGS = ['-std=c99', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=implicit-int', '-Wno-error=incompatible-function-pointer-types', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-eliminate-unused-debug-types',
          '-fno-common', '-fno-discard-value-names']

def src_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'src'))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.c', '.h', '.def', '.inc', '.mk')) or f == 'Makefile':
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, 'rb').read()); h.update(b'\0')
    for t in (os.path.join(BUILD, 'irdump'), os.path.abspath(__file__)):
        h.update(open(t, 'rb').read())
    return h.hexdigest()[:24]

def _lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, 'lock'), 'w'); fcntl.flock(f, fcntl.LOCK_EX); return f

def build_bc(prog):
    """linked, mem2reg'd bitcode path for prog (uncached work lives in build/cache/<hash>)"""
    ensure_setup()
    hd = os.path.join(CACHE, src_hash()); bc = os.path.join(hd, prog + '.bc')
    if os.path.exists(bc): return bc
    lk = _lock()
    try:
        if os.path.exists(bc): return bc
        # keep the cache small
        if os.path.isdir(CACHE):
            ds = sorted((d for d in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, d))),
                        key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
            for d in ds[:-6]:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.makedirs(hd, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=hd)
        srcs = _make_objs(prog)
        def one(i_pf):
            i, (p, fl) = i_pf
            o = os.path.join(tmp, '%d.bc' % i); o2 = os.path.join(tmp, '%d.o.bc' % i)
            sh([_tool(CLANG)] + CFLAGS + fl + ['-c', '-emit-llvm', os.path.basename(p), '-o', o], cwd=os.path.dirname(p))
            sh([_tool(OPT), '-passes=sroa,mem2reg', o, '-o', o2])
            return o2
        # compile from the Makefile's directory so that debug info names are stable
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, enumerate(srcs)))
        sh([_tool(LINK)] + outs + ['-o', os.path.join(tmp, 'l.bc')])
        os.rename(os.path.join(tmp, 'l.bc'), bc)
        shutil.rmtree(tmp, ignore_errors=True)
        return bc
    finally:
        lk.close()

def ensure_setup():
    d = os.path.join(BUILD, 'irdump')
    if not os.path.exists(d):
        sh(['bash', os.path.join(VERIF, 'setup.sh')])

def load_raw(prog):
    bc = build_bc(prog)
    pk = bc[:-3] + '.json'
    if not os.path.exists(pk):
        sh([os.path.join(BUILD, 'irdump'), bc, pk + '.%d' % os.getpid()])
        os.rename(pk + '.%d' % os.getpid(), pk)
    return json.load(open(pk))
