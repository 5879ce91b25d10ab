#!/usr/bin/env python3
"""Build the simulator from /repo's working tree into /verif/build (git-ignored)."""
import os, subprocess, sys, hashlib, json, re, shutil, concurrent.futures, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
B = os.environ.get('SIM_BUILD', os.path.join(V, 'build'))
OMPI = '/usr/lib/x86_64-linux-gnu/openmpi/include'
DEFS = ['-DENABLE_ExodusII', '-DMETIS_5', '-D_MSTK_HAVE_METIS', '-D_MSTK_HAVE_ZOLTAN']
LIBC = ['malloc', 'calloc', 'realloc', 'free', 'exit', 'fopen', 'time', 'pthread_mutex_lock', 'pthread_mutex_unlock']
# variant: (compile flags, source folders whose memory accesses are points where simulated threads may switch)
VARIANTS = {'': ([], []), 'mark': (['-DMSTK_USE_MARKERS'], ['base', 'util']), 'thr': ([], ['base', 'util'])}
HOOKS = ['MSTK_Report', 'MESH_Get_Partitioning']

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stdout.write('build step failed: %s\n%s\n' % (' '.join(cmd)[:300], p.stdout[-4000:]))
        sys.exit(2)
    return p.stdout

def sources():
    r = []
    for d in ['base', 'hilev', 'io', 'misc', 'util', 'mod', 'par']:
        p = os.path.join(REPO, 'src', d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith(('.c', '.cc', '.cpp')):
                    r.append((d, os.path.join(p, f)))
    for f in ('meshconvert', 'mkstruc', 'tri2quad', 'tet2hex', 'exoatt'):   # programs: run as functions
        p = os.path.join(REPO, 'utils', f, 'src', f + '.c')
        if os.path.exists(p): r.append(('util_' + f, p))
    p = os.path.join(REPO, 'utils', 'mkstruc', 'src', 'transform_xyz.c')
    if os.path.exists(p): r.append(('tool', p))
    return r

def gen_headers(inc):
    """what CMake does on configure: copy include/*.h, fill in MSTK_defines.h"""
    os.makedirs(inc, exist_ok=True)
    src = os.path.join(REPO, 'include')
    names = [f for f in os.listdir(src) if f.endswith('.h')]
    for f in os.listdir(inc):
        if f not in names: os.remove(os.path.join(inc, f))
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    ver = {}
    for k in ('MAJOR', 'MINOR', 'PATCH'):
        m = re.search(r'set\(MSTK_VERSION_%s\s+"?(\d+)' % k, cm)
        ver[k] = m.group(1) if m else '0'
    for f in names:
        t = open(os.path.join(src, f), errors='surrogateescape').read()
        if f == 'MSTK_defines.h':
            for k in ver: t = t.replace('@MSTK_VERSION_%s@' % k, ver[k])
            t = re.sub(r'^#cmakedefine\s+(\w+)', r'#define \1', t, flags=re.M)
        p = os.path.join(inc, f)
        if not os.path.exists(p) or open(p, errors='surrogateescape').read() != t:
            open(p, 'w', errors='surrogateescape').write(t)

def newest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for f in sorted(os.listdir(d)):
            if f.endswith('.h'):
                h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()

def compile_one(job):
    src, obj, cmd, key = job
    kf = obj + '.key'
    k = hashlib.sha256((key + ' '.join(cmd)).encode() + open(src, 'rb').read()).hexdigest()
    if os.path.exists(obj) and os.path.exists(kf) and open(kf).read() == k:
        return None
    if os.path.exists(kf): os.remove(kf)
    p = subprocess.run(cmd + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return (src, p.stdout)
    open(kf, 'w').write(k)
    return None

def build_mstk(inc, out, libname, extra, rename, tsan=()):
    os.makedirs(out, exist_ok=True)
    key = newest([inc])
    cc = ['gcc', '-std=c99', '-O2', '-g1', '-DNDEBUG', '-fPIC', '-w', '-I' + inc, '-I' + OMPI, '-I/usr/include/trilinos'] + DEFS + extra
    jobs = []
    for d, s in sources():
        c = list(cc)
        if d in tsan: c.append('-fsanitize=thread')
        if d.startswith('util_'): c.append('-Dmain=%s_main' % d[5:])
        if not s.endswith('.c'): c = ['g++'] + [x for x in cc[1:] if not x.startswith('-std')]
        jobs.append((s, os.path.join(out, d + '_' + os.path.basename(s) + '.o'), c, key))
    want = {j[1] for j in jobs}
    for f in os.listdir(out):
        p = os.path.join(out, f)
        if f.endswith('.o') and not f.endswith('.r.o') and p not in want: os.remove(p)
    errs = []
    changed = False
    with concurrent.futures.ThreadPoolExecutor(16) as ex:
        for r in ex.map(compile_one, jobs):
            if r: errs.append(r)
    if errs:
        for s, t in errs: print('cannot compile', s, '\n', t[-2000:])
        sys.exit(2)
    # rename seams
    args = []
    for s in LIBC: args += ['--redefine-sym', '%s=sim_%s' % (s, s)]
    for s in rename: args += ['--redefine-sym', s]
    objs = []
    nmout = run(['nm', '-A', '--defined-only'] + [j[1] for j in jobs])
    defs = {}
    for l in nmout.splitlines():
        m = re.match(r'(.*\.o):[0-9a-f]+ ([A-Z]) (\S+)$', l)
        if m: defs.setdefault(m.group(3), set()).add(m.group(1))
    cmds = []
    for s, o, _, _ in jobs:
        ro = o[:-2] + '.r.o'
        a = list(args)
        for h in HOOKS:
            if o not in defs.get(h, ()): a += ['--redefine-sym', '%s=simhook_%s' % (h, h)]
        objs.append(ro)
        if not os.path.exists(ro) or os.path.getmtime(ro) <= os.path.getmtime(o) or not os.path.exists(ro + '.k') or open(ro + '.k').read() != ' '.join(a):
            cmds.append((['objcopy'] + a + [o, ro], ro, ' '.join(a)))
    def oc(c):
        run(c[0]); open(c[1] + '.k', 'w').write(c[2])
    with concurrent.futures.ThreadPoolExecutor(16) as ex: list(ex.map(oc, cmds))
    lib = os.path.join(B, libname)
    if cmds or not os.path.exists(lib) or any(os.path.getmtime(o) > os.path.getmtime(lib) for o in objs):
        run(['gcc', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,now', '-o', lib] + objs)
    return lib

def main(variants):
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    inc = os.path.join(B, 'include'); gen_headers(inc)
    S = os.path.join(V, 'sim')
    srcs = [os.path.join(S, f) for f in sorted(os.listdir(S)) if f.endswith('.cc')]
    key = newest([inc, S])
    jobs = [(s, os.path.join(B, os.path.basename(s) + '.o'), ['g++', '-std=c++17', '-O1', '-g1', '-Wall', '-fPIC', '-DOMPI_SKIP_MPICXX', '-DMPICH_SKIP_MPICXX', '-I' + S, '-I' + inc, '-I' + OMPI], key) for s in srcs]
    errs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(compile_one, jobs):
            if r: errs.append(r)
    if errs:
        for s, t in errs: print('cannot compile', s, '\n', t[-3000:])
        sys.exit(2)
    objs = [j[1] for j in jobs]
    for v in variants:
        suf = '_' + v if v else ''
        lib = build_mstk(inc, os.path.join(B, 'obj' + suf), 'libmstksim%s.so' % suf, VARIANTS[v][0], [], VARIANTS[v][1])
        exe = os.path.join(B, 'mstksim' + suf)
        if not os.path.exists(exe) or any(os.path.getmtime(o) > os.path.getmtime(exe) for o in objs + [lib]):
            run(['g++', '-rdynamic', '-no-pie', '-o', exe + '.tmp'] + objs + ['-Wl,-z,now', '-Wl,-rpath,' + B, '-L' + B, '-lmstksim' + suf,
                 '-L/usr/lib/x86_64-linux-gnu', '-lexoIIv2c', '-lmetis', '-ltrilinos_zoltan', '-lmpi', '-ldl', '-lm'])
            os.replace(exe + '.tmp', exe)
        print('built', exe)

if __name__ == '__main__':
    main([v for v in sys.argv[1:]] if len(sys.argv) > 1 else [''])
