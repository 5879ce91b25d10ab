#!/usr/bin/env python3
"""Development tool (no check uses it): plant small mechanical changes in /repo's sources, one at a time in a
scratch build, and list those that no property's search notices within a few seconds.
usage: mutate.py OUT.jsonl NMUT SECS PROP,PROP,... FILE..."""
import sys, os, re, random, subprocess, json, shutil, concurrent.futures, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import build as B
OUT, NM, SECS, PROPS, FILES = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4].split(','), sys.argv[5:]
W = int(os.environ.get('WORKERS', '8'))
SCR = os.environ.get('SCR', '/tmp/mutate')
rnd = random.Random(int(os.environ.get('MSEED', '1')))
BB = os.path.join(V, 'build')

def body_lines(t):
    """indices of lines inside function bodies, outside comments"""
    r, depth, com = [], 0, False
    for i, l in enumerate(t):
        s = l
        if com:
            if '*/' in s: com = False; s = s.split('*/', 1)[1]
            else: continue
        s = re.sub(r'/\*.*?\*/', '', s)
        if '/*' in s: com = True; s = s.split('/*')[0]
        s = s.split('//')[0]
        if s.startswith('#'): continue
        if depth > 0 and s.strip(): r.append(i)
        depth += s.count('{') - s.count('}')
        if 'extern "C"' in s: depth = 0
    return r
DECL = re.compile(r'^\s*(int|double|char|static|const|unsigned|M\w+_ptr|List_ptr|Mesh_ptr|MType|RepType|MAttType|MPI_\w+|PType|float|long|struct|FILE)\b[^()=]*[;,]')
def mutants(f):
    t = open(f, errors='surrogateescape').read().split('\n')
    out = []
    for i in body_lines(t):
        l = t[i]
        code = l.split('//')[0]
        if DECL.match(code) or 'fprintf' in code or 'MSTK_Report' in code or 'sprintf' in code or 'MSTK_free' in code or 'free(' in code or '_Delete(' in code: continue
        if code.strip().startswith('"'): continue
        def add(n, k): out.append((i, n, k))
        s = code.strip()
        if s.endswith(';') and not s.startswith(('return', '}', 'break', 'for', 'else', 'case')) and s.count('(') == s.count(')'):
            prev = t[i-1].strip() if i else ''
            if not (prev and prev[-1] in '=,(+-*/&|<>?:'):
                add(re.sub(r'\S.*$', ';', l), 'del')
        if s in ('break;', 'continue;'): add(l.replace(s, ';'), 'del')
        m = re.match(r'^(\s*(?:else\s+|\}\s*else\s+)?if\s*\()(.*)(\)\s*\{?\s*[^()]*)$', code)
        if m and code.count('(') == code.count(')'):
            add(m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'neg')
            add(m.group(1) + '0&&(' + m.group(2) + ')' + m.group(3), 'false')
            add(m.group(1) + '1||(' + m.group(2) + ')' + m.group(3), 'true')
        for pat, reps in ((r'(?<![<>=!-])<(?![<=>])', ['<=']), (r'<=', ['<']), (r'(?<![<>=!-])>(?![>=])', ['>=']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
                          (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<![+\w])\+(?![+=])', ['-']), (r'(?<=[\w\])]) ?- ?(?=[\w(])', ['+']), (r'\+=', ['=']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b[2-9]\b', ['1']), (r'\+\+', ['--'])):
            for mm in re.finditer(pat, code):
                if code[:mm.start()].count('"') % 2: continue
                for rp in reps: add(code[:mm.start()] + rp + code[mm.end():], pat + '->' + rp)
        for a, b in (('GlobalID', 'ID'), ('PINTERIOR', 'POVERLAP'), ('POVERLAP', 'PGHOST'), ('PGHOST', 'POVERLAP'), ('MVERTEX', 'MEDGE'), ('MEDGE', 'MFACE'), ('MFACE', 'MREGION'), ('MREGION', 'MFACE'), ('DOUBLE', 'INT'), ('VECTOR', 'TENSOR'), ('TENSOR', 'VECTOR')):
            for mm in re.finditer(r'\b%s\b' % a if a.isupper() else a, code):
                add(code[:mm.start()] + b + code[mm.end():], a + '->' + b)
    return [(f, i, n, k) for i, n, k in out if n != t[i]]
allm = []
for f in FILES: allm += mutants(f)
rnd.shuffle(allm)
print(len(allm), 'possible')
allm = allm[:NM]
if os.environ.get('RECHECK'):   # survivors of an earlier run, for longer
    allm = []
    for l in open(os.environ['RECHECK']):
        d = json.loads(l)
        if d['res'] == 'alive':
            t = open(d['file'], errors='surrogateescape').read().split('\n')
            old = t[d['line'] - 1]
            allm.append((d['file'], d['line'] - 1, old[:len(old) - len(old.lstrip())] + d['new'], d['kind']))
lock = threading.Lock(); outf = open(OUT, 'a')
stat = {'killed': 0, 'alive': 0, 'nobuild': 0}
def link(d, obj, ro):
    objs = [os.path.join(BB, 'obj', x) for x in sorted(os.listdir(os.path.join(BB, 'obj'))) if x.endswith('.r.o')]
    objs = [ro if os.path.basename(x) == os.path.basename(ro) else x for x in objs]
    subprocess.run(['gcc', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,now', '-o', d + '/libmstksim.so'] + objs, check=True)
def one(w, m):
    f, i, n, k = m
    d = '%s/%d' % (SCR, w); os.makedirs(d, exist_ok=True)
    t = open(f, errors='surrogateescape').read().split('\n'); old = t[i]; t[i] = n
    ext = os.path.splitext(f)[1]
    src = d + '/' + os.path.basename(f)
    open(src, 'w', errors='surrogateescape').write('\n'.join(t))
    base = os.path.basename(os.path.dirname(f)) + '_' + os.path.basename(f)
    util = '/utils/' in f
    if util: base = 'util_' + os.path.splitext(os.path.basename(f))[0] + '_' + os.path.basename(f)
    o = d + '/' + base + '.o'; ro = d + '/' + base + '.r.o'
    cc = ['gcc', '-std=c99'] if ext == '.c' else ['g++']
    cmd = cc + ['-O1', '-g1', '-DNDEBUG', '-fPIC', '-w', '-I' + BB + '/include', '-I' + os.path.dirname(f), '-I' + B.OMPI, '-I/usr/include/trilinos'] + B.DEFS + ['-c', src, '-o', o]
    if util: cmd.insert(-4, '-Dmain=%s_main' % base[5:base.index('_', 5)])
    rec = {'file': f, 'line': i + 1, 'old': old.strip(), 'new': n.strip(), 'kind': k}
    if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        rec['res'] = 'nobuild'
    else:
        defs = subprocess.run(['nm', '--defined-only', o], stdout=subprocess.PIPE, text=True).stdout
        a = []
        for s in B.LIBC: a += ['--redefine-sym', '%s=sim_%s' % (s, s)]
        for h in B.HOOKS:
            if not re.search(r' [A-Z] %s$' % h, defs, re.M): a += ['--redefine-sym', '%s=simhook_%s' % (h, h)]
        subprocess.run(['objcopy'] + a + [o, ro], check=True)
        link(d, o, ro)
        env = dict(os.environ, LD_LIBRARY_PATH=d)
        rec['res'] = 'alive'
        for P in PROPS:
            try:
                r = subprocess.run([BB + '/mstksim', 'batch', '--prop', P, '--seed', '77', '--worker', '0', '--nworkers', '1', '--seconds', SECS, '--maxfail', '1'],
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=env, timeout=float(SECS) + 60)
                fl = [x for x in r.stdout.split('\n') if x.startswith('FAIL')]
                if fl:
                    v = [x for x in json.loads(fl[0][5:])['viols'] if x['counts']][0]
                    rec.update(res='killed', by=P, cls=v['cls'], text=v['text'][:100]); break
                if r.returncode: rec.update(res='killed', by=P, cls='rc%d' % r.returncode); break
            except subprocess.TimeoutExpired: rec.update(res='killed', by=P, cls='timeout'); break
    with lock:
        stat[rec['res']] += 1
        outf.write(json.dumps(rec) + '\n'); outf.flush()
    os.remove(src)
q = list(allm); 
def worker(w):
    while True:
        with lock:
            if not q: return
            m = q.pop()
        one(w, m)
ths = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[x.start() for x in ths]; [x.join() for x in ths]
print(stat)
shutil.rmtree(SCR, ignore_errors=True)
