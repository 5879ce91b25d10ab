#!/usr/bin/env python3
"""check.py --prop C01 [--tier quick|thorough] [--seconds N]   decide one property
   check.py --replay FILE                                      replay one violation
Builds the simulator from /repo's working tree, searches seeds on all cores, minimises what it
finds, writes evidence/<prop>.json. Exit 0: held; 1: VIOLATION; 2/3: the machinery failed."""
import os, sys, json, subprocess, threading, time, random, re, collections, hashlib, signal
V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get('SIM_BUILD', os.path.join(V, 'build'))
SIM = os.path.join(B, 'mstksim')
EV = os.environ.get('SIM_EVIDENCE', os.path.join(V, 'evidence'))
VARIANT = {'C21': 'mark', 'C22': 'mark', 'C23': 'thr'}     # builds of the library other than the default one
NW = max(2, min(8, os.cpu_count() or 4))
PROPS = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l); PROPS[d['id']] = d
NOSHRINK = {'dim', 'mseed', 'pseed', 'attseed', 'heapseed'}   # a smaller value is no simpler

def spec_text(sp):
    o = ['prop ' + sp['prop'], 'workload ' + sp['workload'], 'seed %d' % sp['seed'], 'mode ' + sp['mode']]
    o += ['param %s %d' % kv for kv in sorted(sp['params'].items())]
    o += ['dec %s %d' % kv for kv in sorted(sp['decisions'].items())]
    return '\n'.join(o) + '\nend\n'

def read_spec(path):
    sp = {'prop': '', 'workload': '', 'seed': 0, 'mode': 'search', 'params': {}, 'decisions': {}}
    for l in open(path):
        f = l.split()
        if not f or f[0].startswith('#'): continue
        if f[0] in ('prop', 'workload', 'mode'): sp[f[0]] = f[1]
        elif f[0] == 'seed': sp['seed'] = int(f[1])
        elif f[0] == 'param': sp['params'][f[1]] = int(f[2])
        elif f[0] == 'dec': sp['decisions'][f[1]] = int(f[2])
    return sp

class Server:
    """a simulator process that executes specs (each run is forked from it)"""
    def __init__(self):
        self.p = subprocess.Popen([SIM, 'serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.n = 0
    def run(self, sp):
        self.n += 1
        self.p.stdin.write(spec_text(sp)); self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())
    def close(self):
        self.p.stdin.close(); self.p.wait()

def counted(o):
    return [v for v in o['viols'] if v['counts']]

# ------------------------------------------------------------------ known findings
class Known:
    def __init__(self):
        self.items = []
        p = os.path.join(V, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known: '): self.items.append(json.loads(l[7:]))
    def match(self, prop, workload, params, v):
        for k in self.items:
            if prop not in k['properties']: continue
            if k['class'] != v['cls'] or (k.get('workload') and k['workload'] != workload): continue
            if not re.search(k['text'], v['text']): continue
            if all(params.get(a, 0) in b for a, b in k.get('params', {}).items()): return k
        return None
def unknown(known, prop, o):
    return [v for v in counted(o) if not known.match(prop, o['workload'], o['params'], v)]

# ------------------------------------------------------------------ minimise
def minimise(srv, known, sp, sig, budget):
    t0 = time.time()
    def bad(s):
        if time.time() - t0 > budget: return False
        o = srv.run(s)
        return any((v['prop'] or s['prop']) + '/' + v['cls'] == sig for v in unknown(known, s['prop'], o))
    def with_(s, **kw):
        r = dict(s); r.update(kw); return r
    def drop_decs(s):
        items = sorted(s['decisions'].items())
        if not items: return s
        if bad(with_(s, decisions={})): return with_(s, decisions={})
        n = 2
        while len(items) >= 2 and time.time() - t0 < budget:
            size = max(1, len(items) // n); red = False
            for i in range(0, len(items), size):
                rest = items[:i] + items[i + size:]
                if bad(with_(s, decisions=dict(rest))):
                    items = rest; n = max(n - 1, 2); red = True; break
            if not red:
                if n >= len(items): break
                n = min(len(items), 2 * n)
        if len(items) == 1 and bad(with_(s, decisions={})): items = []
        # smaller values
        for k, v in list(items):
            if v > 1:
                d = dict(items); d[k] = 1
                if bad(with_(s, decisions=d)): items = sorted(d.items())
        return with_(s, decisions=dict(items))
    def shrink_params(s):
        order = sorted(s['params'], key=lambda k: (k in ('n', 'nx', 'ny', 'nz', 'nops'), k))
        for k in order:
            if k in NOSHRINK: continue
            v = s['params'][k]
            for c in sorted({0, 1, v // 2, v - 1} - {v}):
                if c < 0 or c >= v: continue
                p = dict(s['params'])
                if c == 0: p.pop(k)
                else: p[k] = c
                if bad(with_(s, params=p)): s = with_(s, params=p); break
        return s
    s = drop_decs(sp)
    for _ in range(3):
        before = spec_text(s)
        s = shrink_params(s)
        s = drop_decs(s)
        if spec_text(s) == before: break
    return s

def report(known, prop, o, seconds):
    """a failing outcome -> minimised, verified replay file; None if it does not reproduce"""
    sp = {'prop': prop, 'workload': o['workload'], 'seed': o['seed'], 'mode': 'replay', 'params': o['params'], 'decisions': o['decisions']}
    v0 = unknown(known, prop, o)[0]
    sig = (v0['prop'] or prop) + '/' + v0['cls']
    has = lambda r: any((v['prop'] or prop) + '/' + v['cls'] == sig for v in unknown(known, prop, r))
    srv = Server()
    if not has(srv.run(sp)):
        sp = dict(sp, mode='search', decisions={})        # more decisions than were recorded
        if not has(srv.run(sp)): srv.close(); return None
    else:
        sp = minimise(srv, known, sp, sig, seconds)
    srv.close()
    # exact reproduction, twice, in fresh processes
    outs = []
    for _ in range(2):
        s2 = Server(); outs.append(s2.run(sp)); s2.close()
    exact = outs[0]['trace'] == outs[1]['trace'] and outs[0]['viols'] == outs[1]['viols']
    if not has(outs[0]) or not has(outs[1]): return None
    v = [x for x in unknown(known, prop, outs[0]) if (x['prop'] or prop) + '/' + x['cls'] == sig][0]
    d = os.path.join(EV, 'replays'); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.spec' % (prop, hashlib.sha1(spec_text(sp).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write('# property %s (%s)\n# %s: %s\n# ended: %s; last message of the library: %s\n# found with seed %d; replay with: python3 check.py --replay %s\n' % (prop, PROPS[prop]['title'], sig, v['text'], outs[0]['ended'], outs[0]['report'].strip().replace('\n', ' '), o['seed'], path))
        f.write(spec_text(sp))
    return {'path': path, 'sig': sig, 'text': v['text'], 'exact': exact, 'spec': sp}

# ------------------------------------------------------------------ search
def search(prop, seed, seconds, thorough, known, on_fail):
    procs, threads, done, samples, stop = [], [], [], [], threading.Event()
    ignored = collections.Counter()
    lock = threading.Lock()
    def reader(p):
        for l in p.stdout:
            k, _, rest = l.partition(' ')
            try: d = json.loads(rest)
            except ValueError: continue
            with lock:
                if k == 'SAMPLE': samples.append(d)
                elif k == 'DONE': done.append(d)
                elif k == 'FAIL':
                    if unknown(known, prop, d):
                        if not stop.is_set(): on_fail(d)
                        if on_fail.enough() and not stop.is_set():
                            stop.set()
                            for q in procs: q.send_signal(signal.SIGTERM)
                    else: ignored[d['sig']] += 1
    for w in range(NW):
        cmd = [SIM, 'batch', '--prop', prop, '--seed', str(seed), '--worker', str(w), '--nworkers', str(NW), '--seconds', str(seconds), '--maxfail', '1000000' if known.items else '3']
        if thorough: cmd.append('--thorough')
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True)
        procs.append(p)
    for p in procs:
        t = threading.Thread(target=reader, args=(p,)); t.start(); threads.append(t)
    t0 = time.time()
    while any(t.is_alive() for t in threads):
        time.sleep(0.1)
        if time.time() - t0 > seconds + 90:
            for q in procs: q.kill()
            break
    for t in threads: t.join(5)
    for p in procs: p.wait()
    return done, samples, ignored

class Fails:
    def __init__(self, n): self.l, self.n, self.t = [], n, None
    def __call__(self, d):
        self.l.append(d)
    def enough(self): return len(self.l) >= self.n

def addup(done, k):
    c = collections.Counter()
    for d in done:
        for a, b in d[k].items(): c[a] += b
    return c

REAL = ['MSTK C sources of /repo (libmstksim.so, all of src/{base,hilev,io,misc,util,mod,par})']
def components(cnt):
    real = list(REAL)
    if cnt.get('metis.real'): real.append('METIS (%d calls)' % cnt['metis.real'])
    if cnt.get('zoltan.used'): real.append('Zoltan (%d calls)' % cnt['zoltan.used'])
    if cnt.get('exodus.used'): real.append('Exodus II / netCDF / HDF5 (%d files)' % cnt['exodus.used'])
    stub = ['MPI (simulated, sim/simmpi.cc)', 'heap (sim/simheap.cc)', 'process scheduler and clock (sim/simcore.cc)']
    if cnt.get('fault.arbitrary_partition'): stub.append('METIS replaced by an arbitrary partition in %d runs' % cnt['fault.arbitrary_partition'])
    if any(k.startswith('io.') for k in cnt): stub.append('system calls on files pass through the simulated disk (sim/io.cc)')
    return real, stub

def main():
    a = sys.argv[1:]
    def opt(n, d=None): return a[a.index(n) + 1] if n in a else d
    t0 = time.time()
    global SIM
    prop = read_spec(opt('--replay'))['prop'] if '--replay' in a else opt('--prop', '')
    variant = VARIANT.get(prop, '')
    if variant: SIM = SIM + '_' + variant
    r = subprocess.run([sys.executable, os.path.join(V, 'build.py')] + ([variant] if prop else [''] + sorted(set(VARIANT.values()))), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout); print('cannot build the simulator'); return 2
    if '--build-only' in a: return 0
    known = Known()
    if '--replay' in a:
        sp = read_spec(opt('--replay')); prop = sp['prop']
        outs = []
        for _ in range(2):
            s = Server(); outs.append(s.run(sp)); s.close()
        for v in counted(outs[0]): print('%s/%s %s' % (v['prop'] or prop, v['cls'], v['text']))
        print('trace %s, second execution %s' % (outs[0]['trace'], 'identical' if outs[0]['trace'] == outs[1]['trace'] and outs[0]['viols'] == outs[1]['viols'] else 'DIFFERENT'))
        if counted(outs[0]):
            print('VIOLATION property=%s replay=%s' % (prop, opt('--replay'))); return 1
        print('no violation'); return 0
    prop = opt('--prop')
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    seconds = float(opt('--seconds', os.environ.get('SIM_SECONDS', '600' if tier == 'thorough' else '45')))
    viol = []
    corpus_runs = 0
    # 1. recorded executions: every defect found before, every boundary case worth repeating
    cdir = os.path.join(V, 'corpus')
    files = sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []
    known_lines = []
    srv = Server()
    for f in files:
        if not f.endswith('.spec'): continue
        sp = read_spec(os.path.join(cdir, f))
        if sp['prop'] != prop: continue
        o = srv.run(sp); corpus_runs += 1
        if unknown(known, prop, o): viol.append((o, sp))
    for k in known.items:
        if prop in k['properties']:
            sp = read_spec(os.path.join(V, k['spec'])); sp['prop'] = prop
            o = srv.run(sp); corpus_runs += 1
            if any(known.match(prop, o['workload'], o['params'], v) is k for v in counted(o)): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # 2. does a seed repeat itself? same seeds, another process
    det = 0; detbad = 0
    outs = []
    for rep in range(2):
        p = subprocess.run([SIM, 'batch', '--prop', prop, '--seed', str(seed + 7777), '--runs', '12', '--seconds', '20', '--hashes'], stdout=subprocess.PIPE, text=True)
        outs.append([l for l in p.stdout.splitlines() if l.startswith('HASH')])
    det = min(len(outs[0]), len(outs[1])); detbad = sum(1 for x, y in zip(*outs) if x != y)
    # 3. search
    fails = Fails(3)
    done, samples, ignored = [], [], collections.Counter()
    if not viol: done, samples, ignored = search(prop, seed, seconds, tier == 'thorough', known, fails)
    srv.close()
    code = 0; unrepro = 0; reported = []
    mbudget = 90 if tier == 'quick' else 240
    cands = [dict(o) for o, sp in viol] + sorted(fails.l, key=lambda d: len(d['decisions']))
    for o in cands:
        rep = report(known, prop, o, mbudget if not reported else 5)
        if rep is None: unrepro += 1; continue
        reported.append(rep)
        print('%s: %s' % (rep['sig'], rep['text']))
        print('VIOLATION property=%s replay=%s' % (prop, rep['path']))
        code = 1
        break
    if not reported and cands:
        print('%d failing runs did not fail again when replayed' % len(cands))
        code = 3
    cnt = addup(done, 'counts'); ended = addup(done, 'ended'); wl = addup(done, 'workloads')
    runs = sum(d['runs'] for d in done); simns = sum(d['sim_ns'] for d in done); wall = max([d['wall'] for d in done] + [0.001])
    probes = set()
    for d in done: probes |= set(d['probes'])
    real, stub = components(cnt)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': runs + corpus_runs + 2 * det,
              'distinct_nontrivial': sum(d['distinct'] for d in done),
              'rule': 'A case is one simulated execution: mesh, partition, operations, schedule and faults all drawn from one seed (workloads: %s). Non-trivial: it was not skipped as outside the preconditions; distinct: its event trace and final state hash differ from all earlier ones of the same worker (seeds are disjoint between workers).' % ', '.join('%s %d' % x for x in sorted(wl.items())),
              'samples': [{k: s[k] for k in ('seed', 'workload', 'params', 'ended', 'trace', 'result', 'sim_ns', 'steps', 'counts')} for s in samples[:4]] or [{'spec': r['spec']} for r in reported],
              'runs_per_hour': int(runs / wall * 3600), 'seeds_per_hour': int(runs / wall * 3600),
              'simulated_seconds': simns / 1e9, 'scheduler_steps': sum(d['steps'] for d in done),
              'distinct_final_states': sum(d['results'] for d in done),
              'distinct_situations': len(probes), 'situations_sample': sorted(probes)[:12],
              'situation_measure': 'tuples of workload kind, mesh dimension and cell type, process count, partitioner, ghost layers, sharing degree, fault class reached (probe() in sim/)',
              'faults_injected': {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith('fault.')},
              'operations': {k: v for k, v in sorted(cnt.items()) if not k.startswith('fault.')},
              'run_endings': dict(ended), 'recorded_executions_replayed': corpus_runs,
              'determinism': {'seeds_run_twice_in_separate_processes': det, 'different': detbad},
              'failing_runs_not_reproduced': unrepro, 'known_finding_runs': dict(ignored),
              'real_components': real, 'simulated_components': stub,
              'workers': NW, 'search_seconds': round(wall, 1)},
          'assumptions': ['seeded sampling of schedules, faults and inputs, not exhaustive', 'the simulated MPI follows the MPI standard (sim/simmpi.cc)', 'meshes of at most a few hundred cells, up to 8 processes'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(reported)}
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    if code == 0 and runs == 0: print('no run was made'); return 3
    print('%s %s: %d runs (%d distinct), %.1f simulated s, %d faults, %d situations, %.0f s' % (prop, 'held' if code == 0 else 'VIOLATED' if code == 1 else 'unclear', runs, ev['coverage']['distinct_nontrivial'], simns / 1e9, sum(v for k, v in cnt.items() if k.startswith('fault.')), len(probes), time.time() - t0))
    return code

if __name__ == '__main__':
    sys.exit(main())
