"""The checks: which family decides which property, how many runs, evidence, replay and minimisation."""
import json, os, re, shutil, sys, time
import common, symsim, wasmsim, cachesim, objsim, downsim, searchsim, reqsim, metsim, jssim, jvmsim, proxysim

FAMILIES = {'symsorter': symsim, 'wasm-split': wasmsim, 'cache': cachesim, 'obj': objsim, 'down': downsim, 'search': searchsim, 'req': reqsim, 'met': metsim, 'js': jssim, 'jvm': jvmsim, 'proxy': proxysim}
QUICK, THOROUGH = 'quick', 'thorough'
# property -> (family, runs quick, runs thorough)
CHECKS = {
    'S01': ('symsorter', 3500, 100000), 'S02': ('symsorter', 2500, 60000), 'S03': ('symsorter', 3500, 100000),
    'S04': ('symsorter', 3000, 100000), 'S05': ('symsorter', 3500, 100000),
    'C01': ('cache', 15000, 1000000), 'C02': ('cache', 10000, 600000), 'C03': ('cache', 12000, 800000), 'C04': ('cache', 10000, 600000),
    'C05': ('cache', 8000, 500000), 'C06': ('cache', 8000, 500000),
    'X01': ('cache', 10000, 600000), 'X02': ('cache', 8000, 500000), 'X03': ('cache', 5000, 300000),
    'C07': ('obj', 6000, 400000),
    'O01': ('obj', 10000, 600000), 'O02': ('obj', 8000, 500000), 'O03': ('obj', 14000, 900000),
    'O04': ('proxy', 8000, 500000),
    'D01': ('down', 12000, 800000), 'D02': ('down', 15000, 900000), 'D03': ('down', 15000, 900000), 'D04': ('down', 12000, 800000), 'D05': ('down', 20000, 1000000),
    'D06': ('search', 40000, 2000000), 'D07': ('search', 25000, 1500000), 'D08': ('search', 20000, 1000000),
    'R01': ('req', 25000, 1500000), 'R02': ('req', 25000, 1500000), 'M01': ('met', 30000, 2000000),
    'N01': ('js', 12000, 800000),
    'N03': ('jvm', 12000, 800000),
    'W01': ('wasm-split', 12000, 400000), 'W02': ('wasm-split', 12000, 400000),
}

def build(family):
    if family in ('symsorter', 'wasm-split'): common.build_tools()
    else: common.build_svc([{'req': 'reqsim', 'met': 'metsim', 'js': 'jssim', 'jvm': 'jvmsim', 'proxy': 'proxysim'}.get(family, 'svcsim')])

def setup():
    common.build_tools()
    common.build_svc()
    return 0

def _job(job, worker):
    prop, fam, seed = job
    m = FAMILIES[fam]
    root = os.path.join(common.scratch_root(), 'vpsim-%07d-%03d' % (os.getppid() % 10000000, worker), 'w')
    os.makedirs(os.path.dirname(root), exist_ok=True)
    scn = m.make(prop, seed, root)
    r = m.execute(scn, root)
    if r['bad']:
        r['scn'] = scn
    else:
        r.pop('recs', None)
    return r

def _job_det(job, worker):
    root = os.path.join(common.scratch_root(), 'vpsim-det%04d-%03d' % (job[2] % 10000, os.getppid() % 1000), 'w')
    os.makedirs(os.path.dirname(root), exist_ok=True)
    try:
        m = FAMILIES[job[1]]
        return m.execute(m.make(job[0], job[2], root), root)
    finally: shutil.rmtree(os.path.dirname(root), ignore_errors=True)

def cleanup_scratch():
    base = os.path.join(common.scratch_root(), 'vpsim-%07d-' % (os.getpid() % 10000000))
    for i in range(common.NCPU + 8):
        shutil.rmtree(base + '%03d' % i, ignore_errors=True)

def known_match(prop, bad, known):
    """The recorded finding that explains every complaint of this run, if there is one."""
    hit = []
    for c, m in bad:
        f = [k for k in known if k['property'] == prop and k.get('category', c) == c and all(s in m for s in k.get('match', ['\0']))]
        if not f: return None
        hit.append(f[0])
    return hit

def check(prop):
    t0 = time.time()
    fam, nq, nt = CHECKS[prop]
    tier = common.TIER
    build(fam)
    tb = time.time() - t0
    n = nt if tier == THOROUGH else nq
    budget = 780 - tb if tier != THOROUGH else 6 * 3600
    base = common.base_seed() * 1000003
    known = common.load_known()
    t1 = time.time()
    tally = common.Tally(); found = []; knownhits = {}; trivial = 0
    def on_result(k, r):
        nonlocal trivial
        if r['discard']:
            tally.add(tally.c, 'discarded runs'); return False
        if r.get('trivial'): r['hashes'] = []
        tally.merge(r)
        if r['bad']:
            km = known_match(prop, r['bad'], [x for x in known if not x.get('fixed')])
            if km is not None:
                for f in km: knownhits[f['id']] = f
                return False
            found.append((k, r))
            return True
        return False
    try:
        common.run_pool(_job, [(prop, fam, base + i) for i in range(n)], budget, on_result)
        wall = time.time() - t1
        replay_path = None
        if found:
            k, r = found[0]
            replay_path = report(prop, fam, r)
    finally:
        cleanup_scratch()
    m = FAMILIES[fam]
    runs = tally.c.get('runs', 0)
    cov = dict(evaluations=runs, distinct_nontrivial=len(tally.hashes),
               rule=getattr(m, 'RULE', {}).get(prop) or m.RULE_TEXT,
               samples=tally.samples, runs_per_hour=int(runs / max(wall, .001) * 3600), seeds_per_hour=int(runs / max(wall, .001) * 3600),
               first_seed=base, simulated_seconds=round(tally.virtual / 1e9, 3), faults_fired=tally.faults, counts=tally.c, probes=tally.probes,
               distinct_measure='distinct hashes over the full sequence of scheduling decisions, intercepted operations and faults of a run',
               real_components=m.REAL, stubbed_components=m.STUB, build_seconds=round(tb, 1))
    common.write_evidence(prop, 'exploration', cov, m.ASSUME, time.time() - t0, len(found))
    for f in known:
        if f['property'] == prop and not f.get('fixed'):
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    print('%s: %d runs, %d distinct, %.1f simulated s, %.0f s' % (prop, runs, len(tally.hashes), tally.virtual / 1e9, time.time() - t0))
    if runs == 0:
        raise common.HarnessError('no run was completed')
    if found:
        for c, msg in found[0][1]['bad'][:5]: print('  %s: %s' % (c, msg))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    return 0

def report(prop, fam, r):
    """Minimises the failing scenario, verifies that it replays and writes the replay file."""
    m = FAMILIES[fam]
    scn = r['scn']; cat = r['bad'][0][0]
    scratch = 'vpsim-%07d-%03d' % (os.getpid() % 10000000, 0)
    root = os.path.join(common.scratch_root(), scratch, 'w')
    os.makedirs(os.path.dirname(root), exist_ok=True)
    end = time.time() + (60 if common.TIER != THOROUGH else 600)
    known = [x for x in common.load_known() if not x.get('fixed')]
    last = {}
    def fails(s):
        try: x = m.execute(s, root)
        except Exception: return False
        ok = not x['discard'] and any(c == cat for c, _ in x['bad']) and known_match(prop, x['bad'], known) is None
        if ok: last['r'] = x
        return ok
    best = scn
    if fails(best):
        best = minimise(m, best, fails, end)
        fails(best)
        r = last['r']
    os.makedirs(common.REPLAYS, exist_ok=True)
    path = os.path.join(common.REPLAYS, '%s-%d.json' % (prop, scn['seed']))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, family=fam, seed=scn['seed'], violations=r['bad'], hash=r['hash'], scratch=scratch, scenario=best, original=scn), f, indent=1)
    return path

def get(s, path):
    for p in path: s = s[p]
    return s

def minimise(m, scn, fails, end):
    clone = lambda s: json.loads(json.dumps(s))
    best = scn; changed = True
    while changed and time.time() < end:
        changed = False
        i = 0
        while time.time() < end:
            paths = m.shrink_steps(best)
            if i >= len(paths): break
            path = paths[i]; i += 1
            items = get(best, path)
            if not items: continue
            def test(sub):
                s = clone(best); x = get(s, path[:-1]); x[path[-1]] = clone(sub)
                try: return fails(s)
                except (KeyError, IndexError): return False
            out = common.ddmin(list(items), test, end)
            if len(out) < len(items):
                s = clone(best); get(s, path[:-1])[path[-1]] = clone(out)
                if fails(s): best = s; changed = True
        for s in m.simplify(best):
            if time.time() > end: break
            if fails(s):
                best = s; changed = True
                break
    # fix the schedule: only the decisions that differ from the default order are kept, then reduced
    if hasattr(m, 'execute') and time.time() < end:
        x = None
        try:
            root = os.path.join(common.scratch_root(), 'vpsim-%07d-%03d' % (os.getpid() % 10000000, 0), 'w')
            x = m.execute(best, root)
        except Exception: pass
        if x and x.get('recs'):
            s = clone(best)
            for l, rec in zip(s['lives'], x['recs']): l['decisions'] = rec
            if fails(s):
                best = s
                for i in range(len(best['lives'])):
                    def test(sub, i=i):
                        s = clone(best); s['lives'][i]['decisions'] = sub
                        return fails(s)
                    out = common.ddmin(best['lives'][i]['decisions'], test, end)
                    s = clone(best); s['lives'][i]['decisions'] = out
                    if fails(s): best = s
    return best

def replay(path):
    d = json.load(open(path))
    m = FAMILIES[d['family']]
    build(d['family'])
    # in a folder of the same name: the names of cache files are hashes over the paths of local sources
    top = os.path.join(common.scratch_root(), d.get('scratch') or 'vpsim-%07d-%03d' % (os.getpid() % 10000000, 0))
    if not re.fullmatch(r'vpsim-\d{7}-\d{3}', os.path.basename(top)): raise common.HarnessError('invalid scratch folder')
    shutil.rmtree(top, ignore_errors=True); os.mkdir(top)
    try: r = m.execute(d['scenario'], os.path.join(top, 'w'))
    finally: shutil.rmtree(top, ignore_errors=True)
    print('hash %s (recorded %s)' % (r['hash'], d['hash']))
    for c, msg in r['bad']: print('  %s: %s' % (c, msg))
    if r['bad']:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('no violation')
    return 0

def determinism(prop, first, count):
    """Runs seeds twice each in different worker processes and compares the traces."""
    fam = CHECKS[prop][0]
    build(fam)
    seen = {}; bad = []
    def on_result(k, r):
        h = (r['hash'], json.dumps(r['bad']))
        if jobs[k][2] in seen and seen[jobs[k][2]] != h: bad.append(jobs[k][2])
        seen[jobs[k][2]] = h
        return False
    jobs = [(prop, fam, first + i) for i in range(count)]
    for _ in range(2):          # the second time by other workers, in folders of the same names
        try: common.run_pool(_job_det, jobs, 3600, on_result)
        finally: cleanup_scratch()
        jobs = jobs[3:] + jobs[:3]
    print('%s: %d seeds twice, %d differ %s' % (prop, count, len(bad), bad[:10]))
    return 1 if bad else 0

HOOKS = dict(guard='--cfg symbolicator_dst', enable='RUSTFLAGS="--cfg=symbolicator_dst" (py/common.py); everything else is put below the sources (system calls) or beside them (dependency stand-ins)', source_commits=['a63f93b61b5f32a453275747656ac3dedfb07fd1'])
