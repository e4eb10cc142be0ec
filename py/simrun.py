"""Running lives of the service simulation (sim/svcsim) and reading their event logs."""
import json, os, shutil
import common, symsim

SVCSIM = os.path.join(common.TARGET, 'debug', 'svcsim')
SEC = 10**9
WALL0 = 1767225600 * SEC
MONO0 = 1000 * SEC

def sched(r, heavy=True):
    """Scheduling part of a life."""
    s = dict(seed=r.getrandbits(48), alloc=r.choice([0, 0, 0, 3000, 500]) if heavy else 0, faults=[])
    if r.random() < .3: s.update(policy='pct', pct=[r.randrange(1, 6), r.choice([300, 2000, 8000])])
    else: s.update(policy='uniform', p_switch=r.choice([.01, .05, .2, .5, .8]))
    if heavy and r.random() < .15: s['stall'] = [r.choice([.001, .01]), r.choice([10**6, 50 * 10**6, 2 * SEC])]
    if heavy and r.random() < .1: s['spurious'] = .05
    return s

def subst(x, root):
    if isinstance(x, str): return x.replace('@ROOT', root)
    if isinstance(x, list): return [subst(y, root) for y in x]
    if isinstance(x, dict): return {k: subst(v, root) for k, v in x.items()}
    return x

def run_lives(family, scn, root, extra_files=None, exe=None):
    """-> [dict(code, err, report, rec, ev)] one per life. A scenario's lives share the scratch directory."""
    ctl = root + '.d'
    shutil.rmtree(root, ignore_errors=True); shutil.rmtree(ctl, ignore_errors=True)
    os.makedirs(root); os.makedirs(ctl)
    if extra_files: extra_files(root)
    sf = os.path.join(ctl, 'scn.json')
    with open(sf, 'w') as f: json.dump(subst(scn, root), f)
    wall = scn.get('wall', WALL0)
    out = []
    for i, l in enumerate(scn['lives']):
        log = os.path.join(ctl, 'log%d' % i)
        wall += l.get('gap', 0)
        if l.get('wipe'): shutil.rmtree(os.path.join(root, 'cache'), ignore_errors=True)
        l2 = dict(l, wall=wall, threads=l.get('rayon', 2))
        extra = ''
        if l.get('spurious'): extra += 'spurious %g\n' % l['spurious']
        x = symsim.run_sim([exe or SVCSIM, family, sf, str(i), log], l2, root, extra, timeout=180)
        ev = []
        try:
            for line in open(log, errors='replace'):
                try: ev.append(json.loads(line))
                except ValueError: pass
        except FileNotFoundError: pass
        for k, e in enumerate(ev): e['L'] = i; e['q'] = (i, k)
        x['ev'] = ev; x['wall0'] = wall
        jump = sum(e['ns'] for e in ev if e['e'] == 'wall')
        wall += max(0, x['report'].get('virtual_ns', MONO0) - MONO0) + jump
        out.append(x)
        if x['code'] == 'timeout': break
    return out

def summary(scn, res, bad, discard, sample, trivial=False, probes=None):
    h = '-'.join(x['report'].get('hash', '?') for x in res)
    faults = {}; probes = dict(probes or {})
    for l, x in zip(scn['lives'], res):
        for f, g in zip(l['faults'], x['report'].get('faults', [])):
            k = '%s:%s' % (f[0], f[3] if f[3] != 'err' else 'errno%d' % f[4]); faults[k] = faults.get(k, 0) + g['fired']
        for k, n in (('stalled thread', x['report'].get('stalls', 0)), ('spurious wakeup', x['report'].get('spurious', 0))):
            if n: faults[k] = faults.get(k, 0) + n
        for e in x['ev']:
            if e['e'] == 'net' and e.get('act'): faults['network: disturbed response'] = faults.get('network: disturbed response', 0) + 1
            elif e['e'] == 'connect' and e.get('how') not in (None, 'ok'): faults['network: connect ' + e['how']] = faults.get('network: connect ' + e['how'], 0) + 1
            elif e['e'] == 'kill': faults['killed'] = faults.get('killed', 0) + 1
            elif e['e'] == 'wall': faults['wall clock jump'] = faults.get('wall clock jump', 0) + 1
            elif e['e'] == 'end' and e.get('evicted'): faults['memory cache eviction'] = faults.get('memory cache eviction', 0) + e['evicted']
        k = 'exit %s' % x['code']; probes[k] = probes.get(k, 0) + 1
    counts = dict(lives=len(res), events=sum(len(x['ev']) for x in res), discarded=int(discard))
    for k in ('steps', 'decisions', 'switches'): counts[k] = sum(x['report'].get(k, 0) for x in res)
    return dict(bad=bad, hash=h, hashes=[h], discard=discard, faults=faults, counts=counts, probes=probes,
                virtual_ns=sum(max(0, x['report'].get('virtual_ns', 0) - MONO0) for x in res), recs=[x['rec'] for x in res], trivial=trivial, sample=sample)

def general(res, expect_panic=('planned',)):
    """Complaints that hold for every family: unplanned panics, deadlocks, dead processes."""
    bad = []
    for i, x in enumerate(res):
        if x['code'] == 'timeout': return bad, True
        if x['code'] == 98: return bad, True
        if x['code'] == 99: bad.append(('deadlock', 'life %d: every thread is blocked for good' % i))
        elif x['code'] not in (0, 77, 3): bad.append(('died', 'life %d: the process died with code %s: %s' % (i, x['code'], x['err'][-300:])))
        for e in x['ev']:
            if e['e'] == 'panic' and not any(s in e['msg'] for s in expect_panic):
                bad.append(('panic', 'life %d: panic at %s: %s' % (i, e.get('at'), e['msg'][:200])))
            elif e['e'] == 'hang': bad.append(('hang', 'life %d: operation %s never got an answer' % (i, e['r'])))
    return bad, False
