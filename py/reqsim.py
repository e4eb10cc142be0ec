"""The request service (R01, R02): creation, limit, polling and expiry of requests whose work ends in every way."""
import json, os, random
import common, simrun
from simrun import SEC

MS = 10**6
SIM = os.path.join(common.TARGET, 'debug', 'reqsim')
LIMIT = 900

def gen(r, prop):
    busy = prop == 'R02'
    mx = r.choice([None, 1, 2, 3, 5] if not busy else [0, 1, 1, 2, 2, 3, 4, 8, None])
    ops = []; t = 0; n = r.choice([1, 2, 3, 4, 6] if not busy else [2, 4, 6, 10, 16, 24]); nid = [0]
    def add(**o):
        o['id'] = nid[0]; nid[0] += 1; ops.append(o); return o['id']
    for k in range(n):
        if not (ops and r.random() < (.6 if busy else .3)): t += r.choice([0, 1, 2, 10, 100, 1000, 5000, 90000] if busy else [0, 1, 10, 1000, 30000])
        end = r.choice(['ok', 'ok', 'ok', 'ok', 'err', 'panic', 'panic', 'hang'])
        total = r.choice([0, 0, 0, 1, 2, 5, 50, 1000, 1000, 30000, 300000] + ([899000, 899990, 899999, 900001, 901000, 2000000] if r.random() < .3 else []))
        steps = []; left = total
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.choice([0, left, left // 2]); steps.append(x); left -= x
        if left: steps.append(left)
        kind = r.choice(['native', 'native', 'minidump', 'js', 'jvm', 'apple'])
        if kind in ('js', 'jvm') and end == 'err': end = 'ok'
        block = r.choice([0, 0, 0, 0, 1, 5, 30]) if total < 1000 else 0
        c = add(at=t, op='create', kind=kind, work=dict(steps=steps, block=block, end=end, cands=r.choice([0, 2])), cands=r.random() < .3)
        ops[c]['work']['id'] = c
        dur = min(total, 900000) if end != 'hang' else 900000
        for _ in range(r.choice([0, 1, 2, 4] if not busy else [0, 0, 0, 1])):
            p = r.choice([0, 0, 1, 2, dur // 2, max(0, dur - 1), dur, dur, dur + 1, dur + 2, dur + 50, dur + 30000, dur + 59000, dur + 89000, dur + 100000, dur + 400000])
            o = dict(at=t + p, op='poll', req=c, timeout=r.choice([None, None, 0, 0, 1, 5, 25, 900, 2000]))
            if r.random() < .1: o['abandon'] = r.choice([0, 1, 500, 60000])
            for _ in range(r.choice([1, 1, 1, 2, 5])): add(**o)
    for _ in range(r.choice([0, 0, 1])): add(at=r.randrange(t + 1000), op='poll', req=None, timeout=r.choice([None, 0, 5]))
    if busy:
        # a burst when everything must have ended
        tail = max(o['at'] + min(sum(o['work']['steps']), 900000) * (o['work']['end'] != 'hang') + 900000 * (o['work']['end'] == 'hang') for o in ops if o['op'] == 'create')
        tail += r.choice([500, 5000, 100000])
        for _ in range(r.choice([1, 2, (mx or 3), (mx or 3) + 1, (mx or 3) * 2])):
            c = add(at=tail + r.choice([0, 0, 0, 1]), op='create', kind='native', work=dict(steps=[r.choice([0, 1000, 20000])], block=0, end='ok', cands=0), cands=False)
            ops[c]['work']['id'] = c
    life = dict(simrun.sched(r), workers=1, web=r.choice([1, 2, 3, 4]), cpu=r.choice([1, 2, 3]), rt=r.random() < .7, max=mx, ops=ops, settle=r.choice([10, 1000]))
    if r.random() < .3: life['alloc'] = r.choice([1, 2, 5, 20])  # switches between a check and what follows it
    if life.get('stall'): life['stall'][1] = min(life['stall'][1], 50 * MS)
    return dict(lives=[life])

def judge(scn, x):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    l = scn['lives'][0]; ev = x['ev']; ops = {o['id']: o for o in l['ops']}; mx = l['max']
    eps = (50 + sum(o['work']['block'] for o in l['ops'] if o['op'] == 'create')) * MS + (l['stall'][1] * x['report'].get('stalls', 0) if l.get('stall') else 0)
    C = {}; W = {}; P = {}
    run = set(); waiting = {}
    for i, e in enumerate(ev):
        k = e.get('r')
        if e['e'] == 'create': C[k] = dict(i0=i, t0=e['t'])
        elif e['e'] == 'created':
            C[k].update(i1=i, t1=e['t'], ok=e['ok'])
            if e['t'] - C[k]['t0'] > eps: bad.append(('R02', 'slow', 'request %d: accepting or rejecting it takes %.3f s' % (k, (e['t'] - C[k]['t0']) / SEC)))
            if e['ok']:
                p('accepted')
                if k not in W: run.add(k)
                if mx is not None and len(run) > mx: bad.append(('R02', 'limit', 'request %d: %d requests are in progress with a limit of %d: %s' % (k, len(run), mx, sorted(run))))
            else: p('rejected')
        elif e['e'] == 'work': W[k] = dict(i=i, t=e['t'], end=e['end']); run.discard(k); p('work ' + e['end'])
        elif e['e'] == 'poll': P[k] = dict(i0=i, t0=e['t'], known=e['known'])
        elif e['e'] == 'answer':
            if e.get('panic') is not None: bad.append(('R01', 'panic', 'poll %d: panicked' % k)); continue
            P[k].update(i1=i, t1=e['t'], v=e.get('v'), aband=e.get('aband'))
    last = ev[-1]['t'] if ev else 0
    # ---- rejections
    for k, c in C.items():
        if 'ok' not in c or c['ok']: continue
        if mx is None: bad.append(('R02', 'rejected', 'request %d: rejected although there is no limit' % k)); continue
        may = [q for q, d in C.items() if q != k and d['i0'] < c['i1'] and d.get('ok', True) and not (q in W and W[q]['t'] + eps < c['t0'])]
        if len(may) < mx: bad.append(('R02', 'rejected', 'request %d: rejected with a limit of %d although only %d can be in progress (%s)' % (k, mx, len(may), may)))
    # ---- the end of the work
    for k, c in C.items():
        if not c.get('ok'): continue
        w = ops[k]['work']; total = sum(w['steps']) / 1000; end = W.get(k)
        if end is None:
            if last > c['t1'] + LIMIT * SEC + eps: bad.append(('R01', 'no-end', 'request %d: its work goes on after %.1f s' % (k, (last - c['t1']) / SEC)))
            continue
        took = (end['t'] - c['t0']) / SEC
        if end['end'] == 'dropped':
            if took < LIMIT - .001: bad.append(('R01', 'cut-off', 'request %d: its work is ended after %.3f s' % (k, took)))
        elif took > LIMIT + eps / SEC: bad.append(('R01', 'too-long', 'request %d: its work goes on for %.3f s' % (k, took)))
    # ---- polls
    final = {}
    for k, a in P.items():
        q = ops[k]['req']; to = ops[k]['timeout']; tag = 'poll %d of request %s' % (k, q)
        if a.get('aband') or 'v' not in a: continue
        v = a['v']; kind = v['k']; dur = a['t1'] - a['t0']; p('poll: ' + kind)
        if not a['known']:
            if kind != 'unknown': bad.append(('R01', 'unknown', '%s: an unknown request is reported as %s' % (tag, v)))
            continue
        end = W.get(q); w = ops[q]['work']; t = (a['t0'] - C[q]['t0']) / SEC
        if to is not None and dur > to * SEC + eps: bad.append(('R01', 'late', '%s: answered after %.3f s with a time limit of %d s' % (tag, dur / SEC, to)))
        if kind == 'pending':
            if not v['same']: bad.append(('R01', 'identifier', '%s: refers to another request' % tag))
            if to is None: bad.append(('R01', 'pending', '%s: reported as pending without a time limit' % tag))
            elif dur < to * SEC - MS: bad.append(('R01', 'pending', '%s: reported as pending after %.3f s with a time limit of %d s' % (tag, dur / SEC, to)))
            if end and end['t'] + eps < a['t1']: bad.append(('R01', 'pending', '%s: reported as pending %.3f s after its work ended (%s)' % (tag, (a['t1'] - end['t']) / SEC, end['end'])))
            continue
        if end is None or end['i'] > a['i1']: bad.append(('R01', 'early', '%s: reported as %s although its work goes on' % (tag, v))); continue
        after = (a['t0'] - end['t']) / SEC
        if a['t1'] > max(a['t0'], end['t']) + eps: bad.append(('R01', 'late', '%s: answered %.3f s after its work ended' % (tag, (a['t1'] - max(a['t0'], end['t'])) / SEC)))
        if kind == 'unknown':
            if end['end'] == 'panic' and a['t0'] > end['t'] - eps: p('forgotten after a panic'); continue
            if after < 60: bad.append(('R01', 'forgotten', '%s: not known any more %.3f s after its work ended (%s)' % (tag, after, end['end'])))
            continue
        if after > 300: bad.append(('R01', 'kept', '%s: still known %.1f s after its work ended' % (tag, after)))
        if end['end'] == 'ok':
            if w['end'] not in ('ok', 'err'): want = None
            elif ops[q]['kind'] == 'js': want = dict(k='completed', v=dict(value=q, js=True))
            elif ops[q]['kind'] == 'jvm': want = dict(k='completed', v=dict(value=q, jvm=True))
            else: want = dict(k='completed', v=dict(value=q, modules=[dict(candidates=[m * 100 + c for c in range(w['cands'])]) if w['cands'] and ops[q]['cands'] else {} for m in range(3)]))
        elif end['end'] == 'err': want = dict(k='failed', m='planned failure of request %d' % q)
        elif end['end'] == 'panic': want = dict(k='internal')
        else: want = dict(k='timeout')
        if v != want: bad.append(('R01', 'response', '%s: answered with %s; its work ended with %s, expected is %s' % (tag, json.dumps(v), end['end'], json.dumps(want))))
        if final.setdefault(q, v) != v: bad.append(('R01', 'changed', '%s: answered with %s, before with %s' % (tag, json.dumps(v), json.dumps(final[q]))))
    return bad, probes

def make(prop, seed, root):
    r = random.Random('%s/%d' % (prop, seed))
    return dict(gen(r, prop), seed=seed, prop=prop)

def execute(scn, root):
    res = simrun.run_lives('req', scn, root, exe=SIM)
    bad, discard = simrun.general(res); probes = {}
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        js, probes = judge(scn, res[0])
        bad += [(c, m) for q, c, m in js if q == scn['prop']]
    sample = dict(seed=scn['seed'], ops=len(scn['lives'][0]['ops']), limit=scn['lives'][0]['max'])
    return simrun.summary(scn, res, bad, discard, sample, not probes, probes)

def shrink_steps(scn): return [['lives', 0, 'ops']]
def simplify(scn):
    c = lambda: json.loads(json.dumps(scn)); l = scn['lives'][0]
    for k in ('stall', 'spurious'):
        if l.get(k): s = c(); del s['lives'][0][k]; yield s
    for k, v in (('alloc', 0), ('web', 1), ('cpu', 1)):
        if l.get(k, v) != v: s = c(); s['lives'][0][k] = v; yield s

RULE_TEXT = ('Each run generates a limit, the numbers of web and worker threads, requests of every kind whose work completes, fails, panics or hangs after any time, and concurrent polls before, at and after the end of the work; distinct when the '
             'hash of the whole trace (schedule, time) is new; trivial when no request was made.')
REAL = ['crates/symbolicator/src/service.rs (requests, polling, limit, time limit)', 'symbolicator-service: services, futures utilities', 'tokio (multi-thread runtimes, time, sync), futures']
STUB = ['the work of a request (native, JavaScript and JVM symbolication) is described by the scenario', 'thread scheduling, clocks, randomness come from the simulator (LD_PRELOAD)', 'sentry, tokio-metrics: no-ops']
ASSUME = ['threads are preempted at system calls, synchronisation and allocations only', 'request identifiers do not collide']
