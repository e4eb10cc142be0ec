"""The metrics aggregator (M01): threads that come and go record values while the aggregating thread sends them."""
import json, os, random
import common, simrun
from simrun import SEC

MS = 10**6
SIM = os.path.join(common.TARGET, 'debug', 'metsim')
NAMES = ['a', 'b.c', 'caches.file.hit', 'downloads_total']
SUFFIX = {'counter': 'c', 'gauge': 'g', 'timer': 'ms', 'raw': 'ms', 'histogram': 'h', 'set': 's'}

def gen(r):
    nt = r.choice([1, 2, 2, 3, 4, 6, 10]); threads = []; nid = 0
    kinds = r.choice([list(SUFFIX), ['counter'], ['counter', 'gauge'], ['timer', 'raw', 'histogram'], ['set'], ['counter', 'timer', 'set']])
    names = r.sample(range(len(NAMES)), r.choice([1, 1, 2, 4]))
    tagsets = r.sample([[], ['x'], ['y'], ['x', 'y'], ['y', 'x'], ['x', 'x'], ['x', 'y', 'z'], ['x', 'y', 'z', 'a long value/with.other_chars']], r.choice([1, 2, 4, 6]))
    pace = r.choice([[0], [0, 0, 1, 50], [0, 1000, 20000], [0, 125000, 124000, 1000], [0, 0, 0, 300000]])
    for k in range(nt):
        steps = []
        for _ in range(r.choice([1, 2, 5, 10, 30])):
            kind = r.choice(kinds)
            val = r.choice([0, 1, 1, 1, 2, 3, 7, 100, 12345, 2**32 + 1, r.randrange(2**40)])
            steps.append(dict(id=nid, us=r.choice(pace), kind=kind, name=r.choice(names), tags=r.choice(tagsets), val=val)); nid += 1
        t = dict(us=r.choice([0, 0, 1000, 60000, 124900, 125000]), steps=steps)
        if k and r.random() < .4: t['after'] = r.randrange(k)
        threads.append(t)
    life = dict(simrun.sched(r), workers=1, threads=threads, prefix=r.choice(['', 'sym', 'sym.', 'a.b']), tags=r.choice([{}, {}, {'host': 'h1'}, {'env': 'prod', 'host': 'h1'}]), settle=2000)
    life['alloc'] = r.choice([2, 5, 20, 100, 500])
    if life.get('stall'): life['stall'] = [life['stall'][0], min(life['stall'][1], 50 * MS)]
    return dict(lives=[life])

def judge(scn, x):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    l = scn['lives'][0]; steps = {s['id']: s for t in l['threads'] for s in t['steps']}
    pre = l['prefix'].rstrip('.'); pre = pre + '.' if pre else ''
    glob = ['%s:%s' % kv for kv in sorted(l['tags'].items())]
    def key(s):
        tags = glob + ['%s:%s' % kv for kv in zip(('k', 'other', 'third', 'fourth'), s['tags'])]
        return pre + NAMES[s['name']], SUFFIX[s['kind']], ','.join(tags)
    def fval(s): return s['val'] / 1000 if s['kind'] == 'timer' else float(s['val'])
    rec = {}; done = {}; sent = {}; when = {}; ended = False
    for e in x['ev']:
        if e['e'] == 'rec':
            s = steps[e['i']]; k = key(s); d = rec.setdefault(k, [])
            d.append(s); p('recorded: ' + s['kind'])
        elif e['e'] == 'done': when[e['i']] = e['t']
        elif e['e'] == 'end': ended = True
        elif e['e'] == 'line':
            line = e['l']
            try:
                head, _, tags = line.partition('|#'); name, _, rest = head.partition(':'); vals, _, ty = rest.rpartition('|')
                vals = [float(v) if ty in ('ms', 'h') else int(v) for v in vals.split(':')]
            except ValueError: bad.append(('M01', 'line', 'strange line %r' % line)); continue
            k = (name, ty, tags)
            if k not in rec: bad.append(('M01', 'line', 'line %r: nothing of that kind has been recorded' % line)); continue
            p('sent: ' + ty, len(vals))
            a = sent.setdefault(k, []); a += [(v, e['t']) for v in vals]
            if ty == 'c':
                if sum(v for v, _ in a) > sum(s['val'] for s in rec[k]): bad.append(('M01', 'counter', '%s: %d has been sent, %d recorded' % (k, sum(v for v, _ in a), sum(s['val'] for s in rec[k]))))
            elif ty == 'g' or ty == 's':
                for v in vals:
                    if v not in [s['val'] for s in rec[k]]: bad.append(('M01', 'gauge' if ty == 'g' else 'set', '%s: sent is %d, which was never recorded' % (k, v)))
            else:
                left = [fval(s) for s in rec[k]]
                for v, _ in a:
                    m = [y for y in left if abs(y - v) <= 1e-9 * max(1, abs(y))]
                    if not m: bad.append(('M01', 'distribution', '%s: %s is sent more often than recorded' % (k, v))); break
                    left.remove(m[0])
    if not ended: return bad, probes
    for k, d in rec.items():
        a = [v for v, _ in sent.get(k, [])]
        if k[1] == 'c':
            if sum(a) != sum(s['val'] for s in d): bad.append(('M01', 'counter', '%s: the sum sent is %d, recorded %d' % (k, sum(a), sum(s['val'] for s in d))))
        elif k[1] == 'g':
            last = max((when[s['id']] for s in d if s['id'] in when), default=None)
            if last is not None and not any(t >= last - MS for _, t in sent.get(k, [])): bad.append(('M01', 'gauge', '%s: not sent after it was set last' % (k,)))
        elif k[1] == 's':
            if set(a) != {s['val'] for s in d}: bad.append(('M01', 'set', '%s: sent are %s, recorded %s' % (k, sorted(set(a)), sorted({s['val'] for s in d}))))
        elif len(a) != len(d): bad.append(('M01', 'distribution', '%s: %d values are sent, %d recorded' % (k, len(a), len(d))))
    return bad, probes

def make(prop, seed, root):
    r = random.Random('%s/%d' % (prop, seed))
    return dict(gen(r), seed=seed, prop=prop)

def execute(scn, root):
    res = simrun.run_lives('met', scn, root, exe=SIM)
    bad, discard = simrun.general(res); probes = {}
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        js, probes = judge(scn, res[0])
        bad += [(c, m) for q, c, m in js]
    sample = dict(seed=scn['seed'], threads=len(scn['lives'][0]['threads']), values=sum(len(t['steps']) for t in scn['lives'][0]['threads']))
    return simrun.summary(scn, res, bad, discard, sample, not probes, probes)

def shrink_steps(scn): return [['lives', 0, 'threads']] + [['lives', 0, 'threads', i, 'steps'] for i in range(len(scn['lives'][0]['threads']))]
def simplify(scn):
    c = lambda: json.loads(json.dumps(scn)); l = scn['lives'][0]
    for k in ('stall', 'spurious'):
        if l.get(k): s = c(); del s['lives'][0][k]; yield s
    if l['tags']: s = c(); s['lives'][0]['tags'] = {}; yield s

RULE_TEXT = ('Each run generates threads (several at once, some after others so that their slots are used again) that record counters, gauges, timers, histograms and sets under shared names and tags around the 125 ms of the sending thread, with '
             'preemption at allocations; distinct when the hash of the whole trace (schedule, time) is new; trivial when nothing was recorded.')
REAL = ['symbolicator-service metrics: aggregators, sending thread, metric! macro', 'thread_local, std threads and locks']
STUB = ['cadence: the lines given to the sink are recorded instead of sent (loss of UDP packets is not claimed)', 'thread scheduling and clocks come from the simulator (LD_PRELOAD)']
ASSUME = ['threads are preempted at system calls, contended synchronisation and allocations only', 'the network does not lose the packets']
