"""Simulation of the caching layers: C01-C06 and X01-X03."""
import json, os, random
import common, simrun
from simrun import SEC

MS = 10**6
DOWN, DERIVED, INDEX = 'downloaded', 'derived', 'index'
CATEGORY = {'objects': DOWN, 'auxdifs': DOWN, 'symcaches': DERIVED, 'object_meta': DERIVED, 'cficaches': DERIVED, 'source_index': INDEX, 'sourcefiles': DOWN}
VERS = {1: (1, []), 2: (2, [1]), 3: (3, [2]), 4: (4, [3, 2])}
KINDS = ['NotFound', 'PermissionDenied', 'Timeout', 'DownloadError', 'Malformed', 'Unsupported']

def dur(x): return None if x is None else '%dms' % x

def category(r, misses, public, malformed, unused, lazy=None):
    d = dict(max_unused_for=dur(unused), retry_misses_after=dur(misses), retry_misses_after_public=dur(public), retry_malformed_after=dur(malformed))
    return d, lazy

def config(r, ret, lazy=(50, 20), cache_dir=True, shared=None):
    """ret: category -> (misses, public, malformed, unused) in ms"""
    c = {}
    for k, v in ret.items():
        d, _ = category(r, *v)
        d['max_lazy_redownloads' if k == DOWN else 'max_lazy_recomputations'] = lazy[0] if k == DOWN else lazy[1]
        c[k] = d
    o = dict(caches=c)
    if cache_dir: o['cache_dir'] = '@ROOT/cache'
    if shared: o['shared_cache'] = shared
    return o

WORDS = ['server said no', 'status code: 500 Internal Server Error', 'zeile eins\nzeile zwei', 'größe ✓', '', 'x' * 300, 'malformed', 'timeout', 'unsupported: ', ' leading', 'trailing\n']
def error(r, kinds=KINDS):
    k = r.choice(kinds)
    if k == 'Timeout': return [k, str(r.choice([1, 999, 1000, 15000, 315000, 86400123, r.randrange(1, 10**7)]))]
    return [k, '' if k == 'NotFound' else r.choice(WORDS)]

def plan(r, out='ok', slow=300):
    return dict(d=r.choice([0, 0, 1, r.randrange(slow), slow]), gap=r.choice([0, 0, 1, 20]), writes=r.choice([1, 2, 5]), size=r.choice([0, 1, 30, 500, 5000, 70000]),
                how=r.choice(['std', 'tokio', 'swap']), out=out, junk=r.choice([0, 0, 10, 3000]) if out != 'ok' else 0)

def item(r, i, caches, scopes=(None, '42', '7')):
    return dict(cache=r.choice(caches), id=i, scope=r.choice(scopes), key=r.choice(['source: a\nlocation: f%d\n', 'x%d', 'version: 3\nfile: %d.pdb\n']) % i)

def times(r, n, span, clump=.5):
    """n points in time, some at the very same moment."""
    out = []
    for _ in range(n):
        if out and r.random() < clump: out.append(max(0, r.choice(out) + r.choice([0, 0, 0, 1, 5])))
        else: out.append(r.randrange(span + 1))
    return sorted(out)

def life(r, ops, plans, **kw):
    l = dict(simrun.sched(r), workers=r.choice([1, 2, 2, 3]), ops=ops, plans=plans, settle=1000, rayon=r.choice([1, 2, 3]))
    l.update(kw)
    for k, o in enumerate(l['ops']): o['id'] = k
    return l

def disk_faults(r, n, where=('',), ops=None):
    """Faults of single file operations."""
    out = []
    for _ in range(n):
        op = r.choice(ops or ['open', 'create', 'read', 'write', 'write', 'rename', 'unlink', 'mkdir', 'truncate', 'stat', 'mut', 'any'])
        kind, arg = r.choice([('err', 5), ('err', 28), ('err', 5), ('err', 13), ('err', 24), ('delay', r.choice([1, 100, 5000]) * MS)] + ([('short', r.choice([0, 1, 7, 100]))] if op in ('read', 'write') else []))
        out.append([op, r.choice([1, 1, 2, 3, r.randrange(1, 40), r.randrange(1, 200)]), r.choice([1, 1, 1, 2, 10, 100000]), kind, arg, r.choice(where)])
    return out

def crash(r, est):
    op = r.choice(['mut', 'mut', 'mut', 'rename', 'write', 'create', 'unlink', 'mkdir', 'any'])
    kind = r.choice(['crash', 'crash_after'] + (['torn'] if op == 'write' else []))
    return [op, r.randrange(1, max(2, est)) if op in ('mut', 'any', 'write') else r.randrange(1, 12), 1, kind, r.choice([0, 1, 5, 100]), r.choice(['', '', '', '/tmp/', 'metadata'])]

# ---------------------------------------------------------------- scenarios
def gen(prop, seed):
    r = random.Random('%s/%d' % (prop, seed))
    return dict(globals()['gen_' + prop](r), seed=seed, prop=prop)

ALLC = ['objects', 'symcaches', 'object_meta', 'auxdifs', 'source_index', 'cficaches']

def basic_ret(r, misses=None):
    m = misses or r.choice([5000, 20000, 60000])
    return {c: (m, m if r.random() < .5 else r.choice([m * 2, m * 3]), r.choice([m, 3 * m]), 24 * 3600000) for c in (DOWN, DERIVED, INDEX)}

def gen_C01(r):
    n = r.choice([1, 1, 2, 3])
    items = [item(r, i, ALLC) for i in range(n)]
    lives = []
    up = r.random() < .2
    for L in range(r.choice([1, 1, 2])):
        span = r.choice([50, 500, 3000])
        k = r.randrange(3, 25)
        ops = []
        for t in times(r, k, span):
            o = dict(at=t, op='get', item=r.randrange(n))
            if r.random() < .3: o['abandon'] = r.choice([0, 1, 10, r.randrange(1, 600)])
            ops.append(o)
        plans = {}
        for i in range(n):
            ps = []
            for _ in range(r.choice([1, 2, 4])):
                x = r.random()
                ps.append(plan(r, 'ok' if x < .5 else 'panic' if x < .7 else error(r, KINDS + ['InternalError'])))
            plans[str(i)] = ps
        kw = dict(chaos=r.choice([0, 0, 0, 300]), sw=(1 + L) if up else 1)
        lives.append(life(r, ops, plans, **kw))
    return dict(config=config(r, basic_ret(r), cache_dir=r.random() < .8), items=items, lives=lives)

def gen_C02(r):
    n = r.choice([1, 2, 3, 4])
    items = [item(r, i, ['objects', 'symcaches', 'object_meta']) for i in range(n)]
    if r.random() < .5:  # one key in several caches
        for it in items[1:]: it['key'] = items[0]['key']; it['scope'] = items[0]['scope']
        for i, it in enumerate(items): it['cache'] = ALLC[i]
    lives = []; sw = 1
    for L in range(r.choice([1, 2, 3, 4])):
        if r.random() < .25: sw = r.randrange(1, 5)
        span = r.choice([300, 3000, 20000])
        ops = [dict(at=t, op='get', item=r.randrange(n)) for t in times(r, r.randrange(2, 16), span)]
        for o in ops:
            if r.random() < .1: o['abandon'] = r.randrange(1, 300)
        for _ in range(r.choice([0, 0, 1, 2])): ops.append(dict(at=r.randrange(span), op='cleanup', dry=r.random() < .2))
        if r.random() < .1: ops.append(dict(at=r.randrange(span), op='wall', ns=r.choice([-1, 1]) * r.choice([10, 3600, 86400]) * SEC))
        plans = {str(i): [plan(r, 'ok' if r.random() < .6 else error(r, KINDS + ['InternalError'])) for _ in range(r.choice([1, 2, 3, 6]))] for i in range(n)}
        l = life(r, ops, plans, sw=sw, hold=r.random() < .5, chaos=r.choice([0, 0, 300, 900]), gap=r.choice([0, 1, 10, 3600, 100000]) * SEC)
        x = r.random()
        if x < .35: l['faults'].append(crash(r, 14 * len(ops)))
        elif x < .5: l['kill'] = r.randrange(span)
        if r.random() < .35: l['faults'] += disk_faults(r, r.choice([1, 1, 2, 3]), where=('', '', '/tmp/', '/objects/', 'metadata'))
        lives.append(l)
    return dict(config=config(r, basic_ret(r, r.choice([1000, 5000, 20000]))), items=items, lives=lives)

def gen_C03(r):
    ret = {}
    for c in (DOWN, DERIVED, INDEX):
        m = r.choice([4000, 10000, 60000, 3600000])
        ret[c] = (m, r.choice([m, 2 * m, 5 * m, max(3000, m // 3)]), r.choice([m, 3 * m, max(3000, m // 2)]), r.choice([24 * 3600000, None]))
        if r.random() < .1: ret[c] = tuple(None if r.random() < .5 else x for x in ret[c])
    n = r.choice([1, 2, 3])
    items = [item(r, i, ALLC) for i in range(n)]
    lives = []
    cache_dir = r.random() < .85
    for L in range(r.choice([1, 2, 3])):
        ops = []
        for i in range(n):
            m = ret[CATEGORY[items[i]['cache']]]
            t = r.randrange(0, 2000)
            for _ in range(r.randrange(2, 10)):
                ops.append(dict(at=t, op='get', item=i))
                t += r.choice([0, 5, r.randrange(1, 3000), (r.choice(m[:3]) or 10**7) + r.choice([-1800, 2200, 5000]), r.randrange(1, 2 * (m[0] or 10**6))])
                t = max(t, 0)
        plans = {str(i): [plan(r, 'ok' if r.random() < .15 else error(r, KINDS + ['Malformed', 'NotFound'] + (['InternalError'] if r.random() < .3 else []))) for _ in range(r.choice([2, 4, 8]))] for i in range(n)}
        l = life(r, ops, plans, chaos=r.choice([0, 0, 200, 900]), gap=r.choice([0, 1, 3, 30, 600, 4000]) * SEC)
        l.pop('stall', None)
        if r.random() < .25: l['kill'] = r.randrange(1, 60000)
        elif r.random() < .15: l['faults'].append(crash(r, 14 * len(ops)))
        elif r.random() < .2: l['faults'] += [f for f in disk_faults(r, r.choice([1, 2]), where=('', '/tmp/', 'metadata', '/objects/', '/symcaches/'), ops=['create', 'write', 'write', 'rename', 'rename', 'mkdir', 'truncate', 'mut']) if f[3] != 'delay']
        if not cache_dir: l['chaos'] = 0
        lives.append(l)
    return dict(config=config(r, ret, cache_dir=cache_dir), items=items, lives=lives)

HOUR = 3600000
def gen_C04(r):
    ret = {}
    for c in (DOWN, DERIVED, INDEX):
        m = r.choice([20000, 600000, HOUR])
        ret[c] = (m, r.choice([m, 3 * m]), r.choice([m, 2 * m]), r.choice([2 * HOUR, 5 * HOUR, 24 * HOUR]))
    n = r.choice([2, 3, 5])
    items = [item(r, i, ALLC) for i in range(n)]
    lives = []
    for L in range(r.choice([1, 1, 2])):
        ops = []
        span = r.choice([60000, 3 * HOUR, 12 * HOUR, 40 * HOUR])
        for t in times(r, r.randrange(4, 20), span, .3): ops.append(dict(at=t, op='get', item=r.randrange(n)))
        for t in times(r, r.choice([1, 2, 3, 5]), span, .1):
            if r.random() < .6: t = max(0, r.choice([o['at'] for o in ops]) + r.choice([-3, -1, 0, 0, 1, 2, 5, 50, 300]))
            ops.append(dict(at=t, op='cleanup', dry=r.random() < .25))
        plans = {str(i): [plan(r, 'ok' if r.random() < .75 else error(r)) for _ in range(r.choice([1, 2, 4]))] for i in range(n)}
        lives.append(life(r, ops, plans, hold=r.random() < .3, chaos=r.choice([0, 0, 200, 900]), gap=r.choice([0, 1, 600, 7200, 80000]) * SEC))
        lives[-1].pop('stall', None)
        if r.random() < .25: lives[-1]['faults'] += [f for f in disk_faults(r, r.choice([1, 2, 3]), where=('', '', '/objects/', '/symcaches/', '/v1/')) if f[3] != 'delay']
    return dict(config=config(r, ret), items=items, lives=lives)

def gen_C05(r):
    n = r.choice([1, 2, 4, 7])
    caches = r.choice([['objects'], ['symcaches'], ['objects', 'symcaches'], ['objects', 'auxdifs'], ['symcaches', 'object_meta', 'cficaches']])
    items = [item(r, i, caches) for i in range(n)]
    sws = r.choice([[1, 2], [1, 2], [2, 3], [2, 4], [1, 3], [1, 2, 3], [2, 3, 4], [3, 4], [2, 1], [3, 2], [4, 3], [1, 2, 1], [1, 2, 3, 4], [2, 3, 2], [1, 4]])
    lazy = (r.choice([-3, 0, 1, 1, 2, 3, 50]), r.choice([-1, 0, 1, 1, 2, 3, 20]))
    lives = []
    for L, sw in enumerate(sws):
        ops = []; plans = {}
        if L == 0:
            for i in range(n):
                if r.random() < .85: ops.append(dict(at=r.randrange(500), op='get', item=i))
        else:
            for t in times(r, r.randrange(2, 20), r.choice([100, 3000, 30000]), .5):
                o = dict(at=t, op='get', item=r.randrange(n))
                if r.random() < .15: o['abandon'] = r.choice([0, 1, 5, 100])
                ops.append(o)
        for i in range(n):
            ps = []
            for _ in range(r.choice([1, 2, 3])):
                x = r.random()
                p = plan(r, 'ok' if L == 0 and x < .85 or x < .7 else 'panic' if x > .9 else error(r, KINDS + (['InternalError'] if L else [])), slow=2000)
                if L: p['d'] = r.choice([600, 1000, 3000, 10000])
                ps.append(p)
            plans[str(i)] = ps
        l = life(r, ops, plans, sw=sw, chaos=r.choice([0, 0, 200, 900]), gap=r.choice([0, 1, 20]) * SEC, settle=60000)
        l.pop('stall', None)
        if L and L < len(sws) - 1 and r.random() < .3: l['kill'] = r.randrange(1, 5000)
        lives.append(l)
    m = 30 * 24 * HOUR
    return dict(config=config(r, {c: (m, m, m, m) for c in (DOWN, DERIVED, INDEX)}, lazy=lazy), items=items, lives=lives)

def gen_C06(r):
    n = r.choice([1, 2, 3])
    items = [item(r, i, ['objects', 'symcaches', 'object_meta']) for i in range(n)]
    lives = []; sw = 1
    m = r.choice([2000, 10000])
    for L in range(r.choice([1, 2, 3])):
        if r.random() < .2: sw = r.randrange(1, 5)
        span = r.choice([300, 3000, 20000])
        ops = [dict(at=t, op='get', item=r.randrange(n)) for t in times(r, r.randrange(2, 12), span)]
        for o in ops:
            if r.random() < .15: o['abandon'] = r.randrange(1, 300)
        if r.random() < .3: ops.append(dict(at=r.randrange(span), op='cleanup', dry=False))
        plans = {str(i): [plan(r, 'ok' if r.random() < .5 else 'panic' if r.random() < .2 else error(r, KINDS + ['InternalError'])) for _ in range(r.choice([1, 2, 4]))] for i in range(n)}
        l = life(r, ops, plans, sw=sw, gap=r.choice([0, 0, 1, 5]) * SEC)
        if r.random() < .6: l['faults'].append(crash(r, 14 * len(ops)))
        elif r.random() < .5: l['kill'] = r.randrange(span)
        if r.random() < .6: l['faults'] += disk_faults(r, r.choice([1, 2, 3]), where=('', '', '/tmp/', '/objects/', 'metadata'))
        if r.random() < .15: l['faults'].append([r.choice(['write', 'mut', 'create']), r.randrange(1, 30), 10**6, 'err', 28, ''])
        lives.append(l)
    sw = r.choice([sw, sw, min(4, sw + 1)])
    ops = []
    for i in range(n):
        for t in [0, 100, m - 500, 3 * m + 2500, 3 * m + 12000, 3 * m + 30000]: ops.append(dict(at=max(0, t + r.randrange(50)), op='get', item=i))
    lives.append(life(r, ops, {str(i): [plan(r, 'ok')] for i in range(n)}, sw=sw, gap=r.choice([0, 0, 1, 5]) * SEC, settle=60000, chaos=r.choice([0, 300])))
    return dict(config=config(r, {c: (m, r.choice([m, 2 * m]), r.choice([m, 3 * m]), 24 * HOUR) for c in (DOWN, DERIVED, INDEX)}), items=items, lives=lives)

FETCH, EXISTS, UPLOAD, TOKEN = 'alt=media', 'googleapis.com/storage/', 'googleapis.com/upload/', 'gcp-auth'
def shared_rule(r, m):
    """One way in which the remote store misbehaves."""
    if m == TOKEN: act = r.choice([dict(head=-1), dict(head=r.choice([200, 290, 310, 2000])), dict(status=500), dict(reset=True)])
    elif m == FETCH:
        act = r.choice([dict(head=-1), dict(head=r.choice([300, 490, 510, 5000])), dict(reset=True), dict(status=r.choice([401, 403, 404, 429, 500, 503]), body='<html>no</html>'),
                        dict(cut=r.choice([0, 1, 30, 400, 4000]), end='reset'), dict(cut=r.choice([0, 1, 30, 400, 4000]), end='stall'), dict(chunk=r.choice([50, 1000]), chunk_delay=r.choice([1, 50, 3000, 61000])),
                        dict(cut=r.choice([30, 4000, 60000]), end=r.choice(['stall', 'reset']), chunk=r.choice([10, 1000, 9000]), chunk_delay=r.choice([1, 40])),
                        dict(connect=r.choice(['refused', 'dns', 'hang'])), dict(connect_delay=r.choice([100, 480, 3000]))])
    elif m == EXISTS: act = r.choice([dict(head=-1), dict(status=500), dict(reset=True), dict(status=404), dict(cut=r.choice([0, 5]), end=r.choice(['stall', 'reset'])), dict(connect='hang')])
    else:
        act = r.choice([dict(head=-1), dict(head=r.choice([1000, 30000, 59000, 61000])), dict(reset=True), dict(reset=True, body='applied'), dict(status=r.choice([401, 403, 412, 500, 503])),
                        dict(up_limit=r.choice([0, 1, 100, 5000])), dict(up_delay=r.choice([100, 20000, 70000])), dict(connect=r.choice(['refused', 'dns', 'hang'])), dict(connect_delay=r.choice([400, 3000, 100000])),
                        dict(cut=0, end='stall')])
    d = dict(m=m, act=act)
    if m == EXISTS: d['not'] = FETCH
    x = r.random()
    if x < .3: d.update(first=r.randrange(4), count=r.choice([1, 1, 2]))
    elif x < .5: d.update({'from': r.randrange(3000), 'until': r.choice([3000, 5000, 100000])})
    return d

def shared_config(r, fs, mc=None, queue=None):
    d = dict(max_concurrent_uploads=mc or r.choice([1, 2, 20]), max_upload_queue_size=queue or r.choice([1, 3, 400]))
    if fs: d['filesystem'] = dict(path='@ROOT/shared')
    else: d['gcs'] = dict(bucket=r.choice(['sim-bucket', 'other']), service_account_path=None)
    return d

def gen_X(r, classes, p_rule=.8):
    fs = r.random() < .3
    n = r.choice([1, 2, 3, 5]); ninst = r.choice([1, 2, 2, 3])
    items = [item(r, i, ALLC) for i in range(n)]
    for it in items:
        if r.random() < .1: it['shared'] = False
    sw = 1; lives = []
    for L in range(r.choice([1, 2, 2, 3])):
        if r.random() < .15: sw = r.randrange(1, 5)
        span = r.choice([100, 1000, 10000, 100000])
        ops = [dict(at=t, op='get', item=r.randrange(n), inst=r.randrange(ninst) if ninst == 1 or r.random() < .5 else L % ninst) for t in times(r, r.randrange(2, 16), span)]
        for o in ops:
            if r.random() < .08: o['abandon'] = r.choice([0, 5, 300, 2000])
        for t in times(r, r.choice([0, 1, 3]), span): ops.append(dict(at=t, op='shared'))
        plans = {str(i): [plan(r, 'ok' if r.random() < .8 else error(r, KINDS + ['InternalError'])) for _ in range(r.choice([1, 2, 3]))] for i in range(n)}
        net = dict(rules=[shared_rule(r, r.choice(classes)) for _ in range(r.choice([1, 1, 2, 3]))] if r.random() < p_rule else [], gcs_state='@ROOT.d/gcs.json')
        l = life(r, ops, plans, sw=sw, net=net, gap=r.choice([0, 1, 2, 7200]) * SEC, nowait=r.random() < .1, chaos=r.choice([0, 0, 300]), settle=r.choice([5000, 130000]))
        l.pop('stall', None)
        if fs and r.random() < .6: l['faults'] += disk_faults(r, r.choice([1, 2, 3]), where=('/shared/', '/shared/', '/shared/', '.tmp/'), ops=['open', 'open', 'create', 'write', 'write', 'read', 'read', 'rename', 'mkdir', 'any'])
        for f in l['faults']: f[5] = '/shared/' if f[5] == '.tmp/' else f[5]
        lives.append(l)
    return dict(config=config(r, basic_ret(r), shared=shared_config(r, fs)), items=items, lives=lives, instances=ninst)

def gen_X01(r): return gen_X(r, [FETCH, FETCH, FETCH, TOKEN, UPLOAD])
def gen_X02(r):
    s = gen_X(r, [FETCH, FETCH, UPLOAD, EXISTS], .6)
    for l in s['lives']:
        x = r.random()
        if x < .3: l['faults'].append(crash(r, 14 * len(l['ops'])))
        elif x < .5: l['kill'] = r.randrange(max(o['at'] for o in l['ops']) + 1)
    if r.random() < .4 and s['instances'] > 1:  # everyone computes the same thing at the same time
        for l in s['lives']:
            for o in l['ops']:
                if o['op'] == 'get': o['at'] = r.choice([0, 0, 1]); o['item'] = 0
    s['lives'].append(life(r, [dict(at=10, op='get', item=i, inst=r.randrange(s['instances'])) for i in range(len(s['items']))], {str(i): [plan(r, 'ok')] for i in range(len(s['items']))}, sw=s['lives'][-1]['sw'], net=dict(gcs_state='@ROOT.d/gcs.json')))
    s['lives'][-1].pop('stall', None)
    return s
def gen_X03(r):
    mc, queue = r.choice([1, 1, 2, 3]), r.choice([1, 2, 4])
    n = r.randrange(3, 12)
    items = [item(r, i, ALLC) for i in range(n + 1)]
    fs = r.random() < .15
    span = r.choice([0, 100, 3000, 100000])
    ops = [dict(at=r.randrange(span + 1), op='get', item=i) for i in range(n)]
    plans = {str(i): [plan(r, 'ok' if r.random() < .9 else error(r))] for i in range(n + 1)}
    plans[str(n)] = [plan(r, 'ok')]
    lives = []; x = r.random()
    net = dict(rules=[], gcs_state='@ROOT.d/gcs.json')
    if x < .35: net['rules'] = [dict(m=UPLOAD, act=r.choice([dict(head=-1), dict(up_delay=10**7), dict(connect='hang')]))]  # nothing gets through
    elif x < .85: net['rules'] = [shared_rule(r, r.choice([UPLOAD, UPLOAD, UPLOAD, TOKEN])) for _ in range(r.choice([1, 2, 4]))]
    if r.random() < .35:
        # entries that are used again after hours are refreshed in the shared cache
        for it in items: it['scope'] = r.choice([None, '1'])
        refr = 40
        items += [dict(cache=r.choice(['objects', 'symcaches']), id=n + 1 + j, scope=None, key='r%d' % j) for j in range(refr)]
        plans.update({str(n + 1 + j): [dict(d=0, gap=0, writes=1, size=10, how='std', out='ok', junk=0)] for j in range(refr)})
        l = life(r, [dict(at=j * 50, op='get', item=n + 1 + j) for j in range(refr)], plans, settle=5000, net=dict(gcs_state='@ROOT.d/gcs.json' if r.random() < .8 else '@ROOT.d/gcs-other.json'))
        l.pop('stall', None); lives.append(l)
        ops += [dict(at=r.randrange(span + 1), op='get', item=n + 1 + j) for j in range(refr)]
        net['rules'] += [dict(m=EXISTS, **{'not': FETCH}, act=r.choice([dict(cut=0, end='stall'), dict(cut=5, end='stall'), dict(head=-1), dict(status=500), dict(reset=True), dict(connect='hang')])) for _ in range(r.choice([0, 1, 1]))]
    last = span + 2000 + 62000 * (len(ops) // mc + 2)
    ops.append(dict(at=last, op='get', item=n))
    l = life(r, ops, plans, net=net, settle=10000, gap=r.choice([0, 7200]) * SEC, probe=len(ops) - 1)
    for q in net['rules']:
        q['until'] = min(q.get('until', 10**9), last)  # whatever is wrong is over by then
    l.pop('stall', None); lives.append(l)
    return dict(config=config(r, basic_ret(r, 10**7), shared=shared_config(r, fs, mc, queue)), items=items, lives=lives, instances=1)

# ---------------------------------------------------------------- reading a history
class H:
    """The history of a run in convenient form."""
    def __init__(self, scn, res):
        self.scn, self.res = scn, res
        self.ev = [e for x in res for e in x['ev']]
        self.comp = {}   # nonce -> dict(i, v, L, s (cstart), e (cend), out, fb)
        self.req = {}    # (L, id) -> dict(i, q, t, w, res)
        for e in self.ev:
            k = e['e']
            if k == 'cstart': self.comp[e['n']] = dict(n=e['n'], i=e['i'], v=e['v'], L=e['L'], s=e, e=None, out=None, fb=e['fb'], rid=e['rid'])
            elif k == 'cend':
                c = self.comp[e['n']]; c['e'] = e; c['out'] = e['out']
            elif k == 'req': self.req[(e['L'], e['r'])] = dict(i=e['i'], s=e, res=None, id=e['r'], L=e['L'])
            elif k == 'res' and (e['L'], e['r']) in self.req: self.req[(e['L'], e['r'])]['res'] = e
        self.by_item = {}
        for c in self.comp.values(): self.by_item.setdefault(c['i'], []).append(c)
        for v in self.by_item.values(): v.sort(key=lambda c: c['s']['q'])

    def ended(self, L): return self.res[L]['code'] == 0

def show(e): return json.dumps(e.get('err') or e.get('ok') or ('aband' if e.get('aband') else 'panic'))

def same(res, c):
    """Whether the answer is the outcome of this computation."""
    if 'ok' in res: return c['out'] == 'ok' and res['ok'].get('n') == c['n']
    if 'err' in res: return isinstance(c['out'], list) and c['out'] == res['err']
    return False

def faulty(scn, L): return any(f[3] in ('err', 'short', 'torn') and not f[5].startswith('/shared') for f in scn['lives'][L]['faults'])

def answered(h, bad):
    for k, q in h.req.items():
        if q['res'] is None and h.ended(q['L']): bad.append(('no-answer', 'life %d: request %d for item %d never got an answer' % (q['L'], q['id'], q['i'])))

def judge_C01(h):
    bad = []
    answered(h, bad)
    for i, cs in h.by_item.items():
        live = []
        for c in cs:
            live = [d for d in live if d['L'] == c['L'] and (d['e'] is None or d['e']['q'] > c['s']['q'])]
            for d in live:
                if not d['fb'] and not c['fb']: bad.append(('two-computations', 'life %d: item %d is computed by request %s while the computation started for request %s still runs' % (c['L'], i, c['rid'], d['rid'])))
            live.append(c)
    own = {(c['L'], c['rid']) for c in h.comp.values() if c['out'] == 'panic'}
    for k, q in h.req.items():
        if q['res'] and q['res'].get('panic') and k not in own: bad.append(('panic-spread', 'life %d: request %d failed with a panic that was not its own' % k))
    for q in h.req.values():
        if not q['res'] or 'ok' not in q['res'] and 'err' not in q['res']: continue
        for c in h.by_item.get(q['i'], []):
            if c['L'] != q['L'] or c['fb'] or c['e'] is None or c['out'] in ('dropped', 'panic'): continue
            by = h.req.get((c['L'], c['rid']))
            if by is None or by['res'] is None or 'ok' not in by['res'] and 'err' not in by['res']: continue  # the request driving it left before the end
            if c['s']['q'] < q['s']['q'] < c['e']['q'] and not same(q['res'], c):
                bad.append(('other-outcome', 'life %d: request %d for item %d was made while computation %d ran, which ended with %s, but got %s' % (q['L'], q['id'], q['i'], c['n'], json.dumps(c['out']), show(q['res']))))
    return bad

def check_content(h, bad):
    for q in h.req.values():
        e = q['res']
        if not e: continue
        it = h.scn['items'][q['i']]
        sw = h.scn['lives'][q['L']]['sw'] if 'sw' in h.scn['lives'][q['L']] else 1
        cur, fbs = VERS[sw]
        who = 'life %d: request %d for item %d (%s)' % (q['L'], q['id'], q['i'], it['cache'])
        if 'ok' in e:
            o = e['ok']
            if 'bad' in o: bad.append(('not-whole', '%s got %s' % (who, o['bad']))); continue
            if o['i'] != it['id'] or o['c'] != it['cache']: bad.append(('other-item', '%s got item %s of %s' % (who, o['i'], o['c']))); continue
            if o['v'] not in [cur] + fbs: bad.append(('wrong-version', '%s got version %s; this release uses %s' % (who, o['v'], [cur] + fbs)))
            c = h.comp.get(o['n'])
            if c is None or c['out'] != 'ok' or c['e']['q'] > e['q']: bad.append(('never-completed', '%s got the output of computation %s, which had not completed: %s' % (who, o['n'], c and c['out'])))
        elif 'err' in e:
            if e['err'][0] == 'InternalError':
                if faulty(h.scn, q['L']): continue
                if any(c['L'] == q['L'] and c['out'] == e['err'] and c['e']['q'] < e['q'] for c in h.by_item.get(q['i'], [])): continue
                bad.append(('internal-error', '%s failed with an internal error without any cause' % who))
            elif not any(c['out'] == e['err'] and c['e']['q'] < e['q'] for c in h.by_item.get(q['i'], [])):
                bad.append(('invented-error', '%s got %s, which no computation of the item ended with' % (who, show(e))))
    for e in h.ev:
        if e['e'] == 'changed': bad.append(('changed', 'life %d: the answer to request %d changed after it was given: %s' % (e['L'], e['r'], e['now'])))

def judge_C02(h):
    bad = []
    check_content(h, bad)
    return bad

TOL = 1.2 * SEC
def retry_ns(scn, it, kind):
    """Configured retry times of an outcome: (as stored on disk)."""
    d = scn['config']['caches'][CATEGORY[it['cache']]]
    key = 'retry_malformed_after' if kind == 'Malformed' else 'retry_misses_after_public' if it['scope'] is None else 'retry_misses_after'
    v = d[key]
    return None if v is None else int(v[:-2]) * MS

def judge_C03(h):
    """Single version, no disk errors, no clock jumps: which computations may and must happen is a function of the history."""
    bad = []
    scn = h.scn
    disk = 'cache_dir' in scn['config']
    start = {e['L']: e['w'] for e in h.ev if e['e'] == 'start'}
    for i, it in enumerate(scn['items']):
        evs = []
        for c in h.by_item.get(i, []):
            evs.append((c['s']['q'], 's', c))
            if c['e']: evs.append((c['e']['q'], 'e', c))
        for q in h.req.values():
            if q['i'] == i and q['res']: evs.append((q['res']['q'], 'r', q))
        evs.sort(key=lambda x: x[0])
        last = None   # the outcome that is remembered, if any: (computation)
        unsure = False
        L = 0
        for k, what, x in evs:
            if k[0] != L:
                # restart: what is certain to have reached the disk?
                if last is not None:
                    crashed = any(h.res[j]['code'] != 0 for j in range(L, k[0]))
                    if not disk or last['out'][0] == 'InternalError': last = None
                    elif crashed and not last.get('seen'): last = None; unsure = True
                L = k[0]
            w = (x['s'] if what != 'r' else x['res'])['w'] if what != 'e' else x['e']['w']
            if what == 's' and last is not None and isinstance(last['out'], list):
                R = retry_ns(scn, it, last['out'][0])
                if last['out'][0] == 'InternalError':
                    R = retry_ns(scn, it, last['out'][0]) if False else 0
                elif last['out'][0] == 'Malformed' and last['L'] != L: R = 0
                if R is None: R = 10**20
                if any(faulty(scn, j) for j in range(last['L'], L + 1)): R = 0
                if last['out'][0] == 'Malformed' and last['e']['w'] < start[L] + TOL: R = 0  # indistinguishable from one of the life before
                if w < last['e']['w'] + R - TOL and R != 0:
                    bad.append(('retried-early', 'life %d: item %d ended with %s and is computed again after %.1f s although it is to be remembered for %.0f s' % (L, i, json.dumps(last['out']), (w - last['e']['w']) / SEC, R / SEC)))
            elif what == 's' and last is not None and last['out'] == 'ok' and disk and False: pass
            elif what == 'e':
                if x['out'] not in ('dropped', 'panic'): last = dict(x); unsure = False
            elif what == 'r':
                e = x['res']
                if 'err' not in e: continue
                if last is not None and same(e, last): last['seen'] = True
                kind = e['err'][0]
                src = [c for c in h.by_item.get(i, []) if c['e'] and c['out'] == e['err'] and c['e']['q'] < e['q'] and (c['L'] == x['L'] or disk and kind != 'InternalError')]
                who = 'life %d: request %d for item %d' % (x['L'], x['id'], i)
                if kind == 'InternalError' and faulty(scn, x['L']): continue
                if not src: bad.append(('other-error', '%s got %s, which is not what the computation ended with: %s' % (who, show(e), json.dumps(last and last['out'])))); continue
                if any(faulty(scn, j) for j in range(x['L'] + 1)): unsure = True
                if last is not None and not unsure and not same(e, last) and last['e']['q'] < x['s']['q']:
                    bad.append(('other-error', '%s got %s, but the last outcome was %s' % (who, show(e), json.dumps(last['out']))))
                    continue
                c = max(src, key=lambda c: c['e']['q'])
                if kind == 'InternalError': continue
                if kind == 'Malformed' and c['L'] != x['L']: bad.append(('malformed-kept', '%s got %s of an earlier life of the process' % (who, show(e)))); continue
                R = retry_ns(scn, it, kind)
                if kind != 'Malformed' and any(faulty(scn, j) or h.res[j]['code'] != 0 for j in range(x['L'] + 1)):  # the metadata may be missing
                    R2 = retry_ns(scn, dict(it, scope=None if it['scope'] else '1'), kind)
                    R = None if R is None or R2 is None else max(R, R2)
                if R is not None and x['s']['w'] > c['e']['w'] + R + TOL:
                    bad.append(('remembered-too-long', '%s got %s, which is %.1f s old; it is to be retried after %.0f s' % (who, show(e), (x['s']['w'] - c['e']['w']) / SEC, R / SEC)))
    return bad

def entry_kind(f):
    if f['it']: return 'ok'
    h = f['head']
    if h == '': return 'miss'
    if h is None: return 'ok'
    if h.startswith('malformed'): return 'malformed'
    if any(h.startswith(s) for s in ('permissiondenied', 'timeout', 'downloaderror', 'unsupported')): return 'miss'
    return 'ok'

def entries(files):
    """path -> file, metadata"""
    d = {f['p']: f for f in files}
    return {p: (f, d.get(p + '.metadata')) for p, f in d.items() if not p.endswith('.metadata') and p.split('/')[0] in CATEGORY}

def life_time(scn, p, f, md):
    """(earliest, latest) wall time at which the entry counts as expired"""
    d = scn['config']['caches'][CATEGORY[p.split('/')[0]]]
    g = lambda k: int(d[k][:-2]) * MS
    kind = entry_kind(f)
    if kind == 'ok': return (f['mt'] + g('max_unused_for'),) * 2
    created = f['mt']; public = False
    if md:
        try: m = json.loads(md['head']); created = m['time_created'] * SEC; public = m['scope'] is None
        except (ValueError, TypeError, KeyError): return None
    if kind == 'malformed': return (0, created + g('retry_malformed_after'))
    t = created + g('retry_misses_after_public' if public else 'retry_misses_after')
    return (t, t)

def judge_C04(h):
    bad = []
    check_content(h, bad)
    answered(h, bad)
    scn = h.scn
    starts = {}; lost = set()
    paths = {e['L']: e['paths'] for e in h.ev if e['e'] == 'start'}
    ends = {(e['L'], e['r']): e for e in h.ev if e['e'] == 'clean1'}
    for e in h.ev:
        if e['e'] == 'clean0': starts[(e['L'], e['r'])] = e
        if e['e'] != 'clean1': continue
        s = starts[(e['L'], e['r'])]
        who = 'life %d: cleanup %d' % (e['L'], e['r'])
        broken = any(faulty(scn, j) for j in range(e['L'] + 1))
        if e['err'] and not broken: bad.append(('cleanup-failed', '%s failed without any fault: %s' % (who, e['err'])))
        before, after = entries(s['files']), entries(e['files'])
        # anything written or touched while the cleanup ran
        touched = {p for p in after if p in before and (after[p][0]['mt'], after[p][0]['it']) != (before[p][0]['mt'], before[p][0]['it'])}
        writing = any(k == 'cend' and s['q'] < x['q'] < e['q'] for x in h.ev for k in [x['e']]) or any(c['s']['q'] < e['q'] and (c['e'] is None or c['e']['q'] > s['q']) for c in h.comp.values())
        for p, (f, md) in before.items():
            lt = life_time(scn, p, f, md)
            if lt is None: continue
            if broken: lt = (min(lt[0], life_time(scn, p, f, None)[0]), 10**20)  # the metadata may be unreadable
            if s['dry']:
                if p not in after and not any(o['e'] == 'clean0' and not o['dry'] and o['L'] == e['L'] and o['q'] < e['q'] and (ends.get((o['L'], o['r'])) is None or ends[(o['L'], o['r'])]['q'] > s['q']) for o in h.ev): bad.append(('dry-removed', '%s is a dry run but %s is gone' % (who, p)))
                continue
            if lt[0] > e['w'] + TOL and p not in after: bad.append(('removed-early', '%s removed %s (%s), which has %.1f s left' % (who, p, entry_kind(f), (lt[0] - e['w']) / SEC)))
            if lt[1] < s['w'] - TOL and p in after and p not in touched: bad.append(('kept', '%s kept %s (%s), which expired %.1f s before' % (who, p, entry_kind(f), (s['w'] - lt[1]) / SEC)))
        if broken: continue
        for p, (f, md) in before.items():
            if p in after and md is not None and after[p][1] is None and lt_ok(scn, p, f, md, e): bad.append(('metadata-removed', '%s removed the metadata of %s but not the entry' % (who, p)))
        left = {p for p in {x['p'] for x in e['files']} if p.endswith('.metadata') and p[:-9] not in after and p[:-9] in before and p.split('/')[0] in CATEGORY}
        if left and not s['dry'] and not writing: bad.append(('metadata-left', '%s left the metadata %s of a removed entry' % (who, sorted(left)[0])))
        # an entry that was completed while the cleanup ran
        if not s['dry']:
            for q in h.req.values():
                c = q['res'] and 'ok' in q['res'] and h.comp.get(q['res']['ok'].get('n'))
                if not c or c['L'] != e['L'] or not (s['q'] < c['e']['q'] and q['res']['q'] < e['q']): continue
                it = scn['items'][q['i']]
                if not any(f['it'] and f['it'].get('n') == c['n'] for f, _ in after.values()):
                    old = before.get(paths[e['L']][q['i']])
                    lt = old and life_time(scn, paths[e['L']][q['i']], *old)
                    lost.add(q['i'])
                    bad.append(('fresh-removed', '%s removed item %d (%s), which was computed while it ran%s' % (who, q['i'], it['cache'], ', in place of an entry that had expired' if lt and lt[0] < e['w'] + TOL else '')))
    # an entry that keeps being used is never computed again
    for i, it in enumerate(scn['items']):
        g = int(scn['config']['caches'][CATEGORY[it['cache']]]['max_unused_for'][:-2]) * MS
        cs = h.by_item.get(i, [])
        for c in cs:
            prev = [d for d in cs if d['e'] and d['e']['q'] < c['s']['q']]
            if not prev or prev[-1]['out'] != 'ok': continue
            used = [q['res']['w'] for q in h.req.values() if q['i'] == i and q['res'] and 'ok' in q['res'] and q['res']['q'] < c['s']['q']]
            if any(faulty(scn, j) for j in range(c['L'] + 1)): continue
            if used and i not in lost and c['s']['w'] < max(used) + g - HOUR * MS - TOL and g > 2 * HOUR * MS - 1:
                bad.append(('used-entry-lost', 'life %d: item %d is computed again %.0f s after it was used; it is to be kept for %.0f s' % (c['L'], i, (c['s']['w'] - max(used)) / SEC, g / SEC)))
    return bad

def lt_ok(scn, p, f, md, e):
    lt = life_time(scn, p, f, md)
    return lt is not None and lt[0] > e['w'] + TOL and entry_kind(f) != 'malformed'

def judge_C05(h):
    bad = []
    check_content(h, bad)
    answered(h, bad)
    scn = h.scn
    for c in h.comp.values():
        # a computation whose request is answered by it is not a refresh: the older entry was expired or bad
        q = h.req.get((c['L'], c['rid']))
        if c['fb'] and (not q or not q['res'] or c['e'] and q['res']['q'] > c['e']['q']): c['fb'] = False
    lim = {}
    for c in (DOWN, DERIVED, INDEX): lim[c] = max(1, scn['config']['caches'][c].get('max_lazy_redownloads', scn['config']['caches'][c].get('max_lazy_recomputations', 0)))
    for L in range(len(h.res)):
        cs = sorted([c for c in h.comp.values() if c['L'] == L], key=lambda c: c['s']['q'])
        run = []
        for c in cs:
            run = [d for d in run if d['e'] is None or d['e']['q'] > c['s']['q']]
            run.append(c)
            if not c['fb']: continue
            cat = CATEGORY[scn['items'][c['i']]['cache']]
            same_cat = [d for d in run if d['fb'] and CATEGORY[scn['items'][d['i']]['cache']] == cat]
            if len(same_cat) > lim[cat]: bad.append(('too-many-refreshes', 'life %d: %d refreshes of %s caches run at the same time, the limit is %d' % (L, len(same_cat), cat, lim[cat])))
            if sum(1 for d in run if d['i'] == c['i']) > 1: bad.append(('double-refresh', 'life %d: item %d is refreshed twice at the same time' % (L, c['i'])))
        sw = scn['lives'][L].get('sw', 1); cur, fbs = VERS[sw]
        for q in [q for q in h.req.values() if q['L'] == L and q['res'] and 'ok' in q['res'] and 'v' in q['res']['ok']]:
            e = q['res']; who = 'life %d: request %d for item %d' % (L, q['id'], q['i'])
            v = e['ok']['v']
            if v != cur and e['t'] - q['s']['t'] > 0.4 * SEC:
                bad.append(('fallback-late', '%s was answered from version %d only after %.2f s' % (who, v, (e['t'] - q['s']['t']) / SEC)))
            if v != cur:
                # a refresh that has ended must be seen
                done = [c for c in cs if c['i'] == q['i'] and c['fb'] and c['e'] and c['out'] not in ('dropped', 'panic') and c['out'] != ['InternalError', ''] and c['e']['t'] < q['s']['t'] - SEC]
                if done: bad.append(('stale', '%s got version %d although refresh %d had ended %.1f s before' % (who, v, done[-1]['n'], (q['s']['t'] - done[-1]['e']['t']) / SEC)))
                # one must run or start, if there is room
                cat = CATEGORY[scn['items'][q['i']]['cache']]
                lo, hi = q['s']['t'] - SEC, e['t'] + SEC
                busy = [c for c in cs if c['fb'] and CATEGORY[scn['items'][c['i']]['cache']] == cat and c['s']['t'] < hi and (c['e'] is None or c['e']['t'] > lo)]
                mine = [c for c in busy if c['i'] == q['i']]
                over = h.res[L]['code'] != 0 and hi > max(x['t'] for x in h.res[L]['ev'])
                if not mine and len(busy) < lim[cat] and not over:
                    # the entry in memory is a fallback whose refresh was already asked for when it was loaded
                    first = not any(p is not q and p['L'] == L and p['i'] == q['i'] and p['res'] and 'ok' in p['res'] and p['res']['q'] < q['s']['q'] for p in h.req.values())
                    if first: bad.append(('no-refresh', '%s got version %d and no refresh was started, with %d of %d running' % (who, v, len(busy), lim[cat])))
        # an item whose current version is there is not computed again
        for i in range(len(scn['items'])):
            ok = None
            for c in [c for c in h.by_item.get(i, []) if c['L'] <= L]:
                if c['L'] == L and ok is not None and VERS[scn['lives'][L].get('sw', 1)][0] == ok['v'] and not c['fb'] and ok['L'] == L and ok['e']['t'] < c['s']['t'] - SEC:
                    bad.append(('recomputed', 'life %d: item %d is computed again although its current version was there' % (L, i)))
                if c['e'] and c['out'] == 'ok': ok = c
                elif c['e'] and isinstance(c['out'], list): ok = None
        # a usable older version is served instead of waiting
        for c in [c for c in cs if not c['fb']]:
            pass
    # an older supported version on disk is used right away
    for L in range(1, len(h.res)):
        sw = scn['lives'][L].get('sw', 1); cur, fbs = VERS[sw]
        snap = [e for e in h.res[L]['ev'] if e['e'] == 'snap']
        if not snap: continue
        have = {}
        for p, (f, md) in entries(snap[0]['files']).items():
            if f['it']: have.setdefault((f['it']['c'], f['it']['i']), set()).add(f['it']['v'])
        firsts = {}
        for q in sorted([q for q in h.req.values() if q['L'] == L], key=lambda q: q['s']['q']): firsts.setdefault(q['i'], q)
        for i, q in firsts.items():
            it = scn['items'][i]
            vs = have.get((it['cache'], it['id']), set())
            want = [v for v in [cur] + fbs if v in vs]
            neg = any('it' in f and not f['it'] and entry_kind(f) != 'ok' for f, _ in entries(snap[0]['files']).values())
            if want and not neg and q['res'] and not q['res'].get('aband'):
                got = q['res'].get('ok', {}).get('v')
                if got != want[0]: bad.append(('fallback-unused', 'life %d: the first request for item %d was answered with %s although version %d was on disk' % (L, i, show(q['res']), want[0])))
            if not want and not neg and q['res'] and 'ok' in q['res'] and h.comp.get(q['res']['ok'].get('n'), {}).get('L') != L:
                bad.append(('unsupported-used', 'life %d: the first request for item %d was answered with %s although no usable version was on disk' % (L, i, show(q['res']))))
    return bad

def judge_C06(h):
    bad = []
    answered(h, bad)
    scn = h.scn
    for e in h.ev:
        if e['e'] == 'ready' and e['tmp'] and not faulty(scn, e['L']): bad.append(('tmp-left', 'life %d starts with %d files left in tmp' % (e['L'], e['tmp'])))
    L = len(scn['lives']) - 1
    if len(h.res) <= L: return bad
    last = h.res[L]
    if last['code'] == 3 or any(e['e'] == 'nostart' for e in last['ev']):
        bad.append(('no-start', 'life %d does not start: %s' % (L, [e for e in last['ev'] if e['e'] == 'nostart'])))
        return bad
    check_content(h, bad)
    for i, it in enumerate(scn['items']):
        m = max(retry_ns(scn, it, 'NotFound'), retry_ns(scn, it, 'Malformed'))
        t0 = next((e['t'] for e in last['ev'] if e['e'] == 'go'), None)
        qs = sorted([q for q in h.req.values() if q['L'] == L and q['i'] == i], key=lambda q: q['s']['q'])
        for q in qs:
            if q['res'] and 'ok' not in q['res'] and q['s']['t'] > t0 + m + 2 * SEC:
                bad.append(('not-healed', 'life %d: request %d for item %d got %s although every fault is over for longer than any retry time' % (L, q['id'], i, show(q['res']))))
        cs = [c for c in h.by_item.get(i, []) if c['L'] == L]
        good = [c for c in cs if c['out'] == 'ok']
        if len(good) > 1 and any(c['s']['t'] > good[0]['e']['t'] + 5 * SEC for c in good): bad.append(('recomputed', 'life %d: item %d was computed %d times' % (L, i, len(good))))
    return bad

# ---------------------------------------------------------------- shared cache
def compute_time(p): return (p['d'] + p['gap'] * max(p['writes'] + 1, 2)) * MS

def judge_X01(h):
    bad = []
    check_content(h, bad)
    answered(h, bad)
    scn = h.scn
    for q in h.req.values():
        e = q['res']; L = q['L']; l = scn['lives'][L]
        if not e or e.get('aband') or e.get('panic'): continue
        fs = 'filesystem' in scn['config']['shared_cache']
        work = max(compute_time(p) for p in l['plans'][str(q['i'])])
        rules = l.get('net', {}).get('rules', [])
        slow = 0.9 * SEC   # token and connection
        if any(x['m'] == FETCH and ('cut' in x['act'] or x['act'].get('chunk_delay')) for x in rules): slow = 61 * SEC
        if fs: slow = 0.1 * SEC + sum(f[4] * min(f[2], 10000) for f in l['faults'] if f[3] == 'delay')
        others = 1 + sum(1 for p in h.req.values() if p['L'] == L and p['i'] == q['i'] and p['res'] and p['res'].get('aband') and p['s']['q'] < e['q'])
        if e['t'] - q['s']['t'] > others * (slow + work) + SEC:
            bad.append(('late', 'life %d: request %d for item %d was answered after %.2f s; the computation takes %.2f s and the shared cache may take %.2f s' % (L, q['id'], q['i'], (e['t'] - q['s']['t']) / SEC, work / SEC, slow / SEC)))
    return bad

def paths_of(h):
    """shared name -> (item, version)"""
    out = {}
    for e in h.ev:
        if e['e'] == 'start':
            for i, p in enumerate(e['paths']): out[p] = (i, VERS[e['sw']][0])
    return out

def judge_X02(h):
    bad = []
    check_content(h, bad)
    scn = h.scn
    names = paths_of(h)
    known = {}   # name -> (nonce, event) of what the shared cache holds
    def stored(name, it, e, what):
        if it is None or 'bad' in it: bad.append(('partial-stored', 'life %d: %s %s holds %s' % (e['L'], what, name, it and it['bad']))); return
        w = names.get(name)
        if w is None: bad.append(('odd-name', 'life %d: item %s version %s of %s is stored as %s' % (e['L'], it['i'], it['v'], it['c'], name))); return
        i, v = w
        if (it['i'], it['c'], it['v']) != (scn['items'][i]['id'], scn['items'][i]['cache'], v): bad.append(('other-item', 'life %d: %s %s of item %d version %d holds item %s version %s of %s' % (e['L'], what, name, i, v, it['i'], it['v'], it['c']))); return
        if not scn['items'][i].get('shared', True): bad.append(('unshared', 'life %d: item %d, which does not use the shared cache, is stored there' % (e['L'], i)))
        c = h.comp.get(it['n'])
        if c is None or c['out'] != 'ok' or c['e']['q'] > e['q']: bad.append(('never-completed', 'life %d: %s %s holds the output of computation %s, which had not completed' % (e['L'], what, name, it['n'])))
        if name in known and known[name][0] != it['n']: bad.append(('replaced', 'life %d: %s %s was replaced: computation %s instead of %s' % (e['L'], what, name, it['n'], known[name][0])))
        known.setdefault(name, (it['n'], e))
    for e in h.ev:
        if e['e'] == 'gcs_put': stored(e['name'], e['item'], e, 'object')
        elif e['e'] == 'shared':
            for f in e['files']:
                if '.tmp/' not in f['p']: stored(f['p'], f['it'], e, 'file')
    # what is there is used, if nothing is in the way
    for L, l in enumerate(scn['lives']):
        if l.get('net', {}).get('rules') or l['faults'] or l.get('nowait'): continue
        if not all(all(e['shared']) for e in h.res[L]['ev'] if e['e'] == 'go') if L < len(h.res) else True: continue
        for c in h.comp.values():
            if c['L'] != L: continue
            q = h.req.get((L, c['rid']))
            name = next((p for p, w in names.items() if w == (c['i'], c['v'])), None)
            if q and name in known and known[name][1]['q'] < q['s']['q'] and scn['items'][c['i']].get('shared', True):
                bad.append(('not-used', 'life %d: item %d is computed for request %d although the shared cache has it' % (L, c['i'], c['rid'])))
    return bad

def judge_X03(h):
    bad = []
    check_content(h, bad)
    answered(h, bad)
    scn = h.scn; cfg = scn['config']['shared_cache']
    mc, queue = cfg['max_concurrent_uploads'], cfg['max_upload_queue_size']
    for L, l in enumerate(scn['lives']):
        if L >= len(h.res): break
        evs = h.res[L]['ev']
        run = set(); tried = []
        ready = any(e['e'] == 'go' and all(e['shared']) for e in evs)
        for e in evs:
            if e['e'] == 'upload':
                run.add(e['id']); tried.append(e)
                if len(run) > mc: bad.append(('too-many-uploads', 'life %d: %d uploads run at the same time, the limit is %d' % (L, len(run), mc)))
            elif e['e'] == 'netdone': run.discard(e['id'])
        for q in h.req.values():
            e = q['res']
            if q['L'] != L or not e or 'ok' not in e: continue
            work = max(compute_time(p) for p in l['plans'][str(q['i'])])
            if not any(x['m'] in (FETCH, TOKEN) for x in l['net'].get('rules', [])) and e['t'] - q['s']['t'] > work + 0.5 * SEC:
                bad.append(('late', 'life %d: request %d was answered after %.2f s although the computation takes %.2f s: uploads are in the way' % (L, q['id'], (e['t'] - q['s']['t']) / SEC, work / SEC)))
        oks = sorted([c for c in h.comp.values() if c['L'] == L and c['out'] == 'ok'], key=lambda c: c['e']['q'])
        if 'gcs' in cfg and oks:
            rules = l['net'].get('rules', [])
            if len(rules) == 1 and rules[0]['m'] == UPLOAD and rules[0]['act'] in (dict(head=-1), dict(up_delay=10**7)) and 'first' not in rules[0] and 'from' not in rules[0]:
                # nothing gets through: what is tried within the first minute is what fits
                t0 = oks[0]['e']['t']
                burst = [c for c in oks if c['e']['t'] < t0 + 50 * SEC]
                # what was computed in the first 50 s and tried at any later time
                n = {scn['items'][c['i']]['id'] for c in burst}
                byname = {}
                for e in tried: byname.setdefault(e['url'], e)
                got = [u for u in byname if byname[u]['t'] < 10**18]
                names = paths_of(h)
                hits = set()
                import urllib.parse
                for u in byname:
                    name = urllib.parse.parse_qs(urllib.parse.urlparse(u).query).get('name', [''])[0]
                    if name in names and scn['items'][names[name][0]]['id'] in n: hits.add(name)
                if len(hits) > mc + queue: bad.append(('queue-too-long', 'life %d: %d of %d uploads were kept while nothing got through; the limits are %d running and %d waiting' % (L, len(hits), len(burst), mc, queue)))
                if L == 0 and ready and len(hits) < min(len(burst), queue): bad.append(('queue-too-short', 'life %d: %d of %d uploads were tried; the limits are %d running and %d waiting' % (L, len(hits), len(burst), mc, queue)))
        if 'probe' in l and h.res[L]['code'] == 0 and ready:
            q = h.req.get((L, l['probe']))
            i = q['i']
            name = next(p for p, w in paths_of(h).items() if w[0] == i)
            if 'gcs' in cfg: there = any(e['e'] == 'gcs_put' and e['name'] == name for e in evs)
            else: there = any(f['p'] == name for e in evs if e['e'] == 'shared' for f in e['files'])
            c = [c for c in oks if c['i'] == i]
            if c and not there: bad.append(('never-stored', 'life %d: item %d was computed when all earlier uploads must have ended, but is not stored' % (L, i)))
        # without any trouble everything that fits is stored
        if not l['net'].get('rules') and not l['faults'] and h.res[L]['code'] == 0 and len(oks) <= queue:
            names = {w: p for p, w in paths_of(h).items()}
            puts = {e['name'] for e in h.ev if e['e'] == 'gcs_put'} | {f['p'] for e in h.ev if e['e'] == 'shared' for f in e['files']}
            for c in oks:
                if c['e']['t'] < h.res[L]['ev'][-1]['t'] - SEC and names.get((c['i'], c['v'])) not in puts: bad.append(('not-stored', 'life %d: item %d was computed but is not in the shared cache' % (L, c['i'])))
    return bad

# ---------------------------------------------------------------- interface
def run(scn, root): return simrun.run_lives('cache', scn, root)

def make(prop, seed, root): return gen(prop, seed)

def execute(scn, root):
    res = run(scn, root)
    h = H(scn, res)
    bad, discard = simrun.general(res)
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        bad += globals()['judge_' + scn['prop']](h)
    # the start of a life on a failing disk may fail
    probes = {}
    def p(k, n=1):
        if n: probes[k] = probes.get(k, 0) + n
    for q in h.req.values():
        e = q['res']
        p('requests')
        if e: p('answer ok' if 'ok' in e else 'answer %s' % e['err'][0] if 'err' in e else 'abandoned' if e.get('aband') else 'answer panic')
        if e and 'ok' in e and 'v' in e['ok']:
            if e['ok']['v'] != VERS[scn['lives'][q['L']].get('sw', 1)][0]: p('answered from an older version')
            c = h.comp.get(e['ok']['n'])
            if c and c['L'] != q['L']: p('answered from an earlier life')
    for c in h.comp.values(): p('computation %s' % (c['out'] if isinstance(c['out'], str) else 'interrupted' if c['out'] is None else 'error'))
    for e in h.ev:
        if e['e'] == 'clean1': p('cleanup dry' if e['dry'] else 'cleanup')
        if e['e'] in ('gcs_put', 'upload'): p(e['e'])
    return simrun.summary(scn, res, dedup(bad), discard, dict(seed=scn['seed'], items=scn['items'][:4], config=scn['config'], lives=[dict(sw=l.get('sw'), ops=len(l['ops']), faults=l['faults'], kill=l.get('kill')) for l in scn['lives']]), trivial=not h.comp, probes=probes)

def dedup(bad):
    out = []; seen = set()
    for c, m in bad:
        if (c, m) not in seen: seen.add((c, m)); out.append((c, m))
    return out

def shrink_steps(scn):
    return [['lives', i, 'ops'] for i in range(len(scn['lives']))] + [['lives', i, 'faults'] for i in range(len(scn['lives']))] + [['lives', i, 'net', 'rules'] for i in range(len(scn['lives'])) if scn['lives'][i].get('net', {}).get('rules')]

def simplify(scn):
    c = lambda: json.loads(json.dumps(scn))
    for i, l in enumerate(scn['lives']):
        if len(scn['lives']) > 1 and i < len(scn['lives']) - 1:
            s = c(); g = s['lives'][i].get('gap', 0); del s['lives'][i]; yield s
        for k in ('stall', 'spurious', 'kill'):
            if l.get(k): s = c(); del s['lives'][i][k]; yield s
        for k, v in (('alloc', 0), ('chaos', 0), ('gap', 0), ('workers', 1), ('rayon', 1), ('hold', False)):
            if l.get(k, v) != v: s = c(); s['lives'][i][k] = v; yield s
        for key, ps in l['plans'].items():
            if len(ps) > 1: s = c(); s['lives'][i]['plans'][key].pop(); yield s
            for j, p in enumerate(ps):
                for k, v in (('gap', 0), ('writes', 1), ('size', 0), ('how', 'std'), ('junk', 0)):
                    if p[k] != v: s = c(); s['lives'][i]['plans'][key][j][k] = v; yield s

RULE_TEXT = ('Each run generates items, one to four process lives (releases, restarts, kills) with their requests, abandonments, cleanups, clock jumps and computation outcomes, and the faults of the property; distinct when the hash of the whole trace '
             '(schedule, file operations, faults) is new; trivial when nothing was computed.')
REAL = ['symbolicator-service: caching (memory, file system, shared cache, cleanup, metadata, keys, errors), config, types, utils', 'tokio (multi-thread runtime, fs, time, sync), futures, rayon, tempfile, filetime, symbolic ByteView', 'kernel file system (tmpfs)']
STUB = ['thread scheduling, clocks, randomness and results of file operations come from the simulator (LD_PRELOAD)', 'moka: stand-in with the documented semantics, plus arbitrary evictions', 'reqwest, gcp_auth: simulated network', 'sentry, cadence: no-ops',
        'the computations of items are driven by the scenario (the real ones belong to other properties)']
ASSUME = ['a crash is the death of the process: writes the kernel accepted survive', 'threads are preempted at system calls, synchronisation and allocations only', 'answers of moka follow its documentation']
