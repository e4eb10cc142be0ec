"""What the downloader remembers about servers: searches of project files (D06), access tokens (D07) and symbol-server indexes (D08)."""
import json, os, random, re
from urllib.parse import unquote, urlsplit, parse_qs
import simrun, cachesim, downsim
from simrun import SEC

MS = 10**6
EPS = .4 * SEC
FILTER = {'object elf': ('elf', 'breakpad', 'macho', 'pdb'), 'object macho': ('macho', 'breakpad', 'pdb', 'elf'), 'object pe': ('pe', 'breakpad', 'macho', 'pdb', 'elf'), 'sources': ('sourcebundle', 'portablepdb', 'elf', 'wasm'),
          'all': ('pdb', 'macho', 'elf', 'pe', 'wasm', 'breakpad', 'sourcebundle', 'uuidmap', 'bcsymbolmap', 'portablepdb', 'proguard')}
TYPES = ['elf', 'elf', 'breakpad', 'macho', 'pdb', 'pe', 'sourcebundle', 'wasm', 'portablepdb', 'proguard', 'il2cpp', 'bcsymbolmap']

def disturb(r, json_body=False):
    x = r.random()
    if x < .3: return dict(status=r.choice([500, 502, 503, 429, 404, 403, 401, 400]))
    if x < .45: return dict(reset=True)
    if x < .55: return dict(connect='refused')
    if x < .6: return dict(connect='dns')
    if x < .65: return dict(connect='hang')
    if x < .75: return dict(head=r.choice([100, 3000, 12000, 25000]))
    if x < .82: return dict(head=-1)
    if x < .9: return dict(status=200, body=r.choice(['', '{}', 'null', '[{"id":1}]', '<html>login</html>', '{"access_token":7}', '[{"id":"x","symbolType":"nonsense"}]']))
    return dict(cut=r.choice([0, 1, 10]), end=r.choice(['reset', 'stall']))

def contacts(ev, want):
    """Requests, with what became of them: t, end, ok, the event."""
    out = []; fin = {}
    for e in ev:
        if e['e'] == 'netdone': fin[e['id']] = (e['t'], e['fin'])
    for e in ev:
        if e['e'] == 'net' and want(e['m'], e['url']):
            t, f = fin.get(e['id'], (None, False))
            out.append(dict(t=e['t'], end=t if t is not None else 10**30, fin=f, e=e, id=e['id']))
    return out
def failed_connects(ev, want):
    return [e for e in ev if e['e'] == 'connect' and e.get('how') not in (None, 'ok') and want(None, e['url'])]

# ---------------------------------------------------------------- D06
def gen_D06(r, prop):
    c = dict(connect=r.choice([1, 2]), head=5, streaming=250, max=300); cfg = downsim.conf(r, c, prop)
    ttl = r.choice([2, 10, 60, 3600]); cfg['caches']['in_memory'] = dict(sentry_index_ttl='%ds' % ttl)
    U = ['https://sentry.example.org/api/0/projects/o/p%d/files/dsyms/' % i for i in range(2)]
    srcs = [dict(type='sentry', id='s0', url=U[0], token='tokA'), dict(type='sentry', id='s1', url=U[0], token='tokB'), dict(type='sentry', id='s2', url=U[1], token='tokA'), dict(type='sentry', id='s3', url=U[0], token='tokA'), dict(type='sentry', id='s4', url=U[1], token='wrong')]
    did = lambda: '%08x-%04x-%04x-%04x-%012x' % (r.randrange(1, 1 << 32), r.randrange(1 << 16), r.randrange(1 << 16), r.randrange(1 << 16), r.randrange(1 << 48))
    oids = []
    for _ in range(r.choice([1, 1, 2, 3])):
        o = {}; x = r.random()
        if x < .8: o['debug_id'] = did()
        if x > .6: o['code_id'] = '%032x' % r.randrange(1 << 128)
        oids.append(o)
    if r.random() < .15: oids.append({})
    serial = [0]
    def table():
        tab = {}
        for u, t in ((U[0], 'tokA'), (U[0], 'tokB'), (U[1], 'tokA')):
            fs = []
            for o in oids:
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    serial[0] += 1
                    fs.append(dict(id='file%d' % serial[0], symbolType=r.choice(TYPES), debugId=o.get('debug_id', did()), codeId=o.get('code_id')))
            tab.setdefault(u, {})[t] = fs
        return tab
    tab = table(); ops = []; t = 0
    span = ttl * r.choice([1, 2, 3]) * 1000
    use = r.sample(range(5), r.choice([1, 1, 2, 3])); calm = r.random() < .3
    base = sorted(cachesim.times(r, r.choice([2, 5, 10, 20]), span, r.choice([.2, .6])))
    for t in base:
        if r.random() < .2 and ops: t = max(0, ops[-1]['at'] + ttl * 1000 + r.choice([-700, 0, 700, 2000]))
        o = dict(op='list', at=t, srcs=[r.choice(use)], oid=dict(r.choice(oids), object_type=r.choice(['elf', 'macho', 'pe'])), auto=r.choice(['object', 'object', 'sources', 'all']))
        if r.random() < .15: o['abandon'] = r.choice([0, 1, 50, 3000, 20000, 29990])
        ops.append(o)
    last = max(o['at'] for o in ops)
    for _ in range(r.choice([0, 0, 1, 2, 4])): ops.append(dict(op='sentry', at=r.randrange(last + 1), val=table()))
    if r.random() < .15: ops.append(dict(op='wall', at=r.randrange(last + 1), ns=r.choice([-1, 1]) * r.choice([1, ttl, 86400]) * SEC))
    for k, o in enumerate(ops): o['id'] = k
    rules = []
    for _ in range(0 if calm else r.choice([1, 1, 2, 4])):
        m = r.choice(['dsyms/?', 'p0/files', 'p1/files'] + [list(o.values())[0] for o in oids if o])
        rules.append(dict(m=m, first=r.choice([0, 0, 1, 2, r.randrange(8)]), count=r.choice([1, 1, 2, 3, 4, 6, 1000]), act=disturb(r)))
        if rules[-1]['count'] == 1000 and r.random() < .7: rules[-1]['until'] = r.randrange(1, span + 1)
    life = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=ops, settle=r.choice([200, 40000]), net=dict(rules=rules), limit=3600)
    if life.get('stall'): life['stall'][1] = min(life['stall'][1], 50 * MS)
    return dict(config=cfg, c=c, ttl=ttl, sources=srcs, files={}, sentry=tab, gcs={}, norange=[], lives=[life])

def judge_D06(scn, res):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    ev = res[0]['ev']; l = scn['lives'][0]; ops = {o['id']: o for o in l['ops']}; ttl = scn['ttl'] * SEC
    def key_of(o):
        s = scn['sources'][o['srcs'][0]]
        if o['oid'].get('debug_id'): q = ('debug_id', o['oid']['debug_id'])
        elif o['oid'].get('code_id'): q = ('code_id', o['oid']['code_id'])
        else: return None
        return (s['url'],) + q + (s['token'],)
    def key_url(url):
        u = urlsplit(url); q = parse_qs(u.query)
        for n in ('debug_id', 'code_id'):
            if n in q: return ('%s://%s%s' % (u.scheme, u.netloc, u.path), n, q[n][0])
        return None
    hits = {e['id']: e for e in ev if e['e'] == 'search'}
    F = {}
    for f in contacts(ev, lambda m, u: 'dsyms/' in u and key_url(u) is not None):
        tok = dict((a.lower(), b) for a, b in f['e']['h']).get('authorization', '')[7:]
        h = hits.get(f['id']); f['ok'] = bool(h and f['fin'] and f['e']['st'] == 200 and not f['e']['reset'] and f['e']['len'] == h['len']); f['hit'] = h['hit'] if h else None
        F.setdefault(key_url(f['e']['url']) + (tok,), []).append(f)
    C = {}
    for e in failed_connects(ev, lambda m, u: 'dsyms/' in u and key_url(u) is not None): C.setdefault(key_url(e['url']), []).append(e)
    for e in ev:
        if e['e'] == 'net' and 'dsyms/' in e['url'] and key_url(e['url']) is None: bad.append(('D06', 'all-files', 'the server is asked for all files: %s' % e['url']))
    R = {}; runs = {}
    for e in ev:
        if e['e'] == 'req' and e['r'] in ops and ops[e['r']]['op'] == 'list': R[e['r']] = [e['t'], None, None]
        elif e['e'] == 'res' and e['r'] in R: R[e['r']][1:] = [e['t'], e]
    for k, (t0, t1, e) in R.items():
        if e is not None: runs.setdefault(key_of(ops[k]), []).append((t0, t1, k, bool(e.get('aband'))))
    lost = [(t1, key_of(ops[k])) for k, (t0, t1, e) in R.items() if e and e.get('aband')]
    for k, (t0, t1, e) in sorted(R.items()):
        if e is None or e.get('aband'): p('abandoned'); continue
        if e.get('panic') is not None: bad.append(('D06', 'panic', 'op %d: panicked' % k)); continue
        o = ops[k]; K = key_of(o); got = sorted(f['uri'] for f in e['files']); tag = 'op %d at %.1f s' % (k, t0 / SEC - 1000)
        if any(f['src'] != scn['sources'][o['srcs'][0]]['id'] for f in e['files']): bad.append(('D06', 'other-source', '%s: files of source %s are listed for source %s' % (tag, e['files'][0]['src'], scn['sources'][o['srcs'][0]]['id'])))
        if K is None:
            if got: bad.append(('D06', 'all-files', '%s: files are listed without an identifier' % tag))
            continue
        want = FILTER['object ' + o['oid']['object_type'] if o['auto'] == 'object' else o['auto']]
        def show(h): return sorted('sentry://project_debug_file/' + i for i, t in h if t in want)
        fs = F.get(K, []); cs = C.get(K[:3], [])
        good = [f for f in fs if f['ok'] and f['end'] <= t1 + EPS and f['end'] >= t0 - ttl - EPS]
        if [f for f in good if f['end'] < t0]: p('answered from memory')
        failing = [f for f in fs if not f['ok'] and f['t'] <= t1 + EPS and f['end'] >= t0 - EPS] or [c for c in cs if t0 - 32 * SEC <= c['t'] <= t1 + EPS]
        if any(show(f['hit']) == got for f in good): p('right answers')
        elif not got and failing: p('failed searches')
        elif not got and any(f['ok'] and f['t'] <= t1 and t1 - t0 > 29 * SEC for f in fs): p('timed out')
        else: bad.append(('D06', 'answer', '%s: lists %s; the server answered %s in the last %d s%s' % (tag, got, [show(f['hit']) for f in good], scn['ttl'], '' if failing else ' and no search failed')))
        others = [x for x in runs[K] if x[2] != k and x[0] < t1 + EPS and x[1] > t0 - EPS]
        limit = 30 * (1 + sum(1 for x in others if x[3])) * SEC
        if t1 - t0 > limit + 1.5 * SEC + (3 * SEC if l.get('stall') else 0): bad.append(('D06', 'too-long', '%s: took %.1f s' % (tag, (t1 - t0) / SEC)))
        mine = [f for f in fs if t0 - EPS <= f['t'] <= t1] ; n = len(mine) + len([c for c in cs if t0 - EPS <= c['t'] <= t1])
        ambiguous = len({x for x in F if x[:3] == K[:3]}) > 1 or len({key_of(ops[j]) for j in R if (key_of(ops[j]) or ())[:3] == K[:3]}) > 1
        if not others and not ambiguous and not any(a == K and t0 - 2 * SEC < t <= t0 for t, a in lost):
            if n > 3: bad.append(('D06', 'attempts', '%s: %d attempts' % (tag, n)))
            if not good and 0 < n < 3 and t1 - t0 < 29 * SEC: bad.append(('D06', 'gave-up', '%s: failed after %d attempts' % (tag, n)))
            if n == 0 and not any(f['end'] <= t0 + EPS for f in good): bad.append(('D06', 'not-asked', '%s: nothing was remembered, but the server was not asked' % tag))
    for K, fs in F.items():
        fs.sort(key=lambda f: f['t'])
        for a, b in zip(fs, fs[1:]):
            if a['end'] > b['t'] + EPS: bad.append(('D06', 'not-shared', 'two searches for %s at the same time, at %.1f s and %.1f s' % (K, a['t'] / SEC - 1000, b['t'] / SEC - 1000)))
        for s in fs:
            if not s['ok'] or any(a == K and abs(t - s['end']) < EPS for t, a in lost): continue
            # the whole search may have been given up at that moment
            if any(x[0] <= s['end'] <= x[1] + EPS and s['end'] - x[0] > 29 * SEC for x in runs.get(K, [])): continue
            again = [f for f in fs if s['end'] + EPS < f['t'] < s['end'] + ttl - EPS]
            if again: bad.append(('D06', 'refetched', '%s is searched again %.1f s after an answer that holds for %d s' % (K, (again[0]['t'] - s['end']) / SEC, scn['ttl'])))
            p('answers to be remembered')
        n = sum(1 for x in runs.get(K, []))
        if len(fs) > 3 * max(n, 1): bad.append(('D06', 'attempts', '%d requests for %d searches of %s' % (len(fs), n, K)))
        if not runs.get(K): bad.append(('D06', 'unasked', 'a search nobody asked for: %s' % (K,)))
    return bad, probes

# ---------------------------------------------------------------- D07
def gen_D07(r, prop):
    c = dict(connect=r.choice([1, 2]), head=5, streaming=250, max=r.choice([40, 60, 300])); cfg = downsim.conf(r, c, prop)
    n = r.choice([1, 2, 3]); srcs = []; gcs = {}
    for i in range(n):
        m = r.randrange(n)
        s = dict(type='gcs', id='s%d' % i, bucket='bucket%d' % i, prefix='', private_key='key of %d' % m, client_email='mail%d@example.org' % m, layout=dict(type='native', casing='default'))
        if r.random() < .05: s['private_key'] = r.choice(['', 'BAD'])
        srcs.append(s); gcs[s['bucket']] = [s['client_email']]
    files = {}; ops = []
    span = r.choice([5, 60, 3400, 3600, 7300, 11000]) * 1000
    for k, t in enumerate(cachesim.times(r, r.choice([2, 5, 10, 25]), span, r.choice([.3, .7]))):
        if r.random() < .25 and ops: t = ops[-1]['at'] + r.choice([3475000, 3479000, 3481000, 3500000, 3509000, 3511000, 3540000, 3600000]) + r.choice([0, r.randrange(2000)])
        i = r.randrange(n); s = srcs[i]; loc = 'f%d' % k
        files[downsim.store_key(s, loc)] = downsim.plain(r, r.choice([10, 100, 9000]))
        o = dict(id=k, op='dl', src=i, loc=downsim.op_loc(s, k, loc), at=t)
        if r.random() < .12: o['abandon'] = r.choice([0, 1, 50, 3000, 20000])
        ops.append(o)
    last = max(o['at'] for o in ops); rules = []
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        rules.append(dict(m='oauth2/v4/token', first=r.choice([0, 0, 1, 2, r.randrange(8)]), count=r.choice([1, 1, 2, 3, 4, 6, 1000]), act=disturb(r)))
        if rules[-1]['count'] == 1000: rules[-1].update({'from': r.randrange(last + 1), 'until': r.randrange(1, last + 20000)})
    x = len(ops); jump = r.random() < .25
    for k in range(r.choice([1, 2]) if jump else 0): ops.append(dict(id=x + k, op='wall', at=r.randrange(last + 1), ns=r.choice([-1, -1, 1]) * r.choice([1, 60, 600, 3600, 86400]) * SEC))
    life = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=ops, settle=r.choice([200, 2000]), net=dict(rules=rules), limit=3600)
    if life.get('stall'): life['stall'][1] = min(life['stall'][1], 50 * MS)
    return dict(config=cfg, c=c, sources=srcs, files=files, sentry={}, gcs=gcs, norange=[], dldir='@ROOT/dl', lives=[life])

def judge_D07(scn, res):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    ev = res[0]['ev']; l = scn['lives'][0]; ops = {o['id']: o for o in l['ops']}
    jumped = any(o['op'] == 'wall' for o in l['ops'])
    T = {}; tok = {e['id']: e for e in ev if e['e'] == 'token'}
    for f in contacts(ev, lambda m, u: 'oauth2/v4/token' in u):
        iss = json.loads(json.loads(f['e']['body'])['assertion'])['iss']; t = tok.get(f['id'])
        f['ok'] = bool(t and f['fin'] and f['e']['st'] == 200 and not f['e']['reset'] and f['e']['len'] == len(json.dumps({'access_token': t['tok']}, separators=(',', ':'))))
        T.setdefault(iss, []).append(f)
        if t:
            if t['exp'] - t['iat'] > 3600: bad.append(('D07', 'claims', 'a token is requested for %d s; the server grants at most an hour' % (t['exp'] - t['iat'])))
            if not jumped and not -2 <= t['off'] <= 0: bad.append(('D07', 'claims', 'a token is requested with an issue time %d s off' % t['off']))
    cf = failed_connects(ev, lambda m, u: 'oauth2/v4/token' in u)
    net = {e['id']: e for e in ev if e['e'] == 'net'}
    for e in ev:
        if e['e'] != 'auth': continue
        n = net.get(e['id']) or {}; op = (n.get('note') or {}).get('op'); s = scn['sources'][ops[op]['src']] if op in ops else None
        p('requests with a token')
        if e['why'] != 'ok': bad.append(('D07', 'token', 'op %s: a request for %s carries %s' % (op, e['bucket'], {'expired token': 'an expired token', 'foreign token': 'the token of another account'}.get(e['why'], e['why'] + ' ' + repr(e['tok'])))))
    R = {}
    for e in ev:
        if e['e'] == 'req' and e['r'] in ops and ops[e['r']]['op'] == 'dl': R[e['r']] = [e['t'], None, None]
        elif e['e'] == 'res' and e['r'] in R: R[e['r']][1:] = [e['t'], e]
    lost = []
    for k, (t0, t1, e) in R.items():
        if e and e.get('aband'): lost.append((t1, scn['sources'][ops[k]['src']]['client_email']))
    for k, (t0, t1, e) in sorted(R.items()):
        s = scn['sources'][ops[k]['src']]; tag = 'op %d at %.1f s' % (k, t0 / SEC - 1000)
        if e is None or e.get('aband'): p('abandoned'); continue
        if e.get('panic') is not None: bad.append(('D07', 'panic', '%s: panicked' % tag)); continue
        iss = s['client_email']; badkey = s['private_key'] in ('', 'BAD')
        fails = [f for f in T.get(iss, []) if not f['ok'] and f['end'] >= t0 - EPS and f['t'] <= t1 + EPS]; conn = [c for c in cf if t0 - 2.5 * SEC <= c['t'] <= t1]
        if 'ok' in e:
            p('ok')
            if badkey: bad.append(('D07', 'bad-key', '%s: succeeds with a private key that is not valid' % tag))
        elif badkey: p('bad key')
        else:
            p('failed')
            c = downsim.CLASS[e['err'][0]]
            slow = t1 - t0 > (scn['c']['max'] - 1) * SEC
            if c not in ('derr', 'timeout'): bad.append(('D07', 'class', '%s: ends as %s' % (tag, e['err'])))
            elif c == 'timeout' and not slow and not any('head' in x['act'] for x in l['net']['rules']): bad.append(('D07', 'class', '%s: ends as %s after %.1f s' % (tag, e['err'], (t1 - t0) / SEC)))
            elif not slow and len(fails) + len(conn) < 3: bad.append(('D07', 'not-repeated', '%s: fails with %s after only %d failed token requests' % (tag, e['err'], len(fails) + len(conn))))
            elif slow and not fails and not conn and not any(f['end'] - f['t'] > 2 * SEC for f in T.get(iss, [])): bad.append(('D07', 'not-repeated', '%s: fails with %s although token requests work' % (tag, e['err'])))
        if t1 - t0 > (scn['c']['max'] + 1.5) * SEC: bad.append(('D07', 'too-long', '%s: takes %.1f s' % (tag, (t1 - t0) / SEC)))
    for iss, fs in T.items():
        fs.sort(key=lambda f: f['t'])
        keys = {s['private_key'] for s in scn['sources'] if s['client_email'] == iss and s['private_key'] not in ('', 'BAD')}
        if len(keys) > 1: continue
        for a, b in zip(fs, fs[1:]):
            if a['end'] > b['t'] + EPS: bad.append(('D07', 'not-shared', 'two token requests for %s at the same time, at %.1f s and %.1f s' % (iss, a['t'] / SEC - 1000, b['t'] / SEC - 1000)))
        for s in fs:
            if not s['ok'] or any(a == iss and abs(t - s['end']) < EPS for t, a in lost): continue
            # the download may have been given up at that moment
            if any(scn['sources'][ops[k]['src']]['client_email'] == iss and abs((t0 + scn['c']['max'] * SEC) - s['end']) < EPS for k, (t0, t1, e) in R.items()): continue
            again = [f for f in fs if s['end'] + EPS < f['t'] < s['t'] + 58 * 60 * SEC - 1.5 * SEC]
            if again and not jumped: bad.append(('D07', 'refetched', 'a token for %s is requested again %.1f s after one that holds for an hour' % (iss, (again[0]['t'] - s['end']) / SEC)))
            p('tokens')
    return bad, probes

# ---------------------------------------------------------------- D08
LAST = '000Admin/lastid.txt'
def seg(n): return '000Admin/%010d' % n
def gen_D08(r, prop):
    c = dict(connect=1, head=5, streaming=250, max=60); misses = r.choice([60, 600, 3600]); cfg = downsim.conf(r, c, prop)
    ret = {k: (misses * 1000, misses * 1000, r.choice([misses, misses * 3]) * 1000, 30 * 86400000) for k in ('downloaded', 'derived', 'index')}
    cfg['caches'] = cachesim.config(r, ret, cache_dir=True)['caches']
    if r.random() < .2: cfg.pop('cache_dir', None)
    srcs = []; files = {}; state = []
    for i in range(r.choice([1, 1, 2])):
        t = r.choice(['http', 'http', 'gcs', 's3']); s = dict(type=t, id='s%d' % i, layout=dict(type='symstore', casing='default'), has_index=True, is_public=r.random() < .3)
        if t == 'http': s['url'] = 'https://syms%d.example.org/x/' % i
        elif t == 'gcs': s.update(bucket='b%d' % i, prefix='', private_key='k', client_email='mail0@example.org')
        else: s.update(bucket='b%d' % i, prefix='', region='us-east-1', access_key='ak', secret_key='sk')
        srcs.append(s); state.append(r.choice([0, 1, 1, 2, 3]))
    serial = [0]
    def segment(i, n):
        out = []
        for _ in range(r.choice([0, 1, 2, 3])):
            serial[0] += 1; m = r.choice(['a%d.pdb', 'lib%d.dll', 'größe%d.pdb', 'My App%d.DLL']) % serial[0]
            out.append('"%s\\%s",%s' % (m, '%016X%x' % (r.randrange(1 << 64), r.randrange(1 << 20)), r.choice(['"D:\\x\\y"', '"file","ptr"', '', '"D:\\Gr\ufffd\ufffde\\y"'])))
        if r.random() < .15: out.insert(r.randrange(len(out) + 1), r.choice(['not a line', '', '"no backslash"', '# ' + '"quoted"', 'lib.dll\\1,x', '# gr\ufffdn', '"gr\ufffdn']))
        t = (r.choice(['\n', '\r\n']).join(out) + r.choice(['', '\n'])).replace('\r\n\n', '\r\n')
        # written on a machine with another code page: not UTF-8
        return dict(text=t, hex=t.encode().replace(b'\xef\xbf\xbd', b'\xf6').hex()) if '\ufffd' in t else dict(text=t)
    hist = []
    for i, s in enumerate(srcs):
        for n in range(1, state[i] + 1): files[downsim.store_key(s, seg(n))] = segment(i, n)
        files[downsim.store_key(s, LAST)] = dict(text='%d%s' % (state[i], r.choice(['', '\n', '\r\n'])))
    lives = []
    scopes = r.choice([[None], ['42'], ['42', '7', None]])
    for L in range(r.choice([1, 1, 2, 3])):
        span = r.choice([10, 900, 3 * 3600, 30 * 3600, 75 * 3600]); ops = []
        for t in cachesim.times(r, r.choice([2, 5, 10, 20]), span * 1000, .4):
            if r.random() < .25 and ops: t = ops[-1]['at'] + 1000 * r.choice([599, 602, misses, misses * 2 + 5, 86399, 86402, 90000])
            o = dict(op='index', at=t, src=r.randrange(len(srcs)), scope=r.choice(scopes))
            if r.random() < .1: o['abandon'] = r.choice([0, 1, 50, 3000, 20000])
            ops.append(o)
        last = max(o['at'] for o in ops)
        for _ in range(r.choice([0, 1, 2, 4])):
            i = r.randrange(len(srcs)); s = srcs[i]; t = r.randrange(last + 1); k = r.choice([1, 1, 2])
            ops.append(dict(op='grow', at=t, src=i, n=k, late=r.random() < .15, delay=r.choice([100, 5000, 3600000])))
        if r.random() < .12:
            ops.append(dict(op='wall', at=r.randrange(last + 1), ns=r.choice([-1, -1, 1]) * r.choice([1, 700, 3600, 90000]) * SEC))
        # what is published when
        out = []
        for o in sorted(ops, key=lambda o: o['at']):
            if o['op'] != 'grow': out.append(o); continue
            s = srcs[o['src']]; i = o['src']
            new = []
            for _ in range(o['n']): state[i] += 1; new.append(dict(op='put', at=o['at'], key=downsim.store_key(s, seg(state[i])), val=segment(i, state[i])))
            ptr = dict(op='put', at=o['at'], key=downsim.store_key(s, LAST), val=dict(text='%d\n' % state[i]))
            if o['late']:
                for q in new: q['at'] += o['delay']
                out += [ptr] + new
            else: ptr['at'] += 1; out += new + [ptr]
        for k, o in enumerate(out): o['id'] = k
        now = dict(files) if not lives else dict(lives[-1]['files'])
        if lives: now.update({o['key']: o['val'] for o in sorted(lives[-1]['ops'], key=lambda o: o['at']) if o['op'] == 'put'})
        rules = []
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            m = r.choice(['lastid.txt', '000Admin', '000000000', '0000000001', '0000000002', 'syms0', 'b1'])
            a = disturb(r)
            if a.get('status') == 200: a = r.choice([dict(status=500), dict(status=404), dict(reset=True)])
            if a.get('connect') and m.startswith('b'): a = dict(status=500)
            rules.append(dict(m=m, first=r.choice([0, 0, 1, 2, r.randrange(10)]), count=r.choice([1, 2, 3, 4, 6, 9, 1000]), act=a))
            if rules[-1]['count'] == 1000: rules[-1].update({'from': r.choice([0, r.randrange(last + 1)]), 'until': r.randrange(1, last + 20000)})
        life = dict(simrun.sched(r), workers=r.choice([1, 2]), ops=out, files=dict(now), settle=r.choice([200, 2000]), net=dict(rules=rules), limit=3600, gap=r.choice([0, 60 * SEC, 3 * 86400 * SEC]) if L else 0)
        if life.get('stall'): life['stall'][1] = min(life['stall'][1], 50 * MS)
        x = r.random()
        if x < .12 and L + 1 < 3: life['kill'] = r.randrange(1, last + 2)
        elif x < .2: life['faults'] = cachesim.disk_faults(r, r.choice([1, 2]), ('/cache/', ''))
        lives.append(life)
    return dict(config=cfg, c=c, misses=misses, sources=srcs, files={}, sentry={}, gcs={s['bucket']: ['mail0@example.org'] for s in srcs if s['type'] == 'gcs'}, norange=[], lives=lives)

def paths(text):
    out = set()
    for line in text.split('\n'):
        line = line.rstrip('\r')
        x = line.split('"')
        if len(x) < 2 or '\\' not in x[1]: continue
        n, i = x[1].split('\\', 1); out.add('%s/%s/%s' % (n, i, n))
    return out

def judge_D08(scn, res):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    M = scn['misses'] * SEC; errs = []                               # wall times of failed requests for segments, over all lives
    disk = False; jumps = False
    for L, (l, x) in enumerate(zip(scn['lives'], res)):
        ev = x['ev']; ops = {o['id']: o for o in l['ops']}; disk = disk or bool(l['faults']); jumps = jumps or any(o['op'] == 'wall' for o in l['ops'])
        start = next((e['t'] for e in ev if e['e'] == 'start'), 0)
        # history of every file: [(time, text)]
        texts = {k: v['text'] for k, v in l['files'].items()}
        hist = {k: [(-1, v)] for k, v in texts.items()}
        for e in ev:
            if e['e'] == 'res' and e['r'] in ops and ops[e['r']]['op'] == 'put': o = ops[e['r']]; hist.setdefault(o['key'], []).append((e['t'], o['val']['text']))
        R = {}
        for e in ev:
            if e['e'] == 'req' and e['r'] in ops and ops[e['r']]['op'] == 'index': R[e['r']] = [e['t'], None, None, e['w']]
            elif e['e'] == 'res' and e['r'] in R: R[e['r']][1:3] = [e['t'], e]
        for i, s in enumerate(scn['sources']):
            def mine(url, e=None):
                u = unquote(url)
                return {'http': s.get('url', '\0') in u, 'gcs': '/b/%s/o/' % s.get('bucket') in u and s['type'] == 'gcs', 's3': s['type'] == 's3' and '/%s/' % s.get('bucket') in u and u.startswith('https://s3.sim/')}[s['type']]
            tokens = s['type'] == 'gcs'
            net = contacts(ev, lambda m, u: mine(u))
            conn = failed_connects(ev, lambda m, u: mine(u) or (tokens and 'oauth2' in u))
            def clean(f): return f['fin'] and not f['e']['reset'] and f['e']['st'] in (200, 206) and not f['e']['act']
            lastid = [f for f in net if 'lastid.txt' in f['e']['url']]; segs = [f for f in net if 'lastid.txt' not in f['e']['url']]
            badlast = [f for f in lastid if not clean(f)]; badseg = [f for f in segs if not clean(f)]
            if tokens: badlast += [f for f in contacts(ev, lambda m, u: 'oauth2' in u) if not clean(f)]
            def key(o): return (i, None if s['is_public'] else o.get('scope'))
            ks = {}
            for k, (t0, t1, e, w) in R.items():
                if ops[k]['src'] == i: ks.setdefault(key(ops[k]), []).append(k)
            multi = len(ks) > 1
            # who asks when is not visible in a request if several scopes use the source
            wall0 = next((e['w'] - e['t'] for e in ev if e['e'] == 'start'), 0)
            for f in badseg: errs.append((i, f['t'] + wall0))
            for f in conn: errs.append((i, f['t'] + wall0))
            for f in badlast: errs.append((i, f['t'] + wall0)) if tokens else None
            n_of = lambda k: hist.get(downsim.store_key(s, k), [])
            def union(n, lo, hi):
                """The possible indexes up to segment n, as published between these times; None if a segment is missing."""
                out = set()
                for j in range(1, n + 1):
                    h = [v for t, v in n_of(seg(j)) if t <= hi]
                    if not h: return None
                    out |= paths(h[-1])
                return out
            lh = n_of(LAST)
            for K, lst in ks.items():
                gotany = False
                for k in sorted(lst, key=lambda k: R[k][0]):
                    t0, t1, e, w = R[k]; tag = 'life %d, op %d at %.1f s, source %d' % (L, k, (t0 - start) / SEC, i)
                    if e is None or e.get('aband'): continue
                    if e.get('panic') is not None: bad.append(('D08', 'panic', '%s: panicked' % tag)); continue
                    I = e.get('index')
                    if I is None: bad.append(('D08', 'no-index', '%s: the source is treated as one without an index' % tag)); continue
                    got = set(I); p('lookups')
                    served = {int(v.strip()) for t, v in lh if t <= t1}
                    cand = {n: union(n, None, t1) for n in served}
                    fit = [n for n, u in cand.items() if u is not None and u == got]
                    if got: p('indexes with entries')
                    if not fit and got:
                        miss = max((u for u in cand.values() if u is not None), key=lambda u: (len(u & got), -len(u)), default=set())
                        bad.append(('D08', 'partial', '%s: the index has %d entries that are no index the server ever had; missing %s, foreign %s' % (tag, len(got), sorted(miss - got)[:3], sorted(got - miss)[:3]))); continue
                    if jumps or disk: continue
                    # how current it is
                    day = 86400 * SEC
                    trouble_last = [f for f in badlast if t0 - day - 60 * SEC <= f['t'] <= t1] + [c for c in conn if t0 - day - 60 * SEC <= c['t'] <= t1]
                    since = [(t, int(v.strip())) for t, v in lh if t <= t0 - day - 60 * SEC]
                    least = since[-1][1] if since and t0 - start > 0 else None
                    # the values the server had in the last day
                    recent = {int(v.strip()) for t, v in lh if t0 - day - 60 * SEC <= t <= t1} | ({least} if least is not None else set())
                    if not got and not fit or (not got and any(u for n, u in cand.items() if n in recent)):
                        ev_last = [f for f in badlast if t0 - 600 * SEC - 61 * SEC * 4 <= f['t'] <= t1 + EPS] + [c for c in conn if t0 - 600 * SEC - 244 * SEC <= c['t'] <= t1 + EPS]
                        ev_seg = [a for a in errs if a[0] == i and w - 2 * M - 600 * SEC <= a[1] <= w + (t1 - t0) + EPS]
                        unpub = [n for n in served if cand[n] is None or any(t > t0 - 2 * M - 600 * SEC for j in range(1, n + 1) for t, _ in n_of(seg(j))[:1])]
                        empty_ok = [n for n in (served if trouble_last else recent) if cand.get(n) == set()]       # a refresh that fails keeps the old id for another day
                        if not ev_last and not ev_seg and not unpub and not empty_ok: bad.append(('D08', 'empty', '%s: the index is empty although the server lists %s and nothing failed in the last %d s' % (tag, sorted(next(u for u in cand.values() if u))[:2], 2 * scn['misses'] + 600)))
                        elif not trouble_last and gotany and not ev_seg and not unpub and not empty_ok and multi is False: bad.append(('D08', 'lost', '%s: the index is empty although it was known before' % tag))
                        else: p('empty after failures')
                        continue
                    if got: gotany = True
                    if not trouble_last and fit and least is not None and not (set(fit) & recent): bad.append(('D08', 'outdated', '%s: the index is the one up to segment %s; the server has had %s for more than a day' % (tag, fit, least)))
                    elif least is not None and not trouble_last: p('checked for age')
            if not multi and ks and not any(o.get('abandon') is not None for o in l['ops']):
                # the last id is not fetched again before its time
                ok = sorted([f for f in lastid if f['fin'] and f['e']['st'] in (200, 206) and not f['e']['act'] and 'bytes=0-' in str(f['e']['h']) or s['type'] == 's3' and clean(f)], key=lambda f: f['t'])
                for a, b in zip(ok, ok[1:]):
                    if a['end'] + EPS < b['t'] < a['end'] + 86400 * SEC - 70 * SEC and not [f for f in badlast if a['t'] - 60 * SEC <= f['t'] <= b['t']] and not conn and not disk: bad.append(('D08', 'refetched', 'life %d, source %d: the last id is fetched again after %.1f s' % (L, i, (b['t'] - a['end']) / SEC)))
    return bad, probes

# ---------------------------------------------------------------- runs
GEN = dict(D06=gen_D06, D07=gen_D07, D08=gen_D08)
JUDGE = dict(D06=judge_D06, D07=judge_D07, D08=judge_D08)
def make(prop, seed, root):
    r = random.Random('%s/%d' % (prop, seed))
    return dict(GEN[prop](r, prop), seed=seed, prop=prop)

def execute(scn, root):
    res = simrun.run_lives('svc', scn, root, lambda root: os.makedirs(root + '/dl', exist_ok=True))
    bad, discard = simrun.general(res)
    probes = {}
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        js, probes = JUDGE[scn['prop']](scn, res)
        bad += [(c, m) for q, c, m in js if q == scn['prop']]
    sample = dict(seed=scn['seed'], ops=sum(len(l['ops']) for l in scn['lives']), sources=len(scn['sources']), rules=sum(len(l['net']['rules']) for l in scn['lives']))
    return simrun.summary(scn, res, bad, discard, sample, not probes, probes)

def shrink_steps(scn):
    return [['lives', i, k] for i in range(len(scn['lives'])) for k in ('ops', 'faults')] + [['lives', i, 'net', 'rules'] for i in range(len(scn['lives']))]
simplify = downsim.simplify

RULE_TEXT = ('Each run generates sources, what their servers hold and how it changes over (simulated) minutes to days, failures, delays and cut answers of the servers, and requests with their timing, abandonments, clock jumps, disk faults, '
             'restarts and kills; distinct when the hash of the whole trace (schedule, file operations, faults) is new; trivial when no answer was judged.')
REAL, STUB, ASSUME = downsim.REAL + ['symbolicator-service: Sentry search cache, token cache, symbol server indexes'], downsim.STUB, downsim.ASSUME[:2] + ['the token server has a correct clock']
