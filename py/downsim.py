"""Downloads against scripted servers (D01-D05, D07) and what is remembered about them. A download is an operation with a script:
what the server does to each request of each attempt. The model predicts which results the attempts can have, how many there are
and how long they take."""
import json, os, random, re, urllib.parse
from urllib.parse import unquote
import simrun, cachesim
from simrun import SEC

MS = 10**6
GB = 1 << 30
SLACK = 1.5

# ---------------------------------------------------------------- sources
def sources(r, prop):
    out = []
    for k, t in enumerate(['http', 'http', 'gcs', 's3', 'sentry', 'filesystem']):
        s = dict(type=t, id='src%d' % k, layout=dict(type='native', casing='default'))
        if t == 'http': s['url'] = r.choice(['https://syms%d.example.org/', 'http://syms%d.example.org/pub/', 'https://syms%d.example.org:8443/a/']) % k
        elif t == 'gcs': s.update(bucket='bucket0', prefix=r.choice(['', 'pre']), private_key='k', client_email='mail0@example.org')
        elif t == 's3': s.update(bucket='s3bucket', prefix=r.choice(['', 'pre']), region='us-east-1', access_key='ak', secret_key='sk')
        elif t == 'sentry': s.update(url='https://sentry.example.org/api/0/projects/o/p/files/dsyms/', token='tok'); s.pop('layout')
        elif t == 'filesystem': s['path'] = '@ROOT/fs'
        out.append(s)
    return out

def store_key(s, loc):
    """Where the file at this location is, and how it is asked for by operation k."""
    if s['type'] == 'http':
        m = re.match(r'https?://([^/]*)(/.*)$', s['url']); h = m.group(1)
        if h.endswith(':443'): h = h[:-4]
        return '%s%s%s' % (h, m.group(2), loc)
    if s['type'] == 'gcs': return 'gcs/%s/%s' % (s['bucket'], '/'.join(x for x in (s['prefix'], loc) if x))
    if s['type'] == 's3': return 's3/%s/%s' % (s['bucket'], '/'.join(x for x in (s['prefix'], loc) if x))
    if s['type'] == 'sentry': return 'sentry/' + loc
    return '%s/%s' % (s['path'], loc)
def op_loc(s, k, loc):
    return 'op%d~%s' % (k, loc) if s['type'] == 'sentry' else 'op%d~/%s' % (k, loc) if s['type'] != 'filesystem' else loc

SIZES = [0, 1, 100, 2000, 4095, 4096, 4097, 6000, 8191, 8192, 8193, 8194, 12288, 12289, 16385, 20000, 24576, 33000, 70000]
def value(r, size=None):
    n = r.choice(SIZES) if size is None else size
    return dict(noise=[r.randrange(10**9), n])
def magic(v):
    """Whether the content starts like a compressed file."""
    import struct
    x = ((v['noise'][0] * 0x2545F4914F6CDD1D) ^ 0x1234) & (2**64 - 1)
    x = (x + 0x9E3779B97F4A7C15) & (2**64 - 1); z = x
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1); z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1); z ^= z >> 31
    b = struct.pack('<Q', z)
    return b[:2] in (b'\x1f\x8b', b'\x78\x01', b'\x78\x5e', b'\x78\x9c', b'\x78\xda', b'\x50\x4b', b'\x4d\x53') or b[:4] == b'\x28\xb5\x2f\xfd'
def plain(r, size=None):
    while True:
        v = value(r, size)
        if not magic(v): return v

# ---------------------------------------------------------------- what a server does
def body_act(r, n, ranged, prop):
    """Ways to deliver n bytes."""
    a = {}
    x = r.random()
    if n and x < .5:
        a['chunk'] = r.choice([1 if n < 300 else 700, 100 if n < 3000 else 1000, 4096, 1 << 20])
        if r.random() < .6: a['chunk_delay'] = r.choice([1, 3, 20] if prop != 'D03' else [1, 20, 200, 900])
    if n and x > .82:
        a['cut'] = r.choice([0, 1, n // 2, n - 1]); a['end'] = r.choice(['reset', 'reset', 'ok', 'stall'] if prop != 'D01' else ['reset', 'reset', 'ok'])
        a['cut'] = min(a['cut'], n - 1)
    return a

def status(r, prop):
    return r.choice([404, 404, 410, 401, 403, 500, 502, 503, 504, 429, 302, 304, 400])

def head_act(r, cfg, prop):
    x = r.random(); h = cfg['head']
    if x < .5: return dict(head=r.choice([1, 5, 40, 300]))
    if x < .65: return dict(head=int(h * r.choice([.3, .5]) * 1000))
    if x < .8: return dict(head=r.choice([-1, int(h * 1000) + 3000]))
    return dict(reset=True, head=r.choice([0, 50]))

def conn_act(r, cfg):
    x = r.random()
    if x < .35: return dict(connect='refused', connect_delay=r.choice([0, 10]))
    if x < .55: return dict(connect='dns', connect_delay=r.choice([0, 30]))
    if x < .75: return dict(connect='hang')
    if x < .9: return dict(connect='ok', connect_delay=int(cfg['connect'] * r.choice([.2, .5]) * 1000))
    return dict(connect='hang')

def script(r, s, n, cfg, prop, calm):
    """The script of one attempt. n: size of what is served."""
    sc = {}
    http = s['type'] in ('http', 'gcs', 'sentry')
    def stage(part):
        a = {}
        x = r.random()
        if x < calm: return body_act(r, n, True, prop) if r.random() < .7 else {}
        if x < calm + (1 - calm) * .25:
            st = status(r, prop); a = dict(status=st)
            if s['type'] == 's3': a['code'] = {404: r.choice(['NoSuchKey', 'NoSuchBucket', 'NotFound']), 403: 'AccessDenied', 400: r.choice(['AuthorizationHeaderMalformed', 'InvalidArgument']), 503: 'SlowDown'}.get(st, 'InternalError')
            if s['type'] == 's3' and r.random() < .1: a = dict(status=599)
            return a
        if x < calm + (1 - calm) * .45: return dict(head_act(r, cfg, prop), **(body_act(r, n, True, prop) if r.random() < .5 else {}))
        if http and x < calm + (1 - calm) * .8:
            m = r.choice(['ignore', 'short:%d' % r.choice([1, 10, 4000]), 'shift:%d' % r.choice([1, 100, 5000]), 'othertotal:%d' % r.choice([1, 500, 5000]), 'nototal', 'bad', 'none', '416'])
            a = dict(range=m)
            if r.random() < .3: a.update(body_act(r, n, True, prop))
            if r.random() < .15: a['nolen'] = True
            return a
        a = body_act(r, n, True, prop)
        if http and r.random() < .3: a['nolen'] = True
        return a
    if r.random() < (1 - calm) * .3: sc['conn'] = conn_act(r, cfg)
    if r.random() < .85: sc['init'] = stage(False)
    if http:
        if r.random() < .7: sc['part'] = [stage(True) if r.random() < .5 else {} for _ in range(4)]
        if r.random() < .5: sc['fb'] = {k: v for k, v in stage(False).items() if k != 'range'}
        if (sc['fb'] if 'fb' in sc else {}).get('nolen') and 'cut' in sc['fb']: sc['fb']['end'] = 'reset'
        if r.random() < .15 and 'fb' in sc and not sc['fb'].get('status'): sc['fb']['gz'] = True; sc['fb'].pop('cut', None); sc['fb'].pop('nolen', None)
    a = sc.get('init', {})
    if a.get('nolen') and a.get('end') == 'ok': a['end'] = 'reset'          # cannot be told from the whole file if ranges are not used
    if http and n and r.random() < .12:
        # the file is somewhere else
        st = r.choice([301, 302, 307, 308, 303]); 
        sc['init'] = dict(status=st, headers=[['location', '@HOP']], head=a.get('head', 0))
        sc.pop('conn', None)
        sc['part'] = [dict(status=st, headers=[['location', '@HOP']]) for _ in range(4)]; sc['fb'] = dict(status=st, headers=[['location', '@HOP']])
        h = r.random()
        sc['hop'] = {} if h < .6 else dict(status=r.choice([404, 403, 500])) if h < .8 else dict(reset=True)
    return sc

# ---------------------------------------------------------------- the model
FINAL = ('ok', 'notfound', 'noperm')
def status_class(s, a):
    st = a['status']
    if s and s['type'] == 's3':
        c = a.get('code')
        if st == 599: return {'timeout'}
        if st in (401, 403) or c == 'AuthorizationHeaderMalformed': return {'noperm'}
        if c in ('NoSuchKey', 'NoSuchBucket', 'NotFound'): return {'notfound'}
        return {'derr'}
    if st in (401, 403): return {'noperm'}
    if st in (404, 410): return {'notfound'}
    if 400 <= st < 500: return {'notfound', 'derr'}
    if st == 302: return {'noperm'}
    return {'derr'}

class Model:
    def __init__(self, cfg): self.c = cfg; self.ct0 = max(10.0, 0)
    def ct(self, n): return max(10.0, self.c['streaming'] * n / GB)
    def head(self, a, pre=0.0):
        """-> (classes or None, time)"""
        h = a.get('head', 0); H = self.c['head']
        if h < 0 or pre + h / 1000 > H: return {'timeout'}, H
        if a.get('reset'): return {'derr'}, pre + h / 1000
        return None, pre + h / 1000
    def body(self, a, n, limit):
        """-> (classes, lo, hi) of receiving n bytes under a limit; limit None: no limit but that of the whole download"""
        m = min(a.get('cut', n), n)
        d = a.get('chunk_delay', 0) / 1000
        k = -(-m // a['chunk']) if a.get('chunk') else 0
        t = k * d if m else 0
        lim = 10**9 if limit is None else limit
        hi = t + .003 * k
        if lim and abs(t - lim) < SLACK / 2 and t > 5: return {'timeout', 'ok' if m == n else 'derr'}, min(t, lim), lim + .1
        if t > lim: return {'timeout'}, lim, lim
        if m < n:
            if a.get('end') == 'stall': return {'timeout'}, lim, lim
            return {'derr'}, t, hi
        return {'ok'}, t, hi
    def part(self, p, lo_n, hi_n, lim, hop=None):
        x, t = self.head(p)
        if x: return x, t, t
        if p.get('headers'):
            p = hop or {}
            x, t = self.head(p, t)
            if x: return x, t, t
        if p.get('status'): return status_class(None, p), t, t
        pm = (p.get('range') or 'std')
        if pm.endswith(':0'): pm = 'std'
        if pm != 'std' and lo_n > 1: return {'derr'}, t, t            # not what was asked for
        x, y = self.body(p, lo_n, lim), self.body(p, hi_n, lim)
        return x[0] | y[0] | ({'derr'} if pm != 'std' else set()), t + min(x[1], y[1]), t + max(x[2], y[2])
    def attempt(self, s, n, sc, present, norange):
        """-> (classes, lo, hi)"""
        http = s['type'] in ('http', 'gcs', 'sentry'); c = sc.get('conn') or {}
        if s['type'] == 'filesystem': return ({'ok'} if present else {'notfound'}), 0, 0
        if c.get('connect') in ('refused', 'dns'): t = c.get('connect_delay', 0) / 1000 if http else 0; return {'derr'}, t, t
        if c.get('connect') == 'hang':
            if http: return {'derr'}, self.c['connect'], self.c['connect']
            return {'timeout'}, self.c['head'], self.c['head']
        a = sc.get('init') or {}
        x, t = self.head(a, c.get('connect_delay', 0) / 1000)
        if x: return x, t, t
        if a.get('status') and any(h[0] == 'location' for h in a.get('headers', [])):
            a = dict(sc.get('hop') or {}); norange = False
            x, t = self.head(a, t)
            if x: return x, t, t
        if a.get('status'): return status_class(s, a), t, t
        if not present: return {'notfound'}, t, t
        if s['type'] == 's3':
            if n == 0: return {'notfound'}, t, t
            x, lo, hi = self.body(a, n, self.ct(n)); return x, t + lo, t + hi
        mode, num = (a.get('range') or ('ignore' if norange else 'std')), 0
        if ':' in mode: mode, num = mode.split(':'); num = int(num)
        if n == 0 and mode not in ('ignore', 'zero'): mode = '416'
        if mode == 'zero': return {'ok'}, t, t
        if mode == 'ignore':
            x, lo, hi = self.body(a, n, None if a.get('nolen') else self.ct(n)); return x, t + lo, t + hi
        if mode == 'shift' and n == 1: mode = 'std'
        if mode in ('416', 'nototal', 'bad', 'none', 'shift'):
            f = sc.get('fb') or {}
            x, t2 = self.head(f); t += t2
            if x: return x, t, t
            if f.get('headers'): f = sc.get('hop') or {}
            if f.get('status'): return status_class(s, f), t, t
            x, lo, hi = self.body(f, n, None if f.get('nolen') or f.get('gz') else self.ct(n)); return x, t + lo, t + hi
        b2 = min(4095, n - 1)
        if mode == 'short': b2 = max(b2 - num, 0)
        total = n + (num if mode == 'othertotal' else 0)
        lim = self.ct(total)
        res = [self.body(a, b2 + 1, lim)]
        rest = total - 1 - b2
        k = 0 if rest <= 0 else min(4, -(-rest // 4096))
        if k:
            rs = rest // k; last = rest - (k - 1) * rs
            lo_n, hi_n = (rest, rest) if k == 1 else (min(rs + 1, last), max(rs + 1, last))
            sp = sc.get('part') or []; sp = [dict({'range': 'ignore'}, **p) if norange and not p.get('headers') else p for p in (sp + [{}] * k)[:k]]
            if mode == 'othertotal': res += [({'derr'}, 0, 0) if not p.get('head') and not p.get('reset') and not p.get('status') and not p.get('range') else (self.part(dict(p, range='bad'), 1, 1, lim)) for p in sp]
            else: res += [self.part(p, lo_n, hi_n, lim, sc.get('hop')) for p in sp]
        if all(x == {'ok'} for x, _, _ in res):
            return {'ok'}, t + max(l for _, l, _ in res), t + max(h for _, _, h in res)
        sure = [h for x, _, h in res if 'ok' not in x]
        end = min(sure) if sure else max(h for _, _, h in res)
        cl = set()
        for x, l, h in res:
            if l <= end + SLACK / 2: cl |= x - {'ok'}
        if not sure: cl.add('ok')
        return cl, t + min(l for x, l, _ in res if x != {'ok'}), t + end
    def outcomes(self, s, n, scripts, present, norange):
        """-> ({(class, attempts)}, lo, hi) of a whole download"""
        M = self.c['max']
        out = set(); hi_end = 0; lo_end = 10**9
        lo = hi = 0.0; alive = True
        for k in range(3):
            sc = scripts[min(k, len(scripts) - 1)] if scripts else {}
            cl, l, h = self.attempt(s, n, sc, present, norange)
            lo += l; hi += h
            if hi > M - SLACK: out.add(('timeout', k + 1)); out.add(('derr', k + 1)); hi_end = M
            if lo > M + SLACK: lo_end = min(lo_end, M); alive = False; break
            for c in cl:
                if c in FINAL or k == 2: out.add((c, k + 1)); lo_end = min(lo_end, lo); hi_end = max(hi_end, min(hi, M))
            if cl <= set(FINAL): alive = False; break
            lo += .02; hi += .02
        return out, min(lo_end, M), min(hi_end, M)

CLASS = {'NotFound': 'notfound', 'PermissionDenied': 'noperm', 'DownloadError': 'derr', 'Timeout': 'timeout', 'InternalError': 'internal', 'Malformed': 'malformed', 'Unsupported': 'unsupported'}

# ---------------------------------------------------------------- scenarios
def timeouts(r, prop):
    connect = r.choice([1, 2]); head = connect + r.choice([4, 10]); stream = 250
    mx = r.choice([300, 300, 120, 40] + ([15, 25] if prop == 'D03' else []))
    return dict(connect=connect, head=head, streaming=stream, max=mx)
def conf(r, c, prop):
    cfg = cachesim.config(r, {k: (24 * 3600000, 48 * 3600000, 24 * 3600000, 96 * 3600000) for k in ('downloaded', 'derived', 'index')}, cache_dir=True, shared=None)
    cfg.update(connect_timeout='%dms' % (c['connect'] * 1000), head_timeout='%dms' % (c['head'] * 1000), max_download_timeout='%dms' % (c['max'] * 1000), streaming_timeout='%ds' % c['streaming'], deny_list_enabled=False)
    return cfg

def gen_dl(r, prop):
    c = timeouts(r, prop); srcs = sources(r, prop); files = {}; fs = {}; ops = []; scripts = {}
    norange = []
    h1 = re.match(r'https?://([^/:]*)', srcs[1]['url']).group(1)
    norange.append(h1)
    if r.random() < .1: norange.append('sentry')
    n = r.choice([1, 1, 2, 3, 5])
    calm = r.choice([.95, .7, .4, .1])
    for k in range(n):
        src = r.choices(range(6), [5, 2, 3, 3, 3, 1])[0]; s = srcs[src]
        loc = 'f%d' % k if s['type'] == 'sentry' else r.choice(['f%d', 'a b/f%d', 'x/y/f%d.pdb', 'd%%41/f%d']) % k
        if s['type'] == 'filesystem': loc = 'f%d' % k
        v = plain(r); present = r.random() < .93
        fetch = r.random() < .4
        if fetch and r.random() < .5: v = dict(enc=r.choice(['gzip', 'zlib', 'zstd']), of=plain(r))
        key = store_key(s, loc)
        if present: (fs if s['type'] == 'filesystem' else files)[key] = v
        o = dict(id=k, op='dl', src=src, loc=op_loc(s, k, loc), at=r.choice([0, 0, 5, 500]), key0=key, present=present)
        if fetch: o['how'] = 'fetch'
        if prop == 'D03' and r.random() < .25: o['abandon'] = r.choice([0, 3, 30, 1000, 8000])
        size = size_of(v)
        if s['type'] != 'filesystem' and size is not None:
            l = [script(r, s, size, c, prop, calm) for _ in range(r.choice([1, 1, 2, 3]))]
            if r.random() < .3 and len(l) > 1: l[-1] = {}
            # while attempts fail, the server holds another file
            if present and len(l) > 1 and r.random() < .25:
                alt = key + '.old'; files[alt] = plain(r); m = size_of(files[alt])
                for a in (l[0].setdefault('init', {}), *l[0].get('part', []), l[0].setdefault('fb', {})): a['alt'] = alt
                if not l[0].get('part'): l[0]['part'] = [dict(alt=alt) for _ in range(4)]
                else: l[0]['part'] += [dict(alt=alt) for _ in range(4 - len(l[0]['part']))]
                l[0].pop('hop', None)
                if l[0]['init'].get('headers'): l[0].update(init=dict(alt=alt), fb=dict(alt=alt), part=[dict(alt=alt) for _ in range(4)])
                for a in [l[0]['init'], l[0]['fb']] + l[0]['part']:
                    if a.get('chunk') == 1 and m > 300: a['chunk'] = 100
                    if a.get('cut', 0) and a['cut'] >= max(m, 1): a['cut'] = max(0, m - 1)
                o['alt'] = alt
            loc0 = {'http': s.get('url', '') + o['loc']}.get(s['type'])
            for sc in l:
                for st in [sc.get('init') or {}, sc.get('fb') or {}] + sc.get('part', []):
                    for h in st.get('headers', []):
                        if h[1] == '@HOP': h[1] = hop_url(s, key, k)
            scripts[str(k)] = l
        ops.append(o)
    life = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=ops, scripts=scripts, settle=r.choice([200, 5000]), net=dict(rules=[]), limit=3600)
    if life.get('stall'): life['stall'][1] = min(life['stall'][1], 50 * MS)
    scn = dict(config=conf(r, c, prop), c=c, sources=srcs, files=files, fs=fs, sentry={srcs[4]['url']: {'tok': [dict(id=k.split('/', 1)[1], symbolType='elf', debugId='', codeId='') for k in files if k.startswith('sentry/') and not k.endswith('.old')]}},
               gcs={'bucket0': ['mail0@example.org']}, norange=norange, dldir='@ROOT/dl', contents=True, lives=[life])
    if prop == 'D01' and r.random() < .45:
        f = []
        for _ in range(r.choice([1, 1, 2, 3])):
            op = r.choice(['write', 'write', 'write', 'truncate', 'any', 'open', 'mut', 'close', 'fsync'])
            kind = r.choice(['err', 'err', 'short', 'delay', 'delay', 'delay'])
            arg = dict(err=r.choice([5, 28, 122]), short=r.choice([1, 10, 1000]), delay=r.choice([20 * MS, 200 * MS, 3 * SEC]))[kind]
            if kind == 'short': op = 'write'
            if op == 'close': kind, arg = 'delay', 200 * MS
            f.append([op, r.randrange(0, 14), r.choice([1, 1, 1, 2, 100]), kind, arg, '/dl/'])
        life['faults'] = f
        if any(x[3] == 'err' for x in f): scn['diskerr'] = True
        scn['diskslow'] = True
    return scn

def gen_cached(r, prop):
    """Downloads into the cache, onto a slow disk, which fail at points where writes are under way. A second life asks again."""
    c = timeouts(r, 'D03'); c['max'] = r.choice([15, 20, 40])
    url = 'https://sentry.example.org/api/0/projects/o/p/files/dsyms/'; tab = []; files = {}; ops = []; scripts = {}
    for k in range(r.choice([1, 1, 2])):
        did = '%08x%08x%08x%08x' % tuple(r.randrange(1 << 32) for _ in range(4)); did = '%s-%s-%s-%s-%s' % (did[:8], did[8:12], did[12:16], did[16:20], did[20:])
        fid = 'op%d~x%d' % (k, k); tab.append(dict(id=fid, symbolType='elf', debugId=did, codeId=None))
        n = r.choice([12289, 20000, 24576, 33000, 70000]); files['sentry/x%d' % k] = plain(r, n)
        def late(): return r.choice([dict(status=404), dict(status=500), dict(reset=True), dict(cut=r.choice([0, 100, 3000]), end=r.choice(['reset', 'stall'])), dict(chunk=1000, chunk_delay=r.choice([1, 500, 3000])), dict(range='416'), {}, {}, {}, dict(head=-1)])
        l = []
        for _ in range(r.choice([1, 2, 3])):
            sc = dict(init=dict(r.choice([dict(chunk=1000, chunk_delay=1), {}, dict(range='ignore', chunk=1000, chunk_delay=r.choice([1, 500, 2000])), dict(status=404), dict(chunk=700, chunk_delay=3000)]), head=r.choice([0, 100])), part=[dict(dict(head=r.choice([0, 0, 5, 100])), **late()) for _ in range(4)])
            l.append(sc)
        scripts[str(k)] = l
        ops.append(dict(id=k, op='find', oid=dict(type='elf', debug_id=did), srcs=[0], purpose='debug', scope=None, auto='object', at=r.choice([0, 0, 5])))
    lives = []
    for n in range(2):
        life = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=json.loads(json.dumps(ops)), scripts=scripts if n == 0 else {str(k): [dict(init=dict(status=403))] for k in range(len(ops))}, settle=r.choice([200, 60000, 60000]), net=dict(rules=[]), limit=3600)
        if life.get('stall'): life['stall'][1] = min(life['stall'][1], 50 * MS)
        if n == 0: life['faults'] = [[r.choice(['write', 'write', 'write', 'any', 'truncate']), r.randrange(0, 30), r.choice([1, 1, 2, 3, 100]), 'delay', r.choice([3 * SEC, 20 * MS, 200 * MS, 9 * SEC, 30 * SEC]), '/cache/'] for _ in range(r.choice([1, 1, 2, 3]))]
        else: life['faults'] = []
        lives.append(life)
    cfg = conf(r, c, prop); cfg['caches']['downloaded'] = cfg['caches'].get('downloaded', {})
    return dict(config=cfg, c=c, sources=[dict(type='sentry', id='src0', url=url, token='tok')], files=files, fs={}, sentry={url: {'tok': tab}}, gcs={}, norange=[], dldir='@ROOT/dl', contents=True, cached=True, diskslow=True, lives=lives)

def gen_deny(r, prop):
    c = dict(connect=1, head=r.choice([2, 5]), streaming=250, max=r.choice([20, 60]))
    cfg = conf(r, c, prop)
    window = r.choice([5, 10, 30, 60, 60, 120]); bucket = r.choice([1, 1, 5, 5, 7, 20, 60]); thr = r.choice([1, 2, 2, 3, 3, 5, 8]); block = r.choice([10, 30, 60, 300, 3600, 86400])
    cfg.update(deny_list_enabled=r.random() < .93, deny_list_time_window='%dms' % (window * 1000), deny_list_bucket_size='%dms' % (bucket * 1000), deny_list_threshold=thr, deny_list_block_time='%dms' % (block * 1000), deny_list_never_block_hosts=['calm.example.org'])
    deny = dict(on=cfg['deny_list_enabled'], window=window, bucket=bucket, thr=thr, block=block)
    lay = dict(type='native', casing='default')
    srcs = [dict(type='http', id='src0', url='https://one.example.org/', layout=lay), dict(type='http', id='src1', url='http://one.example.org:8080/x/', layout=lay), dict(type='http', id='src2', url='https://two.example.org/', layout=lay),
            dict(type='http', id='sentry:builtin', url='https://three.example.org/', layout=lay), dict(type='http', id='src4', url='https://calm.example.org/', layout=lay),
            dict(type='gcs', id='src5', bucket='one.example.org', prefix='', private_key='k', client_email='mail0@example.org', layout=lay), dict(type='s3', id='src6', bucket='two.example.org', prefix='', region='us-east-1', access_key='a', secret_key='s', layout=lay)]
    if r.random() < .3:                                              # hosts may be given by their address
        for n, ip in zip(('one', 'two', 'three'), r.sample(['93.184.216.34', '93.184.216.35', '8.8.4.4', '1.0.0.1'], 3)):
            if r.random() < .8:
                for s in srcs:
                    if 'url' in s: s['url'] = s['url'].replace(n + '.example.org', ip)
    ops = []; scripts = {}; files = {}; t = 0
    mood = {}
    for k in range(r.choice([6, 15, 30, 60])):
        x = r.random()
        t += int(1000 * (0 if x < .3 else r.random() * window / thr if x < .7 else r.random() * 2 * window if x < .85 else r.random() * bucket if x < .9 else block + r.choice([-2, 2, 3, 10]) if x < .97 else block * r.random()))
        src = r.choices(range(7), [6, 3, 4, 2, 2, 1, 1])[0]; s = srcs[src]
        m = mood.setdefault(s['url'].split('/')[2].split(':')[0] if 'url' in s else s['bucket'], [0.7])
        if r.random() < .2: m[0] = r.choice([.05, .5, .95])
        sc = {}
        if r.random() < m[0]:
            sc = r.choice([dict(init=dict(status=500)), dict(conn=dict(connect='refused')), dict(init=dict(head=-1)), dict(init=dict(reset=True)), dict(conn=dict(connect='dns')), dict(init=dict(cut=10, end='reset')), dict(init=dict(status=503))])
            if r.random() < .12: sc = [sc, {}]            # not a failure in the end
        elif r.random() < .4: sc = dict(init=dict(status=r.choice([404, 403])))
        if s['type'] == 's3' and 'init' in (sc if isinstance(sc, dict) else {}) and sc['init'].get('status') in (403, 404): sc = {}
        loc = 'f%d' % k
        files[store_key(s, loc)] = plain(r, 100)
        ops.append(dict(id=k, op='dl', src=src, loc=op_loc(s, k, loc), at=t, key0=store_key(s, loc), present=True)); scripts[str(k)] = sc if isinstance(sc, list) else [sc]
    x = r.random(); n = len(ops)
    if x > .9: ops.append(dict(id=len(ops), op='wall', at=r.randrange(t + 1), ns=-1767225600 * SEC + r.randrange(2 * window) * SEC))
    else:
        for _ in range(0 if x < .6 else r.choice([1, 2, 3])): ops.append(dict(id=len(ops), op='wall', at=r.randrange(t + 1), ns=int(r.choice([-1, -1, 1]) * r.choice([1, 10, window, 3600, 86400]) * SEC)))
    life = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=ops, scripts=scripts, settle=200, net=dict(rules=[]), limit=t // 1000 + 4000)
    if life.get('stall'): life['stall'][1] = min(life['stall'][1], 20 * MS)
    return dict(config=cfg, c=c, deny=deny, sources=srcs, files=files, fs={}, sentry={}, gcs={'one.example.org': ['mail0@example.org']}, norange=[], dldir='@ROOT/dl', lives=[life])

def judge_deny(scn, res, root):
    bad = []; probes = {}; D = scn['deny']; NEAR = .7 * SEC
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    for l, x in zip(scn['lives'], res):
        ev = x['ev']; ops = {o['id']: o for o in l['ops']}; req = {}; fails = {}; host = {}
        n = attempts_of(ev); jumped = any(o['op'] == 'wall' for o in l['ops'])
        out = []
        for e in ev:
            if e['e'] == 'req': req[e['r']] = e
            if e['e'] == 'file' and e['r'] in ops and ops[e['r']]['op'] == 'dl':
                s = scn['sources'][ops[e['r']]['src']]
                if s['type'] == 'http' and not s['id'].startswith('sentry:'): host[e['r']] = urllib.parse.urlsplit(s['url']).hostname    # buckets and built-in sources are never blocked
            if e['e'] != 'res' or e['r'] not in ops or ops[e['r']]['op'] != 'dl': continue
            k = e['r']; blocked = 'err' in e and e['err'] == ['DownloadError', 'Server is temporarily blocked']
            if e.get('panic') is not None: bad.append(('D04', 'panic', 'op %d: panicked' % k)); continue
            if e.get('err') and e['err'][0] == 'InternalError': bad.append(('D04', 'panic', 'op %d: internal error' % k))
            out.append((k, req[k], e, blocked))
            if not blocked and 'err' in e and e['err'][0] in ('DownloadError', 'Timeout') and k in host: fails.setdefault(host[k], []).append((e['t'], e['w']))
            p('blocked' if blocked else 'result ' + ('ok' if 'ok' in e else e['err'][0]))
        for k, q, e, blocked in out:
            h = host.get(k); t = q['t']; f = fails.get(h, [])
            if blocked and n.get(k): bad.append(('D04', 'contact', 'op %d: rejected as blocked, but the server was contacted' % k))
            if not blocked and not n.get(k): bad.append(('D04', 'contact', 'op %d: ended as %s without contacting the server' % (k, e.get('err', 'ok'))))
            may = must = False
            if h and D['on'] and h != 'calm.example.org':
                for tb, wb in f:
                    lo = sum(1 for a, w in f if a <= tb and a >= tb - (D['window'] - D['bucket']) * SEC + NEAR)
                    hi = sum(1 for a, w in f if a <= tb + NEAR and a >= tb - (D['window'] + D['bucket']) * SEC - NEAR)
                    if hi >= D['thr'] and tb - NEAR <= t <= tb + D['block'] * SEC + NEAR: may = True
                    if lo >= D['thr'] and tb + NEAR <= t <= tb + D['block'] * SEC - NEAR: must = True
            if blocked and not may: bad.append(('D04', 'blocked', 'op %d: %s is treated as blocked after %d failures in the last %d s (needed: %d within %d s), %d in total' % (k, h, sum(1 for a, _ in f if t - D['window'] * SEC <= a <= t), D['window'], D['thr'], D['window'], len([1 for a, _ in f if a <= t]))))
            if not blocked and must: bad.append(('D04', 'not-blocked', 'op %d: %s is contacted although it had %d failures within %d s not longer than %d s ago; threshold %d' % (k, h, len(f), D['window'], D['block'], D['thr'])))
            if must: p('had to be blocked')
            if f and not may: p('must not be blocked after failures')
            if jumped: p('with clock jumps')
    return bad, probes

import ipaddress
RESERVED = [ipaddress.ip_network(n) for n in ('0.0.0.0/8', '10.0.0.0/8', '100.64.0.0/10', '127.0.0.0/8', '169.254.0.0/16', '172.16.0.0/12', '192.0.0.0/24', '192.0.2.0/24', '192.88.99.0/24', '192.168.0.0/16', '198.18.0.0/15', '198.51.100.0/24', '203.0.113.0/24', '224.0.0.0/4', '240.0.0.0/4')]
def reserved(ip):
    a = ipaddress.ip_address(ip)
    return a.version != 4 or any(a in n for n in RESERVED)          # documented: no IPv6 unless everything is allowed
def some_ip(r, inside):
    while True:
        n = r.choice(RESERVED); f = int(n.network_address); l = int(n.broadcast_address)
        if inside and r.random() < .1: return r.choice(['::1', 'fe80::1', 'fd00::1', '::ffff:10.0.0.1', '2606:2800:220:1::1'])
        x = r.choice([f, l, r.randrange(f, l + 1)]) if inside else r.choice([f - 1, l + 1, r.randrange(1 << 24, 224 << 24)])
        if 0 <= x < 1 << 32 and reserved(str(ipaddress.ip_address(x))) == inside: return str(ipaddress.ip_address(x))
LITERALS = [('127.0.0.1', '127.0.0.1'), ('2130706433', '127.0.0.1'), ('0x7f.1', '127.0.0.1'), ('017700000001', '127.0.0.1'), ('127.1', '127.0.0.1'), ('[::1]', '[::1]'), ('[::ffff:10.0.0.1]', '[::ffff:a00:1]'), ('10.1', '10.0.0.1'), ('169.254.169.254', '169.254.169.254'), ('0', '0.0.0.0'), ('93.184.216.34', '93.184.216.34'), ('[2606:2800:220:1::1]', '[2606:2800:220:1::1]'), ('1572395042', '93.184.216.34')]

def gen_ip(r, prop):
    """Sources at all kinds of addresses, with redirects."""
    c = dict(connect=1, head=5, streaming=250, max=300); cfg = conf(r, c, prop)
    allowed = r.random() < .2; cfg['connect_to_reserved_ips'] = allowed
    hosts = {}; seq = {}; files = {}; ops = []; scripts = {}; rules = []; srcs = []; net = {}
    lay = dict(type='native', casing='default')
    def ips(): return [some_ip(r, r.random() < .5) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    def host(n):
        """A host and how it appears in URLs after parsing."""
        if r.random() < .3: return r.choice(LITERALS)
        h = r.choice(['h%s.example.org' % n, 'localhost', 'internal', 'xn--bcher-kva.example'])
        if h not in hosts and h not in seq:
            if r.random() < .15: seq[h] = [ips() for _ in range(r.choice([2, 3, 4]))]
            else: hosts[h] = ips() if r.random() < .95 else []
        return h, h
    for n in ('storage.googleapis.com', 'www.googleapis.com', 'sentry.example.org'):
        if r.random() < .3: hosts[n] = ips()
    for k in range(r.choice([1, 2, 4])):
        t = r.choices(['http', 'gcs', 's3', 'sentry'], [6, 1.5, .7, 2])[0]
        s = dict(type=t, id=r.choice(['src%d', 'sentry:x%d']) % k if t == 'http' else 'src%d' % k, layout=lay)
        if t == 'http':
            h, norm = host(k); port = r.choice(['', '', '', ':8080', ':22']); s['url'] = '%s://%s%s/' % (r.choice(['http', 'https']), h, port)
            if r.random() < .3: s['accept_invalid_certs'] = True
            if r.random() < .5: s['headers'] = {r.choice(['authorization', 'Authorization', 'cookie']): 'secret%d' % k}
            key = '%s%s/f%d' % (norm, port, k); loc = 'f%d' % k
        elif t == 'gcs': s.update(bucket='bucket%d' % k, prefix='', private_key='k', client_email='mail%d@example.org' % k); loc = 'f%d' % k; key = 'gcs/bucket%d/f%d' % (k, k)
        elif t == 's3':
            s.update(bucket='s3b%d' % k, prefix='', region='us-east-1', access_key='ak%d' % k, secret_key='sk'); loc = 'f%d' % k; key = 's3/s3b%d/f%d' % (k, k)
            if r.random() < .6:
                h, norm = host(k); s['region'] = ['custom', 'http://%s:9000' % h]; s['norm'] = norm
        else: s.update(url='https://sentry.example.org/api/0/projects/o/p/files/dsyms/', token='tok%d' % k); s.pop('layout'); loc = 'f%d' % k; key = 'sentry/f%d' % k
        srcs.append(s)
        chain = [norm if t == 'http' else {'gcs': 'storage.googleapis.com', 'sentry': 'sentry.example.org', 's3': s.get('norm')}[t]]
        if t != 's3' and r.random() < .55:
            # the file is elsewhere
            v = plain(r, r.choice([100, 3000, 9000, 20000])); l = []; n = r.choice([1, 1, 1, 2, 3, 9])
            for i in range(n):
                h, norm = host('%d-%d' % (k, i)) if r.random() < .8 or t != 'http' else (chain[0], chain[0])
                port = r.choice(['', '', ':81']); l.append(('%s://%s%s/op%d~/g%d?hop=%d.%d.' % (r.choice(['http', 'https']), h, port, k, i, k, i), '%s%s/g%d' % (norm, port, i))); chain.append(norm)
            st = lambda: r.choice([301, 302, 307, 308, 303])
            sc = dict(status=st(), headers=[['location', l[0][0]]])
            scripts[str(k)] = [dict(init=sc, part=[dict(sc) for _ in range(4)], fb=sc)]
            for i in range(n - 1): rules.append(dict(m='hop=%d.%d.' % (k, i), act=dict(status=st(), headers=[['location', l[i + 1][0]]])))
            files[l[-1][1]] = v; want = l[-1][1]
        else: files[key] = plain(r, r.choice([100, 3000, 9000, 20000])); want = key
        net[str(k)] = dict(chain=chain, want=want, secret={'http': 'secret%d' % k, 'sentry': 'tok%d' % k}.get(t))
    for k, s in enumerate(srcs):
        s.pop('norm', None)
        loc = 'f%d' % k
        o = dict(id=k, op='dl', src=k, loc=op_loc(s, k, loc), at=r.choice([0, 0, 100]), key0='', present=True)
        if r.random() < .4: o['how'] = 'fetch'
        ops.append(o)
    life = dict(simrun.sched(r), workers=r.choice([1, 2]), ops=ops, scripts=scripts, settle=200, net=dict(rules=rules, hosts=hosts, hosts_seq=seq), limit=3600)
    if life.get('stall'): life['stall'][1] = min(life['stall'][1], 20 * MS)
    tab = {}
    for k, s in enumerate(srcs):
        if s['type'] == 'sentry': tab.setdefault(s['url'], {})['tok%d' % k] = [dict(id='f%d' % k, symbolType='elf', debugId='', codeId='')]
    return dict(config=cfg, c=c, ip=dict(allowed=allowed, net=net), sources=srcs, files=files, fs={}, sentry=tab, gcs={s['bucket']: [s['client_email']] for s in srcs if s['type'] == 'gcs'}, norange=[], dldir='@ROOT/dl', contents=True, lives=[life])

def judge_ip(scn, res, root):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    allowed = scn['ip']['allowed']; l = scn['lives'][0]; hosts = l['net']['hosts']; seq = l['net']['hosts_seq']
    def addr(h, s=None):
        h = h.strip('[]')
        try: return [str(ipaddress.ip_address(h))]
        except ValueError: return hosts.get(h, ['93.184.216.34'])
    ev = res[0]['ev']; cont = next((e['m'] for e in ev if e['e'] == 'content'), {})
    secrets = {}
    for k, s in enumerate(scn['sources']):
        x = scn['ip']['net'][str(k)]
        if x['secret']: secrets[x['secret']] = (k, x['chain'][0])
    issued = {}
    for e in ev:
        if e['e'] == 'issue': bad.append(('D05', 'issue', json.dumps(e)))
        if e['e'] != 'net': continue
        url = e['url']; h = re.match(r'https?://(?:[^/@]*@)?(\[[^\]]*\]|[^/:]*)', url).group(1); ip = e.get('ip')
        op = (e.get('note') or {}).get('op'); hdr = {a.lower(): b for a, b in e['h']}
        s = scn['sources'][op] if op is not None else None
        if ip and reserved(ip):
            p('connections to reserved addresses')
            if not allowed:
                if e['proto'] == 's3': bad.append(('D05', 's3-endpoint', 'op %d: the S3 endpoint of the source, %s, is contacted at %s' % (op, dict(map(tuple, e['h'])).get('x-endpoint'), ip)))
                elif s is None or s['type'] != 'sentry': bad.append(('D05', 'reserved', 'op %s: %s is contacted at %s' % (op, url, ip)))
        elif ip: p('connections to other addresses')
        for t, (k, home) in secrets.items():
            if any(t in v for v in hdr.values()):
                if h != home: bad.append(('D05', 'credentials', 'the credentials of source %d, for %s, are sent to %s' % (k, home, url)))
                elif op is not None and op != k: bad.append(('D05', 'credentials', 'the credentials of source %d are used for source %d' % (k, op)))
                else: p('requests with credentials')
        if s is not None and e['proto'] != 's3' and e['cert'] and not s.get('accept_invalid_certs'): bad.append(('D05', 'cert', 'op %d: %s is contacted without checking certificates' % (op, url)))
        if s is not None and e['cert']: p('unchecked certificates as configured')
    for e in ev:
        if e['e'] != 'res' or e['r'] >= len(scn['sources']): continue
        k = e['r']; s = scn['sources'][k]; x = scn['ip']['net'][str(k)]; tag = 'op %d (%s)' % (k, s['type'])
        if e.get('panic') is not None: bad.append(('D05', 'panic', '%s: panicked' % tag)); continue
        c = 'ok' if 'ok' in e else CLASS[e['err'][0]]; p('result ' + c)
        chain = [h for h in x['chain'] if h] + (['www.googleapis.com'] if s['type'] == 'gcs' else [])
        if s['type'] == 's3': continue
        changing = [h for h in chain if h in seq]
        free = allowed or s['type'] == 'sentry'
        usable = all(any(free or not reserved(i) for i in addr(h)) for h in chain if h not in seq)
        never = not usable or any(not any(free or not reserved(i) for a in seq[h] for i in a) for h in changing)
        if c == 'ok':
            o = l['ops'][k]; w = cont[x['want']]; w = w[2:] if o.get('how') == 'fetch' else w[:2]
            if never: bad.append(('D05', 'fetched', '%s: downloaded although %s can only be reached at reserved addresses' % (tag, chain)))
            elif [e['ok'].get('len'), e['ok'].get('hash')] != w: bad.append(('D05', 'content', '%s: another file than the one of %s is downloaded' % (tag, x['want'])))
        elif never:
            p('refused')
            if c != 'derr': bad.append(('D05', 'class', '%s: ends as %s although %s may not be contacted' % (tag, e['err'], chain)))
        elif not changing: bad.append(('D05', 'refused', '%s: fails with %s although %s may be contacted' % (tag, e['err'], chain)))
    return bad, probes

MARKERS = (b'permissiondenied', b'timeout', b'downloaderror', b'malformed', b'unsupported')
def judge_cached(scn, res, root):
    bad = []; probes = {}
    whole = {content(v) for v in scn['files'].values()}
    for d, _, fs in os.walk(root + '/cache/objects'):
        for f in fs:
            if f.endswith('.metadata') or '/.tmp' in d or f.startswith('.'): continue
            with open(os.path.join(d, f), 'rb') as h: b = h.read()
            probes['stored'] = probes.get('stored', 0) + 1
            if b and b not in whole and not b.startswith(MARKERS): bad.append(('D01', 'cached-late', 'what is stored for a download, %d bytes, is neither the whole file nor an error' % len(b)))
    first = {}
    for L, x in enumerate(res):
        asked = attempts_of(x['ev'])
        for e in x['ev']:
            if e['e'] != 'res' or e.get('panic') is not None or not e.get('cand'): continue
            d = e['cand'][0]['download']; k = e['r']
            if L == 0: first[k] = d; probes['cached %s %s' % (d['status'], (d.get('details') or '')[:22])] = probes.get('cached %s %s' % (d['status'], (d.get('details') or '')[:22]), 0) + 1
            elif k in first and first[k]['status'] != 'malformed' and first[k].get('details') != 'internal error' and 'internal' not in str(first[k].get('details')):
                probes['compared'] = probes.get('compared', 0) + 1
                if d != first[k]: bad.append(('D01', 'cached-late', 'op %d: the download ended as %s, but what is stored for it is %s' % (k, json.dumps(first[k]), json.dumps(d))))
    return bad, probes

def size_of(v):
    """Size of what the server holds; None if only the simulator knows."""
    if 'noise' in v: return v['noise'][1]
    if 'of' in v and 'noise' in v['of']: return v['of']['noise'][1] + 40 if v['of']['noise'][1] < 60000 else None    # about
    return None
def hop_url(s, key, k):
    if s['type'] == 'http': return 'https://mirror.example.org/op%d~/%s?hop=1' % (k, key.split('/', 1)[1].replace('%', '%25').replace(' ', '%20'))
    return 'https://mirror.example.org/op%d~/%s?hop=1' % (k, key.replace('%', '%25').replace(' ', '%20'))

def make(prop, seed, root):
    r = random.Random('%s/%d' % (prop, seed))
    g = dict(D01=gen_dl, D02=gen_dl, D03=gen_dl, D04=gen_deny, D05=gen_ip)[prop]
    if prop == 'D01' and r.random() < .15: g = gen_cached
    scn = dict(g(r, prop), seed=seed, prop=prop)
    for k in list(scn['files']) if 'c' in scn and prop in ('D01', 'D02', 'D03') and not scn.get('cached') else []:                # redirects lead to the same files under another host
        if k.startswith(('syms', 'gcs/', 'sentry/')): scn['files']['mirror.example.org/' + (k.split('/', 1)[1] if k.startswith('syms') else k)] = scn['files'][k]
    for l in scn['lives']: l['limit'] = max(l.get('limit', 0), 3600 + 2 * sum(f[2] * f[4] for f in l.get('faults', []) if f[3] == 'delay') // SEC)      # operations on a slow disk take their time
    return scn

def extra(scn):
    def f(root):
        os.makedirs(root + '/dl', exist_ok=True); os.makedirs(root + '/fs', exist_ok=True)
        for p, v in scn.get('fs', {}).items():
            import subprocess
            q = simrun.subst(p, root); os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as h: h.write(content(v))
    return f

def content(v):
    import struct, zlib, gzip
    if 'noise' in v:
        seed, n = v['noise']; x = ((seed * 0x2545F4914F6CDD1D) ^ 0x1234) & (2**64 - 1); out = b''; o = []
        for _ in range(-(-n // 8)):
            x = (x + 0x9E3779B97F4A7C15) & (2**64 - 1); z = x
            z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1); z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1); o.append((z ^ (z >> 31)))
        return b''.join(struct.pack('<Q', y) for y in o)[:n]
    b = content(v['of'])
    if v['enc'] == 'gzip': return gzip.compress(b, mtime=0)
    if v['enc'] == 'zlib': return zlib.compress(b, 9)
    import subprocess
    return subprocess.run(['zstd', '-q', '-c'], input=b, stdout=subprocess.PIPE).stdout
def fnv(b):
    h = 0xcbf29ce484222325
    for c in b: h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
    return '%016x' % h

# ---------------------------------------------------------------- judges
def attempts_of(ev):
    """op -> contacts of the first request of each attempt"""
    n = {}
    for e in ev:
        if e['e'] == 'net' and e['note'] and e['note']['stage'] == 'init': n[e['note']['op']] = n.get(e['note']['op'], 0) + 1
        elif e['e'] == 'connect' and e.get('how') not in (None, 'ok') and 'hop=' not in e['url']:
            m = re.search(r'op(\d+)~', unquote(e['url']))
            if m and e.get('range') and (e['range'] == 's3' or e['range'].startswith('bytes=0-')): k = int(m.group(1)); n[k] = n.get(k, 0) + 1
    return n

def judge_dl(scn, res, root):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    m = Model(scn['c'])
    for L, (l, x) in enumerate(zip(scn['lives'], res)):
        ev = x['ev']; ops = {o['id']: o for o in l['ops']}
        cont = next((e['m'] for e in ev if e['e'] == 'content'), {})
        cont = {k.replace(root, '@ROOT'): v for k, v in cont.items()}
        req = {}; done = {}; end = next((e for e in ev if e['e'] == 'end'), None)
        opened = {}; closed = {}; whose = {}
        for e in ev:
            if e['e'] == 'req': req[e['r']] = e['t']
            elif e['e'] == 'net' and e['note']: whose[e['id']] = e['note']['op']; opened.setdefault(e['note']['op'], []).append((e['t'], e['id']))
            elif e['e'] == 'netdone': closed[e['id']] = e['t']
        n = attempts_of(ev)
        for e in ev:
            if e['e'] != 'res' or e['r'] not in ops or ops[e['r']]['op'] != 'dl': continue
            o = ops[e['r']]; s = scn['sources'][o['src']]; k = o['id']; tag = 'op %d (%s)' % (k, s['type'])
            dur = (e['t'] - req[k]) / SEC
            p('downloads')
            if e.get('aband'):
                p('abandoned')
                lim = req[k] + o['abandon'] * MS + SLACK * SEC
                late = [t for t, _ in opened.get(k, []) if t > lim]
                if late: bad.append(('D03', 'goes-on', '%s: abandoned after %d ms, but the server is contacted %.1f s later' % (tag, o['abandon'], (late[0] - req[k]) / SEC)))
                still = [i for _, i in opened.get(k, []) if closed.get(i, 10**30) > lim and not scn.get('diskslow')]
                if still: bad.append(('D03', 'goes-on', '%s: abandoned after %d ms, but a request is still open %.1f s later' % (tag, o['abandon'], (min(closed.get(still[0], 10**15), 10**15) - lim) / SEC)))
                continue
            if e.get('panic') is not None: bad.append(('D02', 'panic', '%s: panicked' % tag)); bad.append(('D01', 'panic', '%s: panicked' % tag)); continue
            c = 'ok' if 'ok' in e else CLASS[e['err'][0]]
            p('result ' + c)
            key = o['key0']
            # -------- content
            if c == 'ok':
                want = cont.get(key) if s['type'] != 'filesystem' else None
                if s['type'] == 'filesystem' and o['present']:
                    b = content(scn['fs'][key]); v = scn['fs'][key]; i = content(v['of']) if 'of' in v else b
                    want = [len(b), fnv(b), len(i), fnv(i)]
                if want is None: bad.append(('D01', 'content', '%s: reported as downloaded although there is no such file' % tag))
                else:
                    w = want[2:] if o.get('how') == 'fetch' else want[:2]
                    ok = [w]
                    if o.get('alt'): a = cont[o['alt']]; ok.append(a[2:] if o.get('how') == 'fetch' else a[:2])       # either version of the file
                    got = [e['ok'].get('len'), e['ok'].get('hash')]
                    if got not in ok: bad.append(('D01', 'content', '%s: the downloaded file has %s bytes, hash %s; the file of the server has %s bytes, hash %s' % (tag, got[0], got[1], w[0], w[1])))
                    elif end and o.get('how') != 'fetch':
                        f = end['dl'].get(str(k), {})
                        if [f.get('len'), f.get('hash')] != got: bad.append(('D01', 'content-late', '%s: the downloaded file changed after the download had finished: %s bytes, then %s' % (tag, got[0], f.get('len'))))
            # -------- class and attempts
            size = cont[key][0] if key in cont else 0
            sc = l['scripts'].get(str(k), [])
            out, lo, hi = predict(m, scn, s, o, cont, sc)
            a = n.get(k, 0)
            if scn.get('diskslow'):
                cl = {q for q, _ in out} | {'internal', 'timeout', 'derr'} | ({'malformed'} if o.get('how') == 'fetch' else set()) | ({'ok'} if o['present'] else set())
                if c not in cl: bad.append(('D02', 'class', '%s: ends as %s, possible are %s' % (tag, e.get('err', 'ok'), sorted(cl))))
                continue
            if s['type'] == 'filesystem':
                if c != ('ok' if o['present'] else 'notfound'): bad.append(('D02', 'class', '%s: ends as %s' % (tag, e.get('err', 'ok'))))
                continue
            if c not in {q for q, _ in out}: bad.append(('D02', 'class', '%s: ends as %s after %d attempts, possible are %s; script %s' % (tag, e.get('err', 'ok'), a, sorted(out), json.dumps(sc))))
            elif (c, a) not in out: bad.append(('D02', 'attempts', '%s: ends as %s after %d attempts, possible are %s; script %s' % (tag, e.get('err', 'ok'), a, sorted(out), json.dumps(sc))))
            if a > 1: p('retried')
            if dur > hi + SLACK + (3 if l.get('stall') else 0): bad.append(('D03', 'too-long', '%s: takes %.1f s, the limits allow %.1f s; script %s' % (tag, dur, hi, json.dumps(sc))))
            if c == 'timeout' and 'timeout' not in {q for q, _ in out}: bad.append(('D03', 'cut-off', '%s: cut off after %.1f s although every part arrives within the limits; script %s' % (tag, dur, json.dumps(sc))))
            if dur > scn['c']['max'] + SLACK: bad.append(('D03', 'max', '%s: takes %.1f s with a limit of %d s' % (tag, dur, scn['c']['max'])))
            if dur > 5: p('slow downloads')
    return bad, probes

def predict(m, scn, s, o, cont, sc):
    key = o['key0']; size = cont[key][0] if key in cont else 0
    norange = ('sentry' if s['type'] == 'sentry' else re.match(r'https?://([^/:]*)', s['url']).group(1) if s['type'] == 'http' else None) in scn['norange']
    if not o.get('alt'): return m.outcomes(s, size, sc, o['present'], norange)
    # the first attempt gets the other file
    out, lo, hi = m.outcomes(s, cont[o['alt']][0], sc[:1], True, norange)
    o2, lo2, hi2 = m.outcomes(s, size, sc[1:], True, norange)
    x1 = {c for c, k in out if k == 1} | ({'derr'} if any(k > 1 for _, k in out) or True else set())
    res = {(c, k) for c, k in out if k == 1} | {(c, k + 1) for c, k in o2 if k <= 2} | {(c, 3) for c, k in o2 if k == 3}
    if hi + hi2 > scn['c']['max'] - SLACK: res |= {('timeout', k) for k in (1, 2, 3)}
    return res, 0, min(scn['c']['max'], hi + hi2)

JUDGE = dict(D04=judge_deny, D05=judge_ip)
def execute(scn, root):
    res = simrun.run_lives('svc', scn, root, extra(scn))
    bad, discard = simrun.general(res)
    probes = {}
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        js, probes = (judge_cached if scn.get('cached') else JUDGE.get(scn['prop'], judge_dl))(scn, res, root)
        bad += [(c, m) for q, c, m in js if q == scn['prop']]
    trivial = not probes
    sample = dict(seed=scn['seed'], ops=sum(len(l['ops']) for l in scn['lives']), limits=scn.get('c'))
    return simrun.summary(scn, res, bad, discard, sample, trivial, probes)

def shrink_steps(scn):
    return [['lives', i, k] for i in range(len(scn['lives'])) for k in ('ops', 'faults')] + [['lives', i, 'net', 'rules'] for i in range(len(scn['lives']))]

def simplify(scn):
    c = lambda: json.loads(json.dumps(scn))
    for i, l in enumerate(scn['lives']):
        if len(scn['lives']) > 1: s = c(); del s['lives'][i]; yield s
        for k in ('stall', 'spurious'):
            if l.get(k): s = c(); del s['lives'][i][k]; yield s
        for k, v in (('alloc', 0), ('chaos', 0), ('gap', 0), ('workers', 1)):
            if l.get(k, v) != v: s = c(); s['lives'][i][k] = v; yield s
        for k, sc in l.get('scripts', {}).items():
            for n, st in enumerate(sc):
                for a in st:
                    s = c(); del s['lives'][i]['scripts'][k][n][a]; yield s
                if st.get('part'):
                    for q, pa in enumerate(st['part']):
                        if pa: s = c(); s['lives'][i]['scripts'][k][n]['part'][q] = {}; yield s

RULE_TEXT = ('Each run generates files, sources of every kind, limits and for every download a script of what the server does to each request of each attempt (statuses, ranges, bodies cut or stalled at any byte, resets, wrong ranges, redirects, failing '
             'connections and lookups), with arrivals, abandonments, disk faults and clock jumps over one or more process lives; distinct when the hash of the whole trace (schedule, file operations, faults) is new; trivial when no download was judged.')
REAL = ['symbolicator-service: download (all source kinds, partial downloads, decompression, deny list, retries, time limits), utils (http, futures, gcs), caching, config', 'symbolicator-sources', 'tokio (multi-thread runtime, fs, time, sync), futures, tempfile, flate2/zstd/zip', 'kernel file system (tmpfs)']
STUB = ['thread scheduling, clocks, randomness and results of file operations come from the simulator (LD_PRELOAD)', 'reqwest, aws-sdk-s3, jsonwebtoken: simulated network and servers (redirects, DNS, address filter, content-length and gzip handling modelled on the real client)', 'moka: stand-in with the documented semantics, plus arbitrary evictions', 'sentry, cadence: no-ops']
ASSUME = ['threads are preempted at system calls, synchronisation and allocations only', 'the simulated HTTP client behaves like reqwest as far as symbolicator uses it', 'the address filter of the reqwest fork is applied to every address a request connects to', 'the cut of a body without length and range cannot be noticed by any client']
