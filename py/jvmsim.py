"""JVM symbolication (N03): remapping exceptions, frames and classes with mapping files and source bundles found in the sources."""
import json, os, random
import common, cachesim, simrun
from jssim import trim

SIM = os.path.join(common.TARGET, 'debug', 'jvmsim')
SEC = simrun.SEC; MS = 10**6; EPS = 5 * MS
API = 'https://sentry.example.org/api/0/projects/o/p%d/files/dsyms/'

# ---------------------------------------------------------------- the model
def jtype(maps, t):
    """(Java name of the type, whether the mapping knows it), or None."""
    if t in ('I', 'Z', 'V'): return {'I': 'int', 'Z': 'boolean', 'V': 'void'}[t], False
    if t.startswith('L') and t.endswith(';'):
        c = t[1:-1].replace('/', '.')
        return (maps['classes'][c]['name'], True) if c in maps['classes'] else (c, False)
def signature(m, s):
    if not s.startswith('(') or ')' not in s: return None
    p, r = s[1:].split(')', 1); ts = []
    while p:
        if p[0] == 'L':
            if ';' not in p: return None
            n = p.index(';') + 1
        else: n = 1
        ts.append(p[:n]); p = p[n:]
    ts = [jtype(m, t) for t in ts + [r]]
    if None in ts or not any(t[1] for t in ts): return None
    return [t[0] for t in ts[:-1]], ts[-1][0]
def full_frame(m, f, line, params):
    out = []
    for e in m['classes'].get(f['module'], {}).get('methods', {}).get(f['function'], []):
        if params is not None: hit = e['params'] == params
        else: hit = e['range'] is None or e['range'][0] <= line <= e['range'][1]
        if hit: out += [dict(module=c, function=n, file=fi, lineno=b + (max(0, line - e['range'][0]) if e['range'] else 0)) for c, n, fi, b in e['frames']]
    return out
def method(m, f):
    c = m['classes'].get(f['module'])
    es = c and c['methods'].get(f['function'])
    if not es: return None
    names = {e['frames'][-1][1] for e in es}
    return (c['name'], names.pop()) if len(names) == 1 else None
def first(f, xs):
    for x in xs:
        y = f(x)
        if y: return y
def frame(maps, f, package):
    sig = first(lambda m: signature(m, f['signature']), maps) if f.get('signature') is not None else None
    line, params = 0, None
    if f.get('lineno') is not None: line = f['lineno']
    elif sig: params = ','.join(sig[0])
    out = None
    full = first(lambda m: full_frame(m, f, line, params), maps)
    if full:
        out = []
        for x in reversed(full):
            g = dict(f, module=x['module'], function=x['function'], lineno=x['lineno'])
            if x['file'] is not None: g['abs_path'] = g['filename'] = x['file']
            if x['module'] != full[-1]['module']: g.pop('abs_path', None); g.pop('filename', None)
            out.append(g)
    if out is None:
        n = first(lambda m: method(m, f), maps)
        if n: out = [dict(f, module=n[0], function=n[1])]
    if out is None:
        n = first(lambda m: m['classes'].get(f['module'], {}).get('name'), maps)
        if n: out = [dict(f, module=n)]
    if out is not None:
        for g in out:
            if package is not None and g['module'].startswith(package) and g.get('in_app') is None: g['in_app'] = True
    else: out = [dict(f)]
    if sig:
        for g in out: g['signature'] = '(%s)' % ', '.join(sig[0]) + (': ' + sig[1] if sig[1] != 'void' else '')
    return out
def source_name(f):
    a, m = f.get('abs_path'), f['module']
    if a is not None and '$' not in a and '.' in a:
        d = m.rpartition('.')[0]
        return '~/' + (d.replace('.', '/') + '/' if '.' in m else '') + a.rpartition('.')[0] + '.jvm'
    return '~/' + m.split('$')[0].replace('.', '/') + '.jvm'
def context(f, text):
    lines = text.split('\n')
    if lines and lines[-1] == '': lines.pop()
    lines = [l[:-1] if l.endswith('\r') else l for l in lines]
    no = f['lineno']
    if no > len(lines): return False
    for k, v in (('pre_context', lines[max(0, no - 6):no - 1]), ('post_context', lines[no:no + 5])):
        if v: f[k] = [trim(l, 0) for l in v]
        else: f.pop(k, None)
    f['context_line'] = trim(lines[no - 1], 0)
    return True

def answer(w, q, contacts):
    """w: sources [{url, token}], table, files, broken"""
    def listing(did, ty):
        out = []
        for i in q['srcs']:
            s = w['sources'][i]
            if s['type'] != 'sentry': continue
            contacts.add(('search', s['url'], did))
            if ['search', did] in w['broken']: continue
            out += [(s, f['id']) for f in w['table'].get(s['url'], {}).get(s['token'], []) if f['debugId'] == did and f['symbolType'] == ty]
        return out
    def fetch(s, fid):
        contacts.add(('file', s['url'], fid))
        return None if ['file', fid] in w['broken'] else w['contents'].get(fid)
    maps = []; errors = []; sources = []
    for m in q['val']['modules']:
        if m['type'] == 'proguard':
            l = listing(m['uuid'], 'proguard')
            c = fetch(*l[0]) if l else None
            if c is None: errors.append(dict(uuid=m['uuid'], type='missing'))
            elif c['kind'] != 'map': errors.append(dict(uuid=m['uuid'], type='invalid'))
            elif not c['map']['lines']: errors.append(dict(uuid=m['uuid'], type='no_line_info'))
            else: maps.append(c['map'])
        else:
            # every candidate has the same contents
            got = [fetch(*x) for x in listing(m['uuid'], 'sourcebundle')]
            got = [c for c in got if c is not None and c['kind'] == 'bundle']
            if got: sources.append(got[0]['files'])
    exc = []
    for e in q['val']['exceptions']:
        n = first(lambda m: m['classes'].get(e['module'] + '.' + e['type'], {}).get('name'), maps)
        exc.append(dict(type=n.rpartition('.')[2], module=n.rpartition('.')[0]) if n and '.' in n else dict(e))
    st = [[g for f in s['frames'] for g in frame(maps, f, q['val']['package'])] for s in q['val']['stacktraces']]
    if q['val']['context']:
        for s in st:
            for g in s:
                if not g.get('lineno'): continue
                u = source_name(g)
                for files in sources:
                    t = next((t for n, t in files if n == u), None)
                    if t is not None and context(g, t): break
    cl = {}
    for c in q['val']['classes']:
        n = first(lambda m: m['classes'].get(c, {}).get('name'), maps)
        if n: cl[c] = n
    return dict(exceptions=exc, stacktraces=[dict(frames=s) for s in st], classes=cl, errors=errors)

# ---------------------------------------------------------------- generation
OBF = ['a.a', 'a.b', 'a.b$c', 'b', 'b.c.d', 'com.example.Kept', 'a.a$a']
NAMES = ['com.example.app.Main', 'com.example.app.Main$Inner', 'com.example.util.Tool', 'Plain', 'org.lib.Thing', 'com.example.Kept', 'com.example.application.Other', 'org.lib.Thing$$Lambda$1']
METHODS = ['a', 'b', 't', '<init>']
REAL_METHODS = ['onCreate', 'run', '<init>', 'toString', 'access$100']
FILES = [None, None, 'Main.kt', 'Tool.java', 'SourceFile', 'a$b.kt']
def mapping(r):
    cl = {}; types = ['int', 'boolean', ''] + NAMES[:3] + ['int,com.example.app.Main', 'a.a']
    for o in r.sample(OBF, r.randrange(1, 7)):
        ms = {}; name = r.choice(NAMES)
        for m in r.sample(METHODS, r.randrange(0, 4)):
            es = []; s = 1
            for _ in range(r.choice([1, 1, 2, 3])):
                n = r.choice([0, 1, 5]); s += r.choice([0, 1, 3])
                fr = [[r.choice(NAMES) if r.random() < .5 else name, r.choice(REAL_METHODS), r.choice(FILES), r.choice([0, 1, 3, 10, 40])] for _ in range(r.choice([0, 0, 0, 1, 2]))] + [[name, r.choice(REAL_METHODS), r.choice(FILES), r.choice([0, 1, 2, 5, 20])]]
                es.append(dict(params=r.choice(types), range=None if r.random() < .15 else [s, s + n], frames=fr)); s += n + r.choice([0, 1])
            ms[m] = es
        cl[o] = dict(name=name, methods=ms)
    return dict(lines=r.random() < .85, classes=cl)
def text(r, tag):
    out = []
    for k in range(r.choice([1, 3, 12, 30])):
        out.append('%s line %d' % (tag, k + 1) + r.choice(['', ' {', ' é☃ ' * r.choice([1, 40, 60]), ' x' * 90]) if r.random() < .9 else '')
    return r.choice(['\n', '\n', '\r\n']).join(out) + r.choice(['', '\n'])
def did(r): return '%08x-%04x-%04x-%04x-%012x' % tuple(r.randrange(1, 1 << b) for b in (32, 16, 16, 16, 48))
def frame_in(r):
    f = dict(function=r.choice(METHODS + ['z']), module=r.choice(OBF) if r.random() < .9 else r.choice(['z.z', 'com.example.app.Main', 'Plain']), index=r.randrange(20))
    if r.random() < .75: f['lineno'] = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 40, 4000000000])
    if r.random() < .4: f['filename'] = r.choice(['Main.java', 'SourceFile', 'x'])
    if r.random() < .4: f['abs_path'] = r.choice(['Main.java', 'SourceFile', 'Tool.kt', 'a$b.java', 'x.y.java', ''])
    if r.random() < .3: f['in_app'] = r.random() < .5
    if r.random() < .4: f['signature'] = r.choice(['(I)V', '(La/a;)V', '(ILa/a;)Z', '(La/b;I)La/a;', '()La/b;', '()V', '(La/a', 'x', '(Lcom/example/Kept;)V', '(La/b$c;Z)I', '(Lb;)Lq/r;', ''])
    if r.random() < .1: f['platform'] = 'java'
    if r.random() < .05: f.update(pre_context=['before'], context_line='sent along', post_context=['after'])
    return f

def make(prop, seed, root):
    r = random.Random('%s/%d' % (prop, seed))
    np = r.choice([1, 1, 1, 2, 3])
    same = r.random() < .5  # all of Sentry's sources go by one name; the scope tells them apart
    sources = []; table = {}
    for i in range(np):
        s = dict(type='sentry', id='sentry:project' if same else 'sentry:p%d' % i, url=API % (i if r.random() < .8 else 0), token='tok%d' % i)
        sources.append(s); table.setdefault(s['url'], {}).setdefault(s['token'], [])
    if r.random() < .2:
        sources.append(dict(type='http', id='other', url='https://symbols.example.com/', layout=dict(type=r.choice(['unified', 'native', 'symstore']), casing='default'), is_public=r.random() < .5))
    ids = [did(r) for _ in range(r.choice([1, 2, 3, 4]))]
    contents = {}; files = {}; n = 0
    def add(ty, d, c, store, where=None):
        nonlocal n
        fid = 'f%03dx' % n; n += 1
        contents[fid] = c
        if store is not None: files['sentry/' + fid] = store
        i = r.randrange(np) if where is None else where
        s = sources[i]; table[s['url']][s['token']].append(dict(id=fid, symbolType=ty, debugId=d, codeId=None))
        return fid
    def proguard(d, where=None):
        x = r.random(); m = mapping(r)
        if x < .75:
            v = dict(text=json.dumps(m)); c = dict(kind='map', map=m)
            if r.random() < .3: v = dict(enc=r.choice(['gzip', 'zlib', 'zstd']), of=v)
        elif x < .83: v = r.choice([dict(text='not a mapping'), dict(noise=[r.getrandbits(20), 300]), dict(text=''), dict(text='{"classes": 3}')]); c = dict(kind='bad')
        elif x < .93: v = dict(cut=r.choice([1, 3, 5, 12, 25]), of=dict(enc=r.choice(['gzip', 'zlib', 'zstd']), of=dict(text=json.dumps(m)))); c = dict(kind='bad')
        else: v = c = None
        return add('proguard', d, c, v, where)
    def bundle(d):
        fs = []
        for k, u in enumerate(r.sample(['~/com/example/app/Main.jvm', '~/com/example/util/Tool.jvm', '~/Plain.jvm', '~/com/example/util/Main.jvm', '~/org/lib/Thing.jvm', '~/Main.jvm', '~/com/example/Kept.jvm', '~/com/example/app/Tool.jvm', '~/a/a.jvm', '~/z/z.jvm'], r.choice([0, 4, 7, 10]))): fs.append([u, text(r, '%s of %d' % (u[2:], n))])
        v = dict(bundle=dict(debug_id=d, files=fs)); c = dict(kind='bundle', files=fs)
        if r.random() < .15: v = dict(enc=r.choice(['gzip', 'zlib', 'zstd']), of=v)
        elif r.random() < .1: v = r.choice([dict(noise=[r.getrandbits(20), 400]), dict(cut=r.choice([0, 10, 40]), of=v)]); c = dict(kind='bad')
        for _ in range(r.choice([1, 1, 1, 2])): add('sourcebundle', d, c, v)
    for d in ids:
        for _ in range(r.choice([0, 1, 1, 1, 1, 1, 2, 3])): proguard(d)
        if r.random() < .8: bundle(d)
    for u in table:
        for t in table[u]: r.shuffle(table[u][t])
    cfg = cachesim.config(r, {k: (24 * 3600000, 48 * 3600000, 24 * 3600000, 96 * 3600000) for k in ('downloaded', 'derived', 'index')}, cache_dir=r.random() < .9, shared=None)
    cfg.update(deny_list_enabled=False, connect_timeout='1s', head_timeout='5s', max_download_timeout='60s')
    ttl = r.choice([0, 5, 3600]); cfg['caches']['in_memory'] = dict(sentry_index_ttl='%ds' % ttl)
    mode = r.choice(['calm', 'calm', 'flaky', 'broken', 'change']); rules = []; broken = []; change = None
    every = [('search', d, 'debug_id=' + d) for d in ids] + [('file', f, '?id=' + f) for f in contents]
    if mode == 'flaky':
        for _, _, u in r.sample(every, min(len(every), r.choice([1, 2, 4]))):
            rules.append(dict(m=u, first=r.choice([0, 0, 1, 2]), count=r.choice([1, 2]), act=r.choice([dict(status=500), dict(status=503), dict(reset=True), dict(connect='refused'), dict(cut=r.choice([0, 5]), end='reset')])))
    if mode == 'broken':
        for k, x, u in r.sample(every, min(len(every), r.choice([1, 2]))):
            rules.append(dict(m=u, act=r.choice([dict(status=403), dict(status=404), dict(status=500), dict(reset=True), dict(connect='refused')]))); broken.append([k, x])
    nl = r.choice([1, 1, 1, 2, 3]) if mode != 'change' else 1
    lives = []; nid = 0; total = r.choice([1, 2, 3, 5, 8])
    def request():
        mods = [dict(uuid=d if r.random() < .95 else did(r), type='proguard') for d in r.sample(ids, r.randrange(0 if r.random() < .1 else 1, len(ids) + 1))]
        mods += [dict(uuid=d, type='source') for d in r.sample(ids, r.randrange(0, len(ids) + 1))]
        if r.random() < .05 and mods: mods.append(dict(mods[0]))
        r.shuffle(mods)
        srcs = r.sample(range(len(sources)), r.randrange(1, len(sources) + 1)) if r.random() < .5 else r.sample(range(len(sources)), len(sources))
        scope = r.choice([None, '1', '1', '2'])
        return dict(op='jvm', srcs=srcs, scope=scope, val=dict(modules=mods, context=r.random() < .8, package=r.choice([None, 'com.example', 'com.example.app', '']), classes=[r.choice(OBF + ['z.q']) for _ in range(r.choice([0, 1, 3]))],
                    exceptions=[(lambda c: dict(type=c.rpartition('.')[2], module=c.rpartition('.')[0]))(r.choice(OBF + ['z.q'])) for _ in range(r.choice([0, 1, 2]))], stacktraces=[dict(frames=[frame_in(r) for _ in range(r.choice([1, 2, 5]))]) for _ in range(r.choice([1, 1, 2]))]))
    for k in range(nl):
        ops = []; t = 0
        for _ in range(max(1, total // nl)):
            t += r.choice([0, 0, 0, 1, 20, 200, 3000, 20000] + ([1800000, 3700000] if r.random() < .3 or mode == 'change' else []))
            q = request() if not (ops and r.random() < .25) else json.loads(json.dumps(r.choice(ops)))
            q.pop('abandon', None); q.update(id=nid, at=t); nid += 1
            if r.random() < .08: q['abandon'] = r.choice([0, 1, 30, 500, 3000])
            ops.append(q)
        l = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=ops, settle=r.choice([10, 5000]), chaos=r.choice([0, 0, 2, 5, 20]), net=dict(rules=rules), limit=3600)
        if mode == 'flaky' and k: l['net'] = {}
        if l.get('stall'): l['stall'][1] = min(l['stall'][1], 50 * MS)
        if k + 1 < nl:
            if r.random() < .5: l['kill'] = r.randrange(t + 100)
            elif r.random() < .4: l['faults'] = [['any', r.randrange(1, 120), 1, r.choice(['crash', 'crash_after', 'torn']), r.randrange(0, 4000), 'cache']]
            l['gap'] = r.choice([0, SEC, 3600 * SEC])
        if r.random() < .1 and mode != 'change': ops.append(dict(op='wall', id=nid, at=r.randrange(t + 1), ns=r.choice([-1, 1]) * r.choice([1, 3600, 7200]) * SEC)); nid += 1
        if r.random() < .1: ops.append(dict(op='cleanup', id=nid, at=r.randrange(t + 1))); nid += 1
        lives.append(l)
    before = json.loads(json.dumps(table))
    if mode == 'change':
        d = r.choice(ids); i = r.randrange(np)
        if r.random() < .7:
            proguard(d, i)
            l = table[sources[i]['url']][sources[i]['token']]
            if r.random() < .5: l.insert(0, l.pop())
        else: table[sources[i]['url']][sources[i]['token']] = [f for f in table[sources[i]['url']][sources[i]['token']] if f['debugId'] != d or f['symbolType'] != 'proguard']
        at = r.randrange(max(o['at'] for o in lives[0]['ops']) + 1)
        lives[0]['ops'].append(dict(op='sentry', id=nid, at=at, val=table)); change = [before, table, ttl]
    return dict(config=cfg, sources=sources, files=files, sentry=before, contents=contents, norange=[], gcs={}, dldir='@ROOT/dl', lives=lives, broken=broken, change=change, mode=mode, seed=seed, prop=prop)

# ---------------------------------------------------------------- judging
def clean(v):
    st = [dict(frames=[{k: y for k, y in f.items() if y is not None and not (k.endswith('_context') and not y)} for f in s['frames']]) for s in v['stacktraces']]
    return dict(exceptions=v['exceptions'], stacktraces=st, classes=v['classes'], errors=v['errors'])
def diff(a, b):
    for k in ('errors', 'exceptions', 'classes'):
        if a[k] != b[k]: return '%s: %s instead of %s' % (k, json.dumps(a[k]), json.dumps(b[k]))
    for i, (s, t) in enumerate(zip(a['stacktraces'], b['stacktraces'])):
        if len(s['frames']) != len(t['frames']): return 'stack %d has %d frames instead of %d' % (i, len(s['frames']), len(t['frames']))
        for j, (f, g) in enumerate(zip(s['frames'], t['frames'])):
            if f != g: return ('stack %d frame %d: ' % (i, j) + '; '.join('%s is %r instead of %r' % (x, f.get(x), g.get(x)) for x in sorted({*f, *g}) if f.get(x) != g.get(x)))[:600]
    return 'stacks'

def judge(scn, res):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    worlds = [dict(sources=scn['sources'], table=t, contents=scn['contents'], broken=scn['broken']) for t in (scn['change'][:2] if scn['change'] else [scn['sentry']])]
    if scn['change']:
        # an index from before the change, files as after it
        ids = lambda t: {f['id'] for u in t.values() for l in u.values() for f in l}
        gone = sorted(ids(scn['change'][0]) - ids(scn['change'][1]))
        worlds.insert(1, dict(worlds[0], broken=scn['broken'] + [['file', i] for i in gone]))
    allowed = set()
    for li, x in enumerate(res):
        ops = {o['id']: o for o in scn['lives'][li]['ops']}; R = {}; put = None
        for e in x['ev']:
            if e['e'] == 'req' and e['op'] == 'jvm': R[e['r']] = [e['t'], None, None]
            elif e['e'] == 'req' and e['op'] == 'sentry': put = e['t']
            elif e['e'] == 'res' and e['r'] in R: R[e['r']][1:] = [e['t'], e]
        for k, (t0, t1, e) in sorted(R.items()):
            o = ops[k]; exp = [clean(answer(w, o, allowed)) for w in worlds]
            if len(exp) > 1:
                if put is None or t1 is not None and t1 < put: exp = exp[:1]
                elif t0 >= put + scn['change'][2] * SEC + EPS: exp = exp[2:]; p('after the change')
            if e is None or e.get('aband'): p('abandoned'); continue
            if e.get('panic') is not None: bad.append(('panic', 'request %d panicked' % k)); continue
            got = clean(e['v'])
            if got in exp:
                p('right answers')
                for a in got['errors']: p('error ' + a['type'])
                raw = {json.dumps(f, sort_keys=True) for s in o['val']['stacktraces'] for f in s['frames']}
                for s in got['stacktraces']:
                    for f in s['frames']:
                        p('frames as sent' if json.dumps(f, sort_keys=True) in raw else 'frames remapped')
                        if f.get('context_line') not in (None, 'sent along'): p('frames with context')
                p('classes remapped', len(got['classes']))
            else: bad.append(('answer', 'life %d request %d at %.1f s: %s' % (li, k, t0 / SEC - 1000, diff(got, exp[0]))))
    toks = {}
    for s in scn['sources']:
        if s['type'] == 'sentry': toks.setdefault(s['url'], []).append(s['token'])
    for li, x in enumerate(res):
        for e in x['ev']:
            if e['e'] not in ('net', 'connect'): continue
            u = e['url']; base, _, qs = u.partition('?'); h = dict((a.lower(), b) for a, b in e.get('h', []))
            tok = h.get('authorization', '')
            if tok and tok not in ['Bearer ' + t for t in toks.get(base, [])]: bad.append(('token', 'life %d: %s is asked with %r' % (li, u, tok)))
            kind = ('search', base, qs[9:]) if qs.startswith('debug_id=') else ('file', base, qs[3:]) if qs.startswith('id=') else ('other', base, qs)
            if kind not in allowed: bad.append(('contact', 'life %d: %s is contacted' % (li, u)))
    return bad, probes

def execute(scn, root):
    res = simrun.run_lives('svc', scn, root, exe=SIM)
    bad, discard = simrun.general(res); probes = {}
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        js, probes = judge(scn, res); bad += js
    sample = dict(seed=scn['seed'], mode=scn['mode'], requests=sum(1 for l in scn['lives'] for o in l['ops'] if o['op'] == 'jvm'), lives=len(scn['lives']))
    return simrun.summary(scn, res, bad, discard, sample, not probes, probes)

def shrink_steps(scn):
    out = [['lives']] + [['lives', i, 'ops'] for i in range(len(scn['lives']))] + [['lives', i, 'net', 'rules'] for i in range(len(scn['lives'])) if scn['lives'][i]['net'].get('rules')]
    for i, l in enumerate(scn['lives']):
        for j, o in enumerate(l['ops']):
            if o['op'] == 'jvm':
                b = ['lives', i, 'ops', j, 'val']
                out += [b + [x] for x in ('modules', 'stacktraces', 'exceptions', 'classes')] + [b + ['stacktraces', s, 'frames'] for s in range(len(o['val']['stacktraces']))]
    return out
def simplify(scn):
    c = lambda: json.loads(json.dumps(scn))
    for i, l in enumerate(scn['lives']):
        for k in ('stall', 'spurious', 'kill', 'chaos'):
            if l.get(k): s = c(); s['lives'][i].pop(k); yield s

RULE_TEXT = ('Each run generates projects with mapping files and source bundles (good, compressed, damaged, missing, in several projects), then requests for exceptions, frames and classes (several at once, repeated, over restarts and crashes, with evictions and failing servers); '
             'distinct when the hash of the whole trace (schedule, faults, time) is new; trivial when no request was answered.')
REAL = ['symbolicator-proguard', 'symbolicator-service (caches, downloads, objects)', 'symbolicator-sources', 'symbolic-debuginfo (source bundles)']
STUB = ['mapping files are a JSON format of the simulation (rust-proguard)', 'reqwest/hyper: simulated network', 'moka: simulated cache that also evicts', 'thread scheduling and clocks come from the simulator (LD_PRELOAD)']
ASSUME = ['threads are preempted at system calls, contended synchronisation and allocations only', 'the parser of mapping files is right', 'candidates for one source bundle have the same contents']
