"""Simulation of object lookups through every kind of source: O01-O03 and C07."""
import gzip, hashlib, json, os, random, zlib
from urllib.parse import unquote, urlsplit
import common, simrun, gen, layouts, cachesim
from simrun import SEC
from layouts import Id

NOLIST = 'No object files listed on this source'
NAMES = ['crash', 'libfoo.so.1', 'App', 'kernel32.dll', 'Größe.dll', 'My App.exe', 'wntdll.pdb', 'a', 'ß.so', '日本語.pdb', 'c++filt', '100%.dll', '%41.exe', 'x#y?z.pdb', 'a&b=c.dll', '.hidden', 'noext.', 'two..dots.dll',
         'UPPER.DLL', 'MiXed.Pdb', 'İstanbul.pdb', 'ΑΣ.dll', '_', 'a.', 'b.dll', 'e+f.so', "it's.pdb", 'q"uote.exe', '{guid}.dll', 'tilde~.so', 'ab', 'foo.exe.pdb', 'foo.pdb.dll', 'foo.sym', 'Foo.EXE', '.dll', 'semi;colon', 'é', 'x' * 200 + '.dll', 'a' * 255, 'ñ' * 127 + 'n', '[a].so', '^caret|pipe.so']
BADNAMES = [None, None, '', '/', 'C:\\', 'C:\\dir\\..', '/usr/lib/.', '..', 'a\x01b.dll', 'tab\there', 'x' * 256, 'ü' * 128, '\x7f', '/a/b/\x85']
DIRS = ['', '/usr/lib/', 'C:\\Windows\\System32\\', '/Applications/My App.app/Contents/MacOS/', 'c:/mixed\\dir/', '\\\\server\\share\\', './', '/a//b/', '../', 'C:\\Projekte\\Größe\\', '//unc/path/', '/with/trailing/']

def hexs(r, n): return ''.join(r.choice('0123456789abcdef') for _ in range(n))
def uuid_str(h): return '%s-%s-%s-%s-%s' % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])

def module(r):
    t = r.choice(['elf', 'elf', 'macho', 'macho', 'pe', 'pe', 'pe_dotnet', 'wasm', 'unknown', 'strange'])
    def path():
        if r.random() < .08: return r.choice(BADNAMES)
        return r.choice(DIRS) + r.choice(NAMES) + (r.choice(['/', '\\']) if r.random() < .03 else '')
    u = hexs(r, 32); age = r.choice([0, 0, 0, 1, 2, 10, 0xab, 0xfffffffe]) if t != 'macho' or r.random() < .1 else 0
    code = {'elf': lambda: r.choice([hexs(r, 40), hexs(r, 40), hexs(r, 16), hexs(r, 32), hexs(r, 3)]), 'macho': lambda: u if r.random() < .9 else hexs(r, 30), 'pe': lambda: hexs(r, 8) + hexs(r, r.choice([3, 4, 5, 6, 1])),
            'pe_dotnet': lambda: hexs(r, 8) + hexs(r, 5), 'wasm': lambda: r.choice([hexs(r, 32), hexs(r, 40)])}.get(t, lambda: hexs(r, r.choice([40, 32, 13, 1])))()
    if t in ('pe', 'pe_dotnet') and r.random() < .1: code = code[:7]
    m = dict(object_type=t, code_id=code, debug_id=uuid_str(u) + ('-%x' % age if age else ''), code_file=path(), debug_file=path())
    if r.random() < .4: m['debug_file'] = m['code_file']
    if r.random() < .3: m['code_id'] = m['code_id'].upper()
    if r.random() < .1 and len(code) > 10: m['code_id'] = uuid_str(m['code_id']) if len(code) == 32 else m['code_id'][:4] + '-' + m['code_id'][4:]
    if r.random() < .3: m['debug_id'] = m['debug_id'].upper()
    elif r.random() < .2 and age: m['debug_id'] = u.upper() + '%x' % age     # breakpad style
    if r.random() < .25: m['debug_checksum'] = 'SHA256:' + hexs(r, 64)
    for k, p in (('code_id', .15), ('debug_id', .15), ('code_file', .1), ('debug_file', .1)):
        if r.random() < p: m[k] = None
    return {k: v for k, v in m.items() if v is not None}

HOSTS = ['syms0.example.org', 'msdl.example.com', 'debug.example.net:8080', 'xn--bcher-kva.example']
def source(r, k, prop, mods):
    t = r.choice(['filesystem', 'http', 'http', 'gcs', 's3', 'sentry'])
    s = dict(type=t, id=r.choice(['src%d', 'sentry:src%d', 'Quelle %d']) % k)
    if t == 'sentry':
        s.update(url='https://sentry%d.example.org/api/0/projects/org/proj/files/dsyms/' % r.randrange(2), token='tok%d' % r.randrange(3))
        return s
    ty = r.choice(layouts.LAYOUTS)
    s['layout'] = dict(type=ty, casing=r.choice(['default', 'default', 'lowercase', 'uppercase']))
    if r.random() < .1: del s['layout']['casing']
    if ty == 'native' and r.random() < .2: del s['layout']
    if r.random() < .4: s['is_public'] = r.random() < .8
    f = {}
    if r.random() < (.5 if prop == 'O03' else .15): f['filetypes'] = r.sample(layouts.TYPES, r.choice([0, 1, 2, 4, 8]))
    if r.random() < (.35 if prop == 'O03' else .1):
        pats = []
        for _ in range(r.choice([1, 1, 2])):
            m = r.choice(mods); p = m.get(r.choice(['code_file', 'debug_file'])) or '/usr/lib/libc.so'
            p = p.replace('\\', '/')
            x = r.random()
            if x < .3: q = '*'.join(p[:j] for j in [max(1, len(p) // 2)]) + '*'
            elif x < .5: q = '*' + p[len(p) // 2:]
            elif x < .6: q = p[:1] + '?' + p[2:]
            elif x < .7: q = '[a-fA-Fc]' + p[1:]
            elif x < .8: q = p.upper()
            else: q = r.choice(['c:/windows/*', '*.dll', '/usr/*', '*', 'nothing', '*app*', '?:/*'])
            if x < .8 and any(c in q for c in '[]') and x > .7: q = '*'
            if '**' in q or (('[' in q) and not q.startswith('[a-fA-Fc]')) or (q.startswith('[a-f') and '[' in q[1:]): q = r.choice(['*.pdb', '*/*'])
            pats.append(q)
        f['path_patterns'] = pats
    if r.random() < .12: f['requires_checksum'] = r.random() < .8
    if f: s['filters'] = f
    if t == 'http':
        base = r.choice(['', '/', '/symbols', '/symbols/', '/a b/c', '/%C3%A9/x/', '/deep/er/path/', '//double/'])
        h = r.choice(HOSTS)
        s['url'] = ('https', 'http')[HOSTS.index(h) % 2] + '://' + h + base       # one scheme per host: a file is known by its host and path
        if r.random() < .07: s['url'] += '?sig=a%20b'
        if r.random() < .5: s['headers'] = {r.choice(['X-Token', 'Authorization', 'x-custom-header', 'Accept-Language']): 'value%d' % k}
        if r.random() < .3: s['accept_invalid_certs'] = r.random() < .7
    elif t == 'filesystem': s['path'] = '@ROOT/fs%d' % k + r.choice(['', '/', '/sub dir', '/ü'])
    elif t == 'gcs': s.update(bucket='bucket%d' % r.randrange(2), private_key='pk%d' % r.randrange(2), client_email='mail%d@example.org' % r.randrange(2))
    else:
        s.update(bucket='s3bucket%d' % r.randrange(2), access_key='ak%d' % r.randrange(2), secret_key='sk%d' % r.randrange(2), region=r.choice(['us-east-1', 'eu-central-1', ['minio', 'http://minio.example.org:9000']]))
        x = r.random()
        if x < .2: s['aws_credentials_provider'] = 'static'
        elif x < .35:       # credentials of the machine
            s['aws_credentials_provider'] = 'container'; del s['access_key'], s['secret_key']
    if t in ('gcs', 's3') and r.random() < .7: s['prefix'] = r.choice(['', '/', 'pre', '/pre/fix', 'pre/fix/', '//p//', 'with space', 'ü', 'p//q'])
    if ty in ('symstore', 'symstore_index2', 'native') and r.random() < .25: s['has_index'] = r.random() < .85
    return s

# ---------------------------------------------------------------- contents
def bp(i, seed, func, public, stack):
    u, age = i.debug if i.debug else ('0' * 31 + '1', 0)
    s = 'MODULE Linux x86_64 %s%X some\n' % (u.upper(), age)
    if func: s += 'FUNC 1000 10 0 main%d\n1000 10 1 1\n' % seed
    if public: s += 'PUBLIC 2000 0 pub%d\n' % seed
    if stack: s += 'STACK CFI INIT 1000 10 .cfa: $rsp 8 +\n'
    return s.encode()

F = lambda d=False, u=False, s=False, c=False: dict(has_debug_info=d, has_unwind_info=u, has_symbols=s, has_sources=c)
def noise_head(seed): return b'#not an object %d\n' % seed
def content(r, i, purpose_bias=True):
    """-> (store value, outcome). An outcome is dict(st=ok, feat, len, hash) | dict(st=...)"""
    seed = r.randrange(10**6)
    x = r.random()
    def ok(b, feat): return b, dict(st='ok', feat=feat, len=len(b), hash=None, b=b)
    if x < .45:
        f, p, s = r.random() < .5, r.random() < .5, r.random() < .4
        if not (f or p or s): f = True
        b, o = ok(bp(i, seed, f, p, s), F(d=f, u=s, s=p))
    elif x < .58:
        b, o = ok(gen.source_bundle((i.debug[0] + '%x' % i.debug[1]) if i.debug else hexs(r, 33), 'n', seed, r.choice([1, 3])), F(c=True))
    elif x < .74:
        d = r.random() < .6
        b, o = ok(gen.elf(hexs(r, 40), 3, False, r.random() < .5, seed, r.choice([10, 3000]), debug=d, dwarf=d), F(d=d))
    elif x < .84 and (i.debug is None or i.debug[1] == 0) and i.type == 'macho' and (i.code is None or i.debug is None or i.code == i.debug[0]) and i.mach:
        sl = []
        good = r.random() < .75
        archs = r.sample(['x86_64', 'arm64', 'x86'], r.choice([2, 3]))
        hit = r.randrange(len(archs)); outb = None
        for k, a in enumerate(archs):
            m = gen.macho(i.mach if good and k == hit else hexs(r, 32), a, r.choice([2, 10]), seed + k, r.choice([10, 500]))
            if good and k == hit: outb = m
            sl.append((a, m))
        b = gen.fat(sl)
        o = dict(st='ok', feat=F(), len=len(outb), b=outb, fat=True) if good else dict(st='notfound')
    elif x < .9: b, o = noise_head(seed) + random.Random(seed).randbytes(r.choice([1, 100, 5000])), dict(st='malformed')
    elif x < .93: b, o = b'', dict(st='malformed')
    else: b, o = ok(bp(i, seed, True, False, False) + b'PUBLIC 1 0 x\n' * 50, F(d=True, s=True))
    v = dict(hex=b.hex())
    y = r.random()
    if b and y < .2:
        enc = r.choice(['gzip', 'zlib', 'zstd'])
        v = dict(enc=enc, of=v)
        if y < .04 and enc != 'zlib': v = dict(cut=r.choice([12, 15]), of=v); o = dict(st='malformed')
    if o['st'] == 'ok':
        o['hash'] = fnv(o.pop('b'))
    return v, o

def fnv(b):
    h = 0xcbf29ce484222325
    for c in b: h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
    return '%016x' % h

# ---------------------------------------------------------------- network acts
def act(r):
    """-> (rule fields, effect): effect None = no change, or the outcome that replaces the one of a file that is there."""
    x = r.random()
    if x < .45: return None, None
    if x < .62: return dict(act=dict(head=r.choice([1, 20, 300, 4000]), chunk=r.choice([0, 50]), chunk_delay=r.choice([0, 5]))), None
    if x < .78:
        a = r.choice([dict(status=500), dict(status=502), dict(status=503), dict(reset=True), dict(cut=r.choice([0, 5]), end='reset'), dict(connect='refused'), dict(connect='dns'), dict(head=-1)])
        return dict(act=a, count=r.choice([1, 1, 2])), None
    if x < .84: return dict(act=r.choice([dict(status=500), dict(status=503), dict(reset=True), dict(connect='refused'), dict(head=-1), dict(connect='hang')])), dict(st='error')
    if x < .92: return dict(act=dict(status=r.choice([401, 403]))), dict(st='noperm')
    if x < .97: return dict(act=dict(status=r.choice([404, 410, 400]))), dict(st='notfound')
    return dict(act=dict(head=r.choice([9000, 40000]))), None

def net_url(src, d):
    """The decoded URL under which the servers see a request for a file."""
    if src['type'] in ('http', 'sentry'): return d['url']
    if src['type'] == 'gcs': return 'https://storage.googleapis.com/storage/v1/b/%s/o/%s?alt=media' % (src['bucket'], d['s3key'])
    if src['type'] == 's3': return 'https://s3.sim/%s/%s' % (src['bucket'], d['s3key'])

def cred(s):
    if s.get('aws_credentials_provider') == 'container': return 'ecs'
    if s['type'] == 'http': return (s.get('headers') or {}).get('Authorization', '')
    return s.get('access_key') or s.get('token') or s.get('client_email') or ''

# ---------------------------------------------------------------- several projects
def gen_C07(r):
    scopes = r.choice([['p1', 'p2'], ['p1', 'p2', 'p3'], ['p1', None], ['1', '11'], ['p1', 'p2', None]])
    mods = []
    while len(mods) < r.choice([1, 1, 2]):
        m = module(r)
        if m.get('object_type') in ('elf', 'pe', 'macho') and m.get('code_id') and m.get('debug_id') and Id(m).code_file and Id(m).debug_file and len(Id(m).code) > 8: mods.append(m)
    files = {}; fs = {}; outcome = {}; sentry = {}; gcs = {b: sorted({'mail%s@example.org' % s for s in scopes if r.random() < .7}) for b in ('bucket0', 'bucket1')}; index = {}; rules = []; srcs = []
    entry = {}      # (slot, scope) -> number of the source
    nslot = r.choice([1, 1, 2, 3])
    seen = set()
    for k in range(nslot):
        base = source(r, k, 'C07', mods); t = base['type']
        base.pop('filters', None); base.pop('headers', None); base.pop('accept_invalid_certs', None)
        if t != 'sentry':
            base['layout'] = dict(type=r.choice(['native', 'symstore', 'symstore', 'unified', 'ssqp', 'symstore_index2']), casing='default')
            base.pop('has_index', None)
            if base['layout']['type'] == 'symstore' and r.random() < .5: base['has_index'] = True
        public = t != 'sentry' and r.random() < .35
        base.pop('is_public', None)
        if public: base['is_public'] = True
        if t == 'http': base['url'] = base['url'].split('?')[0].rstrip('/') + '/slot%d' % k
        elif t in ('gcs', 's3'): base['prefix'] = 'slot%d' % k
        elif t == 'sentry': base['url'] = 'https://sentry.example.org/api/0/projects/org/slot%d/files/dsyms/' % k
        if k and t != 'sentry' and srcs[0]['type'] != 'sentry' and r.random() < .3: base['id'] = srcs[0]['id']        # the same name for another source
        how = 'same' if public else r.choice(['creds', 'creds', 'place', 'place', 'both', 'same'])
        if t == 'filesystem' and how in ('creds', 'both'): how = 'place'
        for n, sc in enumerate(scopes):
            s = json.loads(json.dumps(base))
            if how in ('creds', 'both'):
                if t == 'http': s['headers'] = {'Authorization': 'key %s' % sc}
                elif t == 's3': s.pop('aws_credentials_provider', None); s.setdefault('secret_key', 'sk'); s['access_key'] = 'ak-%s' % sc
                elif t == 'gcs': s['client_email'] = 'mail%s@example.org' % sc
            elif t == 'http' and not (how == 'place' and len(base['id']) % 2): s['headers'] = {'Authorization': 'key'}
            if t == 'sentry': s['token'] = 'tok-%s' % sc if how != 'same' else 'tok'
            if how in ('place', 'both'):
                if t == 'http': s['url'] += r.choice(['-%d', '/%d']) % n
                elif t in ('gcs', 's3'):
                    if r.random() < .5 and n < 2: s['bucket'] = s['bucket'][:-1] + str(n)
                    else: s['prefix'] += '/%d' % n
                elif t == 'sentry': s['url'] = s['url'].replace('slot%d' % k, 'slot%d-%d' % (k, n))
                else: s['path'] = s['path'].rstrip('/') + '/%d' % n
                if t == 's3' and how == 'place' and r.random() < .5: s[r.choice(['secret_key', 'region'])] = 'of-%s' % sc       # credentials that differ in one part
            entry[k, n] = len(srcs); srcs.append(s)
    def put(s, d, i, sure=None):
        key = d['store'] if s['type'] != 'filesystem' else d['path']
        if s['type'] == 'filesystem':
            if key in seen or any(len(c.encode()) > 255 for c in key.split('/')): return key in fs
            seen.add(key)
            if (r.random() < .3 and sure is None) or any(o.startswith(key + '/') or key.startswith(o + '/') for o in fs): return False
            v, o = sure or content(r, i); fs[key] = v; outcome[key] = o
            return True
        if s['type'] == 'gcs':
            if key in seen: return key in files
            seen.add(key)
            if sure is None and r.random() < .3: return False
            files[key], outcome[key] = sure or content(r, i); return True
        ck = '%s|%s' % (key, cred(s))
        if ck in seen: return ck in outcome and outcome[ck]['st'] != 'denied'
        seen.add(ck); outcome[key + '|'] = dict(st='denied')
        by = files.setdefault(key, dict(by={}))['by']
        if sure is None and r.random() < .3: return False
        v, o = sure or content(r, i)
        if s['type'] == 's3' and v == dict(hex=''): o = dict(st='notfound')
        by[cred(s)] = v; outcome[ck] = o
        return True
    idxs = {}
    for k, s in enumerate(srcs):
        if s['type'] == 'sentry':
            tab = sentry.setdefault(s['url'], {}).setdefault(s['token'], [])
            if tab: continue
            for mk, m in enumerate(mods):
                i = Id(m)
                for fid in r.sample(['%d1' % (mk + 1), '%d2' % (mk + 1), '%d3' % (mk + 1)], r.choice([0, 1, 2])):
                    tab.append(dict(id=fid, symbolType=r.choice(['elf', 'breakpad', 'macho', 'pe', 'pdb', 'sourcebundle']), debugId=layouts.debug_str(i), codeId=i.code))
                    put(s, layouts.sentry_file(s, fid, s['url']), i)
            continue
        idx = []
        for m in mods:
            i = Id(m)
            for t, loc in layouts.locations(s, layouts.TYPES, i, filters=False):
                if put(s, layouts.file(s, loc, i), i) and loc.count('/') == 2 and '"' not in loc and loc.split('/')[0] == loc.split('/')[2]: idx.append(loc)
        if s.get('has_index'):
            at = layouts.file(s, '000Admin/lastid.txt'); at = (at['store'] or at['path']) + ('|' + cred(s) if s['type'] != 'gcs' else '')
            if at not in idxs:
                idxs[at] = sorted(set(idx))
                if r.random() < .2: idxs[at] = []        # there is no index for this one
                else:
                    put(s, layouts.file(s, '000Admin/lastid.txt'), None, (dict(text='1'), dict(st='index')))
                    put(s, layouts.file(s, '000Admin/0000000001'), None, (dict(text=''.join('"%s\\%s","x"\r\n' % (l.split('/')[0], l.split('/')[1]) for l in idxs[at])), dict(st='index')))
            index[str(k)] = idxs[at]
    lives = []
    shared = r.random() < .3
    for L in range(r.choice([1, 1, 2, 3])):
        ops = []
        for t in cachesim.times(r, r.choice([2, 3, 6, 10]), r.choice([0, 50, 3000]), .6):
            n = r.randrange(len(scopes))
            sel = [entry[k, n] for k in range(nslot)]; r.shuffle(sel)
            if r.random() < .3: sel = sel[:1]
            o = dict(at=t, op=r.choice(['find', 'fetch', 'fetch', 'fetch']), oid=r.choice(mods), srcs=sel, purpose=r.choice(['unwind', 'debug', 'debug', 'source']), scope=scopes[n], auto=r.choice(['object', 'all']))
            if r.random() < .08: o['abandon'] = r.choice([0, 5, 100, 1000])
            ops.append(o)
        for k, o in enumerate(ops): o['id'] = k
        l = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=ops, settle=3000, rayon=2, chaos=r.choice([0, 0, 300]), gap=r.choice([0, 10, 3600]) * SEC, wait=True, net=dict(rules=[]))
        if r.random() < .15: l['kill'] = r.choice([1, 20, 200, 2000])
        if shared and r.random() < .4: l['wipe'] = True
        lives.append(l)
    for u in sorted({net_url(s, layouts.file(s, loc, Id(m))) for s in srcs if s['type'] in ('http', 's3', 'gcs') for m in mods for _, loc in layouts.locations(s, layouts.TYPES, Id(m), filters=False)}):
        if r.random() < .3: rules.append(dict(m='=' + u, act=dict(head=r.choice([1, 20, 300, 4000])), **({'count': 1} if r.random() < .5 else {})))
    for l in lives: l['net']['rules'] = rules
    cfg = cachesim.config(r, RET, cache_dir=r.random() < .8, shared=cachesim.shared_config(r, True) if shared else None)
    cfg.update(connect_timeout='50s', head_timeout='100s', max_download_timeout='1h', streaming_timeout='1000000000s', deny_list_enabled=False)
    return dict(config=cfg, sources=srcs, files=files, fs=fs, sentry=sentry, gcs=gcs, index=index, outcome=outcome, norange=[], lives=lives)

def judge_C07(scn, res, root):
    bad, probes = judge(scn, res, root)
    bad = [('C07', c, m) for _, c, m in bad]
    w = World(scn, root)
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    asked = {}          # url, credential -> requests so far
    got = {}            # url, credential -> scopes that were given the file
    done = {}           # url -> when a public file was known
    wiped = False
    for L, (l, x) in enumerate(zip(w.scn['lives'], res)):
        ops = {o['id']: o for o in l['ops']}
        wiped = wiped or l.get('wipe')      # from here on what is known about a file may come from the shared cache, without the file
        for e in x['ev']:
            if e['e'] == 'net':
                h = {k.lower(): v for k, v in e['h']}
                u = unquote(e['url']); c = h.get('x-access-key') or h.get('authorization', '')
                asked[u] = asked.get(u, 0) + 1
                if u in done and e['t'] > done[u][1] and (scn['config'].get('cache_dir')): bad.append(('C07', 'not-shared', 'life %d: %s of a public source is requested again although another request was answered with it in life %d' % (L, u, done[u][0])))
            elif e['e'] == 'res' and e['r'] in ops and not e.get('aband') and not e.get('panic'):
                o = ops[e['r']]
                cand = {(c['source'], norm(c['location'])): c['download']['status'] for c in e['cand']}
                for s, d in w.files(o):
                    u = net_url(s, d)
                    if u is None or cand.get((d['src'], d['uri'])) != 'ok': continue
                    if d['public']:
                        if not wiped: done.setdefault(u, (L, e['t'])); p('public file known')
                        continue
                    g = got.setdefault(u, set()); g.add(o['scope'])
                    if len(g) > 1: p('private file in several scopes')
                    if len(g) > asked.get(u, 0): bad.append(('C07', 'without-asking', 'life %d op %d: %s was given to %d scopes after %d requests for it' % (L, o['id'], u, len(g), asked.get(u, 0))))
        done = {u: (L0, -1) for u, (L0, _) in done.items()}
        nxt = w.scn['lives'][L + 1] if L + 1 < len(w.scn['lives']) else None
        if nxt and nxt.get('wipe'): done = {}
    return bad, probes

# ---------------------------------------------------------------- scenarios
RET = {c: (24 * 3600000, 48 * 3600000, 24 * 3600000, 96 * 3600000) for c in ('downloaded', 'derived', 'index')}
def gen_scn(prop, seed):
    r = random.Random('%s/%d' % (prop, seed))
    if prop == 'C07': return dict(gen_C07(r), seed=seed, prop=prop)
    mods = [module(r) for _ in range(r.choice([1, 1, 2, 3]))]
    nsrc = r.choice([1, 2, 2, 3, 4] if prop == 'O03' else [1, 2, 3, 4, 5])
    srcs = [source(r, k, prop, mods) for k in range(nsrc)]
    variants = []
    for m in mods:
        variants.append(m)
        if r.random() < .3:
            v = dict(m)
            for k in r.sample(['code_id', 'debug_id', 'code_file', 'debug_file', 'debug_checksum'], r.choice([1, 1, 2])): v.pop(k, None)
            if v.get('code_id') or v.get('debug_id'): variants.append(v)
    files = {}; fs = {}; outcome = {}; rules = []; sentry = {}; index = {}; placed = {}
    seen = set()
    def put(src, d, i):
        """Decides what is at a location."""
        k = d['store'] if src['type'] != 'filesystem' else d['path']
        if (src['type'], k) in seen: return False
        seen.add((src['type'], k))
        present = r.random() < (.55 if prop == 'O03' else .7)
        if src['type'] == 'filesystem':
            if any(len(c.encode()) > 255 for c in k.split('/')): return False
            if not present: return False
            # a file cannot lie under a file
            if k.endswith('/') or any(o == k or o.startswith(k + '/') or k.startswith(o + '/') for o in fs): return False
            v, o = content(r, i); fs[k] = v; outcome[k] = o
            return True
        if present:
            v, o = content(r, i); files[k] = v; outcome[k] = o
            if src['type'] == 's3' and v == dict(hex=''): outcome[k] = dict(st='notfound')
        a, eff = act(r) if prop != 'O03' or r.random() < .3 else (None, None)
        if a and src['type'] == 's3' and ('connect' in a['act'] or a['act'].get('status') in (410, 400, 418)): a = eff = None
        if a and src['type'] == 's3' and a['act'].get('status') == 404: a = dict(act=dict(status=404, code='NoSuchKey'))
        if a and src['type'] == 's3' and a['act'].get('status') in (401, 403): a = dict(act=dict(status=403, code='AccessDenied')); eff = None; outcome.pop(k, None); a['effect'] = 'unspec'
        if a:
            a = dict(a)
            if a.pop('effect', None): outcome[k] = dict(st='unspec')
            elif eff: outcome[k] = eff
            rules.append(dict(a, m='=' + net_url(src, d)))
        return present
    gcs = {}
    for k0, s in enumerate(srcs):
        if s['type'] == 'gcs': gcs.setdefault(s['bucket'], sorted({e for e in ('mail0@example.org', 'mail1@example.org') if r.random() < .9}))
        if s['type'] == 'sentry':
            tab = sentry.setdefault(s['url'], {}).setdefault(s['token'], [])
            for v in variants:
                i = Id(v)
                for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                    fid = str(r.randrange(1, 10**6)) if r.random() < .9 else 'id-é%d' % r.randrange(10**6)
                    e = dict(id=fid, symbolType=r.choice(['pe', 'pdb', 'portablepdb', 'macho', 'elf', 'wasm', 'breakpad', 'sourcebundle', 'uuidmap', 'bcsymbolmap', 'il2cpp', 'proguard', 'macho', 'elf', 'breakpad']))
                    if i.debug is not None: e['debugId'] = layouts.debug_str(i)
                    if i.code is not None: e['codeId'] = i.code
                    tab.append(e)
                    put(s, layouts.sentry_file(s, fid, s['url']), i)
            continue
        idx = [] if s.get('has_index') and (s.get('layout') or {}).get('type') == 'symstore' else None
        for v in variants:
            i = Id(v)
            for t, loc in layouts.locations(s, layouts.TYPES, i, filters=False):
                d = layouts.file(s, loc, i)
                here = put(s, d, i)
                if idx is not None and (here or r.random() < .1) and loc.count('/') == 2 and '"' not in loc and loc.split('/')[0] == loc.split('/')[2]: idx.append(loc)
        at = layouts.file(s, '000Admin/lastid.txt'); at = at['store'] or at['path']
        if idx is not None and at in placed: index[str(k0)] = placed[at]       # same place as another source
        elif idx is not None:
            n = r.choice([1, 2, 3]); segs = [[] for _ in range(n)]
            for loc in sorted(set(idx)):
                if r.random() < .85: segs[r.randrange(n)].append(loc)
            store = lambda loc, text: fs.__setitem__(layouts.file(s, loc)['path'], dict(text=text)) if s['type'] == 'filesystem' else files.__setitem__(layouts.file(s, loc)['store'], dict(text=text))
            store('000Admin/lastid.txt', '%010d' % n + r.choice(['', '\n', '\r\n']))
            for k in range(n):
                store('000Admin/%010d' % (k + 1), ''.join('"%s\\%s","D:\\build\\%s"\r\n' % (l.split('/')[0], l.split('/')[1], l.split('/')[0]) for l in segs[k]) or ('"other.pdb\\0","x"\r\n' if s['type'] == 's3' or r.random() < .5 else ''))       # the S3 client takes an empty file for a missing one
            index[str(k0)] = placed[at] = sorted(x for g in segs for x in g)
    lives = []
    nl = r.choice([1, 1, 1, 2])
    for L in range(nl):
        ops = []
        for t in cachesim.times(r, r.choice([1, 2, 4, 8] if prop == 'O03' else [1, 3, 6, 10]), r.choice([0, 50, 3000]), .6):
            v = r.choice(variants)
            sel = list(range(nsrc)); r.shuffle(sel)
            if r.random() < .25: sel = sel[:r.randrange(0, nsrc + 1)]
            o = dict(at=t, op=r.choice(['list', 'find', 'fetch', 'fetch']), oid=v, srcs=sel, purpose=r.choice(['unwind', 'debug', 'debug', 'source']), scope=r.choice([None, 'p1', 'p1', 'p2']))
            if r.random() < .5: o['auto'] = r.choice(['object', 'object', 'sources', 'all'])
            else: o['types'] = r.sample(layouts.TYPES, r.choice([1, 2, 4, 15]))
            if o['op'] != 'list' and r.random() < .08: o['abandon'] = r.choice([0, 5, 100, 1000])
            ops.append(o)
        for k, o in enumerate(ops): o['id'] = k
        l = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=ops, settle=1000, rayon=2, chaos=r.choice([0, 0, 300]) if L == 0 else 0, gap=r.choice([0, 10, 3600]) * SEC, net=dict(rules=rules))
        if r.random() < .2: l['faults'].append(['any', r.choice([1, 50, 300, r.randrange(1, 1000)]), *r.choice([(1, "delay", 3 * SEC), (20, "delay", 10**6), (20, "delay", 10**8), (1, "delay", 10**8)]), ''])        # less than the 30 s a search may take
        lives.append(l)
    # searches in Sentry that fail for a while or for good
    for s in srcs:
        if s['type'] == 'sentry' and r.random() < .15:
            for v in variants:
                i = Id(v)
                q = 'debug_id=' + layouts.debug_str(i) if i.debug is not None else 'code_id=%s' % i.code
                rules.append(dict(m='=%s?%s' % (s['url'], q), act=r.choice([dict(status=503), dict(reset=True)]), count=r.choice([1, 2]), sentry=1))
    for l in lives: l['net']['rules'] = [{k: v for k, v in x.items() if k != 'sentry'} for x in rules]
    cfg = cachesim.config(r, RET, cache_dir=r.random() < .8)
    cfg.update(connect_timeout='50s', head_timeout='100s', max_download_timeout='1h', streaming_timeout='1000000000s', deny_list_enabled=False)
    return dict(config=cfg, sources=srcs, files=files, fs=fs, sentry=sentry, gcs=gcs, index=index, outcome=outcome, norange=[h.split(':')[0] for h in HOSTS if r.random() < .2] + [b for b in ('bucket0', 'sentry') if r.random() < .2], lives=lives, seed=seed, prop=prop)

def make(prop, seed, root): return gen_scn(prop, seed)

def extra(scn):
    def f(root):
        for p, v in scn.get('fs', {}).items():
            q = p.replace('@ROOT', root)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as fh: fh.write(value(v))
        for s in scn['sources']:
            if s['type'] == 'filesystem': os.makedirs(s['path'].replace('@ROOT', root), exist_ok=True)
    return f

def value(v):
    if 'text' in v: return v['text'].encode()
    if 'hex' in v: return bytes.fromhex(v['hex'])
    b = value(v['of'])
    if 'cut' in v: return b[:v['cut']]
    if v['enc'] == 'gzip': return gzip.compress(b, 5, mtime=0)
    if v['enc'] == 'zlib': return zlib.compress(b, 9)
    return common.zstd_compress(b)

# ---------------------------------------------------------------- the expected answers
class World:
    def __init__(self, scn, root):
        self.scn = simrun.subst(scn, root)
        self.src = self.scn['sources']
        self.outcome = {}
        for k, o in scn['outcome'].items(): self.outcome[k.replace('@ROOT', root)] = o
    def files(self, op):
        """Expected files in order: [(source, description)]"""
        i = Id(op['oid']); types = layouts.auto_types(op['auto'], i.type) if op.get('auto') else op['types']
        out = []
        for k in op['srcs']:
            s = self.src[k]
            if s['type'] == 'sentry':
                out += [(s, layouts.sentry_file(s, f, s['url'])) for f in layouts.sentry_listing(self.scn['sentry'], s, types, i)]
            else:
                idx = self.scn['index'].get(str(k))
                if idx is not None and s['type'] == 'gcs' and s['client_email'] not in self.scn['gcs'].get(s['bucket'], []): idx = []
                out += [(s, layouts.file(s, loc, i)) for _, loc in layouts.locations(s, types, i, idx)]
        return out
    def result(self, s, d):
        if s['type'] == 'gcs' and s['client_email'] not in self.scn['gcs'].get(s['bucket'], []): return self.gcs_denied(s, d)
        if s['type'] == 'filesystem':
            if any(len(c.encode()) > 255 for c in d['path'].split('/')): return dict(st='unspec')
            p = d['path']
            if d['path'] not in self.outcome and any(q.startswith(p.rstrip('/') + '/') or p.startswith(q + '/') for q in self.scn['fs']): return dict(st='unspec')
            return self.outcome.get(p, dict(st='notfound'))
        if d['store'] + '|' in self.outcome: return self.outcome.get('%s|%s' % (d['store'], cred(s)), dict(st='denied' if s['type'] != 'sentry' else 'notfound'))
        return self.outcome.get(d['store'], dict(st='notfound'))
    def gcs_denied(self, s, d):
        return dict(st='unspec' if any(x['m'] == '=' + net_url(s, d) for x in self.scn['lives'][0]['net']['rules']) else 'noperm')

QUAL = dict(unwind=lambda f: 0 if f['has_unwind_info'] else None, debug=lambda f: 0 if f['has_debug_info'] else 1 if f['has_symbols'] else None, source=lambda f: 0 if f['has_sources'] else None)
def choose(files, w, purpose):
    """Index of the preferred file. None: there is nothing to answer with."""
    best = None
    for k, (s, d) in enumerate(files):
        o = w.result(s, d)
        if o['st'] == 'ok':
            q = QUAL[purpose](o['feat'])
            if q is None: continue
        else: q = 3
        if best is None or q < best[0]: best = (q, k)
    return None if best is None else best[1]

def norm(x): return unquote(x) if isinstance(x, str) and x.split(':')[0] in ('http', 'https', 's3', 'gs') else x
FIELDS = ('src', 'key', 'public', 'metric', 'shared', 'disp', 'host', 's3key', 'path', 'h')
def flat(d, decode=True):
    o = {k: d[k] for k in FIELDS if k in d and not (k == 'host' and d.get('disp', '').startswith('Sentry'))}
    for k in ('uri', 'url'):
        if k in d: o[k] = norm(d[k]) if decode else d[k]
    return json.dumps(o, sort_keys=True, ensure_ascii=False)

def judge(scn, res, root):
    """Complaints by property: [(prop, category, message)]"""
    bad = []; w = World(scn, root)
    probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    for L, (l, x) in enumerate(zip(w.scn['lives'], res)):
        ops = {o['id']: o for o in l['ops']}
        allowed_urls = {}
        for o in l['ops']:
            if o['op'] not in ('list', 'find', 'fetch'): continue
            for s, d in w.files(o):
                u = net_url(s, d)
                if u: allowed_urls.setdefault(norm_url(u), []).append((s, d))
            for k in o['srcs']:
                s = w.src[k]; i = Id(o['oid'])
                if s['type'] == 'sentry':
                    if i.debug is not None: allowed_urls.setdefault('%s?debug_id=%s' % (s['url'], layouts.debug_str(i)), []).append((s, None))
                    elif i.code is not None: allowed_urls.setdefault('%s?code_id=%s' % (s['url'], i.code), []).append((s, None))
                elif str(k) in w.scn['index']:
                    for loc in ['lastid.txt'] + ['%010d' % n for n in range(1, 4)]:
                        d = layouts.file(s, '000Admin/' + loc); u = net_url(s, d)
                        if u: allowed_urls.setdefault(norm_url(u), []).append((s, d))
        for e in x['ev']:
            if e['e'] == 'net':
                if e['url'].startswith('https://www.googleapis.com/'): continue
                u = norm_url(unquote(e['url'])); c = allowed_urls.get(u)
                h = {k.lower(): v for k, v in (e['h'].items() if isinstance(e['h'], dict) else e['h'])}
                if c is None: bad.append(('O03', 'stray-request', 'life %d: request for %s, where none of the lookups has a file' % (L, u))); continue
                p('requests')
                if not any(headers_ok(s, d, h, e) for s, d in c): bad.append(('O03', 'headers', 'life %d: request for %s with headers %s does not fit its source %s' % (L, u, json.dumps(h), [s['id'] for s, _ in c])))
                if not h.get('user-agent', 'symbolicator/').startswith('symbolicator/') or ('user-agent' not in h and e['proto'] == 'http' and c[0][0]['type'] != 'gcs'): bad.append(('O03', 'headers', 'life %d: request for %s without the user agent' % (L, u)))
            elif e['e'] == 'res' and e['r'] in ops and not e.get('aband'):
                o = ops[e['r']]
                if o['op'] not in ('list', 'find', 'fetch'): continue
                if e.get('panic'): bad.append(('*', 'panic', 'life %d: op %d panicked' % (L, o['id']))); continue
                exp = w.files(o)
                if o['op'] == 'list':
                    got = [flat(f) for f in e['files']]; want = [flat(d, False) for _, d in exp]
                    p('listings'); p('locations', len(want))
                    for g in sorted(set(got) - set(want)): bad.append(('O03', 'strange-location', 'life %d op %d: looked for at %s' % (L, o['id'], g)))
                    for g in sorted(set(want) - set(got)): bad.append(('O03', 'missing-location', 'life %d op %d: not looked for at %s' % (L, o['id'], g)))
                    if set(got) == set(want) and got != want: bad.append(('O01', 'order', 'life %d op %d: locations in the order %s instead of %s' % (L, o['id'], [json.loads(g)['uri'] for g in got], [json.loads(g)['uri'] for g in want])))
                    continue
                bad += judge_find(w, L, o, e, exp, p)
    return bad, probes

def norm_url(u): return u.replace('/?', '?') if False else u

def headers_ok(s, d, h, e):
    if s['type'] == 's3':
        rg = s['region']
        own = s.get('aws_credentials_provider') == 'container'
        want = {'x-access-key': 'ecs' if own else s['access_key'], 'x-secret-key': 'ecs' if own else s['secret_key'], 'x-region': rg if isinstance(rg, str) else rg[0]}
        if not isinstance(rg, str): want['x-endpoint'] = rg[1]
        return all(h.get(k) == v for k, v in want.items())
    if s['type'] == 'sentry': return h.get('authorization') == 'Bearer ' + s['token'] and not e['cert']
    if s['type'] == 'gcs': return h.get('authorization', '').startswith('Bearer tok-%s-' % s['client_email']) and not e['cert']
    if bool(s.get('accept_invalid_certs')) != bool(e['cert']): return False
    if any(h.get(k.lower()) != v for k, v in (s.get('headers') or {}).items()): return False
    extra = set(h) - {k.lower() for k in (s.get('headers') or {})} - {'user-agent', 'accept', 'accept-encoding', 'range', 'symbolchecksum', 'host', 'referer'}
    return not extra

def judge_find(w, L, o, e, exp, p):
    bad = []; tag = 'life %d op %d' % (L, o['id'])
    p('lookups')
    want = {}
    for s, d in exp: want.setdefault((d['src'], d['uri']), w.result(s, d))
    for k in o['srcs']:
        if not any(s['id'] == w.src[k]['id'] for s, _ in exp): want[(w.src[k]['id'], NOLIST)] = dict(st='notfound')
    got = {}
    for c in e['cand']:
        k = (c['source'], norm(c['location']))
        if k in got: bad.append(('O02', 'twice', '%s: %s is reported twice' % (tag, k)))
        got[k] = c
    for k in want:
        if k not in got: bad.append(('O02', 'left-out', '%s: location %s is missing from the report' % (tag, k)))
    for k in got:
        if k not in want: bad.append(('O02', 'strange', '%s: the report names %s, where the file cannot be' % (tag, k)))
    unsure = any(o2['st'] == 'unspec' for o2 in want.values())
    for k, c in got.items():
        if k not in want: continue
        m = want[k]; st = c['download']['status']
        p('candidate ' + st)
        if m['st'] == 'unspec': continue
        if m['st'] == 'denied' and st in ('noperm', 'error', 'notfound'): continue
        if st != m['st']: bad.append(('O02', 'untrue', '%s: %s is reported as %s, but it is %s' % (tag, k, json.dumps(c['download']), m['st'])))
        elif st == 'ok' and c['download']['features'] != m['feat']: bad.append(('O02', 'untrue-features', '%s: %s is reported with %s, but has %s' % (tag, k, c['download']['features'], m['feat'])))
    # the chosen file
    meta = e['meta']
    k = choose(exp, w, o['purpose'])
    if unsure and (k is None or w.result(*exp[k])['st'] != 'ok'): return bad
    if k is None:
        if meta is not None: bad.append(('O01', 'chosen', '%s: %s was chosen, but there is no suitable file' % (tag, json.dumps(meta))))
        return bad
    s, d = exp[k]; m = w.result(s, d)
    if m['st'] == 'ok': p('found')
    if meta is None or (meta['src'], norm(meta['uri'])) != (d['src'], d['uri']):
        prop = 'O01' if meta is not None and any((x['src'], x['uri']) == (meta['src'], norm(meta['uri'])) for _, x in exp) else 'O03'
        bad.append(('O01', 'chosen', '%s: chose %s instead of %s' % (tag, json.dumps(meta), (d['src'], d['uri']))))
        if m['st'] == 'ok': bad.append(('O03', 'not-found', '%s: the file %s %s was not found but %s' % (tag, d['src'], d['uri'], json.dumps(meta))))
        return bad
    if m['st'] != 'ok':
        if 'feat' in meta: bad.append(('O01', 'chosen', '%s: %s has no suitable file but was answered with %s' % (tag, d['uri'], json.dumps(meta))))
        return bad
    if 'err' in meta:
        bad.append(('O03', 'not-found', '%s: the file at %s %s was not found: %s' % (tag, d['src'], d['uri'], json.dumps(meta)))); return bad
    if meta['feat'] != m['feat']: bad.append(('O01', 'features', '%s: %s has %s, not %s' % (tag, d['uri'], m['feat'], meta['feat'])))
    sc = 'global' if d['public'] else (o['scope'] or 'global')
    if meta['scope'] != sc: bad.append(('C07', 'scope', '%s: file of %s used in scope %s instead of %s' % (tag, d['src'], meta['scope'], sc)))
    if 'data' in e and (e['data'].get('ok', {}).get('len') != m['len'] or e['data']['ok'].get('hash') != m['hash']):
        bad.append(('O03', 'content', '%s: %s %s has other content (%s) than the source' % (tag, d['src'], d['uri'], json.dumps(e['data']))))
    return bad

def execute(scn, root):
    res = simrun.run_lives('svc', scn, root, extra(scn))
    bad, discard = simrun.general(res)
    probes = {}
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        js, probes = judge_C07(scn, res, root) if scn['prop'] == 'C07' else judge(scn, res, root)
        bad += [(c, m) for q, c, m in js if q in (scn['prop'], '*')]
    trivial = not (probes.get('listings', 0) + probes.get('lookups', 0))
    sample = dict(seed=scn['seed'], sources=[(s['type'], (s.get('layout') or {}).get('type')) for s in scn['sources']], lives=len(scn['lives']), ops=sum(len(l['ops']) for l in scn['lives']))
    return simrun.summary(scn, res, bad, discard, sample, trivial, probes)

def shrink_steps(scn):
    return [['lives', i, k] for i in range(len(scn['lives'])) for k in ('ops', 'faults')] + [['lives', i, 'net', 'rules'] for i in range(len(scn['lives']))]

def simplify(scn):
    c = lambda: json.loads(json.dumps(scn))
    for i, l in enumerate(scn['lives']):
        if len(scn['lives']) > 1: s = c(); del s['lives'][i]; yield s
        for k in ('stall', 'spurious'):
            if l.get(k): s = c(); del s['lives'][i][k]; yield s
        for k, v in (('alloc', 0), ('chaos', 0), ('gap', 0), ('workers', 1)):
            if l.get(k, v) != v: s = c(); s['lives'][i][k] = v; yield s
        for j, o in enumerate(l['ops']):
            if len(o.get('srcs', [])) > 1:
                for n in range(len(o['srcs'])): s = c(); del s['lives'][i]['ops'][j]['srcs'][n]; yield s
            if len(o.get('types', [])) > 1:
                for n in range(len(o['types'])): s = c(); del s['lives'][i]['ops'][j]['types'][n]; yield s

RULE_TEXT = ('Each run generates modules (identifiers and names of every kind), one to five sources of all kinds with layouts, filters and indexes, files at about half of the possible locations, failures per location, and lookups with their '
             'timing over one or two process lives; distinct when the hash of the whole trace (schedule, file operations, faults) is new; trivial when no lookup was made.')
REAL = ['symbolicator-sources (paths, filters, sources, remote files, indexes)', 'symbolicator-service: objects, download (all source kinds, partial downloads, indexes), caching, config, types', 'symbolic-common and symbolic-debuginfo (object parsing)', 'tokio (multi-thread runtime, fs, time, sync), futures, tempfile, compression', 'kernel file system (tmpfs)']
STUB = ['thread scheduling, clocks, randomness and results of file operations come from the simulator (LD_PRELOAD)', 'reqwest, aws-sdk-s3, jsonwebtoken: simulated network and servers', 'moka: stand-in with the documented semantics, plus arbitrary evictions', 'sentry, cadence: no-ops']
ASSUME = ['threads are preempted at system calls, synchronisation and allocations only', 'the simulated servers answer like the real services as far as symbolicator uses them', 'the path model in py/layouts.py states the documented layouts']
