"""JavaScript symbolication (N01): frames are resolved from the artifacts the documented lookup order names, whatever was asked before."""
import base64, json, os, random, re
from urllib.parse import urlsplit
import common, simrun, cachesim
from simrun import SEC

MS = 10**6
SIM = os.path.join(common.TARGET, 'debug', 'jssim')
EPS = .4 * SEC
BASE = 'https://sentry.example.org/api/0/projects/o/p%d/artifact-lookup/'

# ---------------------------------------------------------------- the reference model
def fnv(b):
    h = 0xcbf29ce484222325
    for c in b: h = ((h ^ c) * 0x100000001b3) & (2**64 - 1)
    return h
def strip_host(p):
    if p.startswith('~'): return p[1:]
    if '://' in p:
        rest = p.split('://', 1)[1]
        return rest[rest.index('/'):] if '/' in rest else rest
    return p
def candidates(u):
    u = u.split('#')[0]; rel = strip_host(u)
    out = [u]
    if '?' in u: out.append(u.split('?', 1)[0])
    out.append('~' + rel)
    if '?' in rel: out.append('~' + rel.split('?', 1)[0])
    return out
def stem(p):
    p = strip_host(p)
    if '/' not in p: return p
    pre, name = p.rsplit('/', 1)
    name = name.split('?', 1)[0].split('#', 1)[0]
    while True:
        old = name
        for s in ('.min', '.js', '.map', '.cjs', '.mjs', '.ts', '.d', '.jsx', '.tsx'):
            while name.endswith(s): name = name[:-len(s)]
        if name == old: return pre + '/' + name
def join(base, right):
    if '://' in right or right.startswith('webpack:'): return right
    scheme, rest = base.split('://', 1) if '://' in base else ('file', base)
    if right.startswith('~'): right = right[1:]
    if right.startswith('/'):
        if scheme == 'file': return right
        if right.startswith('//'): return scheme + '://' + right[2:]
        return scheme + '://' + rest.split('/')[0] + right
    segs = rest.split('/'); out = ''
    if scheme != 'file': out = scheme + '://' + segs.pop(0)
    elif segs[0] == '': segs.pop(0)
    if segs: segs.pop()
    http = scheme in ('http', 'https'); first = True
    for s in right.split('/'):
        if s == '..':
            if segs: segs.pop(); continue
            if http: continue
        if s == '.' and (http or first): continue
        first = False; segs.append(s)
    return out + ''.join('/' + s for s in segs if s)
def last_comment(text, marks):
    for l in reversed([x[:-1] if x.endswith('\r') else x for x in text.split('\n')]):
        for m in marks:
            if l.startswith(m): return l[len(m):].strip()
    return None
def comment_map(text):
    u = last_comment(text, ('//# sourceMappingURL=', '//@ sourceMappingURL='))
    return None if u is None else u.split('?', 1)[0].split('#', 1)[0]
def parse_did(s):
    m = re.fullmatch(r'([0-9a-f]{8})-?([0-9a-f]{4})-?([0-9a-f]{4})-?([0-9a-f]{4})-?([0-9a-f]{12})(?:-?([0-9a-f]{1,8}))?', s.lower())
    if not m: return None
    a = int(m.group(6) or '0', 16)
    return '-'.join(m.group(i) for i in range(1, 6)) + ('-%x' % a if a else '')
def map_ref(base, ref):
    """-> ('data', text) | ('url', url) | ('bad', )"""
    if not ref.startswith('data:'): return ('url', join(base, ref))
    try:
        head, body = ref[5:].split(',', 1)
        return ('data', (base64.b64decode(body, validate=True) if head.endswith(';base64') else body.encode()).decode())
    except ValueError: return ('bad',)
def valid_origin(url, allowed):
    if '*' in allowed or url in allowed: return True
    u = urlsplit(url); host = u.hostname or ''; port = u.port or {'http': 80, 'https': 443}.get(u.scheme)
    for a in allowed:
        scheme, rest = a.split('://', 1) if '://' in a else ('*', a)
        if scheme not in ('*', u.scheme): continue
        if rest.startswith('*.'):
            if host == rest[2:] or host.endswith(rest[1:]): return True
        elif rest in ('*', host, '*:%s' % port, '%s:%s' % (host, port)): return True
    return False
def floor_char(b, i):
    if i >= len(b): return len(b)
    while b[i] & 0xc0 == 0x80: i -= 1
    return i
def trim(line, col):
    b = line.encode(); n = len(b)
    if n <= 150: return line
    col = min(col, n); start = max(0, col - 60)
    if start < 5: start = 0
    end = min(start + 140, n)
    if end > n - 5: end = n
    if end == n: start = max(0, end - 140)
    start, end = floor_char(b, start), floor_char(b, end)
    return ('{snip} ' if start > 0 else '') + b[start:end].decode() + (' {snip}' if end < n else '')
def context(frame, text):
    lines = text.split('\n')
    if lines and lines[-1] == '': lines.pop()
    lines = [l[:-1] if l.endswith('\r') else l for l in lines]
    no, col = frame['lineno'], frame.get('colno') or 0
    if no - 1 >= len(lines): return
    pre = [trim(l, col) for l in lines[max(0, no - 6):no - 1]]; post = [trim(l, col) for l in lines[no:no + 5]]
    for k, v in (('pre_context', pre), ('post_context', post)):
        if v: frame[k] = v
        else: frame.pop(k, None)
    frame['context_line'] = trim(lines[no - 1], col)
def fold(name):
    parts = name.split('.')
    if len(parts) == 1: return name
    tail = parts.pop(); g = []
    for p in parts:
        if g and g[-1][0] == p: g[-1][1] += 1
        else: g.append([p, 1])
    return '.'.join(p if n == 1 else '{%s#%d}' % (p, n) for p, n in g) + '.' + tail
def fix_webpack(f):
    if '/~/' in f: return '~/' + f.split('/~/', 1)[1]
    g = re.sub(r'^webpack(-internal)?://[a-zA-Z0-9_\-@\.]+/\./', './', f)
    if g != f: return g
    for p in ('webpack:///', 'webpack-internal:///'):
        if f.startswith(p): return f[len(p):]
    return f
CLEAN = re.compile(r'''^(?:/|(?:(?:java)?scripts?|js|build|static|node_modules|bower_components|[_\.~].*?|v?(?:\d+\.)*\d+|[a-f0-9]{7,8}|[a-f0-9]{32}|[a-f0-9]{40})/)+|(?:[-\.][a-f0-9]{7,}$)''', re.I)
def module_name(p):
    p = re.split('[#?]', strip_host(p), maxsplit=1)[0]
    i = max(p.rfind('.'), p.rfind('/'))
    if i >= 0 and p[i] == '.': p = p[:i]
    if p.endswith('.min'): p = p[:-4]
    segs = p.split('/')
    for k, s in enumerate(segs):
        if re.fullmatch('[0-9a-fA-F]{32}|[0-9a-fA-F]{40}', s): return '/'.join(segs[k + 1:])
    return CLEAN.sub('', p)

class Stop(Exception): pass

class Event:
    """Symbolication of one request from scratch in the given world."""
    def __init__(self, world, req):
        self.w = world; self.q = req; self.bundles = {}; self.singles = {}; self.attempts = []; self.contacts = set(); self.scrapes = set()
        self.proj = world['projects'][req['src']]
    def text_of(self, url):
        """What a download of this URL gives: bytes or an error."""
        for m, how in self.w['broken']:
            if m in url: return None, how
        v = self.w['files'].get(url)
        return (v, None) if v is not None else (None, 'not_found')
    def lookup(self, ty, did, url):
        """API lookup -> is there anything new"""
        rel = self.q.get('release')
        if did is None and (url is None or rel is None): return False
        self.contacts.add('lookup')
        for m, how in self.w['broken']:
            if m in self.proj['source']['url'] + '?': return False
        new = False
        st = stem(url) if url is not None and rel is not None else None
        for e in self.proj['entries']:
            hit = did in e['debug_ids'] if did is not None else False
            if rel is not None and e.get('release') == rel and e.get('dist') in (None, self.q.get('dist')) and st is not None and any(st in u for u in e['urls']): hit = True
            if not hit: continue
            if e['type'] == 'file':
                if e['abs_path'] not in self.singles: self.singles[e['abs_path']] = e; new = True
            elif e['id'] not in self.bundles:
                self.contacts.add(e['url']); v, err = self.text_of(e['url'])
                self.bundles[e['id']] = (v['bundle'] if err is None and isinstance(v, dict) and 'bundle' in v and not v.get('cut') else None, e); new = True
        return new
    def descriptor(self, f, base):
        ref = next((v for n in ('sourcemap', 'x-sourcemap') for k, v in f['headers'].items() if k.lower() == n), None)
        if ref is None and f['type'] in ('source', 'minified_source'): ref = comment_map(f['text'])
        if ref is None: return dict(text=f['text'], ref=None, did=None)
        if base is None: return dict(err='malformed')
        m = map_ref(base, ref)
        return dict(err='malformed') if m[0] == 'bad' else dict(text=f['text'], ref=m, did=None)
    def from_bundles(self, ty, did, url):
        key = {'minified_source': lambda: dict(abs_path=url), 'source_map': lambda: dict(abs_path=url) if url is not None else {}, 'source': lambda: dict(abs_path=url)}[ty]()
        if did is not None and ty != 'source': key['debug_id'] = did
        order = ['sentry://project_debug_file/' + i for i in self.bundles]; order = [u.rsplit('/', 1)[1] for u in sorted(order, reverse=True)]
        if did is not None:
            for i in order:
                files, e = self.bundles[i]
                for f in files or []:
                    if f['type'] == ty and parse_did(next((v for k, v in f['headers'].items() if k.lower() == 'debug-id'), '')) == did:
                        return dict(self.descriptor(f, url), uri={'bundled': ['sentry://project_debug_file/' + i, {ty: key}]}, rw='debug-id')
        if url is not None:
            for c in candidates(url):
                for i in order:
                    files, e = self.bundles[i]
                    for f in files or []:
                        if f['url'] == c: return dict(self.descriptor(f, url), uri={'bundled': ['sentry://project_debug_file/' + i, {ty: key}]}, rw=e.get('resolved_with') or 'unknown')
        return None
    def from_singles(self, url):
        if url is None: return None
        for c in candidates(url):
            if c in self.singles:
                e = self.singles[c]; self.contacts.add(e['url'])
                v, err = self.text_of(e['url'])
                if err is None and isinstance(v, dict): err = 'malformed'
                if err is None and v == '': err = 'not_found'
                if err == 'not_found' and e['headers']: v, err = '', None
                d = dict(uri={'individual_file': 'sentry://project_debug_file/' + e['id']}, rw=e.get('resolved_with') or 'unknown')
                if err: return dict(d, err=err)
                heads = {k.lower(): x for k, x in e['headers'].items()}
                ref = heads.get('sourcemap', heads.get('x-sourcemap', comment_map(v)))
                m = map_ref(url, ref) if ref is not None else None
                return dict(d, text=v, ref=None if m and m[0] == 'bad' else m, did=parse_did(last_comment(v, ('//# debugId=',)) or ''))
        return None
    def attempt(self, url, status, reason=None): self.attempts.append((url, status, reason))
    def get(self, ty, did, url):
        f = self.from_bundles(ty, did, url) or self.from_singles(url)
        if f is None and self.lookup(ty, did, url): f = self.from_bundles(ty, did, url) or self.from_singles(url)
        if f is not None:
            if url is not None: self.attempt(url, 'not_attempted')
            return f
        return self.scrape(url)
    def scrape(self, url):
        d = dict(uri={'scraped_file': url}, rw='unknown')
        if url is None: return dict(err='not_found', uri={'individual_file': '<invalid>'}, rw='unknown')
        if not re.match(r'[a-zA-Z][a-zA-Z0-9+.-]*:', url): return dict(d, err='url')
        s = self.q['scraping']
        if not s['enabled']: self.attempt(url, 'failure', 'disabled'); return dict(d, err='disabled')
        if not re.match('https?:', url) or not valid_origin(url, s['allowed_origins']) or urlsplit(url).hostname in ('localhost', '127.0.0.1'):
            self.attempt(url, 'failure', 'invalid_host'); return dict(d, err='host')
        bare = url.split('#')[0]; self.scrapes.add(bare)
        d = dict(uri={'scraped_file': bare}, rw='scraping')
        v, err = self.text_of(bare)
        if err is None and isinstance(v, dict): err = 'other'
        if err is None and v == '': err = 'not_found'
        if err: self.attempt(url, 'failure', err); return dict(d, err='malformed' if err == 'other' else err)
        self.attempt(url, 'success')
        ref = comment_map(v); m = map_ref(url, ref) if ref is not None else None
        return dict(d, text=v, ref=None if m and m[0] == 'bad' else m, did=parse_did(last_comment(v, ('//# debugId=',)) or ''))
    def module(self, url, did):
        src = self.get('minified_source', did, url)
        ref = src.get('ref'); d2 = did or src.get('did'); sm = None
        if ref is not None or d2 is not None:
            if ref is None: sm = self.get('source_map', d2, None)
            elif ref[0] == 'data': sm = dict(uri='embedded', text=ref[1], rw=src['rw'])
            else: sm = self.get('source_map', d2, ref[1])
            sm = dict(sm)
            if 'err' in src: sm['err'] = src['err']
            elif 'err' not in sm:
                try:
                    j = json.loads(sm['text'])
                    if not isinstance(j, dict) or not isinstance(j.get('tokens'), list) or not isinstance(j.get('sources'), list): raise ValueError
                    sm['map'] = j
                except ValueError: sm['err'] = 'malformed'
        base = ref[1] if ref is not None and ref[0] == 'url' and 'err' not in src else url
        return dict(src=src, sm=sm, base=base)
    def run(self):
        q = self.q; mods = {m['code_file']: parse_did(m['debug_id']) for m in q['modules']}; done = {}; files = {}
        raw = json.loads(json.dumps(q['stacktraces'])); out = []; errors = []
        def err(path, kind, **kw):
            x = dict(abs_path=path, type=kind, **kw)
            if x not in errors: errors.append(x)
        for st in raw:
            for f in st['frames']:
                f.setdefault('data', {}); f['data'].setdefault('symbolicated', False)
                if f['abs_path'].startswith('async '): f['abs_path'] = f['abs_path'][6:]
        for st in raw:
            res = []; caller = None
            for f in st['frames']:
                cs, caller = caller, None
                try:
                    g, caller = self.frame(f, cs, mods, done, files, err); res.append(g)
                except Stop as e:
                    kind, kw = e.args; err(f['abs_path'], kind, **kw); res.append(json.loads(json.dumps(f)))
            out.append(dict(frames=res))
        return dict(stacktraces=out, raw_stacktraces=raw, errors=errors, attempts=self.attempts)
    def frame(self, f, cs, mods, done, files, err):
        line, col = f['lineno'], f.get('colno')
        if line <= 0: raise Stop('invalid_location', dict(line=line, col=col))
        p = f['abs_path']
        if p not in done: done[p] = self.module(p, mods.get(p))
        m = done[p]; src, sm = m['src'], m['sm']
        if 'err' in src: raise Stop('scraping_disabled' if src['err'] == 'disabled' else 'missing_source', {})
        g = json.loads(json.dumps(f))
        if self.q['context']: context(f, src['text'])
        label = src['ref'][1] if src['ref'] is not None and src['ref'][0] == 'url' else p
        if sm is None: return json.loads(json.dumps(f)), None
        if 'err' in sm:
            if sm['err'] == 'malformed':
                f['data'].update(resolved_with=sm['rw'], sourcemap_origin=sm['uri'])
                raise Stop('malformed_sourcemap', dict(url=label))
            raise Stop('scraping_disabled' if sm['err'] == 'disabled' else 'missing_sourcemap', {})
        g['data'].update(sourcemap=label, sourcemap_origin=sm['uri'], resolved_with=sm['rw'])
        l, c = line - 1, max(0, (col or 0) - 1)
        hits = [t for t in sm['map']['tokens'] if t[0] == l and t[1] <= c]
        if not hits: raise Stop('invalid_location', dict(line=line, col=col or 0))
        t = max(hits, key=lambda t: t[1]); name = t[5]
        g['data']['symbolicated'] = True
        if name is None: fn = '<anonymous>'
        elif name == '': fn = f.get('function') or '<unknown>' if f.get('function') is not None else '<unknown>'
        else:
            fn = '%s@%016x' % (name, fnv(src['text'].encode()))
            if fn.startswith('$async$'): fn = name
        if fn in ('<anonymous>', '__webpack_require__', '__webpack_modules__'):
            if cs: fn = cs
            elif f.get('function') is not None: fn = f['function']
        g['function'] = fold(fn)
        fname = sm['map']['sources'][t[2]] if t[2] is not None else None
        if fname is not None:
            g['abs_path'] = join(m['base'], fname); shown = fname
            if fname.startswith('webpack:'): shown = fix_webpack(fname); g['module'] = module_name(shown)
            if g.get('module') is None and g['abs_path'].startswith(('http:', 'https:', 'webpack:', 'app:')): g['module'] = module_name(g['abs_path'])
            g['filename'] = shown
        g['lineno'], g['colno'] = t[3] + 1, t[4] + 1
        if self.q['context'] and fname is not None:
            sc = sm['map']['sourcesContent'][t[2]]
            if sc is not None: context(g, sc)
            else:
                key = join(m['base'], fname)
                if key not in files: files[key] = self.get('source', None, key)
                if 'err' in files[key]: err(p, 'missing_source_content', source=key, sourcemap=label)
                else: context(g, files[key]['text'])
        return g, name

# ---------------------------------------------------------------- scenarios
HOSTS = ['https://cdn.example.com', 'http://app.example.org:8080', 'https://www.example.net', 'app://', 'http://localhost', 'file://', '']
NAMES = ['/js/app.min.js', '/static/js/vendor.js', '/app.js', '/bundles/chunk-1a2b3c4d.min.js', '/a/b/c/main.mjs', '/index.jsx', '/js/app.js']
ORIGINS = [['*'], ['*'], ['*'], ['cdn.example.com'], ['*.example.org', 'www.example.net'], ['http://*'], [], ['app.example.org:8080', 'example.net'], ['*:443'], ['https://cdn.example.com', '*:8080']]
SRCS = ['app.ts', '../src/b.ts', './c.ts', '/abs/d.ts', '~/e.ts', 'webpack:///./src/f.ts', 'webpack:///src/~/g/h.ts', 'webpack://proj/./i.ts', 'http://other.example.com/j.ts', 'dir/k.ts?x=1', '//cdn2.example.com/l.ts', 'http://other.example.com/lib/0123456789abcdef0123456789abcdef/m.min.ts', 'webpack:///./alphabetical-component-sources-x/n.ts', '/alphabetical-component-sources-directory/sub/o.js', 'webpack:///v1.2.3/node_modules/js/p-1a2b3c4d5e']
FUNCS = ['foo', 'a.b.c', 'a.a.a.b', 'x.x.onError', None, None, '', '$async$go', 'Klass.method']

def text(r, serial, n=None):
    out = []
    for i in range(n or r.choice([1, 3, 8, 20])):
        l = 'L%d of %s;' % (i, serial)
        if r.random() < .2: l += ''.join(r.choice('abcdefgh(){};, é☃') for _ in range(r.choice([100, 130, 200, 400])))
        out.append(l)
    return '\n'.join(out)
def srcmap(r, serial):
    x = r.random()
    if x < .05: return r.choice([' ', '{"tokens":', 'not a map', '[]', '{"tokens":[]}'])
    srcs = [r.choice(SRCS) for _ in range(r.choice([1, 2, 3]))]
    conts = [text(r, '%s.s%d' % (serial, i)) if r.random() < .6 else None for i in range(len(srcs))]
    toks = []
    for l in range(r.choice([1, 2, 2, 4])):
        for c in sorted({*r.sample(range(120), r.choice([1, 2, 5])), r.randrange(8)}):
            toks.append([l, c, r.choice([*range(len(srcs)), None]) if r.random() < .9 else None, r.randrange(12), r.randrange(150), r.choice(FUNCS)])
    return json.dumps(dict(sources=srcs, sourcesContent=conts, tokens=toks))
def did(r): return '%08x-%04x-%04x-%04x-%012x' % tuple(r.randrange(1, 1 << b) for b in (32, 16, 16, 16, 48)) + ('-a' if r.random() < .1 else '')
def variant(r, url): return r.choice(candidates(url))

def gen(r):
    serial = [0]
    def nxt():
        serial[0] += 1; return 't%d' % serial[0]
    np = r.choice([1, 1, 2])
    projects = [dict(source=dict(id='sentry:p%d' % i, url=BASE % i, token='tok%d' % i), entries=[]) for i in range(np)]
    rels = r.choice([[None, 'app@1.0', 'app@1.0+2 b'], ['app@1.0'] * 4 + [None], ['app@1.0'] * 4 + ['app@1.0+2 b']])
    files = {}; urls = []; mods = []; nm = r.choice([1, 2, 2, 3])
    nb = r.choice([0, 1, 1, 2, 3]); bundles = [[] for _ in range(nb)]
    ents = []
    dids = [did(r) for _ in range(3)]
    dens, web = r.choice([.3, .5, .8]), r.choice([0, .4, .9])
    for k in range(nm):
        base = r.choice(HOSTS) if r.random() < .4 else r.choice(HOSTS[:3])
        u = base + r.choice(NAMES) + r.choice(['', '', '', '?v=1', '?v=2', '#frag'])
        d = r.choice(dids) if r.random() < .5 else None
        ref = r.choice(['rel', 'rel', 'abs', 'data', 'none', 'root', 'up'])
        bare = u.split('#')[0].split('?')[0]; mapname = bare.rsplit('/', 1)[-1] + '.map'
        refs = dict(rel=mapname, abs=bare + '.map', none=None, root='/maps/' + mapname, up='../maps/' + mapname, data=None)
        mods.append(dict(url=u, did=d))
        def put(url, ty, make, d):
            """Places versions of this file at some of the places it may be found at."""
            for b in bundles:
                if r.random() < dens:
                    h = {}
                    if d and ty != 'source' and r.random() < .6: h[r.choice(['debug-id', 'Debug-Id'])] = d
                    fu = variant(r, url); t, h2 = make(True); h.update(h2)
                    ids = [(f['type'], parse_did(next((v for n, v in f['headers'].items() if n.lower() == 'debug-id'), ''))) for f in b if 'debug-id' in {n.lower() for n in f['headers']}]
                    if any(f['url'] == fu for f in b) or ('debug-id' in {n.lower() for n in h} and (ty, parse_did(d)) in ids): continue
                    b.append(dict(path='f%d' % len(b), type=ty, url=fu, headers=h, text=t))
            if r.random() < dens * .6:
                t, h = make(True)
                if h and r.random() < .1: t = ''  # only a header that names the map
                i = '%d' % (100 + len(ents))
                p = projects[r.randrange(np)]; au = variant(r, url)
                e = dict(type='file', id='art%s' % i, url=p['source']['url'] + '?download=release_file/%s' % i if r.random() < .8 else 'https://files.example.io/art/%s' % i, abs_path=au, headers=h, debug_ids=[], release=r.choice(rels), dist=r.choice([None, None, 'd1']), urls=[au], resolved_with=r.choice([None, 'release', 'release-old', 'index']))
                if r.random() < .9: files[e['url']] = dict(text=t)
                p['entries'].append(e); ents.append(e)
            if r.random() < web: files[url.split('#')[0]] = dict(text=make(False)[0]) if r.random() < .95 else dict(noise=[r.getrandbits(20), 300])
        def minified(headers):
            s = nxt(); t = text(r, s); h = {}
            v = refs[ref]
            if ref == 'data':
                m = srcmap(r, s + '.map').encode()
                v = 'data:application/json;charset=utf-8;base64,' + base64.b64encode(m).decode() if r.random() < .9 else 'data:application/json;base64,%%%'
            if v is not None:
                if headers and r.random() < .4: h[r.choice(['sourcemap', 'x-sourcemap', 'Sourcemap', 'X-SourceMap'])] = v
                else: t += '\n%s sourceMappingURL=%s' % (r.choice(['//#', '//@']), v)
            if r.random() < .3: t += '\n//# debugId=' + (d if d and r.random() < .5 else r.choice(dids))
            return t + r.choice(['', '\n']), h
        put(u, 'minified_source', minified, d)
        if ref not in ('data',):
            mu = join(u, refs[ref]) if refs[ref] else bare + '.map'
            def smap(headers):
                t = srcmap(r, nxt())
                try: urls.extend(join(mu, s) for s in json.loads(t)['sources'] if r.random() < .5)
                except (ValueError, KeyError, TypeError): pass
                return t, {}
            put(mu, 'source_map', smap, d)
        for su in set(urls): put(su, 'source', lambda h: (text(r, nxt()), {}), None)
        urls.clear()
    for k, b in enumerate(bundles):
        if not b: continue
        p = projects[r.randrange(np)]; i = 'bundle%d' % k if r.random() < .7 else 'b/%d' % (9 - k)
        e = dict(type='bundle', id=i.replace('/', '_'), url=p['source']['url'] + '?download=artifact_bundle/%d' % k if r.random() < .8 else 'https://files.example.io/bundle/%d' % k, debug_ids=sorted({parse_did(v) for f in b for n, v in f['headers'].items() if n.lower() == 'debug-id' and r.random() < .95}),
                 release=r.choice(rels), dist=r.choice([None, None, 'd1']), urls=[f['url'] for f in b if r.random() < .9], resolved_with=r.choice([None, 'release', 'debug-id', 'index', 'release-old']))
        x = r.random()
        if x < .9: files[e['url']] = dict(bundle=b)
        elif x < .95: files[e['url']] = dict(noise=[r.getrandbits(20), 500])
        p['entries'].append(e)
    for p in projects: r.shuffle(p['entries'])
    # the same address may be at stake for both
    return projects, files, mods, rels

def request(r, mods, np, rels, serial):
    q = dict(op='js', scope=r.choice([None, '1', '1', '2']), src=r.randrange(np), release=r.choice(rels), dist=r.choice([None, None, 'd1', 'd2']), modules=[], stacktraces=[], context=r.random() < .8,
             scraping=dict(enabled=r.random() < .8, allowed_origins=r.choice(ORIGINS), headers={'x-scrape-token': 'sct'} if r.random() < .3 else {}, verify_ssl=r.random() < .5))
    use = r.sample(mods, r.randrange(1, len(mods) + 1))
    for m in use:
        if m['did'] and r.random() < .75:
            d = m['did']; d = d.upper() if r.random() < .1 else d.replace('-', '') if r.random() < .05 and d.count('-') == 4 else 'nonsense' if r.random() < .03 else d
            q['modules'].append(dict(type='sourcemap', code_file=m['url'], debug_id=d))
    for _ in range(r.choice([1, 1, 2])):
        fr = []
        for _ in range(r.choice([1, 2, 4])):
            m = r.choice(use); f = dict(abs_path=m['url'], lineno=r.choice([0, 1, 1, 2, 3, 9]) if r.random() < .3 else r.choice([1, 1, 2]))
            if r.random() < .05: f['abs_path'] = r.choice(['<anonymous>', 'native code', 'https://cdn.example.com/missing.js'])
            if r.random() < .1: f['abs_path'] = 'async ' + f['abs_path']
            if r.random() < .93: f['colno'] = r.randrange(0, 140)
            if r.random() < .6: f['function'] = r.choice(['f', 'e.t', '<anonymous>'])
            fr.append(f)
        q['stacktraces'].append(dict(frames=fr))
    return q

def make(prop, seed, root):
    r = random.Random('%s/%d' % (prop, seed))
    projects, files, mods, rels = gen(r)
    cfg = cachesim.config(r, {k: (24 * 3600000, 48 * 3600000, 24 * 3600000, 96 * 3600000) for k in ('downloaded', 'derived', 'index')}, cache_dir=r.random() < .9, shared=None)
    cfg.update(deny_list_enabled=False, connect_timeout='1s', head_timeout='5s', max_download_timeout='60s')
    cfg['caches']['in_memory'] = dict(sentry_index_ttl='%ds' % r.choice([0, 5, 3600]), fileinbundle_capacity=r.choice([0, 1000, 10**7, 10**9]))
    lives = []; mode = r.choice(['calm', 'calm', 'flaky', 'broken', 'refresh']); broken = []; rules = []; change = None
    every = [u for u in files] + ['artifact-lookup/?']
    if mode == 'flaky':
        for _ in range(r.choice([1, 2, 3])):
            u = r.choice(every)
            rules.append(dict(m=u, first=r.choice([0, 0, 1, 2]), count=r.choice([1, 2]), act=r.choice([dict(status=500), dict(status=503), dict(reset=True), dict(connect='refused'), dict(cut=r.choice([0, 5]), end='reset')])))
        # one rule per address: together they must not use up the attempts
        seen = set(); rules = [x for x in rules if not (x['m'] in seen or seen.add(x['m']))]
        rules = [x for x in rules if not any(x is not y and (x['m'] in y['m']) for y in rules)]
    if mode == 'broken':
        for _ in range(r.choice([1, 2])):
            u = r.choice(every)
            if any(u in b or b in u for b, _ in broken): continue
            a, how = r.choice([(dict(status=403), 'permission_denied'), (dict(status=404), 'not_found'), (dict(status=500), 'download_error'), (dict(reset=True), 'download_error'), (dict(connect='refused'), 'download_error')])
            rules.append(dict(m=u, act=a)); broken.append([u, how])
    scrapable = [u for u in files if u.startswith('http') and '/artifact-lookup/' not in u and 'files.example.io' not in u and 'text' in files[u]]
    if mode == 'refresh' and not scrapable: mode = 'calm'
    nid = 0; total = r.choice([1, 2, 3, 5, 8])
    nl = r.choice([1, 1, 1, 2, 3]) if mode != 'refresh' else 1
    for k in range(nl):
        ops = []; t = 0
        for _ in range(max(1, total // nl)):
            t += r.choice([0, 0, 0, 1, 20, 200, 3000, 20000] + ([1800000, 3700000] if r.random() < .3 or mode == 'refresh' else []))
            q = request(r, mods, len(projects), rels, nid) if not (ops and r.random() < .25) else json.loads(json.dumps(r.choice(ops)))
            q.pop('abandon', None)
            q.update(id=nid, at=t); nid += 1
            if r.random() < .08: q['abandon'] = r.choice([0, 1, 30, 500, 3000])
            ops.append(q)
        l = dict(simrun.sched(r), workers=r.choice([1, 2, 3]), ops=ops, settle=r.choice([10, 5000]), chaos=r.choice([0, 0, 2, 5, 20]), net=dict(rules=rules), limit=3600)
        if mode == 'flaky' and k: l['net'] = {}
        if l.get('stall'): l['stall'][1] = min(l['stall'][1], 50 * MS)
        if k + 1 < nl:
            if r.random() < .5: l['kill'] = r.randrange(t + 100)
            elif r.random() < .4: l['faults'] = [['any', r.randrange(1, 120), 1, r.choice(['crash', 'crash_after', 'torn']), r.randrange(0, 4000), 'cache']]
            l['gap'] = r.choice([0, SEC, 3600 * SEC])
        if r.random() < .1 and mode != 'refresh': ops.append(dict(op='wall', id=nid, at=r.randrange(t + 1), ns=r.choice([-1, 1]) * r.choice([1, 3600, 7200]) * SEC)); nid += 1
        if r.random() < .1: ops.append(dict(op='cleanup', id=nid, at=r.randrange(t + 1))); nid += 1
        lives.append(l)
    if mode == 'refresh':
        u = r.choice(scrapable); at = r.randrange(max(o['at'] for o in lives[0]['ops']) + 1)
        other = dict(text=files[u]['text'] + '\n// changed') if r.random() < .5 else r.choice([files[x] for x in scrapable])
        lives[0]['ops'].append(dict(op='put', id=nid, at=at, key=u, val=other)); change = [u, other, nid]
    return dict(config=cfg, projects=projects, files=files, lives=lives, broken=broken, change=change, mode=mode, seed=seed, prop=prop)

# ---------------------------------------------------------------- judging
def norm(v):
    """The parts of a response that are specified."""
    def org(o):
        if isinstance(o, dict) and 'scraped_file' in o: return dict(scraped_file=o['scraped_file'].split('#')[0])
        return o
    def st(x):
        out = []
        for s in x:
            fr = []
            for f in s['frames']:
                f = {k: y for k, y in f.items() if y is not None and not (k.endswith('_context') and not y)}; d = dict(f.get('data') or {})
                if 'sourcemap_origin' in d: d['sourcemap_origin'] = org(d['sourcemap_origin'])
                f['data'] = d; fr.append(f)
            out.append(fr)
        return out
    if 'attempts' in v: at = [[u, s, x] for u, s, x in v['attempts']]
    else: at = [[a['url'], a['status'], a.get('reason')] for a in v.get('scraping_attempts', [])]
    er = sorted((json.dumps(e, sort_keys=True) for e in v.get('errors', [])))
    return dict(stacktraces=st(v['stacktraces']), raw=st(v['raw_stacktraces']), errors=er, attempts=at)
def diff(a, b):
    for k in ('errors', 'attempts', 'raw', 'stacktraces'):
        if a[k] != b[k]:
            if k in ('errors', 'attempts'): return '%s: %s instead of %s' % (k, [x for x in a[k] if x not in b[k]] or a[k], [x for x in b[k] if x not in a[k]] or b[k])
            for i, (s, t) in enumerate(zip(a[k], b[k])):
                for j, (f, g) in enumerate(zip(s, t)):
                    if f != g:
                        ks = [x for x in sorted({*f, *g}) if f.get(x) != g.get(x)]
                        return '%s, stack %d frame %d: %s' % (k, i, j, '; '.join('%s is %r instead of %r' % (x, f.get(x), g.get(x)) for x in ks)[:600])
            return k + ' differ in length'
    return None

def world(scn, changed):
    files = {u: v['text'] if 'text' in v else v for u, v in scn['files'].items()}
    if changed: u, v, _ = scn['change']; files[u] = v['text']
    return dict(projects=scn['projects'], files=files, broken=scn['broken'])

def judge(scn, res):
    bad = []; probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    toks = {q['source']['url']: q['source']['token'] for q in scn['projects']}
    worlds = [world(scn, False)] + ([world(scn, True)] if scn['change'] else [])
    allowed = set(); scrapes = set()
    for li, x in enumerate(res):
        ops = {o['id']: o for o in scn['lives'][li]['ops']}; R = {}; put = None
        for e in x['ev']:
            if e['e'] == 'req' and e['op'] == 'js':
                R[e['r']] = [e['t'], None, None]
            elif e['e'] == 'req' and e['op'] == 'put': put = e['t']
            elif e['e'] == 'res' and e['r'] in R: R[e['r']][1:] = [e['t'], e]
        for k, (t0, t1, e) in sorted(R.items()):
            o = ops[k]; exp = []; evs = [Event(w, o) for w in worlds]
            for v in evs: exp.append(norm(v.run())); allowed |= v.contacts; scrapes |= v.scrapes
            if len(exp) > 1:
                if put is None or t1 is not None and t1 < put: exp = exp[:1]
                elif t0 >= put + 3600 * SEC + EPS: exp = exp[1:]; p('after the refresh')
            if e is None or e.get('aband'): p('abandoned'); continue
            if e.get('panic') is not None: bad.append(('N01', 'panic', 'request %d panicked' % k)); continue
            got = norm(e['v'])
            if got in exp:
                p('right answers')
                for s in got['stacktraces']:
                    for f in s:
                        p('frames symbolicated' if f['data'].get('symbolicated') else 'frames not symbolicated')
                        if 'resolved_with' in f['data']: p('resolved with ' + f['data']['resolved_with'])
                        if f.get('context_line'): p('with context')
            else:
                p('wrong'); bad.append(('N01', 'answer', 'life %d request %d at %.1f s: %s' % (li, k, t0 / SEC - 1000, diff(got, exp[0]))))
    for li, x in enumerate(res):
        for e in x['ev']:
            if e['e'] not in ('net', 'connect'): continue
            u = e['url'].split('#')[0]; h = dict((a.lower(), b) for a, b in e.get('h', []))
            own = [b for b in toks if u.startswith(b)]
            tok = h.get('authorization', '')
            if tok and tok not in ['Bearer ' + toks[b] for b in own]: bad.append(('N01', 'token', 'life %d: %s is asked with %r' % (li, u, tok)))
            if 'x-scrape-token' in h and u not in scrapes: bad.append(('N01', 'scrape-headers', 'life %d: %s is asked with the headers for scraping' % (li, u)))
            look = own and 'download=' not in u
            if not look and u not in allowed and u not in scrapes: bad.append(('N01', 'contact', 'life %d: %s is contacted' % (li, u)))
            if look and 'lookup' not in allowed: bad.append(('N01', 'contact', 'life %d: %s is asked' % (li, u)))
    return bad, probes

def execute(scn, root):
    res = simrun.run_lives('js', scn, root, exe=SIM)
    bad, discard = simrun.general(res); probes = {}
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        js, probes = judge(scn, res)
        bad += [(c, m) for q, c, m in js]
    sample = dict(seed=scn['seed'], mode=scn['mode'], requests=sum(1 for l in scn['lives'] for o in l['ops'] if o['op'] == 'js'), lives=len(scn['lives']))
    return simrun.summary(scn, res, bad, discard, sample, not probes, probes)

def shrink_steps(scn):
    out = [['lives']] + [['lives', i, 'ops'] for i in range(len(scn['lives']))] + [['lives', i, 'net', 'rules'] for i in range(len(scn['lives'])) if scn['lives'][i]['net'].get('rules')]
    out += [['projects', i, 'entries'] for i in range(len(scn['projects']))]
    for i, l in enumerate(scn['lives']):
        for j, o in enumerate(l['ops']):
            if o['op'] == 'js': out += [['lives', i, 'ops', j, 'stacktraces'], ['lives', i, 'ops', j, 'modules']] + [['lives', i, 'ops', j, 'stacktraces', s, 'frames'] for s in range(len(o['stacktraces']))]
    return out
def simplify(scn):
    c = lambda: json.loads(json.dumps(scn))
    for i, l in enumerate(scn['lives']):
        for k in ('stall', 'spurious', 'kill', 'chaos'):
            if l.get(k): s = c(); s['lives'][i].pop(k); yield s
    for u in scn['files']:
        s = c(); del s['files'][u]; yield s

RULE_TEXT = ('Each run generates projects with artifact bundles, single artifacts and web servers that hold versions of the same scripts, source maps and sources, then requests for frames in them (several at once, repeated, over restarts and crashes, with evictions); '
             'distinct when the hash of the whole trace (schedule, faults, time) is new; trivial when no request was answered.')
REAL = ['symbolicator-js', 'symbolicator-service (caches, downloads, objects)', 'symbolicator-sources', 'symbolic-debuginfo (artifact bundles)']
STUB = ['source maps are a JSON format of the simulation (symbolic-sourcemapcache, swc)', 'reqwest/hyper: simulated network', 'moka: simulated cache that also evicts', 'data-url, rand', 'thread scheduling and clocks come from the simulator (LD_PRELOAD)']
ASSUME = ['threads are preempted at system calls, contended synchronisation and allocations only', 'an identifier of an artifact stands for one content']
