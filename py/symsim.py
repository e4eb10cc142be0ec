"""Simulation of symsorter: real binary under the process simulator, generated input trees, model of the output."""
import io, json, os, random, re, shutil, subprocess, zipfile
import common, gen

BIN = os.path.join(common.TARGET, 'debug', 'symsorter')
KIND = {'debuginfo', 'executable', 'sourcebundle'}

# ---------------------------------------------------------------- objects
def hexid(r, n=32): return '%0*x' % (n, r.randrange(1, 16 ** n))

ELF_IDS = [40, 40, 40, 16, 32, 40, 64, 48, 130]     # hex digits of build ids in use
def idlen(o): return len(o['id'])

def gen_obj(r, ids, size, name):
    """An object description. ids: pool of identifiers already used (to make related files and duplicates)."""
    t = r.choice(['breakpad', 'breakpad', 'elf', 'elf', 'macho', 'src', 'pe', 'pdb', 'ppdb', 'wasm'] if r.random() < .5 else ['breakpad', 'breakpad', 'elf', 'elf', 'macho', 'src'])
    seed = r.randrange(1 << 30)
    o = dict(t=t, seed=seed, size=size, name=name)
    n = r.choice(ELF_IDS) if t == 'elf' else r.choice([32, 32, 40]) if t == 'wasm' else 32
    same = [i for i in ids if i[0] == t or {i[0], t} in ({'pe', 'pdb'}, {'breakpad', 'src'})]      # an image and its database, symbols and their sources have the same identifier
    if same and r.random() < .25:
        k = r.choice(same); o['id'] = k[1]
        if len(k) > 2: o['age'] = k[2]
    else:
        o['id'] = hexid(r, n)
        if r.random() < .15 and ids:      # identifiers that share the directory or most of the path
            o['id'] = r.choice(ids)[1][:r.choice([2, 2, 8, 30])] + o['id'][30:]
            o['id'] = (o['id'] + '0' * n)[:n]
        if t in ('pe', 'pdb', 'ppdb'): o['age'] = r.choice([1, 1, 2, 0x1a, 0x2f]) if t != 'ppdb' else r.randrange(1 << 32)
        ids.append((t, o['id']) + ((o['age'],) if t in ('pe', 'pdb') else ()))
    if t == 'breakpad':
        o['age'] = r.choice([0, 0, 1, 10, 0x1f])
        o['arch'] = r.choice(['x86_64', 'arm64', 'x86'])
        if r.random() < .2: o['code'] = hexid(r, 40)
    elif t == 'elf':
        o['form'] = r.choice(['exec', 'lib', 'debug', 'debug', 'debug', 'rel'])
        if r.random() < .12: o['form'] = r.choice(['lib', 'exec']); o['text'] = True       # no build id: identified by its code
    elif t == 'macho':
        o['arch'] = r.choice(list(gen.CPU)); o['ft'] = r.choice([2, 6, 10, 10, 10, 1])
    elif t in ('pe', 'pdb'):
        o.setdefault('age', 1)
        o['arch'] = r.choice(list(gen.MACHINE))
        if t == 'pe': o['dll'] = r.random() < .5; o['stub'] = r.random() < .1
        else: o['iage'] = r.choice([None, None, 5])
    elif t == 'ppdb': o.setdefault('age', 7)
    elif t == 'wasm':
        o['dbg'] = r.random() < .5; o['names'] = r.random() < .5
    else:
        o['age'] = r.choice([0, 0, 2]); o['n'] = r.randrange(1, 4)
    return o

def add_sources(r, o):
    """Names of source files in an object, for the kinds that can hold them."""
    t = o['t']
    if t == 'breakpad' or t == 'elf' and o['form'] == 'debug' or t == 'macho' and o['ft'] == 10:
        # c: a file, q: with a name that looks like a precompiled header, m: not there, p: a precompiled header, b: as large as allowed, B: larger
        o['nsrc'] = ''.join(r.choice('ccccccqmp') for _ in range(r.randrange(1, 5)))
        if r.random() < .01: o['nsrc'] += r.choice('bB')

BIG = 10 * 1024 * 1024
def source_files(o, ctx):
    """-> names in the object, {path: contents} of those that belong into a source bundle, and {path: contents} of the others on disk"""
    names = []; good = {}; other = {}
    for i, k in enumerate(o['nsrc']):
        p = os.path.join(ctx['src'], 's%d_%d.%s' % (o['seed'], i, 'pch' if k == 'p' else ['pch.c', 'pchx', 'PCH', 'xpch'][o['seed'] % 4] if k == 'q' else 'c'))
        names.append(p)
        if k == 'm': continue
        d = b'int x%d;\n' % (o['seed'] + i) * (1 + o['seed'] % 40) if k in 'cpq' else b' ' * (BIG + (k == 'B'))
        (good if k in 'cbq' else other)[p] = d
    return names, good, other

def render_obj(o, ctx):
    """-> (bytes, path, kind, arch, format, sources or None): sources {path: (contents, belongs into the bundle)}"""
    t = o['t']; src = names = None
    if o.get('nsrc'):
        names, good, other = source_files(o, ctx)
        src = {p: (d, True) for p, d in good.items()}; src.update((p, (d, False)) for p, d in other.items())
        src = src or None
    if t == 'breakpad':
        d = gen.breakpad(o['id'], o['age'], o['arch'], o['name'], o['seed'], o['size'], o.get('code'))
        if names:
            head, rest = d.split(b'FUNC', 1)
            d = head + b''.join(b'FILE %d %s\n' % (i, p.encode()) for i, p in enumerate(names)) + b'FUNC' + rest
        if o.get('code'): uid = o['code'].lower()
        else: uid = o['id'].lower() + '%x' % o['age']
        return d, uid, 'debuginfo', o['arch'], 'breakpad', src
    if t == 'elf':
        f = o['form']
        if o.get('text'):
            d = gen.elf('', 3 if f == 'lib' else 2, f == 'exec', True, o['seed'], o['size'], ident=False)
            return d, gen.text_id(gen.blob(o['seed'], 64)), 'executable', 'x86_64', 'elf', None
        d = gen.elf(o['id'], {'lib': 3, 'rel': 1}.get(f, 2), f == 'exec', f == 'lib', o['seed'], o['size'], debug=f == 'debug', srcs=names)
        return d, o['id'], {'debug': 'debuginfo', 'rel': None}.get(f, 'executable'), 'x86_64', 'elf', src
    if t == 'macho':
        d = gen.macho_dwarf(o['id'], o['arch'], o['ft'], o['seed'], o['size'], names) if names else gen.macho(o['id'], o['arch'], o['ft'], o['seed'], o['size'])
        return d, o['id'], {10: 'debuginfo', 1: None}.get(o['ft'], 'executable'), o['arch'], 'macho', src
    if t == 'src':
        d = gen.source_bundle(o['id'] + '%x' % o['age'], o['name'], o['seed'], o['n'])
        return d, o['id'] + '%x' % o['age'], 'sourcebundle', 'x86_64', 'sourcebundle', None
    if t == 'pe':
        d = gen.pe(o['id'], o['age'], o['arch'], o['dll'], o['seed'], o['size'], stub=o['stub'])
        return d, o['id'] + '%x' % o['age'], 'executable' if o['dll'] or not o['stub'] else None, o['arch'], 'pe', None
    if t == 'pdb':
        return gen.pdb(o['id'], o['age'], o['arch'], o['seed'], o['size'], o['iage']), o['id'] + '%x' % o['age'], 'debuginfo', o['arch'], 'pdb', None
    if t == 'ppdb':
        return gen.ppdb(o['id'], o['age'], o['seed'], o['size']), o['id'] + '%x' % o['age'], 'debuginfo', 'unknown', 'portablepdb', None
    if t == 'wasm':
        return gen.wasm(o['seed'], o['dbg'], o['names'], bytes.fromhex(o['id']), o['size']), '%02x' % (len(o['id']) // 2) + o['id'], 'executable', 'wasm32', 'wasm', None     # symbolic takes the whole section
    raise ValueError(t)

BROKEN = ['zip_enc', 'zip_enc', 'elf_dwarf', 'elf_cut', 'fat_cut', 'elf_noid', 'breakpad_nil', 'macho_cut', 'zip_junk', 'zip_cut', 'zip_crc', 'srcb_cut', 'zip_local', 'pe_noid', 'pe_cut', 'wasm_noid', 'fat_noid']

def shown(name):
    """A file name the way the tool prints it (names need not be text)."""
    return os.fsencode(name).decode('utf8', 'replace')

def render_node(n, ctx):
    """-> (bytes, [(data, uid, kind, arch, fmt, label, src)], mode) with mode ok | broken | partial (archive with a broken part)."""
    t = n['t']
    if t == 'junk':
        return gen.textblob(n['seed'], n['size']) if n['size'] else b'', [], 'ok'
    if t == 'obj':
        d, uid, kind, arch, fmt, src = render_obj(n['o'], ctx)
        return d, [(d, uid, kind, arch, fmt, shown(n['name']), src)] if kind else [], 'ok'     # kinds other than debug, executable and sources are left out
    if t == 'fat':
        objs = []; slices = []
        for o in n['os']:
            d, uid, kind, arch, fmt, src = render_obj(o, ctx)
            slices.append((o['arch'], d))
            if kind: objs.append((d, uid, kind, arch, fmt, shown(n['name']), src))
        return gen.fat(slices, n.get('align', 12)), objs, 'ok'
    if t == 'zip':
        entries = []; objs = []; broken = []
        for e in n['es']:
            d, os_, mode = render_node(e, ctx)
            label = e['name'].rsplit('/', 1)[-1]
            entries.append((e.get('zdir', '') + e['name'], d))
            objs += [x[:5] + (label, None) + (() if mode == 'ok' else (True,)) for x in os_]
            if mode != 'ok': broken.append(e)
        return gen.zipfile_bytes(entries, n.get('method', 'deflate')), objs, 'zipbroken' if broken else 'ok'
    if t == 'broken':
        b = n['b']; s = n['seed']
        if b == 'elf_cut': return gen.elf('ab' * 20, 2, False, False, s, 500, debug=True)[:40], [], 'broken'
        if b == 'fat_cut':
            x = gen.fat([('x86_64', gen.macho(n['id'], 'x86_64', 10, s, 300)), ('arm64', gen.macho(n['id2'], 'arm64', 10, s + 1, 300))])
            return x[:4500], [(gen.macho(n['id'], 'x86_64', 10, s, 300), n['id'], 'debuginfo', 'x86_64', 'macho', shown(n['name']), None)], 'partial'
        if b == 'pe_noid': return gen.pe(n['id'], 1, 'x86_64', False, s, 100, ident=False), [], 'broken'
        if b == 'pe_cut': return gen.pe(n['id'], 1, 'x86_64', False, s, 100)[:0x90], [], 'broken'
        if b == 'wasm_noid': return gen.wasm(s, True, True, None, 100), [], 'broken'
        if b == 'fat_noid':
            # the first part is fine, the second has no identifier
            x = gen.fat([('x86_64', gen.macho(n['id'], 'x86_64', 10, s, 300)), ('arm64', gen.macho('', 'arm64', 10, s + 1, 300))])
            return x, [(gen.macho(n['id'], 'x86_64', 10, s, 300), n['id'], 'debuginfo', 'x86_64', 'macho', shown(n['name']), None)], 'partial'
        if b == 'elf_noid': return gen.elf('', 2, False, False, s, 200, debug=True, ident=False), [], 'broken'
        if b == 'breakpad_nil': return b'MODULE Linux x86_64 000000000000000000000000000000000 nil\nFUNC 1000 10 0 main\n', [], 'broken'
        if b == 'macho_cut': return gen.macho(n['id'], 'x86_64', 10, s, 300)[:36], [], 'broken'
        if b == 'zip_junk': return b'PK\3\4' + gen.textblob(s, 300), [], 'broken'
        if b == 'srcb_cut': return gen.source_bundle(n['id'] + '0', 'x', s, 2)[:60], [], 'broken'
        if b == 'elf_dwarf':
            # a debug file that is sorted as usual, but whose sources cannot be listed
            d = gen.elf((n['id'] + n['id2'])[:40], 2, False, False, s, 500, debug=True, dwarf=True)
            return d, [(d, (n['id'] + n['id2'])[:40], 'debuginfo', 'x86_64', 'elf', shown(n['name']), None)], 'ok' if not ctx.get('sources') else 'nosources'
        inner = []
        for e in n['es']:
            d, os_, mode = render_node(e, ctx)
            inner.append((e['name'], d, [x[:5] + (e['name'], None) for x in os_]))
        if b == 'zip_cut':
            z = gen.zipfile_bytes([(a, d) for a, d, _ in inner]); return z[:len(z) * 2 // 3], [o for x in inner for o in x[2]], 'partial'
        if b == 'zip_local':
            return gen.corrupt_zip_header(gen.zipfile_bytes([(a, d) for a, d, _ in inner]), n['which'] % len(inner)), [o for i, x in enumerate(inner) for o in x[2] if i != n['which'] % len(inner)], 'partial'
        if b == 'zip_enc':
            k = n['which'] % len(inner)
            return gen.encrypt_zip_entry(gen.zipfile_bytes([(a, d) for a, d, _ in inner]), k), [o for i, x in enumerate(inner) for o in x[2] if i != k], 'partial'
        if b == 'zip_crc':
            k = n['which'] % len(inner)
            z = gen.corrupt_zip_entry(gen.zipfile_bytes([(a, d) for a, d, _ in inner], 'stored'), k)
            return z, [o for i, x in enumerate(inner) for o in x[2] if i != k], 'partial'
    raise ValueError(t)

# ---------------------------------------------------------------- scenarios
def gen_sched(r):
    s = dict(seed=r.randrange(1 << 48), threads=r.choice([1, 2, 2, 3, 3, 4, 4, 6, 8]))
    if r.random() < .3: s.update(policy='pct', pct=[r.randrange(1, 6), r.choice([50, 300, 2000])])
    else: s.update(policy='uniform', p_switch=r.choice([.02, .1, .3, .6, .9]))
    s['alloc'] = r.choice([0, 0, 400, 60])
    if r.random() < .2: s['stall'] = [r.choice([.01, .1]), 10 ** r.randrange(6, 11)]
    s['faults'] = []
    return s

def gen_tree(r, prop):
    ids = []; nodes = []; used = set()
    nroots = r.choice([1, 1, 2, 3])
    def name(ext=''):
        while True:
            n = r.choice(['lib', 'app', 'sym', 'Foo Bar', 'ünicode', 'x', 'core', '.hid', '-', 'b\udcffd']) + str(r.randrange(1000)) + ext
            if n not in used:
                used.add(n); return n
    def size(): return r.choice([0, 10, 200, 2000, 9000]) if r.random() < .93 else r.choice([70000, 300000])
    def objnode(nm=None):
        nm = nm or name(r.choice(['.sym', '', '.so', '.debug', '.dwarf', '.tmp', '.meta']))
        o = gen_obj(r, ids, size(), nm.replace(' ', '_').replace('\udcff', ''))
        return dict(t='obj', name=nm, o=o)
    def fatnode():
        archs = r.sample(['x86_64', 'arm64', 'arm64e', 'x86'], r.randrange(1, 4))
        os_ = []
        for a in archs:
            o = dict(t='macho', seed=r.randrange(1 << 30), size=size() % 20000, name='', id=hexid(r), arch=a, ft=r.choice([2, 6, 10, 10, 10, 1]))
            same = [i for i in ids if i[0] == 'macho']
            if same and r.random() < .3: o['id'] = r.choice(same)[1]
            else: ids.append(('macho', o['id']))
            os_.append(o)
        return dict(t='fat', name=name(), os=os_, align=r.choice([12, 14, 4]))
    def junk(): return dict(t='junk', name=name('.txt'), seed=r.randrange(1 << 30), size=r.choice([0, 1, 50, 500]))
    def broken(inzip=False):
        b = r.choice([x for x in BROKEN if not (inzip and (x.startswith('zip') or x == 'elf_dwarf'))])
        n = dict(t='broken', b=b, name=name('.brk'), seed=r.randrange(1 << 30), id=hexid(r), id2=hexid(r))
        if b in ('zip_cut', 'zip_crc', 'zip_local', 'zip_enc'):
            n['es'] = [objnode('in%d' % r.randrange(10 ** 9)) for _ in range(r.randrange(1, 4))]; n['which'] = r.randrange(8)
        return n
    p_broken = .25 if prop == 'S05' else 0
    def one(inzip=False):
        x = r.random()
        if x < p_broken: return broken(inzip)
        x = r.random()
        if x < .55: return objnode()
        if x < .72: return fatnode()
        if x < .85 and not inzip:
            z = dict(t='zip', name=name('.zip'), method=r.choice(['deflate', 'stored']), es=[])
            for _ in range(r.randrange(0, 5) if r.random() < .85 else r.choice([17, 26, 40])):
                e = one(True); e['name'] = e['name'].replace('\udcff', '_'); e['zdir'] = r.choice(['', '', 'a/', 'a/b/']); z['es'].append(e)
            return z
        return junk()
    for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14])):
        n = one()
        n['root'] = r.randrange(nroots); n['dir'] = r.choice(['', '', '', '', 'd1', 'd1', 'd1/d2', 'd1/d2', 'd3', 'd3', '.build-id/ab', 'a/b/c/d/e/f/.g/h', 'b\udcfe'])
        nodes.append(n)
        if r.random() < .2:                # an exact copy elsewhere
            c = json.loads(json.dumps(n)); c['name'] = name('.copy'); c['dir'] = r.choice(['', 'd1', 'd4']); c['root'] = r.randrange(nroots)
            nodes.append(c)
    if prop == 'S05' and not any(n['t'] == 'broken' for n in nodes):
        n = broken(); n['root'] = 0; n['dir'] = ''; nodes.append(n)
    return nodes, nroots

def dedupe_conflicts(nodes, ctx):
    """Different files under one identifier and kind are not part of the claim: later ones get the content of the first."""
    first = {}
    def fix(o):
        d, uid, kind, arch, fmt, _ = render_obj(o, ctx)
        k = (uid, kind)
        if k in first and first[k] != o:
            nm = o['name']; o.clear(); o.update(json.loads(json.dumps(first[k]))); o['name'] = o['name'] if True else nm
        else: first[k] = json.loads(json.dumps(o))
    def walk(n):
        if n['t'] == 'obj': fix(n['o'])
        elif n['t'] == 'fat':
            seen = set()
            for o in n['os']:
                a = o['arch']; d, uid, kind, *_ = render_obj(o, ctx)
                if (uid, kind) in first and first[(uid, kind)].get('arch') != a: o['id'] = o['id'][:24] + '%08x' % (hash_str(a + o['id']) & 0xffffffff)
                d, uid, kind, *_ = render_obj(o, ctx)
                if (uid, kind) in seen: o['id'] = o['id'][:23] + '%09x' % (hash_str(a + o['id'] + 'x') & 0xfffffffff)
                seen.add((uid, kind)); fix(o)
        elif n['t'] in ('zip', 'broken'):
            for e in n.get('es', []): walk(e)
    for n in nodes: walk(n)

def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())

def generate(prop, seed):
    r = random.Random('%s/%d' % (prop, seed))
    nodes, nroots = gen_tree(r, prop)
    opts = dict(z=r.choice([0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 3] if prop == 'S01' else [0, 0, 1, 1, 2]), bundle=None, multi=False, prefix=r.choice([None, 'ios']), ignore=False, sources=False, quiet=r.random() < .5)
    x = r.random()
    if prop == 'S03' or x < .6:
        if r.random() < .45: opts['multi'] = True
        else: opts['bundle'] = r.choice(['b1', '10.3_ABCD', 'x-y.z,1'])
    if prop == 'S05': opts['ignore'] = r.random() < .7
    elif r.random() < .15: opts['ignore'] = True
    if r.random() < .2:
        opts['sources'] = True
        for n in nodes:
            for o in [n['o']] if n['t'] == 'obj' else n['os'] if n['t'] == 'fat' else []:
                if r.random() < .8: add_sources(r, o)
        if r.random() < .3:      # the sources of a symbol file come with it
            c = [n for n in nodes if n['t'] == 'obj' and n['o']['t'] == 'breakpad' and n['o'].get('nsrc') and not n['o'].get('code')]
            if c:
                n = r.choice(c)
                nodes.insert(r.randrange(len(nodes) + 1), dict(t='obj', name='given%d.src' % seed, root=n['root'] if r.random() < .8 else r.randrange(nroots), dir=r.choice(['', 'd1']),
                    o=dict(t='src', seed=r.randrange(1 << 30), size=10, name='given', id=n['o']['id'], age=n['o']['age'], n=r.randrange(1, 4))))
    ctx = dict(src='/S')
    dedupe_conflicts(nodes, ctx)
    roots = r.sample(ROOTS, nroots + 1)
    if r.random() < .15:     # a file instead of a folder
        n = r.choice(nodes); n.update(root=nroots, dir='', name=roots[nroots], asroot=True); nroots += 1
    unread = []
    if prop == 'S05' and r.random() < .25:
        # files and folders that cannot be read
        for k in range(r.choice([1, 1, 2])):
            if r.random() < .35:
                d = 'dir%d.unr' % k; unread.append(d); at = r.choice(['', '', 'd1/', 'd1/d2/'])
                for n in r.sample(nodes, min(len(nodes), r.randrange(1, 4))):
                    if not n.get('unread') and not n.get('asroot'): n['dir'] = at + d; n['unread'] = d
                if not any(n.get('unread') == d for n in nodes): unread.pop()
            else:
                n = r.choice(nodes)
                if not n.get('unread') and not n.get('asroot'): n['name'] = 'f%d.unr' % k; n['unread'] = n['name']; unread.append(n['name'])
    scn = dict(family='symsorter', prop=prop, seed=seed, opts=opts, nroots=nroots, roots=roots[:nroots], nodes=nodes, lives=[])
    life = lambda **k: dict(gen_sched(r), out=0, **k)
    if prop == 'S02':
        k = r.choice([2, 3, 4])
        for i in range(k):
            l = life(); l['out'] = i; benign(r, l); scn['lives'].append(l)
    elif prop == 'S04':
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            l = life(); l['disrupt'] = True; scn['lives'].append(l)
        scn['lives'].append(life())
    else:
        l = life(); benign(r, l); scn['lives'].append(l)
        for u in unread: l['faults'].append(['readdir' if u.startswith('dir') else 'open', 1, 1000000, 'err', r.choice([13, 5, 2, 24]), '/' + u])
        if prop in ('S01', 'S03') and r.random() < .3:
            l = life(); scn['lives'].append(l)     # sorted again into the same output
    return scn, r

def benign(r, l):
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.choice(['short', 'delay', 'eintr'])
        if k == 'short': l['faults'].append(['write', r.randrange(1, 30), r.choice([1, 3, 1000]), 'short', r.choice([1, 7, 100]), '/out'])
        elif k == 'delay': l['faults'].append([r.choice(['any', 'write', 'create']), r.randrange(1, 60), r.choice([1, 5]), 'delay', 10 ** r.randrange(6, 11), ''])
        else: l['faults'].append([r.choice(['write', 'open', 'create']), r.randrange(1, 30), 1, 'err', 4, ''])

def place_faults(scn, r, root):
    """Disruptive faults are placed by the number of operations of an undisturbed run."""
    if scn['prop'] != 'S04': return
    probe = dict(scn, lives=[dict(scn['lives'][-1], faults=[])])
    res = run_lives(probe, root, keep=False)
    ops = res[0]['report'].get('ops', {}) if res else {}
    for l in scn['lives'][:-1]:
        n = r.choice([1, 1, 1, 2])
        for _ in range(n):
            x = r.random()
            if x < .45:
                c = max(1, ops.get('mut', 1)); kind = r.choice(['crash', 'crash_after', 'crash_after'])
                l['faults'].append(['mut', r.randrange(1, c + 1), 1, kind, 0, ''])
            elif x < .6:
                c = max(1, ops.get('write', 1)); l['faults'].append(['write', r.randrange(1, c + 1), 1, 'torn', r.choice([0, 1, 10, 500]), '/out'])
            elif x < .9:
                op = r.choice(['mut', 'write', 'write', 'create', 'mkdir', 'rename', 'open', 'open', 'stat', 'readdir'])
                c = max(1, ops.get(op, 1))
                l['faults'].append([op, r.randrange(1, c + 1), r.choice([1, 1, 100000]), 'err', r.choice([28, 5, 13, 24]) if op in ('open', 'create') else r.choice([28, 5]), r.choice(['/in', '/in', '/out']) if op in ('open', 'stat') else '/out' if op in ('mut', 'write', 'create') else ''])   # source files are best effort
            else:
                c = max(1, ops.get('write', 1)); k = r.randrange(1, c + 1)
                l['faults'].append(['write', k, 1, 'short', r.choice([1, 50]), '/out'])
                l['faults'].append(['write', k + 1, 100000, 'err', 28, '/out'])

# ---------------------------------------------------------------- execution
def materialise(scn, root):
    ctx = dict(src=os.path.join(root, 'src'), sources=scn['opts']['sources'])
    os.makedirs(ctx['src']); model = []
    for i in range(scn['nroots']):
        if not any(n.get('asroot') and n['root'] == i for n in scn['nodes']): os.makedirs(os.path.join(root, 'in', rootname(scn, i)))
    os.makedirs(os.path.join(root, 'in'), exist_ok=True)
    for n in scn['nodes']:
        d, objs, mode = render_node(n, ctx)
        dirn = os.path.join(root, 'in', rootname(scn, n['root']), n['dir']) if not n.get('asroot') else os.path.join(root, 'in')
        os.makedirs(dirn, exist_ok=True)
        with open(os.path.join(dirn, n['name']), 'wb') as f: f.write(d)
        for o in objs:
            if o[6]:
                for p, (c, _) in o[6].items():
                    with open(p, 'wb') as f: f.write(c)
        model.append((n, objs, mode) if not n.get('unread') else (n, [], 'broken'))
    return model

ROOTS = ['sdk 1', 'sdk_b', 'c.d', '_x_', '14.2 (18C54) arm64e', ' p', 'q-r,s ', 'ü12', 'v__w', 'v--w', 'A', 'a', '(iPhone) 17.0', '9']
def rootname(scn, i): return scn.get('roots', ROOTS)[i]
def bundlename(scn, i): return re.sub('[^a-zA-Z0-9.,-]+', '_', rootname(scn, i)).strip('_')

def argv(scn, root, out):
    o = scn['opts']; a = [BIN, '-o', out]
    a += ['-z'] * o['z']
    if o['prefix']: a += ['-p', o['prefix']]
    if o['bundle']: a += ['-b', o['bundle']]
    if o['multi']: a += ['--multiple-bundles']
    if o['ignore']: a += ['-I']
    if o['sources']: a += ['--with-sources']
    if o['quiet']: a += ['-q']
    return a + [os.path.join(root, 'in', rootname(scn, i)) for i in range(scn['nroots'])]

def dst_cfg(l, root, extra=''):
    s = 'seed %d\nrandseed %d\n' % (l['seed'], l['seed'] ^ 0x5555)
    s += 'prefix %s\nreport %s/report\nrecord %s/record\nmaxsteps 4000000\n' % (root, root + '.d', root + '.d')
    if l.get('decisions') is not None:
        s += 'policy explicit\n' + ''.join('d %d:%d\n' % (a, b) for a, b in l['decisions'])
    else:
        s += 'policy %s\n' % l['policy']
        if l['policy'] == 'pct': s += 'pct %d %d\n' % tuple(l['pct'])
        else: s += 'p_switch %g\n' % l['p_switch']
    if l.get('alloc'): s += 'alloc %d\n' % l['alloc']
    if l.get('stall'): s += 'stall %g %d\n' % tuple(l['stall'])
    if l.get('wall'): s += 'wall %d\n' % l['wall']
    for f in l['faults']: s += 'fault %s %d %d %s %d %s\n' % tuple(f)
    return s + extra

def run_sim(cmd, l, root, extra='', timeout=120):
    """One simulated process. root.d holds the control files."""
    ctl = root + '.d'
    os.makedirs(ctl, exist_ok=True)
    for f in ('report', 'record'):
        try: os.unlink(os.path.join(ctl, f))
        except FileNotFoundError: pass
    with open(os.path.join(ctl, 'cfg'), 'w') as f: f.write(dst_cfg(l, root, extra))
    env = {'PATH': '/usr/bin:/bin', 'LD_PRELOAD': common.LIBDST, 'DST_CFG': os.path.join(ctl, 'cfg'), 'RAYON_NUM_THREADS': str(l.get('threads', 1)), 'LC_ALL': 'C.UTF-8', 'HOME': '/nonexistent'}
    if l.get('tmpdir'): env['TMPDIR'] = l['tmpdir'].replace('@ROOT', root)
    dbg = os.environ.get('VPSIM_GDB')       # for looking into a simulator that hangs: file for the stacks
    p = subprocess.Popen(cmd, cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=common.no_aslr)
    try: p.stdout, p.stderr = p.communicate(timeout=20 if dbg else timeout)
    except subprocess.TimeoutExpired:
        if dbg: subprocess.run(['gdb', '-p', str(p.pid), '-batch', '-ex', 'thread apply all bt'], stdout=open(dbg + '.%d' % p.pid, 'w'), stderr=subprocess.STDOUT)
        p.kill(); p.communicate()
        return dict(code='timeout', out='', err='', report={}, rec=[])
    try: rep = json.load(open(os.path.join(ctl, 'report')))
    except (FileNotFoundError, ValueError): rep = {}
    rec = []
    try:
        for line in open(os.path.join(ctl, 'record')):
            a, b = line.split(':'); rec.append([int(a), int(b)])
    except FileNotFoundError: pass
    return dict(code=p.returncode, out=p.stdout.decode('utf8', 'replace'), err=p.stderr.decode('utf8', 'replace'), report=rep, rec=rec)

def read_tree(out):
    t = {}
    for d, ds, fs in os.walk(out):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h: t[os.path.relpath(p, out)] = h.read()
    return t

def run_lives(scn, root, keep=True):
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    model = materialise(scn, root)
    res = []
    for l in scn['lives']:
        out = os.path.join(root, 'out%d' % l['out'])
        r = run_sim(argv(scn, root, out), l, root)
        r['tree'] = read_tree(out); r['model'] = model; r['root'] = root
        res.append(r)
    shutil.rmtree(root, ignore_errors=True); shutil.rmtree(root + '.d', ignore_errors=True)
    return res

# ---------------------------------------------------------------- oracle
def expected(scn, model, count=[0]):
    """-> must, may: {path: [candidates]}, broken: [(node, mode)], bundles: {bundle: (must paths, may paths)}"""
    must = {}; may = {}; bundles = {}; broken = []
    o = scn['opts']
    for n, objs, mode in model:
        b = bundlename(scn, n['root']) if o['multi'] else o['bundle']
        if mode != 'ok': broken.append((n, mode))
        sure = mode in ('ok', 'zipbroken', 'nosources')
        if mode == 'zipbroken':
            # entries of a healthy archive: broken entries are skipped, the others are sorted
            sure_objs = [x for x in objs if len(x) == 7]; may_objs = [x for x in objs if len(x) > 7]
        else:
            sure_objs, may_objs = (objs, []) if sure else ([], objs)
        for os_, dest, k in ((sure_objs, must, 0), (may_objs, may, 1)):
            for d, uid, kind, arch, fmt, label, src in (x[:7] for x in os_):
                p = '%s/%s/%s' % (uid[:2], uid[2:], kind)
                dest.setdefault(p, []).append(dict(data=d, name=label, arch=arch, fmt=fmt, uid=uid, src=None))
                if b: bundles.setdefault(b, [set(), set()])[k].add(p)
    if o['sources']:
        # one source bundle per identifier with a plain debug file that names existing sources, per sorting pass
        passes = {}
        for n, objs, mode in model:
            passes.setdefault(n['root'] if o['multi'] else 0, []).append((n, objs, mode))
        for i in sorted(passes):
            have = {x[1] for n, objs, mode in passes[i] if n['t'] in ('obj', 'fat') for x in objs if x[2] == 'sourcebundle'}
            made = {}
            for n, objs, mode in passes[i]:
                if n['t'] not in ('obj', 'fat'): continue
                for d, uid, kind, arch, fmt, label, src in objs:
                    src = {p: c for p, (c, good) in (src or {}).items() if good}
                    if kind == 'debuginfo' and src and uid not in have: made.setdefault(uid, []).append((label, arch, src))
            count[0] += len(made)
            for uid, c in made.items():
                p = '%s/%s/sourcebundle' % (uid[:2], uid[2:])
                for label, arch, src in c:
                    must.setdefault(p, []).append(dict(data=None, name=label, arch=arch, fmt='sourcebundle', uid=uid, src=src))
                b = bundlename(scn, i) if o['multi'] else o['bundle']
                if b: bundles.setdefault(b, [set(), set()])[0].add(p)
    return must, may, broken, bundles

def source_bundle_ok(data, src):
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        m = json.loads(z.read('manifest.json'))
        got = {v['path']: z.read(k) for k, v in m['files'].items()}
        return got == src
    except Exception:
        return False

def check_tree(scn, model, tree, partial=False):
    """Compares an output tree with the model -> [(category, message)]."""
    o = scn['opts']; bad = []
    must, may, broken, bundles = expected(scn, model)
    pre = (o['prefix'] + '/') if o['prefix'] else ''
    present = set()
    def cand_ok(c, raw):
        try: data = common.zstd_decompress(raw) if o['z'] else raw
        except ValueError: return False
        if c['src'] is not None: return source_bundle_ok(data, c['src'])
        return data == c['data']
    for p, raw in sorted(tree.items()):
        if not p.startswith(pre): bad.append(('extra', 'file outside the prefix: ' + p)); continue
        q = p[len(pre):]; parts = q.split('/')
        if parts[0] == 'bundles' and len(parts) == 2:
            names = set(bundlename(scn, i) for i in range(scn['nroots'])) if o['multi'] else ({o['bundle']} if o['bundle'] else set())
            if parts[1] not in names: bad.append(('index', 'index of an unknown bundle: ' + q))
            continue
        if len(parts) == 4 and parts[2] == 'refs': continue
        if len(parts) == 3 and parts[2] in KIND:
            cands = must.get(q, []) + may.get(q, [])
            if not cands: bad.append(('extra', 'unexpected file ' + q)); continue
            present.add(q)
            ok = [c for c in cands if cand_ok(c, raw)]
            if not ok: bad.append(('content', '%s does not have the content of an input file (%d bytes)' % (q, len(raw)))); continue
            try: m = json.loads(tree[p + '.meta'])
            except KeyError: bad.append(('meta', 'no metadata for ' + q)); continue
            except ValueError: bad.append(('meta', 'unreadable metadata for ' + q)); continue
            if not any(m == dict(name=c['name'], arch=c['arch'], file_format=c['fmt']) for c in ok):
                bad.append(('meta', 'metadata of %s does not describe it: %s' % (q, json.dumps(m))))
            continue
        if len(parts) == 3 and parts[2].endswith('.meta') and parts[2][:-5] in KIND:
            if q[:-5] not in must and q[:-5] not in may: bad.append(('extra', 'unexpected file ' + q))
            continue
        bad.append(('extra', 'unexpected file ' + q))
    for p in must:
        if p not in present: bad.append(('missing', '%s (%s) is not in the output' % (p, must[p][0]['name'])))
    names = [bundlename(scn, i) for i in range(scn['nroots'])] if o['multi'] else ([o['bundle']] if o['bundle'] else [])
    for b in names:
        mu, ma = bundles.get(b, [set(), set()])
        raw = tree.get(pre + 'bundles/' + b)
        if raw is None: bad.append(('index', 'no index for bundle ' + b)); continue
        try: idx = json.loads(raw); ids = sorted(idx['debug_ids'])
        except (ValueError, KeyError): bad.append(('index', 'unreadable index of bundle ' + b)); continue
        uid = lambda p: ''.join(p.split('/')[:2])
        want = sorted([uid(p) for p in mu] + [uid(p) for p in ma - mu if p in present])
        # partially broken archives: whether an identifier counts is decided by the output
        if ids != want:
            shared = {p for p in ma - mu if sum(p in x or p in y for x, y in bundles.values()) > 1}
            opt = sorted(uid(p) for p in shared)
            rest = list(ids); ok = True
            for x in [uid(p) for p in mu] + [uid(p) for p in ma - mu - shared if p in present]:
                if x in rest: rest.remove(x)
                else: ok = False
            for x in rest:
                if x in opt: opt.remove(x)
                else: ok = False
            if not ok or not shared:
                bad.append(('index', 'index of bundle %s lists %s, sorted were %s' % (b, ids, want)))
        if idx.get('name') != b: bad.append(('index', 'index of bundle %s is named %s' % (b, idx.get('name'))))
        for p in mu:
            if p in present and (pre + p.rsplit('/', 1)[0] + '/refs/' + b) not in tree:
                bad.append(('refs', '%s does not refer to bundle %s' % (p, b)))
    allrefs = {}
    for b, (mu, ma) in bundles.items():
        for p in mu | ma: allrefs.setdefault(p.rsplit('/', 1)[0], set()).add(b)
    for p in tree:
        parts = p[len(pre):].split('/')
        if len(parts) == 4 and parts[2] == 'refs' and parts[3] not in allrefs.get('/'.join(parts[:2]), set()) and not broken:
            bad.append(('refs', 'reference to a bundle the file is not part of: ' + p))
    return bad

CATS = {'S01': {'missing', 'content', 'meta', 'extra'}, 'S02': {'missing', 'content', 'meta', 'extra', 'index', 'refs', 'differ'}, 'S03': {'index', 'refs', 'report'},
        'S04': {'missing', 'content', 'meta', 'extra', 'index', 'refs', 'exit', 'success'}, 'S05': {'missing', 'content', 'meta', 'extra', 'index', 'refs', 'exit', 'message'}}

def disturbed(l): return any(f[3] in ('crash', 'crash_after', 'torn') or (f[3] == 'err' and f[4] != 4 and not f[5].endswith('.unr')) for f in l['faults'])

def judge(scn, res):
    bad = []
    for i, (l, r) in enumerate(zip(scn['lives'], res)):
        if r['code'] in ('timeout', 98, 97): return [], True
        model = r['model']
        must, may, broken, bundles = expected(scn, model)
        code = r['code']
        fails = bool(broken) and not scn['opts']['ignore']
        if code in (99,): bad.append(('hang', 'the run hangs')); continue
        if disturbed(l):
            if code == 0 and not scn['opts']['ignore'] and not fails:
                for c, m in check_tree(scn, model, r['tree']): bad.append(('success', 'reported success although %s' % m))
            continue
        if fails:
            if code == 0: bad.append(('exit', 'broken input and no failure reported'))
            elif not any((n.get('unread') or shown(n['name'])) in r['err'] or any(e['name'] in r['err'] for e in n.get('es', [])) for n, _ in broken):
                bad.append(('message', 'the failure does not name a broken file: ' + r['err'][-300:]))
            continue
        if code != 0:
            bad.append(('exit', 'exit code %s: %s' % (code, r['err'][-400:]))); continue
        bad += check_tree(scn, model, r['tree'])
        if broken:
            for n, mode in broken:
                # of equal files, sources are listed for one
                names = [n['unread']] if n.get('unread') else [shown(n['name'])] + [e['name'] for e in n.get('es', [])] + [shown(k['name']) for k, _ in broken if mode == 'nosources' and (k.get('id'), k.get('b')) == (n.get('id'), n.get('b'))]
                if not any(x in r['err'] for x in names): bad.append(('message', 'broken file %s skipped without a message' % shown(n['name'])))
        if not broken and not scn['opts']['quiet']:
            count = [0]; must, _, _, bundles = expected(scn, model, count)
            n = sum(len(x) for x, _ in bundles.values()) if bundles else len(must)
            got = [re.search(x, r['out']) for x in (r'Sorted (\d+) debug files', r'Created (\d+) source bundles')]
            if not got[0] or int(got[0].group(1)) != n: bad.append(('report', '%s instead of %d debug files are reported' % (got[0] and got[0].group(1), n)))
            if scn['opts']['sources'] and (not got[1] or int(got[1].group(1)) != count[0]): bad.append(('report', '%s instead of %d source bundles are reported' % (got[1] and got[1].group(1), count[0])))
    if scn['prop'] == 'S02':
        norm = [normal(scn, r['tree']) for r in res if r['code'] == 0]
        for x in norm[1:]:
            if x != norm[0]:
                diff = [k for k in set(x) | set(norm[0]) if x.get(k) != norm[0].get(k)]
                bad.append(('differ', 'schedules give different outputs: %s' % sorted(diff)[:4])); break
    cats = CATS[scn['prop']] | {'hang'}
    return [(c, m) for c, m in bad if c in cats], False

def normal(scn, tree):
    """The tree without what may depend on timing."""
    t = {}
    for p, raw in tree.items():
        if p.endswith('.meta'):
            try: m = json.loads(raw); m.pop('name', None); t[p] = m
            except ValueError: t[p] = raw
        elif '/bundles/' in '/' + p:
            try: m = json.loads(raw); m.pop('timestamp', None); m['debug_ids'].sort(); t[p] = m
            except (ValueError, KeyError): t[p] = raw
        elif p.endswith('/sourcebundle') and scn['opts']['sources']: t[p] = True
        else: t[p] = raw
    return t

# ---------------------------------------------------------------- driver interface
def make(prop, seed, root):
    scn, r = generate(prop, seed)
    place_faults(scn, r, root)
    return scn

def execute(scn, root):
    """-> result dictionary"""
    res = run_lives(scn, root)
    bad, discard = judge(scn, res)
    h = '-'.join(x['report'].get('hash', '?') for x in res)
    faults = {}
    for l, x in zip(scn['lives'], res):
        for f, g in zip(l['faults'], x['report'].get('faults', [])):
            k = '%s:%s' % (f[0], f[3] if f[3] != 'err' else 'errno%d' % f[4]); faults[k] = faults.get(k, 0) + g['fired']
        st = x['report'].get('stalls', 0)
        if st: faults['stalled thread'] = faults.get('stalled thread', 0) + st
    counts = dict(lives=len(res), steps=sum(x['report'].get('steps', 0) for x in res), decisions=sum(x['report'].get('decisions', 0) for x in res),
                  thread_switches=sum(x['report'].get('switches', 0) for x in res), discarded=int(discard))
    probes = {}
    for l, x in zip(scn['lives'], res):
        k = 'exit %s' % x['code']; probes[k] = probes.get(k, 0) + 1
        if 'already exists' in x['err'] or 'duplicate' in x['err']: probes['duplicate seen'] = probes.get('duplicate seen', 0) + 1
        if 'ignored error' in x['err']: probes['error ignored'] = probes.get('error ignored', 0) + 1
    nobj = sum(len(o) for _, o, _ in res[0]['model'])
    probes['objects'] = nobj
    return dict(bad=bad, hash=h, hashes=[h], discard=discard, faults=faults, counts=counts, probes=probes,
                virtual_ns=sum(max(0, x['report'].get('virtual_ns', 0) - 1000 * 10**9) for x in res), recs=[x['rec'] for x in res],
                trivial=nobj == 0, sample=dict(seed=scn['seed'], options=scn['opts'], inputs=[n['t'] + ':' + shown(n['name']) for n in scn['nodes']][:8], lives=[{k: l[k] for k in ('threads', 'policy', 'faults')} for l in scn['lives']]))

def shrink_steps(scn):
    """Candidate reductions: lists of (path to a list in the scenario)."""
    return [['nodes']] + [['nodes', i, 'es'] for i, n in enumerate(scn['nodes']) if n['t'] == 'zip'] + [['lives', i, 'faults'] for i in range(len(scn['lives']))]

def simplify(scn):
    """Yields simpler variants."""
    for k, v in (('z', 0), ('prefix', None), ('sources', False), ('quiet', True), ('bundle', None), ('multi', False)):
        if scn['opts'][k] != v:
            s = json.loads(json.dumps(scn)); s['opts'][k] = v; yield s
    for i, l in enumerate(scn['lives']):
        if len(scn['lives']) > 1:
            s = json.loads(json.dumps(scn)); del s['lives'][i]; yield s
        if l.get('stall'):
            s = json.loads(json.dumps(scn)); del s['lives'][i]['stall']; yield s
        for t in (1, 2):
            if l['threads'] > t:
                s = json.loads(json.dumps(scn)); s['lives'][i]['threads'] = t; yield s

RULE_TEXT = ('Each run generates a tree of input files (plain, fat, zip, source bundles, duplicates, related identifiers, junk, broken files) and options from its seed and sorts it with the real tool under a seeded thread schedule with the '
             'faults of the property; it counts as non-trivial when at least one debug file is in the tree, and as distinct when the hash of its full event trace is new.')
REAL = ['crates/symsorter (whole binary)', 'rayon, walkdir, zip, zstd, symbolic (parsing), std', 'kernel file system (tmpfs)']
STUB = ['thread scheduling, clocks, randomness and results of file operations come from the simulator (LD_PRELOAD)']
ASSUME = ['a crash is the death of the process: writes the kernel accepted survive', 'inputs hold no two different files with the same identifier and kind', 'threads are preempted at system calls, synchronisation and allocations only']
