"""Simulation of the symbol server proxy: O04."""
import json, os, random
from urllib.parse import unquote
import common, simrun, layouts, objsim
from layouts import Id

SIM = os.path.join(common.TARGET, 'debug', 'proxysim')
TYPES = ['elf_code', 'elf_debug', 'mach_code', 'mach_debug', 'pe', 'pdb']
HEX = set('0123456789abcdefABCDEF')

def parse(path):
    """What a path of a symbol server names: ([types], module), None: nothing, 'open': not defined."""
    c = path.split('/', 2)
    if len(c) < 3 or c[0].lower() != c[2].lower(): return None
    name, sig = c[0], c[1]; low = sig.lower(); n = name.lower()
    hexed = lambda s: bool(s) and set(s) <= HEX
    for pre, ext, t, ty in (('elf-buildid-sym-', '.debug', 'elf_debug', 'elf'), ('elf-buildid-', '', 'elf_code', 'elf'), ('mach-uuid-sym-', '.dwarf', 'mach_debug', 'macho'), ('mach-uuid-', '', 'mach_code', 'macho')):
        if low.startswith(pre) and n.endswith(ext):
            k = sig[len(pre):]
            return ([t], dict(object_type=ty, code_id=k, code_file=name)) if hexed(k) else 'open'
    if n.endswith('.pdb'):
        if not hexed(sig) or not 33 <= len(sig) <= 40: return None if not hexed(sig) else 'open'
        return ['pdb'], dict(object_type='pe', debug_id=sig, debug_file=name)
    return (['pe'], dict(object_type='pe', code_id=sig, code_file=name)) if hexed(sig) else 'open'

def vary(r, p):
    x = r.random()
    if x < .5: return p
    if x < .62: return layouts.ascii_lower(p)
    if x < .72: return layouts.ascii_upper(p)
    if x < .8:
        a, b, c = p.split('/', 2); return '/'.join([layouts.ascii_lower(a), b, c])
    if x < .86:
        a, b, c = p.split('/', 2); return '/'.join([a, r.choice([b.upper(), b.lower(), b.swapcase()]), c])
    y = r.randrange(8)
    a, b, c = p.split('/', 2)
    if y == 0: return '/'.join([a, b, c + 'x'])
    if y == 1: return '/'.join(['x' + a, b, c])
    if y == 2: return '/'.join([a, b])
    if y == 3: return '/'.join([a[:2], a, b, c])
    if y == 4: return '/'.join([a, b, c, ''])
    if y == 5: return '/'.join([a, b, c[:-1] + '_'])
    if y == 6: return r.choice([a, '', '/', '//', '000Admin/lastid.txt', 'index2.txt', 'pingme.txt', '/'.join([a, b, 'file.ptr'])])
    d = r.randrange(len(b)); return '/'.join([a, b[:d] + r.choice('0123456789abcdef') + b[d + 1:], c])

def make(prop, seed, root):
    r = random.Random('proxy/%d' % seed)
    s = objsim.gen_scn('O04', seed)
    s['config']['symstore_proxy'] = r.random() < .95
    s['config']['sources'] = s['sources']
    mods = [o['oid'] for l in s['lives'] for o in l['ops']]
    paths = []
    for m in mods:
        i = Id(m)
        for t in TYPES:
            if r.random() < .7 and t != {'elf': 'pdb', 'macho': 'pe', 'pe': 'elf_debug'}.get(i.type): paths += [p for p in layouts.symstore(t, i, r.random() < .2) if p.count('/') == 2]
    paths = sorted(set(paths))
    for l in s['lives']:
        for o in l['ops']:
            p = vary(r, r.choice(paths)) if paths else 'foo.pdb/0/foo.pdb'
            n = dict(at=o['at'], id=o['id'], op='proxy', val=dict(path=p, method=r.choice(['GET', 'GET', 'GET', 'HEAD'])))
            if 'abandon' in o: n['abandon'] = o['abandon']
            o.clear(); o.update(n)
    return s

def judge(scn, res, root):
    bad = []; w = objsim.World(scn, root); probes = {}
    def p(k, n=1): probes[k] = probes.get(k, 0) + n
    everything = list(range(len(scn['sources'])))
    for L, (l, x) in enumerate(zip(w.scn['lives'], res)):
        ops = {o['id']: o for o in l['ops']}; exp = {}; urls = set(); opened = False
        for k, o in ops.items():
            q = parse(o['val']['path']) if scn['config']['symstore_proxy'] else None
            exp[k] = q
            if q == 'open': opened = True
            elif q is not None:
                oid = q[1]; i = Id(oid)
                exp[k] = q = dict(oid=oid, types=q[0], srcs=everything)
                for s, d in w.files(q):
                    u = objsim.net_url(s, d)
                    if u: urls.add(u)
                for j, s in enumerate(w.src):
                    if s['type'] == 'sentry': urls.add('%s?debug_id=%s' % (s['url'], layouts.debug_str(i)) if i.debug is not None else '%s?code_id=%s' % (s['url'], i.code))
                    elif str(j) in w.scn['index']:
                        for loc in ['lastid.txt'] + ['%010d' % n for n in range(1, 4)]: urls.add(objsim.net_url(s, layouts.file(s, '000Admin/' + loc)))
        for e in x['ev']:
            if e['e'] == 'net' and not opened:
                if e['url'].startswith('https://www.googleapis.com/'): continue
                if unquote(e['url']) not in urls: bad.append(('stray', 'life %d: request for %s, which none of the paths names' % (L, unquote(e['url']))))
            elif e['e'] == 'res' and e['r'] in ops and not e.get('aband'):
                o = ops[e['r']]; q = exp[o['id']]; path = o['val']['path']; tag = 'life %d op %d: %s %s' % (L, o['id'], o['val']['method'], path)
                if e.get('panic'): bad.append(('panic', tag + ' panicked')); continue
                if q == 'open': p('not defined'); continue
                head = o['val']['method'] == 'HEAD'
                if q is None: want = dict(st='notfound'); k = None; p('paths that name nothing')
                else:
                    files = w.files(q); p('paths')
                    unsure = any(w.result(*f)['st'] in ('unspec', 'denied') or w.result(*f).get('fat') and q['oid']['object_type'] != 'macho' for f in files)      # which slice of an archive belongs to a module of another kind is not defined
                    k = objsim.choose(files, w, 'debug')
                    want = dict(st='notfound') if k is None else w.result(*files[k])
                    if unsure and (want['st'] != 'ok' or want.get('fat')): p('not defined'); continue
                st = e['status']
                if want['st'] == 'ok':
                    if st != 200: bad.append(('not-served', '%s: status %d although %s has the file' % (tag, st, files[k][1]['uri']))); continue
                    p('files served' if not head else 'files found')
                    if e['length'] != str(want['len']): bad.append(('length', '%s: content length %s of a file of %d bytes' % (tag, e['length'], want['len'])))
                    if head and e['body'].get('len') != 0: bad.append(('content', '%s: answered with a body' % tag))
                    if not head and e['body'] != dict(len=want['len'], hash=want['hash']): bad.append(('content', '%s: %s instead of the %d bytes of %s' % (tag, json.dumps(e['body']), want['len'], files[k][1]['uri'])))
                elif want['st'] == 'notfound':
                    if st != 404: bad.append(('status', '%s: status %d although there is no such file' % (tag, st)))
                    p('not found')
                else:
                    if not 500 <= st <= 599: bad.append(('status', '%s: status %d although the file is %s' % (tag, st, want['st'])))
                    p('failed')
    return bad, probes

def execute(scn, root):
    res = simrun.run_lives('svc', scn, root, objsim.extra(scn), exe=SIM)
    bad, discard = simrun.general(res)
    probes = {}
    if not discard and not any(c in ('died', 'deadlock') for c, _ in bad):
        js, probes = judge(scn, res, root)
        bad += js
    sample = dict(seed=scn['seed'], sources=[(s['type'], (s.get('layout') or {}).get('type')) for s in scn['sources']], lives=len(scn['lives']), ops=sum(len(l['ops']) for l in scn['lives']))
    return simrun.summary(scn, res, bad, discard, sample, not probes.get('paths'), probes)

shrink_steps = objsim.shrink_steps
simplify = objsim.simplify
RULE_TEXT = ('Each run generates modules, sources and files as for O01-O03, and requests to the proxy for the symbol server paths of the modules (any casing), for damaged paths, and for files that are missing or fail, over one or two process lives; '
             'distinct when the hash of the whole trace (schedule, file operations, faults) is new; trivial when no request named a module.')
REAL = objsim.REAL + ['symbolicator: endpoints/proxy.rs and endpoints/error.rs']
STUB = objsim.STUB + ['axum: stand-in with the extractors, bodies and responses the endpoint uses', 'RequestService: the three methods the endpoint calls, forwarding to the real objects actor']
ASSUME = objsim.ASSUME
