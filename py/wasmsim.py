"""Simulation of wasm-split: real binary under the process simulator through histories of runs on its own outputs."""
import json, os, random, re, shutil, uuid
import common, gen
from symsim import run_sim

BIN = os.path.join(common.TARGET, 'debug', 'wasm-split')

def generate(prop, seed):
    r = random.Random('%s/%d' % (prop, seed))
    bid = r.choice([None, None, 16, 16, 20, 1, 0, 32])
    base = dict(seed=r.randrange(1 << 30), debug=r.random() < .8, names=r.random() < .6, bid=bid, code=r.choice([10, 200, 5000, 60000]),
                extra=r.randrange(0, 4), url=r.choice([None, None, None, 'old.wasm']), big=r.choice([0, 0, 0, 9000, 300000]), dup=r.random() < .1, damage=None, full=r.random() < .5, pad=r.random() < .3)
    if r.random() < .12: base['damage'] = [r.choice(['cut', 'flip']), r.randrange(1 << 16)]
    scn = dict(family='wasm-split', prop=prop, seed=seed, base=base, lives=[])
    n = r.choice([1, 1, 1, 2, 3]) if prop == 'W01' else r.choice([1, 2, 2, 3, 4, 6])
    for i in range(n):
        l = dict(seed=r.randrange(1 << 48), threads=1, policy='uniform', p_switch=.5, alloc=0, faults=[], input=r.randrange(100),
                 out=r.choice([None, 'new', 'new', 'new', 'same', 'reuse']), debug=r.choice([None, 'new', 'new', 'reuse']), strip=r.random() < .5, names=r.random() < .4,
                 bid=r.choice([None, None, str(uuid.UUID(int=r.getrandbits(128)))]), url=r.choice([None, None, None, 'https://x/y.wasm', '']), quiet=r.random() < .2)
        for _ in range(r.choice([0, 0, 1])):
            k = r.choice(['short', 'rshort', 'eintr'])
            if k == 'short': l['faults'].append(['write', r.randrange(1, 6), r.choice([1, 100]), 'short', r.choice([1, 7, 4000]), ''])
            elif k == 'rshort': l['faults'].append(['read', r.randrange(1, 6), r.choice([1, 100]), 'short', r.choice([1, 100]), ''])
            else: l['faults'].append([r.choice(['write', 'read', 'open', 'create']), r.randrange(1, 4), 1, 'err', 4, ''])
        if r.random() < (.65 if prop == 'W01' else .25):
            x = r.random()
            if x < .7:
                op = r.choice(['write', 'write', 'write', 'create', 'read', 'open'])
                l['faults'].append([op, r.choice([1, 1, 2, 2, 3, 4, 5, 8, 30]), r.choice([1, 1, 100000]), 'err', r.choice([28, 5, 27, 122]) if op == 'write' else r.choice([5, 13, 28]), ''])
            elif x < .85:
                k = r.choice([1, 1, 2, 3, 5])
                l['faults'] += [['write', k, 1, 'short', r.choice([1, 100]), ''], ['write', k + 1, 100000, 'err', 28, '']]
            else:
                l['faults'].append([r.choice(['write', 'mut']), r.choice([1, 2, 3]), 1, r.choice(['crash', 'crash_after', 'torn']), 10, ''])
        scn['lives'].append(l)
    return scn

def place_faults(scn, root):
    """Half of the disruptive write faults go to a write the run really does."""
    r = random.Random('place/%d' % scn['seed'])
    for i, l in enumerate(scn['lives']):
        for f in l['faults']:
            if f[3] in ('err', 'torn') and f[0] == 'write' and r.random() < .6:
                p = dict(scn, lives=[dict(x, faults=[]) for x in scn['lives'][:i + 1]])
                ops = run_history(p, root)[-1]['report'].get('ops', {})
                f[1] = r.randrange(1, max(1, ops.get('write', 1)) + 1)

def base_file(b):
    r = random.Random(b['seed'] ^ 0x77)
    d = gen.wasm(b['seed'], b['debug'], b['names'], r.randbytes(b['bid']) if b['bid'] is not None else None, b['code'], b['extra'], b['url'], b['big'], full=b.get('full'))
    if b.get('pad'): d = gen.pad_sections(d, b['seed'])
    if b['dup']: d += gen.wcustom('build_id', gen.leb(4) + b'dupl')
    if b['damage']:
        k, v = b['damage']
        if k == 'cut': d = d[:max(1, len(d) - 1 - v % 200)]
        else: d = b'\0asm\2' + d[5:]
    return d

def run_history(scn, root):
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    files = ['f0']
    with open(root + '/f0', 'wb') as f: f.write(base_file(scn['base']))
    res = []
    rd = lambda n: open(os.path.join(root, n), 'rb').read() if n and os.path.exists(os.path.join(root, n)) else None
    for i, l in enumerate(scn['lives']):
        inp = files[l['input'] % len(files)]
        pick = lambda how, nm, avoid: (nm if how == 'new' else inp if how == 'same' else next((f for f in reversed(files) if f not in avoid), nm)) if how else None
        out = pick(l['out'], 'o%d' % i, {inp})
        dbg = pick(l['debug'], 'd%d.wasm' % i, {inp, out})
        before = rd(inp)
        a = [BIN, inp]
        if out: a += ['-o', out]
        if dbg: a += ['-d', dbg]
        if l['strip']: a += ['--strip']
        if l['names']: a += ['--strip-names']
        if l['bid']: a += ['--build-id', l['bid']]
        if l['url'] is not None: a += ['--external-dwarf-url', l['url']]
        if l['quiet']: a += ['-q']
        old = {f: rd(f) for f in files + [out, dbg] if f}
        x = run_sim([a[0], os.path.join(root, inp)] + [os.path.join(root, v) if a[k + 1] in ('-o', '-d') else v for k, v in enumerate(a[2:])], l, root)
        x.update(inp=inp, outp=out, dbgp=dbg, before=before, main=rd(out or inp), dbg=rd(dbg), after={f: rd(f) for f in old}, old=old)
        res.append(x)
        if x['code'] == 0:
            for f in (out, dbg):
                if f and f not in files and rd(f) is not None: files.append(f)
        else:
            # what an unsuccessful run left is not used any further
            for f in (out or inp, dbg):
                if f in files and rd(f) != old.get(f): files.remove(f)
            if not files: break
    shutil.rmtree(root, ignore_errors=True); shutil.rmtree(root + '.d', ignore_errors=True)
    return res

def disturbed(l): return any(f[3] in ('crash', 'crash_after', 'torn') or (f[3] == 'err' and f[4] != 4) for f in l['faults'])
def strippable(s, names): return s[0] == 0 and (s[1].startswith('.debug_') or (names and s[1] == 'name'))

def build_ids(secs):
    out = []
    for s in secs:
        if s[0] == 0 and s[1] == 'build_id':
            try:
                n, p = gen.unleb(s[2], 0)
                if p + n == len(s[2]): out.append(s[2][p:])
            except IndexError: pass
    return out

def is_subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)

def judge(scn, res):
    bad = []; fresh = {}
    for l, x in zip(scn['lives'], res):
        if x['code'] in ('timeout', 97, 98): return [], True
        if x['code'] == 99: bad.append(('W01', 'the run hangs')); continue
        try: ins = gen.wasm_sections(x['before'])
        except ValueError: ins = None
        if x['code'] != 0:
            if not disturbed(l) and ins is not None:
                bad.append(('W01', 'fails without a cause: %s' % x['err'][-200:]))
            wrote = x['report'].get('ops', {}).get('mut', 0)
            if not wrote:
                for f, d in x['old'].items():
                    if x['after'][f] != d: bad.append(('W02', 'a run that wrote nothing changed %s' % f))
            if ins is None and not disturbed(l) and x['after'][x['inp']] != x['before']: bad.append(('W02', 'a rejected input was changed'))
            continue
        if ins is None:
            bad.append(('W01', 'an incomplete module is accepted')); continue
        printed = x['out'].strip()
        had = build_ids(ins)
        if l['quiet'] and printed: bad.append(('W01', 'prints %s although nothing is to be printed' % printed[:80]))
        files = [('main', x['main'], x['outp'] or x['inp'])] + ([('debug', x['dbg'], x['dbgp'])] if x['dbgp'] else [])
        ids = []
        if had and not l['quiet'] and printed != had[0].hex(): bad.append(('W02', 'the module has build id %s, reported was %s' % (had[0].hex(), printed)))
        for what, data, name in files:
            if data is None: bad.append(('W01', 'the %s file was not written' % what)); continue
            try: secs = gen.wasm_sections(data)
            except ValueError as e: bad.append(('W01', 'the %s file is not a complete module: %s' % (what, e))); continue
            got = build_ids(secs)
            if not got: bad.append(('W01', 'the %s file has no build id' % what)); continue
            ids.append(got[0])
            if printed != got[0].hex() and not l['quiet']: bad.append(('W01', 'the %s file has build id %s, printed was %s' % (what, got[0].hex(), printed)))
            if had and got[0] != had[0]: bad.append(('W02', 'the build id changed from %s to %s' % (had[0].hex(), got[0].hex())))
            if not had and l['bid'] and got[0] != uuid.UUID(l['bid']).bytes: bad.append(('W01', 'the %s file does not have the given build id' % what))
            if not had and not l['bid']:
                if not any(got[0]): bad.append(('W02', 'the new build id is all zero'))
                if fresh.setdefault(got[0], id(x)) != id(x): bad.append(('W02', 'two runs gave the same new build id %s' % got[0].hex()))
            keep = ins if what == 'debug' or not l['strip'] else [s for s in ins if not strippable(s, l['names'])]
            if not is_subsequence(keep, secs): bad.append(('W02', 'the %s file lacks sections of its input: %s' % (what, [s[:2] for s in keep if s not in secs][:5])))
            if what == 'main' and l['strip'] and any(strippable(s, l['names']) for s in secs): bad.append(('W01', 'debug information was not stripped'))
            extra = [s for s in secs if s not in ins and not (s[0] == 0 and s[1] in ('build_id', 'external_debug_info'))]
            if extra: bad.append(('W02', 'the %s file has sections its input did not have: %s' % (what, [s[:2] for s in extra][:5])))
            if what == 'main':
                want = l['url'] if l['url'] is not None else os.path.basename(x['dbgp']) if x['dbgp'] else None
                if want is not None:
                    refs = [s[2][gen.unleb(s[2], 0)[1]:].decode() for s in secs if s[0] == 0 and s[1] == 'external_debug_info' and s[2]]
                    if want not in refs: bad.append(('W01', 'the main file does not refer to the debug file: %s' % refs))
        if len(set(ids)) > 1: bad.append(('W01', 'the files have different build ids'))
        if (x['outp'] or x['inp']) != x['inp'] and x['dbgp'] != x['inp'] and x['after'][x['inp']] != x['before']: bad.append(('W02', 'the input was changed although the output goes elsewhere'))
    return [b for b in bad if b[0] == scn['prop']], False

# ---------------------------------------------------------------- driver interface
def make(prop, seed, root):
    scn = generate(prop, seed)
    place_faults(scn, root)
    return scn

def execute(scn, root):
    res = run_history(scn, root)
    bad, discard = judge(scn, res)
    h = '-'.join(x['report'].get('hash', '?') for x in res)
    faults = {}; probes = {}
    for l, x in zip(scn['lives'], res):
        for f, g in zip(l['faults'], x['report'].get('faults', [])):
            k = '%s:%s' % (f[0], f[3] if f[3] != 'err' else 'errno%d' % f[4]); faults[k] = faults.get(k, 0) + g['fired']
        k = 'exit %s' % x['code']; probes[k] = probes.get(k, 0) + 1
        for k, v in (('debug file written', x['dbgp']), ('in place', x['code'] == 0 and not x['outp']), ('stripped', l['strip'])):
            if v: probes[k] = probes.get(k, 0) + 1
    return dict(bad=bad, hash=h, hashes=[h + '/' + common.sha(res[-1]['main'] or b'')], discard=discard, faults=faults, probes=probes,
                counts=dict(lives=len(res), steps=sum(x['report'].get('steps', 0) for x in res), discarded=int(discard)),
                virtual_ns=sum(max(0, x['report'].get('virtual_ns', 0) - 1000 * 10**9) for x in res), trivial=False,
                sample=dict(seed=scn['seed'], module=scn['base'], runs=[{k: l[k] for k in ('input', 'out', 'debug', 'strip', 'bid', 'faults')} for l in scn['lives']]))

def shrink_steps(scn):
    return [['lives']] + [['lives', i, 'faults'] for i in range(len(scn['lives']))]

def simplify(scn):
    c = lambda: json.loads(json.dumps(scn))
    for k, v in (('debug', False), ('names', False), ('extra', 0), ('url', None), ('big', 0), ('code', 10), ('dup', False), ('damage', None), ('bid', None), ('full', False), ('pad', False)):
        if scn['base'][k] != v:
            s = c(); s['base'][k] = v; yield s
    for i, l in enumerate(scn['lives']):
        for k, v in (('out', None), ('debug', None), ('strip', False), ('names', False), ('bid', None), ('url', None), ('quiet', False)):
            if l[k] != v:
                s = c(); s['lives'][i][k] = v; yield s

RULE_TEXT = ('Each run generates a module and a history of one to six runs of the real tool on it and on its outputs, with file faults of the property; distinct when the hash of the event traces and of the last output is new.')
REAL = ['crates/wasm-split (whole binary)', 'wasmbin, std', 'kernel file system (tmpfs)']
STUB = ['clocks, randomness and results of file operations come from the simulator (LD_PRELOAD)']
ASSUME = ['a crash is the death of the process: writes the kernel accepted survive', 'no two of the files given to one run are the same, except that the output may be the input']
