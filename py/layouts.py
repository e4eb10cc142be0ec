"""Where a debug file lies in a source: an independent model of the directory layouts, filters and source kinds."""
import re, unicodedata
from urllib.parse import unquote, urlsplit

# ---------------------------------------------------------------- identifiers
class Id:
    """A module: code_id (hex or None), code_file, debug (uuid hex, age) or None, debug_file, checksum, type."""
    def __init__(s, j):
        c = j.get('code_id')
        s.code = None if not c else ''.join(x for x in c if x in '0123456789abcdefABCDEF').lower()
        d = j.get('debug_id')
        if d:
            h = d.replace('-', '').lower()
            s.debug = (h[:32], int(h[32:] or '0', 16))
        else: s.debug = None
        s.code_path, s.debug_path, s.checksum, s.type = j.get('code_file'), j.get('debug_file'), j.get('debug_checksum'), j.get('object_type')
        s.code_file, s.debug_file = basename(s.code_path), basename(s.debug_path)
        if s.type not in ('elf', 'macho', 'pe', 'wasm', 'pe_dotnet'): s.type = 'unknown'
    @property
    def mach(s):
        """UUID of a Mach-O file as plain hex."""
        if s.code is not None: return s.code if len(s.code) == 32 else None
        return s.debug[0] if s.debug else None
    def pdbkey(s, ssqp):
        if not s.debug or s.debug_file is None: return None
        age = '%x' % (0xffffffff if s.type == 'pe_dotnet' else s.debug[1])
        return s.debug[0].lower() + age.upper() if ssqp else s.debug[0].upper() + age
    def breakpad(s): return s.debug[0].upper() + '%x' % s.debug[1]

def basename(p):
    """Last component of a Windows or Unix path, if it can be the name of a file."""
    if p is None: return None
    parts = [x for x in re.split(r'[\\/]', p) if x]
    if not parts: return None
    n = parts[-1]
    if n in ('.', '..') or len(n.encode()) >= 256 or any(unicodedata.category(c) == 'Cc' for c in n): return None
    return n

def ascii_lower(s): return ''.join(c.lower() if c.isascii() else c for c in s)
def ascii_upper(s): return ''.join(c.upper() if c.isascii() else c for c in s)

# ---------------------------------------------------------------- layouts
ALL = ['pdb', 'mach_debug', 'elf_debug', 'pe', 'mach_code', 'elf_code', 'wasm_code', 'wasm_debug', 'breakpad', 'sourcebundle', 'uuidmap', 'bcsymbolmap', 'portablepdb', 'proguard']
SOURCES = ['sourcebundle', 'portablepdb', 'elf_debug', 'wasm_debug']
TYPES = ['pe', 'pdb', 'portablepdb', 'mach_debug', 'mach_code', 'elf_debug', 'elf_code', 'wasm_debug', 'wasm_code', 'breakpad', 'sourcebundle', 'uuidmap', 'bcsymbolmap', 'il2cpp', 'proguard']
LAYOUTS = ['native', 'symstore', 'symstore_index2', 'ssqp', 'debuginfod', 'unified', 'slashsymbols']
def auto_types(auto, objtype):
    if auto == 'all': return ALL
    if auto == 'sources': return SOURCES
    rest = ['breakpad', 'mach_debug', 'pdb', 'elf_debug']
    return {'macho': ['mach_code'] + rest, 'pe': ['pe'] + rest, 'elf': ['elf_code'] + rest, 'wasm': ['wasm_code', 'wasm_debug'], 'pe_dotnet': ['portablepdb']}.get(objtype, ALL)

def breakpad(i):
    if i.type == 'wasm' or i.debug_file is None or not i.debug: return None
    stem = i.debug_file
    for e in ('.exe', '.dll', '.pdb'):
        if stem.endswith(e): stem = stem[:-len(e)]; break
    return '%s/%s/%s' % (i.debug_file, i.breakpad(), stem)
def gdb(i): return None if i.code is None or len(i.code) < 2 else i.code[:2] + '/' + i.code[2:]
def lldb(i):
    m = i.mach
    if m is None: return None
    m = m.upper()
    return '/'.join([m[0:4], m[4:8], m[8:12], m[12:16], m[16:20], m[20:]])
def pdb(i, ssqp=False):
    k = i.pdbkey(ssqp)
    if k is None: return None
    f = i.debug_file.lower() if ssqp else i.debug_file
    return '%s/%s/%s' % (f, k, f)
def pe(i, ssqp=False):
    if i.code is None or i.code_file is None: return None
    if ssqp: return '%s/%s/%s' % (i.code_file.lower(), i.code, i.code_file.lower())
    if len(i.code) < 8: return None
    return '%s/%s/%s' % (i.code_file, i.code[:8].upper() + i.code[8:].lower(), i.code_file)
def without_ext(p):
    d, _, f = p.rpartition('/')
    stem = f.rpartition('.')
    return d + '/' + (stem[0] if stem[1] else f)

def native(t, i):
    """In order of preference."""
    one = lambda x: [] if x is None else [x]
    if t in ('elf_code', 'wasm_code'): return one(gdb(i))
    if t in ('elf_debug', 'wasm_debug'): return [x + '.debug' for x in one(gdb(i))]
    if t == 'mach_code': return [x + '.app' for x in one(lldb(i))]
    if t == 'mach_debug': return one(lldb(i))
    if t in ('pdb', 'portablepdb'): return one(pdb(i))
    if t == 'pe': return one(pe(i))
    if t == 'breakpad': return [x + '.sym' for x in one(breakpad(i))]
    if t == 'sourcebundle':
        if i.type in ('pe', 'pe_dotnet'): m = pdb(i); m = m and without_ext(m)
        elif i.type == 'macho': m = lldb(i)
        elif i.type in ('elf', 'wasm'): m = gdb(i)
        else: m = None
        if m is None: return []
        out = [m + '.src.zip']
        b = breakpad(i)
        if b and b + '.src.zip' not in out: out.append(b + '.src.zip')
        return out
    return []

def symstore(t, i, ssqp=False):
    low = (lambda s: s.lower()) if ssqp else (lambda s: s)
    if t == 'elf_code':
        if i.code is None or i.code_file is None: return []
        return ['%s/elf-buildid-%s/%s' % (low(i.code_file), i.code, low(i.code_file))]
    if t == 'elf_debug': return [] if i.code is None else ['_.debug/elf-buildid-sym-%s/_.debug' % i.code]
    if t == 'mach_code':
        if i.mach is None or i.code_file is None: return []
        return ['%s/mach-uuid-%s/%s' % (low(i.code_file), i.mach, low(i.code_file))]
    if t == 'mach_debug': return [] if i.mach is None else ['_.dwarf/mach-uuid-sym-%s/_.dwarf' % i.mach]
    if t in ('pdb', 'portablepdb'): return [x for x in [pdb(i, ssqp)] if x]
    if t == 'pe': return [x for x in [pe(i, ssqp)] if x]
    if t == 'sourcebundle' and i.type == 'pe': return [without_ext(x) + '.src.zip' for x in [pdb(i, ssqp)] if x]
    return []

def index2(p):
    b = p.encode()[:2]
    try: two = b.decode()
    except UnicodeDecodeError: return p
    if len(p.encode()) < 2: return p
    return (two[0] if two[1:] in ('/', '.') else two) + '/' + p

def unified(t, i):
    kind = {'elf_code': 'executable', 'mach_code': 'executable', 'pe': 'executable', 'wasm_code': 'executable', 'elf_debug': 'debuginfo', 'mach_debug': 'debuginfo', 'pdb': 'debuginfo',
            'wasm_debug': 'debuginfo', 'portablepdb': 'debuginfo'}.get(t, t)
    if t in ('sourcebundle', 'breakpad', 'il2cpp'):
        cls = i.type
    else: cls = {'pe': 'pe', 'pdb': 'pe', 'portablepdb': 'pe', 'elf_code': 'elf', 'elf_debug': 'elf', 'proguard': None}.get(t, 'macho')
    if cls in ('pe', 'pe_dotnet'): k = i.breakpad().lower() if i.debug else None
    elif cls in ('macho', 'wasm'): k = i.code if i.code is not None else (i.debug[0] if i.debug else None)
    elif cls == 'elf': k = i.code
    else: k = None
    if k is None or len(k) < 2: return []
    return ['%s/%s/%s' % (k[:2], k[2:], kind)]

def paths(layout, t, i):
    """Paths of a type of file, best first."""
    ty = layout.get('type', 'native')
    if ty == 'native': out = native(t, i)
    elif ty == 'symstore': out = symstore(t, i)
    elif ty == 'symstore_index2': out = [index2(p) for p in symstore(t, i)]
    elif ty == 'ssqp': out = symstore(t, i, True)
    elif ty == 'debuginfod': out = ['%s/%s' % (i.code, 'executable' if t == 'elf_code' else 'debuginfo')] if t in ('elf_code', 'elf_debug') and i.code else []
    elif ty == 'unified': out = unified(t, i)
    else: out = ['%s/%s/symbols' % (i.code_file, i.code)] if i.code is not None and i.code_file is not None else []
    case = {'lowercase': ascii_lower, 'uppercase': ascii_upper}.get(layout.get('casing', 'default'), lambda s: s)
    out = [case(p) for p in out]
    if t in ('pdb', 'pe'): out = [q for p in out for q in (p, p[:-1] + '_')]
    return out

def glob_match(pat, s):
    rx = ''; k = 0
    while k < len(pat):
        c = pat[k]; k += 1
        if c == '*': rx += '.*'
        elif c == '?': rx += '.'
        elif c == '[':
            e = pat.index(']', k + 1); neg = pat[k] == '!'
            rx += '[' + ('^' if neg else '') + re.escape(ascii_lower(pat[k + neg:e])).replace('\\-', '-') + ']'; k = e + 1
        else: rx += re.escape(ascii_lower(c))
    return re.fullmatch(rx, ascii_lower(s), re.S) is not None

def allowed(src, t, i):
    f = src.get('filters') or {}
    if f.get('requires_checksum') and i.checksum is None: return False
    if f.get('filetypes') and t not in f['filetypes']: return False
    pats = f.get('path_patterns') or []
    if pats and not any(glob_match(p, x.replace('\\', '/')) for p in pats for x in (i.code_path, i.debug_path) if x is not None): return False
    return True

def locations(src, types, i, index=None, filters=True):
    """Locations in a source that is not Sentry's in the order of preference: [(type, location)]"""
    out = []
    for t in types:
        if filters and not allowed(src, t, i): continue
        out += [(t, p) for p in paths(src.get('layout') or {}, t, i) if index is None or p in index]
    return out

# ---------------------------------------------------------------- sources
def common(src):
    return {k: src[k] for k in ('filters', 'layout', 'is_public', 'has_index') if k in src}

def split_url(url):
    u = urlsplit(url)
    segs = u.path.split('/')[1:]
    if segs and segs[-1] == '': segs = segs[:-1]
    return u, [unquote(s) for s in segs]

DEFPORT = {'http': 80, 'https': 443}
def file(src, loc, i=None):
    """What is known about a file of a source (see describe() of the simulator), and the key in the store of the servers."""
    t = src['type']; sid = src['id']
    segs = [s for s in loc.split('/') if s]
    d = dict(src=sid, key='%s.%s' % (sid, loc), public=bool(src.get('is_public')), metric=sid if sid.startswith('sentry:') else t, shared=not (t == 'gcs' and sid.startswith('sentry:')))
    d['disp'] = "%s source '%s' location '%s'" % ({'http': 'HTTP', 's3': 'S3', 'gcs': 'GCS', 'filesystem': 'Filesystem'}[t], sid, loc)
    if t == 'http':
        u, base = split_url(src['url'])
        port = u.port if u.port and u.port != DEFPORT[u.scheme] else None
        net = u.hostname + (':%d' % port if port else '')
        plain = '%s/%s' % (net, '/'.join(base + segs))
        d['url'] = d['uri'] = '%s://%s%s' % (u.scheme, plain, '?' + unquote(u.query) if u.query else '')
        d['h'] = {'SymbolChecksum': i.checksum} if i is not None and i.checksum is not None else {}
        d['host'] = u.hostname
        store = plain + ('?' + unquote(u.query) if u.query else '')
    elif t in ('gcs', 's3'):
        p = (src.get('prefix') or '').strip('/')
        k = p + '/' + loc if p else loc
        d['s3key'] = k; d['host'] = src['bucket']
        d['uri'] = '%s://%s/%s' % ('gs' if t == 'gcs' else 's3', src['bucket'], k)
        store = '%s/%s/%s' % (t, src['bucket'], k)
    else:
        d['path'] = src['path'].rstrip('/') + '/' + loc
        d['uri'] = 'file://' + d['path']
        d['host'] = 'local file'
        store = None
    d['store'] = store
    return d

def sentry_file(src, fid, base):
    return dict(src=src['id'], key='%s.%s.sentryinternal' % (src['id'], fid), public=False, metric=src['id'] if src['id'].startswith('sentry:') else 'sentry', shared=True,
                disp="Sentry source '%s' file id '%s'" % (src['id'], fid), uri='sentry://project_debug_file/' + fid, url=base + '?id=' + fid, host=None, store='sentry/' + fid)

SENTRY_TYPES = {'mach_debug': 'macho', 'mach_code': 'macho', 'elf_debug': 'elf', 'elf_code': 'elf', 'wasm_debug': 'wasm', 'wasm_code': 'wasm'}
def sentry_types(types): return {SENTRY_TYPES.get(t, t) for t in types}
def debug_str(i):
    h, age = i.debug
    return '%s-%s-%s-%s-%s' % (h[:8], h[8:12], h[12:16], h[16:20], h[20:]) + ('-%x' % age if age else '')
def sentry_listing(table, src, types, i):
    """Files of the project that the search returns: ids in order."""
    if i.debug is None and i.code is None: return []
    want = sentry_types(types)
    files = table.get(src['url'], {}).get(src['token'], [])
    hit = [f for f in files if (f.get('debugId') == debug_str(i) if i.debug is not None else f.get('codeId') == i.code)]
    return [f['id'] for f in hit if f['symbolType'] in want]
