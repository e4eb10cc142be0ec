"""Generators of input files for the tool simulations. All deterministic functions of their arguments."""
import io, json, struct, zipfile, zlib, random

def blob(seed, n):
    return random.Random(seed).randbytes(n)

def textblob(seed, n):
    r = random.Random(seed)
    out = bytearray()
    while len(out) < n:
        out += b'PUBLIC %x 0 f%d\n' % (r.randrange(1 << 32), r.randrange(1 << 20))
    return bytes(out)

# ---------------------------------------------------------------- breakpad
def breakpad(idhex, age, arch, name, seed, size, code_id=None, os='Linux'):
    s = b'MODULE %s %s %s%X %s\n' % (os.encode(), arch.encode(), idhex.upper().encode(), age, name.encode())
    if code_id:
        s += b'INFO CODE_ID %s %s\n' % (code_id.upper().encode(), name.encode())
    s += b'FUNC 1000 10 0 main\n1000 10 1 1\n'
    return s + textblob(seed, size)

# ---------------------------------------------------------------- elf
def elf(build_id, etype, interp, text, seed, size, machine=62, debug=False, ident=True, dwarf=False, srcs=None):
    """Minimal 64-bit little-endian ELF. etype: 2 exec, 3 dyn."""
    secs = [(b'', 0, b'', 0)]
    if text:
        secs.append((b'.text', 1, blob(seed, 64), 6))
    if debug:
        secs.append((b'.debug_info' if dwarf else b'.debug_str', 1, blob(seed + 1, max(size, 100) if dwarf else size), 0))
    else:
        secs.append((b'.data', 1, blob(seed + 1, size), 3))
    if srcs:
        for k, d in sorted(dwarf_files(srcs).items()): secs.append((b'.debug_' + k.encode(), 1, d, 0))
    if ident:
        bid = bytes.fromhex(build_id)
        secs.append((b'.note.gnu.build-id', 7, struct.pack('<III', 4, len(bid), 3) + b'GNU\0' + bid + b'\0' * (-len(bid) % 4), 2))
    names = b''
    offs = []
    for s in secs + [(b'.shstrtab',)]:
        offs.append(len(names)); names += s[0] + b'\0'
    secs.append((b'.shstrtab', 3, names, 0))
    ph = 1 if interp else 0
    pos = 64 + 56 * ph
    body = b''
    interp_off = pos
    if interp:
        body += b'/lib64/ld.so\0\0\0\0'
    places = []
    for s in secs:
        pad = -(pos + len(body)) % 8
        body += b'\0' * pad
        places.append(pos + len(body)); body += s[2]
    body += b'\0' * (-(pos + len(body)) % 8)
    shoff = pos + len(body)
    hdr = b'\x7fELF\x02\x01\x01\0' + b'\0' * 8 + struct.pack('<HHIQQQIHHHHHH', etype, machine, 1, 0x1000, 64 if ph else 0, shoff, 0, 64, 56, ph, 64, len(secs), len(secs) - 1)
    phs = struct.pack('<IIQQQQQQ', 3, 4, interp_off, interp_off, interp_off, 13, 13, 1) if ph else b''
    sh = b''
    for i, s in enumerate(secs):
        if i == 0:
            sh += b'\0' * 64
        else:
            addr = 0x1000 if s[0] == b'.text' else 0
            sh += struct.pack('<IIQQQQIIQQ', offs[i], s[1], s[3], addr, places[i], len(s[2]), 0, 0, 4, 0)
    return hdr + phs + body + sh

# ---------------------------------------------------------------- mach-o
CPU = {'x86_64': (0x01000007, 3), 'arm64': (0x0100000c, 0), 'x86': (7, 3), 'arm64e': (0x0100000c, 2)}
def macho(uuid, arch, filetype, seed, size):
    cpu, sub = CPU[arch]
    is64 = cpu & 0x01000000
    cmd = struct.pack('<II', 0x1b, 24) + bytes.fromhex(uuid) if uuid else struct.pack('<IIQQ', 0x7d, 24, 0, 0)      # without an identifier: an unknown command
    h = struct.pack('<IIIIIII', 0xfeedfacf if is64 else 0xfeedface, cpu, sub, filetype, 1, len(cmd), 0)
    if is64:
        h += b'\0\0\0\0'
    return h + cmd + blob(seed, size)

def fat(slices, align=12):
    """slices: [(arch, bytes)]"""
    n = len(slices)
    pos = 8 + 20 * n
    head = struct.pack('>II', 0xcafebabe, n)
    body = b''
    for arch, data in slices:
        pad = -(pos + len(body)) % (1 << align)
        body += b'\0' * pad
        cpu, sub = CPU[arch]
        head += struct.pack('>IIIII', cpu, sub, pos + len(body), len(data), align)
        body += data
    return head + body

# ---------------------------------------------------------------- dwarf
def dwarf_files(srcs, is64=True):
    """DWARF 4 sections of one compile unit whose line table names these absolute paths."""
    d = '/'.join(srcs[0].split('/')[:-1]).encode()
    abbrev = b'\x01\x11\x00' + b'\x03\x08' + b'\x1b\x08' + b'\x10\x17' + b'\x11\x01' + b'\0\0' + b'\0'
    die = b'\x01' + srcs[0].split('/')[-1].encode() + b'\0' + d + b'\0' + struct.pack('<I', 0) + struct.pack('<Q' if is64 else '<I', 0x1000)
    info = struct.pack('<HIB', 4, 0, 8 if is64 else 4) + die
    info = struct.pack('<I', len(info)) + info
    files = b''.join(p.split('/')[-1].encode() + b'\0\x01\0\0' for p in srcs)
    h = bytes([1, 1, 1, 0xfb, 14, 13, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1]) + d + b'\0\0' + files + b'\0'
    line = struct.pack('<HI', 4, len(h)) + h
    return dict(info=info, abbrev=abbrev, line=struct.pack('<I', len(line)) + line)

def macho_dwarf(uuid, arch, filetype, seed, size, srcs):
    """A Mach-O file with a __DWARF segment."""
    cpu, sub = CPU[arch]; is64 = bool(cpu & 0x01000000)
    dw = dwarf_files(srcs, is64); names = sorted(dw); n = len(names)
    seg = (72 + 80 * n) if is64 else (56 + 68 * n)
    start = (32 if is64 else 28) + 24 + seg
    pos = start; sects = b''; body = b''
    for k in names:
        d = dw[k]; off = start + len(body)
        if is64: sects += struct.pack('<16s16sQQIIIIIIII', b'__debug_' + k.encode(), b'__DWARF', 0x10000 + len(body), len(d), off, 0, 0, 0, 0, 0, 0, 0)
        else: sects += struct.pack('<16s16sIIIIIIIII', b'__debug_' + k.encode(), b'__DWARF', 0x10000 + len(body), len(d), off, 0, 0, 0, 0, 0, 0)
        body += d
    if is64: sc = struct.pack('<II16sQQQQIIII', 0x19, seg, b'__DWARF', 0x10000, len(body), start, len(body), 7, 3, n, 0)
    else: sc = struct.pack('<II16sIIIIIIII', 1, seg, b'__DWARF', 0x10000, len(body), start, len(body), 7, 3, n, 0)
    cmd = struct.pack('<II', 0x1b, 24) + bytes.fromhex(uuid) + sc + sects
    h = struct.pack('<IIIIIII', 0xfeedfacf if is64 else 0xfeedface, cpu, sub, filetype, 2, len(cmd), 0) + (b'\0\0\0\0' if is64 else b'')
    return h + cmd + body + blob(seed, size)

# ---------------------------------------------------------------- windows
MACHINE = {'x86_64': 0x8664, 'x86': 0x14c, 'arm64': 0xaa64, 'arm': 0x1c0}
def guid_le(h):
    b = bytes.fromhex(h)
    return b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]

def pe(idhex, age, arch, dll, seed, size, ident=True, name='app.pdb', stub=False):
    """A PE32+ file (PE32 for x86) with a CodeView record."""
    p64 = arch in ('x86_64', 'arm64')
    cv = b'RSDS' + guid_le(idhex) + struct.pack('<I', age) + name.encode() + b'\0'
    opt = 112 + 16 * 8 if p64 else 96 + 16 * 8
    nsec = 3 if stub else 1
    head = 0x80 + 24 + opt + 40 * nsec
    raw = -(-head // 0x200) * 0x200
    data = (struct.pack('<IIHHIIII', 0, seed & 0x7fffffff, 0, 0, 2, len(cv), 0x1000 + 28, raw + 28) + cv if ident else b'') + blob(seed, size)
    data += b'\0' * (-len(data) % 0x200)
    dirs = [(0, 0)] * 16
    if ident: dirs[6] = (0x1000, 28)
    dos = b'MZ' + b'\0' * 58 + struct.pack('<I', 0x80) + b'\0' * 64
    coff = b'PE\0\0' + struct.pack('<HHIIIHH', MACHINE[arch], nsec, seed & 0x7fffffff, 0, 0, opt, 0x2022 if dll else 0x22)
    img = 0x1000 + (-(-len(data) // 0x1000) + 2) * 0x1000
    if p64: o = struct.pack('<HBBIIIII', 0x20b, 14, 0, 0x200, len(data), 0, 0x1000, 0x1000) + struct.pack('<QIIHHHHHHIIIIHHQQQQII', 0x140000000, 0x1000, 0x200, 6, 0, 0, 0, 6, 0, 0, img, raw, 0, 3, 0, 0x100000, 0x1000, 0x100000, 0x1000, 0, 16)
    else: o = struct.pack('<HBBIIIIII', 0x10b, 14, 0, 0x200, len(data), 0, 0x1000, 0x1000, 0x1000) + struct.pack('<IIIHHHHHHIIIIHHIIIIII', 0x400000, 0x1000, 0x200, 6, 0, 0, 0, 6, 0, 0, img, raw, 0, 3, 0, 0x100000, 0x1000, 0x100000, 0x1000, 0, 16)
    o += b''.join(struct.pack('<II', *d) for d in dirs)
    sec = struct.pack('<8sIIIIIIHHI', b'.rdata', len(data), 0x1000, len(data), raw, 0, 0, 0, 0, 0x40000040)
    if stub:
        for k, nm in enumerate((b'.stub', b'.pdata')): sec += struct.pack('<8sIIIIIIHHI', nm, 0x10, 0x1000 + (-(-len(data) // 0x1000) + k) * 0x1000, 0, 0, 0, 0, 0, 0, 0x40000040)
    h = dos + coff + o + sec
    return h + b'\0' * (raw - len(h)) + data

def pdb(idhex, age, arch, seed, size, info_age=None):
    """A program database (MSF 7.00) without symbols."""
    P = 512
    info = struct.pack('<III', 20000404, seed & 0x7fffffff, age if info_age is None else info_age) + guid_le(idhex) + struct.pack('<IIIIII', 0, 0, 1, 0, 0, 0) + struct.pack('<I', 20091201)
    dbi = struct.pack('<iIIHHHHHHiiiiiIiiHHI', -1, 19990903, age, 0xffff, 0, 0xffff, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, MACHINE[arch], 0)
    tpi = struct.pack('<IIIIIHHIIiIiIiI', 20040203, 56, 0x1000, 0x1000, 0, 0xffff, 0xffff, 4, 0x3ffff, 0, 0, 0, 0, 0, 0)
    streams = [b'', info, tpi, dbi, tpi, b'', blob(seed, size)]
    pages = [b'', b'', b'']; where = []
    for s in streams:
        w = []
        for i in range(0, len(s), P): w.append(len(pages)); pages.append(s[i:i + P])
        where.append(w)
    table = struct.pack('<I', len(streams)) + b''.join(struct.pack('<I', len(s)) for s in streams) + b''.join(struct.pack('<I', x) for w in where for x in w)
    tp = []
    for i in range(0, len(table), P): tp.append(len(pages)); pages.append(table[i:i + P])
    loc = b''.join(struct.pack('<I', x) for x in tp); lp = []
    for i in range(0, len(loc), P): lp.append(len(pages)); pages.append(loc[i:i + P])
    pages[0] = b'Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0' + struct.pack('<IIIII', P, 1, len(pages), len(table), 0) + b''.join(struct.pack('<I', x) for x in lp)
    return b''.join(x + b'\0' * (P - len(x)) for x in pages)

def ppdb(idhex, age, seed, size):
    """A portable PDB without tables. The last four bytes of its identifier are the age."""
    v = b'PDB v1.0\0\0\0\0'
    pdbs = guid_le(idhex) + struct.pack('<I', age) + struct.pack('<IQ', 0, 0)
    tab = struct.pack('<IBBBBQQ', 0, 2, 0, 0, 1, 0, 0)
    ss = [(b'#Pdb', pdbs), (b'#~', tab), (b'#Strings', b'\0\0\0\0'), (b'#GUID', b'\x11' * 16), (b'#Blob', b'\0' + blob(seed, size))]
    names = [n + b'\0' * (4 - len(n) % 4) for n, _ in ss]
    pos = 16 + len(v) + 4 + sum(8 + len(n) for n in names); hs = b''; body = b''
    for n, (_, d) in zip(names, ss):
        d = d + b'\0' * (-len(d) % 4); hs += struct.pack('<II', pos + len(body), len(d)) + n; body += d
    return b'BSJB' + struct.pack('<HHII', 1, 1, 0, len(v)) + v + struct.pack('<HH', 0, len(ss)) + hs + body

def text_id(text):
    """Identifier of an ELF file that has none: a hash of its code."""
    h = bytearray(16)
    for i, c in enumerate(text[:4096]): h[i % 16] ^= c
    return guid_le(bytes(h).hex()).hex() + '0'

# ---------------------------------------------------------------- archives and bundles
def zipfile_bytes(entries, method='deflate', seed=0):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED if method == 'deflate' else zipfile.ZIP_STORED) as z:
        for name, data in entries:
            z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), data, compress_type=zipfile.ZIP_DEFLATED if method == 'deflate' else zipfile.ZIP_STORED)
    return b.getvalue()

def corrupt_zip_entry(data, which):
    """Flips a byte inside the data of one entry, so that its checksum is wrong."""
    z = zipfile.ZipFile(io.BytesIO(data))
    i = z.infolist()[which]
    off = i.header_offset
    n, m = struct.unpack('<HH', data[off + 26:off + 30])
    p = off + 30 + n + m + i.compress_size // 2
    d = bytearray(data); d[p] ^= 0x55
    return bytes(d)

def corrupt_zip_header(data, which):
    """Damages the local header of one entry, which then cannot be opened."""
    z = zipfile.ZipFile(io.BytesIO(data))
    off = z.infolist()[which].header_offset
    d = bytearray(data); d[off + 2] ^= 0x55
    return bytes(d)

def encrypt_zip_entry(data, which):
    """Marks one entry as encrypted."""
    e = zipfile.ZipFile(io.BytesIO(data)).infolist()[which]; d = bytearray(data)
    d[e.header_offset + 6] |= 1
    p = data.rindex(b'PK\5\6'); p = struct.unpack('<I', data[p + 16:p + 20])[0]
    for _ in range(which): p += 46 + sum(struct.unpack('<HHH', data[p + 28:p + 34]))
    d[p + 8] |= 1
    return bytes(d)

def source_bundle(debug_id, name, seed, nfiles, arch='x86_64', code_id=None):
    """debug_id: 32 hex + age."""
    b = io.BytesIO(); b.write(b'SYSB\x02\0\0\0')
    r = random.Random(seed)
    files = {}
    with zipfile.ZipFile(b, 'a', zipfile.ZIP_DEFLATED) as z:
        for i in range(nfiles):
            p = 'files/src/f%d.c' % i
            files[p] = {'type': 'source', 'path': '/src/f%d.c' % i, 'headers': {}}
            z.writestr(zipfile.ZipInfo(p, (2020, 1, 1, 0, 0, 0)), 'int f%d = %d;\n' % (i, r.randrange(1 << 30)) * 20)
        h = debug_id
        m = {'files': files, 'debug_id': '%s-%s-%s-%s-%s' % (h[:8], h[8:12], h[12:16], h[16:20], h[20:32]) + ('' if h[32:] in ('', '0') else '-' + h[32:]), 'object_name': name, 'arch': arch}
        if code_id:
            m['code_id'] = code_id
        z.writestr(zipfile.ZipInfo('manifest.json', (2020, 1, 1, 0, 0, 0)), json.dumps(m))
    return b.getvalue()

# ---------------------------------------------------------------- wasm
def leb(n):
    out = b''
    while True:
        c = n & 0x7f; n >>= 7
        if n: out += bytes([c | 0x80])
        else: return out + bytes([c])

def unleb(b, p):
    n = s = 0
    while True:
        c = b[p]; p += 1; n |= (c & 0x7f) << s; s += 7
        if not c & 0x80: return n, p

def wsec(kind, payload): return bytes([kind]) + leb(len(payload)) + payload
def wcustom(name, payload):
    n = name.encode()
    return wsec(0, leb(len(n)) + n + payload)

def wasm_sections(data):
    """[(kind, name or None, raw payload after the name)]; raises ValueError for an incomplete module."""
    if data[:8] != b'\0asm\1\0\0\0': raise ValueError('no wasm header')
    p = 8; out = []
    while p < len(data):
        kind = data[p]
        try:
            n, q = unleb(data, p + 1)
        except IndexError:
            raise ValueError('cut section header')
        if q + n > len(data): raise ValueError('cut section')
        body = data[q:q + n]
        if kind == 0:
            l, r = unleb(body, 0)
            out.append((0, body[r:r + l].decode('utf8', 'replace'), body[r + l:]))
        else:
            out.append((kind, None, body))
        p = q + n
    return out

def pad_sections(d, seed):
    """The same module with section sizes written the long way, as linkers do."""
    r = random.Random(seed); out = d[:8]; p = 8
    while p < len(d):
        n, q = unleb(d, p + 1)
        z = leb(n)
        if r.random() < .7:
            while len(z) < 5: z = z[:-1] + bytes([z[-1] | 128]) + b'\0'
        out += d[p:p + 1] + z + d[q:q + n]; p = q + n
    return out

def wasm(seed, debug, names, build_id, code_size, extra=0, url=None, big_debug=0, full=False):
    """full: also tables, globals, data and the like, and custom sections between the others"""
    r = random.Random(seed)
    opt = (lambda b: b if r.random() < .5 else b'') if full else lambda b: b''
    mid = lambda: opt(wcustom('mid%d' % r.randrange(9), r.randbytes(5))) if full and r.random() < .3 else b''
    out = b'\0asm\1\0\0\0'
    nf = max(1, min(code_size // 8, 50000))
    if r.random() < .5: out += wcustom('producers0', r.randbytes(r.randrange(30)))
    out += wsec(1, leb(1) + b'\x60\0\0')                     # type: () -> ()
    out += wsec(3, leb(nf) + b'\0' * nf)                     # functions
    if full: table = r.random() < .5; memory = r.random() < .7; data = memory and r.random() < .7
    if full and table: out += wsec(4, b'\1\x70\0\1')
    out += mid()
    if memory if full else r.random() < .7: out += wsec(5, leb(1) + b'\0\1')     # memory
    out += opt(wsec(6, b'\1\x7f\0\x41\0\x0b'))              # global
    if r.random() < .5: out += wsec(7, leb(1) + leb(4) + b'main' + b'\0\0')
    if full:
        out += opt(wsec(8, b'\0'))
        if table: out += opt(wsec(9, b'\1\0\x41\0\x0b\1\0'))
        if data: out += wsec(12, b'\1')
        out += mid()
    bodies = b''
    for i in range(nf):
        k = r.randrange(3)
        code = b'\0' + b'\1' * k + b'\x0b'
        bodies += leb(len(code)) + code
    out += wsec(10, leb(nf) + bodies)
    if full and data: out += mid() + wsec(11, b'\1\0\x41\0\x0b' + leb(5) + b'hello')
    tail = []
    if debug:
        for n in ('.debug_info', '.debug_line', '.debug_abbrev', '.debug_str')[:1 + r.randrange(4)] + tuple(r.sample(('.debug_ranges', '.debug_loc', '.debug_line_str', '.debug_names', '.debug_x', '.debug_'), r.choice([0, 0, 1, 3]))):
            tail.append(wcustom(n, r.randbytes(r.randrange(1, 3000) + (big_debug if n == '.debug_info' else 0))))
    if names:
        fn = leb(1) + leb(0) + leb(4) + b'main'
        tail.append(wcustom('name', b'\1' + leb(len(fn)) + fn))
    for i in range(extra):
        tail.append(wcustom('custom_%d' % r.randrange(1000), r.randbytes(r.randrange(0, 200))))
    for n in ('debug_not', '.debug', '.debugx', 'names', '.Debug_info', 'build_id_', 'reloc..debug_info', 'sourceMappingURL'):
        if r.random() < .12: tail.append(wcustom(n, r.randbytes(10)))
    if build_id:
        tail.append(wcustom('build_id', leb(len(build_id)) + build_id))
    if url:
        tail.append(wcustom('external_debug_info', leb(len(url)) + url.encode()))
    r.shuffle(tail)
    return out + b''.join(tail)
