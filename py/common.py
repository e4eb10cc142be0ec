"""Shared parts of the simulation drivers: builds, scratch space, worker pool, evidence, replay files, minimiser."""
import ctypes, hashlib, json, multiprocessing, os, random, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, 'work')
TARGET = os.path.join(WORK, 'target')
LIBDST = os.path.join(WORK, 'libdst.so')
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
NCPU = min(8, os.cpu_count() or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

def base_seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1

class HarnessError(Exception):
    pass

# ---------------------------------------------------------------- builds
def _env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=TARGET, RUSTFLAGS='--cfg=rustix_use_libc --cfg=symbolicator_dst')
    for k in ('LD_PRELOAD', 'DST_CFG', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    return e

def _lock():
    import fcntl
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, 'build.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def build_shim():
    with _lock():
        src = os.path.join(VERIF, 'shim', 'dst.c')
        if not os.path.exists(LIBDST) or os.path.getmtime(LIBDST) < os.path.getmtime(src):
            tmp = LIBDST + '.new'
            subprocess.run(['gcc', '-O2', '-g', '-shared', '-fPIC', '-ftls-model=initial-exec', '-fno-builtin', '-w', '-o', tmp, src, '-ldl'], check=True)
            os.rename(tmp, LIBDST)

def cargo(cwd, args):
    with _lock():
        p = subprocess.run(['cargo', 'build', '--offline', '--locked'] + args, cwd=cwd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        raise HarnessError('build failed in %s' % cwd)

def build_tools():
    build_shim()
    cargo(os.path.join(VERIF, 'toolws'), ['-p', 'symsorter', '-p', 'wasm-split'])

def build_svc(names=('svcsim', 'reqsim', 'metsim', 'jssim', 'jvmsim', 'proxysim')):
    """Builds the simulations; only those named have to be buildable."""
    build_shim()
    with _lock():
        p = subprocess.run(['cargo', 'build', '--offline', '--locked', '--workspace', '--keep-going', '--message-format=json-render-diagnostics'], cwd=os.path.join(VERIF, 'sim'),
                           env=_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    built = {json.loads(l)['target']['name'] for l in p.stdout.splitlines() if l.startswith('{"reason":"compiler-artifact"') and json.loads(l).get('executable')}
    if not set(names) <= built:
        sys.stderr.write(p.stderr[-6000:])
        raise HarnessError('build of %s failed' % sorted(set(names) - built))

# ---------------------------------------------------------------- scratch
def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d

def new_scratch(n):
    """A scratch directory with a name of fixed length."""
    d = os.path.join(scratch_root(), 'vpsim-%07d-%03d' % (os.getpid() % 10000000, n % 1000))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

_libc = ctypes.CDLL(None)
def no_aslr():
    _libc.personality(0x0040000)

# ---------------------------------------------------------------- zstd
_z = None
def zstd_compress(data, level=1):
    z = ctypes.CDLL('libzstd.so.1')
    z.ZSTD_compressBound.restype = z.ZSTD_compress.restype = ctypes.c_size_t
    z.ZSTD_compressBound.argtypes = [ctypes.c_size_t]
    z.ZSTD_compress.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]
    n = z.ZSTD_compressBound(len(data))
    buf = ctypes.create_string_buffer(n)
    n = z.ZSTD_compress(buf, n, data, len(data), level)
    return buf.raw[:n]

def zstd_decompress(data):
    """Decompresses one complete frame; raises ValueError otherwise."""
    global _z
    if _z is None:
        _z = ctypes.CDLL('libzstd.so.1')
        _z.ZSTD_createDStream.restype = ctypes.c_void_p
        _z.ZSTD_decompressStream.restype = ctypes.c_size_t
        _z.ZSTD_decompressStream.argtypes = [ctypes.c_void_p] * 3
        _z.ZSTD_freeDStream.argtypes = [ctypes.c_void_p]
    class Buf(ctypes.Structure):
        _fields_ = [('p', ctypes.c_void_p), ('size', ctypes.c_size_t), ('pos', ctypes.c_size_t)]
    ds = _z.ZSTD_createDStream()
    try:
        inb = ctypes.create_string_buffer(data, len(data)) if data else ctypes.create_string_buffer(1)
        i = Buf(ctypes.addressof(inb), len(data), 0)
        ob = ctypes.create_string_buffer(1 << 16)
        out = bytearray(); r = 1
        while True:
            o = Buf(ctypes.addressof(ob), 1 << 16, 0)
            r = _z.ZSTD_decompressStream(ds, ctypes.byref(o), ctypes.byref(i))
            if _z.ZSTD_isError(ctypes.c_size_t(r)):
                raise ValueError('not a zstd frame')
            out += ob.raw[:o.pos]
            if r == 0:
                break
            if i.pos >= i.size and o.pos < o.size:
                raise ValueError('incomplete zstd frame')
        if i.pos != i.size:
            raise ValueError('data after the zstd frame')
        return bytes(out)
    finally:
        _z.ZSTD_freeDStream(ds)

# ---------------------------------------------------------------- pool
def _worker(fn, idx, n, jobs, q, deadline):
    try:
        os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[idx % len(os.sched_getaffinity(0))]})
    except OSError:
        pass
    try:
        for k in range(idx, len(jobs), n):
            if time.time() > deadline:
                break
            q.put((k, fn(jobs[k], idx)))
        q.put(None)
    except BaseException as e:  # noqa
        import traceback
        q.put(('error', traceback.format_exc()))
        q.put(None)

def run_pool(fn, jobs, seconds, on_result):
    """Runs fn(job, worker) for all jobs in parallel; on_result(k, r) may return True to stop early."""
    n = min(NCPU, max(1, len(jobs)))
    q = multiprocessing.Queue()
    deadline = time.time() + seconds
    ps = [multiprocessing.Process(target=_worker, args=(fn, i, n, jobs, q, deadline), daemon=True) for i in range(n)]
    for p in ps: p.start()
    done = 0; err = None; stop = False
    while done < n:
        m = q.get()
        if m is None:
            done += 1
            continue
        if m[0] == 'error':
            err = m[1]; break
        if not stop and on_result(m[0], m[1]):
            stop = True
            break
    for p in ps:
        if err or stop: p.terminate()
        p.join()
    if err:
        raise HarnessError(err)

# ---------------------------------------------------------------- minimiser
def ddmin(items, test, budget):
    """Smallest found sublist of items for which test(list) holds. test(items) is known to hold."""
    n = 2
    while len(items) >= 1 and time.time() < budget:
        if len(items) == 1:
            if test([]): return []
            return items
        size = max(1, len(items) // n); done = False
        for i in range(0, len(items), size):
            cand = items[:i] + items[i + size:]
            if time.time() > budget: return items
            if test(cand):
                items = cand; n = max(2, n - 1); done = True
                break
        if not done:
            if size == 1: break
            n = min(len(items), n * 2)
    return items

# ---------------------------------------------------------------- reporting
def load_known():
    try:
        return json.load(open(KNOWN)).get('findings', [])
    except FileNotFoundError:
        return []

def write_evidence(prop, level, coverage, assumptions, wall, violations):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=base_seed(), level=level, coverage=coverage,
             assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(EVID, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + '.json'))

def sha(b):
    return hashlib.sha256(b).hexdigest()[:16]

class Tally:
    """Counts of one check."""
    def __init__(self):
        self.c = {}; self.hashes = set(); self.faults = {}; self.probes = {}
        self.virtual = 0; self.samples = []; self.t0 = time.time()
    def add(self, d, k, n=1): d[k] = d.get(k, 0) + n
    def merge(self, r):
        self.add(self.c, 'runs')
        for k, v in r.get('counts', {}).items(): self.add(self.c, k, v)
        for k, v in r.get('faults', {}).items():
            if v: self.add(self.faults, k, v)
        for k, v in r.get('probes', {}).items(): self.add(self.probes, k, v)
        self.virtual += r.get('virtual_ns', 0)
        for h in r.get('hashes', []): self.hashes.add(h)
        if len(self.samples) < 3 and 'sample' in r: self.samples.append(r['sample'])
