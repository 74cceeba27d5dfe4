"""Shared machinery of the checks: building drivers from /repo, running TLC, running drivers, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading, random, struct
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TLCCP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
LIBSRC = ['Code/Json4C4/C4Json.cpp', 'Code/Terathon/TSMap.cpp', 'Code/Terathon/TSMath.cpp',
          'Code/Terathon/TSString.cpp', 'Code/Terathon/TSText.cpp']
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
NCPU = 8
sys.setrecursionlimit(20000)
threading.stack_size(256 * 1024 * 1024)


class Violation(Exception):
    """The code breaks the property: what happened, and the data needed to replay it."""
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d


class Ctx:
    """One run of one check."""
    def __init__(self, prop, scratch):
        self.prop, self.scratch, self.t0 = prop, scratch, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.cover = [], [], {}
        self.lock = threading.Lock()

    def quick(self):
        return TIER == 'quick'

    def pick(self, q, t):
        return q if TIER == 'quick' else t

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def count(self, key, n=1):
        with self.lock:
            self.cover[key] = self.cover.get(key, 0) + n


# ---------------------------------------------------------------- building

class BuildError(Exception):
    pass


SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def build(ctx, name, sources, flags=None, cxx='g++', lib=True, san=True, opt='-O1', ldflags=(), defines=(), std='c++17'):
    """Compiles drivers from /verif/harness together with the library sources of /repo."""
    d = ctx.scratch.sub('build-' + name)
    src = [os.path.join(HARNESS, s) for s in sources]
    if lib:
        src += [os.path.join(REPO, s) for s in LIBSRC]
    cf = ['-std=' + std, opt, '-g1', '-w', '-I' + os.path.join(REPO, 'Code'), '-I' + os.path.join(REPO, 'Code/Terathon'), '-I' + HARNESS]
    if san:
        cf += SAN
    cf += list(flags or []) + ['-D' + x for x in defines]

    def one(i):
        o = os.path.join(d, '%d.o' % i)
        r = subprocess.run([cxx] + cf + ['-c', src[i], '-o', o], capture_output=True, text=True)
        return o, r
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, range(len(src))))
    for (o, r), s in zip(rs, src):
        if r.returncode:
            raise BuildError('cannot compile %s\n%s' % (s, r.stderr[-3000:]))
    exe = os.path.join(d, name)
    r = subprocess.run([cxx] + (SAN if san else []) + list(flags or []) + [o for o, _ in rs] + ['-o', exe] + list(ldflags) + ['-lpthread'], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('cannot link %s\n%s' % (name, r.stderr[-3000:]))
    return exe


ENV = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=77:hard_rss_limit_mb=4000',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')


class Crash:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'CRASH(%s)' % self.why


def summarize(err, rc):
    for pat in (r'SUMMARY: .*', r'runtime error: .*', r'ERROR: \w+Sanitizer.*'):
        m = re.search(pat, err)
        if m:
            return m.group(0)[:300]
    return 'exit %s %s' % (rc, err.strip()[-200:])


def converse(cmd, data, stall, env):
    """Runs a driver on its whole input; stops it when nothing was answered for so many seconds. Returns output, errors, exit code, whether it was stopped."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    out, err, last = [], [], [time.time()]

    def feed():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass

    def drain(stream, to):
        while True:
            b = os.read(stream.fileno(), 1 << 16)
            if not b:
                return
            to.append(b)
            last[0] = time.time()
    ts = [threading.Thread(target=f, args=a, daemon=True) for f, a in ((feed, ()), (drain, (p.stdout, out)), (drain, (p.stderr, err)))]
    for t in ts:
        t.start()
    stopped = False
    while True:
        try:
            p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if time.time() - last[0] > stall:
                stopped = True
                p.kill()
                p.wait()
                break
    for t in ts:
        t.join(timeout=30)
    p.stdout.close()
    p.stderr.close()
    return b''.join(out), b''.join(err), p.returncode, stopped


def run_lines(exe, lines, args=(), stall=90, maxcrash=3, env=None):
    """Feeds command lines to a driver and returns one answer per line; Crash for a line that kills it or that it does not answer (then nothing further is tried)."""
    out = []
    i = 0
    crashes = 0
    while i < len(lines):
        o, e, rc, stopped = converse([exe] + list(args), ('\n'.join(lines[i:]) + '\n').encode(), stall, env or ENV)
        why = 'no answer within %d s' % stall if stopped else None
        got = o.decode('latin-1').split('\n')
        done = got[:-1][:len(lines) - i]
        out += done
        i += len(done)
        if i < len(lines):
            out.append(Crash(why or summarize(e.decode('latin-1'), rc)))
            i += 1
            crashes += 1
            if stopped or crashes >= maxcrash:
                out += [None] * (len(lines) - i)
                break
        elif rc != 0:
            out[-1] = Crash(why or 'at exit: ' + summarize(e.decode('latin-1'), rc))
    return out


def run_parallel(ctx, exe, lines, per_args=None, jobs=NCPU, stall=90, env=None):
    """run_lines over several processes, answers in order."""
    if not lines:
        return []
    jobs = max(1, min(jobs, (len(lines) + 499) // 500))
    n = (len(lines) + jobs - 1) // jobs
    parts = [lines[k:k + n] for k in range(0, len(lines), n)]

    def one(k):
        a = []
        if per_args:
            d = tempfile.mkdtemp(prefix='io', dir=ctx.scratch.dir)
            a = [d]
        e = env or ENV
        if k % 2:   # fresh memory holds other garbage in every second process
            e = dict(e, ASAN_OPTIONS=e.get('ASAN_OPTIONS', '') + ':malloc_fill_byte=127:max_malloc_fill_size=100000')
        return run_lines(exe, parts[k], a, stall, env=e)
    with ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(one, range(len(parts))))
    return [x for r in rs for x in r]


# ---------------------------------------------------------------- TLC

def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return '(-2147483647 - 1)' if v == -(1 << 31) else str(v)
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (bytes, bytearray)):
        return '<<' + ','.join(str(b) for b in v) + '>>'
    if isinstance(v, (list, tuple)):
        return '<<' + ','.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ','.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


class TlcResult:
    pass


VEC = re.compile(r'^(?:<<"V", |   )"(.*)" ?>>$')     # TLC breaks the line of some widths
STATES = re.compile(r'^(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found')
SIMST = re.compile(r'The number of states generated: (\d+)')


class TlcError(Exception):
    pass


def run_tlc(ctx, module, consts=None, defs='', spec='Spec', invariants=(), properties=(), constraints=(), action_constraints=(), post=None,
            view=None, workers=2, extra=(), files=None, expect_error=False, simulate=None, depth=None, heap='3g', timeout=3000, name=None):
    """Checks a module of /verif/spec under a generated model and collects the vectors it prints."""
    name = name or module
    d = tempfile.mkdtemp(prefix='tlc-%s-' % name, dir=ctx.scratch.dir)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for fn, content in (files or {}).items():
        with open(os.path.join(d, fn), 'w') as fh:
            fh.write(content)
    cfg, mod = [], ['---- MODULE MC ----', 'EXTENDS ' + module, defs]
    if consts:
        for k, v in consts.items():
            mod.append('const_%s == %s' % (k, v if isinstance(v, Raw) else tla(v)))
            cfg.append('CONSTANT %s <- const_%s' % (k, k))
    mod.append('====')
    cfg.append('SPECIFICATION ' + spec)
    cfg += ['INVARIANT ' + x for x in invariants] + ['PROPERTY ' + x for x in properties]
    cfg += ['CONSTRAINT ' + x for x in constraints] + ['ACTION_CONSTRAINT ' + x for x in action_constraints]
    if post:
        cfg.append('POSTCONDITION ' + post)
    if view:
        cfg.append('VIEW ' + view)
    cfg.append('CHECK_DEADLOCK FALSE')
    open(os.path.join(d, 'MC.tla'), 'w').write('\n'.join(mod) + '\n')
    open(os.path.join(d, 'MC.cfg'), 'w').write('\n'.join(cfg) + '\n')
    cmd = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-XX:ParallelGCThreads=2', '-cp', TLCCP, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
           '-config', 'MC.cfg', '-noGenerateSpecTE', '-fp', '1']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(SEED)]
        if depth:
            cmd += ['-depth', str(depth)]
    cmd += list(extra) + ['MC.tla']
    outp = os.path.join(d, 'out.txt')
    t = time.time()
    with open(outp, 'w') as fh:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise TlcError('TLC timeout on ' + name)
    r = TlcResult()
    r.rc, r.vectors, r.states, r.generated, r.log = rc, [], 0, 0, []
    with open(outp) as fh:
        for line in fh:
            if line == '<< "V",\n':
                continue
            m = VEC.match(line)
            if m:
                r.vectors.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
                continue
            if line.startswith(('<<"V"', '<< "V"')):
                raise TlcError('unreadable vector of %s: %s' % (name, line[:200]))
            m = STATES.match(line)
            if m:
                r.generated, r.states = int(m.group(1)), int(m.group(2))
            m = SIMST.search(line)
            if m:
                r.generated = int(m.group(1))
                r.states = r.generated
            if not line.startswith(('Parsing', 'Semantic', 'Linting', 'Progress')):
                r.log.append(line.rstrip('\n'))
    r.wall = time.time() - t
    if rc != 0 and not expect_error:
        raise TlcError('TLC failed on %s (rc %d):\n%s' % (name, rc, '\n'.join(r.log[-60:])[-6000:]))
    with ctx.lock:
        ctx.states += r.states
        ctx.transitions += r.generated
    shutil.rmtree(d, ignore_errors=True)
    return r


class Raw(str):
    """A TLA+ expression to be used as it is."""


def parallel(fs, n=4):
    """Runs thunks concurrently; the first exception is raised after all ended."""
    with ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(f) for f in fs]
    return [f.result() for f in futs]


# ---------------------------------------------------------------- values

def num_bits(lit):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', float(lit)))[0]


def canon(v):
    """Canonical dump of a value of the specification, in the form of harness/common.h."""
    t = v[0]
    if t == 's':
        return 's' + bytes(v[1]).hex() + '.'
    if t == 'n':
        return 'n' + num_bits(bytes(v[1]).decode()) + '.'
    if t == 'b':
        return 'T' if v[1] else 'F'
    if t == 'z':
        return 'Z'
    if t == 'a':
        return '[' + ''.join(canon(x) for x in v[1]) + ']'
    if t == 'o':
        return '{' + ''.join('k' + bytes(k).hex() + '.' + canon(x) for k, x in sorted(v[1], key=lambda p: bytes(p[0]))) + '}'
    if t == 'none':
        return 'none'
    raise ValueError(v)


# ---------------------------------------------------------------- reporting

def replay_file(prop, data):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=repr)
    return path


def write_evidence(ctx, level, violations, assumptions, exhaustive=None):
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces, 'samples': ctx.samples}
    cov.update(ctx.cover)
    if exhaustive is not None:
        cov['exhaustive'] = exhaustive
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': ctx.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': violations}
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
