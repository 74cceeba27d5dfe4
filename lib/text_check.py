"""C01 C02 C04 C05: texts enumerated from the specification, read by the real parser."""
import random
from vf import *

B = lambda s: s.encode('latin-1') if isinstance(s, str) else bytes(s)


def chunks(*xs):
    r = set()
    for x in xs:
        if isinstance(x, int):
            r.add(bytes([x]))
        else:
            r.add(B(x))
    return r


def singles(s):
    return {bytes([b]) for b in B(s)}


# contexts: at least one opening for every state of the reader
CONTEXTS = ['', ' ', '[', '[ ', '[1', '[1 ', '[1,', '[1, ', '{', '{ ', '{"', '{"a', '{"a"', '{"a" ', '{"a":', '{"a": ', '{"a":1', '{"a":1 ', '{"a":1,', '{"a":1, ',
            '"', '"a', '"\\', '"\\u', '"\\u0', '"\\u00', '"\\u004', '"\\u0041', '"\\ud83d', '"\\ud83d\\', '"\\ud83d\\u', '"\\ud83d\\udc0', '-', '0', '-0', '1', '12', '1.', '1.5', '0.', '1e', '1e+', '1e-', '1e5', '1E+0', '1.5e3',
            't', 'tr', 'tru', 'true', 'f', 'fa', 'fal', 'fals', 'false', 'n', 'nu', 'nul', 'null', '[]', '{}', '""', 'true ', '1\n', '1\x00', '[[1]', '[{}', '{"a":[]', '{"a":{}',
            '"\xc2', '"\xdf', '"\xe0', '"\xe0\xa0', '"\xe1', '"\xe1\x80', '"\xed', '"\xef\xbf', '"\xf0', '"\xf0\x90', '"\xf0\x90\x80', '"\xf1', '"\xf4', '"\xf4\x8f', '"\xf4\x8f\xbf',
            '{"\xc3', '{"\\', '{"\\u12', '{"a\\n', '[1,\n 2,\n', '\n\n{\n"a":\n']


def models(quick):
    """name -> (openings, chunks, max chunks, slack)"""
    hexpairs = {b'%02x' % i for i in range(256)}
    ms = {}
    ms['bytes'] = ({B(c) for c in CONTEXTS}, {bytes([i]) for i in range(256)}, 1, 0)
    ms['struct'] = ({b''}, chunks(*'[]{},:" 1x'), 6 if quick else 7, 0)
    ms['struct2'] = ({b''}, chunks('[', ']', '{', '}', ',', '"a":', '"b"', '0', ' ', 'null'), 5 if quick else 6, 2)
    ms['numbers'] = ({b'', b'-', b'[', b'{"a":-'}, chunks(*'-+.eE019, '), 5 if quick else 6, 1)
    ms['numbers2'] = ({b'1', b'-12', b'0', b'3.'}, chunks(*'.e+-05]'), 6 if quick else 8, 1)
    ms['escapes'] = ({b'"', b'["a', b'{"'}, chunks(*'\\"u/bfnrtaD8c0'), 4 if quick else 5, 0)
    ms['units'] = ({b'"\\u'}, hexpairs, 2, 0)
    ms['pairs'] = ({b'"\\u' + h + l + b'\\u' for h in (b'd8', b'D8', b'db', b'dc', b'd7', b'df') for l in (b'00', b'34', b'ff', b'FF')}, chunks('d8', 'DB', 'dc', 'DC', 'df', 'Df', 'e0', '00', 'ff', '1', '"', '\\u', '\xc3\xa9'), 3 if quick else 4, 0)
    ms['hex'] = ({b'"\\u', b'{"\\u'}, chunks(*'0179AFGafg@`:/"'), 4, 0)
    ms['utf8'] = ({b'"'}, chunks(0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff, '"'), 4, 0)
    ms['literals'] = ({b'', b'[', b'{"a":', b'tru', b'fals', b'nul', b't', b'f', b'n'}, chunks(*'trufalsenTN]} ,'), 3 if quick else 4, 0)
    ms['lines'] = ({b'', b'{"a"', b'[1,'}, chunks('\n', '\r', '\t', ' ', ',', '[', ']', '1', '"', 'x'), 5 if quick else 6, 0)
    ms['nul'] = ({b'', b'1', b'[1', b'"a'}, chunks(0, ' ', '1', '"', ']', 'x', '\n'), 5 if quick else 6, 1)
    ms['names'] = ({b'{'}, chunks('"a":1', '"a":[2]', '"b":{}', '"b":"c"', '"\\u0061":3', '"":null', ',', '}'), 5 if quick else 7, 0)
    ms['nest'] = ({b''}, chunks('[', ']', '{"a":', '{"b":', '}', ',', '1', '"c":'), 6 if quick else 7, 0)
    ms['deep'] = ({b'[' * k for k in (1021, 1022, 1023, 1024)} | {b'{"":' * k for k in (1022, 1023)} | {b'[{"k":' * 511, b'[[[' + b'[],' * 30 + b'[' * 1019},
                  chunks('[', ']', '{"":', '1', ','), 2 if quick else 3, 0)
    return ms


def num_str_models(quick):
    return ['bytes', 'numbers', 'numbers2', 'escapes', 'units', 'pairs', 'hex', 'utf8']


def generate(ctx, names=None, check=('Emitted',), module='GenText', emit=True, cb=None):
    ms = models(ctx.quick())
    if not ctx.quick():
        # every code point, as a surrogate pair, and the same written in UTF-8
        pass
    names = names or list(ms)
    jobs = []
    res = {}

    def job(nm):
        o, c, mx, sl = ms[nm]
        r = run_tlc(ctx, module, consts={'MaxDepth': 1024, 'Openings': o, 'Chunks': c, 'MaxChunks': mx, 'Slack': sl, 'Emit': emit},
                    invariants=check, workers=2, name=nm)
        if cb:
            cb(nm, r)
        else:
            res[nm] = r
    parallel([lambda nm=nm: job(nm) for nm in names], n=4)
    return res


def report(vec):
    return '%s %d %d %s' % (vec[0], vec[1], vec[2], canon(vec[3]))


def judge(prop, exp, got):
    """What the property says about one reading; None when it holds."""
    if got is None:
        return None
    if isinstance(got, Crash):
        return 'the reader crashed: ' + got.why
    if prop == 'C05':
        return None
    g = got.split(' ')
    ok_e, ok_g = exp[0] == 'kOk', g[0] == 'kOk'
    if prop == 'C01':
        if g[0].startswith('unknown'):
            return 'status out of range'
        if ok_e != ok_g:
            return ('rejected, but it is a JSON text' if ok_e else 'accepted, but it is not a JSON text') + ' (%s)' % got[:120]
        return None
    if prop == 'C02':
        if ok_e and ok_g and g[3] != canon(exp[3]):
            return 'value differs: expected %s, found %s' % (canon(exp[3])[:300], g[3][:300])
        if ok_e and not ok_g:
            return 'the value of an accepted text is not delivered (%s)' % got[:120]
        return None
    if prop == 'C04':
        if not ok_e:
            e = '%s %d %d' % (exp[0], exp[1], exp[2])
            if ' '.join(g[:3]) != e:
                return 'reported %s, expected %s' % (' '.join(g[:3]), e)
        elif ok_g and g[1:3] != ['0', '0']:
            return 'position reported for an accepted text'
        return None


def compare(ctx, exe, vecs, where):
    """vecs: list of (text bytes or full buffer, expected report)"""
    lines = ['P ' + (b if full else b + b'\0').hex() for b, _, full in vecs]
    outs = run_parallel(ctx, exe, lines)
    for (b, exp, full), o, line in zip(vecs, outs, lines):
        bad = judge(ctx.prop, exp, o)
        if bad:
            again = run_lines(exe, [line])[0]
            bad2 = judge(ctx.prop, exp, again)
            if bad2:
                raise Violation('%s: text %r: %s' % (where, b[:200], bad2), {'model': where, 'command': line, 'expected': report(exp), 'observed': str(again), 'what': bad2})
    ctx.traces += len(vecs)
    if vecs:
        b, exp, _ = vecs[(7919 * SEED) % len(vecs)]
        ctx.sample({'model': where, 'text': b[-60:].decode('latin-1'), 'expected': report(exp)[:200]})


# ------------------------------------------------------------ random documents

def rnd_string(r):
    s = b'"'
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, 40, 90])):
        k = r.randrange(12)
        if k < 5:
            s += bytes([r.choice(b'abcXYZ 0189_{}[]:,')])
        elif k < 6:
            s += r.choice([b'\\"', b'\\\\', b'\\/', b'\\b', b'\\f', b'\\n', b'\\r', b'\\t'])
        elif k < 8:
            c = r.choice([r.randrange(1, 128), r.randrange(128, 2048), r.randrange(2048, 0xd800), r.randrange(0xe000, 0x10000)])
            s += (b'\\u%04x' if r.random() < .5 else b'\\u%04X') % c
        elif k < 9:
            c = r.randrange(0x10000, 0x110000) - 0x10000
            s += b'\\u%04x\\u%04X' % (0xd800 + (c >> 10), 0xdc00 + (c & 1023))
        else:
            c = r.choice([r.randrange(128, 2048), r.randrange(2048, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000), 0x7f])
            s += chr(c).encode()
    return s + b'"'


def rnd_number(r):
    s = b'-' if r.random() < .3 else b''
    s += b'0' if r.random() < .2 else (str(r.randrange(1, 10)) + ''.join(r.choice('0123456789') for _ in range(r.choice([0, 0, 1, 3, 15, 18, 22])))).encode()
    if r.random() < .5:
        s += b'.' + ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 6, 17, 25]))).encode()
    if r.random() < .4:
        s += r.choice([b'e', b'E']) + r.choice([b'', b'+', b'-']) + str(r.choice([0, 1, 5, 22, 38, 150, 290])).encode()
    return s


def rnd_ws(r):
    return b'' if r.random() < .6 else bytes(r.choice(b' \t\n\r') for _ in range(r.randrange(1, 4)))


def rnd_value(r, d):
    w1, w2 = rnd_ws(r), rnd_ws(r)
    k = r.random()
    if d <= 0 or k < .35:
        v = r.choice([rnd_string, rnd_string, rnd_number, lambda r: r.choice([b'true', b'false', b'null'])])(r)
    elif k < .65:
        v = b'[' + b','.join(rnd_value(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 4, 7, 20]))) + (rnd_ws(r)) + b']'
    else:
        v = b'{' + b','.join(rnd_ws(r) + (rnd_string(r) if r.random() < .6 else b'"%s"' % r.choice([b'a', b'b', b'ab', b'abc', b'', b'b1', b'b10'])) + rnd_ws(r) + b':' + rnd_value(r, d - 1)
                             for _ in range(r.choice([0, 1, 2, 3, 5, 9, 16]))) + rnd_ws(r) + b'}'
    return w1 + v + w2


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not b:
            return bytes(b)
        k = r.randrange(6)
        i = r.randrange(len(b))
        if k == 0:
            del b[i]
        elif k == 1:
            b.insert(i, r.choice(b'[]{},:"\\ \n0123e.+-tfnu\x00\x01\x1f\x7f\x80\xbf\xc2\xe0\xf0\xff'))
        elif k == 2:
            b[i] = r.randrange(256)
        elif k == 3:
            del b[i:]
        elif k == 4:
            j = r.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        else:
            j = min(len(b), i + r.randrange(1, 6))
            b[i:i] = b[i:j]
    return bytes(b)


def random_texts(n, seed, maxlen=1500):
    r = random.Random(seed)
    out = []
    while len(out) < n:
        v = rnd_value(r, r.choice([1, 2, 2, 3, 4]))
        if len(v) > maxlen:
            continue
        out.append(v if r.random() < .5 else mutate(r, v))
    return out


def evaluate(ctx, bufs, jobs=8):
    """The reports the specification requires for the given buffers."""
    n = max(1, (len(bufs) + jobs - 1) // jobs)
    parts = [bufs[k:k + n] for k in range(0, len(bufs), n)]

    def one(p):
        f = ''.join(json.dumps(list(b)) + '\n' for b in p)
        r = run_tlc(ctx, 'EvalText', consts={'MaxDepth': 1024, 'File': 'in.ndjson'}, files={'in.ndjson': f}, workers=1, heap='2g')
        exp = {i: rep for i, rep in r.vectors}
        if len(exp) != len(p):
            raise TlcError('EvalText: %d of %d evaluated' % (len(exp), len(p)))
        return [exp[i + 1] for i in range(len(p))]
    return [x for r in parallel([lambda p=p: one(p) for p in parts], n=jobs) for x in r]


def run_texts(quick):
    """Very long texts, as runs of bytes: positions and sizes beyond 16 bits."""
    R = lambda *a: [{'b': list(x if isinstance(x, bytes) else x[0]), 'n': 1 if isinstance(x, bytes) else x[1]} for x in a]
    out = []
    for n in (254, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 140000) + (() if quick else (1000000, 3000000)):
        ws = [(b' ', n), (b'\n', n), (b'\t', n), (b'\r', n), (b'\r\n', min(n, 70000))] if n in (256, 65535, 65536, 140000) else [(b' ', n), (b'\n', n)]
        for w in ws:
            out += [R(w, b'x'), R(b'[', w, b'1', b'\n  y'), R(b'{"a":1', w, b'2'), R(b'\n', w, b'"a\x01"'), R(w), R(w, b'[1,2]', w)]
        for s in ((b'a', n), (b'~', n)):
            out += [R(b'"', s, b'" x'), R(b'[1,\n"', s, b'"x'), R(b'{"', s, b'"', b' 1'), R(b'{"', s, b'":', b'nul '), R(b'"', s, b'\\x"'), R(b'"', s)]
        out += [R(b'["', (b'b', n), b'"]'), R(b'{"', (b'c', n), b'":true}')]
    for n in (300, 5000, 12000):
        out += [R(b'[', (b'1,', n), b'2] 3'), R(b'[', (b'[],\n', n), b'null,]'), R(b'[', (b'"",', n), b'1', b'e]'), R(b'-', (b'7', n), b' ?'), R(b'"', (b'\\u00e9', n), b'"'), R(b'"', (b'\xe2\x82\xac', n), b'"!')]
    return out


def runs_bytes(rs):
    return b''.join(bytes(x['b']) * x['n'] for x in rs) + b'\0'


def evaluate_runs(ctx, rss, jobs=8):
    def one(p):
        r = run_tlc(ctx, 'EvalRuns', consts={'MaxDepth': 1024, 'File': 'in.ndjson'}, files={'in.ndjson': ''.join(json.dumps(x) + '\n' for x in p)}, workers=1, heap='3g')
        exp = {i: rep for i, rep in r.vectors}
        if len(exp) != len(p):
            raise TlcError('EvalRuns: %d of %d evaluated' % (len(exp), len(p)))
        return [exp[i + 1] for i in range(len(p))]
    parts = [rss[k::jobs] for k in range(jobs)]
    res = [None] * len(rss)
    for k, es in enumerate(parallel([lambda p=p: one(p) for p in parts], n=jobs)):
        res[k::jobs] = es
    return res


def long_texts(r):
    """Texts whose size matters: long strings, names, numbers, arrays and objects."""
    out = []
    for n in (15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025):
        out.append(b'"' + b'x' * n + b'"')
        out.append(b'{"' + b'k' * n + b'":"' + b'\\n' * (n // 2) + b'"}')
        out.append(b'[' + b','.join(b'%d' % (i % 10) for i in range(n)) + b']')
        out.append(b'1' * n)
        out.append(b'[-0.' + b'0' * n + b'1]')
        out.append(b'"' + '\u20ac'.encode() * (n // 3) + b'"')
        out.append(b' ' * n + b'1' + b'\n' * n)
        out.append(b'\n' * n + b' ' * n + b'x')
        out.append(b'[' * n + b']' * n)
    for n in (3, 8, 17, 40, 90):
        ks = ['k%d' % i for i in range(n)]
        for order in (ks, ks[::-1], sorted(ks, key=lambda k: hash_str(k)), ks + ks[::-1]):
            out.append(('{' + ','.join('"%s":%d' % (k, i) for i, k in enumerate(order)) + '}').encode())
            out.append(('{' + ','.join('"%s":"%s"' % (k, k * 3) for i, k in enumerate(order)) + ']').encode())
    return out


def hash_str(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h * 7919 % 1000003


def messages(ctx, exe):
    """C04: every status has its own message; results are rendered with their position."""
    names = [x for x in re.findall(r'X\((\w+)\)', open(os.path.join(HARNESS, 'common.h')).read()) if x != 'n']
    r = run_tlc(ctx, 'Messages', invariants=('Emitted',), workers=1, name='messages')
    exp = r.vectors
    lines = ['M %s %d %d' % (s, l, c) for s, l, c, suffix in exp]
    outs = run_lines(exe, lines)
    msg = {}
    for (s, l, c, suffix), o, line in zip(exp, outs, lines):
        if isinstance(o, Crash):
            raise Violation('rendering %s: %s' % (line, o.why), {'command': line})
        a, b = (bytes.fromhex(x).decode('latin-1') for x in o.split(' '))
        if not a.strip():
            raise Violation('status %s has no message' % s, {'command': line, 'observed': a})
        msg.setdefault(s, a)
        if b != a + suffix:
            raise Violation('result (%s, %d, %d) rendered as %r, expected %r' % (s, l, c, b, a + suffix), {'command': line, 'observed': b, 'expected': a + suffix})
    if {s for s, *_ in exp} != set(names):
        raise TlcError('Messages.tla and common.h list different statuses')
    inv = {}
    for s, a in msg.items():
        if a in inv:
            raise Violation('statuses %s and %s have the same message %r' % (s, inv[a], a), {'message': a})
        inv[a] = s
    ctx.traces += len(exp)


def check_spec(ctx):
    """The reader machine against the grammar of RFC 8259 (TLC, exhaustive within the bounds)."""
    ms = models(True)
    less = {'struct': 4, 'struct2': 4, 'numbers': 4, 'numbers2': 5, 'escapes': 3, 'pairs': 2, 'hex': 3, 'utf8': 3, 'literals': 2, 'lines': 4, 'names': 4, 'nest': 5, 'bytes': 1}

    def job(nm):
        o, c, mx, sl = ms[nm]
        o = {x for x in o if b'\0' not in x}
        c = {x for x in c if b'\0' not in x}
        mx = less[nm] if ctx.quick() else max(less[nm], mx)
        r = run_tlc(ctx, 'MCText', consts={'MaxDepth': 1024, 'Openings': o, 'Chunks': c, 'MaxChunks': mx, 'Slack': 0, 'Emit': False},
                    invariants=('Agrees', 'PosOk', 'Viable'), workers=2, name='spec-' + nm)
        ctx.count('spec_states_checked_against_grammar', r.states)
    parallel([lambda nm=nm: job(nm) for nm in less], n=4)


def run_text(ctx):
    prop = ctx.prop
    build_box = {}

    def b():
        build_box['exe'] = build(ctx, 'json', ['json_driver.cpp'])
    th = ThreadPoolExecutor(1).submit(b)
    # 1. texts enumerated by TLC
    pend = []
    lock = threading.Lock()
    seen = set()

    def cb(nm, r):
        vs = []
        for t, rep in r.vectors:
            k = bytes(t)
            with lock:
                if k in seen:
                    continue
                seen.add(k)
            vs.append((k, rep, False))
        with lock:
            pend.append((nm, vs))
    names = None
    if prop == 'C02':
        names = [n for n in models(True) if n not in ('lines', 'nul', 'literals')]
    if prop in ('C01', 'C02'):
        check_spec(ctx)
        ctx.log('the reader machine agrees with the grammar')
    generate(ctx, names=names, cb=cb)
    th.result()
    exe = build_box['exe']
    ctx.log('%d texts from the specification' % len(seen))
    for nm, vs in pend:
        ctx.count('texts_' + nm, len(vs))
        compare(ctx, exe, vs, nm)
    # 2. random and mutated documents, long ones; the specification evaluates them
    n = ctx.pick(4000, 60000)
    texts = [(t + b'\0') for t in random_texts(n, SEED * 1000 + {'C01': 1, 'C02': 2, 'C04': 4, 'C05': 5}[prop])]
    texts += [t + b'\0' for t in long_texts(random.Random(SEED))]
    if prop in ('C01', 'C04', 'C05'):
        texts += [b'', b'\0', b'1', b' ', b'\0\0', b'1\0x', b'[1]', b'[1', b'"abc', b'"abc\\', b'"\\u12', b'tru', b'-', b'1e', b'{"a"', b'\xf0\x90', b'"\xf0\x90\x80']
        r = random.Random(SEED)
        texts += [bytes(r.randrange(256) for _ in range(r.randrange(1, 40))) for _ in range(500)]
    exp = evaluate(ctx, texts)
    vs = [(t, e, True) for t, e in zip(texts, exp)]
    ctx.count('random_texts', len(vs))
    ctx.count('random_accepted', sum(e[0] == 'kOk' for e in exp))
    compare(ctx, exe, vs, 'random')
    rss = run_texts(ctx.quick())
    vs = [(runs_bytes(x), e, True) for x, e in zip(rss, evaluate_runs(ctx, rss))]
    ctx.count('very_long_texts', len(vs))
    compare(ctx, exe, vs, 'long')
    if prop == 'C04':
        messages(ctx, exe)
    if prop == 'C05':
        robustness(ctx, exe)


def robustness(ctx, exe):
    """C05: sizes far beyond what the specification evaluates; only the ending is judged."""
    lines = []
    for unit, close in ((b'[', b']'), (b'{"a":', b'}'), (b'[{"":', b'}]'), (b'[1,', b']')):
        for n in (1000, 1024, 1025, 5000, 100000, 400000):
            lines.append('P ' + (unit * n + b'1' + close * n + b'\0').hex())
            lines.append('P ' + (unit * n + b'\0').hex())
    for u in (b' ', b'\n', b'1', b'"', b'\\', b'{', b'"\\', b'-', b'\xe2\x82\xac', b'\xff', b'\0', b'1,', b'"a",'):
        for n in (1, 2, 3, 1000, 300000):
            lines.append('P ' + (u * n).hex())
            lines.append('P ' + (u * n + b'\0').hex())
            lines.append('P ' + (b'"' + u * n + b'\0').hex())
            lines.append('P ' + (b'[' + u * n + b'\0').hex())
    r = random.Random(SEED)
    base = [t for t in random_texts(ctx.pick(150, 2000), SEED + 77, 400)]
    for t in base:
        for k in range(0, len(t), max(1, len(t) // 40)):
            lines.append('P ' + (t[:k] + b'\0').hex())
            lines.append('P ' + (t[:k]).hex() if k else 'P ')
    for a, b in zip(base, base[1:]):
        lines.append('PP ' + (a + b'\0').hex() + ' ' + (b + b'\0').hex())
    for i in range(ctx.pick(4000, 200000)):
        lines.append('P ' + bytes(r.choice(b'[]{},:"\\u0de1 -.+E\x80\xc2\xe2\xf0\x00tfn') for _ in range(r.randrange(0, 60))).hex())
    outs = run_parallel(ctx, exe, lines, stall=120)
    for l, o in zip(lines, outs):
        if isinstance(o, Crash):
            again = run_lines(exe, [l], stall=120)[0]
            if isinstance(again, Crash):
                raise Violation('parsing %s...: %s' % (l[:80], again.why), {'command': l[:2000], 'observed': again.why})
    ctx.traces += len(lines)
    ctx.count('robustness_inputs', len(lines))
