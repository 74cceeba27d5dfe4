"""C17, C18, C19: Unicode, comparisons and searches, integers: enumerated by TLC, replayed into the text functions."""
import random, struct
from vf import *


def tables(ctx):
    r = random.Random(5)
    words = [b'a', b'ab', b'foobar', b'\xc3\xa9', b'\xff', b'\x80\x80', b'A\xffz', b'0123456789abcdef', bytes(range(200, 217)), b'\x7f\x01'] + [bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 18))) for _ in range(40)]
    h = 'struct HashOf { const char* text; size_t length; unsigned int hash; };\nstatic const HashOf HASHES[] = {\n'
    for w in words:
        h += '  { "%s", %d, Terathon::Text::StaticHash<%s>::value },\n' % (''.join('\\%03o' % b for b in w), len(w), ','.join("'\\%03o'" % b for b in w))
    h += '};\n'
    d = ctx.scratch.sub('tables')
    open(d + '/util_tables.h', 'w').write(h)
    return d


def driver(ctx):
    d = tables(ctx)
    return build(ctx, 'util', ['util_driver.cpp'], flags=['-I' + d], opt='-O1')


def judge(ctx, exe, jobs):
    """jobs: (command, expected answer, what)"""
    outs = run_parallel(ctx, exe, [j[0] for j in jobs])
    for (line, exp, what), out in zip(jobs, outs):
        if out is None:
            continue
        if isinstance(out, Crash) or out != exp:
            got = out.why if isinstance(out, Crash) else out
            where = ''
            if not isinstance(out, Crash):
                k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
                where = ' (from ...%s, must be ...%s)' % (got[max(0, k - 20):k + 60], exp[max(0, k - 20):k + 60])
            raise Violation('%s: %s%s' % (what, got[:300], where), {'command': line, 'expected': exp, 'observed': got})
    ctx.traces += len(jobs)
    for j in jobs[::max(1, len(jobs) // 5)]:
        ctx.sample({'command': j[0][:120], 'answer': j[1][:120]})


def hx(b):
    return bytes(b).hex()


def commas(xs):
    return ''.join('%d,' % x for x in xs)


def dots(u):
    return ''.join('%d.' % x for x in (u[:u.index(0)] if 0 in u else u))


# ---------------------------------------------------------------- C17

def unicode_jobs(v):
    kind = v[0]
    if kind == 'block':
        _, b, cs = v
        yield 'codes %d 256' % (b * 256), ''.join('%d,%d,%s;' % (len(e), len(e), hx(e)) for e, u in cs), 'encoding the characters from U+%04X' % (b * 256)
        ks = [(c, e, u) for c, (e, u) in enumerate(cs) if u and u != [0]]
        if ks:
            yield 'wides ' + ';'.join(','.join(map(str, u)) for _, _, u in ks), ''.join('%d,%s:%d/' % (len(e), hx(e), len(e)) for _, e, u in ks), 'converting the characters from U+%04X from UTF-16' % (b * 256)
            for k in ks[::64]:
                yield 'towide %s %d' % (hx(k[1]), len(k[2]) + 2), '%d,' % len(k[2]) + ''.join(dots(k[2] if m >= len(k[2]) else []) + ';' for m in range(len(k[2]) + 2)), 'converting U+%04X to UTF-16' % (b * 256 + k[0])
        # decoding: every one of them
        yield 'judge ' + ','.join(hx(e) + ('00' if len(e) < 4 else '') for e, u in cs), ''.join('%d,%d,%d,;' % (len(e), b * 256 + i, len(e)) for i, (e, u) in enumerate(cs)), 'decoding the characters from U+%04X' % (b * 256)
    elif kind == 'four':
        _, pre, order, rows = v
        for x, row in zip(order, rows):
            yield 'judge ' + ','.join(hx(pre + [x, y]) for y in order), ''.join(commas(j) + ';' for j in row), 'bytes %s followed by others' % hx(pre + [x])
    elif kind == 'second':
        _, pre, rows = v
        for k, tail in ((0, [128, 128]), (1, [191, 191])):
            yield 'judge ' + ','.join(hx(pre + [i] + tail) for i in range(256)), ''.join(commas(r[k]) + ';' for r in rows), 'bytes %s followed by others' % hx(pre)
    elif kind == 'text':
        e, u, counts, nexts, prevs, spans, conv = v[1]
        begins = spans[:-1]
        exp = '%d,%d,' % (len(nexts), len(e)) + commas(counts) + ';' + ''.join(commas(x) for x in nexts) + ';' + ''.join(commas(x) for x in prevs) + ';' + commas(spans) + '%d,' % len(nexts)
        codes = decode_units(u)
        for i in range(len(nexts)):
            exp += '1,%d,%d,' % (begins[i + 1] - begins[i], codes[i])
        yield 'counted %s %s' % (hx(e), ','.join(map(str, begins))), exp, 'counting in the text %s' % hx(e)
        yield 'towide %s %d' % (hx(e), len(conv)), '%d,' % len(u) + ''.join(dots(c) + ';' for c in conv), 'converting the text %s to UTF-16' % hx(e)
    elif kind == 'bytes':
        _, s, cs, conv = v
        z = s[:s.index(0)] if 0 in s else s
        yield 'towide %s %d' % (hx(z), len(conv)), '%d,' % (len(conv) - 2) + ''.join(dots(c) + ';' for c in conv), 'converting the bytes %s to UTF-16' % hx(z)
    elif kind == 'words':
        _, s, e, conv = v
        yield 'tonarrow %s %d' % (','.join(map(str, s)) or ',', len(conv)), '%d,' % len(e) + ''.join(hx(c) + ';' for c in conv) + '%s:%d' % (hx(e), len(e)), 'converting the units %s to UTF-8' % s


def decode_units(u):
    out, i = [], 0
    while i < len(u):
        if 0xD800 <= u[i] < 0xDC00 and i + 1 < len(u) and 0xDC00 <= u[i + 1] < 0xE000:
            out.append(0x10000 + (u[i] - 0xD800) * 1024 + u[i + 1] - 0xDC00)
            i += 2
        else:
            out.append(u[i])
            i += 1
    return out


def run_unicode(ctx):
    q = ctx.quick()
    blocks = list(range(0x1100))
    b4 = [0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF]
    empty = {'Blocks': set(), 'Bytes4': set(), 'Second': set(), 'Chars': set(), 'Bytes': set(), 'Words': set(), 'MaxChars': 0, 'MaxBytes': 0, 'MaxWords': 0}

    def model(name, **k):
        c = dict(empty)
        c.update(k)
        m = run_tlc(ctx, 'GenUnicode', consts=c, invariants=('Laws', 'Emitted'), workers=2, name='unicode-' + name)
        ctx.log('%s: %d states' % (name, m.states))
        jobs = [j for v in m.vectors for j in unicode_jobs(v)]
        ctx.count('vectors ' + name.split()[0], len(m.vectors))
        return jobs
    chars = [1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]
    byts = [0x41, 0x80, 0xBF, 0xC1, 0xC3, 0xE0, 0xE2, 0xA0, 0xF0, 0x90, 0xF4, 0xF8]
    words = [1, 0x41, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF]
    rs = parallel([lambda: driver(ctx),
                   *[(lambda k: lambda: model('blocks %d' % k, Blocks=set(blocks[k::4])))(k) for k in range(4)],
                   lambda: model('sequences', Bytes4=set(b4), Second=set(range(0x80, 0x100))),
                   lambda: model('texts', Chars=set(chars), MaxChars=ctx.pick(3, 4)),
                   lambda: model('bytes', Bytes=set(byts), MaxBytes=4),
                   lambda: model('units', Words=set(words), MaxWords=ctx.pick(3, 4)),
                   lambda: long_model(ctx, 17)], n=8)
    jobs = [j for js in rs[1:] for j in js]
    jobs.append(('codes 1114112 4', '0,0,;' * 4, 'encoding what is no character'))
    for c in (0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0x80000000, 0xD800D800, 0xFFFFFFFF):
        jobs.append(('codes %d 1' % c, '0,0,;', 'encoding what is no character'))
    judge(ctx, rs[0], jobs)
    ctx.log('held: %d states, %d executions' % (ctx.states, ctx.traces))


# ---------------------------------------------------------------- very long texts, for C17 and C18

LONG_NEEDLES = [48, 97, 47, 46, 34, 0xC3, 98]


def long_jobs(ctx, seed, vectors, counts):
    jobs = []
    for i, (p, a, b, d, up, ue, chars, row, slope) in enumerate(vectors):
        n = counts[i % len(counts)]
        jobs.append(('long %s %s %s %d %s %s %d %d %s' % (hx(p), hx(a), hx(b), d, ','.join(map(str, up)), ','.join(map(str, ue)) or ',', chars, n, ','.join(map(str, LONG_NEEDLES))),
                     commas(x + (n - 3) * y for x, y in zip(row, slope)),
                     '"%s" %d times followed by "%s", compared with %d times followed by "%s"' % (bytes(p).decode('utf-8', 'replace'), n, bytes(a).decode('utf-8', 'replace'), n + d, bytes(b).decode('utf-8', 'replace'))))
    return jobs


def long_model(ctx, seed):
    r = random.Random(SEED + seed)
    one = [48, 53, 97, 65, 122, 46, 47, 32, 0xE9, 0x7FF, 0x20AC, 0x1F600, 0x10FFFF]
    pairs = [(x, y) for x in one for y in one]
    parts = {(x,) for x in one} | set(r.sample(pairs, ctx.pick(12, 120))) | {(97, 48), (0xE9, 97)}
    ends = {(), (49,), (98,), (66,), (47,), (34,), (0x20AC,), (48, 97)} if not ctx.quick() else {(), (49,), (66,), (46, 98), (0x20AC,)}
    m = run_tlc(ctx, 'LongTexts', spec='SpecLong', consts={'Parts0': parts, 'Ends0': ends, 'Starts': set(), 'Letters': set(), 'MaxFirst': 0, 'MaxSecond': 0, 'Total': 0, 'Grow': 0, 'Limits': LIMITS, 'Needles': LONG_NEEDLES},
                invariants=('Evenly',), workers=3, name='long')
    ctx.log('long texts: %d kinds' % len(m.vectors))
    ctx.count('kinds of long texts', len(m.vectors))
    return long_jobs(ctx, seed, m.vectors, [260, 32790, 65541, 21851, 300] if ctx.quick() else [260, 16400, 21851, 32790, 43700, 65541, 300000])


# ---------------------------------------------------------------- C18

NEEDLES = [97, 47, 46, 32, 92, 255, 0, 353]
LIMITS = [0, 1, 2, 3, 5, 9]


def compare_jobs(v):
    s, t, rel, lim, find, search = v
    eq, eqc, lt, ltc, le, lec, nl, nlc = rel

    def ops(e, l, g):
        return '%d%d%d%d%d%d,' % (e, not e, l, e or l, g, not l)
    exp = ''.join(map(str, rel)) + ';' + ''.join(''.join(map(str, x)) + ',' for x in lim) + ';'
    exp += ops(eq, lt, not le) * 4 + '%d%d%d%d;' % (eq, not eq, eq, not eq)

    def keys(e, l):
        return '%d%d%d%d%d1,' % (e, not e, l, e, l)
    exp += keys(eq, lt) * 2 + keys(eqc, nlc) + '1;'
    exp += ('%d,%d,' % tuple(find) if t else '') + '1;'
    return 'compare %s %s %s' % (hx(s), hx(t), ','.join(map(str, LIMITS))), exp, t


def deep(r, n):
    """pairs of texts that begin alike: long words, long numbers, different cases and zeros"""
    out = set()
    for k in range(n):
        w = bytes(r.choice(b'0123456789') if r.random() < .6 else r.choice(b'abxyz./"') for _ in range(r.randrange(1, 20)))
        if k % 3 == 0:
            w = b'1234567890123456789012'[:r.randrange(8, 22)]
        a = b = w
        if k % 4 == 1:
            b = w.upper()
        if k % 4 == 2:
            a, b = b'0' * r.randrange(3) + w, b'0' * r.randrange(3) + w
        if k % 4 == 3:
            a = a + w
        out.add((a, b))
    return out


def run_compare(ctx):
    q = ctx.quick()
    r = random.Random(SEED)

    def model(name, letters, a, b, total, sim=None, starts=((b'', b''),), grow=0):
        m = run_tlc(ctx, 'Compare', consts={'Starts': set(starts), 'Letters': set(letters), 'MaxFirst': a, 'MaxSecond': b, 'Total': total, 'Grow': grow, 'Limits': LIMITS, 'Needles': NEEDLES},
                    invariants=('Laws', 'Transitive', 'Emitted'), workers=2, simulate=sim, depth=total + 1 if sim else None, name='compare-' + name)
        ctx.log('%s: %d states' % (name, m.states))
        ctx.count('pairs ' + name, len(m.vectors))
        return m.vectors
    every = [1, 31, 32, 33, 34, 46, 47, 48, 57, 58, 64, 65, 90, 91, 92, 96, 97, 122, 123, 127, 128, 200, 255]
    rs = parallel([lambda: driver(ctx),
                   lambda: model('all', every, 1, 1, 2),
                   lambda: model('bytes', [1, 47, 48, 65, 90, 91, 97, 122, 123, 200] if q else every, 2, 2, 4),
                   lambda: model('letters', [65, 97, 98], 4 if q else 5, 3 if q else 4, 9),
                   lambda: model('numbers', [48, 49, 57, 97], 3 if q else 4, 3 if q else 4, 8),
                   lambda: model('find', [97, 98], ctx.pick(7, 9), 4, 11),
                   lambda: model('paths', [97, 46, 47], ctx.pick(6, 8), 0, 8),
                   lambda: model('quotes', [97, 34, 92, 255], ctx.pick(5, 7), 0, 8),
                   lambda: model('long', [48, 49, 57, 97, 65, 46], 24, 24, 40, sim=ctx.pick(8, 800)),
                   lambda: model('deep', [48, 53, 97, 122], 60, 60, 120, starts=deep(r, ctx.pick(60, 600)), grow=ctx.pick(2, 3)),
                   lambda: long_model(ctx, 18)], n=8)
    jobs = list(rs[-1])
    for n, vs in enumerate(rs[1:-1]):
        if n == 7:
            vs = r.sample(vs, min(len(vs), ctx.pick(4000, 60000)))
        for v in vs:
            line, exp, t = compare_jobs(v)
            if t:
                jobs.append((line, exp, 'comparing "%s" with "%s"' % (bytes(v[0]).decode('latin-1'), bytes(t).decode('latin-1'))))
            else:
                jobs.append((line, exp, 'comparing "%s" with nothing' % bytes(v[0]).decode('latin-1')))
                per, rn, dl, pl = v[5]
                jobs.append(('search %s %s %s' % (hx(v[0]), ','.join(map(str, NEEDLES)), ','.join(map(str, LIMITS))),
                             ''.join('%d,%d,' % (fc, fu) + ''.join('%d,%d,' % tuple(x) for x in lim) + ';' for fc, fu, lim in per) + '%d,%d,%d,' % (rn, dl, pl),
                             'searching "%s"' % bytes(v[0]).decode('latin-1')))
    jobs.append(('hash', '1' * 51, 'hash values of texts'))
    judge(ctx, rs[0], jobs)
    ctx.log('held: %d states, %d executions' % (ctx.states, ctx.traces))


# ---------------------------------------------------------------- C19

ILIMITS = [0, 1, 2, 3, 4, 8]


def cut(b, n):
    return b[:n]


def strings_of(d):
    """the texts made from an integer by strings of three sizes"""
    out = ''
    for n in (None, 64, 5):
        c = (lambda b: b) if n is None else (lambda b: b[:n])
        two = [c(d), c(d), c(c(d) + d), c(b'ab' + d)]
        out += ''.join('%s:%d;' % (x.hex(), len(x)) for x in two)
    return out


def tx(b):
    return '%s:%d;' % (b.hex(), len(b))


def integer_jobs(v):
    if v[0] == 'int':
        _, b, sd, ud, h, types = v
        sd, ud, h = bytes(sd), bytes(ud), bytes(h)
        most = 13 if len(b) == 4 else 23
        exp = ''.join('%s:%d;' % (sd[:m].hex(), len(sd[:m])) for m in range(most + 1)) + tx(sd) + strings_of(sd) + '|'
        if len(b) == 4:
            exp += strings_of(ud) + '|' + tx(h) + tx(h[4:]) + tx(h[6:]) + tx(bytes(types[0])) + tx(bytes(types[1]))
        else:
            if b[0] < 128:
                exp += ''.join(tx((b'x' + ud)[:n]) for n in (None, 64, 5))
            exp += '|' + tx(h)
        yield 'integer ' + ','.join(map(str, b)), exp, 'the integer %s' % h.decode()
    else:
        kind, x, res, st = v
        if kind == 'ReadType':
            exp = ''.join('%d:%d;' % (int.from_bytes(bytes(r[0]), 'big'), r[1]) for r in res)
        else:
            exp = ''.join('%s:%d;' % (hx(r[0]), r[1]) for r in res)
        yield 'read %s %s %s' % (kind, hx(x), ','.join(map(str, ILIMITS))), exp + str(int.from_bytes(bytes(st), 'big')), '%s of "%s"' % (kind, bytes(x).decode('latin-1'))


def run_integers(ctx):
    q = ctx.quick()
    r = random.Random(SEED + 1)
    given = set()
    for n in (4, 8):
        top = 1 << (8 * n)
        vs = {0, 1, top - 1, top // 2, top // 2 - 1, top // 2 + 1}
        for k in range(8 * n):
            vs |= {(1 << k) + d for d in (-1, 0, 1)}
        for k in range(20):
            vs |= {10 ** k + d for d in (-1, 0, 1)} | {-(10 ** k) + d for d in (-1, 0, 1)} | {int('9' * (k + 1)) // 2}
        vs |= {r.getrandbits(8 * n) for _ in range(ctx.pick(500, 20000))} | {r.getrandbits(r.randrange(1, 8 * n)) for _ in range(ctx.pick(500, 20000))}
        if n == 4:
            vs |= set(range(0, ctx.pick(1100, 70000))) | {-x for x in range(1, ctx.pick(1100, 70000))}
        given |= {tuple((v % top).to_bytes(n, 'big')) for v in vs if -top // 2 <= v < top}
    given = sorted(given)

    def model(name, readers=None, text=0, g=(), b4=(), b8=()):
        m = run_tlc(ctx, 'Integers2', consts={'Given': set(g), 'Bytes4': set(b4), 'Bytes8': set(b8), 'MaxText': text, 'Limits': ILIMITS,
                                                'Readers': {k: set(v) for k, v in readers.items()} if readers else Raw('[none \\in {} |-> 0]')},
                    invariants=('Laws', 'Emitted'), workers=2, name='integers-' + name)
        ctx.log('%s: %d states' % (name, m.states))
        ctx.count('vectors ' + name.split()[0], len(m.vectors))
        return m.vectors
    half = len(given) // 2
    rs = parallel([lambda: driver(ctx),
                   lambda: model('given', g=given[:half]), lambda: model('given', g=given[half:]),
                   lambda: model('patterns', b4=[0, 1, 127, 128, 255] if q else [0, 1, 39, 64, 92, 97, 127, 128, 255], b8=[0, 255] if q else [0, 127, 255]),
                   lambda: model('readers', {'ReadInteger': [45, 48, 57, 47, 58, 32], 'ReadFloat': [45, 46, 101, 69, 48, 57, 58, 47]}, ctx.pick(4, 5)),
                   lambda: model('words', {'ReadString': [34, 92, 97, 32, 47, 31, 195], 'ReadType': [39, 92, 97, 98, 255]}, ctx.pick(4, 6))], n=6)
    judge(ctx, rs[0], [j for vs in rs[1:] for v in vs for j in integer_jobs(v)])
    ctx.log('held: %d states, %d executions' % (ctx.states, ctx.traces))


# ---------------------------------------------------------------- C26

def copying_job(v, scale=1):
    """scale: how many bytes a byte of the specification stands for"""
    h, o = v
    return ('copying %s %s %d' % (hx(o[0]), '|'.join('%s,%d,%d,%d' % tuple(x) for x in h), scale), ''.join('%d:%s;' % (r * scale, hx(m)) for r, m in o[1:]),
            'memory of %d bytes, operations %s' % (len(o[0]) * scale, ' '.join('%s(%d,%d,%d)' % tuple(x) for x in h)))


def run_copying(ctx):
    lots = {tuple((37 * i + 11) % 256 for i in range(97)), (0,), (255,), (65, 66, 67, 0), (128, 1, 0, 200, 90), tuple(range(1, 256)) + (0,)}

    def model(name, size, fillings, values, lens, maxes, depth, sim=None, few=0, coarse=False):
        m = run_tlc(ctx, 'Copying', consts={'Few': few, 'Coarse': coarse, 'Size': size, 'Fillings': fillings, 'Values': set(values), 'Lens': set(lens), 'Maxes': set(maxes), 'Depth': depth},
                    invariants=('Laws', 'Bytes', 'Emitted'), workers=2, simulate=sim, depth=depth + 1, name='copying-' + name)
        ctx.log('%s: %d states' % (name, m.states))
        ctx.count('vectors ' + name, len(m.vectors))
        return m.vectors
    q = ctx.quick()
    rs = parallel([lambda: driver(ctx),
                   lambda: model('one operation', 12, {(65, 66, 0), (1,), (200, 0, 255, 128, 97)}, [0, 255, 7], range(0, 13), [-5, -1, 0, 1, 2, 3, 5, 11, 12, 100], 1),
                   lambda: model('two operations', ctx.pick(5, 6), {(65, 66, 0)}, [0, 254], [0, 1, 2, 5], [-1, 0, 1, 2, 9], 2),
                   lambda: model('histories', 40, lots, [0, 1, 65, 127, 128, 255], list(range(0, 20)) + [24, 31, 32, 33, 39, 40], [-1, 0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 30, 38, 39, 40, 100], 25, ctx.pick(120, 3000), 3),
                   lambda: model('much', 700, lots, [0, 77, 255], [0, 1, 63, 64, 127, 128, 129, 255, 256, 257, 300, 349, 350, 511, 513, 699, 700], [0, 1, 127, 128, 129, 254, 255, 256, 257, 349, 1000], 8, ctx.pick(20, 500), 3),
                   lambda: model('many bytes each', 8, {(65, 66, 0), (200, 255, 1, 7, 0, 0), (1,)}, [0, 1, 255], range(0, 9), [-1, 0, 1, 2, 3, 7, 9], 6, ctx.pick(20, 300), 2, True)], n=6)
    jobs = [copying_job(v) for vs in rs[1:-1] for v in vs]
    scales = [257, 4099, 32771, 65536, 70001, 1000003]
    ends = {str(v[0][:-1]): v for v in rs[-1]}      # one end of each history is enough
    jobs += [copying_job(v, scales[i % len(scales)]) for i, v in enumerate(ends.values())]
    jobs += [copying_job(v, 20000003) for v in list(ends.values())[::10]]
    # every byte in two digits
    jobs.append(('copying %s %s 1' % (hx(range(256)) + '0000', '|'.join('digits,%d,256,0' % i for i in range(256))),
                 ''.join('0:%s;' % (hx(range(256)) + (b'%02X' % i).hex()) for i in range(256)), 'hexadecimal digits'))
    judge(ctx, rs[0], jobs)
    ctx.log('held: %d states, %d executions' % (ctx.states, ctx.traces))
