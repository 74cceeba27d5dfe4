"""C16: histories of strings, enumerated and simulated by TLC, replayed into dynamic and fixed strings."""
import random
from vf import *

TABLE = bytes([65, 97, 34, 200, 92, 10, 48, 1, 127, 122, 90, 255, 64, 91, 96, 123, 31, 7, 13, 128, 32])
INTS = [(0, 0), (0, 7), (0, -1), (0, 99999), (0, -100000), (0, 2147483647), (0, -2147483648), (1, 0), (1, 2147483648), (1, 4294967295), (2, 0), (2, -10), (2, 1 << 40), (2, (1 << 63) - 1), (2, -(1 << 63)), (3, 0), (3, 1024), (3, -1536), (3, 256), (3, 1024 << 12)]
def digits(t, v):
    return str(v if t < 3 else v / 1024)


WIDE = ['', 'a', 'é', '€uro', '\U0001F600', 'x' * 14 + 'é', 'x' * 13 + 'é', 'x' * 15, '\U00010000' * 15 + 'abc', '߿ࠀ￿', 'y' * 59, 'z' * 61]
LENS = [0, 1, 2, 14, 15, 16, 17, 47, 58, 59, 60, 61, 62, 63, 64, 65, 100, 123, 124, 127, 128, 130, 187]
LARGE = [3, 254, 255, 256, 257, 500, 1000, 1024, 2047, 2048, 4096, 5000]
DYN = ['fresh', 'moveapp', 'new', 'asg', 'newn', 'set', 'neww', 'newint', 'asgint', 'appint', 'plusint', 'copyc', 'assign', 'movec', 'movea', 'self', 'moveself', 'app', 'appn', 'apps', 'appself', 'appc', 'plus', 'pluss', 'len', 'purge', 'lower', 'upper', 'rep', 'esc']
FIX = ['new', 'asg', 'newn', 'set', 'newint', 'asgint', 'appint', 'plusint', 'copyc', 'assign', 'self', 'app', 'appn', 'apps', 'appself', 'appc', 'plus', 'pluss', 'len']


def units(s):
    b = s.encode('utf-16-le')
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def tables(ctx):
    h = 'static const unsigned char TABLE[] = {%s};\n' % ','.join(map(str, TABLE))
    h += 'struct Number { int type; long long value; };\nstatic const Number NUMBERS[] = {%s};\n' % ','.join('{%d, %s}' % (t, '(-9223372036854775807LL - 1)' if v == -(1 << 63) else '%dLL' % v) for t, v in INTS)
    for i, w in enumerate(WIDE):
        h += 'static const unsigned short W%d[] = {%s};\n' % (i, ','.join(map(str, units(w) + [0])))
    h += 'static const unsigned short* const WIDES[] = {%s};\n' % ','.join('W%d' % i for i in range(len(WIDE)))
    d = ctx.scratch.sub('tables')
    open(d + '/string_tables.h', 'w').write(h)
    return d


def run(ctx):
    d = tables(ctx)

    def model(cap, pairs, lens, ops, depth, sim=None, both=(1,), ks=(0, 1, 2, 3, 9, 20), room=500):
        m = run_tlc(ctx, 'Strings', consts={'Cap': cap, 'Pairs': set(pairs), 'Lens': set(lens), 'Ks': set(ks), 'Table': list(TABLE), 'Ints': [[t, list(digits(t, v).encode())] for t, v in INTS],
                                               'Wide': [[units(w), list(w.encode())] for w in WIDE], 'Ops': set(ops), 'Both': set(both), 'Room': room, 'Depth': depth, 'Few': 2 if sim else 0},
                            invariants=('Bounded', 'Ordered', 'Emitted'), simulate=sim, depth=depth + 1, workers=2, name='strings%d-%d-%d' % (cap, depth, room))
        ctx.log('size %d, %d operations: %d histories' % (max(cap, 0), depth, len(m.vectors)))
        return cap, m
    q = ctx.quick()
    pairs = [(0, 0, 0), (1, 2, 0), (5, 5, 0), (15, 16, 0), (16, 15, 1), (59, 60, 0), (60, 3, 1), (64, 0, 0), (130, 63, 0)]
    some = [0, 15, 16, 60, 124] if q else [0, 1, 15, 16, 59, 60, 61, 64, 123, 124]
    ks2 = (1, 2, 9) if q else (0, 1, 2, 3, 9, 20)
    fl = [0, 1, 2, 3, 4, 5, 14, 15, 16, 17, 63, 64, 65]
    ms = parallel([lambda: build(ctx, 'string', ['string_driver.cpp'], flags=['-I' + d], opt='-O1'),
                   lambda: model(-1, pairs, LENS, DYN, 1, both=(1, 2)),
                   lambda: model(-1, pairs[3:4] if q else pairs, some, DYN, 2, ks=ks2),
                   lambda: model(4, [(3, 2, 0)] if q else [(0, 0, 0), (3, 2, 0), (4, 4, 1)], [0, 1, 4, 5, 9], FIX, 2, ks=ks2),
                   lambda: model(1, [(0, 1, 0)] if q else [(0, 0, 0), (1, 1, 1)], [0, 1, 2], FIX, 2, ks=ks2[:2]),
                   lambda: model(15, [(0, 3, 0), (14, 15, 0), (15, 8, 1)], fl, FIX, 1 if q else 2, both=(1, 2)),
                   lambda: model(-1, [(255, 1000, 0)] if q else [(0, 0, 0), (255, 256, 0), (1000, 3, 1), (4090, 4100, 0)], LARGE, DYN, 1, ks=(36, 37, 150), room=20000, both=(1, 2)),
                   lambda: model(255, [(254, 300, 0), (0, 255, 1)], LARGE[:6], FIX, 1, ks=(36, 37), room=20000),
                   lambda: model(-1, pairs[:1], [0], ['newc', 'esc', 'lower', 'upper'], 2),
                   lambda: model(-1, pairs, LENS, DYN, 12, sim=ctx.pick(600, 3000), both=(1, 2)),
                   lambda: model(64, [(0, 3, 0), (40, 30, 1)], fl, FIX, 14, sim=ctx.pick(600, 3000), both=(1, 2)),
                   lambda: model(15, [(0, 3, 0), (10, 4, 1)], fl, FIX, 14, sim=ctx.pick(600, 3000), both=(1, 2))], n=8)
    exe = ms[0]
    r = random.Random(SEED * 7 + 3)
    jobs = []
    for n, (cap, m) in enumerate(ms[1:]):
        vs = m.vectors
        most = ctx.pick(4000, 40000) if n >= 8 else 600000
        if len(vs) > most:
            vs = r.sample(vs, most)
        jobs += [(cap, h, o) for h, o in vs]
    lines = ['%d %s' % (cap, '|'.join('%s,%d,%d,%d' % tuple(x) for x in h)) for cap, h, o in jobs]
    outs = run_parallel(ctx, exe, lines)
    for (cap, h, o), line, out in zip(jobs, lines, outs):
        if out is None:
            continue
        exp = '|'.join(','.join(map(str, x)) for x in o) + '|'
        if isinstance(out, Crash) or out != 'ok ' + exp:
            why = out.why if isinstance(out, Crash) else out
            step = ''
            if not isinstance(out, Crash):
                for n, (g, e) in enumerate(zip(out.split(' ', 1)[1].split('@')[-1].split('|'), exp.split('|'))):
                    if g != e:
                        step = ' (after operation %d %s: %s, must be %s)' % (n + 1, h[n] if n < len(h) else '', g, e)
                        break
            raise Violation('String<%d>, history %s: %s%s' % (max(cap, 0), h, why[:500], step), {'command': line, 'expected': exp, 'observed': str(why)})
    ctx.traces += len(jobs)
    ctx.count('operations', sum(len(h) for _, h, _ in jobs))
    for cap, h, o in jobs[::max(1, len(jobs) // 6)]:
        ctx.sample({'size': cap, 'history': h[:8]})
