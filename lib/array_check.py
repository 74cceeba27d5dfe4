"""C15: histories of arrays, enumerated and simulated by TLC, replayed into every kind of array."""
import random
from vf import *

OPS = ['app', 'appm', 'appd', 'ins', 'insm', 'rem', 'reml', 'set', 'seti', 'rsv', 'clear', 'purge', 'copy', 'move', 'write', 'find', 'eq', 'new']
KINDS = ['Array<Tracked>', 'Array<Tracked,1>', 'Array<Tracked,3>', 'Array<Tracked,8>', 'Array<String<>>', 'Array<String<>,4>', 'Array<int>', 'Array<char>', 'Array<int,5>']


def expect(x, k):
    """result, whether the elements stay in place, what is destroyed at the end (for elements that tell), contents of the arrays"""
    return '%ds%s:%s:%s' % (x[0], ''.join('%d,' % g for g in x[3]) if k < 4 else '-', ','.join(map(str, x[1][0])), ','.join(map(str, x[1][1])))


def run(ctx):
    def model(fills, depth, sim=None, ops=OPS, room=40):
        return run_tlc(ctx, 'Arrays', consts={'Fills': set(fills), 'Ops': set(ops), 'Room': room, 'Depth': depth, 'Few': 2 if sim else 0}, invariants=('Laws', 'Roomy', 'Emitted'), simulate=sim, depth=depth + 1, workers=2, name='arrays%d-%d' % (depth, room))
    few = ['app', 'ins', 'rem', 'reml', 'set', 'rsv', 'clear', 'copy', 'move']
    exe, a, b, c, d = parallel([lambda: build(ctx, 'array', ['array_driver.cpp'], opt='-O1'),
                             lambda: model(ctx.pick([0, 1, 3, 4, 5, 8], [0, 1, 2, 3, 4, 5, 7, 8, 9, 12]), 3),
                             lambda: model(ctx.pick([3, 8], [0, 3, 4, 8]), 4, ops=ctx.pick(['ins', 'rem', 'set', 'move', 'copy'], few)) if not ctx.quick() else model([3], 4, ops=['ins', 'rem', 'move', 'copy', 'reml']),
                             lambda: model([0, 2, 6], 25, sim=ctx.pick(500, 6000)),
                             lambda: model(ctx.pick([64, 255, 256, 500], [64, 127, 128, 255, 256, 257, 500, 1000, 1023]), ctx.pick(2, 3), room=2000)], n=5)
    r = random.Random(SEED * 3 + 1)
    sims = r.sample(c.vectors, min(len(c.vectors), ctx.pick(2500, 25000)))
    exh = a.vectors + b.vectors + d.vectors
    ctx.log('%d + %d histories enumerated, %d simulated' % (len(a.vectors), len(b.vectors) + len(d.vectors), len(sims)))
    jobs = []
    for i, (h, o) in enumerate(exh):
        # every history on an array without and on one with storage of its own; the rest in turn
        ks = range(9) if not ctx.quick() else (0, 1 + i % 3, 4 + i % 5)
        jobs += [(k, h, o) for k in ks]
    # a char cannot hold the values of large arrays
    jobs = [(k, h, o) if k != 7 or h[0][2] < 100 else (6, h, o) for k, h, o in jobs]
    for h, o in sims:
        jobs += [(k, h, o) for k in (range(9) if not ctx.quick() else r.sample(range(9), 4))]
    cap = ctx.pick(150000, 1500000)
    if len(jobs) > cap:
        jobs = r.sample(jobs, cap)
    memo = {}

    def enc(h):
        return '|'.join('%s,%d,%d,%d' % tuple(x) for x in h)
    lines = ['%d %s' % (k, enc(h)) for k, h, o in jobs]
    outs = run_parallel(ctx, exe, lines)
    for (k, h, o), line, out in zip(jobs, lines, outs):
        if out is None:
            continue
        exp = [expect(x, k) for x in o]
        bad = isinstance(out, Crash) or not out.startswith('ok ')
        if not bad:
            got = out[3:].split('|')
            bad = len(got) != len(exp) + 1 or any(g != e and (x[2] or g != e.replace('s', 'm', 1)) for g, e, x in zip(got, exp, o))
        if bad:
            why = out.why if isinstance(out, Crash) else out
            step = ''
            if not isinstance(out, Crash):
                got = out.split(' ', 1)[1].split('@')[-1].split('|')
                for n, (g, e, x) in enumerate(zip(got, exp, o)):
                    if g != e and (x[2] or g != e.replace('s', 'm', 1)):
                        step = ' (after operation %d %s: %s, must be %s)' % (n + 1, h[n] if n < len(h) else '', g, e)
                        break
            raise Violation('%s, history %s: %s%s' % (KINDS[k], h, why[:600], step), {'command': line, 'expected': exp, 'observed': str(why)})
    ctx.traces += len(jobs)
    ctx.count('operations', sum(len(h) for _, h, _ in jobs))
    for k, h, o in jobs[::max(1, len(jobs) // 6)]:
        ctx.sample({'array': KINDS[k], 'history': h[:10]})
