"""C14: histories of maps; every balanced tree of a bounded size, every operation on it, and what follows; judged by TLC."""
import random
from vf import *
from write_check import eval_recs


def line(n, every, ops):
    return '%d %d %s' % (n, every, '|'.join('%s,%d,%d' % tuple(o) for o in ops))


class Sim:
    """Keeps track of where elements are, to write only legal operations (the oracle is the specification)."""
    def __init__(self, n):
        self.w = [0] * n

    def apply(self, op):
        o, m, x = op
        w = self.w
        if o in ('ins', 'rsv'):
            if not any(w[e] == m and e // 2 == x // 2 for e in (x, x ^ 1) if e < len(w)):
                w[x] = m
        elif o == 'rep':
            if w[x] != m:
                if (x ^ 1) < len(w) and w[x ^ 1] == m:
                    w[x ^ 1] = 0
                w[x] = m
        elif o in ('rem', 'det', 'make'):
            w[x] = 0
        elif o == 'del':
            w[x] = 3
        elif o in ('purge', 'destroy'):
            for e in range(len(w)):
                if w[e] == m:
                    w[e] = 3
        elif o == 'clear':
            for e in range(len(w)):
                if w[e] == m:
                    w[e] = 0

    def legal(self, op):
        o, m, x = op
        if o in ('ins', 'rsv', 'rep', 'det', 'del'):
            return self.w[x] != 3
        if o == 'rem':
            return self.w[x] == m
        if o == 'make':
            return self.w[x] == 3
        return True


def suffix(r, n, ops, k, bias=None):
    """k more random operations after ops."""
    s = Sim(n)
    for o in ops:
        s.apply(o)
    out = []
    while len(out) < k:
        q = r.random()
        e = r.randrange(n)
        if bias == 'remove':
            q = q * .75 if s.w[e] == 1 else .2
        m = 1 if r.random() < .9 else 2
        if q < .45:
            op = ['rem', s.w[e], e] if s.w[e] in (1, 2) else (['ins', m, e] if s.w[e] != 3 else ['make', 0, e])
        elif q < .6:
            op = ['det' if r.random() < .5 else 'del', 0, e]
        elif q < .7:
            op = ['rsv', m, e]
        elif q < .8:
            op = ['rep', m, e]
        elif q < .9:
            op = ['find', m, e // 2]
        elif q < .97:
            op = ['ins', m, e]
        elif q < .98:
            op = [r.choice(['purge', 'destroy', 'clear']), m, 0]
        else:
            op = ['make', 0, e]
        if s.legal(op):
            s.apply(op)
            out.append(op)
    return out


def run(ctx):
    exe, g, sim = parallel([
        lambda: build(ctx, 'map', ['map_driver.cpp'], opt='-O1'),
        lambda: run_tlc(ctx, 'GenMap', consts={'Keys': Raw('0..%d' % (ctx.pick(9, 11) - 1))}, invariants=('Refines', 'Emitted'), view='View', workers=1),
        lambda: run_tlc(ctx, 'SimMap', consts={'Keys': Raw('0..6'), 'Depth': 40, 'Few': 4}, invariants=('Unique', 'Emitted'), simulate=ctx.pick(250, 4000), depth=41, workers=1)], n=3)
    r = random.Random(SEED * 5 + 2)
    K = ctx.pick(9, 11)
    n = 2 * K
    jobs = []
    for h in g.vectors:
        s = Sim(n)
        for o in h:
            s.apply(o)
        for k in range(K):
            e = 2 * k
            ops = [['rem', 1, e], ['del', 0, e], ['rep', 1, e + 1]] if s.w[e] == 1 else [['ins', 1, e], ['rsv', 1, e]]
            op = ops[0] if r.random() < .6 else r.choice(ops)
            # after the operation: removals and insertions that depend on the balances left behind
            jobs.append((n, 1, h + [op] + suffix(r, n, h + [op], ctx.pick(5, 8), r.choice([None, 'remove']))))
    ctx.count('trees_times_operations', len(jobs))
    ctx.log('%d balanced trees from TLC, %d histories' % (len(g.vectors), len(jobs)))
    if len(jobs) > ctx.pick(15000, 80000):
        jobs = r.sample(jobs, ctx.pick(15000, 80000))
    sims = r.sample(sim.vectors, min(len(sim.vectors), ctx.pick(250, 4000)))
    jobs += [(14, 1, h) for h in sims]
    for k in range(ctx.pick(60, 1200)):
        m = r.choice([24, 40, 80, 200, 300])
        jobs.append((m, r.choice([1, 2, 7]) if m < 100 else 17, suffix(r, m, [], r.choice([60, 150, 300]), r.choice([None, None, 'remove']))))
    for m in (64, 256):
        for order in (range(0, m, 2), range(m - 2, -1, -2), [x * 34 % m // 2 * 2 for x in range(m // 2)]):
            seq = list(dict.fromkeys(order))
            jobs.append((m, 5, [['ins', 1, e] for e in seq] + [['rem', 1, e] for e in (seq if m == 64 else reversed(seq))]))
    lines = [line(*j) for j in jobs]
    outs = run_parallel(ctx, exe, lines)
    recs, ids = [], []
    for k, (j, l, o) in enumerate(zip(jobs, lines, outs)):
        if o is None:
            continue
        if isinstance(o, Crash) or not o.startswith('ok '):
            raise Violation('history %s: %s' % (l[:2000], o.why if isinstance(o, Crash) else 'an element is not destroyed with its map'), {'command': l, 'observed': str(o)[-2000:]})
        recs.append({'n': j[0], 'ops': j[2], 'obs': json.loads(o[3:])})
        ids.append(k)
    ctx.log('%d histories executed, TLC judges them' % len(recs))
    vs = eval_recs(ctx, 'EvalMap', recs)
    for k, rec, v in zip(ids, recs, vs):
        if v:
            raise Violation('history of a map: operation %d %s is not as specified: %s after %s' % (v, rec['ops'][v - 1], json.dumps(rec['obs'][v - 1])[:600], rec['ops'][:v - 1][-30:]),
                            {'command': lines[k], 'step': v, 'ops': rec['ops'][:v], 'observed': rec['obs'][v - 1]})
    ctx.traces += len(recs)
    ctx.count('operations', sum(len(x['ops']) for x in recs))
    for x in recs[::max(1, len(recs) // 6)]:
        ctx.sample(x['ops'][:12])
    # histories that are wrong are refused
    dmg = []
    for x in recs[:: max(1, len(recs) // 60)]:
        o = json.loads(json.dumps(x))
        last = o['obs'][-1]
        if last['maps'] and last['maps'][0]['fwd']:
            last['maps'][0]['fwd'].pop()
        else:
            last['res'] += 5
        dmg.append(o)
    if any(v == 0 for v in eval_recs(ctx, 'EvalMap', dmg, jobs=1)):
        raise TlcError('a damaged history is accepted')
    ctx.count('damaged_histories_refused', len(dmg))
