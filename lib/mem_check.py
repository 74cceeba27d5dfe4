"""C13: histories of one document object in which an operation runs out of memory, enumerated by TLC; heap traces judged by TLC."""
import random
from vf import *
import text_check as T
import bind_check as B
import doc_check as D
from write_check import eval_recs

LONG = b'longer than the sixteen bytes that fit inside'
BUFFERS = [b'[1,"two",[3,"' + LONG + b'"],{"k":null,"' + LONG + b'":[true]}]\0', b'{"a":1,"n":{"p":2,"q":"' + LONG + b'"}}\0', b'"' + LONG + b'\\n"\0', b'{"a":[1,{"b":null,"c":["x",{}]}],"n":tru}\0',
           b'["a","b\\q"]\0', b'{"a":1,"a":"again","b":[]}\0', b'{"a":1,"b":{"c":2}}x\0', b'', b'[1,2,3,4,5,6,7,8,9]\0', b'{"one":1,"two":2,"three":3,"four":{"five":5}}\0', b'[[[["' + LONG + b'"', b'1.5\0']
FILES = [b'[4,"' + LONG + b'"]', b'{"a":"' + b'z' * 300 + b'","b":', b'']


def long_data(r, t, d=3):
    """Data with much that needs memory."""
    k = t[0]
    if k == 'str':
        return ['s', list(r.choice([LONG, LONG[::-1], b'x' * 70, b'short', b'']))]
    if k == 'arr':
        return ['a', [long_data(r, t[2], d - 1) for _ in range(r.choice([1, 2, 3, 6]) if d > 1 else 2)]]
    if k == 'map':
        ks = sorted(set(r.sample([LONG, b'a', b'b', b'another rather long name of a member', b'zz'], r.choice([1, 2, 3]))))
        return ['m', [[list(x), long_data(r, t[2], d - 1)] for x in ks]]
    if k == 'rec':
        return ['r', [long_data(r, f[2], d - 1) for f in t[3]]]
    return B.rnd_data(r, t)


def op_text(op, bufs, files, dat):
    k, i = op
    if k == 'pb':
        return 'pb:' + bufs[i - 1].hex()
    if k == 'pf':
        return 'pf:' + files[i - 1].hex()
    if k in ('s', 'D'):
        return '%s:%d:%s' % (k, dat[i - 1][0] - 1, B.data(dat[i - 1][1]))
    if k in ('v', 'd'):
        return '%s:%d' % (k, i - 1)
    return k


def run(ctx):
    r = random.Random(SEED * 7 + 13)
    ntypes = ctx.pick(110, 420)
    types = B.make_types(ntypes, SEED + 13, first=100)
    r.shuffle(types)
    S, N = ['str', 0], ['num']
    holder = ['rec', 90, 'free', [['req', b'l', ['arr', 0, S], ['a', []]], ['opt', b's', S, ['s', []]], ['req', b'm', ['map', 1, S], ['m', []]]]]
    deep = [['arr', 0, ['arr', 0, S]], ['arr', 0, ['arr', 0, ['arr', 0, N]]], ['arr', 1, ['arr', 0, S]], ['arr', 0, ['arr', 1, ['str', 1]]], ['arr', 0, holder], ['map', 1, ['arr', 0, S]], ['map', 0, ['map', 0, ['arr', 0, S]]], ['map', 1, holder], ['arr', 0, ['map', 1, ['arr', 0, S]]]]
    types = D.TYPES + deep + [t for t in types if B.size(t) < 14 or r.random() < .5]
    types = types[:ctx.pick(90, 400)]
    # operations; indices from 1
    dat = list(D.DATA)
    bufs, files = list(BUFFERS), list(FILES)
    nd = len(D.DATA)
    base = [['pb', i + 1] for i in range(len(bufs))] + [['pf', i + 1] for i in range(len(files))] + [['missing', 0], ['directory', 0], ['w', 0], ['wx', 0]] + \
           [['s', i + 1] for i in range(nd)] + [['v', i + 1] for i in range(len(D.TYPES))] + [['d', i + 1] for i in range(len(D.TYPES))]
    firsts = [['new', 0], ['pb', 1], ['pb', 2], ['s', 4]] + ([['pb', 9], ['s', 5], ['s', 3], ['pf', 1]] if not ctx.quick() else [])
    thirds = [['w', 0], ['pb', 2]] + ([['d', 4], ['s', 5], ['new', 0]] if not ctx.quick() else [])
    groups = [[[f], [o], thirds + ([o] if o not in thirds else [])] for f in firsts for o in base]
    for k, t in enumerate(types):
        ds = []
        for _ in range(ctx.pick(1, 3)):
            for mk in (long_data, B.rnd_data):
                v = mk(r, t)
                if len(B.data(v)) < 1500 and '7ff0000000000000' not in B.data(v) and 'fff0000000000000' not in B.data(v):     # infinities cannot be written
                    dat.append((k + 1, v))
                    ds.append(len(dat))
        for j in ds[:1 if ctx.quick() else 6]:
            other = ds[-1]
            bufs.append(B.text(B.doc_of(t, dat[other - 1][1])) + b'\0')
            nb = len(bufs)
            groups.append([[['s', j]], [['s', other], ['v', k + 1], ['D', other], ['d', k + 1], ['w', 0]], [['d', k + 1], ['w', 0]]])
            groups.append([[['pb', nb]], [['D', j], ['s', j], ['pb', nb]], [['v', k + 1], ['w', 0]]])
    ctx.log('%d groups, %d types, %d data' % (len(groups), len(types), len(dat)))

    def model(gs, n):
        return run_tlc(ctx, 'Memory', spec='MSpec', consts={'MaxDepth': 1024, 'Buffers': [bytes(b) for b in bufs], 'Files': [bytes(f) for f in files], 'Types': [B.tt(t) for t in types], 'Data': [list(d) for d in dat],
                       'MaxFile': 65534, 'Depth': 3, 'Few': 0, 'Groups': Raw('{' + ', '.join('<<' + ', '.join('{' + ', '.join(tla(o) for o in s) + '}' for s in g) + '>>' for g in gs) + '}')},
                       invariants=('Sound', 'Emitted3'), properties=('Watchers',), workers=2, heap='4g', name='mem%d' % n, timeout=2500)
    parts = [groups[k::3] for k in range(3)]
    heap = lambda: run_tlc(ctx, 'Heap', consts={'MaxLen': ctx.pick(6, 7), 'NBlocks': 2}, invariants=('Projects',), workers=2)
    res = parallel([lambda: B.build_program(ctx, types, 'mem', 12, 'mem_main.cpp', 'RegisterDoc', opt=ctx.pick('-O0', '-O1')), heap] + [lambda k=k, p=p: model(p, k) for k, p in enumerate(parts)], n=4)
    exe = res[0]
    allowed = {}
    for x in res[2:]:
        for hist, failed, outs in x.vectors:
            allowed.setdefault(json.dumps(hist), {}).setdefault(failed, []).append(outs)
    hists = sorted(allowed)
    lines = ['2 ' + '|'.join(op_text(o, bufs, files, dat) for o in json.loads(h)) for h in hists]
    ctx.log('%d histories from TLC' % len(hists))
    outs = run_parallel(ctx, exe, lines, per_args=True, stall=150)
    memo, written, traces = {}, {}, {}

    def cn(v):
        k = repr(v)
        if k not in memo:
            memo[k] = canon(v)
        return memo[k]

    def wrong(exp, o, op):
        """Why an outcome is not the expected one, or None."""
        s, l, c, d, extra = o.split(' ')
        root, sts, el, ec, delivered = exp
        if s not in sts:
            return 'reports %s, must be %s' % (s, sts)
        if op[0] in ('pb', 'pf') and s != 'kException' and (int(l), int(c)) != (el, ec):
            return 'reports position %s:%s, must be %d:%d' % (l, c, el, ec)
        if d != cn(root):
            return 'leaves the document %s, must be %s' % (d[:300], cn(root)[:300])
        if op[0] in ('d', 'D') and s == 'kOk' and extra != B.data(delivered):
            return 'delivers %s, must be %s' % (extra[:300], B.data(delivered)[:300])
        return None

    runs_total = 0
    for h, line, out in zip(hists, lines, outs):
        if out is None:
            continue
        hist = json.loads(h)

        def bad(msg, run=None):
            raise Violation('history %s: %s' % (hist, msg), {'command': line, 'operations': line.split(' ')[1].split('|'), 'what': msg, 'observed': run})
        if isinstance(out, Crash):
            bad(out.why)
        runs = out.split(';')[:-1]
        for k, run in enumerate(runs):
            runs_total += 1
            o, ev = run.split('#')
            os_ = o.split('|')[:-1]
            branches = allowed[h][0] if k == 0 else allowed[h].get(2, [])
            where = 'with all the memory it needs' if k == 0 else 'when request %d of %d in operation 2 is refused' % (k, len(runs) - 1)
            best, step = None, -1
            for br in branches:
                w = None
                for n, (e, x) in enumerate(zip(br, os_)):
                    w = wrong(e, x, hist[n])
                    if w:
                        if n > step:
                            best, step = 'operation %d %s %s' % (n + 1, hist[n], w), n
                        break
                if not w:
                    best = None
                    break
            if best:
                bad(where + ': ' + best, run[:3000])
            if k and hist[1][0] in ('d', 'D'):
                ag = os_[1].split(' ')[4]
                if ag != '-' and ag[6:] not in allowed[h][0][0][1][1]:
                    bad(where + ': the object cannot be used again: ' + ag, run[:3000])
            for n, x in enumerate(os_):
                x = x.split(' ')
                if hist[n][0] == 'w' and x[0] == 'kOk':
                    written.setdefault(x[4][1:], (x[3], line))
            traces.setdefault(ev, (line, where, 1 if k else 0))
    evs = list(traces)
    ctx.log('%d runs, %d different heap traces with %d events, %d files' % (runs_total, len(evs), sum(e.count(',') for e in evs), len(written)))
    # projected to blocks
    forms = ['new', 'new[]', 'delete', 'delete[]']
    lives = {}
    for e in evs:
        blocks, fails = {}, 0
        for x in e.split(',')[:-1]:
            x = int(x)
            if x == 4:
                fails += 1
            else:
                blocks.setdefault(x >> 3, []).append(x & 7)
        for b, fs in blocks.items():
            lives.setdefault(tuple(fs), []).append((e, b))
        if fails != traces[e][2]:
            raise TlcError('trace with %d refusals' % fails)
        ctx.count('blocks', len(blocks))
    ls = sorted(lives)
    for fs, good in zip(ls, eval_recs(ctx, 'EvalHeap', [[forms[f] for f in fs] for fs in ls], {'MaxLen': 1, 'NBlocks': 1}, jobs=1, spec='ESpec')):
        if not good:
            e, b = lives[fs][0]
            line, where, f = traces[e]
            what = 'block %d has the history %s' % (b, [forms[f] for f in fs])
            raise Violation('history %s: %s: %s' % (line.split(' ')[1].split('|'), where, what), {'command': line, 'operations': line.split(' ')[1].split('|'), 'what': what, 'where': where, 'blocks': len(lives[fs]), 'trace': e})
    ws = sorted(written)
    reps = T.evaluate(ctx, [bytes.fromhex(w) + b'\0' for w in ws], jobs=3)
    for w, rep in zip(ws, reps):
        root, line = written[w]
        if rep[0] != 'kOk' or canon(rep[3]) != root:
            raise Violation('the document %s is written as %r' % (root[:200], bytes.fromhex(w)[:200]), {'command': line})
    ctx.traces += runs_total
    ctx.cover['heap_traces'] = len(evs)
    ctx.cover['histories'] = len(hists)
    for h in hists[::max(1, len(hists) // 6)]:
        ctx.sample(json.loads(h))

