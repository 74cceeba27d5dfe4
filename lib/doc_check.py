"""C06: histories of one document object, enumerated by TLC."""
import random
from vf import *
import text_check as T
import bind_check as B

INNER = ['rec', 1, 'free', [['req', b'p', ['num'], ['n', [48]]], ['opt', b'q', ['str', 0], ['s', list(b'dflt')]]]]
TYPES = [['num'], ['str', 1], ['arr', 0, ['num']], ['rec', 2, 'mem', [['req', b'a', ['num'], ['n', [48]]], ['opt', b'n', INNER, B.fresh(INNER)]]], ['map', 0, ['num']]]
DATA = [(1, ['n', list(b'2.5')]), (2, ['s', list(b'x"y')]), (3, ['a', [['n', [49]], ['n', [50]]]]), (4, ['r', [['n', [55]], ['r', [['n', [56]], ['s', [97]]]]]]), (5, ['m', [[[97], ['n', [49]]]]]), (3, ['a', []])]
BUFFERS = [b'[1,2,3]\0', b'{"a":1,"n":{"p":2}}\0', b'"str"\0', b'null\0', b'{"a":1\0', b'[1,2,]\0', b'\0', b'', b'[1]', b'1.5\0', b'{"a":[1,{"b":null}],"n":true}\0', b' \0', b'{"a":1,"a":2}x\0', b'["a","b\\n"', b'[' * 1025 + b'\0']
FILES = [b'[4,5]', b'{"a":3}', b'', b'[', b'7', b'[' + b' ' * 65532 + b']', b'[' + b' ' * 65533 + b']', b'"unterminated']


def ops_line(hist):
    o = []
    for k, i in hist:
        if k == 'pb':
            o.append('pb:' + BUFFERS[i - 1].hex())
        elif k == 'pf':
            o.append('pf:' + FILES[i - 1].hex())
        elif k == 's':
            o.append('s:%d:%s' % (DATA[i - 1][0] - 1, B.data(DATA[i - 1][1])))
        elif k in ('v', 'd'):
            o.append('%s:%d' % (k, i - 1))
        else:
            o.append(k)
    return '|'.join(o)


def model(ctx, depth, sim=None, workers=None):
    return run_tlc(ctx, 'Document', consts={'MaxDepth': 1024, 'Buffers': [bytes(b) for b in BUFFERS], 'Files': Raw('<<' + ', '.join(tla(f) if len(f) < 100 else '<<91>> \\o [i \\in 1..%d |-> 32] \\o <<93>>' % (len(f) - 2) for f in FILES) + '>>'), 'Types': [B.tt(t) for t in TYPES],
                   'Data': [list(d) for d in DATA], 'MaxFile': 65534, 'Depth': depth, 'Few': 3 if sim else 0}, invariants=('LastWins', 'Emitted'), properties=('Observers',), workers=workers or (4 if not sim else 2), simulate=sim, depth=depth + 1, heap='4g', name='doc%d' % depth, timeout=2500)


MEMO = {}


def cn(v):
    k = repr(v)
    if k not in MEMO:
        MEMO[k] = canon(v)
    return MEMO[k]


def judge(hist, exp, out, written):
    """None if a history went as specified, otherwise what did not; collects written texts."""
    if isinstance(out, Crash):
        return out.why
    for n, (op, e, o) in enumerate(zip(hist, exp, out.split('|'))):
        s, l, c, d, extra = o.split(' ')
        root, sts, el, ec, delivered = e
        if s not in sts:
            return 'operation %d %s reports %s, must be %s' % (n + 1, op, s, sts)
        if op[0] in ('pb', 'pf') and (int(l), int(c)) != (el, ec):
            return 'operation %d %s reports position %s:%s, must be %d:%d' % (n + 1, op, l, c, el, ec)
        if d != cn(root):
            return 'after operation %d %s the document is %s, must be %s' % (n + 1, op, d[:200], cn(root)[:200])
        if op[0] == 'd' and s == 'kOk' and extra != B.data(delivered):
            return 'operation %d %s delivers %s' % (n + 1, op, extra[:200])
        if op[0] == 'w':
            if s == 'kOk':
                written.setdefault(extra[1:], root)
            elif extra != 'x':
                return 'writing an empty document wrote a file'
    return None


def judge_written(ctx, written, jobs=2):
    """The written texts are read by the specification."""
    ws = sorted(written)
    for w, rep in zip(ws, T.evaluate(ctx, [bytes.fromhex(w) + b'\0' for w in ws], jobs=jobs)):
        if rep[0] != 'kOk' or canon(rep[3]) != cn(written[w]):
            raise Violation('the document %s is written as %r' % (cn(written[w])[:200], bytes.fromhex(w)[:200]), {'written': w})


def run(ctx):
    exe, a, b = parallel([lambda: B.build_program(ctx, TYPES, 'doc', 4, 'doc_main.cpp', 'RegisterDoc'), lambda: model(ctx, ctx.pick(2, 3)), lambda: model(ctx, 12, ctx.pick(2600, 5000))], n=3)
    r = random.Random(SEED)
    vecs = a.vectors + r.sample(b.vectors, min(len(b.vectors), ctx.pick(8000, 15000)))
    ctx.log('%d histories from TLC' % len(vecs))
    lines = [ops_line(h) for h, o in vecs]
    outs = run_parallel(ctx, exe, lines, per_args=True)
    written = {}
    for (hist, exp), line, out in zip(vecs, lines, outs):
        if out is None:
            continue
        w = judge(hist, exp, out, written)
        if w:
            raise Violation('history %s: %s' % (hist, w), {'command': line[:100000], 'history': hist, 'observed': str(out)[:5000], 'what': w})
        ctx.count('operations', len(hist))
    judge_written(ctx, written)
    ctx.traces += len(vecs)
    for h, e in vecs[::max(1, len(vecs) // 6)]:
        ctx.sample(h)
