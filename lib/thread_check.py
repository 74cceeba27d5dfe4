"""C20: threads with documents of their own and a shared one, under schedules enumerated by TLC, under the thread sanitizer."""
import random
from vf import *
import text_check as T
import bind_check as B
import doc_check as D
from io_check import WRAP

STRS = [b'[1,2,3]\0', b'{"a":1,"n":{"p":2,"q":"w\\u00e9x"}}\0', b'{"a":1,\n"n":{"p":2\0', b'["abc","d\\q"]\0', b'{"k":[0.25,-7e-3,{"x":"yz"}],"l":null,"m":true}\0', b'{"one":1,"two":2,"three":3}\0', b'"a longer string than the others \\ud83d\\ude00"\0', b'[1.5,2.5,1e308,\n\n nul]\0', b'12345.678\0', b'[[],{},"",[[{}]]]\0']
FILES = [b'[4,5,"six"]', b'{"a":3,"n":{"p":4}}', b'[\n1,']
SHARED = 2
TSAN = ['-fsanitize=thread']


def op_text(op):
    k, i = op
    if k == 'pb':
        return 'pb:' + STRS[i - 1].hex()
    if k == 'pf':
        return 'pf:' + FILES[i - 1].hex()
    if k == 's':
        return 's:%d:%s' % (D.DATA[i - 1][0] - 1, B.data(D.DATA[i - 1][1]))
    if k in ('v', 'd', 'V', 'R'):
        return '%s:%d' % (k, i - 1)
    return k


def run(ctx):
    r = random.Random(SEED * 3 + 20)
    nt = len(D.TYPES)
    ops = [['pb', i + 1] for i in range(len(STRS))] + [['pf', i + 1] for i in range(len(FILES))] + [['missing', 0], ['w', 0], ['L', 0]] + [['s', i + 1] for i in range(len(D.DATA))] + \
          [[k, i + 1] for k in 'vd' for i in range(nt)] + [['V', 1], ['V', 4], ['R', 4], ['R', 3], ['R', 5]]
    pairs = [[[r.choice([1, 2, 5, 6]), [a]], [r.choice([1, 2, 5, 6]), [b]]] for i, a in enumerate(ops) for b in ops[i:]]
    fixed = [p for p in pairs if p[0][1][0][0] == p[1][1][0][0]]
    rest = [p for p in pairs if p not in fixed]
    pairs = fixed + r.sample(rest, min(len(rest), ctx.pick(120, 1000)))
    many = [[[r.choice([1, 2, 4, 5, 6]), [r.choice(ops) for _ in range(3)]] for _ in range(r.choice([2, 3, 4]))] for _ in range(ctx.pick(300, 3000))]

    def model(progs, cuts, segments, name, sim=None):
        return run_tlc(ctx, 'Threads', spec='TSpec', consts={'MaxDepth': 1024, 'Buffers': [bytes(b) for b in STRS], 'Files': [bytes(f) for f in FILES], 'Types': [B.tt(t) for t in D.TYPES], 'Data': [list(d) for d in D.DATA], 'MaxFile': 65534,
                       'Depth': 0, 'Few': 0, 'Progs': Raw('{' + ', '.join(tla(p) for p in progs) + '}'), 'SharedBuffer': SHARED, 'Cuts': Raw('{' + ', '.join(map(str, cuts)) + '}'), 'Segments': segments},
                       invariants=('Isolation', 'Emitted4'), workers=3, simulate=sim, depth=60, heap='4g', name=name, timeout=2500)
    res = parallel([lambda: B.build_program(ctx, D.TYPES, 'threads', 4, 'thread_main.cpp', 'RegisterDoc', san=False, flags=TSAN, ldflags=WRAP + TSAN),
                    lambda: model(pairs, ctx.pick([1, 4], [1, 2, 5, 12]), 1, 'pairs'),
                    lambda: model(many, [1, 2, 3, 7, 15], 2, 'many', ctx.pick(1500, 40000))], n=3)
    exe, a, b = res
    seen, vecs = set(), []
    for v in a.vectors + b.vectors:
        k = json.dumps(v[:2])
        if k not in seen:
            seen.add(k)
            vecs.append(v)
    va = vecs[:len(a.vectors)]
    va = r.sample(va, min(len(va), ctx.pick(3000, 60000)))
    vecs = va + vecs[len(a.vectors):]
    progs = lambda p: ' '.join(STRS[s - 1].hex() + ';' + '|'.join(op_text(o) for o in os_) for s, os_ in p)
    lines = [','.join('%d:%d' % tuple(e) for e in sched) + ' ' + STRS[SHARED - 1].hex() + ' ' + progs(p) for p, sched, outs in vecs]
    free = [v for v in vecs if len(v[0]) > 2 or r.random() < .1]
    free = r.sample(free, min(len(free), ctx.pick(300, 4000)))
    vecs = vecs + free
    lines += ['free:4 ' + STRS[SHARED - 1].hex() + ' ' + progs(p) for p, sched, outs in free]
    ctx.log('%d schedules from TLC' % len(lines))
    env = dict(ENV, TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1')
    outs = run_parallel(ctx, exe, lines, per_args=True, stall=150, env=env, jobs=4)
    memo, written, messages, given_up = {}, {}, {}, 0

    def cn(v):
        k = repr(v)
        if k not in memo:
            memo[k] = canon(v)
        return memo[k]
    for (p, sched, exp), line, out in zip(vecs, lines, outs):
        if out is None:
            continue

        def bad(msg):
            raise Violation('threads %s under schedule %s: %s' % (p, line.split(' ')[0], msg), {'command': line[:100000], 'programs': p, 'schedule': line.split(' ')[0], 'observed': str(out)[:5000], 'what': msg})
        if isinstance(out, Crash):
            bad(out.why)
        if out.startswith('runs differ'):
            bad(out)
        *ts, ab = out.split(';')
        given_up += int(ab)
        for t, (th, es) in enumerate(zip(ts, exp)):
            for n, (op, e, o) in enumerate(zip(p[t][1], es, th.split('|'))):
                s, l, c, d, extra = o.split(' ')
                root, sts, el, ec, delivered = e
                where = 'thread %d operation %d %s' % (t + 1, n + 1, op)
                if s not in sts:
                    bad('%s reports %s, alone it would be %s' % (where, s, sts))
                if op[0] in ('pb', 'pf') and (int(l), int(c)) != (el, ec):
                    bad('%s reports position %s:%s, alone it would be %d:%d' % (where, l, c, el, ec))
                if d != cn(root):
                    bad('after %s the document is %s, alone it would be %s' % (where, d[:200], cn(root)[:200]))
                if op[0] in ('d', 'R') and s == 'kOk' and extra != B.data(delivered):
                    bad('%s delivers %s' % (where, extra[:200]))
                if op[0] == 'L' and extra != cn(delivered):
                    bad('%s sees %s' % (where, extra[:200]))
                if op[0] in ('pb', 'pf', 'missing'):
                    m = bytes.fromhex(extra[1:])
                    tail = b'. Line: %d, column: %d' % (el, ec) if el else b''
                    base = m[:len(m) - len(tail)]
                    if m[len(base):] != tail or messages.setdefault(s, base) != base:
                        bad('%s is described as %r' % (where, m))
                if op[0] == 'w':
                    if s == 'kOk':
                        written.setdefault(extra[1:], (root, line))
                    elif extra != 'x':
                        bad('writing an empty document wrote a file')
                ctx.count('operations')
    ws = sorted(written)
    for w, rep in zip(ws, T.evaluate(ctx, [bytes.fromhex(w) + b'\0' for w in ws], jobs=1)):
        root, line = written[w]
        if rep[0] != 'kOk' or canon(rep[3]) != cn(root):
            raise Violation('the document %s is written as %r' % (cn(root)[:200], bytes.fromhex(w)[:200]), {'command': line[:100000]})
    ctx.cover['abandoned_schedules'] = given_up
    ctx.traces += len(lines)
    for v in vecs[::max(1, len(vecs) // 6)]:
        ctx.sample(v[:2])
