"""C08 and C09: files under short and failing system calls, plans enumerated by TLC, recorded calls judged by TLC."""
import random
from vf import *
import text_check as T
from write_check import eval_recs

WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('open', 'open64', 'close', 'read', 'write', 'fstat', 'fstat64'))]


def plan_arg(p):
    return ','.join([str(int(p['open'])), str(int(p['stat'])), str(int(p['close'])), str(p['cap']), str(p['err']), str(p['eof']), ':'.join(map(str, sorted(p['cuts'])))])


def calls_of(s):
    out = []
    for c in s.split(';') if s else []:
        n, a, b, d = c.split(',')
        out.append([n, int(a), int(b), int(d)])
    return out


def model(ctx, kind):
    """The outcome does not depend on how the library cuts its requests (exhaustive for short texts)."""
    run_tlc(ctx, 'MCFileIO', consts={'N': ctx.pick(3, 4), 'Kind': kind}, invariants=('OutcomeOk', 'SuccessMeansAll'), properties=('Ends',), workers=4, name='model-' + kind)


def plans(ctx, kind, n, cut, err, caps):
    r = run_tlc(ctx, 'GenIO', consts={'N': n, 'Kind': kind, 'Cut': set(cut), 'Err': set(err), 'Caps': set(caps)}, invariants=('Emitted',), workers=1, name='gen-%s-%d' % (kind, n))
    return r.vectors


def run_write(ctx):
    exe = build(ctx, 'io', ['io_driver.cpp'], ldflags=WRAP)
    model(ctx, 'write')
    docs = [b'[]', b'null', b'"a"', b'[1,"x",{"k":true}]', b'{"a":[1,2,3],"b":{"c":null,"d":"\\u0001\\"q"},"e":-1.5}', b'[[],{},[{}]]']
    if not ctx.quick():
        docs += [T.rnd_value(random.Random(SEED + k), 3)[:] for k in range(20)]
    olds = ['-', '', b'x'.hex(), (b'old ' * 100).hex()]
    good = run_lines(exe, ['WF 1,1,1,1000000,-1,-1, %s -' % d.hex() for d in docs], [ctx.scratch.sub('w0')])
    jobs = []
    gens = []
    for d, g in zip(docs, good):
        if not isinstance(g, str) or not g.startswith('kOk x'):
            if g == 'reject':
                continue
            raise Violation('writing %r to a healthy file: %s' % (d, g), {'doc': d.hex(), 'observed': str(g)})
        text = bytes.fromhex(g.split(' ')[1][1:])
        gens.append((d, text))
    def gen(d, text):
        n = len(text)
        small = n <= 40
        cut = range(1, n) if small else sorted(set(range(1, n, max(1, n // 25))) | {1, n - 1})
        err = range(0, n + 1) if n <= 120 else sorted(set(range(0, n + 1, n // 40)) | {1, 2, n - 1, n})
        vs = plans(ctx, 'write', n, cut, err, [1, 2, 3, 7, n])
        return vs if len(vs) < 20000 or ctx.quick() else random.Random(SEED).sample(vs, 20000)
    vecs = parallel([lambda d=d, t=t: gen(d, t) for d, t in gens], n=ctx.pick(6, 3))
    k = 0
    for (d, text), vs in zip(gens, vecs):
        for plan, out in vs:
            k += 1
            jobs.append((d, text, plan, out, olds[k % 4]))
    lines = ['WF %s %s %s' % (plan_arg(p), d.hex(), old) for d, text, p, out, old in jobs]
    outs = run_parallel(ctx, exe, lines, per_args=True)
    recs, ids = [], []
    for j, (d, text, p, (st, m), old) in enumerate(jobs):
        o = outs[j]

        def bad(msg):
            raise Violation('writing %r (%d bytes) with plan %s over %s: %s' % (d[:80], len(text), plan_arg(p), 'nothing' if old == '-' else '%d old bytes' % (len(old) // 2), msg), {'command': lines[j], 'observed': str(o), 'what': msg})
        if o is None:
            continue
        if isinstance(o, Crash):
            bad(o.why)
        f = o.split(' ')
        if f[0] != st:
            bad('reported %s, must report %s' % (f[0], st))
        want = old if m < 0 else text[:m].hex()
        have = f[1][1:] if f[1] != '-' else '-'
        if have != want:
            bad('the file holds %s' % (bytes.fromhex(have)[:100] if have != '-' else 'nothing'))
        if f[2] != 'ok':
            bad('a file descriptor is left open')
        if f[3] != 'same':
            bad('the document changed')
        cs = calls_of(f[4] if len(f) > 4 else '')
        recs.append({'kind': 'write', 'plan': dict(p, cuts=sorted(p['cuts'])), 'n': len(text), 'calls': cs})
        ids.append(j)
    vs = eval_recs(ctx, 'EvalIO', recs, jobs=6)
    for j, rec, (ok, pos) in zip(ids, recs, vs):
        if not ok:
            raise Violation('the calls made for %s are not those of a correct write: %s' % (lines[j][:200], rec['calls'][:20]), {'command': lines[j], 'calls': rec['calls']})
    ctx.traces += len(recs)
    ctx.count('call_traces_judged_by_TLC', len(recs))
    ctx.sample({'command': lines[len(lines) // 2][:150], 'calls': recs[len(recs) // 2]['calls'][:12]})
    # nothing to write
    o = run_lines(exe, ['WF 1,1,1,1000,-1,-1, - %s' % b'precious'.hex(), 'WF 1,1,1,1000,-1,-1, - -'], [ctx.scratch.sub('w1')])
    if not all(isinstance(x, str) for x in o) or o[0].split(' ')[:2] != ['kInvalidStructuredData', 'x' + b'precious'.hex()] or o[1].split(' ')[:2] != ['kInvalidStructuredData', '-']:
        raise Violation('writing an empty document: %s' % o, {'observed': str(o)})
    # damaged traces are refused
    dmg = [dict(r, calls=r['calls'][:-1]) for r in recs[:50] if r['calls']] + [dict(r, calls=r['calls'] + [['close', 0, 0, 0]]) for r in recs[:50] if r['calls']]
    bad = sum(1 for ok, pos in eval_recs(ctx, 'EvalIO', dmg, jobs=1) if not ok)
    if bad < len(dmg) - 2:
        raise TlcError('damaged call traces are accepted')
    ctx.count('damaged_traces_refused', bad)


def run_read(ctx):
    exe = build(ctx, 'io', ['io_driver.cpp'], ldflags=WRAP)
    model(ctx, 'read')
    files = [b'', b'1', b'[]', b'{"a":[1,2],"b":"x\\n"}', b'[1,2', b'{"k":tru}', b'"abc"\n', b'[1]\0\0', b'[1]\0x', b' \n\t ', b'[1, "\xc3\xa9", 2.5e3]\n\n']
    if not ctx.quick():
        files += T.random_texts(60, SEED + 5, 200)
    gens = [f for f in files]

    def gen(f):
        n = len(f)
        return plans(ctx, 'read', n, range(1, n) if n > 1 else [], range(0, n + 1), [1, 2, 3, 7, n + 1])
    vecs = parallel([lambda f=f: gen(f) for f in gens], n=6)
    exp = T.evaluate(ctx, [f + b'\0' for f in gens], jobs=2)
    jobs = []
    for f, vs, e in zip(gens, vecs, exp):
        for plan, (out, _) in vs:
            jobs.append((f, plan, out, e))
    # sizes around the limit
    big = []
    for n in (2, 3, 100, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65532, 65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 200000, 1 << 20):
        big.append(b'[' + b' ' * (n - 2) + b']' if n % 2 else b'[' + b'\n' * (n - 2) + b'1')
        big.append(b'"' + b'x' * (n - 2) + b'"')
    bigexp = T.evaluate(ctx, [f + b'\0' for f in big if len(f) <= 70000 and f[:1] == b'['], jobs=8)
    it = iter(bigexp)
    for f in big:
        e = next(it) if len(f) <= 70000 and f[:1] == b'[' else ['kOk', 0, 0, ['s', list(f[1:-1])]]
        base = {'open': True, 'stat': True, 'close': True, 'cuts': [], 'cap': 1 << 30, 'err': -1, 'eof': -1}
        for cap in (1 << 30, 4096, 1000):
            jobs.append((f, dict(base, cap=cap), 'KFileTooLarge' if len(f) > 65534 else 'text', e))
        if len(f) <= 65534:
            jobs.append((f, dict(base, eof=len(f) - 1), 'KFileReadError', e))
            jobs.append((f, dict(base, err=len(f) - 1), 'KFileReadError', e))
            jobs.append((f, dict(base, cuts=[len(f) - 1, len(f) // 2]), 'text', e))
    # sizes that do not fit in 16 or 32 bits (files with holes)
    holes = {}
    for n in (1 << 17, (1 << 31) - 1, 1 << 31, (1 << 31) + 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, (1 << 32) + 65534, (1 << 33) + 4, (1 << 36) + 3, (1 << 40) + 3):
        for f in (b'[1]', b'"x'):
            holes[len(jobs)] = n
            jobs.append((f, {'open': True, 'stat': True, 'close': True, 'cuts': [], 'cap': 1 << 30, 'err': -1, 'eof': -1}, 'KFileTooLarge', None))
    lines = ['RF %s %s%s' % (plan_arg(p), f.hex(), ' %d' % holes[j] if j in holes else '') for j, (f, p, out, e) in enumerate(jobs)]
    outs = run_parallel(ctx, exe, lines, per_args=True)
    recs, ids = [], []
    seven = canon(['n', list(b'7')])
    for j, (f, p, out, e) in enumerate(jobs):
        o = outs[j]

        def bad(msg):
            raise Violation('reading a file of %d bytes %r with plan %s: %s' % (holes.get(j, len(f)), f[:60], plan_arg(p)[:200], msg), {'command': lines[j][:4000], 'observed': str(o)[:2000], 'what': msg})
        if o is None:
            continue
        if isinstance(o, Crash):
            bad(o.why)
        if o == 'nohole':
            continue
        g = o.split(' ')
        if out == 'refused' and not any(c[0] == 'stat' for c in calls_of(g[5] if len(g) > 5 else '')):
            out = 'text'    # the size is found out by other means, which work
        if out == 'text':
            if e[0] == 'kOk':
                want = 'kOk 0 0 ' + canon(e[3])
            else:
                want = '%s %d %d %s' % (e[0], e[1], e[2], seven if e[0] == 'kTextBufferContentsInvalid' else 'none')
            if ' '.join(g[:4]) != want:
                bad('gave %s, parsing the bytes gives %s' % (' '.join(g[:4])[:200], want[:200]))
        elif out == 'refused':
            if g[0] == 'kOk' or g[3] != seven:
                bad('gave %s' % ' '.join(g[:4])[:200])
        elif g[0] != out or g[1:4] != ['0', '0', seven]:
            bad('gave %s, must be %s with the document left alone' % (' '.join(g[:4])[:200], out))
        if g[4] != 'ok':
            bad('a file descriptor is left open')
        cs = calls_of(g[5] if len(g) > 5 else '')
        if len(cs) < 400:
            recs.append({'kind': 'read', 'plan': dict(p, cuts=sorted(p['cuts'])), 'n': min(holes.get(j, len(f)), 1 << 30), 'calls': cs})
            ids.append(j)
    vs = eval_recs(ctx, 'EvalIO', recs, jobs=6)
    for j, rec, (ok, pos) in zip(ids, recs, vs):
        if not ok:
            raise Violation('the calls made for %s are not those of a correct read: %s' % (lines[j][:200], rec['calls'][:20]), {'command': lines[j][:2000], 'calls': rec['calls']})
    ctx.traces += len(outs)
    ctx.count('call_traces_judged_by_TLC', len(recs))
    ctx.sample({'command': lines[len(lines) // 3][:150], 'calls': recs[len(recs) // 3]['calls'][:12]})
